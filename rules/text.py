"""Escaping functions: what is escaped can be read back, and cannot be taken for the structure around it."""
import re
from common import *
from flow import canon, strip
import flow as FL
from relate import Undecided, Space, Stop, Thrown
from transduce import *


def method_of(P, cls, name):
    """definition of virtual method name used by objects of class cls"""
    c, seen = cls, set()
    todo = [cls]
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        for f in P.funcs.values():
            if f.cls == c and f.name == name and f.cfg:
                return f
        todo += sorted(P.supers.get(c, ()))
    return None


# characters the format around the escaped text gives a meaning to
STRUCTURE = {
    'PsiQuoter': (' \n\t\r', 'fields of a line of the PSI format are separated by blanks'),
    'UTTQuoter': (' \n\t\r', 'fields of a line of the UTT format are separated by blanks'),
    'UTTLikeQuoter': (' \n\t\r', 'fields of a lexicon entry are separated by blanks'),
    'BracketingQuoter': ('\n\r\t', 'a pattern is one line'),
}


def quoters(env):
    P = env.P
    for c in sorted({f.cls for f in P.funcs.values() if f.cls}):
        if c in P.recs and 'Quoter' in P.all_supers(c) and any(f.ctor and f.cls == c for f in P.funcs.values()):
            yield c
        elif c in STRUCTURE:
            yield c


def chars(s):
    s = sorted(s)
    if len(s) > 8:
        return '%d characters, among them %r' % (len(s), ''.join(map(chr, s[:3])))
    return repr(''.join(map(chr, s)))


def roundtrip(env, cls, esc, un, n):
    def body(m):
        m.reset_chars()
        obj = construct(env.P, m, cls)
        s = [Ch(i) for i in range(n)]
        try:
            e = m.call(esc, obj, [Str(s)])
            got = Str(tolist(e))
        except Thrown:
            return 'escaping %s fails' % text(m, s)
        try:
            u = m.call(un, obj, [Str(got.v)])
        except Thrown:
            return '%s is escaped to something that cannot be read back (%s)' % (text(m, s), text(m, got.v))
        except Overrun:
            return 'a character after the end of %s is read' % text(m, got.v)
        ul = tolist(u)
        ok = len(ul) == len(s)
        for a, b in zip(ul, s):
            ok = ok and (a == b or isinstance(a, int) and m.setof(b) == frozenset([byte(a)]))
        if ok:
            return None
        return '%s is escaped to %s and read back as %s' % (text(m, s), text(m, got.v), text(m, ul))
    return body


def unstructured(env, cls, esc, bad):
    bs = frozenset(map(ord, bad))

    def body(m):
        m.reset_chars()
        obj = construct(env.P, m, cls)
        s = [Ch(0), Ch(1)]
        e = tolist(m.call(esc, obj, [Str(s)]))
        for c in e:
            if m.setof(c) & bs:
                return 'the escaped form of %s contains %s' % (text(m, s), chars(m.setof(c) & bs))
        return None
    return body


def text(m, v):
    return ' '.join(chars(m.setof(c)) if len(m.setof(c)) > 1 else repr(chr(min(m.setof(c)))) for c in v) or 'the empty text'


def c05(env):
    P = env.P
    for cls in quoters(env):
        esc, un = method_of(P, cls, 'doEscape'), method_of(P, cls, 'doUnescape')
        if esc is None or un is None:
            continue
        env.count('quoters')
        where = '%s:%s' % (esc.file, esc.line)
        laws = [('round trip of %d characters' % n, roundtrip(env, cls, esc, un, n)) for n in (range(5) if env.tier == "thorough" else range(4))]
        if cls in STRUCTURE:
            laws.append(('structure', unstructured(env, cls, esc, STRUCTURE[cls][0])))
        for name, law in laws:
            m = StrMachine(P, Space())
            try:
                out = m.run(law)
            except (Undecided, Overrun) as e:
                env.notes.append('%s: %s not decided: %s' % (cls, name, e or type(e).__name__))
                env.count('undecided')
                continue
            env.count('abstract_inputs', len(out))
            bad = [r for r, s in out if r]
            if bad:
                env.bad('quoter:%s:%s' % (cls, name.split()[0]), where, '%s: %s' % (cls, bad[0]))
                break
            env.ok('%s: %s, %d abstract inputs' % (cls, name, len(out)))
    lost_updates(env)
    always(env)
    converted_fields(env)
    escaped_fields(env)
    env.floor('quoters', 2)


def quoter_call(n, name):
    return n.fn is not None and n.fn.split('::')[-1] in (name, 'do' + name.capitalize()) and 'uoter' in n.fn


def lost_updates(env):
    """a text converted while reading is the text used"""
    P = env.P
    for f in P.funcs.values():
        if not f.cfg:
            continue
        calls = [n for n in f.walk() if quoter_call(n, 'unescape') or quoter_call(n, 'escape')]
        if not calls:
            continue
        if f.cls and 'Quoter' in {f.cls} | set(P.all_supers(f.cls)):
            continue
        lam = any(n.k == 'LambdaExpr' for n in f.walk())
        for n in calls:
            env.count('conversions')
            p = up(n)
            if p is None or p.k in ('CompoundStmt', 'IfStmt', 'ForStmt'):
                env.bad('discarded:' + f.q, n.loc(), '%s discards the converted text' % f.q)
                continue
            t = target(p, n)
            if t is None or t.k != 'DeclRefExpr' or t.get('v') is None or lam:
                env.ok('%s: converted text used' % n.loc())
                continue
            v = t.get('v')
            ty = local_types(f).get(v)
            if ty is None or ty.k == 'ref' or any(v == x and tt.k == 'ref' for x, _, tt in f.params):
                env.ok('%s: converted text stored' % n.loc())
                continue
            own = {x.id for x in p.walk()}
            if any(x.k == 'DeclRefExpr' and x.get('v') == v and x.id not in own for x in f.walk()):
                env.ok('%s: converted text used' % n.loc())
            else:
                env.bad('lost:' + f.q, n.loc(), '%s stores the converted text in a copy that is never used' % f.q)


def always(env):
    """whether a text is converted does not depend on which characters it has"""
    P = env.P
    special = {92}
    for f in P.funcs.values():
        if f.cfg and f.name in ('doUnescape', 'doEscape') and f.cls and 'Quoter' in P.all_supers(f.cls):
            for n in f.walk():
                if n.k == 'StringLiteral' and n.get('s') and len(n.get('s')) <= 2 and not n.get('s')[0].isalnum():
                    special.add(ord(n.get('s')[0]))
    special -= {32, 10, 13, 9}

    def looks_at(c):
        for x in c.walk():
            if x.k == 'CharacterLiteral' and canon(x)[1] in special:
                return True
            if x.k == 'StringLiteral' and any(ord(y) in special for y in x.get('s') or ''):
                return True
        return False
    for f in P.funcs.values():
        if not f.cfg or f.cls and 'Quoter' in {f.cls} | set(P.all_supers(f.cls)):
            continue
        for n in f.walk():
            if n.k not in ('CallExpr', 'CXXMemberCallExpr') or not n.fn or n.fn.split('::')[-1] not in ('unescape', 'doUnescape', 'escape', 'doEscape'):
                continue
            if not ('uoter' in n.fn or any('uoter' in repr(t) for t in [a.t for a in n.c[1:] if a is not None])):
                continue
            p, bad = n, None
            while p.parent is not None and bad is None:
                q = p.parent
                if q.k in ('IfStmt', 'ConditionalOperator') and q.c[0] is not p and q.c[0] is not None and looks_at(q.c[0]):
                    bad = q
                if q.k == 'BinaryOperator' and q.get('op') in ('&&', '||') and q.c[1] is p and looks_at(q.c[0]):
                    bad = q
                p = q
            if bad is not None:
                env.bad('sometimes:' + f.q, n.loc(), '%s converts a text or not depending on the characters it has (%s)' % (f.q, bad.loc()))
            else:
                env.ok()


def up(n):
    p = n.parent
    while p is not None and (p.k.endswith('CastExpr') or p.k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr',
                                                                'CXXConstructExpr') and len([c for c in p.c if c is not None]) == 1):
        p = p.parent
    return p


def target(p, n):
    if p.k == 'CXXOperatorCallExpr' and p.get('op') in ('=', '+='):
        return strip(p.c[1])
    if p.k == 'BinaryOperator' and p.get('op') == '=':
        return strip(p.c[0])
    return None


def converted_fields(env):
    """all texts of a record read from a file are unescaped"""
    P = env.P
    for f in P.funcs.values():
        if not f.cfg or not f.cls or not any('uoter' in repr(t) for _, _, t in f.params) or f.name != 'unescape':
            continue
        rec = P.recs.get(f.cls)
        if rec is None:
            continue
        done = set()
        for n in f.walk():
            if n.k == 'MemberExpr' and n.get('mf'):
                done.add(n.get('mf'))
        for x in rec['fields']:
            ts = repr(x['t'])
            if not ('basic_string<' in ts or P.recs.get(x['t'].q or '') and any(g.name == 'unescape' for g in P.funcs.values() if g.cls == x['t'].q)):
                continue
            env.count('text_fields')
            good = False
            for n in f.walk():
                if quoter_call(n, 'unescape'):
                    t = target(up(n), n) if up(n) is not None else None
                    if t is not None and (canon(t)[0] == 'f' and canon(t)[2] == x['q']):
                        good = True
                    if t is not None and t.k == 'DeclRefExpr' and any(y.k == 'MemberExpr' and y.get('mf') == x['q'] for y in f.walk()):
                        good = True         # element of the list, see lost_updates
                if n.fn and n.fn.split('::')[-1] == 'unescape' and n.k == 'CXXMemberCallExpr' and any(
                        y.k == 'MemberExpr' and y.get('mf') == x['q'] for y in n.c[0].walk()):
                    good = True
                if n.k == 'CXXOperatorCallExpr' and n.get('op') == '=' and any(quoter_call(y, 'unescape') for y in n.walk()) and any(
                        y.k == 'MemberExpr' and y.get('mf') == x['q'] for y in n.c[1].walk()):
                    good = True
            if good:
                env.ok('%s:%s: %s is unescaped' % (f.file, f.line, x['q']))
            else:
                env.bad('field:' + x['q'], '%s:%s' % (f.file, f.line), '%s leaves %s escaped' % (f.q, x['q']))


RAW_TEXT = ('Lattice::getEdgeText', 'Lattice::getAllText', 'Lattice::getPathText', 'Lattice::getSequenceText', 'AnnotationItem::getText', 'AnnotationItem::getCategory',
            'AnnotationItem::getTextAsStringFrag', 'AnnotationItemManager::getValues', 'AnnotationItemManager::getAVMap',
            'AnnotationItemManager::getValueAsString', 'AnnotationItemManager::getStringValue', 'AnnotationItemManager::zvalueToString',
            'AnnotationItemManager::to_string', 'LayerTagManager::getTagNames', 'Lattice::EdgeUsage::getRole')


def escaped_fields(env):
    """every text of the lattice that becomes a field of a PSI line was escaped"""
    import taint as T
    P = env.P
    cls = 'PsiLatticeWriter'

    def source(n, f):
        if n.fn in RAW_TEXT and n.k in ('CXXMemberCallExpr', 'CallExpr'):
            return frozenset(['raw'])
        return T.NONE
    found = {}

    def body(f):
        return f.file.startswith('formats/psi/psi_writer/')
    tn = T.Taint(env, source, lambda q: 'escaped' if quoter_call_name(q) else None, lambda n: None, body)

    def visit(f, n, st, tn):
        if n.fn and n.fn.split('::')[-1] in ('printTableRow_', 'printLine_', 'print_', 'alignOutput_') and n.k in ('CXXMemberCallExpr', 'CallExpr'):
            lab = T.NONE
            for x in n.c[1:]:
                lab |= tn.val(x, st, f)
            found[(f.q, n.l, n.loc())] = found.get((f.q, n.l, n.loc()), T.NONE) | lab
    tn.visit = visit
    roots = [f for f in P.funcs.values() if body(f) and f.cfg and f.cls and f.cls.startswith(cls)]
    tn.fixpoint(roots)
    for (q, l, where), lab in sorted(found.items()):
        env.count('lines_written')
        if 'raw' in lab:
            env.bad('raw:' + q, where, '%s writes a text of the lattice into a line of the PSI format without escaping it' % q)
        else:
            env.ok('%s: %s' % (where, ', '.join(sorted(lab)) or 'no text of the lattice'))


def quoter_call_name(q):
    return q.split('::')[-1] in ('escape', 'doEscape') and 'uoter' in q
