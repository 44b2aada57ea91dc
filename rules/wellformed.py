"""Structured outputs (JSON, DOT) are well-formed whatever text they carry."""
from common import *
from flow import canon, strip
import flow as FL
from relate import Undecided, Space, Stop, Thrown
from outputs import *
import outputs as O

HEX = frozenset(map(ord, '0123456789abcdefABCDEF'))
CONTROL = frozenset(range(32))
ESCAPES = frozenset(map(ord, '"\\/bfnrt'))


class Bad(Exception):
    pass


def cls_of(m, x):
    if isinstance(x, int):
        return frozenset([x % 256])
    if isinstance(x, Ch):
        return m.setof(x)
    return None


def text_item(m, items, i):
    """one item of the inside of a JSON string; returns (next index, what it stands for)"""
    x = items[i]
    if isinstance(x, Tok):
        if x.kind == 'json':
            raise Bad('a value inside a string')
        return i + 1, x
    if isinstance(x, Num):
        raise Bad('a number inside a string')
    s = cls_of(m, x)
    if s & CONTROL:
        raise Bad('the control character %r unescaped' % chr(min(s & CONTROL)))
    if ord('\\') in s:
        if len(s) > 1:
            raise Bad('an unescaped backslash of the text')
        if i + 1 >= len(items):
            raise Bad('a backslash at the end')
        y = items[i + 1]
        e = cls_of(m, y)
        if e == frozenset([ord('u')]):
            rest = items[i + 2:]
            if rest and isinstance(rest[0], Num):
                n = rest[0]
                if n.base != 16 or n.width != 4 or n.fill != ord('0'):
                    raise Bad('\\u not followed by four hexadecimal digits')
                if n.signed and any(c > 127 for c in m.setof(n.c)):
                    raise Bad('\\u followed by a negative number')
                return i + 3, n.c
            hexs = []
            for z in rest[:4]:
                h = cls_of(m, z)
                if h is None or not h <= HEX or len(h) > 1:
                    raise Bad('\\u not followed by four hexadecimal digits')
                hexs.append(chr(min(h)))
            if len(hexs) < 4:
                raise Bad('\\u not followed by four hexadecimal digits')
            return i + 6, int(''.join(hexs), 16)
        if e is None or not e <= ESCAPES:
            raise Bad('a backslash before a character it does not escape')
        return i + 2, {ord('b'): 8, ord('f'): 12, ord('n'): 10, ord('r'): 13, ord('t'): 9}.get(min(e), min(e)) if len(e) == 1 else y
    if ord('"') in s and len(s) > 1:
        raise Bad('an unescaped quotation mark of the text')
    return i + 1, x


class Json:
    """parser of a JSON text with abstract parts"""

    def __init__(self, m, items):
        self.m, self.t, self.i = m, items, 0
        self.strings = []

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in (32, 10, 13, 9):
            self.i += 1

    def peek(self):
        self.ws()
        if self.i >= len(self.t):
            return None
        x = self.t[self.i]
        return chr(x) if isinstance(x, int) else x

    def value(self):
        x = self.peek()
        if isinstance(x, Tok) and x.kind == 'json':
            self.i += 1
        elif x == '"':
            self.string()
        elif x == '[':
            self.i += 1
            if self.peek() == ']':
                self.i += 1
                return
            while True:
                self.value()
                c = self.peek()
                self.i += 1
                if c == ']':
                    return
                if c != ',':
                    raise Bad('two elements of an array without a comma between them' if c is not None else 'an array that is not closed')
        elif x == '{':
            self.i += 1
            if self.peek() == '}':
                self.i += 1
                return
            while True:
                if self.peek() != '"':
                    raise Bad('an object with a key that is no string')
                self.string()
                if self.peek() != ':':
                    raise Bad('a key without a colon')
                self.i += 1
                self.value()
                c = self.peek()
                self.i += 1
                if c == '}':
                    return
                if c != ',':
                    raise Bad('two members of an object without a comma between them' if c is not None else 'an object that is not closed')
        elif isinstance(x, str):
            for w in ('null', 'true', 'false'):
                if self.t[self.i:self.i + len(w)] == [ord(c) for c in w]:
                    self.i += len(w)
                    return
            if x.isdigit() or x == '-':
                self.i += 1
                while isinstance(self.peek(), str) and self.peek().isdigit():
                    self.i += 1
                return
            raise Bad('%r where a value belongs' % x)
        else:
            raise Bad('text that is not quoted' if x is not None else 'a missing value')

    def string(self):
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.t):
                raise Bad('a string that is not closed')
            if self.t[self.i] == ord('"'):
                self.i += 1
                self.strings.append(out)
                return
            self.i, d = text_item(self.m, self.t, self.i)
            out.append(d)

    def all(self):
        self.value()
        if self.peek() is not None:
            raise Bad('something after the end of the value')
        return self


def decodes(m, got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g == w:
            continue
        if isinstance(g, int) and isinstance(w, Ch) and m.setof(w) == frozenset([g]):
            continue
        return False
    return True


def spelled(m, items):
    out = ''
    for x in items:
        if isinstance(x, int):
            out += chr(x)
        elif isinstance(x, Ch):
            s = m.setof(x)
            out += '{%s}' % (chr(min(s)) if len(s) == 1 else 'any of %d characters' % len(s))
        else:
            out += repr(x)
    return out


def decide(env, key, where, what, machine, law):
    m = machine
    try:
        out = m.run(law)
    except (Undecided, Overrun, O.Overrun) as e:
        env.count('undecided')
        env.notes.append('%s not decided: %s' % (what, e or type(e).__name__))
        return
    env.count('abstract_inputs', len(out))
    bad = [r for r, s in out if r]
    if bad:
        env.bad(key, where, '%s: %s' % (what, bad[0]))
    else:
        env.ok('%s: %d abstract inputs' % (what, len(out)))


# ---------------------------------------------------------------- JSON writer

JW = 'JSONLatticeWriterOutput'


class JsonMachine(OutMachine):
    def opaque(self, n, this, args):
        fn = n.fn or ''
        if fn in ('AnnotationItem::getCategory', 'AnnotationItem::getText', 'AnnotationItem::getTextAsStringFrag'):
            return lambda m, n, env: m.fresh()
        if fn == 'AnnotationItemManager::getValues':
            return lambda m, n, env: Vec([Pair(m.fresh(), m.fresh()) for _ in range(m.choose(3))])
        return NotImplemented

    def fresh(self):
        """text of the lattice: one of the texts of an operation is an abstract character, the others are empty"""
        if self.next or self.choose(2) == 0:
            return Str()
        self.next += 1
        return Str([Ch(self.next)])


def json_class(env):
    P = env.P
    recs = sorted(c for c in {f.cls for f in P.funcs.values() if f.cls} if c.split('::')[-1] == JW)
    return recs[0] if recs else None


def json_writer(env):
    P = env.P
    cls = json_class(env)
    env.anchor(cls, 'class ' + JW)
    meths = {f.name: f for f in P.funcs.values() if f.cls == cls and f.cfg}
    ctor = [f for f in P.funcs.values() if f.cls == cls and f.ctor and f.params and f.cfg]
    dtor = [f for f in P.funcs.values() if f.cls == cls and f.dtor and f.cfg]
    env.anchor(ctor and dtor, 'constructor and destructor of ' + JW)
    ctor, dtor = ctor[0], dtor[0]
    public = [f for f in P.funcs.values() if f.cls == cls and f.cfg and not f.ctor and not f.dtor and f.name in ('push', 'openNewSubArray', 'closeSubArray', 'closeSubArrayWithFlattenOneElement')]
    env.anchor(len(public) >= 4, 'operations of ' + JW)

    def make(m):
        m.reset_chars()
        m.next = 0
        out = Stream()
        o = Obj(cls, {})
        e = {'this': o}
        for fl in fields_of(P, cls):
            t = spell(fl[1])
            o.f[fl[0]] = Vec() if t.startswith(VECS) and not t.endswith('*') else None
        for v, _, t in ctor.params:
            e[v] = out
        for i in ctor.inits:
            if i.get('mf') and i['e'] is not None:
                x = strip(i['e'])
                cs = [c for c in (x.c if x is not None else []) if c is not None]
                if x is not None and x.k in ('CXXConstructExpr',) and not cs:
                    continue
                try:
                    o.f[i['mf']] = m.ev(i['e'], e)
                except Undecided:
                    pass
        body = [n for n in ctor.walk() if n.parent is None and n.k == 'CompoundStmt']
        m.stmt(body[0], e)
        return o, out

    # the state of the object: how deep, what is in the open arrays, what was written
    def reach(m):
        """one of the states of the object: built by operations on tokens, at most 3 arrays deep, at most 3 elements each"""
        o, out = make(m)
        arr = [f for f, t in fields_of(P, cls) if spell(t).startswith('std::vector<') and spell(t).endswith('*')]
        stk = [f for f, t in fields_of(P, cls) if spell(t).startswith('std::stack<') or spell(t).startswith('std::vector<std::vector<')]
        if len(arr) != 1 or len(stk) != 1:
            raise Undecided('representation of the arrays')
        if m.choose(2):
            # something was written before
            write_one(m, o)
        depth = m.choose(4)
        vs = [Vec([Str([Tok('json')]) for _ in range(m.choose(4 if i == depth - 1 else 2))]) for i in range(depth)]
        if vs:
            o.f[arr[0]] = vs[-1]
            o.f[stk[0]].v[:] = vs[:-1]
        return o, out

    top = [f for f in public if f.name == 'push' and len(f.params) == 1]

    def write_one(m, o):
        if not top:
            raise Undecided('how an element is written')
        m.call(top[0], o, [Str()])

    def holds(m, o, out, final=False):
        """everything written so far begins a JSON array, every element kept is a JSON value"""
        for f, v in o.f.items():
            for vec in ([v] if isinstance(v, Vec) else []):
                for x in vec.v:
                    for y in (x.v if isinstance(x, Vec) else [x]):
                        if isinstance(y, Str):
                            Json(m, y.v).all()
        items = list(out.v)
        if not final:
            items = items + [ord(']')]
        Json(m, items).all()
        return None

    def op_law(f):
        def law(m):
            o, out = reach(m)
            for x in list(o.f.values()):
                if isinstance(x, Vec):
                    x.v[:] = list(x.v)
            args = []
            for v, nme, t in f.params:
                s = spell(t)
                if 'basic_string' in s:
                    args.append(m.fresh())
                elif s.rstrip('&* ') in ('AnnotationItem', 'AnnotationItemManager'):
                    args.append(Obj(s.rstrip('&* '), {}))
                else:
                    raise Undecided('argument')
            before = list(out.v)
            toks = tokens(o, out)
            try:
                m.call(f, o, args)
                holds(m, o, out)
                if tokens(o, out) != toks:
                    return '%s loses or repeats an element' % f.name
            except Bad as e:
                return '%s leaves %s: %s' % (f.name, e, spelled(m, out.v[len(before):] or newest(o))[:120])
            return None
        return law
    for f in public:
        env.count('operations')
        decide(env, 'json:%s:%d' % (f.q, len(f.params)), '%s:%s' % (f.file, f.line), f.q, JsonMachine(P, Space()), op_law(f))

    def whole(m):
        o, out = make(m)
        for _ in range(m.choose(3)):
            write_one(m, o)
        body = [n for n in dtor.walk() if n.parent is None and n.k == 'CompoundStmt']
        try:
            m.stmt(body[0], {'this': o})
            holds(m, o, out, True)
        except Bad as e:
            return 'the output is %s: %s' % (e, spelled(m, out.v)[:120])
        return None
    decide(env, 'json:%s:whole' % cls, '%s:%s' % (ctor.file, ctor.line), cls, JsonMachine(P, Space()), whole)
    esc = meths.get('createEscapedJSONString_')
    if esc is not None:
        for k in ((0, 1, 2, 3, 4) if env.tier == "thorough" else (0, 1, 2)):
            def law(m, k=k):
                m.reset_chars()
                m.next = 10
                s = [Ch(i) for i in range(k)]
                o = Str()
                try:
                    m.call(esc, Obj(cls, {}), [Str(s), o])
                    j = Json(m, o.v).all()
                    if len(j.strings) != 1 or not decodes(m, j.strings[0], s):
                        return 'the text %s is written as %s, which reads as something else' % (spelled(m, s), spelled(m, o.v))
                except Bad as e:
                    return 'the text %s is written with %s: %s' % (spelled(m, s), e, spelled(m, o.v))
                return None
            decide(env, 'json:%s' % esc.q, '%s:%s' % (esc.file, esc.line), '%s, texts of %d characters' % (esc.q, k), JsonMachine(P, Space()), law)
    # nothing else writes to the stream of a JSON writer
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if f.cfg and f.file.startswith('formats/json') and '/t/' not in f.file and f.cls != cls:
            for n in f.walk():
                if n.k == 'CXXOperatorCallExpr' and n.get('op') == '<<' and len(n.c) > 2 and 'ostream' in spell(n.c[1].t) and 'stringstream' not in spell(n.c[1].t):
                    env.bad('json:direct:%s' % f.q, n.loc(), '%s writes to the output beside the JSON text' % f.q)
            env.count('functions_of_the_writer')


# ---------------------------------------------------------------- answer of the JSON site

class SiteMachine(JsonMachine):
    def opaque(self, n, this, args):
        fn = n.fn or ''
        if fn in ('Session::getData', 'Session::getDataOrSetIfNotExists'):
            return lambda m, n, env: m.fresh()
        if fn == 'PsiServer::session':
            return lambda m, n, env: Obj('Session', {})
        if fn == 'PipeRunner::run':
            return lambda m, n, env: m.pipeline(m.ev(n.c[2], env))
        if fn.split('::')[-1] == 'stringToChar':
            return lambda m, n, env: m.ev(n.c[1], env)
        if fn.split('::')[-1] == 'isJavascriptOutput_':
            return lambda m, n, env: m.isjson
        return JsonMachine.opaque(self, n, this, args)

    def ev(self, n, env):
        m = strip(n)
        if m is not None and m.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and m.fn == 'PipeRunner::PipeRunner':
            if self.choose(2):
                raise Thrown()
            return Obj('PipeRunner', {})
        return JsonMachine.ev(self, n, env)

    def pipeline(self, out):
        if self.choose(2):
            out.v += self.fresh().v
            raise Thrown()
        out.v += [Tok('json')] if self.isjson else self.fresh().v
        return None

    def what(self):
        return self.fresh()


def json_site(env):
    P = env.P
    fs = [f for f in P.funcs.values() if f.cfg and f.cls and f.cls.split('::')[-1] == 'JsonSite' and f.name == 'actionJson']
    if not fs:
        env.notes.append('no JSON site')
        return
    f = fs[0]

    def law(m):
        m.reset_chars()
        m.next = 0
        m.isjson = bool(m.choose(2))
        o = Obj(f.cls, {})
        for q, t in fields_of(P, f.cls):
            o.f[q] = Stream([ord(c) for c in '{}']) if spell(t).startswith(STREAMS) else Obj(spell(t).rstrip('&* '), {})
        streams = [v for v in o.f.values() if isinstance(v, Stream)]
        if len(streams) != 1:
            raise Undecided('where the answer is kept')
        try:
            m.call(f, o, [])
            Json(m, streams[0].v).all()
        except Bad as e:
            return 'the answer has %s: %s' % (e, spelled(m, streams[0].v)[:160])
        except Thrown:
            return None
        return None
    decide(env, 'json:%s' % f.q, '%s:%s' % (f.file, f.line), f.q, SiteMachine(P, Space()), law)


# ---------------------------------------------------------------- DOT

def dot_label(env):
    """what stands between the quotation marks of a DOT label"""
    P = env.P
    fs = [f for f in P.funcs.values() if f.cfg and f.file.startswith('formats/dot/') and f.name == 'quoteLabel_']
    env.anchor(fs, 'quoting function of the DOT writer')
    for f in fs:
        for k in ((0, 1, 2, 3, 4) if env.tier == "thorough" else (0, 1, 2, 3)):
            def law(m, k=k):
                m.reset_chars()
                m.next = 10
                s = [Ch(i) for i in range(k)]
                got = _tl(m.call(f, Obj(f.cls, {}), [Str(s)]))
                i = 0
                while i < len(got):
                    c = cls_of(m, got[i])
                    if ord('"') in c:
                        return 'the label %s is written as %s, which ends the quotation' % (spelled(m, s), spelled(m, got))
                    if ord('\\') in c:
                        if len(c) > 1:
                            return 'the label %s is written with an unescaped backslash' % spelled(m, s)
                        i += 1
                        if i >= len(got):
                            return 'the label %s is written as %s, which escapes the quotation mark after it' % (spelled(m, s), spelled(m, got))
                    i += 1
                return None
            decide(env, 'dot:%s' % f.q, '%s:%s' % (f.file, f.line), '%s, labels of %d characters' % (f.q, k), OutMachine(P, Space()), law)


def _tl(v):
    return O.tolist(v)


def tokens(o, out):
    """how many of the elements put in before are there"""
    k = sum(isinstance(x, Tok) for x in out.v)
    seen = []
    todo = list(o.f.values())
    while todo:
        v = todo.pop()
        if isinstance(v, Vec):
            if any(v is s for s in seen):
                continue
            seen.append(v)
            todo += v.v
        elif isinstance(v, Str) and not isinstance(v, Stream):
            k += sum(isinstance(x, Tok) for x in v.v)
    return k


def newest(o):
    for v in o.f.values():
        if isinstance(v, Vec) and v.v and isinstance(v.v[-1], Str):
            return v.v[-1].v
    return []


def fields_of(P, cls):
    r = P.recs.get(cls)
    return [(x['q'] if isinstance(x, dict) and 'q' in x else cls + '::' + x['n'], x['t']) for x in (r.get('fields') or [])]


TEXTS = ('AnnotationItem::getText', 'AnnotationItem::getCategory', 'AnnotationItemManager::getValue', 'AnnotationItemManager::getValues',
         'AnnotationItemManager::getValueAsString', 'Lattice::getEdgeText', 'Lattice::getAllText', 'Lattice::getEdgeAnnotationItem',
         'Lattice::getAnnotationText', 'Lattice::getAnnotationCategory', 'LayerTagManager::getTagNames', 'AnnotationItem::getTextAsStringFrag',
         'AnnotationItem::getValuesAsString')


def dot_writer(env):
    """texts of the lattice reach the output of the DOT writer as quoted labels only, between quotation marks"""
    P = env.P
    import taint as T

    def source(n, f):
        if n.fn in TEXTS:
            return frozenset(['text of the lattice'])
        return T.NONE
    names = {f.q: 'DOT' for f in P.funcs.values() if f.file.startswith('formats/dot/') and f.name == 'quoteLabel_'}
    body = lambda f: f.file.startswith('formats/dot/') or f.cls in ('PsiQuoter', 'Quoter')
    tn = T.Taint(env, source, lambda q: names.get(q), lambda n: None, body)
    roots = sorted([f for f in P.funcs.values() if f.cfg and f.file.startswith('formats/dot/') and f.name == 'doRun'], key=lambda f: f.q)
    env.anchor(roots, 'DOT writer')
    found = {}

    def visit(f, n, st, tn):
        if n.fn and n.fn.split('::')[-1] in ('printLine_', 'print_', 'alignOutput_') and n.k in ('CXXMemberCallExpr', 'CallExpr') or \
                n.k == 'CXXOperatorCallExpr' and n.get('op') == '<<' and len(n.c) > 2 and 'ostream' in spell(n.c[1].t) and strip(T.root_stream(n)).k in ('MemberExpr', 'CXXMemberCallExpr'):
            lab = T.NONE
            for x in n.c[1 if n.k != 'CXXOperatorCallExpr' else 2:]:
                lab |= tn.val(x, st, f)
            found[(f.q, n.l, n.loc())] = found.get((f.q, n.l, n.loc()), T.NONE) | lab
    tn.visit = visit
    tn.fixpoint(roots)
    for (q, l, where), lab in sorted(found.items()):
        env.count('dot_lines')
        if 'text of the lattice' in lab:
            env.bad('dot:raw:' + q, where, '%s writes a text of the lattice into the graph without quoting it' % q)
        else:
            env.ok('%s: %s' % (where, ', '.join(sorted(lab)) or 'no text of the lattice'))
    # what is quoted stands between quotation marks
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if not f.cfg or not f.file.startswith('formats/dot/') or '/t/' in f.file:
            continue
        for n in f.walk():
            if n.k in ('CXXMemberCallExpr', 'CallExpr') and n.fn in names:
                p, c = n.parent, n
                while p is not None and not (p.k == 'CXXOperatorCallExpr' and p.get('op') in ('<<', '+')):
                    c, p = p, p.parent
                if p is None:
                    continue
                left = []
                x = strip(p.c[1])
                if c is p.c[1] or strip(p.c[1]) is strip(c):
                    continue
                while x is not None and x.k == 'CXXOperatorCallExpr' and x.get('op') == p.get('op') and len(x.c) > 2:
                    left.append(x.c[2])
                    x = strip(x.c[1])
                left.append(x)
                txt = ''.join(y.get('s') or '' for e in reversed(left) if e is not None for y in e.walk() if y.k == 'StringLiteral')
                if '"' not in txt:
                    continue
                env.count('labels')
                if txt.count('"') % 2 == 0:
                    env.bad('dot:outside:' + f.q, n.loc(), '%s writes a quoted label outside quotation marks' % f.q)
                else:
                    env.ok('%s: label between quotation marks' % n.loc())


def c04(env):
    json_writer(env)
    json_site(env)
    dot_label(env)
    dot_writer(env)
    env.floor('operations', 3)
