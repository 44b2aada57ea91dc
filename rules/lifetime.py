"""C30: nothing that is gone is used (iterators, references, character pointers, deleted objects)."""
import re
import flow as FL
from flow import canon, strip
from common import by_value_local, local_types

SEQ = {'std::vector': 'vector', 'std::deque': 'vector', 'std::basic_string': 'string', 'std::__cxx11::basic_string': 'string',
       'std::list': 'node', 'std::__cxx11::list': 'node', 'std::map': 'node', 'std::set': 'node', 'std::multimap': 'node', 'std::multiset': 'node',
       'std::unordered_map': 'hash', 'std::unordered_set': 'hash', 'boost::unordered::unordered_map': 'hash',
       'boost::unordered::unordered_set': 'hash', 'boost::unordered_map': 'hash', 'boost::unordered_set': 'hash',
       'std::unordered_multimap': 'hash', 'std::unordered_multiset': 'hash'}
GIVES = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'find', 'insert', 'erase', 'lower_bound', 'upper_bound', 'emplace'}
GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'reserve', 'append', 'push_front', 'emplace_front', 'operator+=',
        'replace', 'shrink_to_fit'}
DROP = {'clear', 'assign', 'swap', 'operator=', 'remove', 'remove_if', 'unique', 'sort_', 'splice', 'merge'}
LOOK = {'operator[]', 'at', 'front', 'back'}
ITER = re.compile(r'iterator|_Rb_tree|_Node_')


def kind(t):
    while t is not None and t.k in ('ref', 'ptr'):
        t = t.to
    if t is None or t.k != 'rec':
        return None
    return SEQ.get(t.q or '')


def is_iter(t):
    return t is not None and t.k == 'rec' and bool(ITER.search((t.q or '').rsplit('::', 1)[-1]))


def last(q):
    return (q or '').rsplit('::', 1)[-1]


def receiver(n):
    """(node of the object, name) of a member or operator call"""
    if n.k == 'CXXMemberCallExpr':
        me = strip(n.c[0])
        if me is not None and me.k == 'MemberExpr' and me.c:
            return me.c[0], bool(me.get('arrow'))
    elif n.k == 'CXXOperatorCallExpr' and len(n.c) > 1:
        return n.c[1], False
    return None, False


def rcanon(n):
    r, arrow = receiver(n)
    if r is None:
        return None
    e = canon(r)
    if arrow and e != ('this',):
        e = FL.deref(e)
    return e


class Life:
    def __init__(self, env):
        self.env = env
        self.P = env.P
        self.ctx = env.ctx
        self._sum = {}
        self.foreach_col = {}

    # -- references and foreach cursors stand for the container they were made from
    def alias(self, f):
        r = getattr(f, '_refalias', None)
        if r is not None:
            return r
        r = {}
        for n in f.walk():
            if n.k == 'DeclStmt':
                for i, x in enumerate(n.get('decls', [])):
                    if x['t'].k == 'ref' and x.get('init') and i < len(n.c) and n.c[i] is not None:
                        e = canon(n.c[i])
                        if e[0] in ('v', 'f', '*', 'g', '[]', 'call', 'op'):
                            r[('v', x['v'])] = e
        f._refalias = r
        return r

    def res(self, f, e, depth=0):
        """e with reference locals replaced by what they refer to"""
        al = self.alias(f)
        while e in al and depth < 5:
            e = al[e]
            depth += 1
        if e[0] == 'f':
            b = self.res(f, e[1], depth + 1) if depth < 5 else e[1]
            return ('f', b, e[2])
        if e[0] == '*' and depth < 5:
            return FL.deref(self.res(f, e[1], depth + 1))
        return e

    # -- which containers of its object or arguments a function may restructure
    def restructures(self, f):
        if f.u in self._sum:
            return self._sum[f.u]
        self._sum[f.u] = frozenset()
        out = set()
        for n in f.walk():
            for c, how, _ in self.changes(f, n):
                root = c
                while root[0] in ('f', '*', '[]'):
                    root = root[1]
                if root == ('this',) or root[0] == 'v' and any(root[1] == p[0] and p[2].k in ('ref', 'ptr') for p in f.params):
                    out.add((c, how))
        self._sum[f.u] = frozenset(out)
        return self._sum[f.u]

    def changes(self, f, n):
        """(container, how, erased argument) for what node n restructures; how: grow, drop, erase"""
        out = []
        if not n.fn:
            return out
        nm = last(n.fn)
        r, _ = receiver(n)
        if r is not None:
            k = kind(r.t)
            if k:
                c = self.res(f, rcanon(n))
                args = n.c[1:] if n.k == 'CXXMemberCallExpr' else n.c[2:]
                if nm == 'erase':
                    a = strip(args[0]) if args else None
                    it = canon(args[0]) if args else None
                    one = len([x for x in args if x is not None and x.k != 'CXXDefaultArgExpr']) == 1
                    if k == 'node' and one and a is not None and (is_iter(args[0].t) or is_iter(a.t)):
                        out.append((c, 'erase', it))
                    else:
                        out.append((c, 'drop', None))
                elif nm in DROP or n.k == 'CXXOperatorCallExpr' and n.get('op') == '=':
                    out.append((c, 'drop', None))
                elif nm in GROW or n.k == 'CXXOperatorCallExpr' and n.get('op') == '+=':
                    out.append((c, 'grow', None))
                elif nm in ('pop_back', 'pop_front') and k == 'node':
                    out.append((c, 'pop', None))
                elif nm == 'operator[]' and k == 'hash':
                    out.append((c, 'grow', None))
        gs = [g for g in self.P.targets(n)] if n.u else []
        if gs and not (n.fn or '').startswith(('std::', 'boost::')):
            for g in gs:
                for c, how in self.restructures(g):
                    m = self.map_call(n, g, c)
                    if m is not None:
                        out.append((self.res(f, m), how if how != 'erase' else 'drop', None))
        return out

    def map_call(self, n, g, c):
        if c[0] in ('f', '*', '[]'):
            b = self.map_call(n, g, c[1])
            if b is None:
                return None
            if c[0] == '*':
                return FL.deref(b)
            return (c[0], b) + c[2:]
        if c == ('this',):
            if n.k == 'CXXMemberCallExpr':
                return rcanon(n)
            return None
        if c[0] == 'v':
            args = n.c if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') else n.c[1:]
            for i, p in enumerate(g.params):
                if p[0] == c[1] and i < len(args) and args[i] is not None:
                    return canon(args[i])
        return None

    def kind_of(self, f, c):
        """kind of the container the canonical expression names"""
        t = None
        if c[0] == 'v':
            t = local_types(f).get(c[1])
        elif c[0] == 'f':
            q = c[2]
            r = self.P.recs.get(q.rsplit('::', 1)[0]) if q else None
            for x in (r or {}).get('fields', ()):
                if x['q'] == q:
                    t = x['t']
        return kind(t)

    # -- the analysis of one function: state = {thing: (container, 'ok' or why it is dead)}
    def bind(self, f, init):
        """(container or string, kind) the value of init points into"""
        s = strip(init)
        while s is not None and s.k in ('CXXConstructExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr') and s.c:
            s = strip(s.c[0])
        if s is None:
            return None
        if s.k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') and s.fn:
            r, _ = receiver(s)
            if r is not None:
                k = kind(r.t)
                nm = last(s.fn)
                if k and nm in GIVES:
                    return ('c', self.res(f, rcanon(s)))
        if s.k == 'DeclRefExpr' and 'v' in s.d:
            return ('copy', ('v', s.d['v']))
        return None

    def char_pointer(self, f, init):
        """the string a character pointer comes from; 'temp' if it is gone at the end of the statement"""
        s = strip(init)
        if s is None or s.k != 'CXXMemberCallExpr' or last(s.fn) not in ('c_str', 'data'):
            return None
        r, _ = receiver(s)
        if r is None or kind(r.t) not in ('string', 'vector'):
            return None
        o = r
        while o is not None and o.k in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups') and o.c:
            if o.k == 'MaterializeTemporaryExpr':
                return 'temp'
            o = o.c[0]
        if o is not None and o.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr',
                                     'CXXConstructExpr') and not o.lv:
            return 'temp'
        return self.res(f, rcanon(s))

    def element_ref(self, f, init):
        """container of a reference (or pointer) to an element of a vector"""
        s = strip(init)
        if s is None:
            return None
        if s.k == 'UnaryOperator' and s.get('op') == '&':
            s = strip(s.c[0])
        if s is not None and s.k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') and last(s.fn) in LOOK:
            r, _ = receiver(s)
            if r is not None and kind(r.t) == 'vector':
                return self.res(f, rcanon(s))
        return None

    def transfer(self, st, n, f, cur):
        if isinstance(n, dict):
            return st
        new = None

        def upd(k, v):
            nonlocal new
            if new is None:
                new = dict(st)
            if v is None:
                new.pop(k, None)
            else:
                new[k] = v
        # something is restructured
        if n.fn or n.k == 'CXXDeleteExpr':
            for c, how, it in (self.changes(f, n) if n.fn else ()):
                base = new if new is not None else st
                for k, (c2, why) in list(base.items()):
                    if why:
                        continue
                    if how == 'erase':
                        if k == it:
                            upd(k, (c2, 'erased at line %s' % n.l))
                        continue
                    if c2 is None or not (c2 == c or FL.mentions(c2, c)):
                        continue
                    kd = self.kind_of(f, c) or 'vector'
                    if how == 'drop' or how == 'grow' and kd in ('vector', 'string', 'hash'):
                        if k[0] == 'fe' and how == 'grow' and kd == 'node':
                            continue
                        upd(k, (c2, 'its container is changed at line %s' % n.l))
            if n.k == 'CXXMemberCallExpr' and last(n.fn) == 'erase' or n.k == 'CallExpr':
                pass
        if n.k == 'CXXDeleteExpr' and n.c:
            e = self.res(f, canon(n.c[0]))
            if e[0] in ('v', 'f'):
                upd(e, (None, 'deleted at line %s' % n.l))
        if n.k == 'DeclStmt':
            for i, x in enumerate(n.get('decls', [])):
                v = ('v', x['v'])
                ini = n.c[i] if x.get('init') and i < len(n.c) else None
                self.set(f, v, x['t'], ini, n, upd, new if new is not None else st)
        elif n.k == 'BinaryOperator' and n.get('op') == '=' or n.k == 'CXXOperatorCallExpr' and n.get('op') == '=' and len(n.c) > 2:
            l, r = (n.c[0], n.c[1]) if n.k == 'BinaryOperator' else (n.c[1], n.c[2])
            e = canon(l)
            if e[0] in ('v', 'f'):
                self.set(f, e, l.t, r, n, upd, new if new is not None else st)
        else:
            if n.fn and n.k != 'LambdaExpr':
                for t in FL.mutated(n):
                    base = new if new is not None else st
                    if t in base and base[t][1] and n.k in ('CallExpr', 'CXXMemberCallExpr') and not is_iter(None):
                        # handed over by reference to a function that gives it a new value
                        if self.P.targets(n) or t != rcanon(n):
                            upd(t, None)
        ch = FL.assigned_targets(n) + (FL.mutated(n) if n.fn and n.k != 'LambdaExpr' else [])
        if n.k == 'DeclStmt':
            ch = ch + [('v', x['v']) for x in n.get('decls', [])]
        if ch:
            base = new if new is not None else st
            for k in list(base):
                if k[0] != 'v' and k[0] != 'fe' and any(t != k and t != ('this',) and FL.mentions(k, t) for t in ch):
                    upd(k, None)
        if new is None:
            return st
        return new

    def set(self, f, v, t, ini, n, upd, st):
        if ini is None:
            if v in st:
                upd(v, None)
            return
        b = None
        if is_iter(t):
            b = self.bind(f, ini)
            if b and b[0] == 'c':
                upd(v, (b[1], ''))
                return
            if b and b[0] == 'copy':
                src = st.get(b[1])
                upd(v, src)
                return
        elif t is not None and t.k == 'ptr':
            c = self.char_pointer(f, ini)
            if c == 'temp':
                upd(v, (None, 'it points into a temporary string of line %s' % n.l))
                return
            if c is not None:
                upd(v, (c, ''))
                return
            c = self.element_ref(f, ini)
            if c is not None:
                upd(v, (c, ''))
                return
            e = canon(ini)
            if e in st and st[e][1]:
                upd(v, st[e])
                return
        elif t is not None and t.k == 'ref':
            c = self.element_ref(f, ini)
            if c is not None:
                upd(v, (c, ''))
                return
        if v in st:
            upd(v, None)

    def uses(self, n, f):
        """things node n makes use of"""
        out = []
        if isinstance(n, dict):
            return out
        if n.k == 'DeclRefExpr' and 'v' in n.d or n.k == 'MemberExpr':
            e = canon(n)
            p = n.parent
            m = n
            while p is not None and p.k in ('ParenExpr',) or p is not None and p.k == 'ImplicitCastExpr' and p.get('ck') == 'NoOp':
                m = p
                p = p.parent
            if p is not None:
                if p.k == 'BinaryOperator' and p.get('op') == '=' and p.c[0] is m:
                    return out
                if p.k == 'CXXOperatorCallExpr' and p.get('op') == '=' and len(p.c) > 1 and p.c[1] is m:
                    return out
                if p.k == 'UnaryOperator' and p.get('op') == '&':
                    return out
                if p.k == 'ImplicitCastExpr' and n.t is not None and n.t.k == 'ptr':
                    # comparing with nothing looks at the pointer only
                    y, z = p, p.parent
                    while z is not None and z.k in ('ImplicitCastExpr', 'ParenExpr'):
                        y, z = z, z.parent
                    if z is not None and z.k == 'BinaryOperator' and z.get('op') in ('==', '!=') and canon(z.c[1 if z.c[0] is y else 0]) == ('c', 0):
                        return out
            out.append(e)
        return out

    def run(self, f):
        g = f.cfg
        if not g:
            return []
        bl, entry, ex = g
        cur = {}
        start = {}
        for n in f.walk():
            if n.k == 'CallExpr' and (n.fn or '').endswith('foreach_detail_::done') and len(n.c) > 2:
                cv = canon(n.c[1])
                for y in n.walk():
                    if y.k == 'CallExpr' and (y.fn or '').endswith('foreach_detail_::encode_type') and len(y.c) > 1 and y.c[1].lv:
                        start[cv] = (self.res(f, canon(y.c[1])), '')
                        break
        # the inner loop of BOOST_FOREACH runs once per element: its step leads out
        goto = {}
        for b, B in bl.items():
            if B.tk == 'ForStmt' and len(B.succ) == 2 and B.cond is not None and not any(
                    y.fn for y in B.cond.walk()) and any(str(y.get('n') or '').startswith('_foreach_continue') for y in B.cond.walk()):
                for p in B.pred:
                    if any(not isinstance(n, dict) and n.k == 'BinaryOperator' and n.get('op') == '=' for n in bl[p].elems):
                        goto[p] = (b, B.succ[1])
        IN = {entry: start}
        work = [entry]
        it = 0
        while work and it < 300 * len(bl) + 3000:
            it += 1
            b = work.pop(0)
            B = bl[b]
            st = IN[b]
            eh = None
            for i, n in enumerate(B.elems):
                if i == len(B.elems) - 1 and B.term is None and len(B.succ) == 2:
                    eh = st
                st = self.transfer(st, n, f, cur)
            for i, s in enumerate(B.succ):
                if s < 0 or s not in bl:
                    continue
                o = eh if eh is not None and i == 1 else st
                if b in goto and s == goto[b][0]:
                    s = goto[b][1]
                if s not in IN:
                    IN[s] = dict(o)
                    work.append(s)
                else:
                    m = dict(IN[s])
                    for k, v in o.items():
                        w = m.get(k)
                        if w is None or not w[1] and v[1]:
                            m[k] = v
                    if m != IN[s]:
                        IN[s] = m
                        if s not in work:
                            work.append(s)
        bad = []
        for b, st in IN.items():
            for n in bl[b].elems:
                for e in self.uses(n, f):
                    x = st.get(e)
                    if x and x[1]:
                        bad.append((n, e, x[1]))
                st = self.transfer(st, n, f, cur)
        self.tracked = len(start) + sum(1 for n in f.walk() if n.k == 'DeclStmt' for x in n.get('decls', ()) if is_iter(x['t']))
        return bad


def name_of(f, e):
    if e[0] == 'v':
        for v, n, t in f.params:
            if v == e[1]:
                return n
        for n in f.walk():
            for x in n.get('decls', ()) or ():
                if x['v'] == e[1]:
                    return x['n']
    if e[0] == 'f':
        return last(e[2])
    return 'the cursor'


def c30(env):
    L = Life(env)
    for f in env.P.funcs.values():
        if f.file.startswith(('fex/', 'tiniconv/', 'utf8case/')):
            continue
        bad = L.run(f)
        seen = set()
        for n, e, why in bad:
            nm = name_of(f, e)
            if nm in seen:
                continue
            seen.add(nm)
            env.bad('dead:%s:%s' % (f.q, nm), n.loc(), '%s uses `%s` although %s' % (f.q, nm, why))
        env.count('tracked', getattr(L, 'tracked', 0))
        if not bad:
            env.ok()
    fragments(env, L)
    returned(env, L)


# -- pieces of text refer to the text they were cut from
def fragments(env, L):
    P = env.P
    callers = {}
    for f in P.funcs.values():
        for n in f.calls():
            if n.u:
                for g in P.targets(n):
                    callers.setdefault(g.u, []).append((f, n))

    def lasting(f, n, seen):
        """why the string of expression n may be gone before the lattice; None if it is (part of) the lattice"""
        s = strip(n)
        if s is not None and s.k in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            return 'it is a temporary'
        if s is None:
            return 'it is unknown'
        if s.k == 'ConditionalOperator':
            return lasting(f, s.c[1], seen) or lasting(f, s.c[2], seen)
        e = L.res(f, canon(s))
        if e[0] == 'f':
            if e[2] == 'Lattice::allText_':
                return None
            t = field_type(P, e[2])
            if t is not None and t.k == 'ref':
                # a reference kept in an object: what the constructors were given
                key = ('fld', e[2])
                if key in seen:
                    return None
                seen.add(key)
                for c in P.funcs.values():
                    if c.ctor and c.cls == e[2].rsplit('::', 1)[0]:
                        for i in c.inits:
                            if i['mf'] == e[2] and i['e'] is not None:
                                why = lasting(c, i['e'], seen)
                                if why:
                                    return why
                return None
            return 'it is the field %s' % e[2]
        if e[0] == 'v':
            ix = [i for i, p in enumerate(f.params) if p[0] == e[1]]
            if not ix:
                return 'it is the local `%s` of %s' % (name_of(f, e), f.q)
            t = f.params[ix[0]][2]
            if t.k != 'ref':
                return 'it is a copy made for %s' % f.q
            key = (f.u, ix[0])
            if key in seen:
                return None
            seen.add(key)
            us = {f.u}
            st = [f]
            while st:
                x = st.pop()
                for o in x.overrides:
                    if o not in us:
                        us.add(o)
                        if o in P.funcs:
                            st.append(P.funcs[o])
            for u in us:
                for g, m in callers.get(u, ()):
                    args = m.c if m.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') else m.c[1:]
                    if ix[0] < len(args) and args[ix[0]] is not None:
                        why = lasting(g, args[ix[0]], seen)
                        if why:
                            return '%s (call at %s)' % (why, m.loc())
            return None
        if s.fn and s.lv:
            for g in P.targets(s):
                for m in g.walk():
                    if m.k == 'ReturnStmt' and m.c:
                        why = lasting(g, m.c[0], seen)
                        if why:
                            return why
            if P.targets(s):
                return None
        if s.fn:
            return 'it is the result of %s, which is gone at the end of the statement' % s.fn
        return 'its origin is not known'

    for f in P.funcs.values():
        if f.cls == 'StringFrag':
            continue
        for n in f.walk():
            if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and n.fn and last(n.fn) == 'StringFrag' and len([a for a in n.c if a is not None]) == 3:
                env.count('fragments_cut')
                if strip(n.c[0]).t is not None and (strip(n.c[0]).t.q or '') == 'StringFrag':
                    env.ok()        # a piece of a piece: see the constructor below
                    continue
                why = lasting(f, n.c[0], set())
                if why:
                    env.bad('fragment:%s' % f.q, n.loc(), '%s: a piece of text refers to a string that does not last: %s' % (f.q, why))
                else:
                    env.ok(sample='%s cuts from the text of the lattice' % f.q)


    # a piece that holds its own text may look at no other string
    for f in P.funcs.values():
        if f.cls != 'StringFrag' or f.d.get('cc'):
            continue
        for n in f.walk():
            if n.k != 'MemberExpr' or n.get('mf') != 'StringFrag::src_':
                continue
            base = canon(n)[1]
            if guarded_by_stored(env, f, n, base):
                env.ok()
            else:
                env.bad('source:%s' % f.q, n.loc() if n.func else '%s:%s' % (f.file, n.l),
                        '%s looks at the source string of %s without having made sure that it is not one that holds its own text' % (
                            f.q, 'the piece' if base == ('this',) else 'the other piece'))
    for f in P.funcs.values():
        if f.cls == 'StringFrag' and f.ctor and not f.d.get('cc'):
            ini = {last(i['mf']): i['e'] for i in f.inits if i['mf']}
            own = canon(ini.get('src_')) if ini.get('src_') is not None else ('none',)
            env.count('constructors')
            for alt in alternatives(ini.get('src_')):
                a = canon(alt)
                if a == ('f', ('this',), 'StringFrag::contents_') or a[0] == 'f' and a[2] == 'StringFrag::src_':
                    env.ok()
                elif a[0] == 'v' and any(p[0] == a[1] and p[2].k == 'ref' for p in f.params):
                    env.ok()
                else:
                    env.bad('source:%s' % f.q, '%s:%s' % (f.file, f.line), '%s makes a piece refer to a string that ends with the call' % f.q)


def alternatives(n):
    s = strip(n)
    if s is not None and s.k == 'ConditionalOperator':
        return alternatives(s.c[1]) + alternatives(s.c[2])
    return [s] if s is not None else []


def guarded_by_stored(env, f, n, base):
    # an initialiser: inside the right arm of a conditional
    m = n
    while m is not None and m.parent is not None:
        p = m.parent
        if p.k == 'ConditionalOperator' and p.c[0] is not m:
            c = strip(p.c[0])
            pol = p.c[1] is m
            while c is not None and c.k == 'UnaryOperator' and c.get('op') == '!':
                c = strip(c.c[0])
                pol = not pol
            if c is not None and c.k == 'CXXMemberCallExpr' and c.fn == 'StringFrag::stored_' and rcanon(c) == base and not pol:
                return True
        m = p
    st = env.ctx.flow(f).before(n)
    for x in st or ():
        if x[0] == 'true' and x[2] is False and x[1][0] == 'call' and x[1][1] == 'StringFrag::stored_' and x[1][2] == base:
            return True
        if x[0] == 'eq' and x[3] is False and any(y == ('f', base, 'StringFrag::begin_') for y in x[1:3]):
            return True
    return False


def field_type(P, q):
    r = P.recs.get(q.rsplit('::', 1)[0])
    for x in (r or {}).get('fields', ()):
        if x['q'] == q:
            return x['t']
    return None


def returned(env, L):
    """no function returns a reference, a character pointer or an iterator into something that dies with it"""
    for f in env.P.funcs.values():
        if f.ret is None or f.file.startswith(('fex/', 'tiniconv/', 'utf8case/')):
            continue
        if f.ret.k == 'ref':
            for n in f.walk():
                if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                    env.count('returned_references')
                    e = L.res(f, canon(n.c[0]))
                    s = strip(n.c[0])
                    root = e
                    while root[0] in ('f', '[]'):
                        root = root[1]
                    if root[0] == 'v' and by_value_local(f, root[1]) and not static_local(f, root[1]):
                        env.bad('returned:%s' % f.q, n.loc(), '%s returns a reference to its own local `%s`' % (f.q, name_of(f, root)))
                    elif s is not None and s.k in ('MaterializeTemporaryExpr',):
                        env.bad('returned:%s' % f.q, n.loc(), '%s returns a reference to a temporary' % f.q)
                    elif s is not None and s.fn and s.k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') and last(s.fn) in LOOK:
                        r = L.element_ref(f, n.c[0])
                        if r is not None and r[0] == 'v' and by_value_local(f, r[1]) and not static_local(f, r[1]):
                            env.bad('returned:%s' % f.q, n.loc(), '%s returns a reference into its own local `%s`' % (f.q, name_of(f, r)))
                        else:
                            env.ok()
                    else:
                        env.ok()
        elif f.ret.k == 'ptr':
            for n in f.walk():
                if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                    env.count('returned_pointers')
                    e = canon(n.c[0])
                    c = L.char_pointer(f, n.c[0])
                    if c is not None:
                        root = c
                        while root[0] in ('f', '[]'):
                            root = root[1]
                        if c == 'temp' or root[0] == 'v' and by_value_local(f, root[1]) and not static_local(f, root[1]):
                            env.bad('returned:%s' % f.q, n.loc(), '%s returns a pointer into a string that ends with the call' % f.q)
                            continue
                    if e[0] == '&':
                        root = e[1]
                        while root[0] in ('f', '[]'):
                            root = root[1]
                        if root[0] == 'v' and by_value_local(f, root[1]) and not static_local(f, root[1]):
                            env.bad('returned:%s' % f.q, n.loc(), '%s returns the address of its own local `%s`' % (f.q, name_of(f, root)))
                            continue
                    t = local_types(f).get(e[1]) if e[0] == 'v' else None
                    if t is not None and t.k == 'arr' and not static_local(f, e[1]):
                        env.bad('returned:%s' % f.q, n.loc(), '%s returns its own local array `%s`' % (f.q, name_of(f, e)))
                        continue
                    env.ok()


def static_local(f, v):
    for n in f.walk():
        for x in n.get('decls', ()) or ():
            if x['v'] == v:
                return bool(x.get('stat'))
    return False
