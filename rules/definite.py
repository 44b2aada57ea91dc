"""C18: nothing is read before it has been given a value (definite assignment of locals, fields and results)."""
import flow as FL
from flow import canon, strip

SCALAR = ('int', 'ptr', 'bool', 'float', 'enum', 'char', 'fptr', 'mptr')


def elem(t):
    while t is not None and t.k == 'arr':
        t = t.to
    return t


def scalar(t):
    return t is not None and t.k in SCALAR


class Definite:
    def __init__(self, env):
        self.env = env
        self.P = env.P
        self.sums = {}
        self.mays = {}
        self.ctors = {}
        for f in self.P.funcs.values():
            if f.ctor and f.cls:
                self.ctors.setdefault(f.cls, []).append(f)

    # -- what a call on the same object sets
    def this_call(self, n):
        """functions of the same object node n calls; None if it is no such call"""
        if n.k == 'CXXMemberCallExpr' and n.u:
            me = strip(n.c[0])
            if me is not None and me.k == 'MemberExpr' and me.c:
                b = strip(me.c[0])
                if b is not None and b.k == 'CXXThisExpr':
                    qualified = me.get('qual')
                    if n.u in self.P.funcs and (qualified or not (n.get('virt') or n.get('vm'))):
                        return [self.P.funcs[n.u]]
                    return self.P.targets(n)
        return None

    def sets(self, f):
        """fields of *this set on every normal way out of f"""
        if f.u in self.sums:
            return self.sums[f.u]
        self.sums[f.u] = frozenset()
        start = frozenset()
        if f.ctor:
            pass
        out, _ = self.run(f, start)
        self.sums[f.u] = out
        return out

    def may_touch(self, f, seen=None):
        """array fields some statement of f (or of what it calls on the same object) writes into"""
        if f.u in self.mays:
            return self.mays[f.u]
        self.mays[f.u] = frozenset()
        r = set()
        for n in f.walk():
            for t in FL.assigned_targets(n) + (FL.mutated(n) if n.fn else []):
                while t[0] in ('[]', '*'):
                    t = t[1]
                if t[0] == 'f' and t[1] == ('this',):
                    r.add(t[2])
            if n.fn and n.k == 'CallExpr':
                for a in n.c[1:]:
                    e = canon(a)
                    if e[0] == 'f' and e[1] == ('this',):
                        r.add(e[2])
            for g in self.this_call(n) or ():
                r |= self.may_touch(g)
        self.mays[f.u] = frozenset(r)
        return self.mays[f.u]

    def transfer(self, st, n, f, reads=None):
        if isinstance(n, dict):
            return st
        add = set()
        k = n.k
        if k == 'DeclStmt':
            for i, x in enumerate(n.get('decls', [])):
                v = ('v', x['v'])
                if x.get('init'):
                    ini = n.c[i] if i < len(n.c) else None
                    s = strip(ini)
                    if elem(x['t']) is not None and elem(x['t']).k == 'rec' and s is not None and s.k == 'CXXConstructExpr' and not [a for a in s.c if a is not None]:
                        unset = self.unset_of(elem(x['t']), s)
                        if unset and not (s.get('zi')):
                            st = st - {y for y in st if y[:2] == ('f', v)} - {v}
                            for y in self.all_fields(elem(x['t'])):
                                if y not in unset:
                                    add.add(('f', v, y))
                            continue
                    add.add(v)
                elif scalar(x['t']):
                    st = st - {v}
                else:
                    add.add(v)
        for t in FL.assigned_targets(n):
            add.add(t)
            b = t
            while b[0] in ('[]', '*'):
                b = b[1]
                add.add(b)
        if n.fn and k != 'LambdaExpr':
            kept = self.not_given(n)
            for t in FL.mutated(n):
                if t == ('this',) or t in kept:
                    continue
                add.add(t)
                b = t
                while b[0] in ('[]',):
                    b = b[1]
                    add.add(b)
            if k == 'CallExpr' or k == 'CXXMemberCallExpr' or k == 'CXXConstructExpr':
                for a in n.c:
                    e = canon(a) if a is not None else ('none',)
                    if a is not None and a.t is not None and a.t.k == 'ptr' and e[0] in ('f', 'v') and not (strip(a).t is not None and strip(a).t.k == 'ptr'):
                        add.add(e)
            gs = self.this_call(n)
            if gs:
                s = None
                for g in gs:
                    x = self.sets(g)
                    s = x if s is None else s & x
                for y in s or ():
                    add.add(('f', ('this',), y))
                for g in gs:
                    for y in self.may_touch(g):
                        if y in self.array_fields:
                            add.add(('f', ('this',), y))
        if k == 'LambdaExpr':
            for c in n.get('caps', ()) or ():
                pass
        if k == 'UnaryOperator' and n.get('op') == '&' and n.c:
            add.add(canon(n.c[0]))
        return st | add if add else st

    @property
    def array_fields(self):
        r = self.__dict__.get('_af')
        if r is None:
            r = self._af = {x['q'] for c in self.P.recs.values() for x in c['fields'] if x['t'].k == 'arr'}
        return r

    def all_fields(self, t):
        r = self.P.recs.get(t.q or '')
        return [x['q'] for x in r['fields']] if r else []

    def unset_of(self, t, ctor):
        """scalar fields the default construction of t leaves unset"""
        r = self.P.recs.get(t.q or '')
        if r is None or r.get('dep'):
            return frozenset()
        f = self.P.funcs.get(ctor.u) if ctor.u else None
        if f is not None:
            return frozenset()      # a written constructor: see ctor obligations
        if self.ctors.get(r['q']) and ctor.u in [x.u for x in self.ctors[r['q']]]:
            return frozenset()
        own = [m for m in r['methods'] if m.get('ctor') or m.get('n') == r['q'].rsplit('::', 1)[-1]]
        return frozenset(x['q'] for x in r['fields'] if scalar(x['t']) and not x.get('ini'))

    def refs(self, n):
        """(argument, function, parameter) for arguments passed as references to scalars the callee may write"""
        if n.k not in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr') or not n.u:
            return []
        gs = self.P.targets(n)
        if not gs:
            return []
        args = n.c if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') else n.c[1:]
        out = []
        for i, a in enumerate(args):
            if a is None:
                continue
            for g in gs:
                if i < len(g.params):
                    t = g.params[i][2]
                    if t is not None and t.k == 'ref' and scalar(t.to) and not t.to.const:
                        out.append((canon(a), g, i))
        return out

    def not_given(self, n):
        """arguments that the called function may leave as they were (functions reporting success excepted)"""
        return {e for e, g, i in self.refs(n) if not (g.ret is not None and g.ret.k == 'bool') and i not in self.gives(g)}

    def gives(self, g):
        """reference parameters g has set on every normal way out"""
        r = self.__dict__.setdefault('_gives', {})
        if g.u not in r:
            r[g.u] = frozenset(range(len(g.params)))
            out = self.ends(g)
            if out is not None:
                r[g.u] = frozenset(i for i, p in enumerate(g.params) if ('v', p[0]) in out)
        return r[g.u]

    def ends(self, f):
        self.run(f, frozenset())
        return self._ends.get(f.u)

    def wants(self, g):
        """reference parameters whose value g may take before it has set them"""
        r = self.__dict__.setdefault('_wants', {})
        if g.u not in r:
            r[g.u] = frozenset()
            _, rr = self.run(g, frozenset())
            ix = {('v', p[0]): i for i, p in enumerate(g.params)}
            out = set()
            if rr:
                for n, st in points(self, g, rr):
                    rd = read_of(n)
                    if rd in ix and unset(st, rd):
                        out.add(ix[rd])
                    for e, h, j in self.refs(n):
                        if e in ix and unset(st, e) and j in self.wants(h):
                            out.add(ix[e])
            r[g.u] = frozenset(out)
        return r[g.u]

    def needs(self, f):
        """scalar fields of *this that f may read before it has set them"""
        r = self.__dict__.setdefault('_needs', {})
        if f.u in r:
            return r[f.u]
        r[f.u] = frozenset()
        out = set()
        _, rr = self.run(f, frozenset())
        if rr:
            for n, st in points(self, f, rr):
                rd = read_of(n)
                if rd is not None and rd[0] == 'f' and rd[1] == ('this',) and unset(st, rd):
                    out.add(rd[2])
                for g in self.this_call(n) or ():
                    for y in self.needs(g):
                        if unset(st, ('f', ('this',), y)):
                            out.add(y)
        r[f.u] = frozenset(out)
        return r[f.u]

    def flags(self, f):
        """locals that some statement gives a constant: the analysis keeps their values apart"""
        r = getattr(f, '_flags', None)
        if r is None:
            r = set()
            for n in f.walk():
                if n.k == 'DeclStmt':
                    for i, x in enumerate(n.get('decls', [])):
                        if scalar(x['t']) and x.get('init') and i < len(n.c) and const(n.c[i]) is not None:
                            r.add(x['v'])
                elif n.k == 'BinaryOperator' and n.get('op') == '=':
                    t = canon(n.c[0])
                    if t[0] == 'v' and const(n.c[1]) is not None:
                        r.add(t[1])
            f._flags = r
        return r

    def constants(self, cs, n, fl):
        if isinstance(n, dict):
            return cs
        new = {}
        if n.k == 'DeclStmt':
            for i, x in enumerate(n.get('decls', [])):
                if x['v'] in fl:
                    new[x['v']] = const(n.c[i]) if x.get('init') and i < len(n.c) else None
        for t in FL.assigned_targets(n):
            if t[0] == 'v' and t[1] in fl:
                new[t[1]] = const(n.c[1]) if n.k == 'BinaryOperator' and n.get('op') == '=' else None
        if n.fn and n.k != 'LambdaExpr':
            for t in FL.mutated(n):
                if t[0] == 'v' and t[1] in fl:
                    new[t[1]] = None
        if n.k == 'UnaryOperator' and n.get('op') == '&':
            t = canon(n.c[0])
            if t[0] == 'v' and t[1] in fl:
                new[t[1]] = None
        if not new:
            return cs
        return frozenset({(v, c) for v, c in cs if v not in new} | {(v, c) for v, c in new.items() if c is not None})

    def step(self, st, n, f, fl):
        """state: constants of flags -> things that are set"""
        if isinstance(n, dict):
            return st
        out = {}
        for cs, s in st.items():
            s2 = self.transfer(s, n, f)
            c2 = self.constants(cs, n, fl)
            out[c2] = out[c2] & s2 if c2 in out else s2
        return out

    def run(self, f, start):
        """(fields set at every normal exit, (states at block entries, blocks))"""
        if f.ctor:
            start = start | frozenset(('f', ('this',), y) for y in self.initialised(f))
        g = f.cfg
        if not g:
            return frozenset(x[2] for x in start if x[0] == 'f' and x[1] == ('this',)), None
        bl, entry, ex = g
        fl = self.flags(f)
        IN = {entry: {frozenset(): start}}
        work = [entry]
        it = 0
        while work:
            it += 1
            if it > 200 * len(bl) + 2000:
                raise RuntimeError('no fixpoint in %s' % f.q)
            b = work.pop(0)
            B = bl[b]
            st = IN[b]
            eh = None
            for i, n in enumerate(B.elems):
                if i == len(B.elems) - 1 and B.term is None and len(B.succ) == 2:
                    eh = st
                st = self.step(st, n, f, fl)
            for i, s in enumerate(B.succ):
                if s < 0 or s not in bl:
                    continue
                o = eh if eh is not None and i == 1 else st
                o = self.prune(o, B, i)
                if o:
                    if self.join(IN, s, o) and s not in work:
                        work.append(s)
        out = None
        for b, B in bl.items():
            if b not in IN:
                continue
            for i, s in enumerate(B.succ):
                if s != ex:
                    continue
                if i == 1 and B.term is None and len(B.succ) == 2 or B.tk == 'CXXTryStmt':
                    continue
                if B.noret or any(not isinstance(n, dict) and n.k == 'CXXThrowExpr' for n in B.elems):
                    continue
                st = IN[b]
                for n in B.elems:
                    st = self.step(st, n, f, fl)
                for x in st.values():
                    out = x if out is None else out & x
        self.__dict__.setdefault('_ends', {})[f.u] = out
        if out is None:
            r = self.P.recs.get(f.cls or '')
            return frozenset(x['q'] for x in r['fields']) if r else frozenset(), (IN, bl)
        fields = set(x[2] for x in out if x[0] == 'f' and x[1] == ('this',))
        for y in self.may_touch(f):
            if y in self.array_fields:
                fields.add(y)
        return frozenset(fields), (IN, bl)

    def join(self, IN, s, o):
        if s not in IN:
            IN[s] = dict(o)
            ch = True
        else:
            ch = False
            for cs, x in o.items():
                y = IN[s].get(cs)
                if y is None:
                    # a state already covered by a weaker one with fewer constants adds nothing
                    IN[s][cs] = x
                    ch = True
                elif y & x != y:
                    IN[s][cs] = y & x
                    ch = True
        if len(IN[s]) > 12:
            common = None
            setx = None
            for cs, x in IN[s].items():
                common = cs if common is None else common & cs
                setx = x if setx is None else setx & x
            IN[s] = {common: setx}
        return ch

    def prune(self, st, B, i):
        if B.term is None or B.cond is None or len(B.succ) != 2 or B.tk == 'SwitchStmt' or B.tk == 'CXXTryStmt':
            return st
        c = B.cond
        if B.tk == 'BinaryOperator':
            c = B.term.c[0]
        c = FL.last_operand(c)
        out = {}
        for cs, x in st.items():
            v = evaluate(c, dict(cs))
            if v is None or bool(v) == (i == 0):
                out[cs] = x
        return out

    def initialised(self, f):
        add = set()
        for i in f.inits:
            if i['deleg']:
                e = strip(i['e'])
                g = self.P.funcs.get(e.u) if e is not None and e.u else None
                if g is not None:
                    add |= self.sets(g)
            elif i['mf'] and (i['w'] or i['e'] is not None):
                add.add(i['mf'])
        return add


def const(n):
    n = strip(n)
    if n is None:
        return None
    if n.k in ('IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr') and 'val' in n.d:
        return int(n.get('val'))
    if n.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
        return 0
    if n.k == 'UnaryOperator' and n.get('op') == '-':
        v = const(n.c[0])
        return -v if v is not None else None
    return None


OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b,
       '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


def evaluate(n, env):
    n = strip(n)
    if n is None:
        return None
    c = const(n)
    if c is not None:
        return c
    if n.k == 'DeclRefExpr' and 'v' in n.d:
        return env.get(n.d['v'])
    if n.k == 'UnaryOperator' and n.get('op') == '!':
        v = evaluate(n.c[0], env)
        return None if v is None else int(not v)
    if n.k == 'BinaryOperator' and n.get('op') in OPS:
        a, b = evaluate(n.c[0], env), evaluate(n.c[1], env)
        return None if a is None or b is None else int(OPS[n.get('op')](a, b))
    if n.k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
        a, b = evaluate(n.c[0], env), evaluate(n.c[1], env)
        if n.get('op') == '&&':
            return 0 if a == 0 or b == 0 else (1 if a and b else None)
        return 1 if a or b else (0 if a == 0 and b == 0 else None)
    return None


def is_read(n):
    return n.k == 'ImplicitCastExpr' and n.get('ck') == 'LValueToRValue'


THIRD = ('fex/', 'tiniconv/', 'utf8case/', 'common/md5.')


def read_of(n):
    """canonical scalar lvalue whose value node n takes"""
    if is_read(n) or n.k == 'CompoundAssignOperator' or n.k == 'UnaryOperator' and n.get('op') in ('++', '--', 'p++', 'p--'):
        return canon(n.c[0])
    return None


def copied(n):
    """canonical object node n copies or moves as a whole"""
    if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and (n.get('cc') or n.get('mc')) and n.c:
        return canon(n.c[0])
    return None


def points(D, f, r):
    """every node of f with the states just before it"""
    IN, bl = r
    fl = D.flags(f)
    for b, st in IN.items():
        for n in bl[b].elems:
            if not isinstance(n, dict):
                yield n, st
            st = D.step(st, n, f, fl)


def unset(st, e):
    return any(e not in x for x in st.values())


def third(file):
    return file.startswith(THIRD)


def c18(env):
    P = env.P
    D = Definite(env)
    locals_(env, D)
    results(env, D)
    fields(env, D)


def locals_(env, D):
    P = env.P
    for f in P.funcs.values():
        if third(f.file):
            continue
        un, pods = {}, {}
        for n in f.walk():
            if n.k == 'DeclStmt':
                for i, x in enumerate(n.get('decls', [])):
                    if x.get('stat'):
                        continue
                    if scalar(x['t']) and not x.get('init'):
                        un[('v', x['v'])] = x['n']
                    elif x['t'].k == 'rec' and x.get('init') and i < len(n.c):
                        s = strip(n.c[i])
                        if s is not None and s.k == 'CXXConstructExpr' and not [c for c in s.c if c is not None] and not s.get('zi'):
                            for y in D.unset_of(x['t'], s):
                                un[('f', ('v', x['v']), y)] = x['n'] + '.' + y.rsplit('::', 1)[-1]
                                pods.setdefault(('v', x['v']), []).append(y)
        if not un:
            continue
        env.count('uninitialised_declarations', len(un))
        _, r = D.run(f, frozenset())
        bad = {}
        if r:
            for n, st in points(D, f, r):
                rd = read_of(n)
                if rd in un and unset(st, rd) and not (rd[0] == 'f' and not unset(st, rd[1])):
                    bad.setdefault(rd, n)
                for e, g, i in D.refs(n):
                    if e in un and unset(st, e) and i in D.wants(g):
                        bad.setdefault(e, n)
                c = copied(n)
                if c in pods and unset(st, c):
                    for y in pods[c]:
                        if unset(st, ('f', c, y)):
                            bad.setdefault(('f', c, y), n)
        for v, nm in sorted(un.items(), key=repr):
            if v in bad:
                key = 'local:%s:%s' % (f.q, nm)
                if key in CORRELATED:
                    env.ok()
                    env.count('correlated')
                else:
                    env.bad(key, bad[v].loc(), '%s: `%s` may be read before it has been given a value' % (f.q, nm))
            else:
                env.ok()


def results(env, D):
    """every function that promises a result gives one on every way out"""
    for f in env.P.funcs.values():
        if f.ctor or f.dtor or f.ret is None or f.ret.k == 'void' or f.name == 'main' or third(f.file):
            continue
        _, r = D.run(f, frozenset())
        if not r:
            continue
        env.count('functions_with_results')
        IN, bl = r
        ex = f.cfg[2]
        bad = None
        for b, B in bl.items():
            if b not in IN or B.noret:
                continue
            for i, s in enumerate(B.succ):
                if s != ex or i == 1 and B.term is None and len(B.succ) == 2 or B.tk == 'CXXTryStmt':
                    continue
                if not D.prune(IN[b], B, i):
                    continue
                if not any(not isinstance(n, dict) and n.k in ('ReturnStmt', 'CXXThrowExpr') for n in B.elems) and not (
                        B.term is not None and B.term.k in ('ReturnStmt', 'CXXThrowExpr')):
                    bad = B
        if bad is None:
            env.ok()
        else:
            ns = [n for n in bad.elems if not isinstance(n, dict)]
            env.bad('result:%s' % f.q, ns[-1].loc() if ns else '%s:%s' % (f.file, f.endline),
                    '%s can end without giving the result it promises' % f.q)


def fields(env, D):
    P = env.P
    # who reads which field of an object that exists
    readers = {}
    for f in P.funcs.values():
        if third(f.file):
            continue
        for n in f.walk():
            rd = read_of(n)
            e = rd
            while e is not None and e[0] in ('[]', '*', 'f'):
                if e[0] == 'f':
                    readers.setdefault(e[2], []).append((f, n))
                    break
                e = e[1]
    env.count('fields_read', len(readers))
    built = constructed(P)
    for q, r in sorted(P.recs.items()):
        if r.get('dep') or third(r['file']):
            continue
        fs = [x for x in r['fields'] if scalar(elem(x['t'])) and not x.get('ini')]
        order = [x['q'] for x in r['fields']]
        for c in D.ctors.get(q, ()):
            if c.d.get('cc') and not c.inits and c.body is None:
                continue
            env.count('constructors')
            in_constructor(env, D, c, order)
            s = D.sets(c)
            for x in fs:
                key = 'field:%s:%s' % (q, x['q'].rsplit('::', 1)[-1])
                if x['q'] in s:
                    env.ok()
                elif x['q'] not in entry_needs(D, q):
                    env.ok()
                    env.count('set_first')
                elif x['q'] not in readers:
                    env.ok()
                    env.count('never_read')
                elif c.u not in built:
                    env.ok()
                    env.count('never_constructed')
                elif key in SET_LATER:
                    env.ok()
                    env.count('set_later')
                else:
                    env.bad(key, '%s:%s' % (c.file, c.line), '%s does not set %s, which %s reads' % (
                        c.q, x['q'].rsplit('::', 1)[-1], readers[x['q']][0][0].q))


def entry_needs(D, q):
    """fields that something called from outside the class q may read before it sets them"""
    r = D.__dict__.setdefault('_entry', {})
    if q not in r:
        P = D.P
        if '_inner' not in D.__dict__:
            D._inner, D._outer = set(), set()
            for f in P.funcs.values():
                for n in f.calls():
                    if n.k not in ('CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                        if n.u:
                            D._outer.add(n.u)
                        continue
                    gs = D.this_call(n)
                    if gs is not None:
                        D._inner.update(g.u for g in gs)
                    else:
                        D._outer.update(g.u for g in P.targets(n))
        cl = {q} | P.all_subs(q) | P.all_supers(q)
        out = set()
        own = {x['q'] for x in P.recs[q]['fields']}
        for f in P.funcs.values():
            if f.cls in cl:
                if f.ctor or f.static:
                    continue
                if f.acc == 'priv' and f.u in D._inner and f.u not in D._outer:
                    continue
                out |= D.needs(f) & own
            else:
                continue
        # direct reads through another object
        for f in P.funcs.values():
            for n in f.walk():
                rd = read_of(n)
                if rd is not None and rd[0] == 'f' and rd[1] != ('this',) and rd[2] in own:
                    out.add(rd[2])
        r[q] = out
    return r[q]


def constructed(P):
    """constructors that some expression of the program (or a container) may run"""
    out = set()
    held = set()
    for f in P.funcs.values():
        for n in f.walk():
            if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNewExpr', 'CXXInheritedCtorInitExpr') and n.u:
                out.add(n.u)
            t = n.t
            if t is not None:
                st = [t]
                seen = set()
                while st:
                    y = st.pop()
                    if y is None or id(y) in seen:
                        continue
                    seen.add(id(y))
                    for z in y.a or ():
                        if z is not None and z.k == 'rec' and z.q:
                            held.add(z.q)
                        st.append(z)
                    st.append(y.to)
    for f in P.funcs.values():
        if f.ctor and f.cls in held and not f.params:
            out.add(f.u)
    return out


def in_constructor(env, D, c, order):
    """inside a constructor no field is used before its turn"""
    set_ = set()
    for i in c.inits:
        if i['e'] is not None:
            for n in i['e'].walk():
                rd = read_of(n)
                e = rd
                if e is not None and e[0] == 'f' and e[1] == ('this',) and e[2] in order and e[2] not in set_ and e[2] != i['mf']:
                    env.bad('order:%s:%s' % (c.q, e[2].rsplit('::', 1)[-1]), n.loc() if n.func else '%s:%s' % (c.file, c.line),
                            '%s: the initialiser of %s uses %s before it is initialised' % (c.q, i['mf'] or 'a base', e[2]))
                elif e is not None:
                    env.ok()
                if n.k == 'MemberExpr' and n.t is not None and n.t.k == 'rec' and not i['base']:
                    e = canon(n)
                    if e[0] == 'f' and e[1] == ('this',) and e[2] in order and e[2] not in set_ and e[2] != i['mf']:
                        p = n.parent
                        if p is not None and p.k == 'UnaryOperator' and p.get('op') == '&':
                            continue
                        env.bad('order:%s:%s' % (c.q, e[2].rsplit('::', 1)[-1]), '%s:%s' % (c.file, n.l),
                                '%s: the initialiser of %s uses %s before it is initialised' % (c.q, i['mf'] or 'a base', e[2]))
        if i['mf']:
            set_.add(i['mf'])
    _, r = D.run(c, frozenset())
    if not r:
        return
    scal = {x['q'] for x in D.P.recs[c.cls]['fields'] if scalar(x['t']) and not x.get('ini')} if c.cls in D.P.recs else set()
    for n, st in points(D, c, r):
        rd = read_of(n)
        if rd is not None and rd[0] == 'f' and rd[1] == ('this',) and rd[2] in scal:
            if unset(st, rd):
                env.bad('early:%s:%s' % (c.q, rd[2].rsplit('::', 1)[-1]), n.loc(), '%s reads %s before it has been given a value' % (c.q, rd[2]))
            else:
                env.ok()
        for g in D.this_call(n) or ():
            for y in D.needs(g):
                if y in scal:
                    if unset(st, ('f', ('this',), y)):
                        env.bad('early:%s:%s' % (c.q, y.rsplit('::', 1)[-1]), n.loc(), '%s calls %s, which reads %s before it has been given a value' % (c.q, g.q, y))
                    else:
                        env.ok()


# a local that is set exactly when another condition holds which also guards the read
CORRELATED = {
    # a line ends the first loop without ending the text only at a `*`, which sets both
    'local:SegmentGlob::matches:cp', 'local:SegmentGlob::matches:mp',
    # the text has at least its first vertex
    'local:Lattice::getLastVertex:vd',
    # looked up under ZSYNTREEP(ttz) && SUBR_EXPRESSION, read after both have been tested again
    'local:tmil::Transferer::compute_:ttsslot',
    # the first call gets an empty set, for which nextksb sets both
    'local:poleng::bonsai::RuleSet::build_intersector:m', 'local:poleng::bonsai::RuleSet::build_intersector:h',
}
# fields a constructor leaves unset and that are set before the object is used
SET_LATER = {
    # the parser calls SetUploadedFilesStorage on every field it creates
    'field:MPFD::Field:WhereToStoreUploadedFiles',
    # a branch is made with set_root
    'field:tree_branch:root_',
}
