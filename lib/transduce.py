"""Abstract interpretation of functions from strings to strings.

A character of the input is abstracted to the set of values it may have; a
comparison splits the set.  Constant texts are exact.  The laws of escaping
functions are decided on inputs of up to a few abstract characters.
"""
from relate import *
from flow import strip

ALL = frozenset(range(256))


class Ch:
    """character k of the input"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Ch) and o.k == self.k

    def __hash__(self):
        return hash(('Ch', self.k))

    def __repr__(self):
        return 'c%d' % self.k


class Str:
    """text: constants (int) and abstract characters"""
    __slots__ = ('v',)

    def __init__(self, v=()):
        self.v = list(v)

    def __repr__(self):
        return 'Str(%s)' % ''.join(chr(x) if isinstance(x, int) else '{%r}' % x for x in self.v)


class SIt:
    __slots__ = ('s', 'i')

    def __init__(self, s, i):
        self.s, self.i = s, i


class Obj:
    """object with known fields"""

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


def byte(x):
    return x % 256


class StrMachine(Machine):
    def __init__(self, P, space=None):
        Machine.__init__(self, P, space)

    def reset_chars(self):
        self.cset = {}

    def setof(self, c):
        if isinstance(c, int):
            return frozenset([byte(c)])
        return self.cset.setdefault(c.k, ALL)

    def split(self, c, yes):
        """is character c in set yes? (splits the abstract state)"""
        s = self.setof(c)
        a, b = s & yes, s - yes
        if not a or not b:
            return bool(a)
        if self.choose(2) == 0:
            self.cset[c.k] = a
            return True
        self.cset[c.k] = b
        return False

    def compare(self, op, a, b):
        if isinstance(a, Ch) or isinstance(b, Ch):
            if isinstance(a, Ch) and isinstance(b, Ch):
                if a == b:
                    return OPS[op](0, 0)
                raise Undecided('two characters compared')
            if isinstance(b, Ch):
                a, b, op = b, a, SWAP[op]
            if isinstance(b, bool) or not isinstance(b, (int, Fraction)):
                raise Undecided('character compared')
            # plain char is signed here
            sg = lambda x: x - 256 if x > 127 else x
            return self.split(a, frozenset(x for x in ALL if OPS[op](sg(x), int(b) if -128 <= b < 128 else sg(byte(int(b))))))
        if isinstance(a, SIt) and isinstance(b, SIt):
            return OPS[op](a.i, b.i)
        if isinstance(a, (Str, str)) and isinstance(b, (Str, str)):
            x, y = tolist(a), tolist(b)
            if op in ('==', '!='):
                if len(x) != len(y):
                    return op == '!='
                for p, q in zip(x, y):
                    if p == q:
                        continue
                    if isinstance(p, int) and isinstance(q, int):
                        return op == '!='
                    if isinstance(q, Ch):
                        p, q = q, p
                    if isinstance(q, Ch):
                        raise Undecided('strings compared')
                    if not self.split(p, frozenset([byte(q)])):
                        return op == '!='
                return op == '=='
            raise Undecided('strings compared')
        return Machine.compare(self, op, a, b)

    def truth(self, v):
        if isinstance(v, Ch):
            return self.split(v, ALL - {0})
        if isinstance(v, (Str, SIt)):
            raise Undecided('truth')
        return Machine.truth(self, v)

    def assign(self, n, v, env):
        m = strip(n)
        if isinstance(v, str):
            v = Str([ord(c) for c in v])
        if m.k == 'DeclRefExpr' and isinstance(env.get(m.get('v')), Str) and isinstance(v, Str):
            env[m.get('v')].v[:] = list(v.v)
            return env[m.get('v')]
        if m.k in ('CXXOperatorCallExpr', 'ArraySubscriptExpr', 'UnaryOperator', 'CXXMemberCallExpr'):
            if m.k == 'CXXOperatorCallExpr' and m.get('op') in ('[]', '*') or m.k == 'UnaryOperator' and m.get('op') == '*':
                b = self.ev(m.c[1] if m.k == 'CXXOperatorCallExpr' else m.c[0], env)
                i = self.ev(m.c[2], env) if m.get('op') == '[]' else b.i if isinstance(b, SIt) else None
                b = b.s if isinstance(b, SIt) else b
                if isinstance(b, Str) and isinstance(i, int) and isinstance(v, (int, Ch)):
                    if not 0 <= i < len(b.v):
                        raise Overrun()
                    b.v[i] = v
                    return v
        if m.k == 'MemberExpr':
            o = env['this'] if not m.c or m.c[0] is None else self.ev(m.c[0], env)
            if isinstance(o, Obj):
                o.f[m.get('mf')] = v
                return v
        return Machine.assign(self, n, v, env)

    def incr(self, n, d, env, pre):
        v = self.lref(n, env)
        old = env[v]
        if isinstance(old, SIt):
            env[v] = SIt(old.s, old.i + d)
            return env[v] if pre else old
        return Machine.incr(self, n, d, env, pre)

    def arith(self, op, a, b, t):
        if op == '+' and (isinstance(a, (Str, str)) or isinstance(b, (Str, str))):
            return Str(tolist(a) + tolist(b))
        if isinstance(a, SIt) and isinstance(b, int):
            return SIt(a.s, a.i + (b if op == '+' else -b))
        if isinstance(a, SIt) and isinstance(b, SIt) and op == '-':
            return a.i - b.i
        if isinstance(a, (Ch, Str)) or isinstance(b, (Ch, Str)):
            raise Undecided('arithmetic on characters')
        return Machine.arith(self, op, a, b, t)

    def stmt(self, n, env):
        if n is not None and n.k == 'DeclStmt':
            for i, d in enumerate(n.get('decls', ())):
                init = n.c[i] if d.get('init') and i < len(n.c) else None
                ts = repr(d['t']).replace('const ', '')
                v = self.ev(init, env) if init is not None else None
                if ts.startswith('std::basic_string<'):
                    v = Str(tolist(v)) if v is not None and not isinstance(v, Term) else Str()
                elif d['t'].k == 'ref' and isinstance(v, str):
                    v = Str([ord(c) for c in v])
                env[d['v']] = v
            return
        if n is not None and n.k == 'CXXForRangeStmt':
            self.range_for(n, env)
            return
        Machine.stmt(self, n, env)

    def range_for(self, n, env):
        decls = [x for x in n.walk() if x.k == 'DeclStmt']
        rng = var = None
        for d in decls:
            for i, x in enumerate(d.get('decls', ())):
                if x['n'] == '__range1' or str(x['n']).startswith('__range'):
                    rng = d.c[i] if i < len(d.c) else None
                elif not str(x['n']).startswith('__') and var is None:
                    var = x
        body = n.c[-1]
        if rng is None or var is None:
            raise Undecided('range for')
        s = self.ev(rng, env)
        for c in tolist(s):
            env[var['v']] = c
            try:
                self.stmt(body, env)
            except Brk:
                break
            except Cont:
                pass

    def ev(self, n, env):
        m = strip(n)
        if m is not None and m.k == 'DeclRefExpr' and str(m.get('q') or '').endswith('::npos'):
            return NPOS
        if m is not None and m.k == 'MemberExpr':
            b = self.ev(m.c[0], env) if m.c and m.c[0] is not None else env['this']
            if isinstance(b, Obj) and m.get('mf') in b.f:
                return b.f[m.get('mf')]
        if m is not None and m.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr') and 'basic_string' in (m.fn or ''):
            cs = [c for c in m.c if c is not None and c.k != 'CXXDefaultArgExpr']
            vs = [self.ev(c, env) for c in cs]
            if len(vs) == 2 and isinstance(vs[0], int) and isinstance(vs[1], (int, Ch)):
                return Str([vs[1]] * vs[0])
            if len(vs) == 2 and isinstance(vs[0], SIt):
                return Str(vs[0].s.v[vs[0].i:vs[1].i])
            if len(vs) == 1:
                return Str(tolist(vs[0]))
            if not vs:
                return Str()
            if len(vs) >= 2 and isinstance(vs[0], (Str, str)):
                return Str(tolist(vs[0])[vs[1]:][:vs[2] if len(vs) > 2 else None])
            raise Undecided('string')
        if m is not None and m.k == 'UnaryOperator' and m.get('op') == '*':
            v = self.ev(m.c[0], env)
            if isinstance(v, SIt):
                return self.char(v.s, v.i)
        return Machine.ev(self, n, env)

    def char(self, s, i):
        l = tolist(s)
        if i == len(l):
            return 0
        if i > len(l) or i < 0:
            raise Overrun()
        return l[i]

    def callx(self, n, env):
        name = (n.fn or '').split('::')[-1]
        op = n.get('op') if n.k == 'CXXOperatorCallExpr' else None
        if op in ('[]', '+=', '+', '==', '!=', '*', '=', '<<'):
            a = self.ev(n.c[1], env)
            if isinstance(a, (Str, SIt)) or op in ('+', '==', '!=') and len(n.c) > 2 and isinstance(a, (str, Ch, int)):
                b = self.ev(n.c[2], env) if len(n.c) > 2 else None
                if op == '*' and b is None:
                    return self.char(a.s, a.i)
                if op == '[]' and isinstance(a, Str) and isinstance(b, int):
                    return self.char(a, b)
                if op in ('+=', '<<') and isinstance(a, Str):
                    a.v += tolist(b)
                    return a
                if op == '+':
                    return self.arith('+', a, b, None)
                if op in ('==', '!='):
                    return self.compare(op, a, b)
                if op == '=':
                    return self.assign(n.c[1], b, env)
        if n.k == 'CXXMemberCallExpr':
            me = strip(n.c[0])
            if me is not None and me.k == 'MemberExpr' and me.c and me.c[0] is not None:
                t = self.ev(me.c[0], env)
                if isinstance(t, Str):
                    args = [self.ev(a, env) for a in n.c[1:] if a is not None and a.k != 'CXXDefaultArgExpr']
                    return self.string_method(t, name, args)
            this = None
        if name in ('replace_all', 'replace_first') and n.k == 'CallExpr' and len(n.c) == 4:
            a = [self.ev(x, env) for x in n.c[1:]]
            if isinstance(a[0], Str):
                w, r, i = tolist(a[1]), tolist(a[2]), 0
                while w and i + len(w) <= len(a[0].v):
                    if self.truth(self.compare('==', Str(a[0].v[i:i + len(w)]), Str(w))):
                        a[0].v[i:i + len(w)] = r
                        i += len(r)
                        if name == 'replace_first':
                            break
                    else:
                        i += 1
                return None
        if name == 'replace' and n.k == 'CallExpr' and len(n.c) == 5:
            a = [self.ev(x, env) for x in n.c[1:]]
            if isinstance(a[0], SIt) and isinstance(a[1], SIt):
                for i in range(a[0].i, a[1].i):
                    if self.truth(self.compare('==', a[0].s.v[i], a[2])):
                        a[0].s.v[i] = a[3]
                return None
        if name in ('find', 'strchr') and n.k == 'CallExpr' and len(n.c) >= 3:
            args = [self.ev(a, env) for a in n.c[1:]]
            if name == 'strchr' and isinstance(args[0], str) and isinstance(args[1], (Ch, int)):
                return self.split(args[1], frozenset([ord(c) for c in args[0]] + [0])) if isinstance(args[1], Ch) else chr(args[1]) in args[0]
        if name in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'ispunct', 'iscntrl', 'isupper', 'islower', 'isxdigit') and len(n.c) >= 2:
            a = self.ev(n.c[1], env)
            if isinstance(a, Ch):
                return self.split(a, CTYPE[name])
            if isinstance(a, int):
                return byte(a) in CTYPE[name]
        tgt = [f for f in self.P.targets(n) if f.cfg] if n.fn else []
        if len(tgt) == 1 and n.k == 'CallExpr' or len(tgt) == 1 and n.k == 'CXXMemberCallExpr':
            f = tgt[0]
            args = [self.ev(a, env) for a in n.c[1:] if a is not None and a.k != 'CXXDefaultArgExpr']
            if len(args) == len(f.params):
                this = env['this']
                if n.k == 'CXXMemberCallExpr':
                    me = strip(n.c[0])
                    this = self.ev(me.c[0], env) if me.c and me.c[0] is not None else env['this']
                args = [Str(a.v) if isinstance(a, Str) and t.k != 'ref' else (Str([ord(c) for c in a]) if isinstance(a, str) and 'basic_string' in repr(t) else a)
                        for a, (_, _, t) in zip(args, f.params)]
                return self.call(f, this, args)
        return Machine.callx(self, n, env)

    def search(self, t, name, args):
        l, start = t.v, args[1] if len(args) > 1 else None
        if start is not None and not isinstance(start, int):
            raise Undecided('string::' + name)
        if name in ('find', 'rfind'):
            w = tolist(args[0])
            last = len(l) - len(w)
            idx = range(start or 0, last + 1) if name == 'find' else range(min(last, NPOS if start is None else start), -1, -1)
            for i in idx:
                if self.truth(self.compare('==', Str(l[i:i + len(w)]), Str(w))):
                    return i
            return NPOS
        cs = []
        for c in tolist(args[0]):
            if isinstance(c, Ch) and len(self.setof(c)) > 1:
                raise Undecided('set of unknown characters')
            cs += list(self.setof(c))
        cs = frozenset(cs)
        idx = range(start or 0, len(l)) if '_first_' in name else range(min(len(l) - 1, NPOS if start is None else start), -1, -1)
        for i in idx:
            inside = self.split(l[i], cs) if isinstance(l[i], Ch) else byte(l[i]) in cs
            if inside != ('_not_' in name):
                return i
        return NPOS

    def string_method(self, t, name, args):
        if name in ('length', 'size'):
            return len(t.v)
        if name == 'empty':
            return not t.v
        if name in ('begin', 'cbegin'):
            return SIt(t, 0)
        if name in ('end', 'cend'):
            return SIt(t, len(t.v))
        if name in ('at', 'operator[]'):
            return self.char(t, args[0])
        if name == 'push_back':
            t.v.append(args[0])
            return None
        if name == 'append':
            if len(args) == 2 and isinstance(args[0], int):
                t.v += [args[1]] * args[0]
            elif len(args) == 1:
                t.v += tolist(args[0])
            else:
                raise Undecided('append')
            return t
        if name in ('c_str', 'data'):
            return t
        if name == 'clear':
            t.v[:] = []
            return None
        if name in ('reserve', 'shrink_to_fit'):
            return None
        if name == 'back':
            return t.v[-1]
        if name == 'substr':
            i = args[0] if args else 0
            return Str(t.v[i:][:args[1] if len(args) > 1 and args[1] is not None else None])
        if name == 'front':
            return self.char(t, 0)
        if name == 'pop_back':
            del t.v[-1:]
            return None
        if name in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of') and args:
            return self.search(t, name, args)
        if name == 'compare' and len(args) == 1:
            if self.truth(self.compare('==', t, args[0])):
                return 0
            raise Undecided('string::compare')
        if name == 'erase' and all(isinstance(a, int) for a in args):
            i = args[0] if args else 0
            k = args[1] if len(args) > 1 else NPOS
            if i > len(t.v):
                raise Thrown()
            del t.v[i:i + min(k, len(t.v))]
            return t
        if name == 'erase' and args and isinstance(args[0], SIt):
            del t.v[args[0].i:args[1].i if len(args) > 1 else args[0].i + 1]
            return args[0]
        if name == 'insert' and len(args) == 2 and isinstance(args[0], (int, SIt)):
            i = args[0] if isinstance(args[0], int) else args[0].i
            if i > len(t.v):
                raise Thrown()
            t.v[i:i] = tolist(args[1])
            return t
        if name == 'insert' and len(args) == 3 and all(isinstance(a, int) for a in args[:2]):
            t.v[args[0]:args[0]] = [args[2]] * args[1]
            return t
        if name == 'replace' and len(args) >= 3 and isinstance(args[0], int) and isinstance(args[1], int):
            if args[0] > len(t.v):
                raise Thrown()
            t.v[args[0]:args[0] + args[1]] = tolist(args[2]) if len(args) == 3 else [args[3]] * args[2]
            return t
        if name == 'assign' and len(args) == 1:
            t.v[:] = tolist(args[0])
            return t
        if name == 'swap' and len(args) == 1 and isinstance(args[0], Str):
            t.v, args[0].v = args[0].v, t.v
            return None
        if name == 'resize' and args and isinstance(args[0], int):
            t.v[args[0]:] = [args[1] if len(args) > 1 else 0] * max(0, args[0] - len(t.v))
            return None
        raise Undecided('string::' + name)


NPOS = 2 ** 64 - 1


class Overrun(Exception):
    """a character after the end is used"""


import string as _s
CTYPE = {
    'isspace': frozenset(map(ord, ' \t\n\v\f\r')), 'isdigit': frozenset(map(ord, _s.digits)), 'isalpha': frozenset(map(ord, _s.ascii_letters)),
    'isalnum': frozenset(map(ord, _s.ascii_letters + _s.digits)), 'ispunct': frozenset(map(ord, _s.punctuation)),
    'iscntrl': frozenset(list(range(32)) + [127]), 'isupper': frozenset(map(ord, _s.ascii_uppercase)), 'islower': frozenset(map(ord, _s.ascii_lowercase)),
    'isxdigit': frozenset(map(ord, _s.hexdigits))}


def tolist(v):
    if isinstance(v, Str):
        return list(v.v)
    if isinstance(v, str):
        return [ord(c) for c in v]
    if isinstance(v, (Ch, int)):
        return [v]
    raise Undecided('text of %r' % (v,))


def construct(P, m, cls, depth=0):
    """fields of an object of cls made by its constructor without arguments"""
    fields = {}

    def run(f, args):
        env = {'this': Obj(f.cls, fields)}
        for (v, _, t), a in zip(f.params, args):
            env[v] = a
        for i in f.inits:
            e = i['e']
            if i.get('mf') and e is not None:
                try:
                    fields[i['mf']] = m.ev(e, env)
                except Undecided:
                    pass
            elif i.get('base') is not None and e is not None:
                c = strip(e)
                tg = [g for g in P.targets(c) if g.ctor] if c is not None and c.fn else []
                if len(tg) == 1:
                    run(tg[0], [m.ev(a, env) for a in c.c if a is not None and a.k != 'CXXDefaultArgExpr'])
    for f in P.funcs.values():
        if f.ctor and f.cls == cls and not f.params:
            run(f, [])
            return Obj(cls, fields)
    return Obj(cls, fields)
