"""Abstract interpretation of functions that put texts together.

Extends the interpreter of lib/transduce.py by objects with fields, streams,
vectors, stacks, lists and pairs.  Texts hold constants, characters of the
input (abstracted to sets) and tokens standing for any complete value.
"""
from transduce import *


class Tok:
    """any text of a kind (e.g. a complete JSON value)"""
    __slots__ = ('kind', 'k')

    def __init__(self, kind, k=0):
        self.kind, self.k = kind, k

    def __eq__(self, o):
        return isinstance(o, Tok) and (o.kind, o.k) == (self.kind, self.k)

    def __hash__(self):
        return hash((self.kind, self.k))

    def __repr__(self):
        return '<%s>' % self.kind


class Num:
    """a character written as a number"""
    __slots__ = ('c', 'base', 'width', 'fill', 'signed')

    def __init__(self, c, base, width, fill, signed):
        self.c, self.base, self.width, self.fill, self.signed = c, base, width, fill, signed

    def __repr__(self):
        return 'Num(%r,%s,%s)' % (self.c, self.base, self.width)


class Vec:
    __slots__ = ('v',)

    def __init__(self, v=()):
        self.v = list(v)


class Pair:
    __slots__ = ('first', 'second')

    def __init__(self, a, b):
        self.first, self.second = a, b


class Map(Vec):
    __slots__ = ()


class Stream(Str):
    __slots__ = ('base', 'width', 'fill')

    def __init__(self, v=()):
        Str.__init__(self, v)
        self.base, self.width, self.fill = 10, 0, 32


class Manip:
    __slots__ = ('what', 'v')

    def __init__(self, what, v=None):
        self.what, self.v = what, v


class Int:
    """the number of a character"""
    __slots__ = ('c', 'signed')

    def __init__(self, c, signed):
        self.c, self.signed = c, signed


STREAMS = ('std::basic_stringstream<', 'std::basic_ostringstream<', 'std::basic_istringstream<')
VECS = ('std::vector<', 'std::list<', 'std::stack<', 'std::deque<', 'std::queue<', 'std::set<')


def spell(t):
    return repr(t).replace('const ', '') if t is not None else ''


class OutMachine(StrMachine):
    def opaque(self, n, this, args):
        """value of a call the analysis gives a meaning of its own; NotImplemented: none"""
        return NotImplemented

    def copy(self, v, t):
        s = spell(t)
        if isinstance(v, Str) and not s.endswith(('&', '*')) and not isinstance(v, Stream):
            return Str(v.v)
        if isinstance(v, Vec) and not s.endswith(('&', '*')):
            return Vec(v.v)
        return v

    def stmt(self, n, env):
        if n is not None and n.k == 'DeclStmt':
            for i, d in enumerate(n.get('decls', ())):
                ts = spell(d['t'])
                if ts.startswith(STREAMS):
                    init = n.c[i] if d.get('init') and i < len(n.c) else None
                    c = strip(init) if init is not None else None
                    args = [self.ev(a, env) for a in c.c if a is not None and a.k != 'CXXDefaultArgExpr'] if c is not None else []
                    env[d['v']] = Stream(tolist(args[0]) if args and isinstance(args[0], (Str, str)) else ())
                elif ts.startswith(VECS) and not ts.endswith(('*', '&')):
                    init = n.c[i] if d.get('init') and i < len(n.c) else None
                    c = strip(init) if init is not None else None
                    v = None
                    if c is not None and not (c.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and not [a for a in c.c if a is not None and a.k != 'CXXDefaultArgExpr']):
                        v = self.ev(init, env)
                    env[d['v']] = Vec(v.v) if isinstance(v, Vec) else Vec() if v is None else v
                else:
                    m = strip(n.c[i]) if d.get('init') and i < len(n.c) and n.c[i] is not None else None
                    StrMachine.stmt(self, n, env) if len(n.get('decls', ())) == 1 else self.one(n, i, d, env)
                    if isinstance(env.get(d['v']), Str) and d['t'].k != 'ref' and m is not None:
                        env[d['v']] = Str(env[d['v']].v)
            return
        if n is not None and n.k == 'CXXTryStmt':
            return self.attempt(n, env)
        if n is not None and n.k == 'DoStmt':
            # do { … } while (0) of logging macros
            try:
                self.stmt(n.c[1], env)
                while self.truth(self.ev(n.c[0], env)):
                    self.stmt(n.c[1], env)
            except Brk:
                pass
            return
        StrMachine.stmt(self, n, env)

    def one(self, n, i, d, env):
        init = n.c[i] if d.get('init') and i < len(n.c) else None
        env[d['v']] = self.ev(init, env) if init is not None else None

    def attempt(self, n, env):
        try:
            self.stmt(n.c[0], env)
        except Thrown as e:
            for h in n.c[1:]:
                if h is None:
                    continue
                for x in h.walk():
                    if x.k == 'VarDecl' and x.get('v') is not None:
                        env[x.get('v')] = Tok('exception')
                if h.get('v') is not None:
                    env[h.get('v')] = Tok('exception')
                body = [c for c in h.c if c is not None and c.k == 'CompoundStmt']
                self.stmt(body[-1] if body else None, env)
                return
            raise

    def elements(self, s):
        if isinstance(s, Vec):
            return list(s.v)
        if isinstance(s, (Str, str)):
            return tolist(s)
        return StrMachine.elements(self, s)

    def each(self, seq, var, body, env):
        for x in self.elements(seq):
            env[var] = Str(x.v) if isinstance(x, Str) else x
            try:
                self.stmt(body, env)
            except Brk:
                break
            except Cont:
                pass

    def range_for(self, n, env):
        Machine.range_for(self, n, env)

    def truth(self, v):
        if isinstance(v, (Vec, Obj)):
            return True
        if v is None:
            return False
        return StrMachine.truth(self, v)

    def compare(self, op, a, b):
        if isinstance(a, Int) or isinstance(b, Int):
            x, y = (a.c if isinstance(a, Int) else a), (b.c if isinstance(b, Int) else b)
            sg = (a if isinstance(a, Int) else b).signed
            if isinstance(a, Int) and isinstance(y, int) and isinstance(x, Ch):
                return self.split(x, frozenset(c for c in ALL if OPS[op](c - 256 if sg and c > 127 else c, y)))
            if isinstance(b, Int) and isinstance(x, int) and isinstance(y, Ch):
                return self.split(y, frozenset(c for c in ALL if OPS[op](x, c - 256 if sg and c > 127 else c)))
            raise Undecided('number of a character compared')
        if isinstance(a, VIt) and isinstance(b, VIt):
            return OPS[op](a.i, b.i)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Vec, Obj)) and (y is None or y == 0 and isinstance(y, int)):
                return op == '!='
            if x is None and (y is None or isinstance(y, int)):
                return OPS[op](0, y or 0)
        return StrMachine.compare(self, op, a, b)

    def incr(self, n, d, env, pre):
        m = strip(n)
        if m.k == 'MemberExpr':
            o = self.ev(m.c[0], env) if m.c and m.c[0] is not None else env['this']
            if isinstance(o, Obj):
                old = o.f.get(m.get('mf'))
                if not isinstance(old, int):
                    raise Undecided('counter')
                o.f[m.get('mf')] = old + d
                return old + d if pre else old
        if m.k == 'DeclRefExpr' and isinstance(env.get(m.get('v')), VIt):
            old = env[m.get('v')]
            env[m.get('v')] = VIt(old.s, old.i + d)
            return env[m.get('v')] if pre else old
        return StrMachine.incr(self, n, d, env, pre)

    def deref(self, v):
        if isinstance(v, VIt):
            if not 0 <= v.i < len(v.s.v):
                raise Overrun()
            return v.s.v[v.i]
        return StrMachine.deref(self, v)

    def assign(self, n, v, env):
        m = strip(n)
        if m.k == 'MemberExpr':
            o = self.ev(m.c[0], env) if m.c and m.c[0] is not None else env['this']
            if isinstance(o, Obj) and isinstance(v, (Str, str)) and 'basic_string<' in spell(m.t):
                o.f[m.get('mf')] = Str(tolist(v))
                return v
        return StrMachine.assign(self, n, v, env)

    def ev(self, n, env):
        while n is not None and n.c and n.c[0] is not None and (
                n.k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr')
                or n.get('ck') in ('NoOp', 'LValueToRValue') and 'Cast' in n.k):
            n = n.c[0]
        m = strip(n)
        if m is not None and m.k == 'DeclRefExpr' and m.get('q'):
            q = m.get('q')
            nm = q.split('::')[-1]
            if q.startswith('std::') and nm in ('hex', 'dec', 'oct', 'endl', 'flush', 'uppercase', 'nouppercase', 'noshowbase', 'right', 'left', 'internal', 'ends'):
                return Manip(nm)
            if m.get('v') is None:
                s = self.global_text(q)
                if s is not None:
                    return s
                s = self.global_map(q)
                if s is not None:
                    return s
        if m is not None and m.k == 'MemberExpr':
            b = self.ev(m.c[0], env) if m.c and m.c[0] is not None else env['this']
            if isinstance(b, Pair):
                return b.first if m.get('mf').endswith('first') else b.second
            if isinstance(b, Obj) and m.get('mf') in b.f:
                return b.f[m.get('mf')]
            if isinstance(b, Obj):
                s = self.global_text(m.get('mf')) or self.global_map(m.get('mf'))
                if s is not None:
                    return s
                raise Undecided('field ' + str(m.get('mf')))
        if m is not None and m.k == 'CXXNewExpr':
            ts = spell(m.t)
            if ts.startswith(VECS):
                return Vec()
            raise Undecided('new')
        if m is not None and m.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            ts = spell(m.t)
            cs = [c for c in m.c if c is not None and c.k != 'CXXDefaultArgExpr']
            if ts.startswith(STREAMS):
                a = [self.ev(c, env) for c in cs]
                return Stream(tolist(a[0]) if a and isinstance(a[0], (Str, str)) else ())
            if ts.startswith(VECS) and not cs:
                return Vec()
            if ts.startswith('std::pair<') and len(cs) == 2:
                return Pair(self.ev(cs[0], env), self.ev(cs[1], env))
        if n is not None and n.k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'ImplicitCastExpr') and n.get('ck') == 'IntegralCast' and n.c:
            v = self.ev(n.c[0], env)
            ts = spell(n.t)
            if isinstance(v, Ch):
                fr = spell(n.c[0].t)
                sg = 'unsigned' not in fr
                if ts == 'unsigned char':
                    return v if not sg else Int(v, False)
                if ts in ('char', 'signed char'):
                    return v
                return Int(v, sg)
            if isinstance(v, Int):
                if ts == 'unsigned char':
                    return Int(v.c, False)
                if ts in ('char', 'signed char'):
                    return v.c
                if 'unsigned' in ts and v.signed:
                    return v if not any(x > 127 for x in self.setof(v.c)) else self.wide()
                return v
            if isinstance(v, int) and not isinstance(v, bool) and ts == 'unsigned char':
                return v % 256
            return v
        return StrMachine.ev(self, n, env)

    def wide(self):
        raise Undecided('a negative number made unsigned')

    def global_text(self, q):
        if q is None:
            return None
        for (qq, file, l), d in self.P.vars.items():
            if qq == q and d.get('init') is not None:
                ss = [x.get('s') for x in d['init'].walk() if x.k == 'StringLiteral']
                if len(ss) == 1 and 'basic_string' in spell(d.get('t')) or len(ss) == 1 and 'char' in spell(d.get('t')):
                    return Str([ord(c) for c in ss[0] or ''])
        return None

    def global_map(self, q):
        """a constant map from texts to texts"""
        for (qq, file, l), d in self.P.vars.items():
            if qq == q and d.get('init') is not None and spell(d.get('t')).startswith(('std::map<std::basic_string', 'std::unordered_map<std::basic_string', 'boost::unordered')):
                ss = [x.get('s') or '' for x in d['init'].walk() if x.k == 'StringLiteral']
                if ss and len(ss) % 2 == 0:
                    return Map([Pair(Str(map(ord, a)), Str(map(ord, b))) for a, b in zip(ss[::2], ss[1::2])])
        return None

    def put(self, s, v):
        """s << v"""
        if isinstance(v, Manip):
            if v.what in ('hex', 'dec', 'oct'):
                s.base = {'hex': 16, 'dec': 10, 'oct': 8}[v.what]
            elif v.what == 'setbase':
                s.base = v.v
            elif v.what == 'setw':
                s.width = v.v
            elif v.what == 'setfill':
                s.fill = v.v
            elif v.what == 'endl':
                s.v.append(10)
            return s
        w = s.width
        if isinstance(v, Int):
            s.v.append(Num(v.c, s.base, w, s.fill, v.signed))
        elif isinstance(v, bool) or isinstance(v, (int, Fraction)):
            t = [ord(c) for c in {16: '%x', 10: '%d', 8: '%o'}[s.base] % int(v)]
            s.v += [s.fill] * max(0, w - len(t)) + t
        elif isinstance(v, Char):
            s.v.append(v.c)
        else:
            t = tolist(v)
            if w and any(isinstance(x, Tok) for x in t):
                raise Undecided('width')
            s.v += [s.fill] * max(0, w - len(t)) + t
        s.width = 0
        return s

    def callx(self, n, env):
        name = (n.fn or '').split('<')[0].split('::')[-1] if not (n.fn or '').split('::')[-1].startswith('operator') else 'operator'
        op = n.get('op') if n.k == 'CXXOperatorCallExpr' else None
        if op == '<<' and (n.fn or '').startswith('PSILogger'):
            return None
        if op == '<<' and len(n.c) > 2:
            s = self.ev(n.c[1], env)
            if isinstance(s, Stream):
                v = self.ev(n.c[2], env)
                t = spell(strip(n.c[2]).t).rstrip('& ')
                if isinstance(v, int) and not isinstance(v, bool) and t in ('char', 'unsigned char', 'signed char'):
                    v = Char(v % 256)
                return self.put(s, v)
        if op in ('=', '==', '!=') and len(n.c) > 2:
            pass
        if op in ('*', '->') and len(n.c) == 2:
            b = self.ev(n.c[1], env)
            if isinstance(b, VIt):
                return self.deref(b)
        if op == '[]':
            b = self.ev(n.c[1], env)
            if isinstance(b, Map):
                return self.container(b, 'at', [self.ev(n.c[2], env)], '')
            if isinstance(b, Vec):
                i = self.ev(n.c[2], env)
                if not isinstance(i, int) or not 0 <= i < len(b.v):
                    raise Overrun()
                return b.v[i]
        if name in ('setw', 'setbase', 'setfill') and n.k == 'CallExpr':
            return Manip(name, self.ev(n.c[1], env))
        args = None
        if n.k == 'CXXMemberCallExpr':
            me = strip(n.c[0])
            if me is not None and me.k == 'MemberExpr':
                r = self.opaque(n, None, None)
                if r is not NotImplemented:
                    return r(self, n, env)
                t = self.ev(me.c[0], env) if me.c and me.c[0] is not None else env['this']
                if isinstance(t, (Vec, Stream)):
                    args = [self.ev(a, env) for a in n.c[1:] if a is not None and a.k != 'CXXDefaultArgExpr']
                    r = self.container(t, name, args, spell(strip(me.c[0]).t))
                    if r is not NotImplemented:
                        return r
                if isinstance(t, Tok) and t.kind == 'exception' and name == 'what':
                    return self.what()
        elif n.k in ('CallExpr', 'CXXOperatorCallExpr'):
            r = self.opaque(n, None, None)
            if r is not NotImplemented:
                return r(self, n, env)
        if op is None and n.fn:
            fs = [f for f in self.P.targets(n) if f.cfg]
            if len(fs) == 1 and n.k == 'CXXMemberCallExpr' and not fs[0].virtual or len(fs) == 1 and n.k in ('CallExpr', 'CXXMemberCallExpr'):
                f = fs[0]
                argn = [a for a in n.c[1:] if a is not None]
                vals = []
                for a, (v, _, t) in zip(argn, f.params):
                    x = self.ev(a.c[0] if a.k == 'CXXDefaultArgExpr' and a.c else a, env)
                    x = Str([ord(c) for c in x]) if isinstance(x, str) and 'basic_string' in spell(t) else x
                    vals.append(self.copy(x, t))
                this = env['this']
                if n.k == 'CXXMemberCallExpr':
                    me = strip(n.c[0])
                    this = self.ev(me.c[0], env) if me is not None and me.c and me.c[0] is not None else env['this']
                if len(vals) == len(f.params):
                    return self.call(f, this, vals)
        return StrMachine.callx(self, n, env)

    def what(self):
        raise Undecided('text of an exception')

    def container(self, t, name, args, ts):
        if isinstance(t, Map):
            if name in ('find', 'count', 'at'):
                for i, p in enumerate(t.v):
                    if self.truth(self.compare('==', args[0], p.first)):
                        return VIt(t, i) if name == 'find' else 1 if name == 'count' else p.second
                if name == 'at':
                    raise Thrown()
                return VIt(t, len(t.v)) if name == 'find' else 0
            if name in ('begin', 'end', 'cbegin', 'cend'):
                return VIt(t, 0 if 'begin' in name else len(t.v))
        if isinstance(t, Stream):
            if name == 'str':
                if args:
                    t.v[:] = tolist(args[0])
                    return None
                return Str(t.v)
            if name in ('width',) and args:
                t.width = args[0]
                return None
            if name in ('fill',) and args:
                t.fill = args[0]
                return None
            if name in ('put',):
                t.v.append(args[0])
                return t
            if name == 'write' and len(args) == 2 and isinstance(args[1], int):
                t.v += tolist(args[0])[:args[1]]
                return t
            if name in ('flush', 'clear', 'setf', 'unsetf', 'precision'):
                return None
            return NotImplemented
        if name in ('push_back', 'push', 'emplace_back'):
            v = args[0]
            t.v.append(Str(v.v) if isinstance(v, Str) else v)
            return None
        if name in ('size',):
            return len(t.v)
        if name == 'empty':
            return not t.v
        if name in ('top', 'back', 'front'):
            if not t.v:
                raise Overrun()
            return t.v[0] if name == 'front' else t.v[-1]
        if name in ('pop', 'pop_back', 'pop_front'):
            if not t.v:
                raise Overrun()
            t.v.pop(0 if name == 'pop_front' or 'queue<' in ts else -1)
            return None
        if name == 'clear':
            t.v[:] = []
            return None
        if name == 'at' and isinstance(args[0], int):
            if not 0 <= args[0] < len(t.v):
                raise Thrown()
            return t.v[args[0]]
        if name in ('begin', 'end', 'cbegin', 'cend'):
            return VIt(t, 0 if 'begin' in name else len(t.v))
        if name in ('reserve',):
            return None
        return NotImplemented


class Char:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class VIt:
    __slots__ = ('s', 'i')

    def __init__(self, s, i):
        self.s, self.i = s, i


_tolist = tolist


def tolist(v):      # noqa: F811
    if isinstance(v, Tok):
        return [v]
    return _tolist(v)


import transduce as _t
_t.tolist = tolist
