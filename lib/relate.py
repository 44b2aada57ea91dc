"""Abstract interpretation of comparison, equality and hash functions.

An element (an object being compared) is abstracted to the keys a function
reads from it.  What a key may be is abstracted to its relation to the same
key of the other elements (less, equal, greater), to a truth value, or to a
short sequence of such keys.  All abstract states of up to three elements are
enumerated, and the law is decided in each of them; for keys that are only
compared this abstraction is exact.
"""
from fractions import Fraction
from flow import strip


class Undecided(Exception):
    pass


class Restart(Exception):
    pass


class Stop(Exception):
    """state outside the abstraction (sequence longer than the bound)"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Thrown(Exception):
    """the function interpreted throws"""


class Ref:
    """key `path` of element `el`"""
    __slots__ = ('el', 'path', 't', 'base')

    def __init__(self, el, path, t=None, base=None):
        self.el, self.path, self.t, self.base = el, path, t, base

    def key(self):
        return (self.el, self.path)

    def __repr__(self):
        return 'e%s%s' % (self.el, ''.join('.' + show(p) for p in self.path))


class It:
    __slots__ = ('seq', 'i')

    def __init__(self, seq, i):
        self.seq, self.i = seq, i


class Term:
    """uninterpreted function of values"""
    __slots__ = ('v',)

    def __init__(self, *v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Term) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'T%r' % (self.v,)


def show(p):
    if isinstance(p, tuple):
        return '%s(%s)' % (str(p[1]).split('::')[-1] if len(p) > 1 else '', ','.join(map(str, p[2:])))
    return str(p).split('::')[-1]


class Space:
    """which keys share one order, constants they are compared with, functions not looked into"""

    def __init__(self):
        self.parent = {}
        self.anchors = {}
        self.noinline = {}
        self.maxseq = 2

    def find(self, k):
        while k in self.parent:
            k = self.parent[k]
        return k

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        self.parent[a] = b
        self.anchors.setdefault(b, set()).update(self.anchors.pop(a, ()))
        return True

    def anchor(self, k, c):
        s = self.anchors.setdefault(self.find(k), set())
        if c in s:
            return False
        s.add(c)
        return True


class Machine:
    MAXSTATES = 60000

    def __init__(self, P, space=None):
        self.P = P
        self.space = space or Space()
        self.prefix = []

    # ---- enumeration of abstract states
    def run(self, body):
        """call body(self) in every abstract state; yields (result, state)"""
        restarts = 0
        while True:
            try:
                out = []
                self.prefix = []
                n = 0
                while True:
                    self.pos = 0
                    self.vals = {}
                    self.func = {}
                    self.steps = 0
                    self.depth = 0
                    try:
                        r = body(self)
                        out.append((r, self.describe() if r else None))
                        if r:
                            return out
                    except Stop:
                        pass
                    n += 1
                    if n > self.MAXSTATES:
                        raise Undecided('too many states')
                    del self.prefix[self.pos:]
                    while self.prefix and self.prefix[-1][0] + 1 >= self.prefix[-1][1]:
                        self.prefix.pop()
                    if not self.prefix:
                        self.states = n
                        return out
                    i, m = self.prefix[-1]
                    self.prefix[-1] = (i + 1, m)
            except Restart:
                restarts += 1
                if restarts > 60:
                    raise Undecided('no stable abstraction')

    def choose(self, n):
        if n == 1:
            return 0
        if self.pos == len(self.prefix):
            self.prefix.append((0, n))
        i, m = self.prefix[self.pos]
        if m != n:
            raise Undecided('choices not deterministic')
        self.pos += 1
        return i

    def peek(self, el, *path):
        """value of a key of element el, if it was read"""
        for d in self.vals.values():
            if (el, path) in d:
                return d[(el, path)]
        return None

    def describe(self):
        out = []
        for (sp, kind), d in self.vals.items():
            for (el, path), v in sorted(d.items(), key=lambda x: str(x[0])):
                if el is not None:
                    out.append('%s=%s' % (repr(Ref(el, path)), float(v) if isinstance(v, Fraction) else v))
        return ', '.join(out[:12])

    # ---- reading keys
    def number(self, r):
        sp = self.space.find(r.path)
        d = self.vals.setdefault((sp, 'n'), {})
        k = r.key()
        if k in d:
            return d[k]
        if r.base is not None and r.base.el is not None:
            # a function of another key: equal for equal keys
            bv = self.number(r.base)
            for (el, path), v in list(d.items()):
                if (el, path) in self.func and self.func[(el, path)] == (r.path[-1][:2], bv):
                    d[k] = v
                    self.func[k] = (r.path[-1][:2], bv)
                    return v
            self.func[k] = (r.path[-1][:2], bv)
        have = sorted(set(d.values()) | {Fraction(c) for c in self.space.anchors.get(sp, ())})
        if r.t is not None and ('unsigned' in repr(r.t) or repr(r.t) in ('size_t',)):
            lo = 0
        else:
            lo = None
        opts = []
        if not have:
            opts = [Fraction(0)]
        else:
            if lo is None or have[0] > 0:
                opts.append(have[0] - 1)
            for i, h in enumerate(have):
                opts.append(h)
                opts.append((h + have[i + 1]) / 2 if i + 1 < len(have) else h + 1)
        d[k] = opts[self.choose(len(opts))]
        return d[k]

    def boolean(self, r):
        d = self.vals.setdefault((r.path, 'b'), {})
        k = r.key()
        if k not in d:
            d[k] = bool(self.choose(2))
        return d[k]

    def bits(self, r):
        d = self.vals.setdefault((r.path, 's'), {})
        k = r.key()
        if k not in d:
            d[k] = frozenset(i for i, c in enumerate(format(self.choose(4), '02b')) if c == '1')
        return d[k]

    def length(self, r):
        d = self.vals.setdefault((r.path, 'l'), {})
        k = r.key()
        if k not in d:
            d[k] = self.choose(self.space.maxseq + 1)
        return d[k]

    def read(self, v):
        if not isinstance(v, Ref):
            return v
        s = repr(v.t) if v.t is not None else ''
        s = s.replace('const ', '').replace('&', '').strip()
        if s in ('bool', '_Bool'):
            return self.boolean(v)
        if s.startswith(('std::bitset', 'boost::dynamic_bitset')):
            return self.bits(v)
        if is_seq(s):
            return [self.read(self.at(v, i)) for i in range(self.length(v))]
        return self.number(v)

    def at(self, r, i):
        return Ref(r.el, r.path + (('at', '', i),), elem_type(r.t))

    def truth(self, v):
        if isinstance(v, Ref):
            s = repr(v.t).replace('const ', '')
            if s in ('bool', '_Bool'):
                return self.boolean(v)
            if v.t is not None and (v.t.k == 'ptr' or 'shared_ptr' in s or 'optional' in s):
                return self.boolean(Ref(v.el, v.path + (('there', 'set'),)))
            if self.space.anchor(v.path, 0):
                raise Restart()
            return self.number(v) != 0
        if isinstance(v, Term):
            raise Undecided('truth of a term')
        return bool(v)

    # ---- comparison
    def compare(self, op, a, b):
        if isinstance(a, It) and isinstance(b, It):
            if a.seq.key() != b.seq.key():
                raise Undecided('iterators of different sequences')
            return OPS[op](a.i, b.i)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.key() == b.key():
                return OPS[op](0, 0)
            sa = repr(a.t)
            if is_seq(sa) and is_seq(repr(b.t)) and a.path == b.path:
                return OPS[op](self.read(a), self.read(b))
            if sa.startswith(('std::bitset', 'const std::bitset')) or a.t is not None and sa in ('bool', 'const bool'):
                return OPS[op](self.read(a), self.read(b))
            if self.space.find(a.path) != self.space.find(b.path):
                self.space.union(a.path, b.path)
                raise Restart()
            return OPS[op](self.number(a), self.number(b))
        for x, y, o in ((a, b, op), (b, a, SWAP[op])):
            if isinstance(x, Ref) and isinstance(y, (int, Fraction, float)) and not isinstance(y, bool):
                if repr(x.t) in ('bool', 'const bool'):
                    return OPS[o](int(self.boolean(x)), y)
                if self.space.anchor(x.path, Fraction(y)):
                    raise Restart()
                return OPS[o](self.number(x), Fraction(y))
            if isinstance(x, Ref) and isinstance(y, (bool, frozenset, list)):
                return OPS[o](self.read(x), y)
            if isinstance(x, Ref) and isinstance(y, str):
                # a constant text: a point of the order of its own
                c = Ref(None, ('const', y), None)
                return self.compare(o, x, c)
        if isinstance(a, Diff) or isinstance(b, Diff):
            if isinstance(a, Diff) and b == 0:
                return self.compare(op, a.a, a.b)
            if isinstance(b, Diff) and a == 0:
                return self.compare(op, b.b, b.a)
            raise Undecided('difference')
        if isinstance(a, Term) or isinstance(b, Term):
            if op == '==':
                return a == b
            if op == '!=':
                return a != b
            raise Undecided('order of terms')
        return OPS[op](a, b)

    def value(self, v):
        """value usable as argument of an uninterpreted function"""
        if isinstance(v, Ref):
            if v.t is not None and v.t.k == 'rec' and not is_value_class(repr(v.t)):
                return Term('obj', v.el, v.path) if v.el is None else self.whole(v)
            r = self.read(v)
            return tuple(r) if isinstance(r, list) else r
        if isinstance(v, list):
            return tuple(self.value(x) for x in v)
        return v

    def whole(self, v):
        return self.number(v)

    # ---- evaluation
    def call(self, f, this, args):
        """abstract value of calling f"""
        if self.depth > 12:
            raise Undecided('recursion')
        self.depth += 1
        env = {'this': this}
        for (v, _, t), a in zip(f.params, args):
            env[v] = a
        body = None
        for n in f.walk():
            if n.parent is None and n.k in ('CompoundStmt',):
                body = n
        if body is None:
            self.depth -= 1
            raise Undecided('no body')
        try:
            self.stmt(body, env)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1

    def stmt(self, n, env):
        if n is None:
            return
        self.steps += 1
        if self.steps > 4000:
            raise Undecided('too long')
        k = n.k
        if k == 'CompoundStmt':
            for c in n.c:
                self.stmt(c, env)
        elif k in ('IfStmt', 'ForStmt') and self.foreach(n, env):
            pass
        elif k == 'IfStmt':
            if n.c[0] is None or n.c[0].k == 'DeclStmt':
                raise Undecided('if')
            if self.truth(self.ev(n.c[0], env)):
                self.stmt(n.c[1], env)
            elif len(n.c) > 2:
                self.stmt(n.c[2], env)
        elif k == 'ReturnStmt':
            raise Ret(self.ev(n.c[0], env) if n.c and n.c[0] is not None else None)
        elif k == 'DeclStmt':
            for i, d in enumerate(n.get('decls', ())):
                init = None
                if d.get('init'):
                    init = n.c[i] if i < len(n.c) else None
                env[d['v']] = self.ev(init, env) if init is not None else None
        elif k == 'ForStmt':
            init, cond, inc, body = (n.c + [None] * 4)[:4]
            self.stmt(init, env)
            while cond is None or self.truth(self.ev(cond, env)):
                try:
                    self.stmt(body, env)
                except Brk:
                    break
                except Cont:
                    pass
                if inc is not None:
                    self.ev(inc, env)
        elif k == 'WhileStmt':
            cond, body = n.c[0], n.c[1]
            while self.truth(self.ev(cond, env)):
                try:
                    self.stmt(body, env)
                except Brk:
                    break
                except Cont:
                    pass
        elif k == 'CXXForRangeStmt':
            self.range_for(n, env)
        elif k == 'SwitchStmt':
            self.switch(n, env)
        elif k in ('CaseStmt', 'DefaultStmt'):
            self.stmt(n.c[-1], env)
        elif k == 'CXXThrowExpr':
            raise Thrown()
        elif k == 'DoStmt':
            raise Undecided('do')
        elif k == 'BreakStmt':
            raise Brk()
        elif k == 'ContinueStmt':
            raise Cont()
        elif k in ('NullStmt',):
            pass
        else:
            self.ev(n, env)

    def foreach(self, n, env):
        """the loop BOOST_FOREACH expands to"""
        if n.k == 'IfStmt':
            if n.c[0] is None or not any(x.k == 'DeclRefExpr' and str(x.get('n') or '').startswith(('_foreach_col', '_foreach_cur', '_foreach_end'))
                                         for x in n.c[0].walk()):
                return False
            self.stmt(n.c[2] if len(n.c) > 2 else None, env)
            return True
        d = n.c[0]
        if d is None or d.k != 'DeclStmt' or not any(str(x['n']).startswith('_foreach_continue') for x in d.get('decls', ())):
            return False
        col = inner = None
        for x in n.walk():
            if x.k == 'CallExpr' and (x.fn or '').endswith('foreach_detail_::encode_type') and col is None:
                col = x.c[1]
            if x.k == 'ForStmt' and x is not n and inner is None:
                inner = x
        if col is None or inner is None or inner.c[0] is None or inner.c[0].k != 'DeclStmt':
            raise Undecided('BOOST_FOREACH')
        var = inner.c[0].get('decls')[0]['v']
        self.each(self.ev(col, env), var, inner.c[3], env)
        return True

    def range_for(self, n, env):
        rng = var = None
        for d in n.walk():
            if d.k == 'DeclStmt':
                for i, x in enumerate(d.get('decls', ())):
                    if str(x['n']).startswith('__range'):
                        rng = rng or (d.c[i] if i < len(d.c) else None)
                    elif not str(x['n']).startswith('__') and var is None:
                        var = x
        if rng is None or var is None:
            raise Undecided('range for')
        self.each(self.ev(rng, env), var['v'], n.c[-1], env)

    def elements(self, s):
        if isinstance(s, Ref) and is_seq(repr(s.t)):
            return [self.at(s, i) for i in range(self.length(s))]
        if isinstance(s, (list, tuple)):
            return list(s)
        raise Undecided('loop over %r' % (s,))

    def each(self, seq, var, body, env):
        for x in self.elements(seq):
            env[var] = x
            try:
                self.stmt(body, env)
            except Brk:
                break
            except Cont:
                pass

    def switch(self, n, env):
        cs = [c for c in n.c if c is not None]
        v = self.ev(cs[0], env)
        body = cs[-1]
        seq = []            # (labels, statement) in order; labels: values or None for default
        for c in body.c if body.k == 'CompoundStmt' else [body]:
            lab = []
            while c is not None and c.k in ('CaseStmt', 'DefaultStmt'):
                lab.append(None if c.k == 'DefaultStmt' else c.get('val'))
                c = c.c[-1] if c.c else None
            seq.append((lab, c))
        start = None
        for i, (lab, c) in enumerate(seq):
            for x in lab:
                if x is not None and start is None and self.truth(self.compare('==', v, x)):
                    start = i
        if start is None:
            for i, (lab, c) in enumerate(seq):
                if None in lab:
                    start = i
        if start is None:
            return
        try:
            for lab, c in seq[start:]:
                self.stmt(c, env)
        except Brk:
            pass

    def ev(self, n, env):
        n = strip(n)
        if n is None:
            raise Undecided('nothing')
        self.steps += 1
        if self.steps > 4000:
            raise Undecided('too long')
        k = n.k
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return int(n.get('val'))
        if k == 'CXXBoolLiteralExpr':
            return bool(n.get('val'))
        if k == 'FloatingLiteral':
            return Fraction(str(n.get('val'))) if n.get('val') is not None else Fraction(0)
        if k == 'StringLiteral':
            return str(n.get('s') or '')
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 0
        if k == 'CXXThisExpr':
            return env['this']
        if k == 'DeclRefExpr':
            if n.get('v') is not None and n.get('v') in env:
                return env[n.get('v')]
            q = n.get('q')
            if q:
                for e in self.P.enums.values():
                    for nm, val in (e.get('vals') or {}).items() if isinstance(e.get('vals'), dict) else []:
                        if nm == q:
                            return val
                return Ref(None, ('global', q), n.t)
            raise Undecided('variable')
        if k == 'MemberExpr':
            if n.c and n.c[0] is not None:
                b = self.ev(n.c[0], env)
            else:
                b = env['this']
            if isinstance(b, Ref):
                return Ref(b.el, b.path + (n.get('mf'),), n.t)
            if isinstance(b, dict):
                return b.get(n.get('mf'))
            raise Undecided('member of a value')
        if k == 'UnaryOperator':
            op = n.get('op')
            if op == '*':
                v = self.ev(n.c[0], env)
                return self.deref(v)
            if op == '&':
                return self.ev(n.c[0], env)
            if op == '!':
                return not self.truth(self.ev(n.c[0], env))
            if op in ('++', '--', 'p++', 'p--'):
                return self.incr(n.c[0], 1 if op[-1] == '+' else -1, env, op[0] != 'p')
            v = self.ev(n.c[0], env)
            if op == '-':
                if isinstance(v, Ref):
                    return Ref(v.el, (('op', '-', v.path),), n.t)
                return -v
            if op == '+':
                return v
            raise Undecided('operator ' + str(op))
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n.get('op')
            if op == '&&':
                return self.truth(self.ev(n.c[0], env)) and self.truth(self.ev(n.c[1], env))
            if op == '||':
                return self.truth(self.ev(n.c[0], env)) or self.truth(self.ev(n.c[1], env))
            if op == ',':
                self.ev(n.c[0], env)
                return self.ev(n.c[1], env)
            if op == '=':
                return self.assign(n.c[0], self.ev(n.c[1], env), env)
            if op.endswith('=') and op not in OPS:
                a = self.ev(n.c[0], env)
                return self.assign(n.c[0], self.arith(op[:-1], a, self.ev(n.c[1], env), n.t), env)
            return self.binary(op, self.ev(n.c[0], env), self.ev(n.c[1], env), n.t)
        if k == 'ConditionalOperator':
            return self.ev(n.c[1] if self.truth(self.ev(n.c[0], env)) else n.c[2], env)
        if k == 'ArraySubscriptExpr':
            return self.index(self.ev(n.c[0], env), self.ev(n.c[1], env), n.t)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr',
                 'CXXDynamicCastExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ParenExpr',
                 'ImplicitCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr'):
            cs = [c for c in n.c if c is not None and c.k != 'CXXDefaultArgExpr']
            if len(cs) == 1:
                return self.ev(cs[0], env)
            if not cs:
                return Term('new', n.fn)
            return Term('new', n.fn, *[self.value(self.ev(c, env)) for c in cs])
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.callx(n, env)
        if k == 'CXXDeleteExpr':
            return None
        if k == 'LambdaExpr':
            raise Undecided(k)
        if k == 'CXXThrowExpr':
            raise Thrown()
        raise Undecided(k)

    def deref(self, v):
        if isinstance(v, It):
            if v.i >= self.length(v.seq):
                raise Undecided('element after the end')
            return self.at(v.seq, v.i)
        if isinstance(v, Ref):
            t = pointee(v.t)
            return Ref(v.el, v.path, t or v.t)
        return v

    def index(self, b, i, t):
        if isinstance(b, Ref) and isinstance(i, int):
            if is_seq(repr(b.t)):
                if i >= self.length(b) or i < 0:
                    raise Undecided('element after the end')
            return Ref(b.el, b.path + (('at', '', i),), t)
        raise Undecided('index')

    def lref(self, n, env):
        n = strip(n)
        if n.k == 'DeclRefExpr' and n.get('v') is not None:
            return n.get('v')
        raise Undecided('assignment')

    def assign(self, n, v, env):
        env[self.lref(n, env)] = v
        return v

    def incr(self, n, d, env, pre):
        v = self.lref(n, env)
        old = env[v]
        new = It(old.seq, old.i + d) if isinstance(old, It) else self.arith('+', old, d, None)
        env[v] = new
        return new if pre else old

    def arith(self, op, a, b, t):
        if isinstance(a, frozenset) or isinstance(b, frozenset) or is_bits(a) or is_bits(b):
            x, y = self.read(a), self.read(b)
            if isinstance(x, frozenset) and isinstance(y, frozenset):
                if op in ('&', '|', '^'):
                    return {'&': x & y, '|': x | y, '^': x ^ y}[op]
        if isinstance(a, Ref) or isinstance(b, Ref):
            els = {x.el for x in (a, b) if isinstance(x, Ref) and x.el is not None}
            if len(els) <= 1 and not any(isinstance(x, (Term, list, It)) for x in (a, b)):
                if isinstance(a, Ref) and a.el is None and isinstance(b, Ref) and b.el is None:
                    return Ref(None, (('op', op, a.path, b.path),), t)
                p = tuple(x.path if isinstance(x, Ref) else x for x in (a, b))
                return Ref(els.pop() if els else None, (('op', op) + p,), t)
            if op == '-':
                return Diff(a, b)
            return Term(op, self.value(a), self.value(b))
        if isinstance(a, It) and isinstance(b, int):
            return It(a.seq, a.i + (b if op == '+' else -b))
        if isinstance(a, Term) or isinstance(b, Term):
            return Term(op, a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b, '%': lambda: a % b,
                    '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
        except Exception:
            return Term(op, a, b)

    def binary(self, op, a, b, t):
        if op in OPS:
            return self.compare(op, a, b)
        return self.arith(op, a, b, t)

    def callx(self, n, env):
        fn = n.fn
        name = (fn or '').split('<')[0].split('::')[-1] if not (fn or '').split('::')[-1].startswith('operator') else (fn or '').split('::')[-1]
        this = None
        if n.k == 'CXXMemberCallExpr':
            me = strip(n.c[0])
            if me is None or me.k != 'MemberExpr':
                raise Undecided('call')
            this = self.ev(me.c[0], env) if me.c and me.c[0] is not None else env['this']
            if me.get('arrow') and isinstance(this, Ref):
                this = Ref(this.el, this.path, pointee(this.t) or this.t)
            argn = n.c[1:]
        elif n.k == 'CXXOperatorCallExpr':
            argn = n.c[1:]
        else:
            argn = n.c[1:]
        argn = [a for a in argn if a is not None and a.k != 'CXXDefaultArgExpr']
        op = n.get('op') if n.k == 'CXXOperatorCallExpr' else None
        tgt = [f for f in self.P.targets(n) if f.cfg]
        member = op and any(f.cls for f in tgt)
        if op in ('->',) or op == '*' and len(argn) == 1:
            v = self.ev(argn[0], env)
            if isinstance(v, It):
                return self.deref(v)
            if isinstance(v, Ref):
                return Ref(v.el, v.path, pointee(v.t) or n.t)
            return v
        if op in ('++', '--'):
            return self.incr(argn[0], 1 if op == '++' else -1, env, len(argn) == 1)
        if op == '=':
            return self.assign(argn[0], self.ev(argn[1], env), env)
        args = [self.ev(a, env) for a in argn]
        if tgt and len(tgt) == 1 and fn not in self.space.noinline:
            f = tgt[0]
            th, ar = this, args
            if op and f.cls and not f.static:
                th, ar = args[0], args[1:]
            if len(ar) == len(f.params):
                try:
                    return self.call(f, th, ar)
                except Undecided as e:
                    if self.depth > 11:
                        raise
                    self.space.noinline[fn] = str(e)
                    raise Restart()
        if op in OPS and len(args) == 2:
            return self.compare(op, args[0], args[1])
        if op == '[]':
            if isinstance(args[1], int) and isinstance(args[0], Ref) and (is_seq(repr(args[0].t)) or n.t is not None):
                return self.index(args[0], args[1], n.t)
        if op and op in ('+', '-', '&', '|', '^', '*', '/', '%') and len(args) == 2:
            return self.arith(op, args[0], args[1], n.t)
        if op == '!' and len(args) == 1:
            return not self.truth(args[0])
        if n.k == 'CXXMemberCallExpr' and isinstance(this, Ref):
            s = repr(this.t)
            if is_seq(s):
                if name == 'size':
                    return self.length(this)
                if name == 'empty':
                    return self.length(this) == 0
                if name in ('begin', 'cbegin'):
                    return It(this, 0)
                if name in ('end', 'cend'):
                    return It(this, self.length(this))
                if name == 'at' and isinstance(args[0], int):
                    return self.index(this, args[0], n.t)
                if name in ('front', 'back'):
                    return self.index(this, 0 if name == 'front' else self.length(this) - 1, n.t)
            if 'bitset' in s:
                v = self.bits(this)
                if name == 'none':
                    return not v
                if name == 'any':
                    return bool(v)
                if name == 'count':
                    return len(v)
                if name == 'size':
                    return 2
                if name in ('to_ulong', 'to_ullong'):
                    return sum(1 << i for i in v)
            if name == 'compare' and len(args) == 1:
                return Diff(this, args[0])
            if name == 'empty' and 'basic_string' in (fn or s):
                return self.compare('==', this, '')
            if name == 'get' and ('shared_ptr' in s or 'auto_ptr' in s):
                return this
            els = {this.el} | {a.el for a in args if isinstance(a, Ref)}
            els.discard(None)
            if len(els) <= 1:
                return Ref(els.pop() if els else None, this.path + (('call', fn) + tuple(a.path if isinstance(a, Ref) else a for a in args),), n.t)
        if n.k == 'CXXMemberCallExpr' and isinstance(this, frozenset):
            if name == 'none':
                return not this
            if name == 'any':
                return bool(this)
            if name == 'count':
                return len(this)
            if name in ('to_ulong', 'to_ullong'):
                return sum(1 << i for i in this)
        if name in ('strcmp', 'strcoll', 'memcmp') and len(args) >= 2:
            return Diff(args[0], args[1])
        if name in ('min', 'max') and len(args) == 2:
            c = self.compare('<', args[1], args[0])
            return args[1] if c == (name == 'min') else args[0]
        if name in ('make_pair', 'tie', 'make_tuple', 'get_hash'):
            return [a for a in args]
        if name in ('move', 'forward', 'addressof') and len(args) == 1:
            return args[0]
        if name == 'hash_combine' and len(argn) == 2:
            v = Term('combine', args[0] if not isinstance(args[0], Ref) else self.value(args[0]), self.value(args[1]))
            return self.assign(argn[0], v, env)
        if op == '()' or name in ('hash_value', 'operator()', 'hash', 'hash_range'):
            return Term('hash', *[self.value(a) for a in args if not (isinstance(a, Term) and a.v[0] == 'new')])
        els = {a.el for a in args + ([this] if this is not None else []) if isinstance(a, Ref)}
        els.discard(None)
        if len(els) <= 1 and fn and not any(isinstance(a, (Term, list, It, Diff)) for a in args):
            base = args[0] if len([a for a in args if isinstance(a, Ref)]) == 1 and this is None and isinstance(args[0], Ref) and scalar(args[0].t) else None
            return Ref(els.pop() if els else None,
                       (('call', fn) + tuple(a.path if isinstance(a, Ref) else a for a in ([this] if isinstance(this, Ref) else []) + args),), n.t, base)
        raise Undecided('call of %s' % fn)


class Diff:
    """three-way comparison of a and b"""

    def __init__(self, a, b):
        self.a, self.b = a, b


def scalar(t):
    return t is not None and t.strip().k in ('ptr', 'int', 'float', 'enum', 'bool')


def is_bits(v):
    return isinstance(v, Ref) and 'bitset<' in repr(v.t)


def is_seq(s):
    s = s.replace('const ', '').lstrip()
    return s.startswith(('std::vector<', 'std::list<', 'std::deque<', 'boost::container::vector<'))


def is_value_class(s):
    s = s.replace('const ', '').lstrip()
    return is_seq(s) or s.startswith(('std::', 'boost::'))


def elem_type(t):
    if t is None:
        return None
    a = t.strip().a
    return a[0] if a else None


def pointee(t):
    if t is None:
        return None
    if t.k in ('ptr', 'ref'):
        return t.to
    if t.k == 'rec' and t.q and t.q.split('::')[-1] in ('shared_ptr', 'scoped_ptr', 'auto_ptr', 'unique_ptr', 'optional', 'intrusive_ptr') and t.a:
        return t.a[0]
    return None


OPS = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


class Cat:
    """text made of parts: constants and values"""

    def __init__(self, parts=()):
        self.parts = tuple(parts)


class HashMachine(Machine):
    """abstract interpreter for hash functions: texts are concatenations, hashes are terms over what they are computed from"""

    def __init__(self, P, space=None, derived=None):
        Machine.__init__(self, P, space)
        self.derived = derived or {}
        self.over = {}

    def parts(self, v):
        if isinstance(v, Cat):
            return list(v.parts)
        if isinstance(v, (str, Ref)):
            return [v]
        if isinstance(v, int):
            return [chr(v % 256)]
        raise Undecided('part of a text')

    def normal(self, v):
        out = []
        for p in v.parts:
            if isinstance(p, str):
                if p:
                    out.append(p)
                continue
            x = self.number(p)
            if self.compare('==', p, ''):
                continue
            out.append((self.space.find(p.path), x))
        # neighbouring constants are one text
        res = []
        for p in out:
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            else:
                res.append(p)
        return tuple(res)

    def value(self, v):
        if isinstance(v, Cat):
            return Term('text', self.normal(v))
        return Machine.value(self, v)

    def stmt(self, n, env):
        if n is not None and n.k == 'DeclStmt':
            for i, d in enumerate(n.get('decls', ())):
                init = n.c[i] if d.get('init') and i < len(n.c) else None
                v = self.ev(init, env) if init is not None else None
                if repr(d['t']).replace('const ', '').startswith('std::basic_string<'):
                    v = Cat() if v is None or isinstance(v, Term) else Cat(self.parts(v))
                elif repr(d['t']).replace('const ', '').startswith('std::basic_stringstream<') or 'ostringstream' in repr(d['t']):
                    v = Cat()
                env[d['v']] = v
            return
        Machine.stmt(self, n, env)

    def assign(self, n, v, env):
        m = strip(n)
        if m.k == 'MemberExpr':
            b = self.ev(m.c[0], env) if m.c and m.c[0] is not None else env['this']
            if isinstance(b, Ref):
                self.over[(b.el, b.path, m.get('mf'))] = v
                return v
        return Machine.assign(self, n, v, env)

    def ev(self, n, env):
        m = strip(n)
        if m is not None and m.k == 'MemberExpr' and m.get('mf') in self.derived:
            b = self.ev(m.c[0], env) if m.c and m.c[0] is not None else env['this']
            if isinstance(b, Ref):
                k = (b.el, b.path, m.get('mf'))
                if k not in self.over:
                    self.over[k] = 0
                    self.call(self.derived[m.get('mf')], b, [])
                return self.over[k]
        return Machine.ev(self, n, env)

    def arith(self, op, a, b, t):
        if isinstance(a, Cat) or isinstance(b, Cat):
            if op in ('+', '<<'):
                if isinstance(a, Term) or isinstance(b, Term):
                    return Term(op, self.value(a), self.value(b))
                return Cat(self.parts(a) + self.parts(b))
            return Term(op, self.value(a), self.value(b))
        if isinstance(a, Ref) and isinstance(b, Ref) or isinstance(a, (Ref, Term)) or isinstance(b, (Ref, Term)):
            if not (is_bits(a) or is_bits(b)):
                return Term(op, self.value(a), self.value(b))
        return Machine.arith(self, op, a, b, t)

    def callx(self, n, env):
        name = (n.fn or '').split('::')[-1]
        if n.k == 'CXXOperatorCallExpr' and n.get('op') in ('+=', '+', '<<'):
            a = self.ev(n.c[1], env)
            if isinstance(a, Cat) or n.get('op') == '+' and 'basic_string' in repr(n.t):
                v = Cat(self.parts(a) + self.parts(self.ev(n.c[2], env)))
                if n.get('op') == '+':
                    return v
                x = strip(n.c[1])
                while x is not None and x.k == 'CXXOperatorCallExpr':
                    x = strip(x.c[1])
                self.assign(x, v, env)
                return v
        if n.k == 'CXXMemberCallExpr':
            me = strip(n.c[0])
            b = self.ev(me.c[0], env) if me is not None and me.k == 'MemberExpr' and me.c and me.c[0] is not None else None
            if isinstance(b, Cat):
                if name in ('data', 'c_str', 'str', 'begin'):
                    return b
                if name in ('length', 'size', 'end'):
                    return Term('length', self.value(b))
                if name == 'empty':
                    return not self.normal(b)
                if name in ('append', 'push_back') and len(n.c) == 2:
                    return self.assign(me.c[0], Cat(self.parts(b) + self.parts(self.ev(n.c[1], env))), env)
                raise Undecided('string::' + name)
            if name == 'hash':
                return Term('hash', *[self.value(self.ev(a, env)) for a in n.c[1:]])
        if name == 'use_facet':
            return Ref(None, ('facet',), n.t)
        return Machine.callx(self, n, env)
