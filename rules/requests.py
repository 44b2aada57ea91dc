"""C40: however a request arrives, it is understood the same way.

The parser of requests is taken apart into an automaton: its function for one
character is evaluated over the syntax tree for each state and each of the 256
characters, forking at conditions about anything else.  Laws are then checked
on the automaton, and on the function that feeds it.
"""
from common import *
from collections import deque

REQ = 'http::server3::request'
HDR = 'http::server3::header'
CTL = frozenset(list(range(32)) + [127])
SEPARATORS = frozenset(map(ord, '()<>@,;:\\"/[]?={} \t'))


class Undecided(Exception):
    pass


class Sym:
    """something not known: base + off (base: text), and the names it depends on"""
    __slots__ = ('t', 'off', 'names')

    def __init__(self, t, off=0, names=()):
        self.t, self.off, self.names = t, off, frozenset(names)

    def __repr__(self):
        return self.t + ('%+d' % self.off if self.off else '')


class St:
    __slots__ = ('loc', 'fld', 'eff', 'asm')

    def __init__(self, loc=None, fld=None, eff=(), asm=()):
        self.loc, self.fld, self.eff, self.asm = loc or {}, fld or {}, eff, asm

    def put(self, v, x):
        d = dict(self.loc)
        d[v] = x
        return St(d, self.fld, self.eff, self.asm)

    def field(self, mf, x):
        d = dict(self.fld)
        d[mf] = x
        return St(self.loc, d, self.eff, self.asm)

    def did(self, *e):
        return St(self.loc, self.fld, self.eff + (e,), self.asm)

    def assume(self, c, v, names):
        return St(self.loc, self.fld, self.eff, self.asm + ((c, v, names),))


def opname(n):
    return n.get('op')


class Step:
    def __init__(self, P, cls, watch=(), verdict=None, absent=()):
        self.P, self.cls, self.watch, self.verdict, self.absent = P, cls, watch, verdict, absent
        self.steps = 0

    # -------------------------------------------------------------- truth
    def truth(self, v, st):
        if v == 'wait':
            return [(False, st)]
        if isinstance(v, (bool, int)):
            return [(bool(v), st)]
        for c, b, nm in st.asm:
            if c == repr(v):
                return [(b, st)]
        return [(b, st.assume(repr(v), b, (v.names, getattr(v, 't', '')))) for b in (True, False)]

    # -------------------------------------------------------------- expressions: list of (value, state)
    def ev(self, n, st):
        self.steps += 1
        if self.steps > 20000:
            raise Undecided('too much to follow')
        k = n.k
        if k in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr',
                 'CXXStaticCastExpr', 'CXXConstCastExpr', 'ConstantExpr', 'CXXDefaultArgExpr', 'SubstNonTypeTemplateParmExpr', 'CXXReinterpretCastExpr'):
            c = [x for x in n.c if x is not None]
            if len(c) != 1:
                return [(Sym(k), st)]
            out = self.ev(c[0], st)
            to = repr(n.t) if n.t is not None else ''
            if to in ('unsigned char', 'unsigned int', 'unsigned long', 'uint8_t'):
                m = 256 if 'char' in to or '8' in to else 2 ** 32 if 'int' in to else 2 ** 64
                out = [((v % m if isinstance(v, int) and not isinstance(v, bool) else v), s) for v, s in out]
            return out
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return [(int(n.get('val') or 0), st)]
        if k == 'CXXBoolLiteralExpr':
            return [(bool(n.get('val')), st)]
        if k == 'StringLiteral':
            return [(Sym('"%s"' % n.get('s')), st)]
        if k == 'CXXThisExpr':
            return [(Sym('this'), st)]
        if k == 'DeclRefExpr':
            if n.get('ec') is not None:
                return [(int(n.get('ec')), st)]
            if 'v' in n.d:
                v = n.get('v')
                return [(st.loc.get(v, Sym('local%s' % v)), st)]
            q = n.get('q') or ''
            if q == 'boost::logic::indeterminate':
                return [('wait', st)]
            return [(Sym(q, names=[q]), st)]
        if k == 'MemberExpr':
            mf = n.get('mf') or ''
            if mf in st.fld:
                return [(st.fld[mf], st)]
            return [(Sym(mf, names=[mf]), st)]
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            c = [x for x in n.c if x is not None and x.k != 'CXXDefaultArgExpr']
            if len(c) == 1:
                return self.ev(c[0], st)
            if not c and n.t is not None and 'tribool' in repr(n.t):
                return [(False, st)]
            for x in c:
                st = self.ev(x, st)[0][1]
            return [(Sym(k), st)]
        if k == 'UnaryOperator':
            return self.unary(n, st)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return self.binary(n, st)
        if k == 'ConditionalOperator':
            out = []
            for v, s in self.ev(n.c[0], st):
                for b, s2 in self.truth(v, s):
                    out += self.ev(n.c[1] if b else n.c[2], s2)
            return out
        if k == 'CXXOperatorCallExpr':
            return self.opcall(n, st)
        if k in ('CXXMemberCallExpr', 'CallExpr'):
            return self.call(n, st)
        if k == 'CXXThrowExpr':
            return [(Sym('throw'), st.did('throw'))]
        return [(Sym(k), st)]

    def lvalue(self, n):
        n = strip(n)
        while n is not None and n.k in ('ParenExpr',):
            n = n.c[0]
        if n is None:
            return None
        if n.k == 'DeclRefExpr' and 'v' in n.d:
            return ('v', n.get('v'))
        if n.k == 'MemberExpr' and n.get('mf'):
            return ('f', n.get('mf'))
        return None

    def store(self, lv, v, st, how='set'):
        if lv is None:
            return st
        if lv[0] == 'v':
            return st.put(lv[1], v)
        return st.field(lv[1], v).did(how, lv[1], v if isinstance(v, (int, bool)) else repr(v))

    def unary(self, n, st):
        op = opname(n)
        out = []
        for v, s in self.ev(n.c[0], st):
            if op == '!':
                if isinstance(v, Sym):
                    out += [(not b, s2) for b, s2 in self.truth(v, s)]
                else:
                    out.append((not v if v != 'wait' else False, s))
            elif op in ('++', '--', 'p++', 'p--'):
                d = 1 if op.endswith('++') else -1
                nv = v + d if isinstance(v, int) else Sym(v.t, v.off + d, v.names) if isinstance(v, Sym) else v
                lv = self.lvalue(n.c[0])
                s2 = self.store(lv, nv, s, 'inc' if d > 0 else 'dec')
                out.append(((v if op.startswith('p') else nv), s2))
            elif op == '-' and isinstance(v, int):
                out.append((-v, s))
            elif op in ('+', '*', '&'):
                out.append((v, s))
            else:
                out.append((Sym('%s%r' % (op, v), names=getattr(v, 'names', ())), s))
        return out

    def arith(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '%': lambda: a % b, '/': lambda: a // b, '==': lambda: a == b, '!=': lambda: a != b,
                        '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '&': lambda: a & b, '|': lambda: a | b,
                        '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            except (KeyError, ZeroDivisionError):
                return Sym('?')
        nm = getattr(a, 'names', frozenset()) | getattr(b, 'names', frozenset())
        if op in ('+', '-') and isinstance(a, Sym) and isinstance(b, int):
            return Sym(a.t, a.off + (b if op == '+' else -b), nm)
        if op == '+' and isinstance(a, int) and isinstance(b, Sym):
            return Sym(b.t, b.off + a, nm)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return Cmp(op, a, b, nm)
        return Sym('(%r%s%r)' % (a, op, b), names=nm)

    def binary(self, n, st):
        op = opname(n)
        if op in ('&&', '||'):
            out = []
            for v, s in self.ev(n.c[0], st):
                for b, s2 in self.truth(v, s):
                    if b == (op == '&&'):
                        for w, s3 in self.ev(n.c[1], s2):
                            out += [(x, y) for x, y in self.truth(w, s3)]
                    else:
                        out.append((b, s2))
            return out
        if op == ',':
            return [r for v, s in self.ev(n.c[0], st) for r in self.ev(n.c[1], s)]
        out = []
        if op == '=' or (op.endswith('=') and op not in ('==', '!=', '<=', '>=')):
            lv = self.lvalue(n.c[0])
            for v, s in self.ev(n.c[1], st):
                if op != '=':
                    old = self.ev(n.c[0], s)[0][0]
                    v2 = self.arith(op[:-1], old, v)
                    how = 'inc' if op == '+=' and v == 1 else 'set'
                    out.append((v2, self.store(lv, v2, s, how)))
                else:
                    how = 'set'
                    if isinstance(v, Sym) and lv and lv[0] == 'f' and v.t == lv[1] and v.off:
                        how = 'inc' if v.off == 1 else 'set'
                    out.append((v, self.store(lv, v, s, how)))
            return out
        for a, s in self.ev(n.c[0], st):
            for b, s2 in self.ev(n.c[1], s):
                out.append((self.arith(op, a, b), s2))
        return out

    def target(self, n):
        """the field a container operation works on"""
        n = strip(n)
        for _ in range(8):
            if n is None:
                return None
            if n.k == 'MemberExpr' and n.get('mf'):
                return n.get('mf')
            if n.k == 'CXXMemberCallExpr' and n.c and n.c[0] is not None:
                me = strip(n.c[0])
                n = strip(me.c[0]) if me is not None and me.c else None
            elif n.k == 'CXXOperatorCallExpr' and len(n.c) > 1:
                n = strip(n.c[1])
            else:
                return None
        return None

    def opcall(self, n, st):
        op = n.get('op')
        args = [c for c in n.c[1:] if c is not None]
        out = [([], st)]
        for a in args:
            out = [(vs + [v], s2) for vs, s in out for v, s2 in self.ev(a, s)]
        res = []
        for vs, s in out:
            if op == '+=' and len(args) == 2:
                t = self.target(args[0])
                if t:
                    s = s.did('app', t, vs[1] if isinstance(vs[1], int) else repr(vs[1]))
                res.append((Sym('ref'), s))
            elif op == '=' and len(args) == 2:
                lv = self.lvalue(args[0])
                if lv is not None and not (lv[0] == 'v' and self.verdict is not None and isinstance(s.loc.get(lv[1]), (bool, str))):
                    s = self.store(lv, vs[1], s)
                res.append((vs[1], s))
            elif op == '!' and len(args) == 1:
                v = vs[0]
                if isinstance(v, Sym):
                    res += [(not b, s2) for b, s2 in self.truth(v, s)]
                else:
                    res.append((not v if v != 'wait' else False, s))
            elif op in ('||', '&&') and len(args) == 2:
                a, b = vs
                top = op == '||'
                if a is top or b is top:
                    res.append((top, s))
                elif isinstance(a, Sym) or isinstance(b, Sym):
                    res.append((Sym('%r%s%r' % (a, op, b)), s))
                else:
                    res.append(('wait' if 'wait' in (a, b) else not top, s))
            elif op in ('==', '!=') and len(args) == 2 and all(isinstance(v, (bool, str, int)) for v in vs):
                res.append(((vs[0] == vs[1]) == (op == '=='), s))
            elif op in ('==', '!=', '<', '>', '<=', '>=') and len(args) == 2:
                res.append((Cmp(op, vs[0], vs[1], frozenset().union(*[getattr(v, 'names', frozenset()) for v in vs])), s))
            else:
                res.append((Sym('%s(%s)' % (n.fn, ','.join(map(repr, vs))), names=frozenset().union(*[getattr(v, 'names', frozenset()) for v in vs]) if vs else ()), s))
        return res

    def call(self, n, st):
        name = (n.fn or '').split('::')[-1]
        args = [c for c in n.c[1:] if c is not None]
        me = strip(n.c[0]) if n.k == 'CXXMemberCallExpr' and n.c and n.c[0] is not None else None
        recv = me.c[0] if me is not None and me.k == 'MemberExpr' and me.c and me.c[0] is not None else None
        out = [([], st)]
        if recv is not None:
            out = [([v], s) for v, s in self.ev(recv, st)]
        else:
            out = [([None], st)]
        for a in args:
            out = [(vs + [v], s2) for vs, s in out for v, s2 in self.ev(a, s)]
        res = []
        for vs, s in out:
            if self.absent and n.fn and n.fn.startswith(self.absent):
                res.append((False, s))
                continue
            if name in self.watch:
                s = s.did('call', name, n.loc())
                res.append((Sym(name), s))
                continue
            if name.startswith('operator ') or (me is not None and name in ('safe_bool', 'operator safe_bool')):
                res.append((vs[0], s))                       # conversion
                continue
            if name == 'indeterminate' and args:
                res.append((vs[1] == 'wait', s))
                continue
            if name in ('push_back', 'append', 'push_front', 'insert', 'assign') and recv is not None:
                t = self.target(recv)
                if t:
                    v = vs[-1]
                    if name == 'append' and len(args) == 2 and vs[1] == 1:
                        v = vs[2]
                    s = s.did('app', t, v if isinstance(v, int) and not isinstance(v, bool) else repr(v))
                res.append((Sym('void'), s))
                continue
            g = [t for t in self.P.targets(n)]
            if len(g) == 1 and g[0].cls == self.cls and g[0].cfg:
                done = self.inline(g[0], args, vs[1:], s)
                if done is not None:
                    res += done
                    continue
            if name == 'get_header_value':
                res.append((Sym('header(%s)' % ','.join(map(repr, vs[1:])), names=['header(%s)' % ','.join(map(repr, vs[1:]))]), s))
                continue
            nm = frozenset().union(*[getattr(v, 'names', frozenset()) for v in vs if v is not None]) if vs else frozenset()
            if me is not None and not (me.get('const') or name in ('empty', 'size', 'length', 'back', 'front', 'c_str', 'data', 'find', 'substr', 'compare')):
                pass
            res.append((Sym('%s(%s)' % (n.fn or name, ','.join(repr(v) for v in vs if v is not None)), names=nm | {n.fn or name}), s))
        return res

    depth = 0

    def inline(self, g, args, vals, st):
        if self.depth > 5:
            raise Undecided('helpers within helpers')
        if any(x.k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'GotoStmt', 'LambdaExpr') for x in g.walk()):
            raise Undecided('a loop in %s' % g.q)
        keep = st.loc
        loc = {v: x for (v, nm, t), x in zip(g.params, vals)}
        self.depth += 1
        try:
            out = []
            for kind, v, s in self.run(g.body, St(loc, st.fld, st.eff, st.asm)):
                out.append((v if kind == 'ret' and v is not None else Sym('void'), St(keep, s.fld, s.eff, s.asm)))
            return out
        finally:
            self.depth -= 1

    # -------------------------------------------------------------- statements: list of (kind, value, state)
    def seq(self, stmts, st):
        cur, out = [st], []
        for x in stmts:
            if x is None:
                continue
            nxt = []
            for s in cur:
                for kind, v, s2 in self.run(x, s):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        out.append((kind, v, s2))
            cur = nxt
            if not cur:
                break
        return out + [('next', None, s) for s in cur]

    def run(self, n, st):
        self.steps += 1
        if self.steps > 20000:
            raise Undecided('too much to follow')
        k = n.k
        if k == 'CompoundStmt':
            return self.seq(n.c, st)
        if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt', 'AttributedStmt'):
            return self.run([c for c in n.c if c is not None][-1], st)
        if k == 'NullStmt':
            return [('next', None, st)]
        if k == 'ReturnStmt':
            if not n.c or n.c[0] is None:
                return [('ret', None, st)]
            return [('ret', v, s) for v, s in self.ev(n.c[0], st)]
        if k == 'BreakStmt':
            return [('break', None, st)]
        if k == 'ContinueStmt':
            return [('continue', None, st)]
        if k == 'IfStmt':
            out = []
            for v, s in self.ev(n.c[0], st):
                for b, s2 in self.truth(v, s):
                    br = n.c[1] if b else (n.c[2] if len(n.c) > 2 else None)
                    out += self.run(br, s2) if br is not None else [('next', None, s2)]
            return out
        if k == 'DeclStmt':
            cur = [st]
            for i, d in enumerate(n.get('decls') or ()):
                if d.get('stat'):
                    raise Undecided('a static variable')
                init = n.c[i] if i < len(n.c) else None
                nxt = []
                for s in cur:
                    if self.verdict is not None and 'tribool' in repr(d['t']):
                        if init is not None:
                            s = self.ev(init, s)[0][1]
                        nxt.append(s.put(d['v'], self.verdict))
                    elif init is None:
                        nxt.append(s.put(d['v'], Sym('local%s' % d['v'])))
                    else:
                        nxt += [s2.put(d['v'], v) for v, s2 in self.ev(init, s)]
                cur = nxt
            return [('next', None, s) for s in cur]
        if k == 'DoStmt':
            # only the once-through form of macros
            out = []
            for kind, v, s in self.run(n.c[1], st):
                out.append(('next', None, s) if kind in ('next', 'break', 'continue') else (kind, v, s))
            c = strip(n.c[0]) if n.c[0] is not None else None
            if c is None or c.k not in ('IntegerLiteral', 'CXXBoolLiteralExpr') or int(c.get('val') or 0):
                raise Undecided('a loop')
            return out
        if k == 'SwitchStmt':
            return self.switch(n, st)
        if k == 'CXXTryStmt':
            out = self.run(n.c[0], st)
            for h in n.c[1:]:
                if h is not None and h.k == 'CXXCatchStmt':
                    # what was done in the block until a call in it failed
                    fails = {e.eff for kind, v, e in out}
                    pre = st
                    body = [c for c in h.c if c is not None]
                    if body:
                        out += self.run(body[-1], pre.did('failed'))
            return out
        if k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'GotoStmt'):
            raise Undecided('a loop')
        return [('next', None, s) for v, s in self.ev(n, st)]

    def switch(self, n, st):
        cs = [c for c in n.c if c is not None]
        body = cs[-1]
        out = []
        for v, s in self.ev(cs[0], st):
            if not isinstance(v, int):
                raise Undecided('a switch over something unknown')
            stmts, start, dflt = [], None, None
            for x in body.c:
                if x is None:
                    continue
                while x.k in ('CaseStmt', 'DefaultStmt'):
                    if x.k == 'DefaultStmt':
                        dflt = len(stmts) if dflt is None else dflt
                    elif x.get('val') is not None and int(x.get('val')) == v and start is None:
                        start = len(stmts)
                    x = [c for c in x.c if c is not None][-1]
                stmts.append(x)
            at = start if start is not None else dflt
            if at is None:
                out.append(('next', None, s))
                continue
            for kind, w, s2 in self.seq(stmts[at:], s):
                out.append(('next', None, s2) if kind == 'break' else (kind, w, s2))
        return out


class Cmp(Sym):
    """comparison of two unknowns, written so that equal comparisons look the same"""
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b, names):
        self.op, self.a, self.b = op, a, b
        Sym.__init__(self, '%r%s%r' % (a, op, b), 0, names)


def signed(c):
    return c - 256 if c > 127 else c


class Automaton:
    def __init__(self, env):
        P = env.P
        self.env = env
        ps = [f for f in P.funcs.values() if f.cls and f.name == 'consume' and f.cfg and len(f.params) == 2 and f.cls.endswith('request_parser')]
        env.anchor(len(ps) == 1, 'request_parser::consume')
        self.f = f = ps[0]
        self.cls = f.cls
        # the state: the parser's field of an enumeration type
        r = P.recs[self.cls]
        st = [x for x in r['fields'] if x['t'] is not None and x['t'].strip().k == 'enum']
        env.anchor(len(st) == 1, 'the state of the parser')
        self.sf = st[0]['q']
        en = P.enums[st[0]['t'].strip().q]
        self.names = {int(v): k for k, v in en['vals']}
        self.start = None
        for c in P.funcs.values():
            if c.ctor and c.cls == self.cls:
                for i in c.inits or ():
                    if i.get('mf') == self.sf and i.get('e') is not None:
                        e = strip(i['e'])
                        if e is not None and e.get('ec') is not None:
                            self.start = int(e.get('ec'))
                for n in c.walk():
                    if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]) is not None and strip(n.c[0]).get('mf') == self.sf:
                        e = strip(n.c[1])
                        if e is not None and e.get('ec') is not None:
                            self.start = int(e.get('ec'))
        env.anchor(self.start is not None, 'the first state of the parser')
        self.table = {}

    def at(self, s, c):
        """transitions from state s on character c: [(verdict, next state, effects, assumptions)]"""
        k = (s, c)
        if k not in self.table:
            f = self.f
            m = Step(self.env.P, self.cls)
            loc = {f.params[0][0]: Sym('req'), f.params[1][0]: signed(c)}
            out = []
            for kind, v, st in m.run(f.body, St(loc, {self.sf: s})):
                if kind != 'ret' or isinstance(v, Sym) or v is None:
                    v = None
                nx = st.fld.get(self.sf)
                if not isinstance(nx, int):
                    raise Undecided('the next state')
                out.append((v, nx, tuple(e for e in st.eff if e[:2] != ('set', self.sf)), st.asm))
            self.table[k] = out
        return self.table[k]


BLANK = '\r\n\r\n'


def progress_of(k, c):
    """how much of the empty line has been read after character c, if it was k"""
    if k == 4:
        return 4
    s = BLANK[:k] + chr(c)
    for i in range(min(4, len(s)), -1, -1):
        if s.endswith(BLANK[:i]):
            return i
    return 0


def automaton_laws(env):
    A = Automaton(env)
    f = A.f
    where = '%s:%s' % (f.file, f.line)
    seen, todo, edges = {(A.start, 0)}, deque([(A.start, 0)]), {}
    accepts = set()
    bodies = {}
    try:
        while todo:
            s, k = todo.popleft()
            for c in range(256):
                k2 = progress_of(k, c)
                for v, nx, eff, asm in A.at(s, c):
                    env.count('transitions')
                    nm = A.names.get(s, s)
                    if v is None:
                        env.bad('request:verdict:%s' % nm, where, '%s gives no verdict on character %d in state %s' % (f.q, c, nm))
                        continue
                    app = [e for e in eff if e[0] == 'app']
                    data = [e for e in app if e[1] == REQ + '::post_data']
                    if data:
                        bodies.setdefault(s, {}).setdefault(c, []).append((v, nx, eff, asm))
                    if v is True and k2 < 4:
                        env.bad('request:early:%s' % nm, where, 'a request is taken for complete in state %s although the empty line after its headers has not been read' % nm)
                    if v is True and k2 == 4 and k < 4 and not no_body(asm):
                        env.bad('request:skipped:%s' % nm, where, 'a POST request can be taken for complete before its body has been read whatever length was declared (state %s)' % nm)
                    if data and k < 4:
                        env.bad('request:body:%s' % nm, where, 'data is taken for the body of a request in state %s although the empty line after its headers has not been read' % nm)
                    if v is True:
                        accepts.add((s, k))
                    if v == 'wait':
                        edges.setdefault((nx, k2), set()).add((s, k))
                        if (nx, k2) not in seen:
                            seen.add((nx, k2))
                            todo.append((nx, k2))
                    for e in app:
                        if isinstance(e[2], int) and e[2] != signed(c) and e[2] != c:
                            env.bad('request:changed:%s' % nm, where, 'character %d is entered as %d into %s in state %s' % (c, e[2], e[1], nm))
                        name = e[1].split('::')[-1]
                        if e[1] in (REQ + '::method', REQ + '::uri', HDR + '::name', HDR + '::value') and isinstance(e[2], int):
                            if c in CTL and not (c == 9 and name == 'value'):
                                env.bad('request:control:%s' % nm, where, 'control character %d becomes part of the %s of a request in state %s' % (c, name, nm))
                            elif c > 127 and name in ('method', 'name'):
                                env.bad('request:byte:%s' % nm, where, 'byte %d, which no character of a request may be, becomes part of the %s of a request in state %s' % (c, name, nm))
                            elif c in SEPARATORS and name in ('method', 'name') or c == 32 and name == 'uri':
                                env.bad('request:separator:%s' % nm, where, 'the separator %r becomes part of the %s of a request in state %s' % (chr(c), name, nm))
    except Undecided as e:
        env.notes.append('the automaton of the parser could not be taken from %s: %s' % (f.q, e))
        return None
    states = {s for s, k in seen}
    env.count('states', len(states))
    env.floor('states', 2)
    # a way to the end from everywhere
    live, todo = set(accepts), deque(accepts)
    while todo:
        x = todo.popleft()
        for y in edges.get(x, ()):
            if y not in live:
                live.add(y)
                todo.append(y)
    for s in sorted(states):
        if not any((s, k) in live for k in range(5)):
            env.bad('request:stuck:%s' % A.names.get(s, s), where, 'nothing that arrives in state %s completes a request' % A.names.get(s, s))
        else:
            env.ok('state %s' % A.names.get(s, s))
    body_laws(env, A, seen, bodies, where)
    header_laws(env, A, {s for s, k in seen}, where)
    return A


def no_body(asm):
    """the assumptions of a path that explain why no body follows"""
    for c, b, (names, text) in asm:
        if 'Content-Length' in c or 'length' in c.lower():
            return True
        if REQ + '::method' in c:
            if '==' in c and b or '!=' in c and not b:
                continue
            return True
    return False


def header_laws(env, A, states, where):
    """nothing is entered into the last header when there may be none"""
    def has(eff, asm):
        return any(e[0] == 'app' and e[1] == REQ + '::headers' for e in eff) or any(REQ + '::headers' in c for c, b, x in asm if not ('empty' in c and b and '!' not in c))
    ne = {s: s != A.start for s in states}
    change = True
    while change:
        change = False
        for s in states:
            for c in range(256):
                for v, nx, eff, asm in A.at(s, c):
                    if v == 'wait' and nx in ne and ne[nx] and not ne[s] and not has(eff, asm):
                        ne[nx] = False
                        change = True
    for s in sorted(states):
        nm = A.names.get(s, s)
        if ne[s]:
            continue
        for c in range(256):
            for v, nx, eff, asm in A.at(s, c):
                if any(e[0] == 'app' and e[1] in (HDR + '::name', HDR + '::value') for e in eff) and not has(eff, asm):
                    env.bad('request:noheader:%s' % nm, where, 'in state %s characters are entered into the last header, and there may be none' % nm)
                    break


def body_laws(env, A, seen, bodies, where):
    f = A.f
    inbody = {s for s, k in seen if k == 4}
    env.count('body_states', len(inbody))
    for s in sorted(inbody):
        nm = A.names.get(s, s)
        kinds = {}
        bad = False
        for c in range(256):
            tr = A.at(s, c)
            key = frozenset((v, nx, tuple((e[0], e[1], 'c' if e[0] == 'app' and isinstance(e[2], int) else e[2]) for e in eff), tuple((a[0], a[1]) for a in asm)) for v, nx, eff, asm in tr)
            kinds.setdefault(key, []).append(c)
            for v, nx, eff, asm in tr:
                n = sum(1 for e in eff if e[:2] == ('app', REQ + '::post_data'))
                if v is False:
                    bad = True
                    env.bad('request:refused:%s' % nm, where, 'byte %d in the body of a request makes it a bad request (state %s)' % (c, nm))
                    break
                if n != 1:
                    bad = True
                    env.bad('request:lost:%s' % nm, where, 'byte %d of the body of a request is entered %d times (state %s)' % (c, n, nm))
                    break
            if bad:
                break
        if not bad and len(kinds) > 1:
            bad = True
            env.bad('request:special:%s' % nm, where, 'the bytes of a body are not all treated alike in state %s: %r is special' % (nm, min(kinds.values(), key=len)[:3]))
        if not bad:
            # the length decides
            tr = A.at(s, 65)
            for v, nx, eff, asm in tr:
                if v is True and not any(depends_on_length(A, a, seen) for a in asm):
                    bad = True
                    env.bad('request:length:%s' % nm, where, 'the body of a request is taken for complete in state %s whatever length was declared' % nm)
            if tr and not any(v is True for v, nx, eff, asm in tr):
                others = {nx for v, nx, eff, asm in tr}
                if others <= {s}:
                    bad = True
                    env.bad('request:endless:%s' % nm, where, 'the body of a request never ends in state %s' % nm)
        if not bad:
            w = count_law(A, s, seen)
            if w:
                bad = True
                env.bad('request:count:%s' % nm, where, w % nm)
        if not bad:
            env.ok('body: state %s' % nm)
    # no waiting for a body that is not to come
    for s, k in sorted(seen):
        if k == 4:
            continue
        for c in range(256):
            if progress_of(k, c) != 4:
                continue
            for v, nx, eff, asm in A.at(s, c):
                if v != 'wait':
                    continue
                nm = A.names.get(s, s)
                if nx not in bodies:
                    env.bad('request:after:%s' % nm, where, 'after the empty line the parser goes on to state %s, which does not read a body' % A.names.get(nx, nx))
                elif not any(depends_on_length(A, a, seen) for a in asm) or not awaited(A, seen, eff, asm):
                    env.bad('request:nobody:%s' % A.names.get(nx, nx), where, 'after the headers the parser waits for a body (state %s) without asking whether one was declared: a request without one is never answered' % A.names.get(nx, nx))
                else:
                    env.ok('waits for a body only when one was declared')


def awaited(A, seen, eff, asm):
    """on this path the declared length is known not to be zero"""
    fs = length_fields(A, seen)
    last = {}
    for e in eff:
        if e[0] == 'set' and e[1] in fs:
            last[e[1]] = e[2]
    for f, v in last.items():
        if isinstance(v, int):
            if v <= 0:
                return False
        elif isinstance(v, str) and not any(v in c and c != v and any(o in c.replace('->', '') for o in ('<', '>', '==', '!=')) or c == v for c, b, x in asm):
            return False
    return True


def length_fields(A, seen):
    """fields set from the Content-Length header when the headers have been read"""
    out = set()
    for s, k in seen:
        for c in (10, 13):
            if progress_of(k, c) == 4 and k != 4:
                for v, nx, eff, asm in A.at(s, c):
                    for e in eff:
                        if e[0] == 'set' and isinstance(e[2], str) and 'Content-Length' in e[2]:
                            out.add(e[1])
    return out


def depends_on_length(A, a, seen):
    c, b, (names, text) = a
    fs = length_fields(A, seen)
    return any(n in fs or 'Content-Length' in n for n in names) or 'Content-Length' in c or any(x in c for x in fs)


def count_law(A, s, seen):
    """the number of bytes read is the one declared (for a counter going up); None when it is, or is not of this form"""
    import re as _re
    fs = length_fields(A, seen)
    tr = A.at(s, 65)
    stop = [t for t in tr if t[0] is True]
    go = [t for t in tr if t[0] == 'wait' and t[1] == s]
    if len(stop) != 1 or len(go) != 1 or len(stop[0][3]) != 1 or len(go[0][3]) != 1:
        return None
    text, b, _ = go[0][3][0]
    m = _re.match(r'^([\w:]+)([+-]\d+)?(<=|<|>=|>|!=|==)([\w:]+)([+-]\d+)?$', text)
    if not m:
        return None
    l, lo, op, r, ro = m.group(1), int(m.group(2) or 0), m.group(3), m.group(4), int(m.group(5) or 0)
    if l in fs:
        l, lo, r, ro = r, ro, l, lo
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    if r not in fs or l in fs:
        return None
    if not b:
        op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[op]
    if _re.match(r'^-?\d+$', l):
        # the declared length itself is counted down
        decs = [e for e in go[0][2] if e[0] in ('inc', 'set', 'dec') and e[1] == r]
        if len(decs) != 1 or decs[0][0] != 'dec':
            return 'the number of bytes still to come does not go down by one for each byte (state %s)' if not decs else None
        extra = {'<': 1, '!=': 1, '<=': 2}.get(op)
        if extra is None:
            return None
        extra += ro - lo - int(l)
        return None if not extra else 'the body is taken for complete ' + ('%d bytes %s' % (abs(extra), 'late' if extra > 0 else 'early')) + ' (state %s)'
    incs = [e for e in go[0][2] if e[0] in ('inc', 'set', 'dec') and e[1] == l]
    if len(incs) != 1 or incs[0][0] != 'inc':
        return 'the counter of the body\'s bytes does not go up by one for each byte (state %s)' if not incs else None
    k0 = set()
    for s1, k in seen:
        for c in (10, 13):
            if progress_of(k, c) == 4 and k != 4:
                for v, nx, eff, asm in A.at(s1, c):
                    if nx == s and v == 'wait':
                        x = [e[2] for e in eff if e[0] == 'set' and e[1] == l]
                        k0.add(x[-1] if x else None)
    if len(k0) != 1 or not isinstance(list(k0)[0], int):
        return 'the counter of the body\'s bytes is not set when the body begins (state %s)' if None in k0 else None
    n0 = list(k0)[0] + lo - ro
    for s1, k in seen:
        for c in (10, 13):
            if progress_of(k, c) == 4 and k != 4:
                for v, nx, eff, asm in A.at(s1, c):
                    if nx == s and v == 'wait':
                        x = [e[2] for e in eff if e[0] == 'set' and e[1] == r and isinstance(e[2], str) and 'Content-Length' in e[2]]
                        o = _re.search(r'\)([+-]\d+)$', x[-1]) if x else None
                        if o:
                            n0 -= int(o.group(1))
                            break
                        if x and _re.search(r'(\bmin\(|substr|resize|\)[%&/]\d|\)>>\d)', x[-1]):
                            return 'the body is not read to the length that was declared (state %s)'
    # waits while n0 + (i - 1) op L for byte i
    extra = {'<': 1 - n0, '!=': 1 - n0, '<=': 2 - n0}.get(op)
    if extra is None:
        return None
    if extra:
        return 'the body is taken for complete ' + ('%d bytes %s' % (abs(extra), 'late' if extra > 0 else 'early')) + ' (state %s)'
    return None


# ------------------------------------------------------------------ the parser is fed every byte once, and its verdict obeyed
def feeding(env):
    P = env.P
    reads = [f for f in P.funcs.values() if f.cfg and f.cls and f.cls.startswith('http::server3::') and any(
        n.k == 'CXXMemberCallExpr' and (n.fn or '').endswith('request_parser::parse') for n in f.walk())]
    env.anchor(reads, 'a function that feeds the parser of requests')
    for f in reads:
        where = '%s:%s' % (f.file, f.line)
        bad = False
        for verdict, want in ((True, 'async_write'), (False, 'async_write'), ('wait', 'async_read_some')):
            m = Step(P, f.cls, watch=('async_write', 'async_read_some', 'async_read', 'handle_request', 'parse'), verdict=verdict, absent=('boost::system::error_code::',))
            loc = {}
            for v, n, t in f.params:
                loc[v] = False if 'error_code' in repr(t) else Sym(n or 'arg')
            try:
                outs = m.run(f.body, St(loc))
            except Undecided as e:
                env.notes.append('%s not followed: %s' % (f.q, e))
                break
            for kind, v, st in outs:
                calls = [e[1] for e in st.eff if e[0] == 'call']
                io = [c for c in calls if c.startswith('async_')]
                env.count('outcomes')
                failed = any(e[0] == 'failed' for e in st.eff)
                if 'parse' not in calls:
                    continue
                if len(io) != 1:
                    bad = True
                    env.bad('request:io:%s:%s' % (f.q, verdict), where, '%s starts %d operations on the connection when the parser\'s verdict is %s: the visitor %s'
                            % (f.q, len(io), verdict, 'never gets an answer' if not io else 'gets mixed answers'))
                elif io[0].replace('async_read_some', 'async_read') != want.replace('async_read_some', 'async_read'):
                    bad = True
                    env.bad('request:io:%s:%s' % (f.q, verdict), where, '%s starts %s when the parser\'s verdict is %s' % (f.q, io[0], verdict))
                h = calls.count('handle_request')
                if verdict is True and not failed and h != 1 or verdict is not True and h:
                    bad = True
                    env.bad('request:handled:%s:%s' % (f.q, verdict), where, '%s handles the request %d times when the parser\'s verdict is %s' % (f.q, h, verdict))
        # the next bytes are read to where they are taken from
        fed = [canon(n.c[2]) for n in f.walk() if n.k == 'CXXMemberCallExpr' and (n.fn or '').endswith('request_parser::parse') and len(n.c) > 3]
        if fed and not any(x.k == 'BinaryOperator' and x.get('op') in '+-' for n in f.walk() if n.k == 'CXXMemberCallExpr' and (n.fn or '').endswith('request_parser::parse') for x in n.c[2].walk()):
            for g in P.funcs.values():
                if g.cls != f.cls:
                    continue
                for n in g.walk():
                    if n.k == 'CallExpr' and n.fn == 'boost::asio::buffer' and len(n.c) > 1:
                        env.count('buffers')
                        if any(x.k in ('BinaryOperator', 'ArraySubscriptExpr') and x.get('op') in ('+', None) and not any(y.get('val') == 0 for y in x.c if y is not None and strip(y).k == 'IntegerLiteral' for y in [strip(y)])
                               for x in n.c[1].walk()):
                            bad = True
                            env.bad('request:buffer:%s' % g.q, n.loc(), '%s reads to another place of the buffer than the parser is given' % g.q)
        # all the bytes that came
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and (n.fn or '').endswith('request_parser::parse') and len(n.c) > 3:
                env.count('feeds')
                b, e = canon(n.c[2]), canon(n.c[3])
                bt = [v for v, nm, t in f.params if t is not None and t.strip().k == 'int']
                if b is None or e is None:
                    continue
                mt = set()
                for x in n.c[3].walk():
                    if x.k == 'DeclRefExpr' and 'v' in x.d:
                        mt.add(x.get('v'))
                if bt and not (mt & set(bt)) and all(x.k != 'DeclRefExpr' or 'v' not in x.d or x.get('v') in bt for x in n.c[3].walk()):
                    bad = True
                    env.bad('request:bytes:%s' % f.q, n.loc(), '%s gives the parser another number of bytes than have come' % f.q)
                elif not FL_in(b, e):
                    if not any(x.k == 'DeclRefExpr' and 'v' in x.d and x.get('v') not in bt for c in n.c[2:4] for x in c.walk()):
                        bad = True
                        env.bad('request:bytes:%s' % f.q, n.loc(), '%s does not give the parser the bytes from the beginning of the buffer' % f.q)
                if any(x.k == 'BinaryOperator' and x.get('op') in ('-', '+') and any(y.k == 'IntegerLiteral' for y in x.c if y is not None and strip(y) is not None for y in [strip(y)]) for c in n.c[2:4] for x in c.walk()):
                    bad = True
                    env.bad('request:bytes:%s' % f.q, n.loc(), '%s leaves out bytes that have come' % f.q)
        if not bad:
            env.ok(f.q)
    # the parser's state and the request live as long as the connection
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if not f.cls or f.cls != 'http::server3::connection' or f.ctor or f.dtor:
            continue
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and (n.fn or '').endswith(('request_parser::parse',)):
                continue
            for t in written(n):
                pf = path_fields(t)
                if any(x.startswith('http::server3::connection::request_parser_') or x == 'http::server3::connection::request_' for x in pf):
                    if n.fn and n.fn.endswith('handle_request'):
                        continue
                    env.bad('request:reset:%s' % f.q, n.loc(), '%s changes the parser or the request between two parts of a request' % f.q)
    # the loop over the bytes
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if f.name != 'parse' or not f.cls or not f.cls.endswith('request_parser') or not f.cfg:
            continue
        env.count('loops')
        blocks, entry, exit_ = f.cfg
        calls = {}
        steps = {}
        order = {}
        for b, B in blocks.items():
            seq = []
            for e in B.elems:
                if isinstance(e, dict):
                    continue
                if e.k == 'CXXMemberCallExpr' and (e.fn or '').endswith('::consume'):
                    seq.append('c')
                elif e.k == 'UnaryOperator' and e.get('op') in ('++', 'p++') or e.k == 'CXXOperatorCallExpr' and e.get('op') == '++':
                    seq.append('+')
                elif e.k == 'CompoundAssignOperator' and e.get('op') == '+=':
                    seq.append('+')
            order[b] = seq
        ok = one_by_one(env, f, blocks, entry, order)
        ok = obeyed(env, f, blocks, entry) and ok
        if ok:
            env.ok(f.q)


def is_consume(e):
    return not isinstance(e, dict) and e.k == 'CXXMemberCallExpr' and (e.fn or '').endswith('::consume')


def advance(e):
    return not isinstance(e, dict) and (e.k == 'UnaryOperator' and e.get('op') in ('++', 'p++') or e.k == 'CXXOperatorCallExpr' and e.get('op') in ('++', '+=') or
                                        e.k == 'CompoundAssignOperator' and e.get('op') == '+=')


def normal_succ(B):
    return B.succ if B.cond is not None else B.succ[:1]


def taken(e, it):
    """a byte is taken from the place the iterator stands at: where that is, counted from where the iterator is now"""
    if isinstance(e, dict):
        return None
    x = None
    if e.k == 'UnaryOperator' and e.get('op') == '*':
        x = strip(e.c[0])
    elif e.k == 'CXXOperatorCallExpr' and e.get('op') == '*' and len([c for c in e.c if c is not None]) == 2:
        x = strip(e.c[1])
    if x is None or not any(y.k == 'DeclRefExpr' and y.get('v') in it for y in x.walk()):
        return None
    if x.k == 'UnaryOperator' and x.get('op') == 'p++' or x.k == 'CXXOperatorCallExpr' and x.get('op') == '++' and len([c for c in x.c if c is not None]) == 3:
        return -1
    return 0


def one_by_one(env, f, blocks, entry, order):
    """the bytes taken are those the iterator goes over, from the first on, and each is given to the parser once"""
    where = '%s:%s' % (f.file, f.line)
    it = {f.params[1][0]} if len(f.params) > 1 else set()
    if not any(taken(e, it) is not None for B in blocks.values() for e in B.elems):
        env.notes.append('%s: how the bytes are taken is not followed' % f.q)
        return True
    bad = {}
    seen = set()
    todo = [(entry, 0, False, 0)]                  # block, iterator's offset from the last byte taken, whether one was taken, bytes waiting
    while todo:
        x, adv, any_, wait = todo.pop()
        if (x, max(min(adv, 3), -3), any_, wait) in seen:
            continue
        seen.add((x, max(min(adv, 3), -3), any_, wait))
        for e in blocks[x].elems:
            if advance(e):
                adv += 1
            o = taken(e, it)
            if o is not None:
                p = adv + o
                if not any_:
                    if p:
                        bad['first'] = '%s begins with byte %d of what has come' % (f.q, p)
                    wait = 1
                elif p == 0:
                    wait = 1
                else:
                    if p != 1:
                        bad['advance'] = '%s moves on by %d from one byte to the next' % (f.q, p)
                    if wait:
                        bad['lost'] = '%s moves on although the last byte has not been given to the parser' % f.q
                    wait = 1
                any_ = True
                adv -= p
            elif is_consume(e):
                if not any_ or not wait:
                    bad['again'] = '%s gives a byte to the parser that it was given before' % f.q
                wait = 0
        for s in normal_succ(blocks[x]):
            if s is not None and s in blocks:
                todo.append((s, adv, any_, wait))
    ends = {f.params[2][0]} if len(f.params) > 2 else set()
    for b, B in blocks.items():
        c = strip(B.cond) if B.cond is not None else None
        if c is not None and c.k in ('BinaryOperator', 'CXXOperatorCallExpr') and c.get('op') in ('!=', '==', '<', '>', '<=', '>='):
            vs = {y.get('v') for y in c.walk() if y.k == 'DeclRefExpr'}
            if vs & it and vs & ends and any(y.k in ('BinaryOperator', 'CXXOperatorCallExpr') and y.get('op') in ('+', '-') for y in c.walk()):
                bad['end'] = '%s leaves bytes at the end of what has come' % f.q
    for k, m in sorted(bad.items()):
        env.bad('request:loop:%s:%s' % (f.cls, k), where, m)
    return not bad


def obeyed(env, f, blocks, entry):
    """after a verdict the next byte is taken only when the verdict is that more is needed; when the bytes are used up, more is needed"""
    ok = True
    where = '%s:%s' % (f.file, f.line)
    P = env.P
    tri = lambda t: t is not None and 'tribool' in repr(t)
    for w in (True, False, 'wait', None):
        m = Step(P, f.cls, watch=('consume',), verdict=w)
        todo, seen = [(entry, 0, w is None, False, {})], set()
        while todo:
            x, i, given, more, loc = todo.pop()
            key = (x, i, given, more, tuple(sorted((k, repr(v)) for k, v in loc.items())))
            if key in seen or len(seen) > 3000:
                continue
            seen.add(key)
            loc = dict(loc)
            stop = False
            for e in blocks[x].elems[i:]:
                if isinstance(e, dict):
                    continue
                if is_consume(e):
                    if w is None:
                        stop = True
                        break
                    if given and w != 'wait':
                        ok = False
                        env.bad('request:loop:%s:verdict' % f.cls, where, '%s goes on with the next byte when the verdict on the last one is %s' % (f.q, 'that the request is ' + ('complete' if w else 'bad')))
                        stop = True
                        break
                    given, more = True, False
                try:
                    if e.k == 'DeclStmt':
                        for k, d in enumerate(e.get('decls') or ()):
                            if tri(d.get('t')):
                                loc[d['v']] = holds(m, e.c[k], loc, w) if d.get('init') and k < len(e.c) and e.c[k] is not None else False
                    elif e.k in ('BinaryOperator', 'CXXOperatorCallExpr') and e.get('op') == '=':
                        l, r = (e.c[0], e.c[1]) if e.k == 'BinaryOperator' else (e.c[1], e.c[2])
                        l = strip(l)
                        if tri(l.t) and l.k == 'DeclRefExpr' and 'v' in l.d:
                            loc[l.get('v')] = holds(m, r, loc, w)
                except Undecided:
                    pass
                if e.k == 'ReturnStmt':
                    v = given_back(m, e, loc, tri)
                    if given and v is not None and not isinstance(v, Sym):
                        want = 'wait' if w is None else w
                        if v != want:
                            ok = False
                            env.bad('request:loop:%s:answer' % f.cls, where, '%s %s' % (f.q, 'answers %s when the bytes that have come are used up' % v if w is None else 'answers %s when the verdict is %s' % (v, w)))
                    if w == 'wait' and given and not more:
                        ok = False
                        env.bad('request:loop:%s:stops' % f.cls, where, '%s stops after a byte that completes nothing, although more may have come' % f.q)
                    stop = True
                    break
            if stop:
                continue
            B = blocks[x]
            succ = normal_succ(B)
            if B.cond is not None and any(tri(y.t) for y in B.cond.walk()):
                try:
                    vals = {b for v, s in m.ev(B.cond, St(dict(loc))) for b, s2 in m.truth(v, s)}
                except Undecided:
                    vals = {True, False}
                succ = [s for s, b in zip(succ, (True, False)) if b in vals]
            elif B.cond is not None and strip(B.cond) is not None and strip(B.cond).k not in ('IntegerLiteral', 'CXXBoolLiteralExpr'):
                more = True
            for s in succ:
                if s is not None and s in blocks:
                    todo.append((s, 0, given, more, loc))
    return ok


def holds(m, e, loc, w):
    if any(is_consume(y) for y in e.walk()):
        x = strip(e)
        while x is not None and x.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len([c for c in x.c if c is not None]) == 1:
            x = strip([c for c in x.c if c is not None][0])
        if x is not None and is_consume(x):
            return w if w is not None else Sym('verdict')
        return Sym('verdict?')
    return m.ev(e, St(dict(loc)))[0][0]


def given_back(m, e, loc, tri):
    """the verdict in a return statement"""
    for y in e.walk():
        if y.k == 'DeclRefExpr' and 'v' in y.d and y.get('v') in loc:
            return loc[y.get('v')]
        if y.k == 'DeclRefExpr' and (y.get('q') or '') == 'boost::logic::indeterminate':
            return 'wait'
        if y.k == 'CXXBoolLiteralExpr':
            return bool(y.get('val'))
        if is_consume(y):
            return None
    return None


def FL_in(a, e):
    if a == e:
        return True
    return isinstance(e, tuple) and any(FL_in(a, x) for x in e[1:] if isinstance(x, tuple))


def c40(env):
    automaton_laws(env)
    feeding(env)
