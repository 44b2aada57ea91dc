"""Path-sensitive must-facts over the extracted control-flow graphs.

A fact is a normalised atomic condition over canonical expressions that holds on every path
reaching a point.  Facts come from branch conditions (expanded through single-assignment boolean
locals and through predicate helpers), and are dropped when something they mention may change.
"""
from collections import defaultdict

STRIP = {'ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr',
         'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'ParenExpr', 'ExprWithCleanups',
         'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'ConstantExpr', 'CXXStdInitializerListExpr'}


def strip(n):
    while n is not None:
        if n.k in STRIP and n.c and not (n.fn and n.k == 'ImplicitCastExpr' and n.get('ck') == 'UserDefinedConversion'):
            n = n.c[-1] if n.k != 'CXXFunctionalCastExpr' else n.c[0]
        elif n.k == 'ImplicitCastExpr' and n.c and n.c[0] is not None and n.c[0].k in ('CXXMemberCallExpr', 'CXXConstructExpr'):
            n = n.c[0]
        elif n.k == 'CXXFunctionalCastExpr' and n.c:
            n = n.c[0]
        elif n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and (n.get('cc') or n.get('mc')) and len(n.c) >= 1:
            n = n.c[0]
        else:
            return n
    return n


def canon(n, sub=None, depth=0):
    n = strip(n)
    if n is None:
        return ('none',)
    if depth > 14:
        return ('?', n.id)
    k = n.k
    D = depth + 1
    if k == 'DeclRefExpr':
        if 'v' in n.d:
            v = ('v', n.d['v'])
            if sub and v in sub:
                return sub[v]
            return v
        if 'ec' in n.d:
            return ('c', n.d['ec'])
        return ('g', n.get('q'))
    if k in ('IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr', 'CXXScalarValueInitExpr', 'UnaryExprOrTypeTraitExpr'):
        if 'val' in n.d:
            return ('c', n.d['val'])
        return ('?', n.id)
    if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
        return ('c', 0)
    if k == 'StringLiteral':
        return ('s', n.get('s'))
    if k == 'FloatingLiteral':
        return ('fl', n.get('fval'))
    if k == 'CXXThisExpr':
        if sub and ('this',) in sub:
            return sub[('this',)]
        return ('this',)
    if k == 'MemberExpr':
        if n.get('g') or n.u:
            return ('g', n.get('mf'))
        b = canon(n.c[0], sub, D) if n.c else ('this',)
        if n.get('arrow') and b != ('this',):
            b = deref(b)
        return ('f', b, n.get('mf'))
    if k == 'UnaryOperator':
        op = n.get('op')
        x = canon(n.c[0], sub, D)
        if op == '*':
            return deref(x)
        if op == '&':
            return addr(x)
        if op in ('++', 'p++', '--', 'p--'):
            return ('?', n.id)
        if op == '-' and x[0] == 'c':
            return ('c', -x[1])
        return ('u', op, x)
    if k == 'CXXOperatorCallExpr':
        op = n.get('op')
        a = [canon(c, sub, D) for c in n.c[1:]]
        if op in ('*', '->') and len(a) == 1:
            return deref(a[0])
        if op == '[]':
            return ('[]',) + tuple(a)
        if op in ('++', '--', '=', '+=', '-='):
            return ('?', n.id) if op != '=' else a[0]
        return ('op', op) + tuple(a)
    if k == 'CXXMemberCallExpr':
        me = strip(n.c[0])
        b = ('this',)
        if me is not None and me.k == 'MemberExpr' and me.c:
            b = canon(me.c[0], sub, D)
            if me.get('arrow') and b != ('this',):
                b = deref(b)
        a = [canon(c, sub, D) for c in n.c[1:]]
        fn = n.fn or ''
        if fn.endswith('::get') and not a and ('ptr' in fn or 'optional' in fn or 'array' in fn):
            if 'optional' in fn:
                return deref(b)
            return b
        if fn.endswith('::operator bool') or fn.rsplit('::', 1)[-1].startswith('operator ') and n.t is not None and n.t.k in ('bool', 'fptr', 'mptr'):
            return b
        if fn.endswith('is_initialized') or fn.endswith('optional::has_value'):
            return b
        return ('call', fn, b) + tuple(a)
    if k == 'CallExpr':
        a = [canon(c, sub, D) for c in n.c[1:]]
        if n.fn in ('std::move', 'std::forward') and a:
            return a[0]
        return ('call', n.fn or '?%d' % n.id) + tuple(a)
    if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        a = [canon(c, sub, D) for c in n.c if c is not None and c.k != 'CXXDefaultArgExpr']
        if len(a) == 1 and a[0][0] == 's':
            return a[0]
        return ('ctor', n.fn) + tuple(a)
    if k in ('ArraySubscriptExpr',):
        return ('[]', canon(n.c[0], sub, D), canon(n.c[1], sub, D))
    if k in ('BinaryOperator', 'CompoundAssignOperator'):
        op = n.get('op')
        if op == ',':
            return canon(n.c[1], sub, D)
        if op == '=':
            return canon(n.c[0], sub, D)
        if k == 'CompoundAssignOperator':
            return ('?', n.id)
        a, b = canon(n.c[0], sub, D), canon(n.c[1], sub, D)
        if a[0] == 'c' and b[0] == 'c':
            try:
                if op == '+':
                    return ('c', a[1] + b[1])
                if op == '-':
                    return ('c', a[1] - b[1])
                if op == '*':
                    return ('c', a[1] * b[1])
            except Exception:
                pass
        return ('bin', op, a, b)
    if k == 'ConditionalOperator':
        return ('cond', canon(n.c[0], sub, D), canon(n.c[1], sub, D), canon(n.c[2], sub, D))
    if k == 'ImplicitCastExpr' and n.c:
        return canon(n.c[0], sub, D)
    if k == 'CXXNewExpr':
        return ('new', n.id)
    if k == 'CXXDynamicCastExpr':
        return ('dyn', n.t.s if n.t else '', canon(n.c[0], sub, D))
    if k == 'CXXTypeidExpr':
        return ('?', n.id)
    return ('?', n.id)


def deref(x):
    if x[0] == '&':
        return x[1]
    return ('*', x)


def addr(x):
    if x[0] == '*':
        return x[1]
    return ('&', x)


def mentions(e, what):
    """does canonical expression e mention sub-expression `what`?"""
    if e == what:
        return True
    if isinstance(e, tuple):
        for x in e[1:]:
            if isinstance(x, tuple) and mentions(x, what):
                return True
    return False


def unstable(e, what, stable):
    """does e mention `what` other than through pointer-like fields that never change?"""
    if e == what:
        return True
    if e[0] == 'f' and len(e) == 3 and e[2] in stable:
        x = e[1]
        while x[0] == 'f' and len(x) == 3 and x[2] in stable:
            x = x[1]
        if x == what:
            return False
        return unstable(x, what, stable)
    for x in e[1:]:
        if isinstance(x, tuple) and unstable(x, what, stable):
            return True
    return False


def subexprs(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            yield from subexprs(x)


# --------------------------------------------------------------------------- atoms

def atom(n, pol, sub=None, ctx=None, depth=0):
    """set of facts (kind, ..., polarity) that follow from expression n evaluating to pol"""
    n = strip(n)
    out = set()
    if n is None:
        return out
    k = n.k
    if k == 'UnaryOperator' and n.get('op') == '!':
        return atom(n.c[0], not pol, sub, ctx, depth)
    if k == 'CXXOperatorCallExpr' and n.get('op') == '!' and len(n.c) == 2:
        return atom(n.c[1], not pol, sub, ctx, depth)
    if k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
        conj = (n.get('op') == '&&')
        if conj == pol:
            return atom(n.c[0], pol, sub, ctx, depth) | atom(n.c[1], pol, sub, ctx, depth)
        a = atom(n.c[0], pol, sub, ctx, depth)
        b = atom(n.c[1], pol, sub, ctx, depth)
        na = atom(n.c[0], not pol, sub, None, depth)
        nb = atom(n.c[1], not pol, sub, None, depth)
        return (a & b) | imps(na, b) | imps(nb, a)
    if k == 'ConditionalOperator':
        # c ? a : b
        c = n.c
        at = atom(c[1], pol, sub, ctx, depth) | atom(c[0], True, sub, ctx, depth)
        bt = atom(c[2], pol, sub, ctx, depth) | atom(c[0], False, sub, ctx, depth)
        va, vb = const_bool(c[1]), const_bool(c[2])
        if va is not None and va != pol:
            return bt
        if vb is not None and vb != pol:
            return at
        ct, cf = atom(c[0], True, sub, None, depth), atom(c[0], False, sub, None, depth)
        return (at & bt) | imps(ct, at) | imps(cf, bt)
    op = None
    args = None
    if k == 'BinaryOperator':
        op = n.get('op')
        args = n.c
    elif k == 'CXXOperatorCallExpr' and len(n.c) == 3:
        op = n.get('op')
        args = n.c[1:]
    if op in ('==', '!=') and args:
        a, b = canon(args[0], sub), canon(args[1], sub)
        # comparisons of booleans with literals
        for x, y, nx in ((a, b, args[0]), (b, a, args[1])):
            sx = strip(nx)
            if y[0] == 'c' and sx is not None and sx.t is not None and sx.t.k == 'bool' and y[1] in (0, 1):
                p = (pol == (op == '==')) == bool(y[1])
                return atom(nx, p, sub, ctx, depth)
        p = (op == '==') == pol
        out.add(('eq',) + tuple(sorted((a, b), key=repr)) + (p,))
        for x, y in ((a, b), (b, a)):
            if y == ('c', 0):
                out.add(('true', x, not p))
        return out
    if op in ('<', '<=', '>', '>=') and args:
        a, b = canon(args[0], sub), canon(args[1], sub)
        if op in ('>', '>='):
            a, b = b, a
            op = {'>': '<', '>=': '<='}[op]
        if not pol:
            a, b = b, a
            op = {'<': '<=', '<=': '<'}[op]
        out.add(('lt' if op == '<' else 'le', a, b, True))
        if op == '<' and a == ('c', 0):
            out.add(('true', b, True))
        return out
    if k == 'BinaryOperator' and op == '=':
        e = canon(args[0], sub)
        out.add(('true', e, pol))
        return out
    e = canon(n, sub)
    out.add(('true', e, pol))
    if ctx is not None and depth < 3:
        # boolean local assigned exactly once
        if e[0] == 'v' and n.k == 'DeclRefExpr' and not sub:
            d = ctx.single_def(n.func, e[1])
            if d is not None:
                out |= atom(d, pol, sub, ctx, depth + 1)
        # predicate helper
        if k in ('CallExpr', 'CXXMemberCallExpr') and n.u in ctx.P.funcs and not n.get('virt'):
            f = ctx.P.funcs[n.u]
            if f.ret.k == 'bool' and not f.dep and f is not n.func:
                s = ctx.pred_summary(f, pol, depth + 1)
                if s:
                    m = call_subst(n, f, sub)
                    for fact in s:
                        g = subst_fact(fact, m)
                        if g is not None:
                            out.add(g)
    return out


def imps(conds, facts):
    """implications from a condition given by a single atom"""
    conds = [c for c in conds if c[0] == 'true'] or [c for c in conds if c[0] != 'imp']
    if len(conds) != 1:
        return set()
    c = conds[0]
    return {('imp', c, f) for f in facts if f[0] != 'imp' and f != c}


def neg(f):
    if f[0] in ('true', 'eq'):
        return f[:-1] + (not f[-1],)
    if f[0] == 'lt':
        return ('le', f[2], f[1], True)
    if f[0] == 'le':
        return ('lt', f[2], f[1], True)
    return ('not', f)


def const_bool(n):
    n = strip(n)
    if n is not None and n.k in ('CXXBoolLiteralExpr', 'IntegerLiteral') and 'val' in n.d:
        return bool(n.d['val'])
    return None


def call_subst(n, f, sub=None):
    m = {}
    if n.k == 'CXXMemberCallExpr':
        me = strip(n.c[0])
        b = ('this',)
        if me is not None and me.k == 'MemberExpr' and me.c:
            b = canon(me.c[0], sub)
            if me.get('arrow') and b != ('this',):
                b = deref(b)
        m[('this',)] = b
        args = n.c[1:]
    elif n.k == 'CXXOperatorCallExpr':
        if f.cls and not f.static:
            m[('this',)] = canon(n.c[1], sub)
            args = n.c[2:]
        else:
            args = n.c[1:]
    elif n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        args = n.c
    else:
        args = n.c[1:]
    for (v, nm, t), a in zip(f.params, args):
        m[('v', v)] = canon(a, sub)
    return m


def subst_expr(e, m):
    if e in m:
        return m[e]
    if e[0] == 'v' or e[0] == '?':
        return None       # other local of the callee
    if e == ('this',):
        return e if ('this',) not in m else m[e]
    out = [e[0]]
    for x in e[1:]:
        if isinstance(x, tuple):
            y = subst_expr(x, m)
            if y is None:
                return None
            out.append(y)
        else:
            out.append(x)
    if out[0] == '*' and len(out) == 2:
        return deref(out[1])
    if out[0] == '&' and len(out) == 2:
        return addr(out[1])
    return tuple(out)


def subst_fact(f, m):
    out = [f[0]]
    for x in f[1:]:
        if isinstance(x, tuple):
            y = subst_expr(x, m)
            if y is None:
                return None
            out.append(y)
        else:
            out.append(x)
    if out[0] == 'eq':
        a, b = sorted(out[1:3], key=repr)
        return ('eq', a, b, out[3])
    return tuple(out)


# --------------------------------------------------------------------------- effects

MUTATING_OPS = {'=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^=', '++', '--', '<<', '>>'}


class Ctx:
    def __init__(self, P):
        self.P = P
        self._defs = {}
        self._pred = {}
        self._flow = {}
        self._pure = None
        self._stable = None

    @property
    def pure(self):
        """functions that modify nothing but their own locals"""
        if self._pure is None:
            P = self.P
            cand = set()
            deps = {}
            users = defaultdict(set)
            for f in P.funcs.values():
                if f.body is None:
                    continue
                loc = {}
                for v, n, t in f.params:
                    loc[v] = t
                for n in f.walk():
                    for x in n.get('decls', ()) or ():
                        loc[x['v']] = x['t']
                ok = not f.ctor and not f.dtor
                dp = set()
                if ok:
                    for n in f.walk():
                        if n.k in ('CXXNewExpr', 'CXXDeleteExpr', 'LambdaExpr', 'CXXThrowExpr'):
                            if n.k != 'CXXThrowExpr':
                                ok = False
                                break
                        ts = list(assigned_targets(n))
                        if n.fn and n.k != 'LambdaExpr':
                            m = mutated(n)
                            tg = P.targets(n)
                            if m and tg:
                                dp |= {t.u for t in tg}     # decided by the callees
                            else:
                                ts += m
                            if not tg and not n.fn.startswith(('std::', 'boost::', 'utf8::')):
                                if n.k in ('CallExpr',) and n.fn not in ('strlen', 'strcmp', 'strncmp', 'isalpha', 'isspace', 'isdigit', 'toupper', 'tolower'):
                                    ok = False
                                    break
                        elif n.fn is None and n.k in ('CallExpr', 'CXXMemberCallExpr'):
                            ok = False
                            break
                        for t in ts:
                            r = t
                            while r[0] in ('f', '[]') and len(r) > 1:
                                r = r[1]
                            if not (r[0] == 'v' and r[1] in loc and loc[r[1]].k not in ('ref', 'ptr')):
                                ok = False
                                break
                        if not ok:
                            break
                if ok:
                    cand.add(f.u)
                    deps[f.u] = dp
                    for d in dp:
                        users[d].add(f.u)
            todo = [d for d in users if d not in cand]
            while todo:
                d = todo.pop()
                for u in users[d]:
                    if u in cand:
                        cand.discard(u)
                        todo.append(u)
            self._pure = cand
        return self._pure

    @property
    def stable(self):
        """fields that keep the value their constructor gave them"""
        if self._stable is None:
            P = self.P
            callers = defaultdict(set)
            for f in P.funcs.values():
                for n in f.walk():
                    if n.u and n.k != 'LambdaExpr':
                        callers[n.u].add(f.u)
            init_only = {f.u for f in P.funcs.values() if f.ctor or f.dtor}
            ch = True
            while ch:
                ch = False
                for f in P.funcs.values():
                    if f.u not in init_only and f.cls and not f.virtual and callers.get(f.u) and all(
                            c in init_only and P.funcs[c].cls == f.cls for c in callers[f.u]):
                        init_only.add(f.u)
                        ch = True
            written = set()
            for f in P.funcs.values():
                for n in f.walk():
                    ts = list(assigned_targets(n))
                    if n.fn and n.k != 'LambdaExpr':
                        ts += mutated(n)
                    if n.k == 'UnaryOperator' and n.get('op') == '&' and n.c:
                        ts.append(canon(n.c[0]))
                    for t in ts:
                        if t[0] == 'f' and t[2]:
                            if f.u in init_only and t[1] == ('this',) and t[2].rsplit('::', 1)[0] == f.cls:
                                continue
                            written.add(t[2])
            out = set()
            for r in P.recs.values():
                for x in r['fields']:
                    if x['q'] not in written or x['t'].k == 'ref':
                        out.add(x['q'])
            self._stable = out
        return self._stable

    def pure_call(self, n):
        if not n.u or n.u not in self.pure:
            return False
        if n.get('virt') or n.get('vm'):
            return all(t.u in self.pure for t in self.P.targets(n))
        return True

    # -- definitions of locals
    def defs(self, f):
        """local id -> list of defining nodes (None when defined in a way we do not model)"""
        if f.u in self._defs:
            return self._defs[f.u]
        d = defaultdict(list)
        for n in f.walk():
            if n.k == 'DeclStmt':
                for i, x in enumerate(n.get('decls', [])):
                    if x.get('init'):
                        c = n.c[i]
                        d[x['v']].append(c)
            elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op', '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
                l = strip(n.c[0])
                if l is not None and l.k == 'DeclRefExpr' and 'v' in l.d:
                    d[l.d['v']].append(n.c[1] if n.get('op') == '=' else None)
            elif n.k == 'UnaryOperator' and n.get('op') in ('++', 'p++', '--', 'p--'):
                l = strip(n.c[0])
                if l is not None and l.k == 'DeclRefExpr' and 'v' in l.d:
                    d[l.d['v']].append(None)
            elif n.k == 'UnaryOperator' and n.get('op') == '&':
                l = strip(n.c[0])
                if l is not None and l.k == 'DeclRefExpr' and 'v' in l.d:
                    d[l.d['v']].append(None)
            elif n.k == 'CXXOperatorCallExpr' and n.get('op') in MUTATING_OPS and len(n.c) > 1:
                l = strip(n.c[1])
                if l is not None and l.k == 'DeclRefExpr' and 'v' in l.d:
                    if n.get('op') == '=':
                        d[l.d['v']].append(n.c[2])
                    else:
                        d[l.d['v']].append(None)
                if n.get('op') in ('>>',) and len(n.c) > 2:
                    l = strip(n.c[2])
                    if l is not None and l.k == 'DeclRefExpr' and 'v' in l.d:
                        d[l.d['v']].append(None)
            elif n.fn and n.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                for a in (n.c if n.k.startswith('CXXC') or n.k.startswith('CXXT') else n.c[1:]):
                    if a is None:
                        continue
                    l = a
                    while l is not None and l.k == 'ImplicitCastExpr' and l.get('ck') in ('DerivedToBase', 'UncheckedDerivedToBase') and not (l.t is not None and l.t.const) and l.c:
                        l = l.c[0]
                    if l is not None and l.k == 'DeclRefExpr' and 'v' in l.d and l.lv and l.t is not None and not l.t.const and l.t.k != 'arr':
                        d[l.d['v']].append(None)   # bound to a non-const reference
                if n.k == 'CXXMemberCallExpr' and not n.get('cst'):
                    me = strip(n.c[0])
                    if me is not None and me.k == 'MemberExpr' and me.c and not me.get('arrow'):
                        l = strip(me.c[0])
                        if l is not None and l.k == 'DeclRefExpr' and 'v' in l.d and l.t is not None and not l.t.const:
                            d[l.d['v']].append(None)
        self._defs[f.u] = d
        return d

    def single_def(self, f, v):
        if not hasattr(f, 'u'):
            return None
        x = self.defs(f).get(v, [])
        if len(x) == 1 and x[0] is not None:
            return x[0]
        return None

    def pred_summary(self, f, pol, depth=0):
        """facts over parameters/this that hold whenever bool function f returns pol"""
        key = (f.u, pol)
        if key in self._pred:
            return self._pred[key]
        self._pred[key] = set()
        res = None
        fl = self.flow(f)
        for n in f.walk():
            if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                st = fl.before(n)
                if st is None:
                    continue
                cb = const_bool(n.c[0])
                if cb is not None and cb != pol:
                    continue
                facts = set(st)
                if cb is None:
                    facts |= atom(n.c[0], pol, None, self, depth)
                res = facts if res is None else (res & facts)
        self._pred[key] = res or set()
        return self._pred[key]

    def flow(self, f):
        if f.u not in self._flow:
            self._flow[f.u] = Flow(self, f)
        return self._flow[f.u]


def assigned_targets(n):
    """canonical lvalues a node may modify directly (not through callees)"""
    k = n.k
    if k in ('BinaryOperator', 'CompoundAssignOperator'):
        op = n.get('op')
        if op and op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            return [canon(n.c[0])]
    elif k == 'UnaryOperator' and n.get('op') in ('++', 'p++', '--', 'p--'):
        return [canon(n.c[0])]
    return []


NONMUT_STD = ('begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'equal_range', 'at', 'front', 'back',
              'data', 'get', 'operator[]', 'operator*', 'operator->', 'size', 'empty', 'length', 'count', 'c_str')


def mutated(n, P=None):
    """canonical expressions a call node may modify"""
    out = []
    k = n.k
    if k == 'CXXOperatorCallExpr':
        op = n.get('op')
        args = n.c[1:]
        if op in MUTATING_OPS and args:
            out.append(canon(args[0]))
        if op == '>>' and len(args) > 1:
            out.append(canon(args[1]))
        if op == '()':
            for a in args[1:]:
                if a is not None and a.lv and a.t is not None and not a.t.const and a.k in ('DeclRefExpr', 'MemberExpr'):
                    out.append(canon(a))
        return out
    if k in ('CXXMemberCallExpr', 'CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        args = n.c if k.startswith('CXXC') or k.startswith('CXXT') else n.c[1:]
        if k == 'CXXMemberCallExpr':
            me = strip(n.c[0])
            nm = (n.fn or '').rsplit('::', 1)[-1]
            std = (n.fn or '').startswith(('std::', 'boost::'))
            if not n.get('cst') and not (std and nm in NONMUT_STD):
                b = ('this',)
                if me is not None and me.k == 'MemberExpr' and me.c:
                    b = canon(me.c[0])
                    if me.get('arrow') and b != ('this',):
                        b = deref(b)
                out.append(b)
        for a in args:
            if a is None:
                continue
            s = a
            cst = False
            while s is not None and s.k == 'ImplicitCastExpr' and s.get('ck') in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp') and s.c:
                cst = cst or (s.t is not None and s.t.const)
                s = s.c[0]
            if cst or s is None:
                continue
            if s.lv and s.t is not None and not s.t.const and s.k in ('DeclRefExpr', 'MemberExpr', 'UnaryOperator', 'ArraySubscriptExpr', 'CXXOperatorCallExpr', 'CXXThisExpr'):
                out.append(canon(s))
            elif s.t is not None and s.t.k == 'ptr' and s.t.to is not None and not s.t.to.const:
                e = canon(s)
                if e[0] == '&':
                    out.append(e[1])
                elif e == ('this',):
                    out.append(e)
    return out


OPTIONALS = ('boost::optional', 'std::optional')


def is_opt(n):
    return n is not None and n.t is not None and n.t.k == 'rec' and (n.t.q or '') in OPTIONALS


class Flow:
    def __init__(self, ctx, f):
        self.ctx = ctx
        self.f = f
        self.in_ = {}
        self._before = None
        self.solve()

    def kill(self, st, target, call=False):
        """drop facts that mention target (or anything reached through it)"""
        if not st:
            return st
        if call:
            stable = self.ctx.stable
            return frozenset(x for x in st if not any(isinstance(e, tuple) and unstable(e, target, stable) for e in x[1:]))
        if target == ('this',):
            # fields of *this may change; locals stay
            return frozenset(x for x in st if not any(isinstance(e, tuple) and mentions(e, ('this',)) for e in x[1:]))
        # containers: a fact about c.find(..)/c.size() mentions c as a subexpression
        return frozenset(x for x in st if not any(isinstance(e, tuple) and mentions(e, target) for e in x[1:]))

    def transfer(self, st, n):
        if isinstance(n, dict):
            return st
        k = n.k
        for t in assigned_targets(n):
            st = self.kill(st, t)
            if t[0] == 'v' and n.k == 'BinaryOperator' and n.get('op') == '=':
                st = st | self.assign_facts(t, n.c[1])
        if n.fn or k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            if not self.ctx.pure_call(n):
                ts = mutated(n)
                for i, t in enumerate(ts):
                    st = self.kill(st, t, t == ('this',) or i == 0 and n.k == 'CXXMemberCallExpr' and t[0] in ('f', '*'))
            if k == 'CXXOperatorCallExpr' and n.get('op') == '=' and len(n.c) > 2:
                t = canon(n.c[1])
                had = self.full_of(st, n.c[2])
                st = st | self.assign_facts(t, n.c[2])
                if is_opt(n.c[1]) and had is not None:
                    st = st | {('true', t, had)}
            u = n.u
            # calls to own non-const member functions may change fields (handled by mutated(this))
        if k == 'CXXDeleteExpr':
            pass
        if k == 'DeclStmt':
            for i, x in enumerate(n.get('decls', [])):
                st = self.kill(st, ('v', x['v']))
                if x.get('init') and n.c[i] is not None:
                    had = self.full_of(st, n.c[i]) if is_opt(n.c[i]) else None
                    st = st | self.assign_facts(('v', x['v']), n.c[i])
                    if had is not None:
                        st = st | {('true', ('v', x['v']), had)}
        return st

    def full_of(self, st, rhs):
        """does an optional that gets this value hold something? (None: not known)"""
        n = strip(rhs)
        while n is not None and n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr') and is_opt(n):
            c = [x for x in n.c if x is not None and x.k != 'CXXDefaultArgExpr']
            if not c:
                return False
            if len(c) > 1:
                return None
            n = strip(c[0])
        if n is None or n.t is None:
            return None
        if is_opt(n):
            e = canon(n)
            return True if ('true', e, True) in st else False if ('true', e, False) in st else None
        if 'none_t' in str(n.t.q or '') or 'nullopt' in str(n.t.q or '') or n.k == 'InitListExpr':
            return False
        if n.t.k == 'ptr' and 'none' in str(canon(n)):
            return False
        return True

    def assign_facts(self, t, rhs):
        e = canon(rhs)
        out = set()
        if mentions(e, t):
            return out
        if e[0] in ('v', 'f', 'g', 'c', 's', 'call', '*', 'dyn', '[]', 'this', 'op', 'bin', 'new', '&', 'ctor', 'u', 'cond'):
            out.add(('eq',) + tuple(sorted((t, e), key=repr)) + (True,))
            if e[0] == 'c':
                out.add(('true', t, e[1] != 0))
            if e[0] == 'new' or e[0] == '&' or e[0] == 's':
                out.add(('true', t, True))
        return out

    def branch(self, st, B, idx):
        if B.cond is None or B.term is None:
            return st
        k = B.tk
        if k in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'ConditionalOperator', 'CXXForRangeStmt', 'BinaryOperator', 'BinaryConditionalOperator'):
            if len(B.succ) == 2:
                cond = B.cond
                # for `a && b` as if-condition the last evaluated operand decides
                c = strip(cond)
                pol = (idx == 0)
                if k == 'BinaryOperator':
                    # terminator is && or ||: the condition is its left operand
                    t = B.term
                    c = t.c[0]
                    return self.closure(st | self.cond_atoms(B, c, pol))
                # if condition itself is a logical op, earlier blocks decided the left part;
                # this block evaluated the last operand
                return self.closure(st | self.cond_atoms(B, cond, pol))
        if k == 'SwitchStmt':
            lab = None
            s = B.succ[idx]
            bl = self.bl.get(s)
            if bl is not None and bl.lk == 'CaseStmt' and bl.label is not None and 'val' in bl.label.d:
                e = canon(B.cond)
                st = st | {('eq',) + tuple(sorted((e, ('c', bl.label.d['val'])), key=repr)) + (True,)}
            else:
                # default: none of the labels applies
                e = canon(B.cond)
                for s2 in B.succ:
                    b2 = self.bl.get(s2)
                    if s2 != s and b2 is not None and b2.lk == 'CaseStmt' and b2.label is not None and 'val' in b2.label.d:
                        st = st | {('eq',) + tuple(sorted((e, ('c', b2.label.d['val'])), key=repr)) + (False,)}
        return st

    def cond_atoms(self, B, cond, pol):
        m = strip(cond)
        if m is not None and m.k == 'BinaryOperator' and m.get('op') in ('&&', '||'):
            ids = {e.id for e in B.elems if not isinstance(e, dict)}
            if m.id in ids or cond.id in ids:
                # the operands met again in this block: the whole condition is known, nothing about its last operand
                return self.logical(m, pol)
        return atom(last_operand(cond), pol, None, self.ctx)

    def logical(self, m, pol):
        m = strip(m)
        if m is not None and m.k == 'UnaryOperator' and m.get('op') == '!':
            return self.logical(m.c[0], not pol)
        if m is None or m.k != 'BinaryOperator' or m.get('op') not in ('&&', '||'):
            return atom(m, pol, None, self.ctx)
        conj = (m.get('op') == '&&')
        a = self.logical(m.c[0], pol if conj == pol else pol)
        b = self.logical(m.c[1], pol)
        if conj == pol:
            return set(self.killed_by(a, m.c[1])) | b
        na = self.killed_by(self.logical(m.c[0], not pol), m.c[1])
        nb = self.logical(m.c[1], not pol)
        a = self.killed_by(a, m.c[1])
        return (set(a) & b) | imps(na, b) | imps(nb, a)

    def killed_by(self, facts, n):
        st = frozenset(facts)
        for x in n.walk():
            for t in assigned_targets(x):
                st = self.kill(st, t)
            if x.fn or x.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                if not self.ctx.pure_call(x):
                    for t in mutated(x):
                        st = self.kill(st, t)
        return st

    def closure(self, st):
        st = set(st)
        ch = True
        while ch:
            ch = False
            for f in list(st):
                if f[0] == 'imp':
                    if f[1] in st and f[2] not in st:
                        st.add(f[2])
                        ch = True
                    elif ('imp', f[1], neg(f[2])) in st and neg(f[1]) not in st:
                        st.add(neg(f[1]))
                        ch = True
                elif f[0] == 'eq' and f[3] is False:
                    # a local iterator that was compared with end() goes on denoting an element
                    for a, b in ((f[1], f[2]), (f[2], f[1])):
                        if a[0] == 'v' and b[0] == 'call' and b[1].rsplit('::', 1)[-1] in ('end', 'cend') and len(b) == 3:
                            g = ('true', ('found', a, repr(b[2])), True)
                            if g not in st:
                                st.add(g)
                                ch = True
        return frozenset(st)

    def solve(self):
        g = self.f.cfg
        if not g:
            self.bl = {}
            return
        bl, entry, ex = g
        self.bl = bl
        self.exit = ex
        self.entry = entry
        IN = {entry: frozenset()}
        work = [entry]
        it = 0
        while work:
            it += 1
            if it > 60 * len(bl) + 2000:
                break
            b = work.pop(0)
            B = bl[b]
            st = IN[b]
            for n in B.elems:
                st = self.transfer(st, n)
            for i, s in enumerate(B.succ):
                if s < 0 or s not in bl:
                    continue
                o = self.branch(st, B, i)
                if s not in IN:
                    IN[s] = frozenset(o)
                    work.append(s)
                else:
                    m = IN[s] & o
                    if m != IN[s]:
                        IN[s] = m
                        if s not in work:
                            work.append(s)
        self.in_ = IN

    def before(self, node):
        """facts before the given node is evaluated; None if unreachable / unknown"""
        if self._before is None:
            self._before = {}
            for b, st in self.in_.items():
                for n in self.bl[b].elems:
                    if not isinstance(n, dict):
                        if n.id in self._before:
                            self._before[n.id] = self._before[n.id] & st
                        else:
                            self._before[n.id] = st
                    st = self.transfer(st, n)
                B = self.bl[b]
                if B.term is not None and B.term.id not in self._before:
                    self._before[B.term.id] = st
        n = node
        while n is not None:
            if n.id in self._before:
                return self._before[n.id]
            n = n.parent
        return None

    def reachable_blocks(self):
        return set(self.in_)


def last_operand(n):
    """the operand a short-circuit condition's block actually decides on"""
    m = strip(n)
    while m is not None and m.k == 'BinaryOperator' and m.get('op') in ('&&', '||'):
        m = strip(m.c[1])
    return m if m is not None else n


def true_of(st, e):
    """known truth value of canonical e in facts"""
    if ('true', e, True) in st:
        return True
    if ('true', e, False) in st:
        return False
    return None


def equal(st, a, b):
    x, y = sorted((a, b), key=repr)
    if ('eq', x, y, True) in st:
        return True
    if ('eq', x, y, False) in st:
        return False
    return None


def aliases(st, e):
    """expressions known equal to e"""
    out = {e}
    ch = True
    while ch:
        ch = False
        for f in st:
            if f[0] == 'eq' and f[3] is True:
                for a, b in ((f[1], f[2]), (f[2], f[1])):
                    if a in out and b not in out and b[0] != 'c':
                        out.add(b)
                        ch = True
    return out
