"""Forward may-taint data flow over strings and streams, with labels and function summaries."""
import flow as FL
from flow import canon, strip, deref

NOTEXT = {'size', 'length', 'empty', 'find', 'rfind', 'find_first_of', 'find_last_of', 'compare', 'good', 'is_open', 'eof', 'count',
          'capacity', 'max_size', 'tellg', 'tellp', 'fail', 'bad'}
NONE = frozenset()


def root_stream(n):
    n = strip(n)
    while n is not None and n.k == 'CXXOperatorCallExpr' and n.get('op') == '<<':
        n = strip(n.c[1])
    return n


def texty(t):
    """can a value of this type carry text?"""
    if t is None:
        return True
    t = t.strip() if hasattr(t, 'strip') else t
    if t.k in ('int', 'bool', 'float', 'void', 'enum'):
        return False
    return True


class Taint:
    """source(node, f) -> labels, sanitizer(name) -> label or None, model(node) -> None or dict(ret=, outs=[indices], pure=bool)"""

    def __init__(self, env, source, sanitizer, model, body, init=None):
        self.env, self.P = env, env.P
        self.source, self.sanitizer, self.model, self.body = source, sanitizer, model, body
        self.fields = {}
        self.changed = False
        self.summ = {}
        self.busy = set()
        self.visit = None
        self.undo = None
        self.refine = lambda n, f, lab: lab

    # ---- expressions
    def val(self, n, st, f):
        if n is None:
            return NONE
        s = self.source(n, f)
        if s:
            return s
        k = n.k
        if k in ('StringLiteral', 'IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr', 'FloatingLiteral', 'CXXThisExpr', 'LambdaExpr', 'UnaryExprOrTypeTraitExpr'):
            return NONE
        if k in ('DeclRefExpr',):
            return self.look(canon(n), st)
        if k == 'MemberExpr' and not n.fn:
            e = canon(n)
            r = self.look(e, st)
            if e[0] == 'f':
                r = r | self.fields.get(e[2], NONE)
            return r
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.call(n, st, f)
        if k in ('BinaryOperator',) and n.get('op') in ('==', '!=', '<', '>', '<=', '>=', '&&', '||', '-', '*', '/', '%'):
            return NONE
        if k == 'BinaryOperator' and n.get('op') == ',':
            return self.val(n.c[1], st, f)
        if k == 'ConditionalOperator':
            return self.val(n.c[1], st, f) | self.val(n.c[2], st, f)
        r = NONE
        for c in n.c or ():
            if c is not None:
                r = r | self.val(c, st, f)
        return r

    def look(self, e, st):
        r = NONE
        x = e
        while True:
            r = r | st.get(x, NONE)
            if x[0] in ('f', '[]', '*', '&') and len(x) > 1 and isinstance(x[1], tuple):
                x = x[1]
            else:
                break
        for k, v in st.items():
            if v and k != e and k[0] in ('f', '[]', '*'):
                y = k
                while y[0] in ('f', '[]', '*') and isinstance(y[1], tuple):
                    y = y[1]
                    if y == e:
                        r = r | v
                        break
        return r

    def args(self, n):
        """(receiver node or None, argument nodes)"""
        if n.k == 'CXXMemberCallExpr':
            me = strip(n.c[0])
            base = me.c[0] if me is not None and me.k == 'MemberExpr' and me.c else None
            return base, n.c[1:]
        if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return None, n.c
        return None, n.c[1:]

    def targets(self, n):
        if not n.u:
            return []
        return [f for f in self.P.targets(n) if self.body(f)]

    def call(self, n, st, f):
        fn = n.fn or ''
        nm = fn.rsplit('::', 1)[-1]
        base, args = self.args(n)
        lab = self.sanitizer(fn)
        if lab is not None:
            return frozenset([lab]) if any(self.val(a, st, f) for a in args) or base is not None and self.val(base, st, f) else NONE
        m = self.model(n)
        av = [self.refine(n, f, self.val(a, st, f)) for a in args]
        bv = self.val(base, st, f) if base is not None else NONE
        if m is not None:
            return m.get('ret', NONE)
        ts = self.targets(n)
        if ts:
            r = NONE
            for t in ts:
                s = self.summary(t, tuple(av[:len(t.params)]) + (NONE,) * (len(t.params) - len(av)))
                r = r | s['ret']
            return r
        if nm in NOTEXT or not texty(n.t) and not (n.t is not None and 'char' in repr(n.t)):
            return NONE
        r = bv
        for a in av:
            r = r | a
        return r

    # ---- effects
    def put(self, st, e, lab, f, weak):
        if e is None:
            return
        if e[0] == 'f':
            fld = e[2]
            if lab and not lab <= self.fields.get(fld, NONE):
                base = e[1]
                while base[0] in ('*', '[]', 'f') and isinstance(base[1], tuple):
                    base = base[1]
                if base == ('this',) or base[0] not in ('v',) or not self.local_value(f, base):
                    self.fields[fld] = self.fields.get(fld, NONE) | lab
                    self.changed = True
        if weak:
            if lab:
                st[e] = st.get(e, NONE) | lab
            return
        for k in [k for k in st if k == e or FL.mentions(k, e)]:
            del st[k]
        if lab:
            st[e] = lab

    def local_value(self, f, v):
        import common
        return common.by_value_local(f, v[1])

    def lv(self, n):
        n = strip(n)
        if n is None:
            return None
        if n.k == 'CXXMemberCallExpr' or n.k == 'CXXOperatorCallExpr' and n.get('op') in ('+=', '='):
            # chained s.append(..).append(..)
            b = self.args(n)[0] if n.k == 'CXXMemberCallExpr' else n.c[1]
            if b is not None and n.lv:
                return self.lv(b)
        if n.k == 'UnaryOperator' and n.get('op') == '&' and n.c:
            return self.lv(n.c[0])
        e = canon(n)
        return e

    def part(self, n):
        """an assignment to this expression changes only part of what lv() names"""
        n = strip(n)
        return n is not None and (n.k == 'CXXMemberCallExpr' or n.k == 'CXXOperatorCallExpr' and n.get('op') not in ('=', '+='))

    def effect(self, n, st, f):
        k = n.k
        if k == 'DeclStmt':
            for i, x in enumerate(n.get('decls', [])):
                self.put(st, ('v', x['v']), self.val(n.c[i], st, f) if x.get('init') and n.c[i] is not None else NONE, f, False)
            return
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n.get('op')
            if op == '=':
                self.put(st, self.lv(n.c[0]), self.val(n.c[1], st, f), f, self.part(n.c[0]))
            elif op and op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                self.put(st, self.lv(n.c[0]), self.val(n.c[1], st, f), f, True)
            return
        if k == 'ReturnStmt':
            if n.c and n.c[0] is not None:
                self._ret = self._ret | self.val(n.c[0], st, f)
            return
        if k == 'CXXOperatorCallExpr':
            op = n.get('op')
            a = n.c[1:]
            if op == '=' and len(a) > 1:
                self.put(st, self.lv(a[0]), self.val(a[1], st, f), f, self.part(a[0]))
                return
            if op == '+=' and len(a) > 1:
                self.put(st, self.lv(a[0]), self.val(a[1], st, f), f, True)
                return
            if op == '<<' and len(a) > 1:
                r = root_stream(n)
                v = self.refine(n, f, self.val(a[1], st, f))
                if r is not None and v:
                    self.put(st, self.lv(r), v, f, True)
                return
            if op == '>>' and len(a) > 1:
                self.put(st, self.lv(a[1]), self.val(a[0], st, f), f, True)
                return
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXOperatorCallExpr'):
            base, args = self.args(n)
            m = self.model(n)
            if m is not None:
                for i in m.get('outs', ()):
                    if i < len(args):
                        self.put(st, self.lv(args[i]), m.get('label', NONE), f, True)
                return
            if n.fn and self.sanitizer(n.fn) is not None:
                return
            av = [self.refine(n, f, self.val(a, st, f)) for a in args]
            allv = frozenset().union(*av) if av else NONE
            ts = self.targets(n)
            if ts:
                for t in ts:
                    s = self.summary(t, tuple(av[:len(t.params)]) + (NONE,) * (len(t.params) - len(av)))
                    for i, lab in s['outs'].items():
                        if i < len(args):
                            self.put(st, self.lv(args[i]), lab, f, True)
                return
            nm = (n.fn or '').rsplit('::', 1)[-1]
            if k == 'CXXMemberCallExpr' and base is not None and not n.get('cst') and nm not in FL.NONMUT_STD:
                e = self.lv(base)
                me = strip(n.c[0])
                if me is not None and me.get('arrow') and e is not None and e != ('this',):
                    e = deref(e)
                if nm in ('str', 'assign', 'clear', 'swap') and not allv:
                    self.put(st, e, NONE, f, False)
                elif allv:
                    self.put(st, e, allv, f, nm not in ('str', 'assign'))
                for i, a in enumerate(args):
                    self.out_arg(a, st, f, allv | self.val(base, st, f))
            elif k == 'CallExpr':
                if self.undo:
                    self.undo(n, nm, args, av, st, f)
                for a in args:
                    self.out_arg(a, st, f, allv)

    def out_arg(self, a, st, f, lab):
        if not lab or a is None or not a.lv or a.t is None or a.t.const:
            return
        s = strip(a)
        if s is not None and s.k in ('DeclRefExpr', 'MemberExpr') and texty(a.t):
            self.put(st, self.lv(a), lab, f, True)

    # ---- functions
    def run(self, f, pin):
        g = f.cfg
        self._ret_stack = getattr(self, '_ret_stack', [])
        saved = getattr(self, '_ret', NONE)
        self._ret = NONE
        init = {}
        for (v, n, t), lab in zip(f.params, pin):
            if lab:
                init[('v', v)] = lab
        if not g:
            self._ret = saved
            return dict(ret=NONE, outs={})
        bl, entry, ex = g
        IN = {entry: init}
        work = [entry]
        OUTS = {}
        it = 0
        while work and it < 60 * len(bl) + 500:
            it += 1
            b = work.pop(0)
            st = dict(IN[b])
            for n in bl[b].elems:
                if isinstance(n, dict):
                    continue
                if self.visit:
                    self.visit(f, n, st, self)
                self.effect(n, st, f)
            for s in bl[b].succ:
                if s < 0 or s not in bl:
                    continue
                if s not in IN:
                    IN[s] = dict(st)
                    work.append(s)
                else:
                    ch = False
                    for k2, v in st.items():
                        if not v <= IN[s].get(k2, NONE):
                            IN[s][k2] = IN[s].get(k2, NONE) | v
                            ch = True
                    if ch and s not in work:
                        work.append(s)
            OUTS[b] = st
        last = IN.get(ex, {})
        outs = {}
        for i, (v, n, t) in enumerate(f.params):
            if t.k in ('ref', 'ptr'):
                lab = self.look(('v', v), last) | last.get(('*', ('v', v)), NONE)
                if lab:
                    outs[i] = lab
        r = dict(ret=self._ret, outs=outs)
        self._ret = saved
        return r

    def summary(self, f, pin):
        key = (f.u, pin)
        if key in self.summ:
            return self.summ[key]
        if key in self.busy or len(self.busy) > 40:
            return dict(ret=NONE, outs={})
        self.busy.add(key)
        r = self.run(f, pin)
        self.busy.discard(key)
        self.summ[key] = r
        return r

    def fixpoint(self, roots):
        """analyse roots (with untainted parameters) until the tainted fields are stable"""
        for i in range(12):
            self.changed = False
            self.summ = {}
            for f in roots:
                self.summary(f, (NONE,) * len(f.params))
            if not self.changed:
                return i + 1
        return None
