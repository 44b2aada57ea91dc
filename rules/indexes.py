"""The lattice keeps several indexes of its edges.  What is put into one of them is put into all of them."""
from common import *
from flow import canon, strip
import flow as FL

IN_FILES = ('common/lattice.cpp', 'common/lattice.hpp')
OUT, IN = 'Lattice::VertexEntry::outEdgesIndex', 'Lattice::VertexEntry::inEdgesIndex'
GRAPH = ('f', ('this',), 'Lattice::graph_')
VERTICES = ('f', ('this',), 'Lattice::vertices_')
MASKS = ('f', ('this',), 'Lattice::indexedTagMasks_')
HASH = 'Lattice::vvcHash_'
COUNTER = 'Lattice::edgeCounterHash_'
IMPLICIT = ('f', ('this',), 'Lattice::implicitOutEdges_')
TAGS = 'Lattice::EdgeEntry::tagList'
FIELDS = {OUT, IN, VERTICES[2], MASKS[2], HASH, COUNTER, IMPLICIT[2], TAGS}
FIRST, SECOND = 'std::pair::first', 'std::pair::second'
PURE = {'boost::source', 'boost::target', 'std::make_pair', 'std::map::find', 'std::map::begin', 'std::map::end', 'boost::out_edges', 'boost::in_edges'}


class Event:
    def __init__(self, kind, args, loops, conds, node, n, top):
        self.kind, self.args, self.loops, self.conds, self.node, self.n, self.top = kind, args, loops, conds, node, n, top

    def outer(self, upto=0):
        """conditions outside the loops"""
        return frozenset(c for c, d in self.conds if d <= upto)

    def inner(self, upto=0):
        return frozenset(c for c, d in self.conds if d > upto)


class Walk:
    """the effects of a function of the lattice on its indexes, in order, with the loops and conditions around them"""

    def __init__(self, env, f):
        self.env, self.P, self.root = env, env.P, f
        self.events, self.frames, self.loops = [], 0, 0
        self.undecided = None
        self.conds, self.loop = [], []
        fr = self.frame(f, {})
        self.fn(f, fr, ())

    def frame(self, f, m):
        self.frames += 1
        return {'id': self.frames, 'f': f, 'env': dict(m)}

    # -- terms
    def term(self, n, fr):
        return self.norm(canon(n), fr)

    def norm(self, e, fr):
        if not isinstance(e, tuple):
            return e
        if e[0] == 'v' and len(e) == 2:
            return fr['env'].get(e[1], ('v', (fr['id'], e[1])))
        if e == ('this',):
            return fr['env'].get('this', e)
        out = tuple(self.norm(x, fr) if isinstance(x, tuple) else x for x in e)
        return simple(out)

    # -- traversal
    def emit(self, kind, args, n, fr):
        self.events.append(Event(kind, args, tuple(self.loop), tuple(self.conds), n, len(self.events), fr['id'] == 1))

    def fn(self, f, fr, stack):
        self.stack = stack + (f.u,)
        self.stmt(f.body, fr)
        self.stack = stack

    def atoms(self, c, pol, fr):
        c = strip(c)
        if c is None:
            return []
        if c.k == 'ParenExpr':
            return self.atoms(c.c[0], pol, fr)
        if c.k == 'UnaryOperator' and c.get('op') == '!':
            return self.atoms(c.c[0], not pol, fr)
        if c.k == 'BinaryOperator' and (c.get('op') == '&&' and pol or c.get('op') == '||' and not pol):
            return self.atoms(c.c[0], pol, fr) + self.atoms(c.c[1], pol, fr)
        v = c.get('v') if c.k == 'DeclRefExpr' else None
        if v is not None and v not in fr['env']:
            ds = self.env.ctx.defs(fr['f']).get(v, ())          # a condition that has been given a name
            if len(ds) == 1 and ds[0] is not None and ds[0].t is not None and ds[0].t.k == 'bool':
                return self.atoms(ds[0], pol, fr)
        e = self.term(c, fr)
        if e[0] in ('op', 'bin') and e[1] == '!=':
            e, pol = (e[0], '==') + e[2:], not pol
        if e[0] in ('op', 'bin') and e[1] == '==':
            a, b = e[2], e[3]
            if repr(b) < repr(a):
                e = (e[0], '==', b, a)
        return [(e, pol)]

    def stmts(self, c, fr):
        added = 0
        for s in c:
            if s is None:
                continue
            self.stmt(s, fr)
            if s.k == 'IfStmt' and len(s.c) > 1 and leaves(s.c[1]) and not foreach_if(s):
                new = [(a, len(self.loop)) for a in self.atoms(s.c[0], False, fr)]
                self.conds += new
                added += len(new)
        if added:
            del self.conds[-added:]

    def under(self, atoms, s, fr):
        if s is None:
            return
        self.conds += [(a, len(self.loop)) for a in atoms]
        self.stmt(s, fr)
        if atoms:
            del self.conds[-len(atoms):]

    def stmt(self, s, fr):
        if s is None:
            return
        k = s.k
        if k == 'CompoundStmt':
            self.stmts(s.c, fr)
        elif k == 'IfStmt':
            if foreach_if(s):
                self.stmt(s.c[2] if len(s.c) > 2 else None, fr)
                return
            self.exprs(s.c[0], fr)
            self.under(self.atoms(s.c[0], True, fr), s.c[1], fr)
            if len(s.c) > 2:
                self.under(self.atoms(s.c[0], False, fr), s.c[2], fr)
        elif k == 'DeclStmt':
            for i, x in enumerate(s.get('decls', ())):
                init = s.c[i] if i < len(s.c) else None
                self.exprs(init, fr)
                if x.get('v') is None or init is None:
                    continue
                self.declare(x['v'], x.get('t'), init, fr)
        elif k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt'):
            self.any_loop(s, fr)
        elif k == 'CXXTryStmt':
            self.stmt(s.c[0], fr)
            for h in s.c[1:]:
                if h is not None:
                    self.under([(('handler', h.id), True)], h.c[-1] if h.c else None, fr)
        elif k == 'ReturnStmt':
            self.exprs(s.c[0] if s.c else None, fr)
            if fr['id'] == 1:
                self.emit('exit', ('return',), s, fr)
        elif k in ('BreakStmt',):
            self.emit('break', (), s, fr)
        elif k in ('SwitchStmt',):
            for c in s.c:
                self.under([(('switch', s.id), True)], c, fr)
        elif k in ('CaseStmt', 'DefaultStmt', 'LabelStmt', 'AttributedStmt'):
            for c in s.c:
                self.stmt(c, fr)
        else:
            self.exprs(s, fr)

    def declare(self, v, t, init, fr):
        e = self.term(init, fr)
        fr.setdefault('init', {})[v] = e
        single = len(self.env.ctx.defs(fr['f']).get(v, ())) <= 1
        if single and pure(e) and (t is None or t.k in ('ref', 'ptr', 'int') or e[0] in ('el', 'src', 'trg', 'v') or iterator_like(t)
                                  or e[0] == 'f' and e[2] == FIRST and 'dge' in repr(t)):
            fr['env'][v] = e
        else:
            self.emit('assign', (('v', (fr['id'], v)), e), init, fr)

    def any_loop(self, s, fr):
        col = var = body = pre = None
        itv = None
        if s.k == 'ForStmt':
            d = s.c[0]
            if d is not None and d.k == 'DeclStmt' and any(str(x['n']).startswith('_foreach_continue') for x in d.get('decls', ())):
                inner = None
                for x in s.walk():
                    if x.k == 'CallExpr' and (x.fn or '').endswith('foreach_detail_::encode_type') and col is None:
                        col = x.c[1]
                    if x.k == 'ForStmt' and x is not s and inner is None:
                        inner = x
                if col is not None and inner is not None and inner.c[0] is not None and inner.c[0].k == 'DeclStmt':
                    var, body = inner.c[0].get('decls')[0]['v'], inner.c[3]
                    return self.loop_over(self.term(col, fr), var, 'el', body, fr, s)
                self.undecided = s
                return
            self.stmt(s.c[0], fr)
            c, inc, body = s.c[1], s.c[2], s.c[3]
        elif s.k == 'WhileStmt':
            c, body = s.c[0], s.c[-1]
        elif s.k == 'CXXForRangeStmt':
            rng = var = None
            for d in s.walk():
                if d.k == 'DeclStmt':
                    for i, x in enumerate(d.get('decls', ())):
                        if str(x['n']).startswith('__range'):
                            rng = rng or (d.c[i] if i < len(d.c) else None)
                        elif not str(x['n']).startswith('__') and var is None:
                            var = x['v']
            if rng is None or var is None:
                self.undecided = s
                return
            return self.loop_over(self.term(rng, fr), var, 'el', s.c[-1], fr, s)
        else:
            c, body = None, s.c[0]
        # iterators and counters
        x = strip(c) if c is not None else None
        if x is not None and x.k in ('CXXOperatorCallExpr', 'BinaryOperator'):
            ops = x.c[1:] if x.k == 'CXXOperatorCallExpr' else x.c
            if x.get('op') in ('!=', '<', '>') and len(ops) == 2:
                for a, b in ((ops[0], ops[1]), (ops[1], ops[0])):
                    ca = canon(a)
                    if ca[0] == 'v':
                        itv = ca[1]
                        e = fr.get('init', {}).get(itv) or fr['env'].get(itv)
                        if e is None or len(ca) != 2:
                            continue
                        if e[0] == 'call' and e[1].rsplit('::', 1)[-1] in ('begin', 'cbegin') and len(e) == 3:
                            return self.loop_over(e[2], itv, 'it', body, fr, s)
                        if e[0] == 'f' and e[2] == FIRST and e[1][0] == 'call' and e[1][1] in ('boost::out_edges', 'boost::in_edges', 'boost::vertices'):
                            return self.loop_over(e[1], itv, 'it', body, fr, s)
                        if e == ('c', 0):
                            eb = self.term(b, fr)
                            if eb[0] == 'call' and eb[1].rsplit('::', 1)[-1] == 'size' and len(eb) == 3:
                                return self.loop_over(eb[2], itv, 'ix', body, fr, s)
        self.exprs(c, fr)
        self.loop_over(('?', s.id), None, 'el', body, fr, s)

    def loop_over(self, col, var, how, body, fr, s):
        self.loops += 1
        l = self.loops
        old = fr['env'].get(var)
        if var is not None:
            fr['env'][var] = (how, col, l)
        self.loop.append((l, col))
        self.stmt(body, fr)
        self.loop.pop()
        if var is not None:
            if old is None:
                fr['env'].pop(var, None)
            else:
                fr['env'][var] = old

    def inlined(self, n):
        ts = [g for g in self.P.targets(n)] if n.fn else []
        if len(ts) != 1:
            return None
        g = ts[0]
        if not g.cfg or g.body is None or g.u in self.stack or len(self.stack) > 4 or not g.file.startswith(IN_FILES):
            return None
        if g.ctor or asked(g):
            return None
        if not any(x.k == 'MemberExpr' and x.get('mf') in FIELDS or (x.fn or '').startswith('boost::add_') for x in g.walk()) \
                and not any('list<' in repr(t) or 'VertexEntry' in repr(t) for _, _, t in g.params):
            return None
        return g

    def exprs(self, n, fr):
        """effects of evaluating an expression"""
        if n is None:
            return
        if n.k in ('LambdaExpr',):
            return
        if n.k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
            self.exprs(n.c[0], fr)
            self.conds += [(a, len(self.loop)) for a in self.atoms(n.c[0], n.get('op') == '&&', fr)] or [((('?', n.id), True), len(self.loop))]
            m = len(self.atoms(n.c[0], n.get('op') == '&&', fr)) or 1
            self.exprs(n.c[1], fr)
            del self.conds[-m:]
            return
        for c in n.c:
            if c is not None:
                self.exprs(c, fr)
        if n.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            g = self.inlined(n)
            if g is not None:
                sub = {}
                for (v, nm, t), a in zip(g.params, args_of(n)):
                    if a is not None:
                        sub[v] = self.term(a, fr)
                m = strip(n.c[0]) if n.k == 'CXXMemberCallExpr' else None
                if m is not None and m.k == 'MemberExpr' and m.c:
                    b = canon(m.c[0])
                    if m.get('arrow') and b != ('this',):
                        b = FL.deref(b)
                    b = self.norm(b, fr)
                    if b != ('this',):
                        sub['this'] = b
                self.fn(g, self.frame(g, sub), self.stack)
                return
        if n.k == 'CXXThrowExpr':
            self.emit('exit', ('throw',), n, fr)
        elif n.k == 'BinaryOperator' and n.get('op') == '=' or n.k == 'CXXOperatorCallExpr' and n.get('op') == '=':
            a = n.c[-2:] if n.k == 'BinaryOperator' else n.c[1:3]
            l = self.term(a[0], fr)
            self.emit('assign', (l, self.term(a[1], fr)), n, fr)
            if canon(a[0])[0] == 'v':
                fr.setdefault('init', {})[canon(a[0])[1]] = self.term(a[1], fr)
            if l[0] == 'call' and l[1] == 'boost::tuples::tie' or l[0] == 'call' and l[1].endswith('::tie') and len(l) == 4:
                pass
        elif n.k == 'UnaryOperator' and n.get('op') in ('++', 'p++'):
            self.emit('inc', (self.term(n.c[0], fr),), n, fr)
        elif n.k == 'UnaryOperator' and n.get('op') in ('--', 'p--'):
            self.emit('dec', (self.term(n.c[0], fr),), n, fr)
        elif n.k == 'CompoundAssignOperator':
            self.emit('inc' if n.get('op') == '+=' else 'dec', (self.term(n.c[0], fr),), n, fr)
        elif n.k in ('CXXMemberCallExpr', 'CallExpr') and n.fn:
            e = self.term(n, fr)
            if e[0] == 'call':
                self.emit('call', e[1:], n, fr)


def asked(g):
    """part of what users of the lattice call"""
    return g.cls == 'Lattice' and g.acc == 'pub' and not g.q.endswith('_')


def args_of(n):
    return n.c[1:]


def foreach_if(s):
    return s.c[0] is not None and any(x.k == 'DeclRefExpr' and str(x.get('n') or '').startswith('_foreach_') for x in s.c[0].walk())


def leaves(s):
    if s is None:
        return False
    if s.k == 'CompoundStmt':
        c = [x for x in s.c if x is not None]
        return bool(c) and leaves(c[-1])
    if s.k == 'ExprWithCleanups':
        return leaves(s.c[0])
    return s.k in ('ContinueStmt', 'ReturnStmt', 'CXXThrowExpr', 'BreakStmt')


def iterator_like(t):
    q = repr(t)
    return 'iterator' in q


def pure(e):
    if not isinstance(e, tuple) or not e:
        return True
    if e[0] == 'call':
        last = e[1].rsplit('::', 1)[-1]
        if not (e[1] in PURE or last in ('size', 'back', 'front', 'at') and len(e) <= 4):
            return False
    if e[0] in ('new', 'dyn', '?', 'ctor'):
        return False
    return all(pure(x) for x in e if isinstance(x, tuple))


WRAPPERS = ('EdgeDescriptorWrapperToFoolBoost146OrGnu461', 'EdgeDescriptor', 'edge_desc_impl', 'pair', 'LayerTagCollection', 'LayerTagMask', 'list_iterator')


def simple(e):
    if e[0] == 'ctor' and len(e) == 3 and isinstance(e[1], str) and e[1].rsplit('::', 1)[-1] in WRAPPERS:
        return e[2]
    if e[0] == 'ctor' and len(e) == 4 and e[1].endswith('::pair'):
        return ('pair', e[2], e[3])
    if e[0] == 'call' and e[1] == 'std::make_pair' and len(e) == 4:
        return ('pair', e[2], e[3])
    if e[0] == 'call' and e[1] == 'boost::source':
        return ('src', e[2])
    if e[0] == 'call' and e[1] == 'boost::target':
        return ('trg', e[2])
    if e[0] == 'call' and e[1].rsplit('::', 1)[-1] == 'at' and len(e) == 4:
        return ('[]', e[2], e[3])
    if e[0] == '*' and len(e) == 2 and isinstance(e[1], tuple):
        if e[1][0] == 'it':
            return ('el',) + e[1][1:]
        if e[1][0] == '&':
            return e[1][1]
        if e[1][0] == 'el':                # what the arrow of an iterator leads to
            return e[1]
    if e[0] == 'f' and len(e) == 3 and isinstance(e[1], tuple) and e[1][0] == 'pair' and e[2] in (FIRST, SECOND):
        return e[1][1] if e[2] == FIRST else e[1][2]
    if e[0] == 'f' and e[2].endswith('EdgeDescriptor::descriptor') and e[1][0] in ('v', 'el'):
        return e
    return e


# ------------------------------------------------------------------ what the indexes promise
def entry(v, side):
    return ('f', ('[]', GRAPH, v), side)


def list_push(ev):
    """(receiver, value) of an insertion into a list or vector"""
    if ev.kind == 'call' and ev.args[0].rsplit('::', 1)[-1] in ('push_back', 'push_front', 'emplace_back', 'insert', 'emplace_front') and len(ev.args) >= 2:
        if ev.args[0].startswith(('std::vector', 'std::list', 'std::deque', 'std::__cxx11::list')):
            return ev.args[1], ev.args[-1] if len(ev.args) > 2 else None
    return None


def side_of(r):
    """(side, vertex, slot) of a receiver graph_[v].outEdgesIndex[slot] (slot None: the vector itself)"""
    slot = None
    if r[0] == '[]' and len(r) == 3 and r[1][0] == 'f' and r[1][2] in (OUT, IN):
        slot, r = r[2], r[1]
    elif r[0] == 'call' and r[1].rsplit('::', 1)[-1] == 'back' and len(r) == 3 and r[2][0] == 'f' and r[2][2] in (OUT, IN):
        slot, r = ('back',), r[2]
    if r[0] == 'f' and r[2] in (OUT, IN) and r[1][0] == '[]' and r[1][1] == GRAPH:
        return r[2], r[1][2], slot
    return None


def is_empty_list(e):
    return e is None or e[0] == 'ctor' and len(e) == 2


NAMES = {OUT: 'list of outgoing edges', IN: 'list of incoming edges'}


class Check:
    def __init__(self, env, f):
        self.env, self.f = env, f
        self.w = Walk(env, f)
        self.ev = self.w.events
        self.pushes = []
        for e in self.ev:
            p = list_push(e)
            s = side_of(p[0]) if p else None
            if s:
                self.pushes.append((e, s, p[1]))
        self.used = set()
        self.faults = []          # (node, message)
        self.done = []

    def fault(self, node, msg, key):
        self.faults.append((node, msg, key))

    # -- every exit between an operation and its effect happens only when the operation failed
    def blocked(self, op, ev, allowed):
        for x in self.ev[op.n + 1:ev.n]:
            if x.kind == 'exit' and not x.loops[len(op.loops):]:
                extra = {c for c, d in x.conds} - {c for c, d in op.conds}
                if not any((c, not p) in extra for c, p in allowed):
                    if not extra & contradiction(ev, op):
                        return True
            if x.kind == 'break' and x.loops and x.loops == ev.loops[:len(x.loops)]:
                return True
        return False

    def reach(self, op, ev, depth, allowed):
        """nothing but the success of the operation decides whether the effect happens"""
        d = len(ev.loops) - depth
        if d < 0 or ev.n < op.n:
            return False
        out = {c for c, k in ev.conds if k <= d} - {c for c, k in op.conds}
        return out <= set(allowed)

    def vertex_ops(self):
        for op in self.ev:
            if op.kind != 'assign' or op.args[1][0] != 'call' or op.args[1][1] != 'boost::add_vertex':
                continue
            v = op.args[0]
            ent = op.args[1][2]
            key = ent[2] if ent[0] == 'ctor' and len(ent) == 3 else None
            regs = [e for e in self.ev[op.n:] if self.registers(e, v, key) and self.reach(op, e, 0, ())]
            self.say(op, 'vertex:map', bool(regs) and not self.blocked(op, regs[0], ()),
                     'a vertex is added to the graph and not entered into vertices_ under its own number')
            for side in (OUT, IN):
                good = False
                for e, s, val in self.pushes:
                    if s == (side, v, None) and self.empty(val) and len(e.loops) == len(op.loops) + 1 and e.loops[-1][1] == MASKS \
                            and self.reach(op, e, 1, ()) and not inner(e) and not self.blocked(op, e, ()):
                        good = True
                        self.used.add(e.n)
                for e in self.ev[op.n:]:
                    if e.kind == 'call' and e.args[0].endswith('::resize') and len(e.args) >= 3 and side_of(e.args[1]) == (side, v, None) \
                            and e.args[2] == ('call', 'std::tr1::_Hashtable::size', MASKS) and self.reach(op, e, 0, ()):
                        good = True
                    if e.kind == 'call' and e.args[0].endswith('::resize') and len(e.args) >= 3 and side_of(e.args[1]) == (side, v, None) \
                            and e.args[2][0] == 'call' and e.args[2][1].endswith('::size') and e.args[2][2] == MASKS and self.reach(op, e, 0, ()):
                        good = True
                self.say(op, 'vertex:' + side.rsplit('::', 1)[-1], good, 'a vertex is added without a %s for every mask in use' % NAMES[side])

    def empty(self, val):
        if is_empty_list(val):
            return True
        if val[0] != 'v':
            return False
        return not any(x.kind == 'call' and len(x.args) > 1 and x.args[1] == val for x in self.ev) and \
            all(is_empty_list(x.args[1]) for x in self.ev if x.kind == 'assign' and x.args[0] == val)

    def registers(self, e, v, key):
        if e.kind == 'assign' and e.args[0][0] == '[]' and e.args[0][1] == VERTICES:
            return e.args[1] == v and (key is None or e.args[0][2] == key)
        if e.kind == 'call' and e.args[0].rsplit('::', 1)[-1] in ('insert', 'emplace') and len(e.args) > 2 and e.args[1] == VERTICES:
            p = e.args[2]
            return p[0] == 'pair' and p[2] == v and (key is None or p[1] == key)
        return False

    def indexed(self, op, side, ends, edge, want, allowed, slots=None):
        """an insertion of the edge under every mask of the index that fulfils exactly the wanted conditions"""
        for e, s, val in self.pushes:
            if e.n < op.n or s[0] != side or s[1] not in ends or val != edge or s[2] is None or len(e.loops) != len(op.loops) + 1:
                continue
            l, col = e.loops[-1]
            if col != MASKS or s[2] != ('f', ('el', MASKS, l), SECOND):
                continue
            if not self.reach(op, e, 1, allowed) or self.blocked(op, e, allowed) or self.cut(e, len(op.loops)):
                continue
            if want(inner(e), ('f', ('el', MASKS, l), FIRST)):
                self.used.add(e.n)
                return True
        return False

    def edge_ops(self):
        for op in self.ev:
            if op.kind != 'assign' or op.args[1][0] != 'call' or op.args[1][1] != 'boost::add_edge':
                continue
            r, call = op.args
            a, b, ent = call[2:5]
            edge = ('f', r, FIRST)
            ok = (('f', r, SECOND), True)
            tags = ent[3] if ent[0] == 'ctor' and len(ent) > 3 else None
            own = ('f', ('[]', GRAPH, edge), TAGS)

            def want(cs, mask):
                return cs in ({(('call', 'matches', t, mask), True)} for t in (tags, own))
            for side, ends in ((OUT, (a, ('src', edge))), (IN, (b, ('trg', edge)))):
                self.say(op, 'edge:' + side.rsplit('::', 1)[-1], self.indexed(op, side, ends, edge, want, [ok]),
                         'an edge is added to the graph and not entered into the %s of every mask its tags match' % NAMES[side])
            self.remembered(op, edge, [ok])
            self.counted(op)

    def remembered(self, op, edge, allowed):
        good = False
        for e in self.ev[op.n:]:
            p = list_push(e)
            if p and p[1] == edge and self.in_hash(p[0]) and self.reach(op, e, 0, allowed) and not self.blocked(op, e, allowed):
                good = True
        self.say(op, 'edge:known', good, 'an edge is added and not entered among the edges an equal one is compared with')

    def in_hash(self, r):
        """the list of the edges equal to the one being added"""
        return HASH in fields_of(r) or any(
            e.kind == 'assign' and e.args[0] == x and HASH in fields_of(e.args[1]) for x in parts(r) for e in self.ev if x[0] == 'v')

    def counted(self, op):
        good = False
        for e in self.ev:
            if e.kind not in ('inc', 'assign') or e.loops or not self.counter(e.args[0]) or e.args[0][0] == 'v' and e.kind == 'assign' and HASH_REF(e):
                continue
            mine = {c for c, _ in e.conds if self.counter(c[0])}
            if not {c for c, _ in e.conds} - mine <= {c for c, _ in op.conds}:
                continue
            if e.kind == 'inc' or e.args[1][0] == 'bin' and e.args[1][1] == '+':
                good = True
            elif e.args[1][0] == 'c' and not any(not p and c == e.args[0] or p and c[:2] == ('bin', '==') for c, p in mine):
                self.say(op, 'edge:count', False, 'the number of edges between two vertices is set to a constant')
        self.say(op, 'edge:count', good, 'an edge is added without being counted')

    def counter(self, e):
        return COUNTER in fields_of(e) or any(
            x.kind == 'assign' and x.args[0] == y and COUNTER in fields_of(x.args[1]) for y in parts(e) if y[0] == 'v' for x in self.ev)

    def implicit_ops(self):
        for op in self.ev:
            if op.kind == 'call' and op.args[0].endswith('dynamic_bitset::set') and len(op.args) >= 3 and op.args[1] == IMPLICIT:
                on = op.args[3] if len(op.args) > 3 else ('c', 1)
                at = op.args[2]
            elif op.kind == 'assign' and op.args[0][0] == '[]' and op.args[0][1] == IMPLICIT:
                on, at = op.args[1], op.args[0][2]
            elif op.kind == 'call' and op.args[0].endswith('dynamic_bitset::reset') and len(op.args) >= 3 and op.args[1] == IMPLICIT:
                on, at = ('c', 0), op.args[2]
            else:
                continue
            if on in (('c', 1), ('c', True)):
                self.remembered(op, at, [])
                self.counted(op)
            elif on in (('c', 0), ('c', False)):
                gone = any(e.kind == 'call' and e.args[0].rsplit('::', 1)[-1] in ('erase', 'pop_back', 'clear', 'remove') and self.in_hash(e.args[1])
                           and {c for c, _ in e.conds} <= {c for c, _ in op.conds} or
                           e.kind == 'assign' and self.in_hash(e.args[0]) and {c for c, _ in e.conds} <= {c for c, _ in op.conds}
                           for e in self.ev if e.kind in ('call', 'assign') and len(e.args) > 1)
                self.say(op, 'implicit:gone', gone, 'an implicit edge is taken out of the lattice and stays among the edges a new one is compared with')

    def tag_ops(self):
        for op in self.ev:
            if op.kind != 'assign' or op.args[0][0] != 'f' or op.args[0][2] != TAGS:
                continue
            own, new = op.args
            edge = own[1][2] if own[1][0] == '[]' and own[1][1] == GRAPH else None
            if edge is None:
                continue

            def want(cs, mask):
                if len(cs) != 2:
                    return False
                pos = [c for c in cs if c[1]]
                neg = [c for c in cs if not c[1]]
                return len(pos) == 1 and pos[0][0] in (('call', 'matches', new, mask), ('call', 'matches', own, mask)) and len(neg) == 1 \
                    and neg[0][0][:2] == ('call', 'matches') and neg[0][0][3] == mask and self.old_tags(neg[0][0][2], op, edge, new)
            for side, end in ((OUT, 'src'), (IN, 'trg')):
                self.say(op, 'tags:' + side.rsplit('::', 1)[-1], self.indexed(op, side, ((end, edge),), edge, want, []),
                         'an edge gets other tags and is not entered into the %s of the masks it now matches' % NAMES[side])

    def old_tags(self, t, op, edge, new):
        if t == new:
            return False
        for e in self.ev[:op.n]:
            if e.kind == 'assign' and e.args[0] == t:
                r = e.args[1]
                if r[0] == 'call' and r[1].endswith('getEdgeLayerTags') or r[0] == 'f' and r[2] == TAGS:
                    return True
        return False

    def same_ops(self):
        """which edges are taken for equal"""
        for e in self.ev:
            if e.kind != 'assign' or not e.loops or not self.in_hash(e.loops[-1][1]):
                continue
            l, col = e.loops[-1]
            el = ('el', col, l)
            cs = inner(e)
            if not cs or e.args[0][0] != 'v' or el in parts(e.args[1]) and not cs:
                continue
            good = len(cs) == 1 and all(p and c[0] == 'call' and c[1].endswith('areInTheSamePlane') and any(el in parts(x) for x in c[2:]) for c, p in cs)
            if good or any(el in parts(c) or 'agManager' in repr(c) for c, p in cs):
                self.say(e, 'equal:plane', good, 'edges of the same vertices and annotation are compared by something else than their plane')
        for n in self.f.walk():
            if n.k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') and self.f.q == 'Lattice::addEdge' and any(
                    x is not None and x.k == 'MemberExpr' and x.get('mf') == HASH for x in ([strip(n.c[0])] + list(n.c[1:2]) + list(n.c[0].walk() if n.c[0] is not None else ()))):
                if (n.fn or '').rsplit('::', 1)[-1] not in ('insert', 'find', 'operator[]', 'emplace'):
                    continue
                seen, todo = set(), [x for c in n.c[1:] if c is not None for x in c.walk()]
                while todo:
                    x = todo.pop()
                    v = x.get('v') if x.k == 'DeclRefExpr' else None
                    if v is None or v in seen:
                        continue
                    seen.add(v)
                    for d in self.env.ctx.defs(self.f).get(v, ()):
                        if d is not None:
                            todo += list(d.walk())
                need = [v for v, nm, t in self.f.params[:3]]
                e = Event('call', (), (), (), n, 0, True)
                self.say(e, 'equal:key', all(v in seen for v in need) or not seen & set(need),
                         'edges are looked up without one of their source, target and annotation')

    def partition_ops(self):
        """an edge has the tags of its partitions"""
        for e in self.ev:
            p = list_push(e)
            if not p or p[0][0] != 'f' or not p[0][2].endswith('EdgeEntry::partitions') or p[0][1][0] != '[]' or p[0][1][1] != GRAPH:
                continue
            own = ('f', p[0][1], TAGS)
            sets = [x for x in self.ev if x.kind == 'assign' and x.args[0] == own]
            good = False
            for x in sets:
                extra = {c for c, _ in x.conds} - {c for c, _ in e.conds}
                if all(c[0] in ('op', 'bin', 'call') and x.args[1] in parts(c) for c, pol in extra):
                    good = True
            self.say(e, 'partition:tags', good, 'an edge gets a partition and not always its tags')

    def mask_ops(self):
        for op in self.ev:
            if op.kind == 'call' and op.args[0].rsplit('::', 1)[-1] in ('insert', 'emplace') and len(op.args) > 2 and op.args[1] == MASKS \
                    and op.args[2][0] == 'pair':
                mask, ix = op.args[2][1:]
            elif op.kind == 'assign' and op.args[0][0] == '[]' and op.args[0][1] == MASKS:
                mask, ix = op.args[0][2], op.args[1]
            else:
                continue
            size = ix[0] == 'call' and ix[1].endswith('::size') and ix[2] == MASKS or any(
                e.kind == 'assign' and e.args[0] == ix and e.args[1][0] == 'call' and e.args[1][1].endswith('::size') and e.args[1][2] == MASKS
                for e in self.ev[:op.n])
            self.say(op, 'mask:number', size, 'a mask gets a number that is not the next free place of the lists')
            base = {c for c, _ in op.conds}
            for side, edges in ((OUT, 'boost::out_edges'), (IN, 'boost::in_edges')):
                grow = fill = False
                for e, s, val in self.pushes:
                    if s[0] != side or len(e.loops) < 1 or e.loops[0][1] not in (VERTICES, ('call', 'boost::vertices', GRAPH)):
                        continue
                    l, col = e.loops[0]
                    el = ('el', col, l)
                    v = ('f', el, SECOND) if col == VERTICES else el
                    if s[1] != v or {c for c, k in e.conds if k == 0} - base or self.cut(e):
                        continue
                    if s[2] is None and len(e.loops) == 1 and not inner(e):
                        grow = True
                        self.used.add(e.n)
                        if val is not None and val[0] == 'v':         # a list filled before
                            for x in self.ev:
                                p = list_push(x)
                                if p and p[0] == val and self.fills(x, 1, edges, v, p[1], mask) and x.loops[:1] == e.loops:
                                    fill = True
                    elif s[2] in (ix, ('back',)) and self.fills(e, 1, edges, v, val, mask):
                        fill = True
                        self.used.add(e.n)
                self.say(op, 'mask:grow:' + side.rsplit('::', 1)[-1], grow, 'a mask comes into use and not every vertex gets a %s for it' % NAMES[side])
                self.say(op, 'mask:fill:' + side.rsplit('::', 1)[-1], fill,
                         'a mask comes into use and the edges in the lattice that match it are not entered into its %s' % NAMES[side])

    def fills(self, e, depth, edges, v, val, mask):
        if len(e.loops) != depth + 1:
            return False
        l, col = e.loops[-1]
        if col[:3] != ('call', edges, v) or val != ('el', col, l) or self.cut(e):
            return False
        cs = frozenset(c for c, k in e.conds if k > 0)
        return cs == {(('call', 'matches', ('f', ('[]', GRAPH, val), TAGS), mask), True)}

    def cut(self, e, depth=0):
        """the loops around the effect may end early"""
        for x in self.ev:
            if x.kind in ('break', 'exit') and len(x.loops) > depth and x.loops == e.loops[:len(x.loops)]:
                return True
        return False

    def say(self, op, key, good, msg):
        self.done.append((op, key, good, msg))

    def run(self):
        self.vertex_ops()
        self.edge_ops()
        self.implicit_ops()
        self.tag_ops()
        self.same_ops()
        self.partition_ops()
        self.mask_ops()
        return self


def HASH_REF(e):
    """the binding of a name to the counter"""
    return COUNTER in fields_of(e.args[1])


def inner(e):
    d = len(e.loops)
    return frozenset(c for c, k in e.conds if k >= d and d > 0)


def contradiction(ev, op):
    """conditions that cannot hold where the effect happens"""
    return {(c, not p) for (c, p), d in ev.conds}


def fields_of(e):
    out = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and x[0] == 'f' and len(x) == 3:
                out.add(x[2])
            todo += [y for y in x if isinstance(y, tuple)]
    return out


def parts(e):
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x:
            out.append(x)
            todo += [y for y in x if isinstance(y, tuple)]
    return out


def c35(env):
    P = env.P
    checks = []
    for f in P.funcs.values():
        if not f.cfg or f.body is None or not f.file.startswith(IN_FILES) or f.ctor:
            continue
        if not any(x.k == 'MemberExpr' and x.get('mf') in FIELDS or (x.fn or '') in ('boost::add_edge', 'boost::add_vertex') for x in f.walk()):
            continue
        c = Check(env, f).run()
        checks.append(c)
        env.count('functions')
    whole = {}          # node -> verdicts of all the functions it was seen from
    pushed = {}
    for c in checks:
        for op, key, good, msg in c.done:
            whole.setdefault((op.node.id, op.node.loc(), key), []).append((c, op, good, msg))
        for e, s, val in c.pushes:
            pushed.setdefault((e.node.id, e.node.loc()), []).append((c, e, e.n in c.used, s))
    for (i, loc, key), vs in sorted(whole.items(), key=lambda x: (x[0][1], x[0][2])):
        env.count('obligations')
        if any(g for c, op, g, m in vs if op.top) or vs and all(g for c, op, g, m in vs if not op.top) and any(not op.top for c, op, g, m in vs):
            env.ok('%s: %s' % (loc, key), )
        else:
            c, op, g, msg = [v for v in vs if not v[2]][0]
            env.bad('index:%s:%s' % (c.f.q, key), loc, '%s: %s' % (c.f.q, msg))
    for (i, loc), vs in sorted(pushed.items(), key=lambda x: x[0][1]):
        env.count('insertions')
        if any(u for c, e, u, s in vs):
            env.ok('%s: insertion accounted for' % loc)
        else:
            c, e, u, s = vs[0]
            env.bad('index:extra:' + c.f.q, loc, '%s puts an edge into a %s under other conditions than those the lists are kept by' % (c.f.q, NAMES[s[0]]))
    queries(env)
    env.floor('obligations', 8)


# ------------------------------------------------------------------ the questions about the edges of a vertex
ASK = {'Lattice::outEdges': (OUT, True), 'Lattice::inEdges': (IN, True), 'Lattice::allOutEdges': (OUT, False), 'Lattice::allInEdges': (IN, False)}
SIDE_OF = {OUT: OUT, IN: IN, 'boost::out_edges': OUT, 'boost::in_edges': IN, 'Lattice::allOutEdges': OUT, 'Lattice::allInEdges': IN,
           'Lattice::outEdges': OUT, 'Lattice::inEdges': IN}
ITER = 'Lattice::InOutEdgesIterator::InOutEdgesIterator'
NUMBER = 'Lattice::addTagMaskIndex_'
IMPLIED = 'LayerTagManager::canBeAppliedToImplicitSymbol'


def names_in(e):
    """functions and fields a term mentions"""
    out = set()
    for x in parts(e):
        if x[0] in ('call', 'f', 'g', 'ctor'):
            out |= {y for y in x[1:3] if isinstance(y, str)}
    return out


class Depends:
    """the functions and fields the value of an expression depends on"""

    def __init__(self, env, f):
        self.env, self.f, self.seen, self.names = env, f, set(), set()

    def helper(self, n):
        for g in self.env.P.targets(n) if n.fn else ():
            if g.file.startswith(IN_FILES) and g.body is not None and not g.ctor and g.u not in self.seen and g.q not in ASK \
                    and not asked(g):
                self.seen.add(g.u)
                for x in g.walk():
                    self.name(x)

    def name(self, x):
        if x.fn:
            self.names.add(x.fn)
        if x.k == 'MemberExpr' and x.get('mf'):
            self.names.add(x.get('mf'))
        if x.fn:
            self.helper(x)

    def of(self, n):
        if n is None:
            return self
        for x in n.walk():
            self.name(x)
            v = x.get('v') if x.k == 'DeclRefExpr' else None
            if v is None or ('v', v) in self.seen:
                continue
            self.seen.add(('v', v))
            for d in self.env.ctx.defs(self.f).get(v, ()):
                d = d[0] if isinstance(d, tuple) else d
                if d is None or not hasattr(d, 'walk'):
                    continue
                self.of(d)
                a = d
                while a is not None:
                    p = a.parent
                    if p is not None and p.k == 'IfStmt' and p.c[0] is not a:
                        self.of(p.c[0])
                    a = p
        return self


def made(r):
    """the construction of the iterator a return statement gives back"""
    best = None
    for x in r.walk():
        if x.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and x.fn == ITER:
            a = [c for c in x.c if c is not None]
            if a and 'InOutEdgesIterator' in repr(a[0].t) and len(a) == 1:
                continue
            best = best or x
    return best


def queries(env):
    P, ctx = env.P, env.ctx
    for q, (side, masked) in sorted(ASK.items()):
        for f in P.byname(q):
            if f.body is None or not f.cfg:
                continue
            where = '%s:%d' % (f.file, f.line)
            env.count('questions')
            bad = False
            for x in f.walk():
                for nm in (x.get('mf') if x.k == 'MemberExpr' else None, x.fn if x.k in ('CallExpr', 'CXXMemberCallExpr') else None):
                    if nm in SIDE_OF and SIDE_OF[nm] != side:
                        env.bad('ask:%s:side' % q, x.loc(), '%s looks at %s' % (q, nm))
                        bad = True
            w = Walk(env, f)
            for e in w.events:
                if e.kind != 'exit' or e.args != ('return',):
                    continue
                r = e.node
                conds = set()
                for (c, p), d in e.conds:
                    conds |= names_in(c)
                loose = any('Lattice::isLooseVertex' in names_in(c) and p or c[0] == 'bin' and c[1] == '<' and c[3] == ('c', 0) and p
                            for (c, p), d in e.conds)
                m = made(r)
                if m is None:
                    for x in r.walk():
                        if masked and x.fn in ('Lattice::allOutEdges', 'Lattice::allInEdges') and 'LayerTagMask::isAny' not in conds \
                                and not any(y.fn == 'LayerTagMask::isAny' for y in r.walk()):
                            env.bad('ask:%s:any' % q, x.loc(), '%s gives edges that do not match the mask' % q)
                            bad = True
                    continue
                a = list(m.c)
                env.count('answers')
                # the explicit edges
                recv = []
                for x in a[:2]:
                    for y in x.walk() if x is not None else ():
                        if y.k == 'CXXMemberCallExpr' and (y.fn or '').rsplit('::', 1)[-1] in ('begin', 'end', 'cbegin', 'cend'):
                            recv.append(w.term(y, {'id': 1, 'f': f, 'env': {}})[2])
                            break
                if len(recv) == 2 and all(side_of(x) for x in recv):
                    if recv[0] != recv[1]:
                        env.bad('ask:%s:range' % q, m.loc(), '%s: the edges begin in one list and end in another' % q)
                        bad = True
                for x in recv:
                    s = side_of(x)
                    if s and s[2] is not None and not numbered(env, f, s[2]):
                        env.bad('ask:%s:slot' % q, m.loc(), '%s looks at a list of another mask' % q)
                        bad = True
                # the implicit edge
                last = a[-1] if a else None
                explicit = len([x for x in a if x is not None]) > 1 or last is None or last.t is not None and last.t.k != 'int'
                if loose:
                    continue
                need = {'Lattice::implicitOutEdges_'} | ({IMPLIED} if masked else set()) | ({'Lattice::priorVertex_'} if side == IN else set())
                have = set(conds)
                if last is not None and last.t is not None and last.t.k == 'int':
                    have |= Depends(env, f).of(last).names
                for nm in sorted(need - have):
                    if nm == 'Lattice::priorVertex_' and have & {'Lattice::getSymbolLength', 'Lattice::symbolLength_', 'utf8::prior'}:
                        continue
                    env.bad('ask:%s:implicit' % q, m.loc(), '%s: whether the implicit edge is given does not depend on %s' % (q, nm))
                    bad = True
                if not explicit and 'Lattice::vertices_' not in conds:
                    dep = Depends(env, f)
                    for (c, p), d in e.conds:
                        pass
                    up = r
                    while up is not None:
                        if up.k == 'IfStmt':
                            dep.of(up.c[0])
                        up = up.parent
                    if 'Lattice::vertices_' not in dep.names:
                        env.bad('ask:%s:explicit' % q, m.loc(), '%s gives only the implicit edge of a vertex that may have others' % q)
                        bad = True
            if not bad:
                env.ok('%s: %s' % (where, q))


def numbered(env, f, ix):
    if ix[0] == 'call':
        return ix[1] == NUMBER or ix[1].startswith('Lattice::')
    if ix[0] == 'c':
        return False
    if ix[0] == 'v':
        v = ix[1][1] if isinstance(ix[1], tuple) else ix[1]
        ds = env.ctx.defs(f).get(v, ())
        return not ds or any(x.fn == NUMBER or (x.fn or '').startswith('Lattice::') or x.get('mf') == MASKS[2]
                             for d in ds for x in ((d[0] if isinstance(d, tuple) else d).walk() if (d[0] if isinstance(d, tuple) else d) is not None else ()))
    return True
