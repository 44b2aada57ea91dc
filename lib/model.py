"""In-memory program model built from the extracted facts."""
import json, re, sys, time
from collections import defaultdict
import extract as X

AnalysisError = X.AnalysisError


class Type:
    __slots__ = ('s', 'k', 'q', 'to', 'n', 'a', 'const', 'u', 'w')

    def __repr__(self):
        return self.s

    def strip(self):
        """referenced type"""
        t = self
        while t.k == 'ref':
            t = t.to
        return t


class Node:
    __slots__ = ('id', 'k', 'l', 't', 'm', 'c', 'd', 'fn', 'u', 'parent', 'func', 'lv')

    def get(self, k, default=None):
        return self.d.get(k, default)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            for c in reversed(n.c):
                if c is not None:
                    st.append(c)

    def __repr__(self):
        return '<%s %s l%s>' % (self.k, self.fn or self.d.get('mf') or self.d.get('q') or self.d.get('n') or self.d.get('op') or self.d.get('val', ''), self.l)

    def inside(self, kind):
        n = self.parent
        while n is not None:
            if n.k == kind or (isinstance(kind, tuple) and n.k in kind):
                return n
            n = n.parent
        return None

    def loc(self):
        return '%s:%s' % (self.func.file, self.l)


class Block:
    __slots__ = ('n', 'elems', 'term', 'tk', 'cond', 'succ', 'pred', 'label', 'lk', 'noret')


class Func:
    def __init__(self, d, tab):
        self.d = d
        self.tab = tab
        S = tab.S
        self.u = S(d['u'])
        self.q = S(d['q'])
        self.file = S(d['file'])
        self.line = d['l']
        self.endline = d['el']
        self.ret = tab.T(d['ret'])
        self.dep = bool(d.get('dep'))
        self.cls = S(d['cls']) if 'cls' in d else None
        self.clst = tab.T(d['clst']) if 'clst' in d else None
        self.overrides = [S(x) for x in d.get('ov', [])]
        self.params = [(p['v'], p['n'], tab.T(p['t'])) for p in d['params']]
        self.ctor = bool(d.get('ctor'))
        self.dtor = bool(d.get('dtor'))
        self.const = bool(d.get('cst'))
        self.virtual = bool(d.get('vm'))
        self.static = bool(d.get('static'))
        self.inst = bool(d.get('inst'))
        self.nothrow = bool(d.get('ne'))
        self.acc = d.get('acc')
        self._body = None
        self._nodes = None
        self._inits = None
        self._cfg = None

    @property
    def name(self):
        return self.q.rsplit('::', 1)[-1]

    def __repr__(self):
        return '%s (%s:%s)' % (self.q, self.file, self.line)

    def _mk(self, j, parent):
        if j is None:
            return None
        tab = self.tab
        n = Node()
        n.id = j['i']
        n.k = j['k']
        n.l = j['l']
        n.t = tab.T(j['t']) if j.get('t', -1) >= 0 else None
        n.m = tab.S(j['m']) if 'm' in j else None
        n.fn = tab.S(j['fn']) if 'fn' in j else None
        n.u = tab.S(j['u']) if 'u' in j else None
        n.lv = 'lv' in j
        n.parent = parent
        n.func = self
        d = {}
        for k, v in j.items():
            if k in ('i', 'k', 'l', 't', 'm', 'fn', 'u', 'c', 'lv'):
                continue
            if k in ('q', 'mf') or (k == 'n'):
                v = tab.S(v)
            elif k in ('ct', 'nt', 'wt'):
                v = tab.T(v) if v >= 0 else None
            elif k == 'decls':
                v = [dict(x, t=tab.T(x['t'])) for x in v]
            d[k] = v
        n.d = d
        self._nodes[n.id] = n
        n.c = [self._mk(c, n) for c in j.get('c', ())]
        return n

    def _build(self):
        if self._nodes is None:
            self._nodes = {}
            sys.setrecursionlimit(10000)
            self._inits = []
            for i in self.d.get('inits', []):
                self._inits.append({'mf': self.tab.S(i['mf']) if 'mf' in i else None,
                                    'base': self.tab.T(i['base']) if 'base' in i else None,
                                    'deleg': 'deleg' in i, 'w': 'w' in i, 'e': self._mk(i['e'], None)})
            self._body = self._mk(self.d['body'], None)

    @property
    def body(self):
        self._build()
        return self._body

    @property
    def inits(self):
        self._build()
        return self._inits

    @property
    def nodes(self):
        self._build()
        return self._nodes

    def walk(self):
        self._build()
        for i in self._inits:
            if i['e'] is not None:
                yield from i['e'].walk()
        if self._body is not None:
            yield from self._body.walk()

    def calls(self):
        for n in self.walk():
            if n.fn and n.k != 'LambdaExpr':
                yield n

    def _split_decl(self, vd):
        """one declaration of a statement that declares several, as the CFG has it"""
        if not hasattr(self, '_decls'):
            self._decls = {}
            for m in self._nodes.values():
                if m.k == 'DeclStmt' and len(m.get('decls', [])) > 1:
                    for i, x in enumerate(m.get('decls')):
                        self._decls[x['v']] = (m, i)
        ds = [self._decls[v] for v, _ in vd if v in self._decls]
        if not ds:
            return None
        m = ds[0][0]
        n = Node()
        n.id = -1 - min(v for v, _ in vd)
        n.k, n.l, n.t, n.m, n.fn, n.u, n.lv = m.k, m.l, m.t, m.m, m.fn, m.u, m.lv
        n.parent, n.func = m.parent, m.func
        n.c = [m.c[i] for _, i in ds]
        n.d = dict(m.d, decls=[m.get('decls')[i] for _, i in ds])
        return n

    @property
    def cfg(self):
        if self._cfg is None and 'cfg' in self.d:
            self._build()
            g = self.d['cfg']
            bl = {}
            for b in g['b']:
                B = Block()
                B.n = b['n']
                B.elems = []
                for e in b['e']:
                    if isinstance(e, int):
                        nd = self._nodes.get(e)
                        if nd is not None:
                            B.elems.append(nd)
                    elif 'vd' in e:
                        nd = self._split_decl(e['vd'])
                        if nd is not None:
                            B.elems.append(nd)
                    else:
                        B.elems.append(e)
                B.term = self._nodes.get(b.get('t', -1))
                B.tk = b.get('tk')
                B.cond = self._nodes.get(b.get('tc', -1))
                B.label = self._nodes.get(b.get('lab', -1))
                B.lk = b.get('lk')
                B.noret = bool(b.get('nr'))
                B.succ = b['s']
                B.pred = []
                bl[B.n] = B
            for B in bl.values():
                for s in B.succ:
                    if s >= 0 and s in bl:
                        bl[s].pred.append(B.n)
            # with exception edges a call ends its block and is listed again at the head of the next one
            for B in bl.values():
                while B.elems and not isinstance(B.elems[0], dict) and B.pred and all(
                        bl[p].elems and bl[p].elems[-1] is B.elems[0] for p in B.pred):
                    B.elems = B.elems[1:]
                    break
                el = []
                for e in B.elems:
                    if not (el and e is el[-1]):
                        el.append(e)
                B.elems = el
            self._cfg = (bl, g['entry'], g['exit'])
        return self._cfg


class Table:
    """string and type table of one unit"""

    def __init__(self, strs, types, intern):
        self.strs = strs
        self.raw = types
        self.types = [None] * len(types)
        self.intern = intern

    def S(self, i):
        return self.strs[i]

    def T(self, i):
        if i < 0:
            return None
        t = self.types[i]
        if t is None:
            r = self.raw[i]
            t = Type()
            self.types[i] = t
            t.s = r['s']
            t.k = r['k']
            t.q = r.get('q')
            t.n = r.get('n')
            t.const = bool(r.get('const'))
            t.u = bool(r.get('u'))
            t.w = r.get('w')
            t.to = self.T(r['to']) if 'to' in r else None
            t.a = [self.T(x) if x >= 0 else None for x in r.get('a', [])]
        return t


class Program:
    def __init__(self):
        self.funcs = {}        # usr -> Func (defined)
        self.patterns = {}     # dependent patterns
        self.recs = {}         # qualified name -> record (non dependent preferred)
        self.vars = {}
        self.enums = {}
        self.units = []

    def byname(self, q):
        return self._byname.get(q, [])

    def finish(self):
        self._byname = defaultdict(list)
        for f in self.funcs.values():
            self._byname[f.q].append(f)
        # class hierarchy
        self.subs = defaultdict(set)
        self.supers = defaultdict(set)
        for r in self.recs.values():
            for b in r['bases']:
                if b and b.q:
                    self.subs[b.q].add(r['q'])
                    self.supers[r['q']].add(b.q)
        # method table: usr -> method entries and overriders
        self.overriders = defaultdict(set)
        self.method = {}
        for r in self.recs.values():
            for m in r['methods']:
                self.method[m['u']] = (r, m)
                for o in m['ov']:
                    self.overriders[o].add(m['u'])
        for f in self.funcs.values():
            for o in f.overrides:
                self.overriders[o].add(f.u)

    def all_overriders(self, u):
        seen = set()
        st = [u]
        while st:
            x = st.pop()
            for o in self.overriders.get(x, ()):
                if o not in seen:
                    seen.add(o)
                    st.append(o)
        return seen

    def all_subs(self, q):
        seen = set()
        st = [q]
        while st:
            x = st.pop()
            for o in self.subs.get(x, ()):
                if o not in seen:
                    seen.add(o)
                    st.append(o)
        return seen

    def all_supers(self, q):
        seen = set()
        st = [q]
        while st:
            x = st.pop()
            for o in self.supers.get(x, ()):
                if o not in seen:
                    seen.add(o)
                    st.append(o)
        return seen

    def targets(self, n):
        """defined functions a call node may reach (class-hierarchy resolution)"""
        if not n.u:
            return []
        out = []
        if n.u in self.funcs:
            out.append(self.funcs[n.u])
        if n.get('virt') or n.get('vm'):
            for o in self.all_overriders(n.u):
                if o in self.funcs:
                    out.append(self.funcs[o])
        return out


def load(prefixes=None):
    t0 = time.time()
    ex = X.extract(prefixes)
    P = Program()
    P.ex = ex
    seen = set()
    for unit in sorted(ex.files):
        P.units.append(unit)
        with open(ex.files[unit]) as f:
            f.readline()
            strs = json.loads(f.readline())
            types = json.loads(f.readline())
            tab = Table(strs, types, None)
            for line in f:
                i, _, js = line.partition('\t')
                key = strs[int(i)]
                if key in seen and not key.startswith('V:') and '@F@main#' not in key:
                    continue
                seen.add(key)
                d = json.loads(js)
                k = d['kind']
                if k == 'fn':
                    fo = Func(d, tab)
                    if not X.in_scope(fo.file):
                        continue
                    if fo.q == 'main':
                        fo.u += '@' + fo.file
                    if fo.dep:
                        P.patterns.setdefault(fo.u, fo)
                    else:
                        P.funcs.setdefault(fo.u, fo)
                elif k == 'rec':
                    r = d
                    r['q'] = strs[d['q']]
                    r['u'] = strs[d['u']]
                    r['file'] = strs[d['file']]
                    r['t'] = tab.T(d['t'])
                    r['bases'] = [tab.T(b[0]) for b in d['bases']]
                    for x in r['fields']:
                        x['q'] = strs[x['q']]
                        x['t'] = tab.T(x['t'])
                    for m in r['methods']:
                        m['u'] = strs[m['u']]
                        m['ret'] = tab.T(m['ret'])
                        m['pt'] = [tab.T(x) for x in m['pt']]
                        m['ov'] = [strs[x] for x in m.get('ov', [])]
                    old = P.recs.get(r['q'])
                    if old is None or (old.get('dep') and not r.get('dep')):
                        P.recs[r['q']] = r
                elif k == 'var':
                    d['q'] = strs[d['q']]
                    d['file'] = strs[d['file']]
                    d['t'] = tab.T(d['t'])
                    kk = (d['q'], d['file'], d['l'])
                    if kk not in P.vars:
                        if 'init' in d:
                            f2 = Func.__new__(Func)
                            f2.tab = tab
                            f2.file = d['file']
                            f2.q = d['q']
                            f2._nodes = {}
                            d['init'] = f2._mk(d['init'], None)
                        P.vars[kk] = d
                elif k == 'enum':
                    d['q'] = strs[d['q']]
                    d['file'] = strs[d['file']]
                    P.enums.setdefault(d['q'], d)
    P.finish()
    P.load_s = time.time() - t0
    return P


if __name__ == '__main__':
    P = load(sys.argv[1:] or None)
    print('units', len(P.units), 'funcs', len(P.funcs), 'patterns', len(P.patterns), 'recs', len(P.recs),
          'vars', len(P.vars), 'enums', len(P.enums), 'load %.1f' % P.load_s)
    n = 0
    t = time.time()
    for f in P.funcs.values():
        n += len(f.nodes)
    print('nodes', n, 'in %.1f' % (time.time() - t))
