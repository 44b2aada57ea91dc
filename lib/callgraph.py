"""Whole-program call graph with class-hierarchy resolution of virtual calls."""
from collections import defaultdict


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.out = defaultdict(dict)     # usr -> {usr: node}
        self.inn = defaultdict(list)     # usr -> [(caller usr, node)]
        self.ext = defaultdict(list)     # usr -> [(external name, node)]
        dtors = defaultdict(list)
        calls_of = defaultdict(list)
        for f in P.funcs.values():
            if f.dtor:
                dtors[f.cls].append(f.u)
            if f.name == 'operator()' and f.cls:
                calls_of[f.cls].append(f.u)
        for f in P.funcs.values():
            for n in f.walk():
                if n.k == 'LambdaExpr':
                    continue
                if n.u:
                    tg = P.targets(n)
                    for t in tg:
                        self.edge(f.u, t.u, n)
                    if not tg and n.fn:
                        self.ext[f.u].append((n.fn, n))
                elif n.fn is None and n.k == 'DeclRefExpr' and n.get('g') is None and n.get('q'):
                    pass
                if n.k == 'CXXDeleteExpr':
                    t = n.get('nt')
                    if t is not None and t.q:
                        for c in [t.q] + sorted(P.all_subs(t.q)):
                            for d in dtors.get(c, ()):
                                self.edge(f.u, d, n)
                if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and n.t is not None and n.t.q in calls_of:
                    for c in calls_of[n.t.q]:
                        self.edge(f.u, c, n)
            if f.cfg:
                for B in f.cfg[0].values():
                    for e in B.elems:
                        if isinstance(e, dict) and 'dtor' in e:
                            t = f.tab.T(e['t'])
                            if t.q:
                                for d in dtors.get(t.q, ()):
                                    self.edge(f.u, d, None)
        self.dtors = dtors

    def edge(self, a, b, n):
        if b not in self.out[a]:
            self.out[a][b] = n
        self.inn[b].append((a, n))

    def reach(self, roots, stop=lambda u: False, skip=None):
        """usr -> (parent usr, node)"""
        par = {}
        st = []
        for r in roots:
            if r not in par:
                par[r] = (None, None)
                st.append(r)
        i = 0
        while i < len(st):
            u = st[i]
            i += 1
            if stop(u):
                continue
            for v, n in self.out.get(u, {}).items():
                if v not in par:
                    if skip is not None and skip(u, v, n):
                        continue
                    par[v] = (u, n)
                    st.append(v)
        return par

    def path(self, par, u):
        out = []
        while u is not None:
            f = self.P.funcs.get(u)
            out.append(f.q if f else u)
            u = par[u][0]
        return ' <- '.join(out)
