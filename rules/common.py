"""Shared vocabulary of the rules: root sets, content writes, program queries."""
import re
import flow as FL
from flow import canon, strip, subexprs, mentions

INDEX_FIELDS = {'Lattice::VertexEntry::inEdgesIndex', 'Lattice::VertexEntry::outEdgesIndex',
                'Lattice::indexedTagMasks_', 'Lattice::layerTagManager_', 'Lattice::annotationItemManager_'}
CONTENT_RECS = ('Lattice', 'Lattice::EdgeEntry', 'Lattice::VertexEntry', 'Lattice::Partition')


def owner(mf):
    return mf.rsplit('::', 1)[0]


def memo(env, key, fn):
    d = env.__dict__.setdefault('_memo', {})
    if key not in d:
        d[key] = fn()
    return d[key]


def temporary(n):
    """expression that yields a fresh object (call returning by value, constructor)"""
    n = strip(n)
    if n is None:
        return False
    if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        return True
    return n.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and not n.lv and n.t is not None and n.t.k == 'rec'


def written(n):
    """canonical lvalues node n modifies"""
    ts = FL.assigned_targets(n)
    if n.fn and n.k != 'LambdaExpr':
        m = FL.mutated(n)
        if n.k == 'CXXMemberCallExpr' and m:
            me = strip(n.c[0])
            if me is not None and me.k == 'MemberExpr' and me.c and not me.get('arrow') and temporary(me.c[0]):
                m = m[1:]
        elif n.k == 'CXXOperatorCallExpr' and m and n.get('op') in ('++', '--', '<<', '>>') and temporary(n.c[1]):
            m = m[1:]
        ts = ts + m
    return ts


def path_fields(e):
    """fields on the access path of lvalue e, outermost object first"""
    out = []
    while True:
        if e[0] == 'f':
            out.append(e[2])
            e = e[1]
        elif e[0] in ('[]', '*', '&'):
            e = e[1]
        elif e[0] == 'call' and len(e) > 2 and isinstance(e[2], tuple):
            e = e[2]
        elif e[0] == 'op' and len(e) > 2:
            e = e[2]
        else:
            return [x for x in out if x]


def by_value_local(f, v):
    """is local id v a local object (not a reference or pointer)?"""
    t = local_types(f).get(v)
    return t is not None and t.k not in ('ref', 'ptr')


def local_types(f):
    r = getattr(f, '_ltypes', None)
    if r is None:
        r = {}
        for v, n, t in f.params:
            r[v] = t
        for n in f.walk():
            for x in n.get('decls', ()) or ():
                r[x['v']] = x['t']
        f._ltypes = r
    return r


def root_of(e):
    """innermost object an lvalue path starts at"""
    while e[0] in ('f', '[]', '*', '&', 'call', 'op') and len(e) > 1:
        nxt = None
        if e[0] == 'call':
            if len(e) > 2 and isinstance(e[2], tuple):
                nxt = e[2]
        elif e[0] == 'op':
            nxt = e[2] if len(e) > 2 else None
        else:
            nxt = e[1]
        if nxt is None:
            return e
        e = nxt
    return e


def content_fields(P):
    out = set()
    for q in CONTENT_RECS:
        r = P.recs.get(q)
        if not r:
            continue
        for x in r['fields']:
            if x['q'] not in INDEX_FIELDS:
                out.add(x['q'])
    return out


def lattice_writes(env):
    """(func, node, field) for every write to lattice content in the program"""
    def go():
        P = env.P
        cf = content_fields(P)
        out = []
        for f in P.funcs.values():
            for n in f.walk():
                if n.fn and n.fn.startswith('boost::foreach_detail_'):
                    continue
                for t in written(n):
                    flds = path_fields(t)
                    hit = [x for x in flds if x in cf]
                    if not hit or any(x in INDEX_FIELDS for x in flds):
                        continue
                    if n.k == 'CXXMemberCallExpr' and (n.fn or '').startswith('LayerTagManager::'):
                        continue
                    r = root_of(t)
                    if r[0] == 'v' and by_value_local(f, r[1]) and not any(e[0] == '*' for e in subexprs(t)):
                        # iterators and copies held by value
                        if not any(x.startswith('Lattice::') and x.count('::') == 1 for x in flds):
                            continue
                    if f.ctor and r == ('this',) and owner(hit[0]) == f.cls:
                        continue
                    out.append((f, n, hit[0]))
        return out
    return memo(env, 'lattice_writes', go)


def derived(P, base):
    return {base} | P.all_subs(base)


def outermost(cls):
    return cls.split('::')[0] if cls else None
