"""Order, equality and hash functions obey the laws the containers and algorithms using them rely on."""
from common import *
from flow import strip
from flow import canon
import flow as FL
import relate
from relate import Machine, Undecided, Ref, Space

SORTED = {'std::set': 1, 'std::multiset': 1, 'std::map': 2, 'std::multimap': 2, 'std::priority_queue': 2}
ORDERING = ('sort', 'stable_sort', 'partial_sort', 'nth_element', 'lower_bound', 'upper_bound', 'equal_range', 'binary_search', 'max_element',
            'min_element', 'merge', 'inplace_merge', 'set_union', 'set_difference', 'set_intersection', 'includes', 'make_heap', 'push_heap',
            'pop_heap', 'sort_heap', 'min', 'max', 'lexicographical_compare', 'is_sorted', 'partial_sort_copy')


def tables(P):
    seen = {}
    for f in P.funcs.values():
        seen[id(f.tab)] = f.tab
    return seen.values()


def ordering_classes(env):
    """classes and functions used to order elements"""
    out = {}
    for tab in tables(env.P):
        for i, r in enumerate(tab.raw):
            if r.get('q') in SORTED and r.get('a'):
                k = SORTED[r['q']]
                if len(r['a']) > k and r['a'][k] is not None and r['a'][k] >= 0:
                    t = tab.T(r['a'][k])
                    if t is not None and t.q and not t.q.startswith('std::'):
                        out.setdefault(t.q, r['q'])
    funs = {}
    for f in env.P.funcs.values():
        for n in f.walk():
            if n.fn and n.k in ('CallExpr', 'CXXMemberCallExpr') and n.fn.startswith(('std::', 'boost::')) and n.fn.split('::')[-1] in ORDERING:
                for a in n.c[1:]:
                    a = strip(a)
                    if a is None or a.t is None:
                        continue
                    t = a.t.strip()
                    if t.k == 'rec' and t.q and not t.q.startswith('std::'):
                        out.setdefault(t.q, n.fn)
                    if a.k == 'UnaryOperator' and a.get('op') == '&':
                        a = strip(a.c[0])
                    if a is not None and a.k in ('DeclRefExpr', 'MemberExpr') and a.get('q'):
                        funs.setdefault(a.get('q'), n.fn)
                    if a is not None and a.k == 'LambdaExpr':
                        funs.setdefault('lambda', n.fn)
    return out, funs


def strip_t(t):
    return repr(t.strip() if t is not None else None).replace('const ', '')


def orders(env):
    """(function, number of its arguments that are elements: this or parameters)"""
    cls, funs = ordering_classes(env)
    for f in sorted(env.P.funcs.values(), key=lambda f: (f.q, f.file, f.line)):
        if not f.cfg or repr(f.ret) not in ('bool', '_Bool', 'int'):
            continue
        nm = f.name
        if nm in ('operator<', 'operator>') and not f.dep:
            if f.cls and len(f.params) == 1 and strip_t(f.params[0][2]).split('<')[0].split('::')[-1] == f.cls.split('<')[0].split('::')[-1]:
                yield f, 'this'
            elif not f.cls and len(f.params) == 2 and strip_t(f.params[0][2]) == strip_t(f.params[1][2]):
                yield f, 'args'
        elif nm == 'operator()' and f.cls in cls and len(f.params) == 2 and strip_t(f.params[0][2]) == strip_t(f.params[1][2]):
            yield f, 'args'
        elif f.q in funs and len(f.params) == 2 and strip_t(f.params[0][2]) == strip_t(f.params[1][2]):
            yield f, 'args'


def apply(m, f, how, a, b):
    def obj(i, t):
        return Ref(i, (), t.strip() if t is not None else None)
    if how == 'this':
        r = m.call(f, obj(a, f.clst), [obj(b, f.params[0][2])])
    else:
        r = m.call(f, Ref(None, ('self',), f.clst), [obj(a, f.params[0][2]), obj(b, f.params[1][2])])
    return m.truth(r)


def order_laws(f, how):
    def irreflexive(m):
        return apply(m, f, how, 0, 0)

    def asymmetric(m):
        return apply(m, f, how, 0, 1) and apply(m, f, how, 1, 0)

    def transitive(m):
        return apply(m, f, how, 0, 1) and apply(m, f, how, 1, 2) and not apply(m, f, how, 0, 2)

    def incomparable(m):
        return not apply(m, f, how, 0, 1) and not apply(m, f, how, 1, 0) and not apply(m, f, how, 1, 2) and not apply(m, f, how, 2, 1) \
            and (apply(m, f, how, 0, 2) or apply(m, f, how, 2, 0))
    return (('irreflexive', irreflexive, 'an element is less than itself'), ('asymmetric', asymmetric, 'two elements are each less than the other'),
            ('transitive', transitive, 'a < b and b < c, but not a < c'),
            ('incomparable', incomparable, 'a is equivalent to b and b to c, but not a to c'))


def decide(env, f, laws, what):
    sp = Space()
    n = 0
    for name, law, text in laws:
        m = Machine(env.P, sp)
        try:
            out = m.run(law)
        except Undecided as e:
            env.notes.append('%s (%s:%s): %s not decided: %s' % (f.q, f.file, f.line, name, e))
            env.count('undecided')
            continue
        n += len(out)
        bad = [s for r, s in out if r]
        if bad:
            env.bad('%s:%s:%s' % (what, f.q, name), '%s:%s' % (f.file, f.line), '%s: %s (%s)' % (f.q, text, bad[0]))
            return n
        env.ok('%s: %s in all %d abstract states' % (f.q, name, len(out)))
    return n


def c14(env):
    for f, how in orders(env):
        env.count('order_functions')
        env.count('abstract_states', decide(env, f, order_laws(f, how), 'order'))
    env.floor('order_functions', 8)


# ---------------------------------------------------------------- equality and hashes

# states the constructors and methods of a class exclude
IMPOSSIBLE = {
    # set together only as LayerTagMask(bool): any_(val), none_(!val); isNone sets none_ only after any_ was seen to be false
    'LayerTagMask': lambda m, i: m.peek(i, 'LayerTagMask::any_') is True and m.peek(i, 'LayerTagMask::none_') is True,
}
# fields that repeat what other fields say
REPEATED = {'AnnotationItem::attributes_': 'presence bits of values_', 'LayerTagMask::hash_': 'computed from the other fields'}
# stored result -> function computing it
DERIVED = {'LayerTagMask::hash_': 'LayerTagMask::computeHash_'}


def same_class(f):
    return f.cls and len(f.params) == 1 and strip_t(f.params[0][2]).split('<')[0].split('::')[-1] == f.cls.split('<')[0].split('::')[-1]


def hash_users(env):
    """hash functor -> key type, equality functors"""
    hs, eqs = {}, {}
    for tab in tables(env.P):
        for r in tab.raw:
            q = r.get('q') or ''
            k = {'unordered_map': 2, 'unordered_multimap': 2, 'unordered_set': 1, 'unordered_multiset': 1}.get(q.split('::')[-1])
            a = r.get('a') or ()
            if k is None or len(a) <= k + 1:
                continue
            key = tab.T(a[0]) if a[0] >= 0 else None
            for i, d in ((k, hs), (k + 1, eqs)):
                t = tab.T(a[i]) if a[i] is not None and a[i] >= 0 else None
                if t is not None and t.q and not t.q.startswith(('std::', 'boost::')):
                    d.setdefault(t.q, key)
    return hs, eqs


def equalities(env):
    _, eqs = hash_users(env)
    for f in sorted(env.P.funcs.values(), key=lambda f: (f.q, f.file, f.line)):
        if not f.cfg or f.dep:
            continue
        if f.name in ('operator==', 'operator!='):
            if same_class(f):
                yield f, 'this'
            elif not f.cls and len(f.params) == 2 and strip_t(f.params[0][2]) == strip_t(f.params[1][2]):
                yield f, 'args'
        elif f.name == 'operator()' and f.cls in eqs and len(f.params) == 2:
            yield f, 'args'


def equality_laws(env, f, how):
    imp = IMPOSSIBLE.get(f.cls)

    def ok(m, *els):
        if imp and any(imp(m, i) for i in els):
            raise relate.Stop()
        return True

    def eq(m, a, b):
        r = apply(m, f, how, a, b)
        return r if f.name != 'operator!=' else not r

    def reflexive(m):
        return not eq(m, 0, 0) and ok(m, 0)

    def symmetric(m):
        return eq(m, 0, 1) and not eq(m, 1, 0) and ok(m, 0, 1)

    def transitive(m):
        return eq(m, 0, 1) and eq(m, 1, 2) and not eq(m, 0, 2) and ok(m, 0, 1, 2)
    laws = [('reflexive', reflexive, 'an element differs from itself'), ('symmetric', symmetric, 'a equals b, but b does not equal a'),
            ('transitive', transitive, 'a equals b and b equals c, but a does not equal c')]
    for g in env.P.funcs.values():
        if g.cls == f.cls and f.cls and g.cfg and same_class(g) and g is not f:
            if f.name == 'operator==' and g.name == 'operator!=':
                laws.append(('negation', lambda m, g=g: eq(m, 0, 1) == apply(m, g, how, 0, 1) and ok(m, 0, 1),
                             '== and != give the same answer'))
            if f.name == 'operator==' and g.name == 'operator<':
                laws.append(('order', lambda m, g=g: eq(m, 0, 1) and (apply(m, g, how, 0, 1) or apply(m, g, how, 1, 0)) and ok(m, 0, 1),
                             'a equals b, but one is less than the other'))
    return laws


def fields_of(env, cls):
    r = env.P.recs.get(cls)
    return [x for x in (r['fields'] if r else ())]


def matters(env, f, how, fld):
    """is there a state in which only field fld differs and the elements are unequal?"""
    def body(m):
        r = apply(m, f, how, 0, 1)
        if (r if f.name != 'operator!=' else not r):
            return False
        seen = False
        for (sp, kind), d in m.vals.items():
            paths = {p for _, p in d}
            for p in paths:
                a, b = d.get((0, p)), d.get((1, p))
                if a == b or a is None or b is None:
                    continue
                if not any(fld == x or isinstance(x, tuple) and fld in repr(x) for x in p):
                    return False
                seen = True
        return seen
    m = Machine(env.P, Space())
    out = m.run(body)
    return any(r for r, _ in out)


def reads(env, f, cls, depth=0, seen=None):
    """fields of cls read by f, also by functions it calls"""
    seen = set() if seen is None else seen
    if f.u in seen or depth > 6:
        return set()
    seen.add(f.u)
    out = set()
    data = {x['q'] for x in fields_of(env, cls)}
    for n in f.walk():
        if n.k == 'MemberExpr' and n.get('mf') in data:
            out.add(n.get('mf'))
        if n.fn:
            for g in env.P.targets(n):
                if g.cfg:
                    out |= reads(env, g, cls, depth + 1, seen)
    return out


def c15(env):
    P = env.P
    eqs, hows = {}, {}
    for f, how in equalities(env):
        env.count('equality_functions')
        if f.cls and f.name == 'operator==':
            eqs[f.cls] = f
            hows[f.cls] = how
        env.count('abstract_states', decide(env, f, equality_laws(env, f, how), 'equality'))
    # what is stored in an object takes part in its equality
    for cls, f in sorted(eqs.items()):
        rec = P.recs.get(cls)
        rd = reads(env, f, cls)
        for x in fields_of(env, cls):
            q = x['q']
            if q in REPEATED:
                env.count('exempt')
                continue
            env.count('fields')
            if q not in rd:
                env.bad('field:' + q, '%s:%s' % (f.file, f.line), '%s does not look at %s' % (f.q, q))
                continue
            try:
                if matters(env, f, 'this', q):
                    env.ok('%s depends on %s' % (f.q, q))
                else:
                    env.bad('field:' + q, '%s:%s' % (f.file, f.line), '%s: elements that differ in %s alone are never told apart' % (f.q, q))
            except Undecided as e:
                env.notes.append('%s: %s not decided: %s' % (f.q, q, e))
                env.count('undecided')
    hash_rule(env, eqs, hows)
    env.floor('equality_functions', 4)


def hashed(env):
    """(hash function, class of the objects hashed)"""
    P = env.P
    hs, _ = hash_users(env)
    for f in P.funcs.values():
        if not f.cfg or f.dep:
            continue
        if f.name == 'operator()' and f.cls in hs and len(f.params) == 1:
            yield f, None
        elif f.name in ('getHash', 'hash_fun') and f.cls and not f.params:
            yield f, f.cls
        elif f.name == 'hash_value' and len(f.params) == 1:
            yield f, f.params[0][2].strip().q


MUTATORS = ('push_back', 'insert', 'erase', 'clear', 'swap', 'resize', 'assign', 'pop_back', 'reset', 'set', 'flip')
CHANGING = ('time', 'clock', 'rand', 'random', 'getpid', 'gettimeofday')


def hash_rule(env, eqs, how):
    P = env.P
    for f, cls in hashed(env):
        env.count('hash_functions')
        where = '%s:%s' % (f.file, f.line)
        good = True
        for c, e in eqs.items():
            if cls is not None and c != cls:
                continue
            hr = reads(env, f, c)
            hr2 = set()
            for x in hr:
                if x in DERIVED:
                    for g in P.byname(DERIVED[x]):
                        hr2 |= reads(env, g, c) - {x}
                else:
                    hr2.add(x)
            extra = hr2 - reads(env, e, c)
            if extra:
                good = False
                env.bad('hash:' + f.q, where, '%s uses %s, which %s does not compare: equal elements would have different hashes' % (
                    f.q, ', '.join(sorted(extra)), e.q))
        of = cls or (strip_t(f.params[0][2]) if f.params else None)
        if of in eqs and how.get(of):
            m = relate.HashMachine(P, Space(), {d: g for d, c in DERIVED.items() for g in P.byname(c) if g.cfg})

            def law(m, f=f, cls=cls, of=of, e=eqs[of], h=how[of]):
                m.over = {}
                if not apply(m, e, h, 0, 1):
                    return False
                x = [m.value(m.call(f, Ref(i, (), f.clst), [])) if cls else
                     m.value(m.call(f, Ref(None, ('self',), f.clst), [Ref(i, (), f.params[0][2].strip())])) for i in (0, 1)]
                if IMPOSSIBLE.get(of) and any(IMPOSSIBLE[of](m, i) for i in (0, 1)):
                    raise relate.Stop()
                return x[0] != x[1]
            try:
                out = m.run(law)
                env.count('hash_states', len(out))
                bad = [s for r, s in out if r]
                if bad:
                    good = False
                    env.bad('hash:' + f.q, where, '%s: equal elements have different hashes (%s)' % (f.q, bad[0]))
            except Undecided as x:
                env.notes.append('%s: equal elements have equal hashes: not decided: %s' % (f.q, x))
                env.count('undecided')
        for n in f.walk():
            if n.k == 'UnaryOperator' and n.get('op') == '&' and n.c and strip(n.c[0]) is not None and strip(n.c[0]).k in ('MemberExpr', 'DeclRefExpr') \
                    and n.t is not None and n.t.k == 'ptr' and n.parent is not None and 'Cast' in n.parent.k and n.parent.t is not None and n.parent.t.k == 'int':
                good = False
                env.bad('hash:' + f.q, n.loc(), '%s hashes the address of an object' % f.q)
            if n.fn and n.fn.split('::')[-1] in CHANGING:
                good = False
                env.bad('hash:' + f.q, n.loc(), '%s depends on %s' % (f.q, n.fn))
        if good:
            env.ok('%s: hash of compared fields only' % f.q)
    # a stored hash follows its sources
    for d, comp in sorted(DERIVED.items()):
        cls = d.rsplit('::', 1)[0]
        comps = P.byname(comp)
        src = set()
        for g in comps:
            src |= reads(env, g, cls) - {d}
        for f in P.funcs.values():
            if not f.cfg or f.q == comp or f.cls != cls:
                continue
            touched = set(f.ctor and [i['mf'] for i in f.inits if i.get('mf') in src] or ())
            sets = False
            for n in f.walk():
                w = FL.assigned_targets(n)
                if n.k == 'CXXMemberCallExpr' and (n.fn or '').split('::')[-1] in MUTATORS:
                    w = w + [canon(strip(n.c[0]).c[0])] if strip(n.c[0]).c else w
                for e in w:
                    fl = path_fields(e)
                    touched |= {x for x in fl if x in src}
                    sets |= d in fl
                sets |= n.fn == comp
            if f.ctor and f.d.get('cc'):
                continue
            if touched:
                env.count('hash_sources_changed')
                if sets:
                    env.ok('%s:%s: %s is recomputed' % (f.file, f.line, d))
                else:
                    env.bad('stale:%s:%s' % (d, f.q), '%s:%s' % (f.file, f.line), '%s changes %s, but not %s computed from it' % (
                        f.q, ', '.join(sorted(touched)), d))
