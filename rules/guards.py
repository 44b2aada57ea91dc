"""Results that may denote nothing - iterators, positions, pointers, optionals - are checked before use."""
import re
from common import *
from flow import canon, strip, deref, addr, true_of, aliases, call_subst, subst_fact, subst_expr

NPOS = ('g', 'std::basic_string::npos')


def lifted(env, f, need, depth, seen):
    """do all callers of f establish one of the alternatives `need` (list of facts over parameters and this)?"""
    if f.u in seen:
        return True             # recursion: decided by the outer calls
    if depth > 3:
        return False
    calls = [(env.P.funcs[c], n) for c, n in env.G.inn.get(f.u, ()) if n is not None and (n.u == f.u or n.u in env.P.funcs or n.u)]
    if not calls:
        return None
    for g, n in calls:
        m = call_subst(n, f)
        if f.ctor and ('this',) not in m:
            m[('this',)] = ('?', 'new')
        alts = []
        for a in need:
            b = subst_fact(a, m)
            if b is not None:
                alts.append(b)
        if not holds(env, g, n, alts, depth + 1, seen | {f.u}):
            return False
    return True


def params_only(f, fact):
    ps = {v for v, _, _ in f.params}
    for x in fact[1:]:
        if isinstance(x, tuple):
            for e in subexprs(x):
                if e[0] == '?' or (e[0] == 'v' and e[1] not in ps):
                    return False
    return True


def holds(env, f, node, alts, depth=0, seen=frozenset()):
    """is one of the alternative facts established whenever node is evaluated?"""
    st = env.ctx.flow(f).before(node)
    if st is None:
        return True             # never reached
    for a in alts:
        if entails(st, a):
            return True
    lift = [a for a in alts if params_only(f, a)]
    if lift and f.params and not f.virtual:
        r = lifted(env, f, lift, depth, seen)
        return r is True
    return False


def entails(st, a):
    if a in st:
        return True
    if a[0] == 'true':
        al = aliases(st, a[1])
        for x in al:
            if ('true', x, a[2]) in st:
                return True
            if a[2] and x[0] in ('new', '&', 's', 'this'):
                return True
    elif a[0] == 'eq':
        xs, ys = aliases(st, a[1]), aliases(st, a[2])
        for x in xs:
            for y in ys:
                p, q = sorted((x, y), key=repr)
                if ('eq', p, q, a[3]) in st:
                    return True
    return False


def eqf(a, b, pol):
    p, q = sorted((a, b), key=repr)
    return ('eq', p, q, pol)


def nm(n):
    return (n.fn or '').rsplit('::', 1)[-1]


def receiver(n):
    """canonical receiver of a member call"""
    me = strip(n.c[0])
    b = ('this',)
    if me is not None and me.k == 'MemberExpr' and me.c:
        b = canon(me.c[0])
        if me.get('arrow') and b != ('this',):
            b = deref(b)
    return b


# ------------------------------------------------------------------ C11
def c11(env):
    P = env.P
    iters = set()
    for q, r in P.recs.items():
        names = {m['n'] if 'n' in m else None for m in r['methods']}
        ns = {P_method_name(m) for m in r['methods']}
        if 'hasNext' in ns and 'next' in ns:
            iters.add(q)
    env.anchor(len(iters) >= 3, 'iterator classes with hasNext and next')
    env.count('iterator_classes', len(iters))
    for f in P.funcs.values():
        if not f.cfg:
            continue
        for n in f.calls():
            if n.k != 'CXXMemberCallExpr' or nm(n) != 'next':
                continue
            cls = n.fn.rsplit('::', 1)[0]
            if cls not in iters:
                continue
            if f.cls and (f.cls in iters) and f.name in ('next', 'operator*') and receiver(n) != ('this',):
                # forwarding: next() of a wrapping iterator calls next() of the wrapped one
                env.count('forwarded')
                env.ok()
                continue
            env.count('next_calls')
            r = receiver(n)
            alts = [('true', ('call', c + '::hasNext', r), True) for c in related(P, cls)]
            if cls == 'Lattice::VertexIterator':
                # a lattice always has a vertex: the first next() of a fresh iterator over all vertices is fine
                st = env.ctx.flow(f).before(n)
                if st is not None and any(x[0] == 'eq' and r in x[1:3] and any(
                        isinstance(y, tuple) and y[0] == 'ctor' and len(y) == 3 for y in x[1:3]) for x in st):
                    env.ok()
                    continue
            if holds(env, f, n, alts) or same_call_asked(n, r, cls):
                env.ok('%s: next() of %s after hasNext()' % (n.loc(), cls))
            else:
                env.bad('next:%s' % f.q, n.loc(), '%s takes the next element of a %s without having asked hasNext(): at the end of the sequence '
                        'this reads past it' % (f.q, cls))
    env.floor('next_calls', 40)


def same_call_asked(n, r, cls):
    """if (f(x).hasNext()) return f(x).next();"""
    if r[0] != 'call':
        return False
    c, p = n, n.parent
    while p is not None:
        if p.k == 'IfStmt' and p.get('cond') is not None or p.k == 'IfStmt':
            kids = [x for x in p.c if x is not None]
            if len(kids) > 2 and kids[-1] is c:
                return False
            for x in kids:
                if x is c:
                    continue
                for y in x.walk():
                    if y.k == 'CXXMemberCallExpr' and nm(y) == 'hasNext' and receiver(y) == r and in_condition(p, y):
                        return c.k in ('ReturnStmt', 'CompoundStmt', 'ExprWithCleanups')
            return False
        if p.k in ('WhileStmt', 'ForStmt', 'DoStmt'):
            return False
        c, p = p, p.parent
    return False


def in_condition(ifs, y):
    """is y part of the condition of the if statement (and not negated)?"""
    neg = False
    z = y
    while z is not ifs:
        if z.k == 'UnaryOperator' and z.get('op') == '!':
            neg = not neg
        if z.k in ('CompoundStmt', 'ReturnStmt', 'DeclStmt'):
            return False
        z = z.parent
    return not neg


def related(P, cls):
    return {cls} | P.all_supers(cls) | P.all_subs(cls)


def P_method_name(m):
    u = m['u']
    return m.get('n') or re.sub(r'#.*', '', u.rsplit('@F@', 1)[-1])


# ------------------------------------------------------------------ C12
ITER_FIND = re.compile(r'^(std|boost)::(\w+::)*(find|lower_bound|upper_bound|find_if|max_element|min_element|search|adjacent_find|find_first_of)$')
STR_FIND = re.compile(r'^std::basic_string::(find|rfind|find_first_of|find_last_of|find_first_not_of|find_last_not_of)$')
CONT = re.compile(r'^std::(__cxx11::|__debug::)?(vector|list|deque|map|set|multimap|multiset|unordered_map|unordered_set|basic_string|stack|queue|priority_queue)$|^boost::unordered::(unordered_)?(map|set)$')


def find_kind(e):
    """('it', container) / ('pos', string) when canonical e is the result of a search"""
    if e[0] == 'call':
        fn = e[1]
        if STR_FIND.match(fn) and len(e) > 2:
            return ('pos', e[2])
        if ITER_FIND.match(fn):
            k = fn.split('::')
            if len(k) > 2 and k[1] not in ('range', 'algorithm', 'unordered') or 'unordered' in fn:
                return ('it', e[2])
            # std::find(first, last, ..): nothing found is `last`
            if len(e) > 3:
                return ('alg', e[3])
    return None


def found(st, x, kind, base):
    """is the search result x known to denote something?"""
    for f in st:
        if f[0] == 'eq' and f[3] is False and x in f[1:3]:
            y = f[2] if f[1] == x else f[1]
            if kind == 'alg' and y == base:
                return True
            if y[0] == 'call' and y[1].rsplit('::', 1)[-1] in ('end', 'cend') and len(y) == 3 and y[2] == base:
                return True
        elif f[0] == 'true' and f[2] and f[1][0] == 'found' and f[1][1] == x and f[1][2] == repr(base):
            return True
    return False


def deref_sites(f):
    """(node, pointer-like expression node, kind) for uses that need something to be there"""
    for n in f.walk():
        if n.k == 'CXXOperatorCallExpr' and n.get('op') in ('*', '->') and len(n.c) == 2:
            yield n, n.c[1]
        elif n.k == 'UnaryOperator' and n.get('op') == '*':
            yield n, n.c[0]
        elif n.k == 'MemberExpr' and n.get('arrow') and n.c and n.c[0] is not None:
            b = strip(n.c[0])
            if b is not None and not (b.k == 'CXXOperatorCallExpr' and b.get('op') == '->'):
                yield n, n.c[0]
        elif n.k == 'CXXMemberCallExpr' and nm(n) == 'erase' and len(n.c) == 2 and n.c[1] is not None and (n.fn or '').startswith('std::'):
            yield n, n.c[1]


def is_optional(t):
    return t is not None and (t.q or '') in ('boost::optional', 'std::optional')


def optional_sets(env):
    """field -> set of (function, block) where the optional field gets a value; None when it is also emptied"""
    out = {}
    for f in env.P.funcs.values():
        if not f.cfg or f.dep:
            continue
        for b, B in f.cfg[0].items():
            for n in B.elems:
                if isinstance(n, dict) or n.k != 'CXXOperatorCallExpr' or n.get('op') != '=' or len(n.c) < 3 or not is_optional(n.c[1].t):
                    continue
                e = canon(n.c[1])
                if e[0] == 'f' and e[2]:
                    if env.ctx.flow(f).full_of(frozenset(), n.c[2]) is True:
                        if out.setdefault(e[2], set()) is not None:
                            c = n.inside('CompoundStmt')
                            out[e[2]].add((f.u, c.id if c is not None else b, e[1]))
                    else:
                        out[e[2]] = None
    return out


def paired(env, sets, st, e):
    own = sets.get(e[2])
    if not own:
        return False
    for g in st:
        if g[0] == 'true' and g[2] is True and g[1][0] == 'f' and g[1][1] == e[1] and g[1][2] != e[2]:
            other = sets.get(g[1][2])
            if other and other <= own:
                return True
    return False


def optional_gets(f):
    for n in f.walk():
        if n.k == 'CXXMemberCallExpr' and nm(n) in ('get', 'value') and len(n.c) == 1 and n.c[0] is not None:
            b = strip(n.c[0])
            if b is not None and b.k == 'MemberExpr' and b.c and b.c[0] is not None and is_optional(b.c[0].t) and b.c[0].t.k == 'rec':
                yield n, b.c[0]


def iter_source(env, f, e):
    """search results variable e may hold: list of (kind, base)"""
    k = find_kind(e)
    if k:
        return [k]
    out = []
    if e[0] == 'v':
        for d in env.ctx.defs(f).get(e[1], ()):
            if d is None:
                continue
            k = find_kind(canon(d))
            if k:
                out.append(k)
    return out


ALWAYS_FOUND = {
    # every factory that is language dependent declares the option "lang" with a default value
    ('AnnotatorPromise::doCloneWithLanguageSet', 'find'),
    # the entry searched for is created by createVoidAlias_ when it is missing
    ('Aliaser::addAlias', 'find'),
    # documented precondition (asserted): the vertex belongs to the chart
    ('poleng::bonsai::chart::topological_index', 'find'), ('chart::topological_index', 'find'),
    # the key searched for was copied from an entry of the same map
    ('TPBasicTokenizerRuleSet::applyDefinitions', 'find'),
}


def c12(env):
    P = env.P
    for f in P.funcs.values():
        if not f.cfg:
            continue
        # iterators
        for n, x in deref_sites(f):
            e = canon(x)
            src = iter_source(env, f, e)
            for kind, base in src[:1]:
                if kind == 'pos':
                    continue
                env.count('iterator_uses')
                st = env.ctx.flow(f).before(n)
                if st is None or e[0] == 'v' and not may_be(st, e):
                    env.ok()
                    continue
                if (f.q, 'find') in ALWAYS_FOUND:
                    env.count('exempt')
                    continue
                if any(found(st, e, k2, b2) for k2, b2 in src) or counted(env, f, n, e, base):
                    env.ok('%s: %s used after comparison with end()' % (n.loc(), show(e)))
                else:
                    env.bad('find:' + f.q, n.loc(), '%s uses the result of a search without having checked that something was found' % f.q)
    for f, n, b, src in string_positions(env):
        env.count('position_uses')
        if (f.q, 'pos') in ALWAYS_FOUND:
            env.count('exempt')
        elif position_known(env, f, n, b):
            env.ok('%s: position compared with npos' % n.loc())
        else:
            env.bad('pos:' + f.q, n.loc(), '%s uses a string position without having checked that something was found' % f.q)
    element_access(env)
    map_reads(env)
    env.floor('iterator_uses', 40)


# maps whose keys are handed out by the code that fills them
FILLED_MAPS = {
    'GraphvizAdapterImpl::nodes_': 'keys are the identifiers returned by addNode, which enters them',
    'GraphvizAdapterImpl::edges_': 'keys are the identifiers returned by addEdge, which enters them',
    'MPFD::Parser::Fields': 'the name of the field being read is entered by _ParseHeaders before its content is read',
    'poleng::bonsai::Translation::node_translations': 'filled by Translator::merge for the nonterminals of the same hyperedge',
}
FILLED_IN = {
    'poleng::bonsai::Translation::annotateLattice': 'edges of the inner translations were entered by the recursive calls',
    'poleng::bonsai::Translation::substitute': 'iterates over the keys of the map',
    'poleng::bonsai::RuleSet::get_edge_transformations': 'iterates over the keys of the map',
    'poleng::bonsai::Translator::translate_recursive': 'RuleLoader enters a set for every edge of the parse',
}


def nodeep(e):
    """expression without dereferences (two spellings of the same map)"""
    if isinstance(e, tuple):
        if e and e[0] == '*' and len(e) == 2:
            return nodeep(e[1])
        return tuple(nodeep(x) for x in e)
    return e


def map_reads(env):
    """reading m[k] of a map of edges or pointers must not create the entry"""
    for f in env.P.funcs.values():
        if not f.cfg:
            continue
        for n in f.walk():
            if n.k != 'CXXOperatorCallExpr' or n.get('op') != '[]' or len(n.c) != 3:
                continue
            b = strip(n.c[1])
            bt = b.t if b is not None else None
            if bt is None or not re.search(r'\b(multi)?map<', repr(bt)) or repr(bt).startswith(('std::vector', 'std::queue', 'std::set')):
                continue
            if not n.t or not (n.t.k == 'ptr' or re.match(r'(const )?(Lattice::EdgeDescriptor|boost::shared_ptr<)', repr(n.t))):
                continue
            p = n.parent
            while p is not None and p.k in ('ParenExpr', 'MaterializeTemporaryExpr'):
                p = p.parent
            if p is not None and (p.k == 'CXXOperatorCallExpr' and p.get('op') == '=' and strip(p.c[1]) is n or
                                  p.k == 'BinaryOperator' and p.get('op') == '=' and strip(p.c[0]) is n):
                continue
            env.count('map_reads')
            e = canon(n)
            flds = path_fields(e[1]) if e[0] == '[]' else []
            if f.q in FILLED_IN or any(x in FILLED_MAPS for x in flds):
                env.count('exempt')
                continue
            st = env.ctx.flow(f).before(n)
            if st is None or e[0] != '[]' or any(present(a, e) for a in st):
                env.ok('%s: entry known to be there' % n.loc())
                continue
            env.bad('map:' + f.q, n.loc(), '%s reads an entry of a map without having checked that it is there' % f.q)


def present(a, e):
    m, k = nodeep(e[1]), nodeep(e[2])
    if a[0] == 'eq' and len(a) == 4:
        x, y = nodeep(a[1]), nodeep(a[2])
        if a[3]:
            return nodeep(e) in (x, y)          # assigned before
        for u, v in ((x, y), (y, x)):
            if u[0] == 'call' and u[1].split('::')[-1] == 'find' and len(u) > 3 and u[2] == m and u[3] == k \
                    and v[0] == 'call' and v[1].split('::')[-1] == 'end' and v[2] == m:
                return True
        return any(u[0] == 'call' and u[1].split('::')[-1] == 'count' and len(u) > 3 and u[2] == m and u[3] == k and v in (('c', 0), ('c', '0'))
                   for u, v in ((x, y), (y, x)))
    if a[0] in ('true', 'lt', 'le'):
        for u in a[1:]:
            if isinstance(u, tuple):
                u = nodeep(u)
                if u and u[0] == 'call' and u[1].split('::')[-1] in ('count', 'contains') and len(u) > 3 and u[2] == m and u[3] == k:
                    return a[0] != 'true' or a[2]
    return False


POS_ARG0 = ('substr', 'erase', 'insert', 'replace', 'at', 'operator[]', 'compare')


def base_position(e):
    """(variable or search call, added constant) of a position expression"""
    if e[0] == 'bin' and e[1] in ('+', '-') and e[3][0] == 'c':
        k = e[3][1] if e[1] == '+' else -e[3][1]
        b, c = base_position(e[2])
        return b, c + k if isinstance(c, int) else c
    if e[0] == 'bin' and e[1] == '+':
        b, c = base_position(e[2])
        return b, 'x'
    return e, 0


def string_positions(env):
    P = env.P
    for f in P.funcs.values():
        if not f.cfg:
            continue
        for n in f.calls():
            if n.k == 'CXXMemberCallExpr' and (n.fn or '').startswith('std::basic_string::') and nm(n) in POS_ARG0 and len(n.c) > 1:
                args = [n.c[1]]
                if nm(n) in ('substr', 'erase', 'replace') and len(n.c) > 2 and n.c[2] is not None:
                    args.append(n.c[2])
            elif n.k == 'CXXOperatorCallExpr' and n.get('op') == '[]' and (n.fn or '').startswith('std::basic_string::'):
                args = [n.c[2]]
            else:
                continue
            for i, a in enumerate(args):
                if a is None or a.t is None or a.t.k != 'int':
                    continue
                e = canon(a)
                b, k = base_position(e)
                if k == 1 and i == 0:
                    continue            # npos + 1 is the beginning: a common idiom
                if i == 1 and (b == e or isinstance(k, int) and e[0] == 'bin'):
                    continue            # as a length npos means "to the end"
                src = [s for s in iter_source(env, f, b) if s[0] == 'pos']
                if not src:
                    continue
                yield f, n, b, src


def position_known(env, f, n, b):
    st = env.ctx.flow(f).before(n)
    if st is None or b[0] == 'v' and not may_be(st, b):
        return True
    for x in aliases(st, b):
        for g in st:
            if g[0] == 'eq' and x in g[1:3]:
                y = g[2] if g[1] == x else g[1]
                if g[3] is False and (y == NPOS or y == ('c', -1) or y == ('c', 2 ** 64 - 1)):
                    return True
                if g[3] is True and y[0] == 'c' and y[1] not in (-1, 2 ** 64 - 1):
                    return True
            elif g[0] in ('lt', 'le') and g[1] == x:
                return True         # below something
    return False


# ------------------------------------------------------------------ element access on possibly empty containers
FRONT = ('front', 'back', 'top', 'pop', 'pop_front', 'pop_back')


def nonempty(env, f, n, c):
    st = env.ctx.flow(f).before(n)
    if st is None:
        return True
    for x in aliases(st, c):
        for g in st:
            if g[0] == 'true':
                e = g[1]
                if e[0] == 'call' and len(e) == 3 and e[2] == x:
                    last = e[1].rsplit('::', 1)[-1]
                    if last == 'empty' and not g[2] or last in ('size', 'length') and g[2]:
                        return True
            elif g[0] in ('lt', 'le') and g[2][0] == 'call' and len(g[2]) == 3 and g[2][2] == x and g[2][1].rsplit('::', 1)[-1] in ('size', 'length'):
                if g[0] == 'lt' or g[1][0] == 'c' and g[1][1] > 0:
                    return True
            elif g[0] == 'eq' and x and any(y[0] == 'call' and len(y) == 3 and y[2] == x and y[1].rsplit('::', 1)[-1] in ('size', 'length') for y in g[1:3]):
                y = g[2] if g[1][0] == 'call' else g[1]
                if g[3] and y[0] == 'c' and y[1] > 0:
                    return True
            elif g[0] == 'eq' and g[3] and x and any(y == ('[]', x, ('c', 0)) for y in g[1:3]) and any(y[0] == 'c' and y[1] not in (0, None) for y in g[1:3]):
                return True                                     # a text that begins with a certain character
    return False


def front_sites(env):
    for f in env.P.funcs.values():
        if not f.cfg:
            continue
        for n in f.calls():
            if n.k == 'CXXMemberCallExpr' and nm(n) in FRONT and (n.fn or '').startswith('std::') and len(n.c) == 1:
                yield f, n, receiver(n)
            elif n.k == 'CXXOperatorCallExpr' and n.get('op') == '*' and len(n.c) == 2:
                e = canon(n.c[1])
                if e[0] == 'call' and e[1].rsplit('::', 1)[-1] in ('begin', 'rbegin') and len(e) == 3:
                    yield f, n, e[2]
# containers that are non-empty by an invariant of their data structure, which this analysis does not follow: (file, field or call)
FRONT_EXEMPT = {
    ('common/cutter.hpp', 'Cutter::fragmentedSegmentsQueue_'),       # tested by the caller of the helper
    ('formats/json-simple/json_lattice_writer_output.cpp', 'JSONLatticeWriterOutput::arraysStack_'),        # stack of open arrays
    ('formats/json-simple/json_lattice_writer_output.cpp', 'JSONLatticeWriterOutput::currentArrayPointer_'),
    ('framework/auto_completer.cpp', 'AnnotatorFactory::languagesHandled'),
    ('framework/pipe_runner.cpp', 'AnnotatorFactory::languagesHandled'),
    ('framework/pipe_runner.cpp', 'PipeRunner::promiseAlternativeSequence_'),    # alternatives of a pipeline element: never empty
    ('framework/pipe_runner.cpp', 'PipelineSpecification::elements'),
    ('framework/pipe_runner.cpp', 'ProcessorPromise::languagesHandled'),
    ('server/server/request_parser.cpp', 'http::server3::request::headers'),     # header pushed by an earlier state of the parser
    ('tools/converters/unumsunt/unumsunt.cpp', 'Unumsunt::aux_rules_'),          # element pushed by an earlier line
    ('tools/datastructures/psi_query/fsa_bindfsa.hpp', 'fsa::BinDFSA::m_states'),
    ('tools/lemmatizers/lamerlemma/utility_functions.cpp', 'std::pair::second'),
    ('tools/parsers/puddle/lattice_wrapper.cpp', 'Lattice::getEdgePartitions'),  # every explicit edge has a partition
    ('tools/translators/transferer/edge2zsyntree.cpp', 'Lattice::getEdgePartitions'),
    ('tools/recognizers/langguesser/lang_guesser.cpp', 'LangGuesser::languages_'),   # the list of languages has at least one
    ('tools/translators/bonsai/translator/TransferTypes.cpp', 'poleng::bonsai::SList::nt'),
}
# the same for local containers: (file, functions)
LOCAL_EXEMPT = {
    'formats/psi/psi_writer/psi_lattice_writer.cpp': ('printEdge',),             # cells of a row, one per column
    'formats/bracketing/bracketing-writer/bracket_printer.hpp': ('print_',), 'formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp': ('doRun_',),
    'formats/apertium/apertium_reader/apertium_deformatter.cpp': ('processFormatRules',),
    'framework/auto_completer.cpp': ('complete_',), 'framework/pipe_runner.cpp': ('pipelineElement2Node_',),
    'framework/html_help_formatter.cpp': ('formatPipelineExampleInJSON_',),
    'server/psi_request_handler.cpp': ('handle_request',), 'server/server/reply.cpp': ('stock_reply',), 'server/server/request_handler.cpp': ('handle_request',),
    'tools/converters/unumsunt/unumsunt.cpp': ('convertTags',), 'tools/converters/unumsunt/unumsunt_rule.cpp': ('apply',),
    'tools/parsers/puddle/lattice_wrapper.cpp': ('addParseEdges', 'addSyntokEdges'),
    'tools/parsers/puddle/rule_loader.cpp': ('compileAction', 'compileRulePattern', 'compileToken', 'addConditionToPatterns'),    # matched by a regular expression
    'tools/parsers/puddle/syntok_action.cpp': ('generateOrth',),
    'tools/translators/bonsai/rules/RuleSet.cpp': ('word_to_transformation', 'word_to_slist', 'nextksb'),
    'tools/translators/bonsai/rules/SimpleDAG.cpp': ('row', 'wordlist'), 'tools/translators/bonsai/rules/CompressedDAG.cpp': ('multihash',),
    'tools/translators/bonsai/rules/MonotonicVector.hpp': ('loadVector',), 'tools/translators/bonsai/rules/StringVector.hpp': ('loadCharArray',),
    'tools/translators/bonsai/translator/TransferTypes.cpp': ('pop_back',), 'tools/translators/bonsai/translator/Translator.cpp': ('add_top_symbol',),
    'tools/translators/transferer/edge2zsyntree.cpp': ('convertEdgeToZsyntree',),
    'tools/translators/transferer/transferer_runner.cpp': ('putTargetForms_',), 'tools/translators/transferer/transferer.cpp': ('match_regexp_',),
    'tools/normalizers/niema/niema.cpp': ('doCreateAnnotator',), 'tools/normalizers/simplenorm/simplenorm_normalizer.cpp': ('SimplenormNormalizer',),
    'tools/lemmatizers/morfologik/morfologik.cpp': ('optionsHandled',), 'common/edit_distance.hpp': ('levenshteinDistance',),
    'tools/datastructures/lexica/perfect_hash_index.hpp': ('calcHashFunction',), 'tools/datastructures/lexica/perfect_hash_index.cpp': ('save', 'load'),
    'tools/datastructures/psi_query/fsa_bindfsa.hpp': ('save', 'load'),
}
STACK_MACHINES = ('tools/parsers/gobio/',)           # stacks of instructions and values kept in balance by their grammar


def index_sites(env):
    """x[x.size() - k], and v[k] of a vector: the element must be there"""
    for f in env.P.funcs.values():
        if not f.cfg:
            continue
        for n in f.calls():
            if n.k != 'CXXOperatorCallExpr' or n.get('op') != '[]' or len(n.c) != 3 or not (n.fn or '').startswith(('std::vector', 'std::deque', 'std::basic_string')):
                continue
            i = canon(n.c[2])
            if i[0] == 'c' and not n.fn.startswith('std::basic_string') or i[0] == 'bin' and i[1] == '-' and i[3][0] == 'c' and i[2][0] == 'call' \
                    and i[2][1].rsplit('::', 1)[-1] in ('size', 'length'):
                yield f, n, canon(n.c[1])


def container_name(c):
    while c[0] in ('*', '&', '[]'):
        c = c[1]
    return c[2] if c[0] == 'f' else c[1] if c[0] in ('call', 'g') else None


def front_exempt(env, f, c):
    if f.file.startswith(STACK_MACHINES) or (f.file, container_name(c)) in FRONT_EXEMPT:
        return True
    own = LOCAL_EXEMPT.get(f.file, ())
    if f.name in own:
        return True
    callers = {env.P.funcs[g].name if env.P.funcs[g].file == f.file else '' for g, m in env.G.inn.get(f.u, ())}
    return bool(callers) and callers <= set(own)        # a part of one of these functions


def element_access(env):
    for f, n, c in list(front_sites(env)) + list(index_sites(env)):
        if nonempty(env, f, n, c) or front_lifted(env, f, n, c):
            env.count('element_accesses')
            env.ok('%s: container not empty' % n.loc())
        elif front_exempt(env, f, c):
            env.count('exempt')
        else:
            env.count('element_accesses')
            env.bad('front:' + f.q, n.loc(), '%s takes an element of a container that may be empty' % f.q)


def front_lifted(env, f, n, c):
    """the container belongs to the caller: every caller checks it"""
    if not params_only(f, ('x', c)) or f.virtual:
        return False
    calls = [(env.P.funcs[g], m) for g, m in env.G.inn.get(f.u, ()) if m is not None]
    if not calls:
        return False
    for g, m in calls:
        e = subst_expr(c, call_subst(m, f))
        if e is None or not nonempty(env, g, m, e):
            return False
    return True


def counted(env, f, n, e, base):
    """m.count(k) was true before it = m.find(k)"""
    st = env.ctx.flow(f).before(n)
    if st is None:
        return True
    for x in aliases(st, e):
        if x[0] == 'call' and len(x) > 3:
            for pre in ('std::map', 'std::set', 'std::multimap', 'std::multiset'):
                c = ('call', pre + '::count', base, x[3])
                if ('true', c, True) in st or ('lt', ('c', 0), c, True) in st or ('eq',) + tuple(sorted((c, ('c', 1)), key=repr)) + (True,) in st:
                    return True
    return False


def may_be(st, e):
    """may variable e still hold the search result, given what is known?"""
    known = [y for x in st if x[0] == 'eq' and x[3] is True and e in x[1:3] for y in x[1:3] if y != e]
    if known and not any(find_kind(y) for y in known):
        return False
    return True


def show(e):
    if e[0] == 'v':
        return 'local'
    if e[0] == 'call':
        return e[1]
    if e[0] == 'f':
        return e[2] or '?'
    return e[0]




# ------------------------------------------------------------------ C13
NULL_LIB = {'strchr', 'strrchr', 'strstr', 'strpbrk', 'getenv', 'fopen', 'fdopen', 'popen', 'malloc', 'calloc', 'realloc', 'strtok', 'dlsym', 'dlopen',
            'memchr', 'setlocale', 'getpwuid', 'getpwnam', 'opendir', 'readdir', 'boost::any_cast', 'magic_open', 'magic_file', 'magic_buffer',
            'boost::dynamic_pointer_cast', 'std::dynamic_pointer_cast', 'fex_open', 'pcre_compile', 'pcre_study', 'perl_alloc'}


def is_pointerish(t):
    if t is None:
        return False
    t = t.strip()
    return t.k == 'ptr' or t.k == 'rec' and (t.q or '') in ('boost::shared_ptr', 'std::shared_ptr', 'std::unique_ptr', 'boost::optional',
                                                             'boost::scoped_ptr', 'std::optional', 'boost::weak_ptr', 'std::auto_ptr')


def nullable_functions(env):
    def go():
        P = env.P
        out = {}
        for f in P.funcs.values():
            if not is_pointerish(f.ret) or not f.cfg:
                continue
            for n in f.walk():
                if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                    if env.ctx.flow(f).before(n) is None:
                        continue
                    e = canon(n.c[0])
                    if n.inside('LambdaExpr') is not None:
                        continue
                    if e == ('c', 0) or e[0] == 'ctor' and len(e) == 2 and is_pointerish(f.ret) or e[0] == 'ctor' and len(e) == 3 and e[2] == ('c', 0):
                        out[f.u] = n
        # functions that pass on such a result unchecked
        ch = True
        while ch:
            ch = False
            for f in P.funcs.values():
                if f.u in out or not is_pointerish(f.ret) or not f.cfg:
                    continue
                for n in f.walk():
                    if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                        x = strip(n.c[0])
                        if x is not None and x.u and any(t.u in out for t in P.targets(x)):
                            out[f.u] = n
                            ch = True
                            break
        return out
    return memo(env, 'nullable', go)


def null_source(env, nf, d):
    """why expression node d may be null, or None"""
    x = strip(d)
    if x is None:
        return None
    if x.k == 'CXXDynamicCastExpr' and x.t is not None and x.t.k == 'ptr':
        return 'dynamic_cast'
    if x.k == 'ConditionalOperator':
        return null_source(env, nf, x.c[1]) or null_source(env, nf, x.c[2]) or ('NULL' if ('c', 0) in (canon(x.c[1]), canon(x.c[2])) else None)
    if x.fn in NULL_LIB:
        return x.fn
    if x.u and x.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
        for t in env.P.targets(x):
            if t.u in nf:
                return t.q
    if x.k == 'CXXMemberCallExpr' and nm(x) == 'lock' and 'weak_ptr' in (x.fn or ''):
        return 'weak_ptr::lock'
    return None


# values whose type is known by other means than a test
NULL_EXEMPT = {
    # nodes whose kind is known from the tag or operator just looked at
    ('tools/translators/transferer/transferer.cpp', 'dynamic_cast'), ('tools/translators/transferer/trules.cpp', 'dynamic_cast'),
    # children of a tree, counted before they are taken; ends of chains of statements
    ('tools/translators/transferer/transferer.cpp', 'NULL'), ('tools/translators/transferer/trules.cpp', 'NULL'),
    # chart invariants (every edge of a parse tree has an origin and a branch)
    ('tools/parsers/gobio/gobio.cpp', 'chart::edge_terminal_origin'), ('tools/parsers/gobio/gobio.cpp', 'extract_tree_branch_with_spec'),
    ('common/annotator_promise.cpp', 'dynamic_cast'),        # built from an AnnotatorFactory only
}


def nullable_fields(env, nf):
    """pointer fields that are given results that may be null -> why"""
    P = env.P
    out = {}
    for f in P.funcs.values():
        for n in f.walk():
            if n.k == 'BinaryOperator' and n.get('op') == '=':
                e = canon(n.c[0])
                if e[0] == 'f' and e[1] == ('this',) and is_pointerish(n.c[0].t):
                    w = null_source(env, nf, n.c[1])
                    if w:
                        out[e[2]] = w
        for i in f.inits:
            if i['mf'] and i['e'] is not None and is_pointerish(i['e'].t):
                w = null_source(env, nf, i['e'])
                if w:
                    out[i['mf']] = w
    return out


def getters(env, flds):
    """usr of a function that only returns such a field -> field"""
    out = {}
    for f in env.P.funcs.values():
        if f.body is None or f.params:
            continue
        rets = [n for n in f.walk() if n.k == 'ReturnStmt' and n.c]
        if len(rets) == 1:
            e = canon(rets[0].c[0])
            if e[0] == 'f' and e[1] == ('this',) and e[2] in flds:
                out[f.u] = e[2]
    return out


# the processor is only created when checkRequirements found its plug-in active
ADAPTER_CHECKED = ('Iayko::Worker::fstNormalize_', 'Niema::Worker::fstNormalize_', 'PSIAspell::Worker::checkWordInAspell_')


def c13(env):
    P = env.P
    nf = {u: n for u, n in nullable_functions(env).items() if not P.funcs[u].file.startswith('common/zvalue')}
    env.count('functions_returning_null', len(nf))
    flds = nullable_fields(env, nf)
    env.count('fields_that_may_be_null', len(flds))
    gets = getters(env, flds)
    pairs = optional_sets(env)
    for f in P.funcs.values():
        if not f.cfg:
            continue
        defs = env.ctx.defs(f)
        lt = local_types(f)
        for n, x in list(deref_sites(f)) + list(optional_gets(f)):
            if not is_pointerish(x.t):
                continue
            e = canon(x)
            if is_optional(x.t):
                # a reference to an optional inside another object, a call result, a variable
                env.count('uses_of_optionals')
            xs = strip(x)
            why = null_source(env, nf, xs)
            if why is None and is_optional(x.t):
                why = 'optional'
            if why is None and e[0] == 'v':
                t = lt.get(e[1])
                if t is not None and (t.q or '') == 'boost::optional' or t is not None and (t.q or '') == 'std::optional':
                    why = 'optional'
                else:
                    for d in defs.get(e[1], ()):
                        if d is not None:
                            why = null_source(env, nf, d) or ('NULL' if canon(d) == ('c', 0) else None)
                            if why:
                                break
            if why is None and e[0] == 'f' and e[2] in flds:
                why = flds[e[2]]
            get = None
            for y in [xs] + [strip(d) for d in (defs.get(e[1], ()) if e[0] == 'v' else ()) if d is not None]:
                if y is not None and y.u in gets and y.k == 'CXXMemberCallExpr':
                    why = why or flds[gets[y.u]]
                    get = ('true', ('f', receiver(y), gets[y.u]), True)
            if why is None:
                continue
            if (f.file, why) in NULL_EXEMPT or f.file.startswith('fex/fex/'):
                env.count('exempt')
                continue
            if f.q in ADAPTER_CHECKED:
                env.count('exempt')
                continue
            env.count('uses_of_nullable')
            st = env.ctx.flow(f).before(n)
            if st is None:
                env.ok()
                continue
            alts = [('true', e, True), eqf(e, ('c', 0), False), eqf(('c', 0), e, False)]
            if get:
                alts.append(get)
            if e[0] == 'v' and known_value(env, nf, f, st, e):
                env.ok()
            elif is_optional(x.t) and e[0] == 'f' and paired(env, pairs, st, e):
                env.ok('%s: set together with a field that was tested' % n.loc())
            elif holds(env, f, n, alts):
                env.ok('%s: checked result of %s' % (n.loc(), why))
            else:
                env.bad('null:' + f.q, n.loc(), '%s uses a pointer that may be null (%s) without having tested it' % (f.q, why))
    env.floor('uses_of_nullable', 40)


def known_value(env, nf, f, st, e):
    """the variable is known to hold a value that is not null"""
    for g in st:
        if g[0] == 'eq' and g[3] is True and e in g[1:3]:
            y = g[2] if g[1] == e else g[1]
            if y[0] in ('new', '&', 's', 'this'):
                return True
            if y[0] in ('call',) and y[1] not in NULL_LIB and not any(env.P.funcs[u].q == y[1] for u in nf):
                return True
            if y[0] == 'ctor' and len(y) == 3 and y[2][0] == 'new':
                return True
            if y[0] in ('f', 'v', '[]', '*') and y != e:
                return True
    return False
