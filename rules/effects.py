"""Whole-program effect rules: what code reachable from an entry point may do."""
import re
from common import *
from extract import AnalysisError


def class_methods(env, bases, own_nested=True, ctors=False):
    P = env.P
    cl = set()
    for b in bases:
        cl |= derived(P, b)
    out = []
    for f in P.funcs.values():
        if not f.cls or (not ctors and (f.ctor or f.dtor)):
            continue
        if f.cls in cl or (own_nested and any(f.cls.startswith(c + '::') for c in cl)):
            out.append(f)
    return cl, out


def family_skip(env, cl):
    """do not follow LatticeWorker::run into workers of other processor families"""
    P = env.P
    workers = P.all_subs('LatticeWorker')
    def skip(u, v, n):
        f = P.funcs[v]
        if f.cls in workers and f.overrides and not any(f.cls.startswith(c + '::') for c in cl):
            return f.name == 'doRun' and P.funcs[u].cls in ('LatticeWorker',) or \
                (P.funcs[u].cls in workers and P.funcs[u].cls != f.cls and f.cls not in P.all_subs(P.funcs[u].cls))
        return False
    return skip


def label(env, par, u):
    p = []
    x = u
    while x is not None:
        p.append(env.P.funcs[x].q)
        x = par[x][0]
    p.reverse()
    if len(p) > 8:
        p = p[:3] + ['...'] + p[-4:]
    return ' -> '.join(p)


# ------------------------------------------------------------------ C09 / C10
def lattice_mutators(env):
    out = {}
    for f, n, x in lattice_writes(env):
        fn = n.fn or ''
        if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and fn.startswith(('std::', 'boost::')):
            continue
        if fn.startswith(('boost::topological_sort', 'std::pair::pair', 'boost::get')):
            continue
        out.setdefault(f.u, []).append((n, x))
    return out


def casts_away_const(env, f, recs):
    """explicit casts in f that drop const from one of the given records"""
    for n in f.walk():
        if n.k in ('CXXConstCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr') and n.t is not None and n.c and n.c[0] is not None:
            to = n.t.strip()
            while to is not None and to.k == 'ptr':
                to = to.to
            src = n.c[0].t
            while src is not None and src.k in ('ptr', 'ref'):
                src = src.to
            if to is not None and src is not None and to.q in recs and src.const and not to.const:
                yield n


def c09(env):
    P = env.P
    cl, roots = class_methods(env, ['LatticeWriter'])
    env.count('writer_classes', len(cl))
    env.count('writer_methods', len(roots))
    env.floor('writer_classes', 7)
    env.floor('writer_methods', 80)
    mut = lattice_mutators(env)
    env.count('lattice_mutating_functions', len(mut))
    env.floor('lattice_mutating_functions', 4)
    names = {P.funcs[u].q for u in mut}
    env.anchor('Lattice::appendString' in names and 'Lattice::addEdge' in names, 'Lattice::appendString / addEdge as mutators')
    par = env.G.reach([f.u for f in roots], skip=family_skip(env, cl))
    env.count('functions_reachable_from_writers', len(par))
    env.floor('functions_reachable_from_writers', 300)
    # a positive instance: annotators must be seen to reach a mutator
    _, ar = class_methods(env, ['Annotator'])
    apar = env.G.reach([f.u for f in ar])
    env.anchor(any(u in apar for u in mut), 'annotators reach a lattice mutator (self test)')
    for u in par:
        f = P.funcs[u]
        if u in mut:
            # report the call that leaves the writer's own code
            for caller, node in env.G.inn[u]:
                if caller in par:
                    if node is not None and local_lattice(node):
                        continue
                    c = P.funcs[caller]
                    env.bad('%s->%s' % (c.q, f.q), node.loc() if node is not None else c.file,
                            'code reachable from a lattice writer calls %s, which modifies %s: %s'
                            % (f.q, ', '.join(sorted({x for n, x in mut[u]})[:4]), label(env, par, u)))
            if par[u][0] is None:
                n, x = mut[u][0]
                env.bad('%s writes %s' % (f.q, x), n.loc(), 'lattice writer modifies %s' % x)
        else:
            env.ok()
        for n in casts_away_const(env, f, set(CONTENT_RECS) | {'AnnotationItem', 'StringFrag', 'LayerTagCollection'}):
            env.bad('%s casts away const' % f.q, n.loc(), 'lattice writer code casts away const on lattice data')
    for f in sorted(roots, key=lambda f: f.q)[:6]:
        env.samples.append(f.q)


def local_lattice(node):
    """is the receiver of this call a Lattice object local to the function?"""
    if node.k != 'CXXMemberCallExpr':
        return False
    me = strip(node.c[0])
    if me is None or not me.c:
        return False
    e = canon(me.c[0])
    return e[0] == 'v' and by_value_local(node.func, e[1])


def c10(env):
    P = env.P
    mut = lattice_mutators(env)
    text = {u for u, l in mut.items() if any(x == 'Lattice::allText_' for n, x in l)}
    env.count('functions_writing_text', len(text))
    env.floor('functions_writing_text', 1)
    cl, roots = class_methods(env, ['Annotator'])
    env.count('annotator_classes', len(cl))
    env.floor('annotator_classes', 18)
    par = env.G.reach([f.u for f in roots], skip=family_skip(env, cl))
    env.count('functions_reachable_from_annotators', len(par))
    env.floor('functions_reachable_from_annotators', 1500)
    _, rr = class_methods(env, ['LatticeReader'])
    rpar = env.G.reach([f.u for f in rr])
    env.anchor(any(u in rpar for u in text), 'readers reach Lattice::appendString (self test)')
    for u in par:
        f = P.funcs[u]
        if u in text:
            for caller, node in env.G.inn[u]:
                if caller in par and not (node is not None and local_lattice(node)):
                    env.bad('%s->%s' % (P.funcs[caller].q, f.q), node.loc() if node is not None else f.file,
                            'code reachable from an annotator changes the text of the lattice: ' + label(env, par, u))
            if par[u][0] is None:
                env.bad(f.q, f.file, 'annotator changes the text of the lattice')
        else:
            env.ok()
        for n in casts_away_const(env, f, {'Lattice', 'AnnotationItem', 'StringFrag'}):
            env.bad('%s casts away const' % f.q, n.loc(), 'annotator code casts away const on lattice data')
    # additive-only operations on the graph: annotation never removes a vertex, an edge or a partition
    ADD = {'boost::add_vertex', 'boost::add_edge', 'std::list::push_back', 'std::vector::push_back', 'std::list::emplace_back',
           'boost::dynamic_bitset::resize', 'boost::dynamic_bitset::set', 'boost::dynamic_bitset::reference::operator=',
           'std::tr1::_Hashtable::insert', 'std::map::insert'}
    REM = ('erase', 'clear', 'pop_back', 'pop_front', 'remove', 'remove_if', 'swap', 'assign', 'remove_edge', 'remove_vertex',
           'clear_vertex', 'clear_in_edges', 'clear_out_edges', 'remove_edge_if', 'remove_in_edge_if', 'remove_out_edge_if', 'splice',
           'resize', 'operator=')
    PERM = {'Lattice::graph_', 'Lattice::vertices_', 'Lattice::EdgeEntry::partitions', 'Lattice::EdgeEntry::item',
            'Lattice::VertexEntry::index', 'Lattice::Partition::sequence_', 'Lattice::Partition::tagList_', 'Lattice::Partition::score_'}
    for u, l in mut.items():
        f = P.funcs[u]
        for n, x in l:
            env.count('content_write_sites')
            nm = (n.fn or '').rsplit('::', 1)[-1]
            flds = None
            for t in written(n):
                flds = path_fields(t)
                break
            inner = flds[0] if flds else x
            if inner in PERM and u in par:
                if nm in REM or (n.k == 'BinaryOperator' and n.get('op') == '=' and inner != 'Lattice::vertices_'):
                    env.bad('%s removes from %s' % (f.q, inner), n.loc(), 'annotation removes or overwrites %s (%s)' % (inner, nm or n.get('op')))
                else:
                    env.ok()


# ------------------------------------------------------------------ C23 process exit
EXITS = {'exit', '_exit', '_Exit', 'abort', 'quick_exit', 'std::exit', 'std::_Exit', 'std::abort', 'std::quick_exit', 'std::terminate',
         'kill', 'raise', 'std::raise', 'execl', 'execlp', 'execle', 'execv', 'execvp', 'execvpe', 'pthread_exit', 'longjmp'}

SERVER_ROOTS = ['Site', 'TemplateSite', 'JsonSite', 'PipeSite']


def processing_roots(env):
    P = env.P
    cl, roots = class_methods(env, ['Processor', 'ProcessorFactory', 'LatticeWorker', 'ProcessorPromise', 'ProcessorFileRecognizer'])
    return cl, roots


def c23(env):
    P = env.P
    cl, roots = processing_roots(env)
    env.count('processor_classes', len(cl))
    env.floor('processor_classes', 90)
    extra = [f for f in P.funcs.values() if f.cls and (f.cls in ('PipeRunner', 'MainFactoriesKeeper', 'FactoriesKeeper', 'AutoCompleter', 'Aliaser')
             or f.file.startswith('server/')) and f.q != 'main']
    env.count('framework_and_server_methods', len(extra))
    env.floor('framework_and_server_methods', 120)
    par = env.G.reach([f.u for f in roots + extra])
    env.count('reachable_functions', len(par))
    env.floor('reachable_functions', 2500)
    n_main = 0
    for u in par:
        f = P.funcs[u]
        hit = False
        for name, n in env.G.ext.get(u, ()):
            if name in EXITS:
                if n.m and n.m.lower().startswith('assert'):
                    continue
                hit = True
                env.bad('%s calls %s' % (f.q, name), n.loc(), 'library code ends the process: ' + label(env, par, u))
        if not hit:
            env.ok()
    # positive instance: the recogniser must know the name when it is there
    env.notes.append('names treated as ending the process: ' + ', '.join(sorted(EXITS)))


# ------------------------------------------------------------------ C24 determinism
NONDET = {'time', 'std::time', 'rand', 'std::rand', 'random', 'srand', 'std::srand', 'drand48', 'lrand48', 'clock', 'std::clock',
          'gettimeofday', 'clock_gettime', 'getpid', 'getppid', 'localtime', 'gmtime', 'gethostname', 'rand_r', 'getrandom',
          'std::random_device::operator()', 'std::random_shuffle', 'std::shuffle', 'pthread_self', 'times',
          'std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now', 'arc4random', 'getuid', 'ftime',
          'std::localtime', 'std::gmtime', 'std::ctime', 'ctime', 'getrusage', 'syscall',
          'getenv', 'std::getenv', 'secure_getenv', 'tmpnam', 'std::tmpnam'}
NONDET_PREFIX = ('boost::posix_time::microsec_clock', 'boost::posix_time::second_clock', 'boost::random', 'boost::uuids',
                 'std::mersenne_twister_engine', 'std::linear_congruential_engine', 'std::random_device', 'boost::this_thread::get_id',
                 'std::this_thread::get_id', 'std::chrono::', 'boost::chrono::', 'boost::timer', 'boost::progress')


def is_nondet(name):
    return name in NONDET or name.startswith(NONDET_PREFIX)


def c24(env):
    P = env.P
    cl, roots = processing_roots(env)
    env.count('processor_classes', len(cl))
    env.floor('processor_classes', 90)
    par = env.G.reach([f.u for f in roots])
    env.count('reachable_functions', len(par))
    env.floor('reachable_functions', 2500)
    # self test: the server's session code does use clocks/random numbers
    seen = False
    for f in P.funcs.values():
        if f.file.startswith('server/') and any(is_nondet(nm) for nm, n in env.G.ext.get(f.u, ())):
            seen = True
    env.anchor(seen, 'a use of time()/rand() in server/ (self test of the recogniser)')
    for u in par:
        f = P.funcs[u]
        hit = False
        for name, n in env.G.ext.get(u, ()):
            if is_nondet(name):
                hit = True
                env.bad('%s calls %s' % (f.q, name), n.loc(), 'result of processing may depend on %s: %s' % (name, label(env, par, u)))
        # containers ordered or hashed by object address
        for n in f.walk():
            if n.k == 'CXXForRangeStmt' or (n.k == 'CXXMemberCallExpr' and (n.fn or '').rsplit('::', 1)[-1] in ('begin', 'rbegin')):
                t = recv_type(n)
                if t is not None and address_keyed(t):
                    hit = True
                    env.bad('%s iterates %s' % (f.q, t.q), n.loc(), 'iteration order depends on object addresses (%s)' % t.s[:80])
            w = by_address(env, f, n)
            if w:
                hit = True
                env.bad('%s: %s' % (f.q, w), n.loc(), 'result of processing may depend on %s: %s' % (w, label(env, par, u)))
            # reinterpreting an address as a number
            if n.k in ('CXXReinterpretCastExpr', 'CStyleCastExpr') and n.t is not None and n.t.k == 'int' and n.c and n.c[0] is not None \
                    and n.c[0].t is not None and n.c[0].t.k == 'ptr':
                env.count('address_to_int_casts')
                use = address_arithmetic(env, f, n)
                if use is not None:
                    hit = True
                    env.bad('%s: arithmetic on an address' % f.q, use.loc(), 'the number an address happens to be is used by %r: %s' % (use.get('op'), label(env, par, u)))
        w = directory_order(env, f)
        if w:
            hit = True
            env.bad('%s directory order' % f.q, w[0], w[1])
        if not hit:
            env.ok()


CHANCE = ('%', '<', '>', '<=', '>=', '^', '/', '*', '%=', '^=', '/=', '*=')


def address_arithmetic(env, f, n):
    """the operation that takes the number of an address (n: the cast) as an amount, if any;
    masking and shifting take the tag bits of a value, which the program itself put there"""
    def up(m):
        p = m.parent
        while p is not None and p.k in ('ParenExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr'):
            p = p.parent
        return p
    p = up(n)
    if p is None:
        return None
    if p.k in ('BinaryOperator', 'CompoundAssignOperator') and p.get('op') in CHANCE:
        return p
    if p.k == 'DeclStmt':
        for i, d in enumerate(p.get('decls') or ()):
            if i < len(p.c) and p.c[i] is not None and any(x is n for x in p.c[i].walk()):
                for m in f.walk():
                    if m.k == 'DeclRefExpr' and m.get('v') == d['v']:
                        q = up(m)
                        if q is not None and q.k in ('BinaryOperator', 'CompoundAssignOperator') and q.get('op') in CHANCE:
                            return q
    return None


def pointer(t):
    t = t.strip() if t is not None else None
    return t is not None and t.k == 'ptr'


def by_address(env, f, n):
    """does n order or print things by their address?"""
    # comparators
    if n.k == 'BinaryOperator' and n.get('op') in ('<', '>', '<=', '>=') and (f.name in ('operator<', 'operator>', 'operator<=', 'operator>=') or f.name == 'operator()' and len(f.params) == 2 or f.ret is not None and repr(f.ret) == 'bool' and len(f.params) == 2):
        ts = [strip(c).t if strip(c) is not None else None for c in n.c]
        if all(pointer(t) for t in ts) and not any('char' in repr(t) for t in ts):
            return 'the addresses compared by %s' % f.q
    # default order of pointers
    if n.k == 'CallExpr' and n.fn and n.fn.split('::')[-1] in ('sort', 'stable_sort', 'make_heap', 'max_element', 'min_element', 'nth_element') and len([c for c in n.c if c is not None]) == 3:
        t = n.c[1].t
        t = t.strip() if t is not None else None
        for a in (t.a or []) if t is not None and t.k == 'rec' else []:
            if a is not None and pointer(a) and a.to is not None and pointer(a.to):
                return 'the addresses sorted by %s' % f.q
        if t is not None and t.k == 'ptr' and pointer(t.to):
            return 'the addresses sorted by %s' % f.q
        for a in (t.a or []) if t is not None else []:
            if a is not None and a.k == 'rec' and a.q in ('std::vector', 'std::deque') and a.a and pointer(a.a[0]):
                return 'the addresses sorted by %s' % f.q
    if n.k == 'CXXConstructExpr' and n.t is not None and n.t.strip().q == 'std::priority_queue':
        a = n.t.strip().a
        if a and pointer(a[0]) and (len(a) < 3 or a[2] is None or a[2].q == 'std::less'):
            return 'a queue ordered by addresses'
    # loops
    if n.k == 'CallExpr' and (n.fn or '').endswith('foreach_detail_::encode_type') and n.c[1].t is not None:
        t = n.c[1].t.strip()
        if t.k == 'ref':
            t = t.to.strip()
        if address_keyed(t):
            return 'the order of a container of addresses'
    if n.k == 'DeclStmt':
        for d in n.get('decls', ()):
            if str(d['n']).startswith('__range') and d['t'] is not None:
                t = d['t'].strip()
                if t.k in ('ref', 'ptr'):
                    t = t.to.strip()
                if address_keyed(t):
                    return 'the order of a container of addresses'
    # addresses as text or number
    if n.k == 'CXXOperatorCallExpr' and n.get('op') == '<<' and (n.fn or '').startswith('std::basic_ostream::operator<<') and len(n.c) > 2 and n.c[2] is not None:
        t = n.c[2].t
        if pointer(t) and 'void' in repr(t) and '(' not in repr(t):
            return 'an address that is printed'
    return None


DIR = ('boost::filesystem::directory_iterator::directory_iterator', 'boost::filesystem::recursive_directory_iterator::recursive_directory_iterator')


def directory_order(env, f):
    """files found in a directory come in any order: what is collected is sorted"""
    its = [n for n in f.walk() if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and n.fn in DIR]
    if not its:
        return None
    env.count('directory_loops')
    loops = []
    for n in its:
        p = n.parent
        while p is not None and p.k not in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'CompoundStmt'):
            p = p.parent
        if p is not None and p.k == 'CompoundStmt':
            p = next((c for c in p.c if c is not None and c.k in ('WhileStmt', 'ForStmt') and c.l >= n.l), None)
        if p is not None:
            loops.append(p)
    for lp in loops:
        for n in lp.walk():
            if n.k != 'CXXMemberCallExpr' or (n.fn or '').split('::')[-1] not in ('push_back', 'push_front', 'emplace_back', 'push'):
                continue
            r = canon(strip(n.c[0]).c[0]) if strip(n.c[0]) is not None and strip(n.c[0]).c else None
            if r is None or r[0] != 'v':
                continue
            ok = False
            for m in f.walk():
                nm = (m.fn or '').split('::')[-1]
                if m.k == 'CallExpr' and nm in ('sort', 'stable_sort') and m.l >= n.l and any(x.k == 'DeclRefExpr' and x.get('v') == r[1] for x in m.walk()):
                    ok = True
                if m.k == 'CXXMemberCallExpr' and nm == 'sort' and canon(strip(m.c[0]).c[0]) == r:
                    ok = True
                # handed over to an ordered container, or to a helper that sorts
                if m.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr') and m.l >= n.l and m is not n:
                    if m.t is not None and m.t.strip().q in ('std::set', 'std::map', 'std::multiset') and any(x.k == 'DeclRefExpr' and x.get('v') == r[1] for x in m.walk()):
                        ok = True
                    for g in env.P.targets(m):
                        if g.cfg and any(x.k == 'DeclRefExpr' and x.get('v') == r[1] for x in m.walk()) and any((x.fn or '').split('::')[-1] in ('sort', 'stable_sort') for x in g.walk()):
                            ok = True
            if not ok:
                return (n.loc(), '%s collects the files of a directory in the order in which the file system lists them' % f.q)
    return None


def recv_type(n):
    if n.k == 'CXXMemberCallExpr':
        me = strip(n.c[0])
        if me is not None and me.k == 'MemberExpr' and me.c and me.c[0] is not None and me.c[0].t is not None:
            t = me.c[0].t.strip()
            if t.k == 'ptr':
                t = t.to
            return t
    return None


def address_key(t):
    """is the default order of t the order of addresses? (edge descriptors of boost graphs are ordered by the address of the edge)"""
    t = t.strip()
    return t.k == 'ptr' or t.k == 'rec' and t.q is not None and (t.q == 'Lattice::EdgeDescriptor' or t.q.split('::')[-1] in ('edge_desc_impl', 'edge_base'))


def address_keyed(t):
    if t.q in ('std::map', 'std::set', 'std::multimap', 'std::multiset') and t.a and t.a[0] is not None and address_key(t.a[0]):
        cmp = t.a[2] if 'map' in t.q and len(t.a) > 2 else (t.a[1] if 'set' in t.q and len(t.a) > 1 else None)
        return cmp is None or cmp.q == 'std::less'
    if t.q and 'unordered_' in t.q and t.a and t.a[0] is not None and address_key(t.a[0]):
        return True
    return False


# ------------------------------------------------------------------ C22 standard streams
STD_FN = {'printf', 'vprintf', 'puts', 'putchar', 'std::printf', 'std::vprintf', 'std::puts', 'std::putchar', 'getchar', 'std::getchar', 'gets',
          'scanf', 'std::scanf', 'vscanf', 'putchar_unlocked', 'getchar_unlocked'}
STD_VAR = {'std::cout', 'std::cin', 'std::wcout', 'std::wcin', 'stdout', 'stdin'}


def std_stream_uses(f):
    for n in f.walk():
        if n.k == 'DeclRefExpr' and n.get('q') in STD_VAR:
            yield n, n.get('q')
        elif n.fn in STD_FN:
            yield n, n.fn
        elif n.fn in ('write', 'read', 'dprintf', 'fileno', 'dup2', 'dup') and len(n.c) > 1:
            e = canon(n.c[1])
            if e in (('c', 0), ('c', 1)) and n.fn != 'fileno':
                yield n, '%s(%d)' % (n.fn, e[1])


OUT_ELSEWHERE = re.compile(r'(^|[^0-9>&])>|1>|&>')     # output redirection of the shell, other than that of standard error alone

QUIET_COMMANDS = {'exec 2>/dev/null; antiword'}           # antiword without a file prints its usage on standard error


def command_text(env, f, n):
    """the literals the command given to system()/popen() is put together from"""
    call = n
    while call is not None and call.k not in ('CallExpr', 'CXXMemberCallExpr'):
        call = call.parent
    if call is None or len(call.c) < 2 or call.c[1] is None:
        return []
    if call.fn == 'popen' and len(call.c) > 2 and call.c[2] is not None and any(m.k == 'StringLiteral' and 'r' in (m.get('s') or '') for m in call.c[2].walk()):
        return []                     # its output is read by the caller
    out, todo, done = [], [(f, call.c[1])], set()
    while todo:
        g, e = todo.pop()
        for m in e.walk():
            if m.k == 'StringLiteral' and m.get('s'):
                out.append(m.get('s'))
            elif m.k == 'DeclRefExpr' and 'v' in m.d and (g.u, m.d['v']) not in done:
                v = m.d['v']
                done.add((g.u, v))
                for x in g.walk():
                    if x.k == 'DeclStmt':
                        for i, d in enumerate(x.get('decls') or ()):
                            if d['v'] == v and i < len(x.c) and x.c[i] is not None:
                                todo.append((g, x.c[i]))
                    elif x.k in ('BinaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr', 'CXXMemberCallExpr') \
                            and any(y.k == 'DeclRefExpr' and y.get('v') == v for y in x.walk()):
                        todo.append((g, x))
            elif m.k in ('CallExpr', 'CXXMemberCallExpr'):
                for h in env.P.targets(m):
                    h = env.P.funcs.get(h, h) if not hasattr(h, 'u') else h
                    if hasattr(h, 'walk') and h.u not in done:
                        done.add(h.u)
                        for x in h.walk():
                            if x.k == 'ReturnStmt':
                                todo.append((h, x))
    return out


def c22(env):
    P = env.P
    cl, roots = processing_roots(env)
    extra = [f for f in P.funcs.values() if f.cls and (f.cls in ('MainFactoriesKeeper', 'FactoriesKeeper', 'AutoCompleter', 'Aliaser', 'Lattice'))]
    env.count('processor_classes', len(cl))
    env.floor('processor_classes', 90)
    par = env.G.reach([f.u for f in roots + extra])
    env.count('reachable_functions', len(par))
    env.floor('reachable_functions', 2500)
    front = 0
    for f in P.funcs.values():
        if f.u not in par:
            front += sum(1 for x in std_stream_uses(f))
    env.count('uses_in_front_ends', front)
    env.floor('uses_in_front_ends', 10)       # the recogniser sees the legitimate uses
    for u in par:
        f = P.funcs[u]
        hit = False
        for n, what in std_stream_uses(f):
            if n.m and n.m.lower().startswith('assert'):
                continue
            hit = True
            env.bad('%s uses %s' % (f.q, what), n.loc(), 'processing code uses %s, which psi-pipe shares with its own data: %s' % (what, label(env, par, u)))
        for name, n in env.G.ext.get(u, ()):
            if name in ('system', 'std::system', 'popen'):
                env.count('commands_run')
                text = command_text(env, f, n)
                if text and not set(text) <= QUIET_COMMANDS and not any(OUT_ELSEWHERE.search(t) for t in text):
                    hit = True
                    env.bad('%s runs %s' % (f.q, name), n.loc(), 'the command (%s) writes to the standard output that psi-pipe shares with its own data: %s'
                            % (' '.join(text)[:60], label(env, par, u)))
        if not hit:
            env.ok()


# ------------------------------------------------------------------ C36 no state across lattices
LOGGING = {'psi_logger', 'std::cerr', 'std::clog', 'std::cout', 'std::cin', 'stderr', 'stdout', 'errno'}
# written while processing, each for the reason given
SCRATCH = {
    'Morfologik::jenv_': 'the interface of the Java virtual machine',
    'FileRecognizer::magicCookie_': 'libmagic handle opened and closed within each recognition',
    'grlex_input_stream': 'argument of the generated parser, set before each parse',
    'trlex_input_stream': 'argument of the generated parser, set before each parse',
    'the_file_name': 'argument of the generated parser, set before each parse',
    'the_holder': 'argument of the generated parser, set before each parse',
    'the_zsymbolfactory': 'argument of the generated parser, set before each parse',
    'poleng::bonsai::Translation::id': 'unique number, only compared for equality',
}
TRAINING = {'MeTagger::train', 'Inflector::train'}      # accumulating samples is what training is for
STATE_DIRS = ('common/', 'formats/', 'framework/', 'tools/')


def c36(env):
    P = env.P
    procs = set()
    for b in ('Annotator', 'LatticeReader', 'LatticeWriter', 'Processor'):
        procs |= derived(P, b)
    facts = P.all_subs('ProcessorFactory') | {'ProcessorFactory'} | P.all_subs('ProcessorPromise')
    names = {'annotate', 'doAnnotate', 'readIntoLattice', 'writeLattice', 'doCreateLatticeWorker', 'doCreateReaderWorker', 'doCreateWriterWorker',
             'readLattice', 'processLattice'}
    roots = [f for f in P.funcs.values() if f.cls in procs and f.name in names]
    workers = P.all_subs('LatticeWorker')
    roots += [f for f in P.funcs.values() if f.cls in workers and not f.dtor]
    env.count('entry_points', len(roots))
    env.floor('entry_points', 60)
    env.count('processor_classes', len(procs))

    def skip(u, v, n):
        g = P.funcs[v]
        return g.q in TRAINING or g.cls in facts or (g.ctor and g.cls in procs)    # configuration of a new processor object
    par = env.G.reach([f.u for f in roots], skip=skip)
    env.count('reachable_functions', len(par))
    env.floor('reachable_functions', 1200)
    # positive instance: constructors and init code do write processor fields
    seen = sum(1 for f in P.funcs.values() if f.cls in procs and f.u not in par for n in f.walk() for t in written(n)
               if any(owner(x) in procs for x in path_fields(t)))
    env.count('processor_field_writes_outside_processing', seen)
    env.floor('processor_field_writes_outside_processing', 20)
    for u in par:
        f = P.funcs[u]
        if not f.file.startswith(STATE_DIRS):
            continue
        bad = False
        stat = set()
        for n in f.walk():
            for d in n.get('decls', ()) or ():
                if d.get('stat'):
                    stat.add(d['v'])
                    i = n.get('decls').index(d)
                    if d.get('init') and n.c[i] is not None and any(
                            m.k == 'CXXThisExpr' or (m.k == 'DeclRefExpr' and 'v' in m.d and m.d['v'] not in stat) for m in n.c[i].walk()):
                        bad = True
                        env.bad('%s static %s' % (f.q, d.get('n')), n.loc(),
                                'function-local static initialised from the first lattice processed: ' + label(env, par, u))
        for n, t, inner in all_writes(env, f):
            fl = path_fields(t)
            hit = [x for x in fl if owner(x) in procs]
            r = root_of(t)
            if r[0] == 'v' and r[1] in stat:
                bad = True
                env.bad('%s writes static local' % f.q, n.loc(), 'function-local static state survives from one lattice to the next: ' + label(env, par, u))
                continue
            if r[0] == 'v' and by_value_local(f, r[1]):
                continue
            if hit:
                what = hit[-1] if inner in (None, hit[-1]) else '%s (%s)' % (hit[-1], inner)
                if inner in SCRATCH or hit[-1] in SCRATCH:
                    env.count('exempt_scratch_writes')
                    continue
                if inner and set_anew(env, inner, par):
                    env.count('fields_set_anew')
                    continue
                bad = True
                env.bad('%s writes %s' % (f.q, what), n.loc(),
                        'processing one lattice changes the field %s of a processor that is used again: %s' % (what, label(env, par, u)))
            elif r[0] == 'g' and r[1] in SCRATCH:
                env.count('exempt_scratch_writes')
            elif r[0] == 'g' and r[1] and r[1] not in LOGGING and is_program_var(env, r[1]):
                bad = True
                env.bad('%s writes %s' % (f.q, r[1]), n.loc(), 'processing one lattice changes the global %s: %s' % (r[1], label(env, par, u)))
        if not bad:
            env.ok()


def set_anew(env, q, par):
    """is the value of field q always set during the processing of the lattice at hand before it is read?"""
    d = env.__dict__.setdefault('_anew', {})
    if q in d:
        return d[q]
    import definite
    D = env.__dict__.setdefault('_definite', None) or definite.Definite(env)
    env._definite = D
    P, c = env.P, owner(q)
    own = {c} | P.all_subs(c)
    d[q] = False
    fld = [x for x in P.recs.get(c, {}).get('fields', ()) if x['q'] == q]
    if not fld or not definite.scalar(fld[0]['t']):
        return False
    for f in P.funcs.values():                      # nobody looks at it from outside
        if f.cls not in own and f.u in par and any(x.k == 'MemberExpr' and x.get('mf') == q for x in f.walk()):
            return False
    for u in par:
        f = P.funcs[u]
        if f.cls not in own or f.ctor or f.dtor or q not in D.needs(f):
            continue
        for v, node in env.G.inn[u]:
            if v not in par or node is None:
                continue
            g = P.funcs[v]
            for i in range(3):                      # from the name of the function to its call
                if node.k not in ('CXXMemberCallExpr', 'CallExpr') and node.parent is not None:
                    node = node.parent
            if g.cls in own and D.this_call(node) is not None:
                continue
            if g.cls in own and g.ctor:
                continue
            r = receiver_of(node)
            if r is None or not preceded(g, node, lambda x: r == receiver_of(x) and any(q in D.sets(h) for h in P.targets(x))):
                return False
    d[q] = True
    return True


def receiver_of(n):
    if n.k != 'CXXMemberCallExpr' or not n.c or n.c[0] is None:
        return None
    m = strip(n.c[0])
    return canon(m.c[0]) if m is not None and m.k == 'MemberExpr' and m.c else None


def preceded(f, node, pred):
    """does every path from the entry of f to the node pass something that satisfies pred?"""
    blocks, entry, _ = f.cfg
    seen, todo = set(), [entry]
    while todo:
        b = todo.pop()
        if b in seen or b is None:
            continue
        seen.add(b)
        B = blocks[b]
        stop = False
        for x in B.elems:
            if isinstance(x, dict):
                continue
            if x is node:
                return False
            if x.fn and pred(x):
                stop = True
                break
        if not stop:
            todo += [y for y in B.succ if y is not None]
    return True


def is_program_var(env, q):
    vs = memo(env, 'gvars', lambda: {v['q'] for v in env.P.vars.values() if v['file'].startswith(STATE_DIRS)})
    return q in vs


LENT = {'Lattice', 'AnnotationItemManager'}       # what a processor is given to work on


def lent(env, t):
    """does the path of an lvalue lead through a pointer to what the processor works on?"""
    ptrs = memo(env, 'lent', lambda: {x['q'] for r in env.P.recs.values() for x in r['fields']
                                      if x['t'].k == 'ptr' and x['t'].to is not None and x['t'].to.q in LENT})
    e, first = t, True
    while e[0] in ('f', '[]', '*', '&') or e[0] in ('call', 'op') and len(e) > 2 and isinstance(e[2], tuple):
        if e[0] == 'f' and e[2] in ptrs and not first:
            return True
        first = False
        e = e[2] if e[0] in ('call', 'op') else e[1]
    return False


class Unaliased(list):
    """a list of writes in which references and pointers kept in locals are replaced by what they were bound to"""

    def __init__(self, env, f):
        self.env, self.f, self.ty = env, f, local_types(f)
        self.par = {v for v, n, t in f.params}

    def append(self, w):
        n, t, inner = w
        for i in range(4):
            r = root_of(t)
            if r[0] != 'v' or r[1] in self.par or r == t and self.ty.get(r[1]) is not None and self.ty[r[1]].k == 'ptr':
                break
            ty = self.ty.get(r[1])
            if ty is None or ty.k not in ('ref', 'ptr'):
                break
            ds = self.env.ctx.defs(self.f).get(r[1], ())
            if not ds or ds[0] is None or ty.k == 'ptr' and len(ds) != 1:
                break
            e = canon(ds[0])
            if e == r or e[0] not in ('f', 'v', '*', '&', '[]', 'this', 'dyn', 'g'):
                break
            t = put(t, r, e)
        if lent(self.env, t) or t[0] == 'f' and inner != t[2] and lent(self.env, ('*', t)):
            return
        list.append(self, (n, t, inner))


def put(t, a, b):
    if t == a:
        return b
    return tuple(put(x, a, b) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t


def all_writes(env, f):
    """(node, lvalue, innermost field) triples f may modify, looking through the program's own callees"""
    d = env.__dict__.setdefault('_aw', {})
    if f.u in d:
        return d[f.u]
    d[f.u] = out = Unaliased(env, f)
    for n in f.walk():
        if n.fn and n.fn.startswith('boost::foreach_detail_'):
            continue
        for t in FL.assigned_targets(n):
            out.append((n, t, inner_of(t)))
        if n.fn and n.k != 'LambdaExpr':
            tg = env.P.targets(n)
            if not tg:
                if n.k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') or not n.fn.startswith(('std::', 'boost::')) or n.fn in ('std::swap', 'std::getline', 'boost::swap'):
                    for t in written(n):
                        out.append((n, t, inner_of(t)))
                continue
            for g in tg:
                m = FL.call_subst(n, g)
                for v, inner in sorted(effects_on_inputs(env, g), key=repr):
                    if v in m:
                        out.append((n, m[v], inner))
    return out


def inner_of(t):
    fl = path_fields(t)
    return fl[0] if fl else None


def effects_on_inputs(env, g):
    """inputs of g (('this',) or ('v', param)) that g may modify"""
    d = env.__dict__.setdefault('_eff', {})
    if g.u in d:
        return d[g.u]
    d[g.u] = set()
    inputs = {('this',)} | {('v', v) for v, nm, t in g.params if t.k in ('ref', 'ptr')}
    res = set()
    for n, t, inner in all_writes(env, g):
        r = root_of(t)
        if r in inputs and t != r or (r in inputs and r != ('this',) and t == r and param_is_ref(g, r)):
            res.add((r, inner))
        elif t == ('this',):
            res.add((r, inner))
    if g.ctor:
        res = {x for x in res if x[0] != ('this',)}
    d[g.u] = res
    return res


def param_is_ref(g, r):
    return any(('v', v) == r and t.k == 'ref' for v, nm, t in g.params)
