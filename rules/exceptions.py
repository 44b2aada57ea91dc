"""Exceptions: what is thrown, where it is caught, what may leave an entry point."""
import re
from common import *
from extract import AnalysisError

# exceptions of the libraries used: type -> its bases (all the way up)
LIB = {
    'std::exception': (),
    'std::bad_alloc': ('std::exception',),
    'std::bad_cast': ('std::exception',),
    'std::logic_error': ('std::exception',),
    'std::runtime_error': ('std::exception',),
    'std::out_of_range': ('std::logic_error', 'std::exception'),
    'std::invalid_argument': ('std::logic_error', 'std::exception'),
    'std::domain_error': ('std::logic_error', 'std::exception'),
    'std::length_error': ('std::logic_error', 'std::exception'),
    'std::range_error': ('std::runtime_error', 'std::exception'),
    'std::overflow_error': ('std::runtime_error', 'std::exception'),
    'std::underflow_error': ('std::runtime_error', 'std::exception'),
    'std::ios_base::failure': ('std::runtime_error', 'std::exception'),
    'boost::bad_lexical_cast': ('std::bad_cast', 'std::exception'),
    'boost::bad_any_cast': ('std::bad_cast', 'std::exception'),
    'boost::program_options::error': ('std::logic_error', 'std::exception'),
    'boost::filesystem::filesystem_error': ('boost::system::system_error', 'std::runtime_error', 'std::exception'),
    'boost::system::system_error': ('std::runtime_error', 'std::exception'),
    'boost::property_tree::ptree_error': ('std::runtime_error', 'std::exception'),
    'boost::property_tree::ptree_bad_path': ('boost::property_tree::ptree_error', 'std::runtime_error', 'std::exception'),
    'boost::property_tree::ptree_bad_data': ('boost::property_tree::ptree_error', 'std::runtime_error', 'std::exception'),
    'utf8::exception': ('std::exception',),
    'utf8::not_enough_room': ('utf8::exception', 'std::exception'),
    'utf8::invalid_utf8': ('utf8::exception', 'std::exception'),
    'utf8::invalid_code_point': ('utf8::exception', 'std::exception'),
}

# library functions that throw by contract (pattern on the qualified name -> type)
THROWERS = [
    (r'^boost::lexical_cast$', 'boost::bad_lexical_cast'),
    (r'^boost::program_options::(notify|store|parse_command_line|parse_config_file|basic_command_line_parser::run|basic_config_file_parser::run|variable_value::as)$', 'boost::program_options::error'),
    (r'^boost::filesystem::(exists|is_directory|is_regular_file|create_directory|create_directories|current_path|file_size|remove|remove_all|rename|copy_file|last_write_time)$', 'boost::filesystem::filesystem_error'),
    (r'^boost::filesystem::(recursive_)?directory_iterator::(recursive_)?directory_iterator$', 'boost::filesystem::filesystem_error'),
    (r'^boost::property_tree::basic_ptree::(get|get_child|put)$', 'boost::property_tree::ptree_error'),
    (r'^boost::property_tree::(xml_parser|json_parser|ini_parser|info_parser)::read_\w+$', 'boost::property_tree::ptree_error'),
    (r'^utf8::(next|prior|advance|distance|append|utf8to16|utf16to8|utf8to32|utf32to8)$', 'utf8::exception'),
    (r'^std::(\w+::)*at$', 'std::out_of_range'),
    (r'^std::(stoi|stol|stoul|stof|stod)$', 'std::invalid_argument'),
    (r'^std::basic_string::substr$', 'std::out_of_range'),
    (r'^boost::asio::(basic_socket_acceptor::(open|bind|listen|set_option)|basic_resolver::resolve|ip::host_name)$', 'boost::system::system_error'),
]
THROWERS = [(re.compile(p), t) for p, t in THROWERS]


def lib_throw(n):
    fn = n.fn or ''
    if not fn.startswith(('boost::', 'std::', 'utf8::')):
        return None
    for p, t in THROWERS:
        if p.search(fn):
            args = n.c[1:] if n.k == 'CXXMemberCallExpr' else n.c
            if fn.endswith('::substr'):
                a = strip(args[0]) if args else None
                if a is None or FL.canon(a) == ('c', 0):
                    return None
            if fn == 'boost::lexical_cast' and n.t is not None and n.t.q == 'std::basic_string':
                a = args[-1] if args else None
                at = a.t.strip() if a is not None and a.t is not None else None
                if at is not None and (at.k in ('int', 'bool', 'float', 'enum', 'char') or at.q == 'std::basic_string'):
                    return None
            if fn.startswith('boost::filesystem::') or fn.startswith('boost::asio::'):
                if any(a is not None and a.t is not None and a.t.q == 'boost::system::error_code' for a in args):
                    return None
            if fn.endswith('basic_ptree::get') and len([a for a in args if a is not None and a.k != 'CXXDefaultArgExpr']) > 1:
                # a default value is given: get() does not throw
                two = [a for a in args if a is not None and a.k != 'CXXDefaultArgExpr']
                if len(two) >= 2 and 'translator' not in str(two[1].t):
                    return None
            return t
    return None


def bases_of(P, t):
    if t in LIB:
        return set(LIB[t]) | {t}
    out = {t} | P.all_supers(t)
    for x in list(out):
        if x in LIB:
            out |= set(LIB[x])
    return out


def handler_type(h):
    t = h.get('ct')
    return None if t is None else (t.strip().q or t.strip().s)


def catches(P, h, t):
    ht = handler_type(h)
    return ht is None or ht in bases_of(P, t)


def thrown_type(n):
    """(type record name or None, Type) of a throw expression with an operand"""
    e = n.c[0] if n.c else None
    if e is None:
        return None, None
    t = e.t.strip() if e.t is not None else None
    return (t.q if t is not None and t.k == 'rec' else None), t


def tries_around(n):
    """[(try statement, handler n lies in or None)], innermost first, up to the enclosing lambda or function"""
    out = []
    c, p = n, n.parent
    while p is not None:
        if p.k == 'LambdaExpr':
            break
        if p.k == 'CXXTryStmt':
            out.append((p, None if p.c and p.c[0] is c else c))
        c, p = p, p.parent
    return out


def plugin_names(P):
    """names of the plugins PluginManager registers"""
    out = set()
    classes = set()
    for f in P.byname('PluginManager::PluginManager'):
        for n in f.walk():
            if n.k == 'CXXNewExpr' and n.t is not None and n.t.to is not None:
                classes.add(n.t.to.q)
    for f in P.funcs.values():
        if f.name == 'getName' and f.cls in classes:
            for n in f.walk():
                if n.k == 'StringLiteral':
                    out.add(n.get('s'))
    return out


class Escapes:
    def __init__(self, env, lib=True):
        self.P = env.P
        P = env.P
        plugins = plugin_names(P)
        self.known_plugin = set()
        self.lib = lib
        self.local = {}     # usr -> [(node, frozenset(types) or None, callees)]
        self.esc = {u: {} for u in P.funcs}   # usr -> {type: witness node}
        callers = {}
        for f in P.funcs.values():
            items = []
            for n in f.walk():
                if n.k == 'CXXThrowExpr':
                    q, t = thrown_type(n)
                    if t is None:
                        continue     # rethrow: handled with its handler
                    items.append((n, {q or ('!' + t.s)}, ()))
                elif n.fn and n.k != 'LambdaExpr':
                    if n.m in ('assert',):
                        continue
                    tg = P.targets(n)
                    if n.fn.startswith('PluginManager::') and len(n.c) > 1 and FL.canon(n.c[1])[0] == 's' and FL.canon(n.c[1])[1] in plugins:
                        self.known_plugin.add(n)
                    ts = set()
                    if not tg and lib:
                        lt = lib_throw(n)
                        if lt:
                            ts.add(lt)
                    if tg or ts:
                        items.append((n, ts, tuple(x.u for x in tg)))
                        for x in tg:
                            callers.setdefault(x.u, set()).add(f.u)
                elif n.k == 'CXXDynamicCastExpr' and n.t is not None and n.lv:
                    items.append((n, {'std::bad_cast'}, ()))
            self.local[f.u] = items
        todo = list(P.funcs)
        inq = set(todo)
        while todo:
            u = todo.pop()
            inq.discard(u)
            new = self.compute(P.funcs[u])
            if set(new) - set(self.esc[u]):
                self.esc[u] = new
                for c in callers.get(u, ()):
                    if c not in inq:
                        inq.add(c)
                        todo.append(c)

    def filtered(self, n, t):
        """does exception t raised at n leave the function?"""
        for tr, h in tries_around(n):
            if h is not None:
                continue
            for hd in tr.c[1:]:
                if hd is None:
                    continue
                if catches(self.P, hd, t):
                    if rethrows(hd):
                        break           # goes on outwards
                    return False
            # no handler or rethrown: continue with the enclosing try
        return True

    def compute(self, f):
        out = {}
        for n, ts, callees in self.local[f.u]:
            all_t = set(ts)
            for c in callees:
                all_t |= set(self.esc[c])
            if n in self.known_plugin:
                all_t.discard('PluginManager::UnknownPluginException')
            for t in all_t:
                if t not in out and self.filtered(n, t):
                    out[t] = n
        return out

    def at(self, n):
        """types that may be raised at node n and leave its function"""
        for m, ts, callees in self.local[n.func.u]:
            if m is n:
                all_t = set(ts)
                for c in callees:
                    all_t |= set(self.esc[c])
                return {t for t in all_t if self.filtered(n, t)}
        return set()

    def chain(self, u, t, depth=12):
        out = []
        seen = set()
        while u not in seen and len(out) < depth:
            seen.add(u)
            f = self.P.funcs[u]
            n = self.esc[u].get(t)
            if n is None:
                break
            out.append('%s (%s)' % (f.q, n.loc()))
            nxt = None
            for m, ts, callees in self.local[u]:
                if m is n:
                    if t in ts:
                        return out
                    for c in callees:
                        if t in self.esc[c]:
                            nxt = c
                            break
            if nxt is None:
                break
            u = nxt
        return out


def rethrows(hd):
    for x in hd.walk():
        if x.k == 'CXXThrowExpr' and (not x.c or x.c[0] is None):
            p = x.parent
            while p is not None and p.k != 'CXXCatchStmt':
                p = p.parent
            if p is hd:
                return True
    return False


def escapes(env, lib=True):
    return memo(env, ('escapes', lib), lambda: Escapes(env, lib))


# ------------------------------------------------------------------ C07
def c07(env):
    P = env.P
    E = escapes(env)
    called = set()
    for f in P.funcs.values():
        for n, ts, callees in E.local[f.u]:
            called |= set(callees)
    for f in P.funcs.values():
        for n in f.walk():
            if n.k != 'CXXThrowExpr':
                continue
            q, t = thrown_type(n)
            if t is None:
                # rethrow must be inside a handler
                if n.inside('CXXCatchStmt') is None:
                    env.bad('rethrow-outside:' + f.q, n.loc(), '"throw;" outside a handler in %s ends the program' % f.q)
                else:
                    env.ok()
                continue
            env.count('throw_sites')
            if t.k != 'rec':
                env.bad('not-class:' + f.q + ':' + t.s, n.loc(),
                        '%s throws a value of type %s, which no handler of the program catches' % (f.q, t.s))
                continue
            e = FL.strip(n.c[0])
            h = n.inside('CXXCatchStmt')
            if h is not None and e is not None and e.k == 'DeclRefExpr' and 'v' in e.d and e.get('v') == h.get('v'):
                ht = h.get('ct')
                if ht is not None and ht.k == 'ref' and P.all_subs(ht.strip().q or '') | ({1} if ht.strip().q in LIB else set()):
                    env.bad('slice:' + f.q, n.loc(), '%s rethrows a copy of the handled %s: an exception of a derived type is cut down to it' % (f.q, ht.strip().q))
                    continue
            if 'std::exception' in bases_of(P, q):
                env.ok('%s throws %s' % (n.loc(), q))
                continue
            # a type of its own: must be caught before it leaves the functions that are called from outside
            roots = [u for u in P.funcs if q in E.esc[u] and u not in called]
            if roots:
                r = sorted(roots, key=lambda u: P.funcs[u].q)[0]
                env.bad('foreign:' + q + ':' + P.funcs[r].q, n.loc(),
                        '%s is no std::exception and leaves %s: %s' % (q, P.funcs[r].q, ' -> '.join(E.chain(r, q))))
            else:
                env.ok('%s throws %s, caught by every caller' % (n.loc(), q))
    env.floor('throw_sites', 80)


# ------------------------------------------------------------------ C08
def std_handler(hd):
    return handler_type(hd) in (None, 'std::exception')


def c08(env):
    P = env.P
    E = escapes(env)
    # 1. entry points
    entries = [f for f in P.funcs.values() if f.q == 'main' and f.file.startswith(('framework/', 'server/', 'psi-pipe/', 'psi-server/'))]
    env.anchor(len(entries) >= 2, 'main of psi-pipe and psi-server')
    thread = [f for f in P.funcs.values() if f.q in (
        'http::server3::connection::handle_read', 'http::server3::connection::handle_write',
        'http::server3::server::handle_accept', 'http::server3::connection::start', 'http::server3::server::run')]
    env.anchor(any(f.name == 'handle_read' for f in thread), 'connection::handle_read')
    for f in entries + thread:
        env.count('entry_points')
        bad = False
        for t, n in sorted(E.esc[f.u].items()):
            ch = E.chain(f.u, t)
            bad = True
            env.bad('entry:%s:%s' % (f.q + '@' + f.file, t), n.loc(),
                    '%s leaves %s and ends the program: %s' % (t, f.q, ' -> '.join(ch)))
        if not bad:
            env.ok('%s (%s): nothing escapes' % (f.q, f.file))
    # 2. functions that must not throw (destructors, noexcept)
    for f in P.funcs.values():
        if not (f.dtor or f.nothrow):
            continue
        env.count('nothrow_functions')
        es = {t: n for t, n in E.esc[f.u].items() if t not in ('std::out_of_range',)}
        if es:
            t, n = sorted(es.items())[0]
            env.bad('nothrow:%s:%s' % (f.q, t), n.loc(), '%s may leave %s, which must not throw: %s' % (t, f.q, ' -> '.join(E.chain(f.u, t))))
        else:
            env.ok()
    # 3. a pipeline run for a request: failures become an answer
    for f in P.funcs.values():
        if not f.file.startswith('server/'):
            continue
        for n in f.walk():
            if n.fn in ('PipeRunner::PipeRunner', 'PipeRunner::run', 'PipeRunner::runLine'):
                if n.get('cc') or n.get('mc'):
                    continue
                env.count('pipelines_in_server')
                good = False
                for tr, h in tries_around(n):
                    if h is None and any(std_handler(x) and not rethrows(x) for x in tr.c[1:] if x is not None):
                        good = True
                if not good and any(all_callers_guard(env, f, set()) for _ in (1,)):
                    good = True
                if good:
                    env.ok('%s: %s inside a handler' % (n.loc(), n.fn))
                else:
                    env.bad('pipeline:' + f.q, n.loc(), 'a failure of the pipeline leaves %s instead of becoming a message in the answer' % f.q)
    env.floor('pipelines_in_server', 2)
    # 4. a failed run is reported by the exit status of the program
    for f in entries:
        seen = set()
        exit_status(env, E, f, seen)


def registered(env):
    """methods that answer requests"""
    import server
    if not hasattr(env, 'answering'):
        env.answering = set(m.u for w in ('registerIncludeCode', 'registerActionCode') for regs in server.registrations(env, w).values() for m, n, f in regs if m is not None)
    return env.answering


def all_callers_guard(env, f, seen):
    if f.u in seen:
        return True
    seen.add(f.u)
    ins = env.G.inn.get(f.u, ())
    if not ins or f.u in registered(env):
        return False
    for c, n in ins:
        if n is None or env.P.funcs[c].file.startswith('server/server/') or env.P.funcs[c].cls in ('PsiServer', 'PsiRequestHandler'):
            # the handler of last resort of the connection does not know what the request was for
            return False
        if any(h is None and any(std_handler(x) and not rethrows(x) for x in tr.c[1:] if x is not None) for tr, h in tries_around(n)):
            continue
        if not all_callers_guard(env, env.P.funcs[c], seen):
            return False
    return True


def exit_status(env, E, f, seen):
    """handlers of f that end a run make the returned status non-zero"""
    if f.u in seen:
        return
    seen.add(f.u)
    for n in f.walk():
        if n.k == 'CXXCatchStmt' and std_handler(n):
            env.count('final_handlers')
            v = status_after(env, f, n)
            if v is None:
                env.ok()
            elif v:
                env.ok('%s: failure returns a non-zero status' % n.loc())
            else:
                env.bad('status:' + f.q + '@' + f.file, n.loc(), 'after the failure handled here %s returns 0: the caller sees success' % f.q)
        if n.k == 'ReturnStmt' and n.c:
            for x in n.c[0].walk() if n.c[0] is not None else ():
                if x.fn:
                    for t in env.P.targets(x):
                        if t.ret is not None and t.ret.s == 'int':
                            exit_status(env, E, t, seen)


def status_after(env, f, h):
    """True: non-zero on every path from handler h to a return; False: some path returns constant 0; None: unknown"""
    rets = [x for x in h.walk() if x.k == 'ReturnStmt']
    vals = []
    last = h.c[-1] if h.c else None
    falls = not (last is not None and last.c and last.c[-1] is not None and last.c[-1].k in ('ReturnStmt', 'CXXThrowExpr'))
    for r in rets:
        vals.append(value_of(env, f, r, h))
    if rethrows(h):
        return True
    if falls:
        # returns that follow the try statement
        tr = h.parent
        body = tr.parent
        while body is not None and tr is not None:
            if body.k == 'CompoundStmt':
                i = [k for k, c in enumerate(body.c) if c is tr]
                after = body.c[i[0] + 1:] if i else []
                rs = [x for c in after if c is not None for x in c.walk() if x.k == 'ReturnStmt']
                for r in rs:
                    vals.append(value_of(env, f, r, h))
                if rs:
                    break
            tr, body = body, body.parent
    if any(v is False for v in vals):
        return False
    if vals and all(v is True for v in vals):
        return True
    return None


def value_of(env, f, r, h):
    e = FL.canon(r.c[0]) if r.c and r.c[0] is not None else None
    if e is None:
        return None
    if e[0] == 'c':
        return e[1] != 0
    if e[0] == 'v':
        # the value the variable has after the handler: assigned in the handler, or its initial value
        vals = []
        for x in h.walk():
            for t in FL.assigned_targets(x):
                if t == e and x.k == 'BinaryOperator' and len(x.c) > 1:
                    c = FL.canon(x.c[1])
                    vals.append(c[1] != 0 if c[0] == 'c' else None)
        if vals:
            return vals[-1]
        inits = []
        for x in f.walk():
            for d in x.get('decls', ()) or ():
                if d['v'] == e[1] and d.get('init') is not None:
                    inits.append(x)
        for x in inits:
            for c in x.c:
                if c is None:
                    continue
                cc = FL.canon(c)
                if cc[0] == 'c' and len([d for d in x.get('decls')]) == 1:
                    # initial value, kept when the assignment in the try block threw
                    return cc[1] != 0
    return None
