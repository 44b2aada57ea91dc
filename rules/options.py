"""Options: what is read was declared, with the type it is read with, and is there."""
from common import *
from flow import strip, canon
import flow as FL

MAP = 'variables_map'
DESC = 'options_description'


def has(t, name):
    return t is not None and name in repr(t).split('<')[0] + repr(t)


def dispatch(P, cls, name, nparams=None):
    """definition of method `name` run for an object of class cls (a Cls: of that instantiation)"""
    todo, seen = [cls], set()
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        for f in P.by_cls.get(c, ()):
            if f.name == name and f.cfg and (nparams is None or len(f.params) == nparams):
                if isinstance(cls, Cls) and c == str(cls) and inst(f) != cls.inst:
                    continue
                return f
        todo += sorted(P.supers.get(c, ()))
    return None


class Cls(str):
    """a class; inst: which instantiation, if it is (in) a template"""


def mk(q, how):
    c = Cls(q)
    c.inst = how
    return c


def inst(f):
    return repr(f.clst) if f.clst is not None and '<' in repr(f.clst) else None


def callee(env, n, f, cls):
    """definitions a call may run when `this` is an object of class cls"""
    P = env.P
    ts = [t for t in P.targets(n) if t.cfg]
    if n.k != 'CXXMemberCallExpr' or cls is None:
        return ts
    me = strip(n.c[0])
    base = strip(me.c[0]) if me is not None and me.k == 'MemberExpr' and me.c and me.c[0] is not None else None
    if base is not None and base.k != 'CXXThisExpr':
        # another object: of its own factory, or chosen at run time
        return ts if len(ts) == 1 and 'ProcessorFactory' not in {ts[0].cls} | set(P.all_supers(ts[0].cls or '')) else []
    name = (n.fn or '').split('::')[-1]
    if me is not None and me.get('qual'):
        return [t for t in ts if t.q == n.fn] or ts
    d = dispatch(P, cls, name)
    if d is not None and d is not f:
        return [d]
    return [t for t in ts if t.q == n.fn]


class Decl:
    def __init__(self, name, t, default, where):
        self.name, self.t, self.default, self.where = name, t, default, where


def literal(env, n, f=None, bind={}):
    n = strip(n)
    if n is None:
        return None
    x, exact = text_of(n, bind)
    if exact and x:
        return x
    if f is not None and n.k == 'DeclRefExpr' and n.get('v') is not None:
        e = env.ctx.single_def(f, n.get('v'))
        if e is not None:
            return literal(env, e, None, bind)
    c = canon(n)
    if c[0] == 's':
        return c[1]
    ss = [x for x in n.walk() if x.k == 'StringLiteral']
    if len(ss) == 1 and not any(x.get('op') == '+' or x.k == 'ConditionalOperator' for x in n.walk()):
        return ss[0].get('s')
    if n.k == 'DeclRefExpr' and n.get('q'):
        v = env.P.vars.get(n.get('q'))
        e = v.get('init') if isinstance(v, dict) else None
        if e is not None:
            for x in e.walk():
                if x.k == 'StringLiteral':
                    return x.get('s')
    return None


def text_of(n, bind):
    """(text, True) or (end of the text, False)"""
    n = strip(n)
    if n is None:
        return '', False
    if n.k == 'StringLiteral':
        return n.get('s') or '', True
    if n.k == 'DeclRefExpr' and n.get('v') is not None and n.get('v') in bind:
        return bind[n.get('v')], True
    if n.k == 'CXXOperatorCallExpr' and n.get('op') == '+' or n.k == 'BinaryOperator' and n.get('op') == '+':
        a, b = (n.c[1], n.c[2]) if n.k == 'CXXOperatorCallExpr' else n.c[:2]
        x, xe = text_of(a, bind)
        y, ye = text_of(b, bind)
        return (x + y, xe) if ye else (y, False)
    if n.k == 'CXXMemberCallExpr' and (n.fn or '').split('::')[-1] in ('c_str', 'str', 'data'):
        me = strip(n.c[0])
        return text_of(me.c[0], bind) if me is not None and me.c else ('', False)
    if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr'):
        cs = [c for c in n.c if c is not None and c.k != 'CXXDefaultArgExpr']
        if len(cs) == 1:
            return text_of(cs[0], bind)
    return '', False


def typed(n):
    """(type, has a default) of the value_semantic expression n; type None: a flag"""
    if n is None:
        return None, False
    t = None
    default = False
    for x in n.walk():
        nm = (x.fn or '').split('::')[-1]
        if x.k in ('CallExpr', 'CXXMemberCallExpr'):
            if nm in ('default_value', 'bool_switch', 'required'):
                default = True
        if t is None and x.t is not None and 'typed_value<' in repr(x.t):
            y = x.t.strip()
            y = y.to if y.k == 'ptr' else y
            y = y.strip() if y is not None else None
            if y is not None and y.a:
                t = y.a[0]
    return t, default


def declared(env, f, cls, out, seen, bind={}):
    if f is None or (f.u, cls, tuple(sorted(bind.items()))) in seen:
        return
    seen.add((f.u, cls, tuple(sorted(bind.items()))))
    for n in f.walk():
        if n.k == 'CXXOperatorCallExpr' and 'options_description_easy_init::operator()' in (n.fn or ''):
            args = n.c[2:]
            name, exact = text_of(args[0], bind)
            if not exact:
                name = name and '*' + name
            if not name:
                out[None] = Decl(None, None, True, n.loc())
                continue
            name = name.split(',')[0]
            sem = [a for a in args[1:] if a is not None and a.k != 'CXXDefaultArgExpr' and 'value_semantic' in repr(a.t) + ''.join(repr(x.t) for x in a.walk() if x.t is not None)[:4000]]
            t, d = typed(sem[0]) if sem else (None, False)
            out[name] = Decl(name, t, d, n.loc())
        elif n.k in ('CallExpr', 'CXXMemberCallExpr') and (any(has(a.t, DESC) for a in n.c[1:] if a is not None) or has(n.t, DESC)):
            for t in callee(env, n, f, cls):
                b = {}
                for (v, _, _), a in zip(t.params, n.c[1:]):
                    if a is not None:
                        x, exact = text_of(a, bind)
                        if exact:
                            b[v] = x
                declared(env, t, cls, out, seen, b)


def present(st, m, name, as_written=None):
    """is option `name` known to be given in map m?"""
    if as_written is not None and as_written != ('s', name) and present_(st, m, as_written):
        return True
    return present_(st, m, ('s', name))


def present_(st, m, key):
    if st is None:
        return True
    cnt = ('call', 'std::map::count', m, key)
    for a in st:
        if a[0] == 'true' and a[1] == cnt and a[2]:
            return True
        if a[0] == 'true' and a[1] == ('call', 'boost::program_options::variable_value::empty', ('[]', m, key)) and not a[2]:
            return True
        if a[0] == 'eq' and cnt in a[1:3]:
            o = a[2] if a[1] == cnt else a[1]
            if o == ('c', 0) and not a[3] or o == ('c', 1) and a[3]:
                return True
        if a[0] in ('lt', 'le') and len(a) > 2 and a[1] == ('c', 0) and a[2] == cnt and (len(a) < 4 or a[3]) and a[0] == 'lt':
            return True
        if a[0] == 'lt' and len(a) > 3 and a[1] == cnt and a[2] == ('c', 1) and not a[3]:
            return True
        if a[0] == 'eq' and not a[3] and any(x[0] == 'call' and x[1] == 'std::map::find' and x[2:] == (m, key) for x in a[1:3] if isinstance(x, tuple)) \
                and any(x[0] == 'call' and x[1] == 'std::map::end' for x in a[1:3] if isinstance(x, tuple)):
            return True
    return False


def reads(env, f, cls, given, out, seen, path, bind={}):
    """option reads of f and what it hands its map to; given: names known to be there; bind: texts of parameters"""
    key = (f.u, cls, given, tuple(sorted(bind.items())))
    if key in seen or len(path) > 12:
        return
    seen.add(key)
    flow = None
    for n in f.walk():
        if n.k == 'CXXOperatorCallExpr' and n.get('op') == '[]' and has(n.c[1].t, MAP):
            name = literal(env, n.c[2], f, bind)
            p = n.parent
            while p is not None and p.k not in ('CXXMemberCallExpr',):
                p = p.parent
            as_ = p if p is not None and (p.fn or '').endswith('variable_value::as') else None
            flow = flow or env.ctx.flow(f)
            ok = name in given or (name is not None and present(flow.before(as_ or n), canon(n.c[1]), name, canon(n.c[2])))
            out.append((f, n, name, as_, ok, path))
        elif n.k == 'CXXMemberCallExpr' and (n.fn or '').endswith('map::count') and n.c[0] is not None:
            me = strip(n.c[0])
            if me is not None and me.k == 'MemberExpr' and me.c and has(strip(me.c[0]).t, MAP) and len(n.c) > 1:
                out.append((f, n, literal(env, n.c[1], f, bind), None, True, path))
        elif n.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            args = n.c if n.k.startswith('CXXC') or n.k.startswith('CXXT') else n.c[1:]
            ms = [a for a in args if a is not None and has(a.t, MAP)]
            if not ms:
                continue
            flow = flow or env.ctx.flow(f)
            st = flow.before(n)
            g = set(given)
            m = canon(ms[0])
            for a in st or ():
                for x in a[1:3]:
                    if isinstance(x, tuple) and x[0] == 'call' and x[1].endswith('map::count') and x[2] == m and x[3][0] == 's' and present(st, m, x[3][1]):
                        g.add(x[3][1])
            for t in callee(env, n, f, cls):
                if (t.q or '').startswith(('std::', 'boost::')):
                    continue
                b = {}
                for (v, _, _), a in zip(t.params, args):
                    if a is not None:
                        x = literal_arg(env, a, f, bind)
                        if x:
                            b[v] = x
                reads(env, t, cls if n.k == 'CXXMemberCallExpr' and is_this(n) else receiver(env, n, t), frozenset(g), out, seen, path + (f.q,), b)


def literal_arg(env, a, f, bind):
    """text of an argument, when it is a text"""
    t = repr(a.t) if a.t is not None else ''
    if 'char' not in t or MAP in t:
        return None
    return literal(env, a, f, bind)


def is_this(n):
    me = strip(n.c[0])
    if me is None or me.k != 'MemberExpr':
        return False
    b = strip(me.c[0]) if me.c and me.c[0] is not None else None
    return b is None or b.k == 'CXXThisExpr'


def receiver(env, n, t):
    if n.k != 'CXXMemberCallExpr':
        return t.cls
    me = strip(n.c[0])
    b = me.c[0] if me is not None and me.k == 'MemberExpr' and me.c else None
    y = b.t.strip() if b is not None and b.t is not None else None
    if y is not None and y.k in ('ptr', 'ref') and y.to is not None:
        y = y.to.strip()
    if y is not None and y.k == 'rec' and y.q and (y.q == t.cls or t.cls in env.P.all_supers(y.q)):
        return y.q
    return t.cls


def same(a, b):
    return spelled(a) == spelled(b)


def spelled(t):
    return repr(t.strip()).replace('const ', '').replace(' ', '')


def c06(env):
    P = env.P
    if not hasattr(P, 'by_cls'):
        P.by_cls = {}
        for f in P.funcs.values():
            if f.cls:
                P.by_cls.setdefault(f.cls, []).append(f)
    facs = set()
    for c in P.by_cls:
        if 'ProcessorFactory' in P.all_supers(c):
            for f in P.by_cls[c]:
                if f.name == 'doGetName' and f.cfg:
                    facs.add((c, inst(f) or ''))
    for q, how in sorted(facs):
        c = mk(q, how or None)
        opt = dispatch(P, c, 'doOptionsHandled')
        if opt is None:
            continue
        env.count('factories')
        decl = {}
        declared(env, opt, c, decl, set())
        env.count('declared_options', len(decl))
        out = []
        seen = set()
        for name in sorted({f.name for s in [q] + sorted(P.all_supers(q)) for f in P.by_cls.get(s, ()) if any(has(t, MAP) for _, _, t in f.params)}):
            f = dispatch(P, c, name)
            if f is not None:
                reads(env, f, c, frozenset(), out, seen, ())
        judge(env, c, decl, out)
    # programs and files with options of their own
    done = set()
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if not f.cfg or any(has(t, MAP) for _, _, t in f.params):
            continue
        if f.cls and ({'ProcessorFactory'} & (set(P.all_supers(f.cls)) | {f.cls})):
            continue
        if not any(n.k == 'CXXOperatorCallExpr' and n.get('op') == '[]' and has(n.c[1].t, MAP) for n in f.walk()):
            continue
        who = f.cls or f.q
        if who in done:
            continue
        done.add(who)
        env.count('programs')
        decl, out, seen = {}, [], set()
        group = sorted(P.by_cls[f.cls], key=lambda g: g.q) if f.cls else [f]
        c = mk(who, inst(f))
        for g in group:
            if g.cfg and not any(has(t, MAP) or has(t, DESC) for _, _, t in g.params):
                declared(env, g, c, decl, set())
                reads(env, g, c, frozenset(), out, seen, ())
        if not decl:
            env.count('programs_not_followed')
            continue
        judge(env, c, decl, out)
    env.floor('factories', 10)


def find(decl, name):
    if name in decl:
        return decl[name]
    for k, d in decl.items():
        if k and k[0] == '*' and name.endswith(k[1:]):
            return d
    return None


def judge(env, c, decl, out):
    asked = set()
    for f, n, name, as_, given, path in out:
        if name is None or None in decl:
            env.count('names_computed')
            continue
        env.count('option_reads')
        asked.add(name)
        d = find(decl, name)
        own = f.cls is not None and (f.cls == c or c.startswith(f.cls + '::') or f.cls.startswith(c + '::'))
        if d is None:
            if as_ is not None and not given:
                env.bad('undeclared:%s:%s:%s' % (c, f.q, name), n.loc(), '%s reads option "%s", which %s does not declare' % (f.q, name, c))
            elif own and getattr(c, 'inst', None) is None:
                env.bad('undeclared:%s:%s:%s' % (c, f.q, name), n.loc(), '%s asks for option "%s", which %s does not declare' % (f.q, name, c))
            else:
                env.ok('%s: %s reads "%s" only if given' % (c, f.q, name))
            continue
        if as_ is None:
            env.ok('%s: %s asks for "%s"' % (c, f.q, name))
            continue
        t = as_.t
        if d.t is None:
            env.bad('flag:%s:%s:%s' % (c, f.q, name), n.loc(), '%s takes the value of option "%s", which %s declares without a value' % (f.q, name, c))
        elif not same(d.t, t):
            env.bad('type:%s:%s:%s' % (c, f.q, name), n.loc(), '%s reads option "%s" as %r, declared as %r by %s' % (f.q, name, t, d.t, c))
        elif not given and not d.default:
            env.bad('absent:%s:%s:%s' % (c, f.q, name), n.loc(), '%s reads option "%s" of %s, which has no default value, without asking whether it was given' % (f.q, name, c))
        else:
            env.ok('%s: %s reads "%s" as declared' % (c, f.q, name))
    if None in decl:
        return
    # names made at run time: any text in the function that makes them may be read
    for f in {f for f, n, name, as_, given, path in out if name is None}:
        asked |= {x.get('s') for x in f.walk() if x.k == 'StringLiteral'}
    for name, d in sorted((k, d) for k, d in decl.items() if k):
        if not any(x == name or name[0] == '*' and x.endswith(name[1:]) for x in asked):
            env.bad('unread:%s:%s' % (d.where.rsplit(':', 1)[0].split('/')[-1], name), d.where, '%s declares option "%s", which nothing reads' % (c, name))


def local(env, f):
    """a program that declares and reads its options"""
    print('local', f.q, f.file)
