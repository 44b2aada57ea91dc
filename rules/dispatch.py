"""C33: what a class defines is what is used when it is asked through a general interface."""
from common import *
from definite import third

FOREIGN = ('fex/', 'maxent/', 'sundown/', 'utf8/', 'uchardet/', 'tiniconv/', 'utf8case/', 'common/md5.', 'tools/translators/bonsai/irstlm/')
# what an alias defined by a configuration file says of itself, and not of the processor it stands for
OWN_IDENTITY = {('FromConfigurationAnnotatorFactory', 'doOptionsHandled'): 'an alias has no options',
                ('FromConfigurationAnnotatorFactory', 'doGetName'): 'an alias has its own name',
                ('FromConfigurationAnnotatorFactory', 'doGetDescription'): 'an alias has its own description'}

# asks the hook on some ways only
SOMETIMES = {'Cutter::cutOff': 'the rest of a segment that was asked for before is given first'}


def own(file):
    return not file.startswith(FOREIGN) and not third(file)


def bases_of(P, q):
    out, todo = [], [q]
    while todo:
        r = P.recs.get(todo.pop())
        for b in (r['bases'] if r else ()):
            bq = getattr(b, 'q', None)
            if bq and bq not in out:
                out.append(bq)
                todo.append(bq)
    return out


def sig(m):
    return [repr(t) for t in m.get('pt') or ()]


def plain(m):
    """the types of the parameters without const, references and pointers"""
    out = []
    for t in m.get('pt') or ():
        while t is not None and t.k in ('ref', 'ptr') and t.to is not None:
            t = t.to
        t = t.strip() if t is not None else None
        out.append((t.k, t.q) if t is not None else None)
    return out


def is_virtual(m):
    return bool(m.get('vm') or m.get('ov'))


def hook(name):
    return 'do' + name[:1].upper() + name[1:]


def unhook(name):
    return name[2:3].lower() + name[3:] if name.startswith('do') and name[2:3].isupper() else None


def own_records(env):
    for q, r in sorted(env.P.recs.items()):
        if r.get('file') and own(r['file']) and not r.get('dep'):
            yield q, r


# ------------------------------------------------------------------ R1: functions meant to override that do not
def hidden(env):
    P = env.P
    called = {u for u, c in env.G.inn.items() if c}
    virtuals = {}                          # (name, signature) -> classes that declare it virtual
    for q, r in P.recs.items():
        for m in r['methods']:
            if m.get('vm') and not m.get('ov'):
                virtuals.setdefault((m['n'], tuple(sig(m))), []).append(q)
    n = 0
    for q, r in own_records(env):
        bs = bases_of(P, q)
        names = {}
        for m in r['methods']:
            names.setdefault(m['n'], []).append(m)
        for m in r['methods']:
            if m['n'].startswith('~') or m['n'] == q.split('::')[-1] or m.get('static') or m['n'].startswith('operator'):
                continue
            if m.get('ov'):
                n += 1
                env.count('overriders')
                continue
            some = any(x.get('ov') for x in names[m['n']])
            for b in bs:
                like = [x for x in (P.recs[b]['methods'] if b in P.recs else ()) if x['n'] == m['n'] and is_virtual(x)
                        and (not some or (plain(m) == plain(x) and not any(y.get('ov') and sig(y) == sig(x) and y is not m for y in names[m['n']])))]
                if like:
                    env.bad('hides:%s::%s' % (q, m['n']), '%s:%s' % (r['file'], m.get('l') or r['l']),
                            '%s::%s(%s) hides the virtual function of %s instead of overriding it: whoever asks through %s gets the answer of the base class'
                            % (q, m['n'], ', '.join(sig(m)), b, b))
                    break
            # a hook of a class nested in this one, or around it, that nobody calls here
            if m['u'] in called or any(m['u'] in (x.get('ov') or ()) for r2 in P.recs.values() for x in r2['methods']):
                continue
            for b in virtuals.get((m['n'], tuple(sig(m))), ()):
                near = [c for c in P.all_subs(b) if (c.startswith(q + '::') or q.startswith(c + '::'))]
                if b in bs or b == q or not near:
                    continue
                if any(m2['n'] == m['n'] and m2.get('ov') for c in near for m2 in P.recs[c]['methods']):
                    continue
                env.bad('misplaced:%s::%s' % (q, m['n']), '%s:%s' % (r['file'], m.get('l') or r['l']),
                        '%s::%s(%s) overrides nothing and is never called; it is what %s would have to define to change the answer of %s'
                        % (q, m['n'], ', '.join(sig(m)), near[0], b))
                break
    for i in range(n):
        env.ok()


# ------------------------------------------------------------------ R2: the public function hands over to the hook
def always_calls(env, f, pred, depth=2):
    """on every way to the end of f a node satisfies pred (directly or in a callee of the same class)"""
    if not f.cfg:
        return None
    blocks, entry, exit_ = f.cfg
    stop = set()
    for b, B in blocks.items():
        for e in B.elems:
            if isinstance(e, dict):
                continue
            for n in e.walk():
                if pred(n):
                    stop.add(b)
                elif depth and n.u and n.k in ('CXXMemberCallExpr', 'CallExpr'):
                    t = [g for g in env.P.targets(n)]
                    if t and all(g.cls == f.cls and g is not f and always_calls(env, g, pred, depth - 1) for g in t):
                        stop.add(b)
    seen, todo = set(), [entry]
    while todo:
        b = todo.pop()
        if b in seen or b in stop or b is None:
            continue
        seen.add(b)
        if b == exit_:
            return False
        if blocks[b].noret:
            continue
        todo += [s for s in blocks[b].succ if s is not None]
    return True


def result_of(env, f, e, pred, depth=3):
    """is the value of e that of a call satisfying pred? True/False/None (not decided)"""
    e = strip(e)
    if e is None:
        return None
    if pred(e):
        return True
    if e.k == 'DeclRefExpr' and 'v' in e.d:
        if any(d['v'] == e.get('v') and d.get('stat') for n in f.walk() for d in n.get('decls', ()) or ()):
            return False                                  # the answer to an earlier question
        ds = env.ctx.defs(f).get(e.get('v')) if hasattr(env.ctx, 'defs') else None
        if not ds:
            return None
        rs = [result_of(env, f, d, pred, depth - 1) if d is not None and depth else None for d in ds]
        if any(r for r in rs):
            return True
        return None
    if e.k in ('CXXMemberCallExpr', 'CallExpr') and e.u and depth:
        for g in env.P.targets(e):
            if g.cls == f.cls and any(pred(n) for n in g.walk()):
                return True
        return False
    if any(pred(n) for n in e.walk()):
        return None
    if e.k in ('StringLiteral', 'IntegerLiteral', 'CXXBoolLiteralExpr', 'FloatingLiteral', 'MemberExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        return False
    return None


def hooks(env):
    P = env.P
    recs = dict(own_records(env))
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if not f.cls or f.cls not in recs or f.ctor or f.dtor or not f.cfg:
            continue
        D = hook(f.name)
        mine = [(b, m) for b in [f.cls] + bases_of(P, f.cls) if b in P.recs for m in P.recs[b]['methods'] if m['n'] == D and is_virtual(m)]
        if not mine or f.virtual or f.name.startswith('create'):
            continue
        ps = [repr(t) for v, n, t in f.params]
        same = [m for b, m in mine if sig(m) == ps]
        us = {m['u'] for b, m in (mine if not same else mine)}
        env.count('hooks')
        loc = '%s:%s' % (f.file, f.line)

        def pred(n):
            return n.k == 'CXXMemberCallExpr' and n.u in us
        calls = [n for n in f.walk() if pred(n)]
        r = always_calls(env, f, pred) if same and f.q not in SOMETIMES else bool(calls) or any(n.u for n in f.walk() if n.k == 'CXXMemberCallExpr' and any(
            any(pred(x) for x in g.walk()) for g in P.targets(n) if g.cls == f.cls))
        if r is False:
            env.bad('hook:%s' % f.q, loc, '%s does not ask %s on every way through it: what the classes derived from %s define there is not used' % (f.q, D, f.cls))
            continue
        wrong = False
        for n in calls:
            if n.get('qual') or (n.c and n.c[0] is not None and strip(n.c[0]) is not None and strip(n.c[0]).get('qual')):
                wrong = True
                env.bad('hook:%s:qual' % f.q, n.loc(), '%s asks the base class\'s own %s' % (f.q, D))
            m = [x for b, x in mine if x['u'] == n.u]
            if same and m and sig(m[0]) != ps and not any(c.u in {x['u'] for x in same} for c in calls):
                wrong = True
                env.bad('hook:%s:args' % f.q, n.loc(), '%s(%s) asks the variant of %s without these arguments' % (f.q, ', '.join(ps), D))
            if m and sig(m[0]) == ps:
                args = n.c[1:]
                for i, (v, nm, t) in enumerate(f.params):
                    if i < len(args) and args[i] is not None:
                        a = strip(args[i])
                        while a is not None and a.k in ('CXXConstructExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') and len([x for x in a.c if x is not None]) == 1:
                            a = strip(a.c[0])
                        vs = [x.get('v') for x in args[i].walk() if x.k == 'DeclRefExpr' and 'v' in x.d]
                        others = [w for w, nm2, t2 in f.params if w in vs and w != v and repr(t2) == repr(t)]
                        if v not in vs and (others or not vs):
                            wrong = True
                            env.bad('hook:%s:arg%d' % (f.q, i), n.loc(), '%s does not pass its argument %s on to %s' % (f.q, nm or i + 1, D))
        if same and f.ret is not None and f.ret.k != 'void' and f.q not in SOMETIMES:
            for n in f.walk():
                if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                    if result_of(env, f, n.c[0], pred) is False:
                        wrong = True
                        env.bad('hook:%s:result' % f.q, n.loc(), '%s returns something else than what %s answered' % (f.q, D))
        if not wrong:
            env.ok('%s -> %s' % (f.q, D))


# ------------------------------------------------------------------ R3: wrappers forward to the function of the same meaning
def plain_returned(f):
    """calls whose value is directly what f returns"""
    for n in f.walk():
        if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
            e = strip(n.c[0])
            while e is not None and e.k in ('CXXConstructExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and len([x for x in e.c if x is not None]) == 1:
                e = strip(e.c[0])
            if e is not None and e.k == 'CXXMemberCallExpr' and (e.fn or '').endswith('::get_value_or') and len(e.c) > 1:
                e = strip(e.c[1])
                while e is not None and e.k in ('CXXConstructExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') and len([x for x in e.c if x is not None]) == 1:
                    e = strip(e.c[0])
            if e is not None and e.k == 'CXXMemberCallExpr' and e.u:
                yield n, e


def wrapped(P, q):
    """interfaces class q holds an object of and speaks for: (field, class)"""
    made_of = set()
    for f in P.funcs.values():
        if f.ctor and f.cls == q:
            for v, n, t in f.params:
                t = t.strip() if t is not None else None
                if t is not None and t.k == 'ptr' and t.to is not None:
                    made_of.add(t.to.q)
    for x in [x for b in [q] + bases_of(P, q) if b in P.recs for x in P.recs[b]['fields']]:
        t = x['t'].strip() if x['t'] is not None else None
        if t is None:
            continue
        while t is not None and t.k in ('ptr', 'ref') and t.to is not None:
            t = t.to.strip()
        if t.k == 'rec' and t.q and t.q.split('::')[-1] in ('shared_ptr', 'scoped_ptr', 'auto_ptr', 'unique_ptr') and t.a and t.a[0] is not None:
            t = t.a[0].strip()
        if t.k == 'rec' and t.q in P.recs and P.recs[t.q].get('poly'):
            yield x['q'], ([c for c in sorted(made_of & P.all_subs(t.q)) if c] or [t.q])[0]


def public_methods(P, q):
    out = {}
    for b in [q] + bases_of(P, q):
        for m in (P.recs[b]['methods'] if b in P.recs else ()):
            out.setdefault(m['n'], []).append(m)
    return out


def with_options(f, n, variants):
    """does call n pass on options held by the object or given to f, if there are variants that take options?"""
    def opts(t):
        return t is not None and (t.strip().q or '').endswith('variables_map')
    if not any(opts(t) for m in variants for t in m.get('pt') or ()):
        return True
    return any(opts(x.t) and x.k in ('MemberExpr', 'DeclRefExpr') for a in n.c[1:] if a is not None for x in a.walk())


def wrappers(env):
    P = env.P
    procs = P.all_subs('ProcessorFactory') | P.all_subs('ProcessorPromise')
    for q, r in own_records(env):
        if not r.get('poly') or q not in procs:
            continue
        ws = [w for w in wrapped(P, q) if w[1] in P.all_subs('ProcessorFactory') | P.all_subs('ProcessorPromise') | {'ProcessorFactory', 'ProcessorPromise'}]
        if not ws:
            continue
        env.count('wrappers')
        for f in sorted((f for f in P.funcs.values() if f.cls == q and f.cfg and not f.ctor and not f.dtor), key=lambda f: f.q):
            N = unhook(f.name)
            if N is None or (q, f.name) in OWN_IDENTITY:
                continue
            for field, K in ws:
                ms = public_methods(P, K)
                if N not in ms and N == 'createProcessor' and 'createAnnotator' in ms:
                    continue
                if N not in ms:
                    continue
                env.count('forwarded')
                names = {N, 'createProcessor' if N.startswith('create') else N, 'createAnnotator' if N.startswith('create') else N}

                def pred(n):
                    return n.k == 'CXXMemberCallExpr' and (n.fn or '').split('::')[-1] in names and n.u not in {m['u'] for m in r['methods']}
                got = [n for n in f.walk() if pred(n)]
                deeper = [g for n in f.walk() if n.k == 'CXXMemberCallExpr' for g in P.targets(n) if g.cls == q and any(pred(x) for x in g.walk())]
                if not got and not deeper:
                    env.bad('forward:%s' % f.q, '%s:%s' % (f.file, f.line), '%s does not ask the %s it stands for about %s' % (f.q, K, N))
                elif any(result_of(env, f, n.c[0], pred) is False for n in f.walk() if n.k == 'ReturnStmt' and n.c and n.c[0] is not None
                         and not any(pred(x) for x in n.c[0].walk())) and not deeper:
                    env.bad('forward:%s:result' % f.q, '%s:%s' % (f.file, f.line), '%s does not on every way answer what the %s it stands for answers about %s' % (f.q, K, N))
                elif got and not deeper and not any(with_options(f, n, ms[N]) for n in got):
                    env.bad('forward:%s:options' % f.q, got[0].loc(), '%s asks the %s it stands for about %s without the options' % (f.q, K, N))
                else:
                    env.ok('%s -> %s::%s' % (f.q, K, N))
    # the same for static functions of a template's argument
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        N = unhook(f.name)
        if N is None or not f.cls or not own(f.file):
            continue
        for n in f.walk():
            if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                e = strip(n.c[0])
                if e is None or e.k != 'CallExpr' or not e.fn or '::' not in e.fn:
                    continue
                K, M = e.fn.rsplit('::', 1)
                if K not in P.recs or K == f.cls:
                    continue
                ms = public_methods(P, K)
                if M == N:
                    env.count('forwarded')
                    if f.params and len(e.c) < 2 and any(len(m.get('pt') or ()) == len(f.params) for m in ms.get(N, ())):
                        env.bad('forward:%s:options' % f.q, n.loc(), '%s asks %s without its arguments' % (f.q, e.fn))
                        continue
                    env.ok('%s -> %s' % (f.q, e.fn))
                elif N in ms and M in ms and repr(ms[M][0].get('ret')) == repr(ms[N][0].get('ret')):
                    env.bad('other:%s' % f.q, n.loc(), '%s answers with %s, although %s::%s is what it is asked' % (f.q, e.fn, K, N))
    # a class that gives the answers of its template's argument gives all of them
    by_cls = {}
    for f in P.funcs.values():
        if f.cls and unhook(f.name) and own(f.file) and f.cfg:
            by_cls.setdefault((f.cls, f.u.rsplit('@F@', 1)[0]), []).append(f)
    for (c, _), fs in sorted(by_cls.items()):
        votes = {}
        for f in fs:
            for n in f.walk():
                if n.k == 'CallExpr' and n.fn and '::' in n.fn and n.fn.rsplit('::', 1)[1] == unhook(f.name):
                    votes.setdefault(n.fn.rsplit('::', 1)[0], set()).add(f.name)
        for K, v in sorted(votes.items()):
            if len(v) < 3 or K not in P.recs or K in bases_of(P, c):
                continue
            ms = public_methods(P, K)
            for f in fs:
                N = unhook(f.name)
                if N in ms and not any(n.k == 'CallExpr' and n.fn == K + '::' + N for n in f.walk()) \
                        and not any(g.cls == f.cls and any(x.fn == K + '::' + N for x in g.walk()) for n in f.walk() if n.k in ('CXXMemberCallExpr', 'CallExpr') for g in P.targets(n)):
                    env.bad('forward:%s:%s' % (f.q, K), '%s:%s' % (f.file, f.line), '%s does not ask %s::%s, although it answers for %s' % (f.q, K, N, K))
    # whoever answers with the answer to another question
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        N = unhook(f.name)
        if N is None or not f.cls or f.cls not in P.recs or not own(f.file) or not P.recs[f.cls].get('poly') or (f.cls, f.name) in OWN_IDENTITY:
            continue
        for ret, e in plain_returned(f):
            M = (e.fn or '').split('::')[-1]
            K = (e.fn or '').rsplit('::', 1)[0]
            me = strip(e.c[0])
            b = strip(me.c[0]) if me is not None and me.k == 'MemberExpr' and me.c and me.c[0] is not None else None
            if K not in P.recs or M in (N, f.name) or b is None or b.k == 'CXXThisExpr':
                continue
            ms = public_methods(P, K)
            want = f.name if M.startswith('do') and f.name in ms else N
            if want in ms and M in ms and repr(ms[M][0].get('ret')) == repr(ms[want][0].get('ret')) and unhook(M) != N and M != want:
                env.bad('other:%s' % f.q, ret.loc(), '%s answers with %s::%s, although %s::%s is what it is asked' % (f.q, K, M, K, want))


# ------------------------------------------------------------------ R4: virtual functions asked while the object is being made
def construction(env):
    P = env.P
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if not (f.ctor or f.dtor) or f.cls not in P.recs or not P.recs[f.cls].get('poly') or not own(f.file):
            continue
        env.count('constructors')
        subs = P.all_subs(f.cls)
        seen, todo, hit = {f.u}, [f], False
        while todo:
            g = todo.pop()
            for n in g.walk():
                if n.k != 'CXXMemberCallExpr' or not n.u or not n.c or n.c[0] is None:
                    continue
                me = strip(n.c[0])
                b = strip(me.c[0]) if me is not None and me.k == 'MemberExpr' and me.c and me.c[0] is not None else None
                if b is None or b.k != 'CXXThisExpr':
                    continue
                if n.get('virt') or n.get('vm'):
                    over = [o for o in P.all_overriders(n.u) if o in P.funcs and P.funcs[o].cls in subs]
                    if over:
                        hit = True
                        env.bad('unmade:%s:%s' % (f.q, n.fn), n.loc(), '%s asks %s while the object is still (or already) a plain %s: what %s defines is not used'
                                % (f.q, n.fn, f.cls, P.funcs[over[0]].q))
                for t in P.targets(n):
                    if t.u not in seen and t.cls and (t.cls == f.cls or t.cls in bases_of(P, f.cls)):
                        seen.add(t.u)
                        todo.append(t)
        if not hit:
            env.ok()


# ------------------------------------------------------------------ R5: R6: the base class's version asked by name; objects cut down to their base
def bypasses(env):
    P = env.P
    poly = {q for q, r in P.recs.items() if r.get('poly')}
    virt = {m['u']: (q, m) for q, r in P.recs.items() for m in r['methods'] if is_virtual(m)}
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if not own(f.file):
            continue
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and n.u in virt and n.c and n.c[0] is not None:
                me = strip(n.c[0])
                if me is None or not me.get('qual'):
                    env.count('virtual_calls')
                    continue
                env.count('qualified_calls')
                q, m = virt[n.u]
                over = P.all_overriders(n.u)
                b = strip(me.c[0]) if me.c and me.c[0] is not None else None
                on_this = b is not None and b.k == 'CXXThisExpr'
                if f.u in over or (f.name == m['n'] and f.cls in P.all_subs(q)):
                    env.ok('%s: %s extends %s' % (n.loc(), f.q, n.fn))
                    continue
                cls = f.cls if on_this else (b.t.strip().to.q if b is not None and b.t is not None and b.t.strip().k == 'ptr' and b.t.strip().to is not None else (b.t.strip().q if b is not None and b.t is not None else None))
                live = [o for o in over if o in P.funcs and (cls is None or P.funcs[o].cls == cls or P.funcs[o].cls in P.all_subs(cls) or cls in P.all_subs(P.funcs[o].cls))]
                if live:
                    env.bad('bypass:%s:%s' % (f.q, n.fn), n.loc(), '%s asks %s by its full name, so that what %s defines is not used' % (f.q, n.fn, P.funcs[live[0]].q))
                else:
                    env.ok()
            elif n.k == 'CXXConstructExpr' and n.t is not None and n.t.k == 'rec' and n.t.q in poly and n.c:
                a = n.c[0]
                while a is not None and a.k in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr') and a.c:
                    a = a.c[0]
                t = a.t.strip() if a is not None and a.t is not None else None
                if t is not None and t.k == 'rec' and t.q != n.t.q and t.q in P.all_subs(n.t.q):
                    if (f.ctor or f.name == 'operator=') and f.cls == t.q:
                        continue                                  # copying the base part of itself
                    if t.q in P.all_subs('std::exception') or n.t.q in P.all_subs('std::exception'):
                        env.count('exceptions_copied')
                        continue
                    env.bad('cut:%s:%s' % (f.q, t.q), n.loc(), '%s copies an object of %s into one of its base class %s: what %s defines is not used' % (f.q, t.q, n.t.q, t.q))
            elif n.k == 'CXXDeleteExpr':
                t = n.get('nt')
                t = t.strip() if t is not None else None
                if t is not None and t.k == 'rec' and t.q in P.recs and P.recs[t.q].get('poly'):
                    env.count('deletes')
                    subs = [s for s in P.all_subs(t.q) if s != t.q]
                    if not P.recs[t.q].get('vdtor') and subs:
                        env.bad('delete:%s:%s' % (f.q, t.q), n.loc(), '%s destroys a %s whose destructor is not virtual: what %s has to do at its end is not done' % (f.q, t.q, subs[0]))
                    else:
                        env.ok()
        for n in f.walk():
            t = None
            if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and n.t is not None and (n.t.q or '').split('::')[-1] in SMART:
                t = n.c[0] if len([c for c in n.c if c is not None]) >= 1 else None
            elif n.k == 'CXXMemberCallExpr' and (n.fn or '').split('::')[-1] == 'reset' and any(('::' + s + '::') in n.fn for s in SMART) and len(n.c) > 1:
                t = n.c[1]
            a = strip(t) if t is not None else None
            if a is None or a.t is None or a.t.strip().k != 'ptr' or a.t.strip().to is None or a.k == 'CXXNewExpr':
                continue
            q = a.t.strip().to.strip().q
            if q in P.recs and P.recs[q].get('poly'):
                env.count('owned')
                if not P.recs[q].get('vdtor') and [c for c in P.all_subs(q) if c != q]:
                    env.bad('delete:%s:%s' % (f.q, q), n.loc(), '%s leaves the destruction of a %s to a pointer, but its destructor is not virtual' % (f.q, q))
                else:
                    env.ok()
    # smart pointers and containers of them destroy what they hold
    for q, r in own_records(env):
        for x in r['fields']:
            t = x['t'].strip() if x['t'] is not None else None
            for s in smart(t):
                if s in P.recs and P.recs[s].get('poly'):
                    env.count('owned')
                    if not P.recs[s].get('vdtor') and [c for c in P.all_subs(s) if c != s]:
                        env.bad('delete:%s' % x['q'], '%s:%s' % (r['file'], r['l']), '%s destroys a %s whose destructor is not virtual' % (x['q'], s))
                    else:
                        env.ok()


SMART = ('shared_ptr', 'scoped_ptr', 'auto_ptr', 'unique_ptr')


def smart(t, depth=0):
    if t is None or depth > 4 or t.k != 'rec':
        return
    if (t.q or '').split('::')[-1] in ('scoped_ptr', 'auto_ptr', 'unique_ptr') and t.a and t.a[0] is not None:
        if t.a[0].strip().q:
            yield t.a[0].strip().q
        return
    for a in t.a or ():
        if a is not None and hasattr(a, 'strip'):
            for s in smart(a.strip(), depth + 1):
                yield s


# ------------------------------------------------------------------ R7: each processor under its own name
def registry(env):
    P = env.P
    concrete = [q for q in sorted(P.all_subs('ProcessorFactory')) if q in P.recs and not P.recs[q].get('abs') and own(P.recs[q]['file'])]
    env.count('factories', len(concrete))
    env.floor('factories', 25)
    made = {}
    for f in P.funcs.values():
        for n in f.walk():
            t = n.get('nt') if n.k == 'CXXNewExpr' else None
            if t is not None and t.q in concrete:
                made.setdefault(t.q, []).append((f, n))
    names = {}
    for q in concrete:
        if q not in made:
            env.bad('unregistered:%s' % q, '%s:%s' % (P.recs[q]['file'], P.recs[q]['l']), 'no object of %s is ever made, so nobody can ask for its processor' % q)
            continue
        env.ok()
    for f in P.funcs.values():
        if f.name in ('doGetName', 'getName') and f.cls and own(f.file) and f.cfg and (f.cls in concrete or f.static):
            lits = [(m.get('s'), m) for n in f.walk() if n.k == 'ReturnStmt' for m in n.walk() if m.k == 'StringLiteral']
            if len(lits) == 1:
                if lits[0][0] in names and names[lits[0][0]][0].cls != f.cls:
                    env.bad('name:%s' % lits[0][0], lits[0][1].loc(), '%s and %s answer to the same name, %r' % (f.q, names[lits[0][0]][0].q, lits[0][0]))
                else:
                    names[lits[0][0]] = (f, lits[0][1])
                    env.ok('%s is %r' % (f.cls, lits[0][0]))
    env.count('names', len(names))
    env.floor('names', 25)
    # a factory makes the processor it belongs to
    for f in P.funcs.values():
        if f.cls in concrete and f.cls.endswith('::Factory') and f.name in ('doCreateAnnotator', 'doCreateLatticeReader', 'doCreateLatticeWriter'):
            mine = f.cls[:-len('::Factory')]
            for n in f.walk():
                t = n.get('nt') if n.k == 'CXXNewExpr' else None
                if t is not None and t.q in P.recs and t.q in P.all_subs('Processor') | P.all_subs('LatticeReader') | P.all_subs('LatticeWriter') | P.all_subs('Annotator'):
                    env.count('processors_made')
                    if t.q != mine and t.q not in P.all_subs(mine) and 'Factory' in t.q.split('::')[-1:] or (t.q != mine and t.q not in P.all_subs(mine) and t.q + '::Factory' in concrete):
                        env.bad('made:%s' % f.cls, n.loc(), '%s makes a %s' % (f.q, t.q))
                    else:
                        env.ok('%s makes %s' % (f.cls, t.q))


def c33(env):
    P = env.P
    hidden(env)
    env.floor('overriders', 400)
    hooks(env)
    env.floor('hooks', 30)
    wrappers(env)
    env.floor('forwarded', 8)
    construction(env)
    bypasses(env)
    env.floor('virtual_calls', 150)
    registry(env)
