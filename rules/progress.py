"""C39: every loop makes progress (no way round it leaves everything its end depends on unchanged)."""
import flow as FL
from flow import canon, strip, subexprs, mentions
from common import written, root_of, local_types

LOOPS = ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt')


def natural_loops(f):
    """head block -> blocks of the loop"""
    g = f.cfg
    if not g:
        return {}
    bl, entry, ex = g
    # dominators by iteration
    order = []
    seen = set()
    st = [(entry, iter([s for s in bl[entry].succ if s >= 0 and s in bl]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter([x for x in bl[s].succ if x >= 0 and x in bl])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in bl[b].pred if p in idom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                x, y = p, d
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                d = x
            if idom.get(b) != d:
                idom[b] = d
                ch = True

    def dom(a, b):
        while b != entry:
            if a == b:
                return True
            b = idom[b]
        return a == entry
    out = {}
    for b in order:
        for s in bl[b].succ:
            if s in num and dom(s, b):
                body = out.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in bl[x].pred if p in num)
    return out


def controls(bl, h, body):
    """block -> blocks of the loop whose branching decides whether it is passed in a round"""
    reach = {}
    for b in body:
        seen = set()
        st = [x for x in bl[b].succ if x in body]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x != h:
                st.extend(y for y in bl[x].succ if y in body)
        reach[b] = seen
    out = {}
    for c in body:
        succ = [x for x in bl[c].succ if x >= 0]
        if len(succ) < 2:
            continue
        for b in reach[c]:
            if b == h:
                continue
            # can the round go on from c without b?
            seen = set()
            st = [x for x in succ if x != b]
            miss = False
            while st and not miss:
                x = st.pop()
                if x not in body or x == h:
                    miss = True
                elif x not in seen and x != b:
                    seen.add(x)
                    st.extend(y for y in bl[x].succ if y >= 0)
            if miss:
                out.setdefault(b, set()).add(c)
    return out


def lvalues(n):
    """everything an expression looks at"""
    out = set()
    for y in n.walk():
        if y.k == 'CXXOperatorCallExpr' and y.get('op') in ('->', '*') and len(y.c) == 2:
            out.add(('*', canon(y.c[1])))
        if y.k == 'DeclRefExpr' and 'v' in y.d or y.k in ('MemberExpr', 'CXXThisExpr', 'ArraySubscriptExpr') or y.k == 'UnaryOperator' and y.get('op') == '*':
            e = canon(y)
            out.add(e)
            if y.t is not None and y.t.k == 'ptr' and isinstance(e, tuple):
                out.add(('*', e))
    return out


FORWARDING = ('std::pair', 'std::make_pair', 'std::tuple', 'std::forward', 'std::move', 'boost::addressof', 'std::addressof')


def step_writes(n):
    """what a node changes"""
    if n.fn and n.fn.startswith(FORWARDING) and n.fn.rsplit('::', 1)[-1] != 'operator=':
        return []
    ws = list(written(n))
    if n.fn and n.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr'):
        for a in n.c if n.k == 'CXXConstructExpr' else n.c[1:]:
            if a is not None and a.t is not None and a.t.k == 'ptr' and a.t.to is not None and not a.t.to.const:
                e = canon(strip(a))
                ws.append(e[1] if e[0] == '&' else ('*', e))
    if n.k == 'DeclStmt':
        ws += [('v', x['v']) for x in n.get('decls', [])]
    return ws


def changes(P, n):
    """what a node changes, as far as the functions it calls are known"""
    if n.fn and n.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        tg = P.targets(n)
        if tg:
            fx = frozenset().union(*(effects_of(P)[t.u] for t in tg))
            return through(n, fx)
    return step_writes(n)


def through(n, fx):
    """what a call of a function with effects fx changes"""
    own = FL.assigned_targets(n)
    if not fx:
        return own
    if 'R' in fx or 'X' in fx:
        return step_writes(n)
    if n.k == 'CXXMemberCallExpr':
        me = strip(n.c[0])
        b = ('this',)
        if me is not None and me.k == 'MemberExpr' and me.c:
            b = canon(me.c[0])
            if me.get('arrow') and b != ('this',):
                b = ('*', b)
        return own + [b]
    if n.k == 'CXXOperatorCallExpr' and len(n.c) > 1:
        return own + [canon(n.c[1])]
    return own


def effects_of(P):
    """function -> what it changes of its callers': T its object, R what it is given references or pointers to, X other things"""
    out = getattr(P, '_effects_of', None)
    if out is not None:
        return out
    out = {f.u: frozenset() for f in P.funcs.values()}
    users = {}
    nodes = {}
    for f in P.funcs.values():
        ns = []
        for n in f.walk():
            if n.k == 'DeclStmt' or n.k == 'LambdaExpr':
                continue
            if n.fn:
                tg = P.targets(n)
                for t in tg:
                    users.setdefault(t.u, set()).add(f.u)
                ns.append((n, tg))
            elif n.k in ('CallExpr', 'CXXMemberCallExpr', 'BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CXXDeleteExpr'):
                ns.append((n, ()))
        nodes[f.u] = ns

    def local_effects(f):
        fx = set()
        lt = local_types(f)
        params = {v for v, _, _ in f.params}
        if f.body is None and not f.ctor and not f.dtor:
            fx.add('X')
        for n, tg in nodes[f.u]:
            if tg:
                cfx = frozenset().union(*(out[t.u] for t in tg))
                if 'X' in cfx:
                    fx.add('X')
                ws = through(n, cfx)
            else:
                ws = step_writes(n)
                if n.fn is None and n.k in ('CallExpr', 'CXXMemberCallExpr'):
                    fx.add('X')
                if n.fn and n.k == 'CallExpr' and (reads(n) or not n.fn.startswith(
                        ('std::', 'boost::', '__gnu_cxx::', 'utf8::', 'str', 'mem', 'is', 'to', '__assert', '__builtin'))):
                    fx.add('X')
                if n.k == 'CXXDeleteExpr':
                    fx.add('X')
                if n.fn and 'foreach' in n.fn:
                    continue
            for w in ws:
                r = w
                ptr = False
                while len(r) > 1 and r[0] in ('f', '[]', '*', '&', 'op', 'call'):
                    ptr = ptr or r[0] == '*'
                    r = r[2] if r[0] in ('op', 'call') and len(r) > 2 else r[1]
                    if not isinstance(r, tuple):
                        r = ('?',)
                if r[0] in ('c', 's') or r[0] == 'g' and r[1] in OUTPUT:
                    continue
                if r[0] == 'this':
                    if not f.ctor or ptr and w != ('*', ('this',)):
                        fx.add('T')
                    continue
                if r[0] == 'v' and r[1] in lt:
                    t = lt[r[1]]
                    if w == r and (t.k != 'ref') or t.k not in ('ref', 'ptr') and not ptr:
                        continue
                    fx.add('R' if r[1] in params else 'X')
                    continue
                fx.add('X')
        return frozenset(fx)
    todo = list(P.funcs)
    inq = set(todo)
    while todo:
        u = todo.pop()
        inq.discard(u)
        new = out[u] | local_effects(P.funcs[u])
        if new != out[u]:
            out[u] = new
            for c in users.get(u, ()):
                if c not in inq:
                    inq.add(c)
                    todo.append(c)
    P._effects_of = out
    return out


def affects(w, e):
    """may a change of w change what expression e sees?"""
    if w == e or mentions(e, w):
        return True
    x = w
    while len(x) > 1:
        if x[0] == '*' and x[1][0] in ('v', 'g', 'f', 'bin', '[]', 'c'):
            return False        # what a pointer or iterator points to is not the pointer
        x = x[2] if x[0] in ('op', 'call') and len(x) > 2 else x[1]
        if not isinstance(x, tuple):
            return mentions(w, e)
        if x == e:
            return True
        if x[0] not in ('f', '[]', '*', '&', 'op', 'call'):
            return x[0] not in ('v', 'g', 'this') and mentions(w, e)
    return False


def field_writes(P):
    """function -> fields it or what it calls may change; None when not known"""
    out = getattr(P, '_field_writes', None)
    if out is not None:
        return out
    out = {}
    users = {}
    for f in P.funcs.values():
        ws = set()
        for n in f.walk():
            for w in (step_writes(n) if n.k != 'DeclStmt' else ()):
                x = w
                while isinstance(x, tuple) and len(x) > 1:
                    if x[0] == 'f':
                        ws.add(x[2])
                    x = x[2] if x[0] in ('op', 'call') and len(x) > 2 else x[1]
            if n.fn and n.k != 'LambdaExpr':
                for t in P.targets(n):
                    users.setdefault(t.u, set()).add(f.u)
            elif n.fn is None and n.k in ('CallExpr', 'CXXMemberCallExpr'):
                ws = None
                break
        for i in (f.inits or ()) if ws is not None else ():
            ws.add(i.get('mf'))
        out[f.u] = ws
    todo = list(out)
    while todo:
        u = todo.pop()
        for c in users.get(u, ()):
            if out[c] is None:
                continue
            if out[u] is None:
                out[c] = None
                todo.append(c)
            elif not out[u] <= out[c]:
                out[c] |= out[u]
                todo.append(c)
    P._field_writes = out
    return out


def on_this(P, n, deps):
    """does a call of a method of the same object change what deps look at?"""
    fw = field_writes(P)
    tg = P.targets(n) or ([P.funcs[n.u]] if n.u in P.funcs else [])
    ds = [d for d in deps if mentions(d, ('this',))]
    if not tg:
        return bool(ds)
    for t in tg:
        ws = fw.get(t.u)
        if ws is None:
            return bool(ds)
        for d in ds:
            if d == ('this',) or any(x[0] == 'f' and (x[2] in ws or not x[2]) for x in subexprs(d)):
                if d != ('this',) or ws:
                    return True
    return False


def c39(env):
    P = env.P
    pure = env.ctx.pure
    for f in P.funcs.values():
        if f.file.startswith(('fex/', 'tiniconv/', 'utf8case/', 'common/md5.')):
            continue
        g = f.cfg
        if not g:
            continue
        bl, entry, ex = g
        refs = {}
        for n in f.walk():
            if n.k == 'DeclStmt':
                for i, x in enumerate(n.get('decls', [])):
                    if x['t'].k in ('ref', 'ptr') and x.get('init') and i < len(n.c) and n.c[i] is not None:
                        refs[('v', x['v'])] = canon(n.c[i])
        for h, body in natural_loops(f).items():
            conds = []
            exits = set()
            foreach = False
            for b in body:
                B = bl[b]
                if B.cond is not None and len([s for s in B.succ if s >= 0]) > 1:
                    conds.append(B.cond)
                    if any(x >= 0 and x not in body for x in B.succ):
                        exits |= lvalues(B.cond)
                    if any((y.get('n') or '').startswith(('_foreach', '__begin', '__range', '__end')) if isinstance(y.get('n'), str) else False for y in B.cond.walk()):
                        foreach = True
            if foreach and bl[h].tk in ('ForStmt', 'CXXForRangeStmt', 'BinaryOperator') and bl[h].cond is not None and any(
                    str(y.get('n') or '').startswith(('_foreach', '__begin')) for y in bl[h].cond.walk()):
                env.count('element_loops')
                env.ok()
                continue
            env.count('loops')
            deps = set(exits)
            out_of = [b for b in body if bl[b].cond is not None and any(x < 0 or x not in body for x in bl[b].succ)]
            ruled = controls(bl, h, body)
            taken = set()

            def control(b):
                for c in ruled.get(b, ()):
                    if c not in taken and bl[c].cond is not None:
                        taken.add(c)
                        deps.update(lvalues(bl[c].cond))
                        control(c)
            for b in out_of:
                control(b)
            # ways out without a condition of their own (break, return, throw)
            for b in body:
                if any(x >= 0 and x not in body for x in bl[b].succ) or bl[b].noret:
                    control(b)
            # what the values the conditions look at are made from
            ch = True
            ns = [(b, n) for b in body for n in bl[b].elems if not isinstance(n, dict)]
            rounds = 0
            while ch and rounds < 6:
                ch = False
                rounds += 1
                for b, n in ns:
                    ws = changes(P, n)
                    if not ws:
                        continue
                    if any(affects(w, d) for w in ws for d in deps):
                        was = len(deps)
                        deps |= lvalues(n)
                        control(b)
                        if len(deps) > was:
                            ch = True
            # blocks on which something changes
            moving = set()
            for b in body:
                for n in bl[b].elems:
                    if isinstance(n, dict):
                        continue
                    ws = changes(P, n)
                    if found_again(n):
                        continue
                    if same_again(n):
                        # a constant: a second time round it changes nothing more
                        ws = [w for w in ws if any(affects(w, d) for d in exits)]
                    if n.k == 'DeclStmt' and not any(x.get('init') for x in n.get('decls', [])):
                        continue
                    hit = False
                    for w in ws:
                        if w in (('this',), ('*', ('this',))) and n.k == 'CXXMemberCallExpr':
                            hit = hit or on_this(P, n, deps)
                            continue
                        if any(affects(w, d) for d in deps):
                            hit = True
                        r = w
                        while r in refs:
                            r = refs[r]
                            if any(affects(r, d) for d in deps):
                                hit = True
                            if r[0] != 'v':
                                break
                    if n.k == 'DeclStmt' and hit:
                        # a fresh local is progress only when it takes its value from a step
                        hit = False
                    if n.fn and not hit and n.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and steps(P, pure, n):
                        hit = True
                    if hit:
                        moving.add(b)
                        break
            # a way round that avoids them
            stuck = way_round(bl, h, body, moving)
            if stuck is None:
                env.ok()
            else:
                at = next((n for b in [h] + stuck for n in ([bl[b].cond] if bl[b].cond is not None else []) + [x for x in bl[b].elems if not isinstance(x, dict)]), None)
                env.bad('loop:%s' % f.q, at.loc() if at is not None else '%s:%s' % (f.file, f.line),
                        '%s: a way round the loop leaves everything its end depends on unchanged (lines %s)' % (
                            f.q, ', '.join(sorted({str(n.l) for b in stuck for n in bl[b].elems if not isinstance(n, dict)}, key=int)[:8])))


def found_again(n):
    """p = s.find(x, p): a second time round it finds what it found before"""
    if n.k != 'BinaryOperator' or n.get('op') != '=':
        return False
    c = strip(n.c[1])
    if c is None or c.k != 'CXXMemberCallExpr' or not (c.fn or '').startswith(('std::basic_string::find', 'std::basic_string::rfind')):
        return False
    return len(c.c) > 2 and c.c[2] is not None and canon(c.c[2]) == canon(n.c[0])


def same_again(n):
    if n.k == 'BinaryOperator' and n.get('op') == '=':
        return canon(n.c[1])[0] in ('c', 's')
    if n.k == 'CXXOperatorCallExpr' and n.get('op') == '=' and len(n.c) > 2:
        return canon(n.c[2])[0] in ('c', 's')
    return n.k == 'CXXMemberCallExpr' and (n.fn or '').rsplit('::', 1)[-1] in ('clear', 'reset')


INPUT = ('getline', 'fgets', 'read', 'fread', 'fscanf', 'sscanf', 'getc', 'fgetc', 'get', 'ignore', 'readdir', 'accept', 'recv', 'getch', 'yylex', 'yyparse',
         'sigwait', 'rand', 'random', 'time', 'strtok', 'strtok_r', 'waitpid', 'poll', 'select')
# what is only written to decides no loop
OUTPUT = ('std::cout', 'std::cerr', 'std::clog', 'psi_logger', 'stderr', 'stdout')


def reads(n):
    q = n.fn or ''
    nm = q.rsplit('::', 1)[-1]
    if nm in ('get', 'read', 'ignore'):
        return q.startswith(('std::basic_i', 'std::istream', 'read', 'boost::asio')) or '::' not in q
    return nm in INPUT


def steps(P, pure, n):
    """a call that advances some state of its own (input, iterators, queues): not a function of its arguments"""
    tg = P.targets(n)
    if n.u in P.funcs or tg:
        fx = effects_of(P)
        return any('X' in fx[t.u] for t in tg or [P.funcs[n.u]])
    return reads(n)


def relation(c, pol):
    """(operands, set of relations that hold) of a comparison with a known outcome"""
    c = strip(c)
    while c is not None and c.k == 'UnaryOperator' and c.get('op') == '!':
        c = strip(c.c[0])
        pol = not pol
    if c is None or c.k not in ('BinaryOperator', 'CXXOperatorCallExpr') or c.get('op') not in ('==', '!=', '<', '>', '<=', '>='):
        return None
    a, b = (c.c[0], c.c[1]) if c.k == 'BinaryOperator' else (c.c[1], c.c[2])
    x, y = canon(a), canon(b)
    r = {'==': {'='}, '!=': {'<', '>'}, '<': {'<'}, '>': {'>'}, '<=': {'<', '='}, '>=': {'>', '='}}[c.get('op')]
    if not pol:
        r = {'<', '=', '>'} - r
    if repr(x) > repr(y):
        x, y = y, x
        r = {{'<': '>', '>': '<', '=': '='}[z] for z in r}
    return (x, y), frozenset(r)


def way_round(bl, h, body, moving):
    """a way from the head back to it through blocks that change nothing; None if there is none"""
    if h in moving:
        return None
    budget = [4000]

    def go(b, path, known):
        budget[0] -= 1
        if budget[0] < 0:
            return path
        B = bl[b]
        for i, s in enumerate(B.succ):
            if s < 0 or s != h and (s not in body or s in moving or s in path):
                continue
            k2 = known
            if B.cond is not None and len(B.succ) == 2 and B.tk not in ('SwitchStmt', 'CXXTryStmt'):
                c = B.term.c[0] if B.tk == 'BinaryOperator' else B.cond
                r = relation(FL.last_operand(c), i == 0)
                if r is not None:
                    left = known.get(r[0], frozenset('<=>')) & r[1]
                    if not left:
                        continue
                    k2 = dict(known)
                    k2[r[0]] = left
            if s == h:
                return path
            x = go(s, path + [s], k2)
            if x is not None:
                return x
        return None
    return go(h, [h], {})
