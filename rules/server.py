"""Rules about psi-server: file confinement, replies, encoding of page values, sessions and locking."""
import glob
import os
import re
import flow as FL
import taint as T
import common
from guards import receiver
from flow import canon, strip

REPO = os.environ.get('PSI_REPO', '/repo')
HTTP = 'http::server3::'


def fn_name(n):
    return (n.fn or '').rsplit('::', 1)[-1]


def is_server(f):
    return f.file.startswith('server/') and not f.file.startswith('server/t/')


def text_of(n):
    """constant text of an expression, or None"""
    n = strip(n)
    if n is None:
        return None
    if n.k == 'StringLiteral':
        return n.get('s')
    if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and n.c:
        return text_of(n.c[0])
    if n.k == 'InitListExpr':
        out = ''
        for c in n.c:
            c = strip(c)
            if c is None or c.get('val') is None:
                return None
            out += chr(int(c.get('val')) & 255)
        return out
    if n.get('val') is not None and n.k == 'CharacterLiteral':
        return chr(int(n.get('val')) & 255)
    return None


def var_text(P, q):
    for (qq, file, l), d in P.vars.items():
        if qq == q and d.get('init') is not None:
            return text_of(d['init'])
    return None


def const_text(P, n):
    t = text_of(n)
    if t is None:
        m = strip(n)
        while m is not None and m.k in ('CXXConstructExpr', 'MemberExpr', 'CXXMemberCallExpr', 'CallExpr') and m.k != 'DeclRefExpr':
            if m.k == 'CXXMemberCallExpr' and fn_name(m) in ('c_str', 'data'):
                m = strip(m.c[0])
                m = strip(m.c[0]) if m is not None and m.c else None
            elif m.k == 'CXXConstructExpr' and m.c:
                m = strip(m.c[0])
            else:
                break
        if m is not None and m.k == 'DeclRefExpr' and m.get('q'):
            t = var_text(P, m.get('q'))
    return t


# ------------------------------------------------------------------ C01

OPENERS = {'fopen', 'open', 'open64', 'opendir', 'remove', 'unlink', 'rename', 'mkdir', 'rmdir', 'creat', 'stat', 'lstat', 'freopen'}


class PathFlow(FL.Flow):
    """facts about path texts also survive appending a harmless constant, and are copied with the text"""

    def transfer(self, st, n):
        if isinstance(n, dict):
            return st
        keep = set()
        tgt = src = None
        if n.k == 'CXXOperatorCallExpr' and n.get('op') == '+=':
            tgt, src = n.c[1], n.c[2]
        elif n.k == 'CXXMemberCallExpr' and fn_name(n) == 'append' and len(n.c) == 2 and (n.fn or '').startswith('std::'):
            me = strip(n.c[0])
            tgt, src = (me.c[0] if me.c else None), n.c[1]
        if tgt is not None:
            t = const_text(self.ctx.P, src)
            if t is not None and '..' not in t and not t.startswith('.'):
                e = canon(tgt)
                keep = {x for x in st if path_fact(x, e)}
        if n.k == 'CXXMemberCallExpr' and fn_name(n) in ('find_last_of', 'rfind', 'find', 'substr', 'size', 'c_str', 'empty'):
            return super().transfer(st, n)
        out = super().transfer(st, n)
        if keep:
            return frozenset(out) | keep
        return out


def path_fact(x, e):
    return nodots_fact(x, e) or abs_fact(x, e)


def call_named(e, names):
    return e[0] == 'call' and e[1].rsplit('::', 1)[-1] in names


def nodots_fact(x, e):
    if x[0] == 'eq' and x[3] is True:
        for a, b in ((x[1], x[2]), (x[2], x[1])):
            if call_named(a, ('find', 'rfind')) and len(a) > 3 and a[2] == e and a[3] in (('s', '..'), ('s', '../'), ('s', '/..')) and a[3] == ('s', '..') and npos(b):
                return True
    if x[0] == 'true' and x[2] is False and call_named(x[1], ('contains',)) and len(x[1]) > 3 and x[1][2] == e and x[1][3] == ('s', '..'):
        return True
    return False


def npos(b):
    return b == ('c', -1) or b == ('c', 18446744073709551615) or (b[0] in ('g', 'v', 'f') and 'npos' in repr(b))


def abs_fact(x, e):
    if x[0] == 'eq' and x[3] is True:
        for a, b in ((x[1], x[2]), (x[2], x[1])):
            if b == ('c', 47):
                if a[0] == '[]' and a[1] == e and a[2] == ('c', 0):
                    return True
                if a[0] == 'op' and a[1] == '[]' and a[2] == e and a[3] == ('c', 0):
                    return True
                if call_named(a, ('operator[]', 'at')) and len(a) > 3 and a[2] == e and a[3] == ('c', 0):
                    return True
                if call_named(a, ('front',)) and a[2] == e:
                    return True
                if a[0] == '*' and call_named(a[1], ('begin', 'cbegin')) and a[1][2] == e:
                    return True
    return False


def c01(env):
    P, ctx = env.P, env.ctx
    entry = [f for f in P.funcs.values() if f.name == 'handle_request' and is_server(f)]
    env.anchor(entry, 'request handlers')
    reach = env.G.reach([f.u for f in entry], stop=lambda u: u in P.funcs and not is_server(P.funcs[u]))

    def source(n, f):
        if n.k == 'MemberExpr' and not n.fn:
            e = canon(n)
            if e[0] == 'f' and e[2] and e[2].rsplit('::', 1)[0] in (HTTP + 'request', HTTP + 'header') and e[2].rsplit('::', 1)[1] in ('uri', 'method', 'post_data', 'name', 'value', 'headers'):
                return frozenset(['request'])
        if n.fn in ('Session::getData', 'Session::getDataOrSetIfNotExists') or n.fn and n.fn.startswith('MPFD::Field::Get'):
            return frozenset(['request'])
        return T.NONE

    tn = T.Taint(env, source, lambda q: None, lambda n: path_model(n), lambda f: is_server(f) or f.file.startswith('common/file_storage'))
    roots = [f for f in P.funcs.values() if (is_server(f) or f.file.startswith('common/file_storage')) and (f.u in reach or not f.params)]
    tn.fixpoint(roots)
    flows = {}

    def flow(f):
        if f.u not in flows:
            flows[f.u] = PathFlow(ctx, f)
        return flows[f.u]
    seen = set()

    def leaves(f, n, at, depth=0):
        """operands of the text that n denotes: (node, node whose facts apply)"""
        m = strip(n)
        if m is None:
            return []
        if m.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr') and m.c:
            return leaves(f, m.c[0], at, depth)
        if m.k == 'CXXMemberCallExpr' and fn_name(m) in ('c_str', 'string', 'data', 'native'):
            me = strip(m.c[0])
            return leaves(f, me.c[0], at, depth) if me is not None and me.c else []
        if m.k in ('CXXOperatorCallExpr',) and m.get('op') in ('+', '/'):
            return leaves(f, m.c[1], at, depth) + leaves(f, m.c[2], at, depth)
        if m.k == 'DeclRefExpr' and canon(m)[0] == 'v' and depth < 5:
            parts = built_from(f, canon(m), m)
            if parts is not None:
                out = []
                for x, where in parts:
                    out += leaves(f, x, where, depth + 1)
                return out
        return [(m, at)]

    def built_from(f, v, use):
        """operands of all assignments and appends to local v when nothing else changes it"""
        if any(v[1] == p[0] for p in f.params):
            return None
        out = []
        for n in f.walk():
            if n.k == 'DeclStmt':
                for i, x in enumerate(n.get('decls', [])):
                    if ('v', x['v']) == v and n.c[i] is not None:
                        out.append((n.c[i], n))
                continue
            if n.k == 'CXXOperatorCallExpr' and n.get('op') in ('=', '+=') and len(n.c) > 2 and canon(n.c[1]) == v:
                out.append((n.c[2], n))
            elif n.k == 'CXXMemberCallExpr' and fn_name(n) == 'append' and len(n.c) == 2 and strip(n.c[0]).c and canon(strip(n.c[0]).c[0]) == v:
                out.append((n.c[1], n))
            elif n.fn and any(m == v for m in FL.mutated(n)) and fn_name(n) not in ('reserve',):
                return None
        texts = [const_text(P, x) for x, w in out]
        return out if out else None

    def visit(f, n, st, tn):
        if not is_server(f) and not f.file.startswith('common/file_storage'):
            return
        paths = open_paths(n)
        for a in paths:
            key = (f.u, n.id)
            leaf = leaves(f, a, n)
            env_key = '%s %s' % (f.q, n.loc())
            for m, at in leaf:
                lab = tn.val(m, st, f)
                if not lab:
                    lab = tn.val(a, st, f) if len(leaf) == 1 else T.NONE
                if not lab:
                    seen.add((key, env_key, True, None))
                    continue
                e = canon(m)
                facts = flow(f).before(at) or frozenset()
                al = FL.aliases(facts, e)
                nd = any(nodots_fact(x, y) for x in facts for y in al)
                ab = any(abs_fact(x, y) for x in facts for y in al)
                if nd and ab:
                    seen.add((key, env_key, True, 'checked'))
                else:
                    what = ' and '.join((['contains no ".."'] if not nd else []) + (['starts with "/"'] if not ab else []))
                    seen.add((key, env_key, False, (f, n, what)))
    tn.visit = visit
    tn.summ = {}
    for f in roots:
        tn.summary(f, (T.NONE,) * len(f.params))
    sites = {}
    for key, ek, good, info in seen:
        s = sites.setdefault(key, [ek, True, False])
        if not good:
            s[1] = False
            s.append(info)
        elif info == 'checked':
            s[2] = True
    n_checked = 0
    for key, s in sorted(sites.items(), key=lambda x: x[1][0]):
        env.count('file_openings')
        if s[1]:
            n_checked += s[2]
            env.ok('%s opens a file with %s' % (s[0], 'a checked request path' if s[2] else 'a name not taken from the request'))
        else:
            f, n, what = s[3]
            env.bad('%s:open' % f.q, n.loc(), 'file opened with a name that comes from the request, without a test on every path that it %s' % what)
    env.count('checked_request_paths', n_checked)
    env.floor('file_openings', 2)


def path_model(n):
    if n.fn and n.fn.startswith('FileStorage::storeFile') and not n.fn.endswith('_'):
        return dict(ret=T.NONE)
    if n.fn and n.fn.startswith(('PipeRunner::', 'HtmlHelpFormatter::', 'HelpFormatter::', 'FileRecognizer::', 'GUIDGenerator::', 'md5', 'MD5::')):
        return dict(ret=T.NONE)
    return None


def open_paths(n):
    fn = n.fn or ''
    if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and re.search(r'basic_(i|o)?(fstream|filebuf)::', fn) and n.c:
        return [n.c[0]]
    if n.k == 'CXXMemberCallExpr' and fn_name(n) == 'open' and 'stream' in fn and len(n.c) > 1:
        return [n.c[1]]
    if n.k == 'CallExpr' and (fn_name(n) in OPENERS and '::' not in fn or fn.startswith('std::') and fn_name(n) in OPENERS) and len(n.c) > 1:
        return [n.c[1]]
    if n.k == 'CallExpr' and fn.startswith('boost::filesystem::') and fn_name(n) in ('exists', 'remove', 'remove_all', 'create_directory', 'create_directories', 'is_directory', 'is_regular_file', 'rename', 'copy_file', 'file_size', 'last_write_time') and len(n.c) > 1:
        return [n.c[1]]
    return []


# ------------------------------------------------------------------ C02

def c02(env):
    P, ctx = env.P, env.ctx
    enum = P.enums.get(HTTP + 'reply::status_type')
    env.anchor(enum, 'status enumeration')
    vals = dict((v, k) for k, v in enum['vals'])
    # tables: functions of the status that return a text
    for f in P.funcs.values():
        if not f.file.startswith('server/server/') or f.dep or f.q.endswith('stock_reply'):
            continue
        ps = [v for v, n, t in f.params if t is not None and 'status_type' in repr(t)]
        if len(ps) != 1 or len(f.params) != 1:
            continue
        rows = status_table(env, f, ps[0])
        if not rows:
            env.notes.append('%s: no table recognised' % f.q)
            continue
        for v, (txt, n) in sorted(rows.items(), key=lambda x: repr(x[0])):
            env.count('table_rows')
            if v is None or txt is None:
                continue
            m = re.search(r'HTTP/\d\.\d (\d+)', txt) or re.search(r'<h1>(\d+)', txt)
            if m and int(m.group(1)) != v:
                env.bad('%s:%s' % (f.q, vals.get(v, v)), n.loc(), 'status %s (%s) is answered with "%s"' % (v, vals.get(v), m.group(0)))
            elif txt.startswith('HTTP/') and (not re.match(r'HTTP/1\.[01] \d\d\d [ -~]*\r\n$', txt)):
                env.bad('%s:%s' % (f.q, vals.get(v, v)), n.loc(), 'malformed status line %r' % txt)
            else:
                env.ok('%s(%s) -> %s' % (f.q, vals.get(v, v), txt[:20]))
        if any(t and t.startswith('HTTP/') for t, n in rows.values()):
            for v in vals:
                if v not in rows and rows.get(None, (None, None))[0] is not None:
                    t, n = rows[None]
                    m = re.search(r'HTTP/\d\.\d (\d+)', t)
                    if m and int(m.group(1)) != v:
                        env.bad('%s:%s' % (f.q, vals[v]), n.loc(), 'status %s (%s) has no status line of its own and is answered with "%s"' % (v, vals[v], m.group(0)))
    # separators
    for q, want in ((HTTP + 'misc_strings::name_value_separator', ': '), (HTTP + 'misc_strings::crlf', '\r\n')):
        t = var_text(P, q)
        if t is not None:
            if t.rstrip('\0') != want:
                env.bad(q, 'server/server/reply.cpp', '%s is %r instead of %r' % (q, t, want))
            else:
                env.ok('%s is %r' % (q, want))
    # content length
    length_rule(env)
    directives(env)
    include_rule(env)
    env.floor('content_length_sites', 1)


def status_table(env, f, pv):
    P, ctx = env.P, env.ctx
    rows = {}
    fl = ctx.flow(f)
    e = ('v', pv)
    g = f.cfg
    if not g:
        return rows
    bl = g[0]
    # explicit switch: follow each label to its return
    for b, B in bl.items():
        if B.tk == 'SwitchStmt' and B.cond is not None and canon(B.cond) == e:
            for s in B.succ:
                if s < 0 or s not in bl:
                    continue
                B2 = bl[s]
                v = B2.label.d['val'] if B2.lk == 'CaseStmt' and B2.label is not None and 'val' in B2.label.d else None
                seen = set()
                while B2 is not None and B2.n not in seen:
                    seen.add(B2.n)
                    r = [n for n in B2.elems if not isinstance(n, dict) and n.k == 'ReturnStmt']
                    if r:
                        rows[v] = (ret_text(env, r[0]), r[0])
                        break
                    nx = [x for x in B2.succ if x >= 0]
                    B2 = bl.get(nx[0]) if len(nx) == 1 else None
    if rows:
        return rows
    for n in f.walk():
        if n.k == 'ReturnStmt' and n.c:
            st = fl.before(n) or frozenset()
            v = None
            for x in st:
                if x[0] == 'eq' and x[3] is True and e in (x[1], x[2]):
                    o = x[1] if x[2] == e else x[2]
                    if o[0] == 'c':
                        v = o[1]
            rows[v] = (ret_text(env, n), n)
    if set(rows) == {None}:
        return {}
    return rows


def ret_text(env, r):
    for x in r.walk():
        if x.k == 'StringLiteral':
            return x.get('s')
        if x.k == 'DeclRefExpr' and x.get('q') and not x.fn:
            t = var_text(env.P, x.get('q'))
            if t is not None:
                return t
    return None


def size_of(e):
    """object whose size() expression e converts, or None"""
    for x in FL.subexprs(e):
        if x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ('size', 'length') and len(x) > 2:
            return x[2]
    return None


def reply_obj(e):
    """(reply object, rest) when e is a path into a reply: content, headers"""
    x = e
    while x[0] in ('f', '[]', '*', 'op', 'call') and len(x) > 1:
        if x[0] == 'f' and x[2] in (HTTP + 'reply::content', HTTP + 'reply::headers'):
            return x[1], x[2].rsplit('::', 1)[1]
        if x[0] == 'op':
            x = x[2]
        elif x[0] == 'call':
            if len(x) < 3:
                return None
            x = x[2]
        else:
            x = x[1]
        if not isinstance(x, tuple):
            return None
    return None


def header_index(e):
    """index of the header a path denotes (constant), or None"""
    for x in FL.subexprs(e):
        if x[0] == '[]' and x[2][0] == 'c':
            return x[2][1]
        if x[0] == 'op' and x[1] == '[]' and x[3][0] == 'c':
            return x[3][1]
        if x[0] == 'call' and x[1].endswith(('operator[]', '::at')) and len(x) > 3 and x[3][0] == 'c':
            return x[3][1]
    return None


LENGTH = 'Content-Length'


def put(e, m):
    """e with the expressions of m replaced"""
    if e in m:
        return m[e]
    return tuple(put(x, m) if isinstance(x, tuple) else x for x in e)


def length_rule(env):
    """where a reply is given away, the header called Content-Length holds the size of the content"""
    P = env.P
    funcs = [f for f in P.funcs.values() if is_server(f) and not f.dep and f.body is not None
             and any(n.k == 'MemberExpr' and not n.fn and canon(n)[0] == 'f' and canon(n)[2] in (HTTP + 'reply::content', HTTP + 'reply::headers') for n in f.walk())]
    byu = {f.u: f for f in funcs}
    refs = {f.u: {} for f in funcs}
    for f in funcs:
        for n in f.walk():
            for d, i in zip(n.get('decls', ()) or (), n.c):
                if d.get('t') is not None and d['t'].k == 'ref' and i is not None:
                    refs[f.u][('v', d['v'])] = canon(i)

    def full(f, e):
        """e with local references replaced by what they refer to"""
        for _ in range(4):
            e2 = put(e, refs.get(f.u) or {})
            if e2 == e:
                return e
            e = e2
        return e

    def names_length(n):
        return any(x.k == 'StringLiteral' and x.get('s') == LENGTH for x in n.walk()) or const_text(P, n) == LENGTH

    def name_of(f, h):
        """text of the name of the local header h (a variable or an expression), the nodes its value is made of"""
        name, vals = None, []
        e = full(f, canon(h))
        if e[0] == 'v':
            for n in f.walk():
                a = assign(n)
                if a:
                    t = full(f, canon(a[0]))
                    if t == ('f', e, HTTP + 'header::name'):
                        name = LENGTH if names_length(a[1]) else ''
                    elif t == ('f', e, HTTP + 'header::value'):
                        vals.append(a[1])
                for d, i in zip(n.get('decls', ()) or (), n.c):
                    if ('v', d['v']) == e and i is not None and names_length(i):
                        name = LENGTH
                        vals.append(i)
        elif names_length(h):
            name, vals = LENGTH, [h]
        return name, vals
    # index used for Content-Length in the whole server
    idx = set()
    for f in funcs:
        pushed = 0
        for n in f.walk():
            a = assign(n)
            t = full(f, canon(a[0])) if a else None
            if a and t[0] == 'f' and t[2] == HTTP + 'header::name' and const_text(P, a[1]) == LENGTH and header_index(t) is not None:
                idx.add(header_index(t))
            if n.k == 'CXXMemberCallExpr' and fn_name(n) in ('push_back', 'emplace_back') and (reply_obj(full(f, receiver(n) or ("?",))) or (0, 0))[1] == 'headers':
                if len(n.c) > 1 and name_of(f, n.c[1])[0] == LENGTH:
                    idx.add(pushed)
                pushed += 1
    env.count('content_length_sites', len(idx))
    busy = {}

    def is_size(f, n, st, deep=0):
        """does n give the current size of the content of a reply?"""
        for x in n.walk():
            if x.k == 'DeclRefExpr' and 'v' in x.d and x.d['v'] in st[1]:
                return True
            if x.k in ('CXXMemberCallExpr',) and fn_name(x) in ('size', 'length'):
                o = reply_obj(full(f, receiver(x) or ("?",)))
                if o and o[1] == 'content':
                    return True
            if x.u and deep < 3 and x.fn:
                for tg in P.targets(x):
                    if tg.u in byu and tg.body is not None:
                        rets = [y for y in tg.walk() if y.k == 'ReturnStmt' and y.c and y.c[0] is not None]
                        if rets and all(is_size(tg, y.c[0], ('none', frozenset()), deep + 1) for y in rets):
                            return True
        return False

    def effect(st, n, f):
        """st: (what is known of the header: none, ok, bad; the variables that hold the size of the content)"""
        a = assign(n)
        if a:
            t = full(f, canon(a[0]))
            if t[0] == 'v':
                if is_size(f, a[1], st):
                    return st[0], st[1] | {t[1]}
                return st[0], st[1] - {t[1]}
            if t[0] == 'f' and t[2] == HTTP + 'header::value':
                i = header_index(t)
                if i in idx or (i is None and reply_obj(t) and is_size(f, a[1], st)):
                    return ('ok' if is_size(f, a[1], st) else 'bad'), st[1]
                return st
            if t[0] == 'f' and t[2] == HTTP + 'reply::content':
                return 'bad', frozenset()
            if is_reply(a[0]):
                r = strip(a[1])
                for x in a[1].walk():
                    for tg in P.targets(x) if x.u else []:
                        if tg.u in byu:
                            return summary(tg), frozenset()
                return ('ok' if r is not None and r.k == 'DeclRefExpr' else st[0]), frozenset()
        for d, i in zip(n.get('decls', ()) or (), n.c):
            if i is not None and d.get('t') is not None and d['t'].k != 'ref' and not is_reply(n) and is_size(f, i, st):
                st = (st[0], st[1] | {d['v']})
        if n.fn and n.k in ('CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr'):
            if n.k != 'CXXOperatorCallExpr':
                args = n.c[1:]
                if n.k == 'CXXMemberCallExpr' and fn_name(n) in ('push_back', 'emplace_back') and args:
                    o = reply_obj(full(f, receiver(n) or ("?",)))
                    if o and o[1] == 'headers':
                        name, vals = name_of(f, args[0])
                        if name == LENGTH:
                            return ('ok' if vals and all(is_size(f, v, st) for v in vals) else 'bad'), st[1]
                        return st
                tgs = [tg for tg in P.targets(n) if tg.u in byu and any(t is not None and 'reply' in repr(t) and t.k == 'ref' and not t.to.const for v, nm, t in tg.params)]
                if not n.fn.startswith('std::') and any(x is not None and names_length(x) for x in args) and P.targets(n):
                    return ('ok' if any(x is not None and is_size(f, x, st) for x in args) else 'bad'), st[1]
                for tg in tgs:
                    r = summary(tg)
                    return (st if r == 'none' else (r, frozenset()))
            for m in FL.mutated(n):
                o = reply_obj(full(f, m))
                if o and o[1] == 'content':
                    return 'bad', frozenset()
                if o and o[1] == 'headers' and fn_name(n) in ('clear', 'erase', 'pop_back', 'insert', 'assign', 'swap'):
                    return 'bad', st[1]
        return st

    def summary(f):
        if f.u in busy:
            return busy[f.u] or 'ok'
        busy[f.u] = None
        r = run(f)
        busy[f.u] = r
        return r

    def run(f):
        g = f.cfg
        if not g:
            return 'none'
        bl, entry, ex = g
        IN = {entry: {('none', frozenset())}}
        work = [entry]
        seen_b = set()
        while work:
            b = work.pop(0)
            out = set()
            for st in IN[b]:
                for n in bl[b].elems:
                    if not isinstance(n, dict):
                        st = effect(st, n, f)
                out.add(st)
            for i, s in enumerate(bl[b].succ):
                if s == ex and i > 0 and bl[b].term is None:
                    continue    # left by an exception
                if s in bl and s >= 0:
                    if not out <= IN.setdefault(s, set()):
                        IN[s] |= out
                        if s not in work:
                            work.append(s)
                    elif s not in seen_b:
                        seen_b.add(s)
                        work.append(s)
        r = {x[0] for x in IN.get(ex, set())}
        return 'bad' if 'bad' in r else 'ok' if 'ok' in r else 'none'
    callers = {}
    for g in P.funcs.values():
        if is_server(g):
            for n in g.calls():
                for tg in P.targets(n):
                    callers.setdefault(tg.u, set()).add(g.u)
    for f in sorted(funcs, key=lambda f: f.q):
        if f.name in ('to_buffers',):
            continue
        r = summary(f)
        env.count('functions_filling_replies')
        cs = callers.get(f.u, set()) - {f.u}
        helper = cs and cs <= set(byu)
        if r == 'bad' and helper:
            env.count('helpers_judged_at_their_callers')
        elif r == 'bad':
            env.bad(f.q + ':Content-Length', '%s:%s' % (f.file, f.line), 'the reply can leave %s with a Content-Length header that is not the size of its content' % f.q)
        else:
            env.ok('%s leaves a reply whose Content-Length is the size of its content' % f.q)


def is_reply(n):
    return n.t is not None and repr(n.t).replace('const ', '').strip(' &') == HTTP + 'reply'


def assign(n):
    if n.k == 'CXXOperatorCallExpr' and n.get('op') == '=' and len(n.c) > 2:
        return n.c[1], n.c[2]
    if n.k == 'BinaryOperator' and n.get('op') == '=':
        return n.c[0], n.c[1]
    return None


# include directives

def registrations(env, what):
    """code -> (method, node, func)"""
    P = env.P
    out = {}
    for f in P.funcs.values():
        if not is_server(f):
            continue
        for n in f.calls():
            if n.fn == 'PsiServer::' + what:
                code = const_text(P, n.c[1])
                m = None
                for x in n.walk():
                    if x.k == 'DeclRefExpr' and x.get('q') and any(g.cls for g in P.byname(x.get('q'))):
                        m = P.byname(x.get('q'))[0]
                if code is not None:
                    out.setdefault(code, []).append((m, n, f))
    return out


def pages():
    root = os.path.join(REPO, 'server/website')
    for d, ds, fs in os.walk(root):
        for x in sorted(fs):
            if x.endswith(('.html', '.psis')):
                p = os.path.join(d, x)
                with open(p, errors='replace') as fh:
                    yield os.path.relpath(p, REPO), fh.read()


def directives(env):
    """each directive of a page names a registered generator, each action of a form or link a registered action"""
    P = env.P
    inc, act = registrations(env, 'registerIncludeCode'), registrations(env, 'registerActionCode')
    env.anchor(inc, 'registered page parts')
    replaced = set()
    for f in P.funcs.values():
        if is_server(f):
            for n in f.calls():
                for x in n.walk():
                    if x.k == 'StringLiteral':
                        m = re.match(r'<!--#psis (\S+) ?-->', x.get('s') or '')
                        if m:
                            replaced.add(m.group(1))
    for p, txt in pages():
        for m in re.finditer(r'<!--#psis ([^>]*?) ?-->', txt):
            env.count('page_directives')
            c = m.group(1)
            if c in inc or c in replaced:
                env.ok('%s: %s' % (p, c))
            else:
                env.bad('%s:%s' % (p, c), '%s:%d' % (p, txt.count('\n', 0, m.start()) + 1), 'the page asks for the part "%s", which no site registers' % c)
        for m in re.finditer(r'(?:action|href)="/?([\w/-]+)\.psis', txt):
            env.count('page_actions')
            c = m.group(1)
            if c in act or c == 'json':
                env.ok('%s: action %s' % (p, c))
            else:
                env.bad('%s:%s' % (p, c), '%s:%d' % (p, txt.count('\n', 0, m.start()) + 1), 'the page uses the action "%s", which no site registers' % c)


# ------------------------------------------------------------------ C03

def page_contexts():
    """include code -> set of contexts (html, script, json) in which pages use it"""
    out = {}
    for p, txt in pages():
        for m in re.finditer(r'<!--#psis (\S+) ?-->', txt):
            pre = txt[:m.start()]
            lo = pre.lower()
            s = lo.rfind('<script')
            e = lo.rfind('</script')
            c = 'script' if s > e else 'html'
            if txt.strip() == m.group(0):
                c = 'json'
            out.setdefault(m.group(1), {}).setdefault(c, p)
    return out


SANITIZER = {'encodeHTML_': 'HTML', 'encodeJavaScript_': 'JS', 'escape_': 'JSON'}
ALLOWED = {'html': {'HTML'}, 'script': {'JS'}, 'json': {'JSON'}}
REQUIRED = {'HTML': '&<>"\'', 'JS': '\\"\'<>\n\r', 'JSON': '\\"\n\r\t\b\f'}


def c03(env):
    P, ctx = env.P, env.ctx
    inc = registrations(env, 'registerIncludeCode')
    env.anchor(inc, 'registered page parts')

    def source(n, f):
        if n.k in ('CXXMemberCallExpr',) and n.fn:
            if n.fn in ('Session::getData', 'Session::getDataOrSetIfNotExists'):
                return frozenset(['session data'])
            if fn_name(n) == 'what' and len(n.c) == 1:
                return frozenset(['the text of an error'])
        if n.k == 'MemberExpr' and not n.fn:
            e = canon(n)
            if e[0] == 'f' and e[2] and e[2].rsplit('::', 1)[0] in (HTTP + 'request', HTTP + 'header') and e[2].rsplit('::', 1)[1] in ('uri', 'method', 'post_data', 'name', 'value', 'headers'):
                return frozenset(['the request'])
        return T.NONE

    def model(n):
        if n.fn == 'PipeRunner::run':
            return dict(ret=T.NONE, outs=[1], label=frozenset(['the output of the pipeline']))
        if n.fn and fn_name(n) == 'stringToChar':
            return None
        return path_model(n)
    names = {}
    for f in P.funcs.values():
        if is_server(f) and f.name in SANITIZER and f.cls:
            names[f.q] = SANITIZER[f.name]
    env.anchor(names, 'encoding functions')
    RAW = frozenset()

    def refine(n, f, lab):
        if not lab:
            return lab
        facts = ctx.flow(f).before(n) or frozenset()
        for x in facts:
            if x[0] == 'true' and x[2] is True and call_named(x[1], ('isJavascriptOutput_',)) and f.name == 'actionJson':
                return frozenset('JSON' if y == 'the output of the pipeline' else y for y in lab)
            if x[0] == 'eq' and x[3] is True and ('s', 'svg') in (x[1], x[2]) and f.cls == 'PipeSite':
                return frozenset('SVG output of the pipeline' if y in ('session data', 'the output of the pipeline') else y for y in lab)
        return lab
    body = lambda f: is_server(f) and fn_name_of(f) not in ('isJavascriptOutput_',)
    tn = T.Taint(env, source, lambda q: names.get(q), model, body)
    tn.refine = refine
    # parameters of the conversions to char* pass through
    oldcall = tn.call

    def call(n, st, f):
        if n.fn and fn_name(n) == 'stringToChar':
            r = T.NONE
            for a in n.c[1:]:
                r |= tn.val(a, st, f)
            return r
        return oldcall(n, st, f)
    tn.call = call

    def undo(n, nm, args, av, st, f):
        """parts of an encoded text exchanged for characters that had to be encoded"""
        if nm not in REPLACERS or len(args) < 3 or not av[0]:
            return
        t, what = text_of(args[2]), text_of(args[1])
        mark = {'HTML': '&', 'JS': '\\', 'JSON': '\\'}
        lost = frozenset(k for k in av[0] if k in mark and (what is None or mark[k] in what)
                         and (t is None or set(t) & set(REQUIRED[k])) and not entity(t, k))
        if lost:
            tn.put(st, tn.lv(args[0]), frozenset('text encoded for %s and partly decoded again' % k for k in lost), f, True)
    tn.undo = undo
    roots = [f for f in P.funcs.values() if is_server(f) and f.cls and f.file.startswith('server/site/') and not f.dep]
    tn.fixpoint(roots)
    ctxs = page_contexts()
    for code, regs in sorted(inc.items()):
        for m, n, f in regs:
            if m is None:
                env.notes.append('no method recognised for %s' % code)
                continue
            env.count('page_parts')
            lab = tn.summary(m, (T.NONE,) * len(m.params))['ret']
            for c, page in sorted(ctxs.get(code, {}).items()):
                bad = sorted(lab - ALLOWED[c])
                for b in bad:
                    env.bad('%s:%s:%s' % (m.q, c, b), '%s:%s' % (m.file, m.line),
                            '%s puts %s into the page part "%s" (%s, %s context) without the encoding that context needs'
                            % (m.q, b if b not in SANITIZER.values() else 'text encoded for ' + b, code, page, c))
                if not bad:
                    env.ok('%s (%s): %s' % (code, c, ', '.join(sorted(lab)) or 'program text only'))
    for q, kind in sorted(names.items()):
        for f in P.byname(q):
            encoder(env, f, kind)
    env.floor('page_parts', 5)


REPLACERS = ('replace_all', 'replace_first', 'replace_last', 'replace_nth', 'replace_head', 'replace_tail', 'ireplace_all', 'ireplace_first')


def entity(t, kind):
    return t is not None and kind == 'HTML' and re.match(r'^&(#\d+|#x[0-9a-fA-F]+|\w+);$', t) is not None


def fn_name_of(f):
    return f.name


def encoder(env, f, kind):
    """the characters an encoding function must not pass on unchanged"""
    P, ctx = env.P, env.ctx
    fl = ctx.flow(f)
    table = {}
    plain = []
    keys = set()
    for n in f.walk():
        args = None
        if n.k == 'CXXMemberCallExpr' and fn_name(n) in ('append', 'push_back') and (n.fn or '').startswith('std::'):
            args = n.c[1:]
        elif n.k == 'CXXOperatorCallExpr' and n.get('op') in ('+=', '<<') and len(n.c) > 2:
            args = n.c[2:]
        if not args:
            continue
        facts = fl.before(n)
        if facts is None:
            continue
        chars = {}
        for x in facts:
            if x[0] == 'eq':
                for a, b in ((x[1], x[2]), (x[2], x[1])):
                    if b[0] == 'c' and a[0] in ('v', 'op', '[]', '*', 'call') and isinstance(b[1], int):
                        chars.setdefault(a, {})[b[1]] = x[3]
                        keys.add(a)
        txt = None
        for a in args:
            t = const_text(P, a)
            if t is not None:
                txt = t if txt is None else txt + t
        pos = [(a, v) for a, d in chars.items() for v, p in d.items() if p]
        if txt is not None and len(args) <= 2:
            for a, v in pos:
                table[v] = (txt, n)
        else:
            src = [canon(a) for a in args]
            plain.append((n, chars, src))
    # table from a constant map that is consulted
    maps = {}
    for n in f.walk():
        if n.k == 'DeclRefExpr' and n.get('q'):
            for (qq, file, l), d in P.vars.items():
                if qq == n.get('q') and d.get('init') is not None:
                    lits = [x.get('s') for x in d['init'].walk() if x.k == 'StringLiteral']
                    for a, b in zip(lits[::2], lits[1::2]):
                        if a is not None and len(a) == 1:
                            maps[ord(a)] = b
    env.count('encoders')
    for ch in REQUIRED[kind]:
        v = ord(ch)
        env.count('encoded_characters')
        got = table.get(v, (None, None))[0]
        same = [n for n, chars, src in plain for s in src if s in keys
                and chars.get(s, {}).get(v) is not False and not any(p and o != v for o, p in chars.get(s, {}).items())]
        if got is not None and same:
            env.bad('%s:%r' % (f.q, ch), '%s:%s' % (f.file, same[0].l), '%s can pass %r on unchanged on some path' % (f.q, ch))
            continue
        if got is None:
            got = maps_rev(maps, ch)
        if got is None:
            # is there an unguarded place that would pass it on?
            leak = [n for n, chars, src in plain if not any(d.get(v) is False for d in chars.values()) and not excluded(f, n, v)]
            if table or maps:
                if leak or not plain:
                    env.bad('%s:%r' % (f.q, ch), '%s:%s' % (f.file, f.line), '%s passes %r on unchanged' % (f.q, ch))
                    continue
            env.ok('%s: %r does not reach the output unchanged' % (f.q, ch))
            continue
        if not good_code(kind, ch, got):
            env.bad('%s:%r' % (f.q, ch), '%s:%s' % (f.file, f.line), '%s writes %r for %r' % (f.q, got, ch))
        else:
            env.ok('%s: %r -> %r' % (f.q, ch, got))


def excluded(f, n, v):
    return False


def maps_rev(maps, ch):
    return maps.get(ord(ch))


ENT = {'&': ('&amp;', '&#38;', '&#x26;'), '<': ('&lt;', '&#60;', '&#x3c;', '&#x3C;'), '>': ('&gt;', '&#62;', '&#x3e;', '&#x3E;'),
       '"': ('&quot;', '&#34;', '&#x22;'), "'": ('&apos;', '&#39;', '&#x27;')}


def good_code(kind, ch, got):
    if kind == 'HTML':
        return got in ENT[ch]
    esc = {'\n': 'n', '\r': 'r', '\t': 't', '\b': 'b', '\f': 'f'}
    c = esc.get(ch, ch)
    if got in ('\\' + c, '\\u%04x' % ord(ch), '\\u%04X' % ord(ch)) and not (kind == 'JS' and ch in '<>'):
        return True
    if kind == 'JS' and got in ('\\x%02x' % ord(ch), '\\x%02X' % ord(ch), '\\u%04x' % ord(ch), '\\u%04X' % ord(ch)):
        return True
    return False


# ------------------------------------------------------------------ C37 locking, C38 isolation

LONG_LIVED = ('PsiServer', 'PsiRequestHandler', HTTP + 'request_handler', 'SessionManager', 'Session', 'TemplateSite')


def long_lived(P):
    out = set()
    for q in LONG_LIVED:
        if q in P.recs:
            out |= {q} | P.all_subs(q)
    return out


def request_entries(env):
    """methods bound as page parts and actions, and the request handlers"""
    P = env.P
    out = {}
    for what in ('registerIncludeCode', 'registerActionCode'):
        for code, regs in registrations(env, what).items():
            for m, n, f in regs:
                if m is not None:
                    out[m.u] = m
    for f in P.funcs.values():
        if f.name == 'handle_request' and is_server(f) and f.cls:
            out[f.u] = f
    return out


def field_accesses(f):
    """(node, field) for the fields named in f"""
    for n in f.walk():
        if n.k == 'MemberExpr' and not n.fn:
            e = canon(n)
            if e[0] == 'f' and e[2]:
                yield n, e[2]


def request_writes(env):
    """writes to fields of long-lived server objects and to static variables in server code reachable from a request"""
    P = env.P
    ll = long_lived(P)
    ents = request_entries(env)
    reach = env.G.reach(list(ents), stop=lambda u: u in P.funcs and not is_server(P.funcs[u]))
    out = []
    own = {k[0] for k in P.vars}
    for u in reach:
        f = P.funcs.get(u)
        if f is None or not is_server(f) or f.ctor or f.dtor:
            continue
        for n in f.walk():
            if n.fn and any(is_server(t) for t in P.targets(n)):
                continue    # judged by its own body
            for t in common.written(n):
                fl = [x for x in common.path_fields(t) if x.rsplit('::', 1)[0] in ll]
                r = common.root_of(t)
                if fl and not (r[0] == 'v' and common.by_value_local(f, r[1])):
                    out.append((f, n, fl[-1]))
                elif r[0] == 'g' and r[1] in own and r[1] != 'psi_logger' or r[0] == 'v' and static_local(f, r[1]):
                    out.append((f, n, r[1] if r[0] == 'g' else '%s static' % f.q))
    return out, reach, ents


def static_local(f, v):
    for n in f.walk():
        for x in n.get('decls', ()) or ():
            if x['v'] == v:
                return bool(x.get('stat'))
    return False


HANDOVER = {'SessionManager::currentSessionId_': 'set to the visitor\'s session at the start of each request',
            'SessionManager::sessions_': 'the sessions themselves',
            'SessionManager::guidGenerator': 'source of session names',
            'SessionManager::sessionManagerInstance_': 'the session manager itself',
            'Session::data': 'the session\'s own data',
            'PsiServer::name_values_': 'cleared before it is filled',
            'PipeSite::inputFromFile_': 'a flag, set by each action before it is used',
            'PipeSite::fileStorage_': 'names of stored files are random',
            'PipeSite::encodingConverter_': 'keeps no text', 'PipeSite::fileRecognizer_': 'keeps no text',
            'JsonSite::output_': 'given only to the request that produced it',
            'ProcessorDocumentationSite::name_': 'name of a processor', 'ProcessorDocumentationSite::documentation_': 'public documentation',
            'HelpTemplateSite::htmlHelpFormatter_': 'public documentation', 'ProcessorDocumentationSite::htmlHelpFormatter_': 'public documentation'}
CONSUMED = ('JsonSite::output_',)


def c38(env):
    P, ctx = env.P, env.ctx
    ws, reach, ents = request_writes(env)
    env.anchor(ents, 'request entry points')
    env.count('entry_points', len(ents))
    for f, n, x in ws:
        if 'mutex' in x:
            continue
        env.count('writes')
        if x in HANDOVER or x.split('::')[0] == 'MPFD':
            env.ok('%s written by %s: %s' % (x, f.q, HANDOVER.get(x, '')))
            continue
        env.bad('%s:%s' % (f.q, x), n.loc(), '%s keeps something of one request in %s, which all visitors share' % (f.q, x))
    # data consumed by the request that produced it
    for x in CONSUMED:
        for u in ents:
            f = ents[u]
            acc = [n for n, q in field_accesses(f) if q == x]
            if not acc:
                continue
            env.count('handover_readers')
            r = consume(f, x, ctx)
            if r:
                env.bad('%s:%s' % (f.q, x), r.loc(), '%s uses what an earlier request may have left in %s and leaves it there' % (f.q, x))
            else:
                env.ok('%s: %s is reset before or after use' % (f.q, x))
    # the current session is set before anything of a session is used
    for u, f in ents.items():
        if f.name != 'handle_request' or not any(n.fn and n.fn.startswith('SessionManager::') for n in f.calls()):
            continue
        users = set()
        for g in P.funcs.values():
            if g.q in ('PsiServer::session', 'SessionManager::currentSession'):
                users.add(g.u)
        need = {g.u for g in P.funcs.values() if is_server(g) and reaches(env, g, users, ents)}
        st = must_called(f, lambda n: n.fn == 'SessionManager::setCurrentSession')
        for n in f.calls():
            tg = P.targets(n)
            if any(t.u in need for t in tg):
                env.count('session_uses')
                ok = st.get(n.id)
                if ok is False:
                    env.bad('%s:%s' % (f.q, fn_name(n)), n.loc(), '%s is called on a path on which the session of the request was not selected' % n.fn)
                else:
                    env.ok('%s after setCurrentSession' % n.fn)
    env.floor('entry_points', 5)


def reaches(env, g, users, ents):
    """does g (or a bound method it may call through the registered functions) use the current session?"""
    memo = env.__dict__.setdefault('_reach_memo', {})
    if g.u not in memo:
        memo[g.u] = False
        r = env.G.reach([g.u], stop=lambda u: u in env.P.funcs and not is_server(env.P.funcs[u]))
        memo[g.u] = bool(set(r) & users) or any(q.q in ('PsiServer::include', 'PsiServer::checkForAction') for q in (env.P.funcs.get(u) for u in r) if q is not None)
    return memo[g.u]


def must_called(f, pred):
    """node id -> was a call matching pred made on every path to the node"""
    g = f.cfg
    out = {}
    if not g:
        return out
    bl, entry, ex = g
    IN = {entry: False}
    work = [entry]
    while work:
        b = work.pop(0)
        st = IN[b]
        for n in bl[b].elems:
            if not isinstance(n, dict):
                if n.fn and pred(n):
                    st = True
        for s in bl[b].succ:
            if s < 0 or s not in bl:
                continue
            if s not in IN:
                IN[s] = st
                work.append(s)
            elif IN[s] and not st:
                IN[s] = False
                work.append(s)
    for b, st in IN.items():
        for n in bl[b].elems:
            if not isinstance(n, dict):
                out[n.id] = out.get(n.id, True) and st
                if n.fn and pred(n):
                    st = True
    return out


def consume(f, x, ctx):
    """node that reads field x although it was not reset before, when it is not reset afterwards either; None if fine"""
    g = f.cfg
    if not g:
        return None
    bl, entry, ex = g

    def is_reset(n):
        if n.k == 'CXXMemberCallExpr' and fn_name(n) in ('str', 'assign', 'clear'):
            me = strip(n.c[0])
            if me is not None and me.c and canon(me.c[0])[0] == 'f' and canon(me.c[0])[2] == x and (len(n.c) > 1 or fn_name(n) == 'clear' and 'stream' not in (n.fn or '')):
                return True
        a = assign(n)
        return bool(a and canon(a[0])[0] == 'f' and canon(a[0])[2] == x)
    resets = {n.id for n in f.walk() if is_reset(n)}
    inner = {y.id for n in f.walk() if n.id in resets for y in n.walk()}
    # states: 'old' (may hold something of another request), 'new', 'used' (old contents used, not reset since)
    IN = {entry: {('old', None)}}
    work = [entry]
    left = set()
    while work:
        b = work.pop(0)
        S = set(IN[b])
        for n in bl[b].elems:
            if isinstance(n, dict):
                continue
            S2 = set()
            for s, w in S:
                if n.id in resets:
                    s, w = 'new', None
                elif n.k == 'MemberExpr' and not n.fn and n.id not in inner and s == 'old' and canon(n)[0] == 'f' and canon(n)[2] == x:
                    s, w = 'used', n
                S2.add((s, w))
            S = S2
        for i, s in enumerate(bl[b].succ):
            if s < 0 or s not in bl or i > 0 and bl[b].term is None:
                continue
            if s == ex:
                left |= S
            elif not S <= IN.get(s, set()):
                IN[s] = IN.get(s, set()) | S
                work.append(s)
    for s, w in left:
        if s == 'used':
            return w
    return None


LOCKS = re.compile(r'(scoped_lock|lock_guard|unique_lock|shared_lock)\b')


def lock_decl(n):
    """[(var, mutex)] declared by a lock declaration"""
    out = []
    if n.k == 'DeclStmt':
        for i, x in enumerate(n.get('decls', [])):
            if LOCKS.search(repr(x['t'])) and n.c[i] is not None:
                m = n.c[i]
                arg = None
                for y in m.walk():
                    if y.k in ('MemberExpr', 'DeclRefExpr') and y.t is not None and 'mutex' in repr(y.t):
                        arg = canon(y)
                        break
                if arg is not None:
                    out.append((x['v'], arg))
    return out


def held(f):
    """node id -> mutexes held on every path to the node"""
    g = f.cfg
    out = {}
    if not g:
        return out
    bl, entry, ex = g
    loc = {}

    def step(st, n):
        if isinstance(n, dict):
            if 'dtor' in n:
                return frozenset(x for x in st if x[0] != n['dtor'])
            return st
        for v, m in lock_decl(n):
            loc[v] = m
            st = st | {(v, m)}
        if n.k == 'CXXMemberCallExpr' and fn_name(n) in ('lock', 'unlock'):
            me = strip(n.c[0])
            if me is not None and me.c:
                e = canon(me.c[0])
                if e[0] == 'v' and e[1] in loc:
                    k = (e[1], loc[e[1]])
                else:
                    k = (repr(e), e)
                st = st | {k} if fn_name(n) == 'lock' else frozenset(x for x in st if x[0] != k[0])
        return st
    IN = {entry: frozenset()}
    work = [entry]
    while work:
        b = work.pop(0)
        st = IN[b]
        for n in bl[b].elems:
            st = step(st, n)
        for s in bl[b].succ:
            if s < 0 or s not in bl:
                continue
            if s not in IN:
                IN[s] = st
                work.append(s)
            elif not IN[s] <= st:
                IN[s] = IN[s] & st
                work.append(s)
    for b, st in IN.items():
        for n in bl[b].elems:
            if not isinstance(n, dict):
                m = {x[1] for x in st}
                out[n.id] = out[n.id] & m if n.id in out else m
            st = step(st, n)
    return out


def c37(env):
    P = env.P
    ws, reach, ents = request_writes(env)
    shared = {x for f, n, x in ws if '::' in x and 'mutex' not in x and not x.startswith(('MPFD::', HTTP + 'reply', HTTP + 'request::'))}
    env.count('shared_variables', len(shared))
    env.anchor(shared, 'state shared by requests')
    entry = [f for f in P.funcs.values() if f.q == HTTP + 'connection::handle_read'] or [f for f in ents.values() if f.name == 'handle_request']
    env.anchor(entry, 'the thread entry')
    bound = {u for u, f in ents.items() if f.name != 'handle_request'}
    seen = {}
    own = {k[0] for k in P.vars}
    work = [(f, None) for f in entry]
    mutexes = set()
    while work:
        f, via = work.pop()
        if f.u in seen or not is_server(f):
            continue
        seen[f.u] = via
        env.count('functions_without_lock')
        h = held(f)
        for n in f.walk():
            mx = {m for m in held_at(h, n) if not local_mutex(f, m)}
            if mx:
                mutexes |= {mkey(m) for m in mx}
                if n.fn:
                    env.count('calls_under_lock')
                continue
            if not (n.fn and any(is_server(t) for t in P.targets(n))):
                for t in common.written(n):
                    r = common.root_of(t)
                    x = None
                    if r[0] == 'v' and static_local(f, r[1]):
                        x = 'a static variable of the function'
                    elif r[0] == 'g' and r[1] in own and r[1] != 'psi_logger' and r[1] not in shared:
                        x = r[1]
                    if x:
                        env.bad('%s:static' % f.q, n.loc(), '%s changes %s without holding a lock: threads that answer requests do so at the same time (reached %s)' % (f.q, x, route(P, seen, f)))
            if n.k == 'MemberExpr' and not n.fn:
                e = canon(n)
                if e[0] == 'f' and e[2] in shared:
                    env.bad('%s:%s' % (f.q, e[2]), n.loc(), '%s uses %s, which other threads change, without holding a lock (reached %s)' % (f.q, e[2], route(P, seen, f)))
            elif n.k == 'DeclRefExpr' and n.get('q') in shared:
                env.bad('%s:%s' % (f.q, n.get('q')), n.loc(), '%s uses %s, which other threads change, without holding a lock (reached %s)' % (f.q, n.get('q'), route(P, seen, f)))
            if n.fn and n.u:
                for t in P.targets(n):
                    work.append((t, f.u))
                if fn_name(n) == 'operator()' and 'boost::function' in (n.fn or ''):
                    for u in bound:
                        work.append((P.funcs[u], f.u))
                if n.fn.startswith('PipeRunner::'):
                    env.bad('%s:PipeRunner' % f.q, n.loc(), '%s runs a pipeline without holding the lock' % f.q)
    if len(mutexes) > 1:
        env.notes.append('several mutexes: %s' % sorted(mutexes))
    for u in seen:
        env.ok('%s: nothing shared is used without the lock' % P.funcs[u].q)
    if not mutexes:
        env.count('locks', 0)
    env.count('locks', len(mutexes))


def held_at(h, n):
    m = n
    while m is not None:
        if m.id in h:
            return h[m.id]
        m = m.parent
    return set()


def mkey(m):
    return repr(m)


def local_mutex(f, m):
    return m[0] == 'v' and common.by_value_local(f, m[1]) and not static_local(f, m[1])


def route(P, seen, f):
    out = []
    u = f.u
    while u is not None and len(out) < 6:
        out.append(P.funcs[u].q)
        u = seen.get(u)
    return ' <- '.join(out)


# ------------------------------------------------------------------ page parts are put in the place of their markup

class Lin:
    """linear expression: atoms -> coefficients, '' the constant"""
    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Lin(d)

    def __neg__(self):
        return Lin({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.d == o.d

    def __hash__(self):
        return hash(tuple(sorted(self.d.items())))

    def __repr__(self):
        return ' + '.join('%s%s' % ('' if v == 1 and k else v, k and ' ' * (v != 1) + k) for k, v in sorted(self.d.items())) or '0'


def include_rule(env):
    """in a loop that looks for markup in a page, cuts it out and puts a part in its place: the search goes on right behind the part"""
    P = env.P
    found = False
    for f in P.funcs.values():
        if not f.file.startswith('server/psi_server') or f.dep or not f.cfg:
            continue
        marks = [n for n in f.calls() if fn_name(n) == 'find' and n.k == 'CXXMemberCallExpr' and any((text_of(a) or '').startswith('<!--#') for a in n.c[1:])]
        edits = [n for n in f.calls() if fn_name(n) in ('insert', 'replace', 'erase') and n.k == 'CXXMemberCallExpr']
        if not marks or not edits:
            continue
        found = True
        page = canon_recv(marks[0])
        res = scan_paths(env, f, marks[0], page)
        for kind, n, msg in res:
            env.count('page_edits')
            if msg is None:
                env.ok('%s: %s' % (f.q, kind))
            else:
                env.bad('include:%s:%s' % (f.q, kind), n.loc(), msg)
    env.anchor(found, 'the function that puts parts into pages')


def canon_recv(n):
    me = strip(n.c[0])
    return canon(me.c[0]) if me is not None and me.k == 'MemberExpr' and me.c else None


def scan_paths(env, f, mark, page):
    bl, entry, ex = f.cfg
    home = None
    for b, blk in bl.items():
        if any(n is mark for n in blk.elems):
            home = b
            break
    if home is None:
        return []
    out, seen = [], set()

    def var(e):
        return e if e is not None and e[0] in ('v', 'f') else None

    def walk(b, st, depth, path):
        if depth > 400 or len(seen) > 4000:
            return
        blk = bl[b]
        st = dict(st)
        st['vals'] = dict(st['vals'])
        for n in blk.elems:
            if isinstance(n, dict):
                continue
            if n is mark:
                if st['round']:
                    finish(st, n)
                    return
                st['round'] = True
                st['from'] = lin(n.c[2], st) if len(n.c) > 2 else None
            effect(n, st)
        for s in blk.succ:
            if s < 0 or s not in bl:
                continue
            if path.count((b, s)) >= 2:
                continue
            walk(s, st, depth + 1, path + ((b, s),))

    def lin(n, st):
        n = strip(n)
        if n is None:
            return None
        if n.get('val') is not None:
            try:
                return Lin({'': int(n.get('val'))})
            except ValueError:
                return None
        if n.k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'ParenExpr', 'ImplicitCastExpr') and n.c:
            return lin(n.c[-1], st)
        if n.k in ('DeclRefExpr', 'MemberExpr') and not n.fn:
            return st['vals'].get(canon(n))
        if n.k == 'BinaryOperator' and n.get('op') in ('+', '-'):
            a, b = lin(n.c[0], st), lin(n.c[1], st)
            if a is None or b is None:
                return None
            return a + b if n.get('op') == '+' else a - b
        if n.k == 'BinaryOperator' and n.get('op') == '=':
            return lin(n.c[1], st)
        if n.k == 'CXXMemberCallExpr':
            nm = fn_name(n)
            if nm in ('length', 'size'):
                r = canon_recv(n)
                if r == page:
                    return st['len']
                t = length(strip(n.c[0]).c[0], st)
                return t
            if nm == 'find' and canon_recv(n) == page:
                return st['finds'].get(id(n))
        if n.k == 'CallExpr' and fn_name(n) == 'strlen' and len(n.c) == 2:
            return length(n.c[1], st)
        return None

    def length(n, st):
        """length of the text n as a linear expression"""
        t = text_of(n)
        if t is not None:
            return Lin({'': len(t)})
        e = canon(strip(n))
        if e is None:
            return None
        if e in st['texts']:
            return st['texts'][e]
        if e[0] == 'v':
            return Lin({'|%s|' % (e[1],): 1})
        return Lin({'|part|': 1})

    def effect(n, st):
        if n.k == 'CXXMemberCallExpr' and canon_recv(n) == page:
            nm, a = fn_name(n), n.c[1:]
            if nm == 'find':
                st['finds'] = dict(st['finds'])
                st['finds'][id(n)] = Lin({'pos%d' % (len(st['finds']) + 1): 1})
                t = text_of(a[0])
                st['pos'] = st['pos'] + ((st['finds'][id(n)], t),)
                return
            if nm in ('replace', 'erase', 'insert'):
                at = lin(a[0], st) if a else None
                cut = lin(a[1], st) if nm in ('replace', 'erase') and len(a) > 1 else Lin()
                put_ = length(a[2], st) if nm == 'replace' and len(a) > 2 else length(a[1], st) if nm == 'insert' and len(a) > 1 else Lin()
                st['edits'] = st['edits'] + ((at, cut, put_, n),)
                if cut is None or put_ is None or st['len'] is None:
                    st['len'] = None
                else:
                    st['len'] = st['len'] - cut + put_
                return
            if nm == 'substr' and len(a) == 2:
                st['codes'] = st['codes'] + ((lin(a[0], st), lin(a[1], st), n, len(st['edits'])),)
                return
        if n.k == 'DeclStmt':
            for d, i in zip(n.get('decls', ()), n.c):
                v = ('v', d['v'])
                st['vals'].pop(v, None)
                if i is not None:
                    x = lin(i, st)
                    if x is not None:
                        st['vals'][v] = x
        if n.k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n.get('op')
            v = var(canon(strip(n.c[0]))) if n.c else None
            if v is not None and op == '=':
                x = lin(n.c[1], st)
                st['vals'].pop(v, None)
                if x is not None:
                    st['vals'][v] = x
            elif v is not None and op in ('+=', '-='):
                x, y = st['vals'].get(v), lin(n.c[1], st)
                st['vals'].pop(v, None)
                if x is not None and y is not None:
                    st['vals'][v] = x + y if op == '+=' else x - y
        if n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            v = var(canon(strip(n.c[0])))
            x = st['vals'].get(v)
            if x is not None:
                st['vals'][v] = x + Lin({'': 1 if n.get('op') == '++' else -1})

    def finish(st, n):
        if not st['edits']:
            return
        nxt = lin(n.c[2], st) if len(n.c) > 2 else Lin()
        pos = [p for p, t in st['pos']]
        start, mk = st['pos'][0]
        ats = [e[0] for e in st['edits']]
        if any(a is None or e[1] is None or e[2] is None for a, e in zip(ats, st['edits'])):
            return
        if any(a != start for a in ats):
            key = ('place', repr([a for a in ats if a != start]))
            if key not in seen:
                seen.add(key)
                out.append(('place', st['edits'][0][3], 'the markup begins at %s, but the page is changed at %s' % (start, ', '.join(repr(a) for a in ats if a != start))))
            return
        put_ = Lin()
        cut = Lin()
        for a, c, p, m in st['edits']:
            put_ = put_ + p
            cut = cut + c
        if len(st['pos']) > 1 and st['pos'][1][1]:
            want = st['pos'][1][0] + Lin({'': len(st['pos'][1][1])}) - start
            k = ('cut', repr(cut))
            if k not in seen:
                seen.add(k)
                out.append(('markup removed', n, None if cut == want else 'the markup is %s characters long, but %s are removed' % (want, cut)))
            for a, l, m, before in st['codes']:
                if a is None or l is None or before:
                    continue
                k = ('code', repr(a), repr(l))
                if k in seen:
                    continue
                seen.add(k)
                gap, end = a - start, a + l - st['pos'][1][0]
                good = gap == Lin({'': len(mk) + 1}) and end == Lin({'': -1})
                out.append(('name of the part', m, None if good else 'the name of the part is taken from %s (%s expected) to %s (%s expected)' % (
                    a, start + Lin({'': len(mk) + 1}), a + l, st['pos'][1][0] + Lin({'': -1}))))
        if nxt is None:
            return
        want = start + put_
        k = ('next', repr(nxt), repr(want))
        if k not in seen:
            seen.add(k)
            out.append(('search goes on behind the part', n, None if nxt == want else
                        'after a part was put in at %s the search goes on at %s and not right behind it (%s): %s' % (
                            start, nxt, want, 'markup is skipped or markup inside the part is followed')))
    walk(home, dict(vals={}, len=Lin({'L': 1}), finds={}, pos=(), edits=(), codes=(), texts={}, round=False), 0, ())
    return out
