"""Builds the fact extractor, and extracts facts from /repo's current sources.

Facts of a translation unit are cached under the content hash of every /repo file the unit read,
of its flags and of the extractor: a cached unit is reused only when all of them are unchanged.
"""
import hashlib, json, os, subprocess, sys, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PSI_REPO', '/repo')
TOOL = os.path.join(VERIF, 'tool')
LLVM = '/usr/lib/llvm-18'
EXCLUDE = ['maxent/', 'sundown/', 'uchardet/', 'bindings/', 'tests/', 'utf8/', 'build/',
           'tools/translators/bonsai/irstlm/', 'tools/translators/bonsai/utils/']
# generated scanner/parser sources, and the one unit clang's front end rejects although g++
# accepts it (an ADL ambiguity between two iterator-range types in string_vector.hpp)
SKIP_TU = {'tools/parsers/gobio/translator/lex.grlex.cpp',
           'tools/parsers/gobio/translator/grparser.bis.cpp',
           'tools/datastructures/lexica/key_value_store.cpp'}


class AnalysisError(Exception):
    pass


def workdir():
    for d in (os.path.join(VERIF, '.work'), os.path.join(tempfile.gettempdir(), 'psi-verif-work')):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, '.w%d' % os.getpid())
            open(t, 'w').close()
            os.unlink(t)
            return d
        except OSError:
            continue
    raise AnalysisError('no writable work directory')


def sha(path):
    h = hashlib.sha1()
    with open(path, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()


def flags():
    with open(os.path.join(TOOL, 'flags.json')) as f:
        return json.load(f)


def in_scope(s):
    return not any(s.startswith(e) for e in EXCLUDE) and '/t/' not in s and s not in SKIP_TU


def units(prefixes=None):
    """All in-scope translation units; a new .cpp beside a known one takes its flags."""
    d = flags()
    out = {}
    bydir = {}
    for s, g in d['tu'].items():
        if not in_scope(s):
            continue
        bydir.setdefault(os.path.dirname(s), g)
        if os.path.exists(os.path.join(REPO, s)):
            out[s] = g
    for dr, g in bydir.items():
        p = os.path.join(REPO, dr)
        if not os.path.isdir(p):
            continue
        cml = ''
        up = p
        while up.startswith(REPO):
            f = os.path.join(up, 'CMakeLists.txt')
            if os.path.exists(f):
                cml = open(f, errors='replace').read()
                break
            up = os.path.dirname(up)
        for n in os.listdir(p):
            s = os.path.join(dr, n)
            if n.endswith(('.cpp', '.cc', '.c')) and s not in out and in_scope(s) \
                    and s not in d['tu'] and n in cml:
                out[s] = g
    if prefixes:
        out = {s: g for s, g in out.items() if any(s.startswith(p) for p in prefixes)}
    return d['groups'], out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tool():
    w = workdir()
    src = os.path.join(TOOL, 'psifacts.cpp')
    h = sha(src)[:16]
    exe = os.path.join(w, 'psifacts-' + h)
    if not os.path.exists(exe):
        cxx = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        cxx = [c for c in cxx if not c.startswith('-std=')]
        lib = None
        for c in (LLVM + '/lib/libclang-cpp.so', '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1',
                  LLVM + '/lib/libclang-cpp.so.18.1', '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18'):
            if os.path.exists(c):
                lib = c
                break
        if not lib:
            raise AnalysisError('libclang-cpp not found')
        tmp = exe + '.%d' % os.getpid()
        r = run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-w'] + cxx + [src, '-o', tmp,
                '-L' + LLVM + '/lib', lib, '-lLLVM-18'])
        if r.returncode:
            raise AnalysisError('building psifacts failed:\n' + r.stdout[-3000:])
        os.rename(tmp, exe)
    return exe, h


COMMON_DEFS = None


def common_flags(groups, tus):
    g = groups[flags()['tu']['framework/main_factories_keeper.cpp']]
    return [a for a in g['args'] if a.startswith('-DBOOST')] + ['-fPIC', '-w', '-fno-access-control']


def norm_args(a):
    out = []
    i = 0
    while i < len(a):
        x = a[i]
        if x == '-include' and a[i + 1] in ('iostream', 'algorithm'):
            i += 2
            continue
        if x == '-include' and a[i + 1].startswith('/opt/vp/'):
            out += ['-include', os.path.join(TOOL, os.path.basename(a[i + 1]))]
            i += 2
            continue
        if x.startswith('-DBOOST') or (x.startswith('-D') and x.endswith('_EXPORTS')) or x == '-fPIC':
            i += 1
            continue
        if x.startswith('-I/repo/') or x == '-I/repo':
            x = '-I' + REPO + x[len('-I/repo'):]
        out.append(x)
        i += 1
    return out


def build_pch(common, std='gnu++14'):
    w = workdir()
    src = os.path.join(TOOL, 'pch.hpp' if std == 'gnu++14' else 'pch98.hpp')
    h = hashlib.sha1((sha(src) + ' '.join(common) + std).encode()).hexdigest()[:16]
    pch = os.path.join(w, 'pch-%s.pch' % h)
    if not os.path.exists(pch):
        tmp = pch + '.%d' % os.getpid()
        # the header is parsed from a fixed path so that the PCH stays valid
        r = run(['clang++-18' if shutil.which('clang++-18') else 'clang++', '-x', 'c++-header', src, '-o', tmp,
                 '-std=' + std, '-fpch-instantiate-templates'] + common)
        if r.returncode:
            raise AnalysisError('building the precompiled header failed:\n' + r.stdout[-3000:])
        os.rename(tmp, pch)
    return pch


def repo_header_list():
    hs = []
    for base, dirs, files in os.walk(REPO):
        if base == REPO:
            dirs[:] = [d for d in dirs if d not in ('.git', 'build', 'data', 'docker')]
        for f in files:
            if f.endswith(('.h', '.hpp', '.hh', '.tpl', '.ipp', '.inc')):
                hs.append(os.path.relpath(os.path.join(base, f), REPO))
    hs.sort()
    return hashlib.sha1('\n'.join(hs).encode()).hexdigest()


_shacache = {}


def repo_sha(rel):
    if rel not in _shacache:
        p = os.path.join(REPO, rel)
        try:
            _shacache[rel] = sha(p)
        except OSError:
            _shacache[rel] = 'absent'
    return _shacache[rel]


class Extraction:
    def __init__(self):
        self.files = {}     # unit -> facts path
        self.fresh = 0
        self.cached = 0
        self.failed = []


def overlay():
    """Committed copies of generated headers, used only when the build tree lacks them."""
    d = os.path.join(workdir(), 'overlay')
    os.makedirs(d, exist_ok=True)
    used = False
    if not os.path.exists(os.path.join(REPO, 'common/config.hpp')):
        shutil.copy(os.path.join(TOOL, 'config.hpp.fallback'), os.path.join(d, 'config.hpp'))
        used = True
    return ['-I' + d] if used else []


def extract(prefixes=None, jobs=None, quiet=True):
    w = workdir()
    exe, toolhash = build_tool()
    groups, tus = units(prefixes)
    if not tus:
        raise AnalysisError('no translation units under %s' % (prefixes,))
    common = common_flags(groups, tus)
    pch = build_pch(common)
    need98 = any('-std=gnu++98' in groups[g]['args'] for g in tus.values())
    pch98 = build_pch(common, 'gnu++98') if need98 else None
    fdir = os.path.join(w, 'facts')
    os.makedirs(fdir, exist_ok=True)
    hdrs = repo_header_list()
    ov = overlay()
    res = Extraction()

    def one(s):
        g = groups[tus[s]]
        c = g['lang'] == 'c'
        args = norm_args(g['args'])
        if c:
            pre = ['-x', 'c', '-w']
            args = [a for a in args if not a.startswith('-std=') and a != '-fno-access-control']
        elif '-std=gnu++98' in args:
            pre = ['-include-pch', pch98] + common
        elif '-DNDEBUG' in args or '-std=gnu++14' not in args or '-std=gnu++17' in args:
            pre = ['-w', '-include', 'iostream', '-include', 'algorithm'] + common
        else:
            pre = ['-include-pch', pch] + common
        args = pre + ov + args
        key0 = hashlib.sha1(json.dumps([toolhash, args, hdrs, s, EXCLUDE, REPO]).encode()).hexdigest()
        base = os.path.join(fdir, s.replace('/', '__'))
        try:
            with open(base + '.key') as f:
                k = json.load(f)
            if k['key0'] == key0 and os.path.exists(base + '.facts') and all(
                    repo_sha(x) == v for x, v in k['deps'].items()):
                return s, base + '.facts', True, ''
        except (OSError, ValueError, KeyError):
            pass
        out = base + '.facts'
        try:
            os.unlink(out)
        except OSError:
            pass
        cmd = [exe, '--root=' + REPO, '--out=' + out] + ['--exclude=' + e for e in EXCLUDE] + \
              ['--', '-resource-dir', LLVM + '/lib/clang/18'] + args + [os.path.join(REPO, s)]
        r = run(cmd, cwd=REPO)
        if r.returncode or not os.path.exists(out):
            return s, None, False, r.stdout[-1500:]
        with open(out) as f:
            deps = json.loads(f.readline())
        deps = [x for x in deps if not x.startswith('<')]
        kt = base + '.key.%d' % os.getpid()
        with open(kt, 'w') as f:
            json.dump({'key0': key0, 'deps': {x: repo_sha(x) for x in deps}}, f)
        os.rename(kt, base + '.key')
        return s, out, False, ''

    with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as p:
        for s, path, cached, err in p.map(one, sorted(tus)):
            if path is None:
                res.failed.append((s, err))
            else:
                res.files[s] = path
                if cached:
                    res.cached += 1
                else:
                    res.fresh += 1
    if res.failed:
        raise AnalysisError('units that did not parse: ' + '; '.join(
            '%s: %s' % (s, ' | '.join(l for l in e.splitlines() if 'error' in l)[:400]) for s, e in res.failed))
    return res


if __name__ == '__main__':
    t = time.time()
    try:
        r = extract(sys.argv[1:] or None)
    except AnalysisError as e:
        print('ERROR', e)
        sys.exit(2)
    print('units', len(r.files), 'fresh', r.fresh, 'cached', r.cached, 'wall %.1f' % (time.time() - t))
