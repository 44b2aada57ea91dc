"""Runs one property's rule and reports."""
import json, os, sys, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'rules'))
import extract as X
import model
import flow as FL
import callgraph as CG

VERIF = os.path.dirname(HERE)


class Env:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = []
        self.counts = {}
        self.samples = []
        self.notes = []
        self._P = None
        self._ctx = None
        self._G = None
        self.prefixes = None
        self.obligations = 0
        self.discharged = 0

    @property
    def P(self):
        if self._P is None:
            self._P = model.load(self.prefixes)
        return self._P

    @property
    def ctx(self):
        if self._ctx is None:
            self._ctx = FL.Ctx(self.P)
        return self._ctx

    @property
    def G(self):
        if self._G is None:
            self._G = CG.CallGraph(self.P)
        return self._G

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, minimum):
        n = self.counts.get(name, 0)
        if n < minimum:
            raise X.AnalysisError('analysis broken: %s = %d, expected at least %d (anchors moved or unit not parsed)' % (name, n, minimum))

    def anchor(self, cond, what):
        if not cond:
            raise X.AnalysisError('analysis broken: anchor not found: ' + what)

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, where, msg):
        """key identifies the construct without line numbers"""
        self.obligations += 1
        if any(v['key'] == key and v['where'] == where for v in self.violations):
            return
        self.violations.append({'key': key, 'where': where, 'msg': msg})


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if line.startswith('finding:'):
            head, _, desc = line[len('finding:'):].partition(' :: ')
            d = {}
            key = head.split(' key=', 1)[1].strip() if ' key=' in head else None
            prop = head.split('property=', 1)[1].split()[0]
            if prop == pid and key:
                out[key] = desc.strip()
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import registry
    spec = registry.RULES[pid]
    env = Env(pid, tier)
    env.prefixes = spec.get('prefixes')
    try:
        spec['fn'](env)
    except X.AnalysisError as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s internal error in the analysis' % pid)
        return 3
    kf = known_findings(pid)
    new = []
    used = set()
    for v in env.violations:
        if v['key'] in kf:
            used.add(v['key'])
        else:
            new.append(v)
    for k in sorted(used):
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, kf[k], k))
    wall = time.time() - t0
    P = env._P
    cov = {
        'explanation': spec['explain'],
        'rule': spec['rule'],
        'units_analysed': len(P.units) if P else 0,
        'units_parsed_now': P.ex.fresh if P else 0,
        'units_from_content_cache': P.ex.cached if P else 0,
        'functions_in_program': len(P.funcs) if P else 0,
        'obligations': env.obligations,
        'discharged': env.discharged,
        'known_findings': len(used),
        'counts': env.counts,
        'samples': env.samples[:12],
        'notes': env.notes[:20],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'other'),
          'coverage': cov, 'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2),
          'violations': len(new)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d obligations, %d discharged, %d known findings, %d violations; units %d (%d parsed, %d cached); %s; %.1fs'
          % (pid, env.obligations, env.discharged, len(used), len(new), cov['units_analysed'],
             cov['units_parsed_now'], cov['units_from_content_cache'],
             ', '.join('%s=%s' % kv for kv in sorted(env.counts.items())), wall))
    if new:
        rdir = os.path.join(VERIF, 'evidence', 'reports')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, pid + '.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('%s\n  key: %s\n  %s\n' % (v['where'], v['key'], v['msg']))
        for v in new[:15]:
            print('  %s: %s  [key %s]' % (v['where'], v['msg'][:400], v['key']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
