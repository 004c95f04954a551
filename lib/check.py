"""Common frame of the checks: findings, known findings, evidence, exit code."""
import os, sys, json, time, traceback
from tu import VERIF, REPO, AnalysisBroken

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.viol = []      # (key, message)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.rules = []
        self.assume = []
        self.obl = 0
        self.dis = 0
        self.und = 0

    def rule(self, s):
        self.rules.append(s)

    def ok(self, n=1):
        self.obl += n; self.dis += n

    def undecided(self, what):
        """an obligation the analysis could not settle either way: stays quiet, and is counted"""
        self.obl += 1; self.und += 1
        if len(self.notes) < 60:
            self.notes.append('undecided: ' + what)

    def bad(self, key, msg):
        """key: stable identity of the construct (no line numbers)"""
        self.obl += 1
        self.viol.append((key, msg))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s, lim=12):
        if len(self.samples) < lim:
            self.samples.append(s)

    def floor(self, k, n):
        """fewer instances than confirmed by hand: the rule has lost its anchors"""
        if self.counts.get(k, 0) < n:
            raise AnalysisBroken('%s: only %d instances of "%s", at least %d were confirmed' % (self.pid, self.counts.get(k, 0), k, n))


def known(pid):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % pid):
                key, _, what = l[len('known: property=%s ' % pid):].partition(' :: ')
                r[key.strip()] = what
    return r


def main(pid, fn):
    R = Report(pid)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = 0
    err = None
    try:
        fn(R, tier)
    except AnalysisBroken as e:
        err = 'analysis broken: %s' % e
    except Exception:
        err = 'analysis broken: ' + traceback.format_exc()
    kn = known(pid)
    seen = set()
    new = []
    for key, msg in R.viol:
        if key in kn:
            if key not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, kn[key] or msg))
            seen.add(key)
        else:
            new.append((key, msg))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not new and err:
        print(err, file=sys.stderr)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': ' '.join(R.rules),
            'obligations': R.obl, 'discharged': R.dis, 'undecided': R.und,
            'analysed': R.counts, 'samples': R.samples or ['-'],
            'notes': R.notes,
            'findings': [m for _, m in R.viol][:50],
        },
        'assumptions': R.assume,
        'wall_s': round(time.time() - R.t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for k, m in new:
                f.write('%s\n    key: %s\n' % (m, k))
        for k, m in new[:40]:
            print(m)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        return 3
    print('%s: held; %d obligations, %d discharged, %d undecided; %s; %.1f s' % (pid, R.obl, R.dis, R.und, ', '.join('%s=%s' % kv for kv in sorted(R.counts.items())), time.time() - R.t0))
    return 0
