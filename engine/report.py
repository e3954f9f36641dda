"""Shared reporting: evidence file, known findings, exit status."""
import json, os, sys, time, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

def venv():
    """restart under the tooling Python when the libraries needed are not in this one"""
    try:
        import Cython, libcst
    except ImportError:
        import shutil
        v = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
        if os.environ.get('VERIF_REEXEC') == '1': raise
        os.environ['VERIF_REEXEC'] = '1'; sys.stdout.flush(); os.execv(v, [v] + sys.argv)

class Check:
    def __init__(self, pid, level='other', technique=''):
        self.pid = pid; self.level = level; self.technique = technique
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER') or 'quick'
        if '--thorough' in sys.argv: self.tier = 'thorough'
        self.violations = []          # (key, text)
        self.undecided = []
        self.known_hit = []
        self.cov = {}
        self.assumptions = []
        self.count = {}
        self.known = {}
        p = os.path.join(ROOT, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('known:'):
                    # known: property=<id> key=<key> | text
                    body = l[6:].strip()
                    d = dict(x.split('=', 1) for x in body.split('|')[0].split())
                    if d.get('property') == pid: self.known[d['key']] = body.split('|', 1)[1].strip()

    def obligation(self, kind, n=1):
        self.count[kind] = self.count.get(kind, 0) + n

    def violation(self, key, text):
        if key in self.known:
            if key not in self.known_hit: self.known_hit.append(key)
            return
        if not any(k == key for k, _ in self.violations): self.violations.append((key, text))

    def undecide(self, text):
        if text not in self.undecided: self.undecided.append(text)

    def need(self, kind, n):
        """instance floor: fewer analysed instances than confirmed by hand = broken analysis"""
        if self.count.get(kind, 0) < n and not self.violations:
            self.undecide('INSTANCE FLOOR: only %d instances of %s analysed, at least %d expected; nothing is concluded about the rest' % (self.count.get(kind, 0), kind, n))

    def broken(self, why):
        print('ANALYSIS-BROKEN property=%s %s' % (self.pid, why)); sys.stdout.flush()
        self.undecide('ANALYSIS STOPPED: ' + why); self.finish('analysis stopped: ' + why)

    def finish(self, explanation, trusted='', **cov):
        d = {'obligations': sum(self.count.values()), 'instances': self.count, 'explanation': explanation, 'undecided': self.undecided[:50], 'n_undecided': len(self.undecided)}
        d.update(self.cov); d.update(cov)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': self.level,
              'coverage': d, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations), 'assumptions': self.assumptions}
        EV = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(EV, exist_ok=True)
        with open(os.path.join(EV, self.pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1, ensure_ascii=False)
        print('%s: analysed %s; undecided %d; violations %d; %.1fs' % (self.pid, ', '.join('%s=%s' % kv for kv in sorted(self.count.items())), len(self.undecided), len(self.violations), time.time() - self.t0))
        for u in self.undecided[:20]: print('  undecided:', u)
        for k in self.known_hit: print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]))
        if self.violations:
            rp = os.path.join(EV, self.pid + '.violations.txt')
            with open(rp, 'w') as fh:
                for k, t in self.violations: fh.write('%s\n    key: %s\n' % (t, k))
            for k, t in self.violations[:40]: print('  ' + t)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            sys.stdout.flush(); sys.exit(1)
        sys.stdout.flush(); sys.exit(0)

def main(fn, chk):
    try:
        fn(chk)
    except SystemExit: raise
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, RecursionError, StopIteration) as e:
        # a construct the analysis does not know: nothing is concluded from it
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        chk.undecide('analysis stopped: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:100], os.path.basename(tb.filename), tb.lineno))
        chk.finish('analysis stopped at a construct it does not know')
    except Exception as e:
        # the sources do not compile as the analysis needs them, or a tool failed
        traceback.print_exc()
        chk.undecide('analysis stopped: %s: %s' % (type(e).__name__, str(e)[:300]))
        chk.finish('analysis stopped')
