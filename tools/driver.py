"""Runs a check: collects coverage, violations and known findings, writes the evidence file."""
__import__("sys").setrecursionlimit(20000)
import argparse, importlib, json, os, random, shutil, sys, time, traceback
from common import *

CHECKS = {}
MODULES = ['checks.json_checks', 'checks.binary_checks', 'checks.generator_checks', 'checks.concurrency_checks']


def check(pid, level, technique, note):
    def deco(fn):
        CHECKS[pid] = dict(fn=fn, level=level, technique=technique, note=note)
        return fn
    return deco


def load():
    for m in MODULES:
        if os.path.exists(os.path.join(VERIF, 'tools', m.replace('.', '/') + '.py')): importlib.import_module(m)


class Ctx:
    """what a check function gets"""
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s/%d' % (pid, seed))
        self.cov, self.violations, self.samples, self.distinct = {}, [], [], set()
        self.known = known_findings(pid)
        self.reported = set()
        self.assumptions = []
        self.t0 = time.time()

    def n(self, quick, thorough): return thorough if self.thorough else quick
    def count(self, key, by=1): self.cov[key] = self.cov.get(key, 0) + by
    def add_tlc(self, r):
        self.count('states', r.distinct); self.count('transitions', r.generated)
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)
    def seen(self, x):
        self.distinct.add(sha(json.dumps(x, sort_keys=True, default=str)))
    def path(self, *p):
        d = os.path.join(self.work, *p); os.makedirs(d, exist_ok=True); return d

    def violation(self, what, data=None):
        self.violations.append((what, data or {}))

    def finding(self, fid, what=''):
        """a violation with the identity fid: known ones are reported as such, others are violations"""
        if fid in self.known:
            if fid not in self.reported:
                self.reported.add(fid)
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[fid]))
            return True
        return False


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\w+) id=(\S+) (.*)', line)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3).strip()
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--list', action='store_true'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--setup', action='store_true')
    a = ap.parse_args(argv)
    load()
    if a.list:
        for p in sorted(CHECKS): print(p, CHECKS[p]['level'], '-', CHECKS[p]['technique'])
        return 0
    if a.setup:
        return setup()
    if a.replay:
        d = json.load(open(a.replay))
        print(json.dumps({k: v for k, v in d.items() if k != 'data'}, indent=1)); print(json.dumps(d.get('data'), indent=1)[:20000])
        print('re-run with: VERIF_SEED=%s %s %s --tier %s' % (d['seed'], os.path.join(VERIF, 'check.py'), d['property'], d['tier']))
        return 0
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return run_check(a.property, tier, seed, a.keep)


def setup():
    """builds what all checks share (later runs re-use it when it is still there; every check builds what is missing)"""
    try:
        print('generator:', generator())
    except BuildFailure as e:
        print(str(e)[-3000:])
        return 1
    r = run(['java', '-version'])
    print(r.stdout.decode(errors='replace'))
    return 0


def run_check(pid, tier, seed, keep=False):
    c = CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='work-%s-' % pid, dir=BUILD)
    x = Ctx(pid, tier, seed, work)
    rc = 0
    try:
        try:
            c['fn'](x)
        except BuildFailure as e:
            x.violation('code of the repository, or code generated by it, does not compile or run: ' + str(e).split('\n')[0], {'log': str(e)})
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': c['level'], 'coverage': dict(x.cov, samples=x.samples or ['(none)']), 'assumptions': x.assumptions,
              'wall_s': round(time.time() - x.t0, 2), 'violations': len(x.violations)}
        if c['level'] in ('exploration', 'fault_enumeration'): ev['coverage'].setdefault('distinct_nontrivial', len(x.distinct))
        if c['level'] == 'model_checking':
            for k in ('states', 'transitions', 'traces_validated_against_impl'): ev['coverage'].setdefault(k, 0)
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        for f in os.listdir(os.path.join(VERIF, 'evidence', 'replay')):
            if f.startswith(pid + '-'): os.unlink(os.path.join(VERIF, 'evidence', 'replay', f))
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k, (what, data) in enumerate(x.violations[:5]):
            p = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (pid, k + 1))
            with open(p, 'w') as f: json.dump({'property': pid, 'tier': tier, 'seed': seed, 'what': what, 'data': data}, f, indent=1, default=str)
            print('%s: %s' % (pid, what[:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
            rc = 1
        print('%s %s: %s, %.1f s, %s' % (pid, tier, 'violated (%d)' % len(x.violations) if x.violations else 'held', time.time() - x.t0,
                                         ', '.join('%s=%s' % kv for kv in x.cov.items() if isinstance(kv[1], int))))
    except CheckError as e:
        print('%s: error of the check: %s' % (pid, e)); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print('kept', work)
    return rc
