"""Seeded search: many simulated runs of one check, spread over processes.

A check module offers
    ID, TITLE, COUNTS = {'quick': n, 'thorough': n}
    gen(rng, i, tier)  -> scenario (JSON-able, complete: nothing is drawn later)
    execute(scenario)  -> Result
    simplify(scenario) -> smaller candidates (optional)
    META               -> texts for the evidence

Scenario number i is a pure function of (ID, seed, i); the interpreter that
runs it has a hash seed that is a function of i.  So one number is one exactly
repeatable execution.
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from sim import core, minimize
from sim.rng import rng

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')
NPROC = 8


class Result:
    """What one scenario showed."""

    def __init__(self):
        self.viol = None        # {'key': ..., 'what': ...}
        self.evals = 0          # simulated runs
        self.fired = {}         # fault kind -> count
        self.sigs = set()       # distinct states reached
        self.stats = {}         # other counters
        self.ops = 0
        self._h = hashlib.sha256()

    def violation(self, key, what, **detail):
        if self.viol is None:
            self.viol = dict(key=key, what=what, **detail)

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def saw(self, *parts):
        self.sigs.add(hashlib.sha256(
            repr(parts).encode()).hexdigest()[:12])

    def mix(self, *parts):
        """Add to the digest that a repetition must reproduce."""
        self._h.update(repr(parts).encode('utf-8', 'backslashreplace'))

    def digest(self):
        return self._h.hexdigest()[:16]

    def run(self, out, *sig):
        """Account for one simulated run."""
        self.evals += 1
        self.ops += out.get('nops') or 0
        for k, v in (out.get('fired') or {}).items():
            self.fired[k] = self.fired.get(k, 0) + v
        if out.get('ops') and isinstance(out['ops'], list):
            self.mix(out['ops'])
        self.mix(out.get('exit'), out.get('exc'), out.get('crashed'),
                 out.get('died'))


def hashseed(i):
    return i % NPROC * 1009 + 1


def load(cid):
    return importlib.import_module('sim.checks.' + cid.lower())


def known(cid):
    out = []
    try:
        with open(KNOWN) as f:
            for ln in f:
                p = 'finding: property=%s key=' % cid
                if ln.startswith(p):
                    key, _, what = ln[len(p):].strip().partition(' ')
                    out.append((key, what))
    except OSError:
        pass
    return out


# --------------------------------------------------------------------------
# Worker
# --------------------------------------------------------------------------

def worker(mod, tier, seed, w, count, cap):
    t0 = time.time()
    agg = {'runs': 0, 'evals': 0, 'ops': 0, 'fired': {}, 'stats': {},
           'sigs': [], 'digests': {}, 'repeat_ok': 0, 'repeat_bad': 0,
           'viol': None, 'known': {}, 'samples': [], 'capped': False}
    sigs = set()
    kn = dict(known(mod.ID))
    for i in range(w, count, NPROC):
        if time.time() - t0 > cap:
            agg['capped'] = True
            break
        sc = mod.gen(rng(mod.ID, seed, i), i, tier)
        res = mod.execute(sc)
        agg['runs'] += 1
        agg['evals'] += res.evals
        agg['ops'] += res.ops
        for d, s in ((agg['fired'], res.fired), (agg['stats'], res.stats)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        sigs |= res.sigs
        if i < 2 * NPROC and res.viol is None:
            again = mod.execute(json.loads(json.dumps(sc)))
            same = again.digest() == res.digest()
            agg['repeat_ok' if same else 'repeat_bad'] += 1
            agg['digests'][i] = res.digest()
            if w < 3 and not agg['samples']:
                agg['samples'].append({'index': i, 'scenario': brief(sc),
                                       'digest': res.digest()})
        if res.viol is not None:
            if res.viol['key'] in kn:
                agg['known'][res.viol['key']] = kn[res.viol['key']]
                continue
            small, viol, tries = minimize.minimize(
                mod, sc, res.viol, limit=45, ignore=kn)
            agg['viol'] = {'index': i, 'scenario': small, 'violation': viol,
                           'first': res.viol, 'tries': tries,
                           'digest': mod.execute(small).digest()}
            break
    agg['sigs'] = sorted(sigs)
    return agg


def brief(sc):
    """A scenario, shortened for the evidence file."""
    s = json.dumps(sc)
    if len(s) <= 3000:
        return sc
    out = dict(sc)
    for k, v in sc.items():
        if isinstance(v, list) and len(json.dumps(v)) > 1200:
            out[k] = v[:3] + ['... %d more' % (len(v) - 3)] if len(v) > 3 \
                else json.dumps(v)[:1200]
    return out


# --------------------------------------------------------------------------
# Parent
# --------------------------------------------------------------------------

def spawn(cid, extra, hs, stdout, stderr=None):
    env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    return subprocess.Popen(
        [sys.executable, os.path.join(HERE, 'check.py'), cid] + extra,
        env=env, stdout=stdout, stderr=stderr, stdin=subprocess.DEVNULL, cwd=HERE)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--count', type=int)
    ap.add_argument('--worker', type=int)
    ap.add_argument('--result')
    ap.add_argument('--replay')
    ap.add_argument('--cap', type=float)
    ap.add_argument('--one', type=int, help='run one scenario and print it')
    a = ap.parse_args(argv)
    mod = load(a.id)
    count = a.count or mod.COUNTS[a.tier]
    cap = a.cap or {'quick': 420, 'thorough': 780}[a.tier]
    core.install_cleanup()
    try:
        if a.worker is not None:
            core.load_repo()
            agg = worker(mod, a.tier, a.seed, a.worker, count, cap)
            with open(a.result, 'w') as f:
                json.dump(agg, f)
            return 0
        if a.replay:
            return replay(mod, a.replay)
        if a.one is not None:
            sc = mod.gen(rng(mod.ID, a.seed, a.one), a.one, a.tier)
            core.load_repo()
            res = mod.execute(sc)
            print(json.dumps({'scenario': sc, 'viol': res.viol,
                              'stats': res.stats, 'fired': res.fired,
                              'evals': res.evals}, indent=1)[:20000])
            return 0 if res.viol is None else 1
        return search(mod, a.tier, a.seed, count, cap)
    finally:
        core.drop_scratch()


def replay(mod, path):
    with open(path) as f:
        rp = json.load(f)
    if os.environ.get('PYTHONHASHSEED') != str(rp['hashseed']):
        p = spawn(mod.ID, ['--replay', os.path.abspath(path)],
                  rp['hashseed'], None)
        return p.wait()
    core.load_repo()
    res = mod.execute(rp['scenario'])
    if res.viol is None:
        print('replay: no violation (the code no longer fails this way)')
        return 0
    print('replay: %s' % json.dumps(res.viol)[:4000])
    print('replay: execution is %s the recorded one' % (
        'identical to' if res.digest() == rp['digest'] else 'not identical to'))
    print('VIOLATION property=%s replay=%s' % (mod.ID, path))
    return 1


def search(mod, tier, seed, count, cap):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='simrun-')
    os.environ['SIM_SCRATCH'] = tmp
    procs = []
    try:
        for w in range(NPROC):
            rf = os.path.join(tmp, 'r%d' % w)
            procs.append((w, rf, spawn(mod.ID, [
                '--tier', tier, '--seed', str(seed), '--count', str(count),
                '--cap', str(cap), '--worker', str(w), '--result', rf],
                hashseed(w), None, open(rf + '.err', 'wb'))))
        aggs, broken = [], []
        found = False
        for w, rf, p in procs:
            try:
                rc = p.wait(timeout=max(1.0, cap + 90 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -9
            if os.path.exists(rf):
                with open(rf) as f:
                    aggs.append(json.load(f))
            else:
                broken.append((w, rc))
                if len(broken) == 1:
                    with open(rf + '.err', errors='replace') as f:
                        print(f.read()[-1500:])
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    viols = sorted((g['viol'] for g in aggs if g['viol']),
                   key=lambda v: v['index'])
    kn = {}
    for g in aggs:
        kn.update(g['known'])
    for k in sorted(kn):
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, kn[k]))
    ev = evidence(mod, tier, seed, count, aggs, wall, viols, broken)
    tmpf = os.path.join(EVID, '.%s.tmp' % mod.ID)
    with open(tmpf, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(tmpf, os.path.join(EVID, mod.ID + '.json'))
    c = ev['coverage']
    print('%s %s: %d scenarios, %d simulated runs, %d distinct states, '
          '%.1f s' % (mod.ID, tier, c['scenarios'], c['evaluations'],
                      c['distinct_nontrivial'], wall))
    if viols:
        v = viols[0]
        os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
        rp = os.path.join(EVID, 'replays', '%s-%d-%d.json' % (
            mod.ID, seed, v['index']))
        with open(rp, 'w') as f:
            json.dump({'property': mod.ID, 'seed': seed, 'tier': tier,
                       'index': v['index'], 'hashseed': hashseed(v['index']),
                       'violation': v['violation'], 'digest': v['digest'],
                       'minimised_in': v['tries'],
                       'scenario': v['scenario']}, f, indent=1)
        print('%s: %s' % (mod.ID, v['violation']['what'][:1500]))
        print('VIOLATION property=%s replay=%s' % (mod.ID, rp))
        return 1
    if broken:
        print('%s: workers failed: %s' % (mod.ID, broken))
        return 3
    return 0


def evidence(mod, tier, seed, count, aggs, wall, viols, broken):
    def total(k):
        return sum(g[k] for g in aggs)

    def merged(k):
        out = {}
        for g in aggs:
            for a, b in g[k].items():
                out[a] = out.get(a, 0) + b
        return dict(sorted(out.items()))
    sigs = set()
    for g in aggs:
        sigs.update(g['sigs'])
    runs, evals = total('runs'), total('evals')
    return {
        'property': mod.ID, 'tier': tier, 'seed': seed,
        'level': mod.META.get('level', 'exploration'),
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(sigs),
            'rule': mod.META['rule'],
            'scenarios': runs,
            'scenarios_planned': count,
            'stopped_by_time_cap': any(g['capped'] for g in aggs),
            'simulated_runs_per_hour': int(evals / wall * 3600),
            'seeds_per_hour': int(runs / wall * 3600),
            'operations_simulated': total('ops'),
            'faults_injected': merged('fired'),
            'counters': merged('stats'),
            'simulated_time': mod.META.get(
                'time', 'none: the system has no timers; runs are counted '
                'in file operations instead'),
            'state_measure': mod.META['states'],
            'components_real': mod.META.get('real', REAL_PARTS),
            'components_stub': mod.META.get('stub', STUB_PARTS),
            'determinism': {
                'scenarios_executed_twice': total('repeat_ok')
                + total('repeat_bad'),
                'identical': total('repeat_ok'),
                'different': total('repeat_bad')},
            'workers': NPROC, 'workers_failed': broken,
            'samples': [s for g in aggs for s in g['samples']][:3],
        },
        'assumptions': mod.META.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(viols),
    }


REAL_PARTS = ['all of src/acetimetools run as the __main__ script by CPython',
              "Python's buffered and text I/O layers", 'the scratch directory']
STUB_PARTS = ['raw file device and directory calls (wrapped: real calls under '
              'a simulated outcome)', 'acetime.zone_processor (scripted peer; '
              'acetimepy is not installed)']
