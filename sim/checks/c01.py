"""C01: success is never reported after a failed or lost operation."""
from sim import core, scene
from sim.engine import Result

ID = 'C01'
COUNTS = {'quick': 560, 'thorough': 16000}
ERR = {
    'open': ['EIO', 'EACCES', 'ENOENT', 'EMFILE', 'ENOSPC', 'EROFS', 'ENFILE',
             'ESTALE', 'EPERM', 'EDQUOT'],
    'read': ['EIO', 'ESTALE', 'ENOMEM', 'ETIMEDOUT', 'EISDIR'],
    'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'ENOMEM', 'ESTALE'],
    'close': ['EIO', 'ENOSPC', 'EDQUOT'],
}
META = {
    'rule': 'Each scenario draws a source tree (generated or sampled from the '
            'bundled release), flags and an optional include list, runs it '
            'undisturbed, then again once per drawn fault plan: an error of '
            'a random kind at a random file operation (transient, with a '
            'partial write first, or with the device staying bad), a full '
            'disk after a random number of bytes, an interrupt or allocation '
            'failure at a random operation or executed source line, a missing '
            'input, or random short reads and writes. A run counts as '
            'non-trivial if its fault took effect; distinct counts the '
            'different (fault kind, operation kind, file, outcome) seen.',
    'states': 'distinct (fault kind, operation kind, file hit, exit status, '
              'exception type, set of complete outputs)',
    'assumptions': ['a file operation that fails does so by raising OSError, '
                    'as CPython reports it',
                    'data accepted by a successful close is on the disk'],
}


def gen(r, i, tier):
    sc = scene.gen_base(r)
    sc['bufsize'] = r.choice([256, 512, 1024, 8192, 8192])
    n = 10 if tier == 'quick' else 14
    fs = []
    for _ in range(n):
        x = r.random()
        if x < 0.42:
            f = {'kind': 'error', 'pos': r.random(), 'pick': r.random(),
                 'out': r.random() < 0.6}
            y = r.random()
            if y < 0.25:
                f['sticky'] = True
            elif y < 0.5:
                f['part'] = r.choice([1, 7, 100, 4000])
        elif x < 0.56:
            f = {'kind': 'disk', 'pos': r.random()}
        elif x < 0.64:
            f = {'kind': 'interrupt', 'pos': r.random()}
        elif x < 0.70:
            f = {'kind': 'memory', 'pos': r.random()}
        elif x < 0.86:
            f = {'kind': 'line', 'pos': r.random(),
                 'early': r.random() < 0.35,
                 'do': r.choice(['memory', 'memory', 'interrupt', 'term'])}
        elif x < 0.92:
            f = {'kind': 'missing', 'pick': r.random()}
        else:
            f = {'kind': 'short', 'seed': r.randrange(1 << 30),
                 'pr': r.choice([0, .3, .9]), 'pw': r.choice([0, .3, .9])}
        fs.append(f)
    if i % 3:       # line counting is slow; keep it to a third of them
        fs = [f for f in fs if f['kind'] != 'line'] or fs[:1]
    sc['faults'] = fs
    return sc


def plan_of(f, ref, size, lines):
    """The concrete fault a fraction of the undisturbed run stands for."""
    ops = ref['ops']
    if f['kind'] == 'error':
        side = [k for k, o in enumerate(ops)
                if (o[1] or '').startswith('out') == f['out']]
        if not side:
            side = list(range(len(ops)))
        n = side[min(int(f['pos'] * len(side)), len(side) - 1)]
        kinds = ERR.get(ops[n][0], ['EIO', 'EACCES'])
        e = {'at': n, 'do': kinds[int(f['pick'] * len(kinds))]}
        if f.get('part') and ops[n][0] == 'write':
            e['part'] = f['part']
        return {'faults': [e], 'sticky': f.get('sticky', False)}
    if f['kind'] == 'disk':
        return {'budget': int(f['pos'] * max(size - 1, 1))}
    if f['kind'] in ('interrupt', 'memory'):
        return {'faults': [{'at': int(f['pos'] * len(ops)),
                            'do': f['kind']}]}
    if f['kind'] == 'line':
        n = lines() * (0.15 if f['early'] else 1)
        return {'faults': [{'line': int(f['pos'] * n), 'do': f['do']}]}
    if f['kind'] == 'short':
        return {'short': [f['seed'], f['pr'], f['pw']]}
    return {}


def execute(sc):
    res = Result()
    w = core.World()
    try:
        scene.setup(w, sc)
        base = {'bufsize': sc['bufsize']}
        ref = scene.run(w, sc, base)
        good = scene.files(w.snap('out'))
        res.run(ref)
        res.mix(sorted(good.items()))
        ok = ref['exit'] == 0
        want = scene.expected(sc)
        if ref.get('died'):
            res.violation('hang', 'an undisturbed run %s' % scene.tell(ref))
            return res
        if ok and set(want) - set(good):
            res.violation('missing', 'status 0 but these requested outputs '
                          'do not exist: %s' % sorted(set(want) - set(good)))
            return res
        res.count('undisturbed_ok' if ok else 'undisturbed_refused')
        size = sum(len(v) for v in good.values())
        memo = []

        def lines():
            if not memo:
                core.shutil.rmtree(w.path('out'))
                core.os.mkdir(w.path('out'))
                o = scene.run(w, sc, base, trace=True)
                memo.append(o.get('lines') or 1)
            return memo[0]
        for f in sc['faults']:
            if f['kind'] == 'disk' and not ok:
                continue
            plan = dict(base, **plan_of(f, ref, size, lines))
            core.shutil.rmtree(w.path('out'))
            core.os.mkdir(w.path('out'))
            moved = None
            if f['kind'] == 'missing':
                ins = sorted(core.os.listdir(w.path('in')))
                if sc.get('include'):
                    ins.append('../include.txt')
                moved = w.path('in', ins[int(f['pick'] * len(ins))])
                core.os.rename(moved, moved + '.gone')
            out = scene.run(w, sc, plan)
            if moved:
                core.os.rename(moved + '.gone', moved)
                out['fired'] = {'missing_input': 1}
            got = scene.files(w.snap('out'))
            res.run(out)
            fired = bool(out['fired'])
            if fired:
                res.count('fault_took_effect')
            res.saw(f['kind'], sorted(out.get('fired') or ()), out['exit'],
                    out.get('exc'), hit_file(plan, ref), sorted(
                        k for k in got if got[k] == good.get(k)))
            if f['kind'] == 'missing' and out['exit'] == 0:
                res.violation('missing-input', 'the input %s does not exist '
                              'but the run ends with status 0' %
                              core.os.path.basename(moved))
            judge(res, f, plan, ref, out, good, got, want, ok)
            if res.viol:
                res.viol['plan'] = plan
                return res
    finally:
        w.close()
    return res


def hit_file(plan, ref):
    for f in plan.get('faults', ()):
        if 'at' in f and f['at'] < len(ref['ops']):
            return ref['ops'][f['at']][:2]
    return None


def judge(res, f, plan, ref, out, good, got, want, ok):
    how = '%s (%s)' % (f['kind'], ', '.join(sorted(out.get('fired') or ()))
                       or 'no effect')
    if out.get('died'):
        res.violation('hang', 'the run %s under: %s' % (scene.tell(out), how))
        return
    if f['kind'] == 'short' or not out['fired']:
        if f['kind'] != 'missing' and out['exit'] != ref['exit']:
            res.violation('short-status', 'splitting transfers changed the '
                          'outcome from %s to %s' % (scene.tell(ref),
                                                     scene.tell(out)))
    if out['exit'] != 0:
        return
    if not ok:
        res.violation('status', 'the undisturbed run ends with %s, but under '
                      '%s it ends with status 0' % (scene.tell(ref), how))
        return
    for k in sorted(set(good) | set(want)):
        if got.get(k) != good.get(k):
            res.violation('status', 'status 0 under %s, but output %s is %s' % (
                how, k, scene.diff(good.get(k), got.get(k))))
            return
