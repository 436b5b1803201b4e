"""C07: what one target writes does not depend on the other targets."""
import re
import shutil

from sim import core, decode, scene, sched, tzgen
from sim.engine import Result

ID = 'C07'
COUNTS = {'quick': 400, 'thorough': 12000}
META = {
    'rule': 'Each scenario draws a source tree and flags, compiles every '
            'target (four languages, JSON, zone list) alone in a fresh '
            'process, then several drawn sets of targets, named in drawn '
            'orders and repeatedly, in fresh processes and in processes in '
            'which earlier compilations of the same input were interrupted, '
            'starved of memory or hit by an error at a drawn operation or '
            'source line. Files are compared with those written alone, the '
            'quoted command line aside. Distinct counts the different '
            '(scope, ordered targets, history, status) seen.',
    'states': 'distinct (scope, ordered and repeated targets, history of '
              'earlier runs in the process, exit status)',
    'assumptions': ['the option values of --languages, --actions and '
                    '--json_file inside the quoted command line may differ'],
}
LANGS = ['arduino', 'c', 'go', 'python']
SHARED = sorted(set(tzgen.LANG_FILES['arduino'])
                & set(tzgen.LANG_FILES['c']))
QUOTED = re.compile(rb'--(languages|actions|json_file)[ =]\S+')


def gen(r, i, tier):
    sc = scene.gen_base(r, big=0.06)
    f = sc['flags']
    f.pop('skip', None)
    f['json'] = 'zonedb.json'
    combos = []
    for _ in range(3 if tier == 'quick' else 5):
        langs = r.sample(LANGS, r.choice([1, 2, 2, 3, 4, 4]))
        acts = r.sample(['zonedb', 'json', 'zonelist'], r.choice([1, 2, 3]))
        if r.random() < 0.8 and 'zonedb' not in acts:
            acts.append('zonedb')
        for x in (langs, acts):
            if r.random() < 0.25:
                x.insert(r.randint(0, len(x)), r.choice(x))
        c = {'langs': langs, 'actions': acts}
        if r.random() < 0.45:
            c['before'] = []
            for _ in range(r.choice([1, 1, 2])):
                b = {'langs': r.sample(LANGS, r.choice([1, 2, 4])),
                     'actions': r.choice([['zonedb'], ['zonedb', 'json'],
                                          ['json', 'zonelist']])}
                if r.random() < 0.8:
                    b['fault'] = {'do': r.choice(
                        ['memory', 'interrupt', 'ENOSPC', 'EIO', 'term'])}
                    if b['fault']['do'][0] == 'E' or r.random() < 0.5:
                        b['fault']['op'] = r.randint(25, 90)
                    else:
                        b['fault']['line'] = int(2 ** r.uniform(6, 15))
                c['before'].append(b)
        combos.append(c)
    sc['combos'] = combos
    return sc


def argv(sc, langs, acts, out):
    return tzgen.argv(dict(sc['flags'], langs=langs, actions=acts), 'in',
                      out, 'include.txt' if sc.get('include') else None)


def mask(data):
    return QUOTED.sub(rb'--\1 ...', data)


def facts(data):
    """What of the JSON file must not depend on the targets."""
    try:
        c = decode.decode_json(data)
    except decode.Bad as e:
        return {'unreadable': str(e)}
    raw = c.pop('raw')
    for k in list(raw):
        if k.startswith(('notable', 'removed', 'buf', 'merged')):
            c['raw ' + k] = raw[k]
    return c


def execute(sc):
    res = Result()
    w = core.World()
    try:
        scene.setup(w, sc)
        alone = {}

        def target(t):
            if t not in alone:
                langs, acts = ([t], ['zonedb']) if t in LANGS else (
                    ['python'], [t])
                shutil.rmtree(w.path('out'))
                w.put('out/.keep', '')
                o = core.compile_run(w, argv(sc, langs, acts, 'out'))
                res.run(o)
                alone[t] = (o, {k: mask(v) for k, v in
                                scene.files(w.snap('out')).items()
                                if k != '.keep'})
            return alone[t]

        for c in sc['combos']:
            want = [x for x in c['actions'] if x != 'zonedb']
            if 'zonedb' in c['actions']:
                want += c['langs']
            want = sorted(set(want))
            for t in want:
                target(t)
            shutil.rmtree(w.path('out'))
            w.put('out/.keep', '')
            args = argv(sc, c['langs'], c['actions'], 'out')
            vers = {}
            if c.get('before'):
                specs = []
                for n, b in enumerate(c['before']):
                    w.put('b%d/.keep' % n, '')
                    specs.append((argv(sc, b['langs'], b['actions'],
                                       'b%d' % n), b.get('fault')))
                g = sched.sequence(w, specs + [(args, None)])
                if 'jobs' not in g:
                    res.violation('hang', 'a process with %d compilations %s'
                                  % (len(specs) + 1, scene.tell(g)))
                    return res
                o = g['jobs'][-1]
                res.evals += len(specs) + 1
                res.ops += g['nops']
                for j in g['jobs'][:-1]:
                    if j['fired']:
                        k = '%s_in_earlier_run' % j['fired']
                        res.fired[k] = res.fired.get(k, 0) + 1
                    res.mix(j['exit'], j['ops'])
                hist = [(b['langs'], j['exit'], j['exc']) for b, j in
                        zip(c['before'], g['jobs'])]
            else:
                o = core.compile_run(w, args, versions=True)
                res.run(o)
                vers = o.get('versions') or {}
                hist = []
            got = {k: v for k, v in scene.files(w.snap('out')).items()
                   if k != '.keep'}
            res.saw(sc['flags']['scope'], c['langs'], c['actions'], hist,
                    o.get('exit'))
            res.mix(sorted((k, v) for k, v in got.items()))
            res.count('combinations')
            bad = [t for t in want if alone[t][0].get('exit') != 0]
            name = '--languages %s --actions %s%s' % (
                ','.join(c['langs']), ','.join(c['actions']),
                ' after %d earlier runs' % len(hist) if hist else '')
            if bool(bad) != (o.get('exit') != 0):
                res.violation('status', '%s ends with %s, but alone %s' % (
                    name, scene.tell(o), '; '.join('%s: %s' % (
                        t, scene.tell(alone[t][0])) for t in want)))
                return res
            if bad:
                res.count('rejected')
                continue
            names = set()
            for t in want:
                names |= set(alone[t][1])
            if set(got) != names:
                res.violation('names', '%s writes other files than its '
                              'targets alone: %s' % (
                                  name, sorted(set(got) ^ names)))
                return res
            for k in sorted(names):
                olds = [(t, alone[t][1][k]) for t in want if k in alone[t][1]]
                new = got[k]
                if olds[0][0] == 'json':
                    a, b = facts(olds[0][1]), facts(new)
                    if a != b:
                        d = [x for x in a if a[x] != b.get(x)]
                        res.violation('json', '%s: JSON differs from the one '
                                      'written alone in %s: %s' % (
                                          name, d, decode._first_diff(a, b)))
                        return res
                    continue
                seen = [('', new)]
                if len(olds) > 1 and len(vers.get('out/' + k, ())) == \
                        len(olds):
                    seen = [('', v) for v in vers['out/' + k]]
                    have = {mask(v) for _, v in seen}
                    for t, v in olds:
                        if v not in have:
                            res.violation('bytes', '%s: %s as written for %s '
                                          'is not the one written alone: %s'
                                          % (name, k, t, scene.diff(v, min(
                                              have, key=lambda x: abs(
                                                  len(x) - len(v))))))
                            return res
                for _, v in seen:
                    if mask(v) not in [x for _, x in olds]:
                        res.violation('bytes', '%s: %s is not the one written '
                                      'alone: %s' % (name, k, scene.diff(
                                          olds[0][1], mask(v))))
                        return res
            res.count('compared')
    finally:
        w.close()
    return res


def simplify(sc):
    cs = sc['combos']
    for n, c in enumerate(cs):
        if len(cs) > 1:
            yield dict(sc, combos=[c])

        def put(x):
            return dict(sc, combos=cs[:n] + [x] + cs[n + 1:])
        if c.get('before'):
            yield put({k: v for k, v in c.items() if k != 'before'})
            if len(c['before']) > 1:
                for b in c['before']:
                    yield put(dict(c, before=[b]))
        for key in ('langs', 'actions'):
            for m in range(len(c[key])):
                if len(c[key]) > 1:
                    yield put(dict(c, **{
                        key: c[key][:m] + c[key][m + 1:]}))
