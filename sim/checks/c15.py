"""C15: a device reads the same local time as the TZ source says."""
import math

from sim import core, decode, fleet, model, scene, tzgen, ztime
from sim.engine import Result
from sim.rng import rng

ID = 'C15'
COUNTS = {'quick': 3000, 'thorough': 60000}
META = {
    'rule': 'Each scenario draws a source tree (generated, or sampled from '
            'the real release, with some fields replaced by unusual but '
            'valid ones), a window of years, a scope, granularities and '
            'strictness, and compiles it while transfers are split and '
            'earlier attempts may be killed. Simulated devices then load the '
            'written databases through independent readers; the simulator '
            'owns their clocks and takes them through drawn legs: jump '
            'forward or back, run on from one change of any zone to the '
            'next (stopping a second before, at and after each), reboot, '
            'and random stops. At each stop the offset, the daylight shift '
            'and the abbreviation of every zone are compared with those a '
            'reference interpreter gets from the source lines at the '
            'requested resolution. Distinct counts the different (scope, '
            'window, zones, removals, truncations, changes passed) seen.',
    'states': 'distinct (scope, window, zones emitted and removed, '
              'truncation, number of changes passed)',
    'assumptions': ['the device evaluates eras and rules as zic does; the '
                    'device libraries themselves are not part of the '
                    'repository',
                    'the reference interpreter reproduces the system\'s '
                    'compiled zoneinfo on the real release '
                    '(tools/selftest.py)',
                    'clocks run between the years 1800 and 2250'],
}


FIRST = {   # the recorded finding about one-byte years
    'blocks': [
        {'f': 'africa', 'k': 'policy', 'n': 'Chi', 'l': [
            'Rule\tChi\t1970\t1972\t-\tOct\tSun>=9\t4:00u\t1:00\t-',
            'Rule\tChi\t1972\t1986\t-\tMar\tSun>=9\t3:00u\t0\t-',
            'Rule\tChi\t1973\tonly\t-\tSep\t30\t4:00u\t1:00\t-',
            'Rule\tChi\t1974\t1987\t-\tOct\tSun>=9\t4:00u\t1:00\t-']},
        {'f': 'southamerica', 'k': 'zone', 'n': 'America/San', 'l': [
            'Zone\tAmerica/San\t-4:00\tChi\t-04/-03']}],
    'flags': {'scope': 'extended', 'langs': ['c'], 'actions':
              ['zonedb', 'json'], 'start': 1974, 'until': 2050,
              'ver': '2023a', 'ns': 'zonedb', 'ignore_large': True},
    'plan': None, 'killed': [], 'walk': 1,
    'legs': [{'dev': 0, 'to': 0.0, 'run': 2, 'random': 0, 'reboot': False}]}


def gen(r, i, tier):
    if i == 0:
        return FIRST
    x = r.random()
    scope = 'basic' if x < 0.4 else 'extended' if x < 0.65 else 'complete'
    langs = [r.choice(['python', 'python', 'arduino', 'c', 'go'])]
    if r.random() < 0.3:
        langs = ['go', r.choice(['arduino', 'c']), 'python'][:r.choice([2, 3])]
    sc = scene.gen_base(r, scope=scope, langs=langs, big=0.04, include=0.1,
                        corpus=0.4, actions=['zonedb', 'json'])
    f = sc['flags']
    f.pop('json', None)
    f.pop('skip', None)
    f['ignore_large'] = True
    lo = {'basic': 1980, 'extended': 1974, 'complete': 1850}[scope]
    y = r.random()
    if y < 0.5:
        f['start'] = r.randint(lo, 2040)
        f['until'] = min(2200, f['start'] + r.choice([1, 2, 5, 10, 30, 100]))
    elif y < 0.6 and scope == 'complete':
        f['start'], f['until'] = 1, r.choice([1990, 2050, 2200])
    if r.random() < 0.1:
        f['granularity'] = r.choice([60, 300, 900, 1800])
    if r.random() < 0.06:
        f[r.choice(['until_at_granularity', 'offset_granularity',
                    'delta_granularity'])] = r.choice([1, 10, 30, 60, 120])
    if r.random() < 0.35:
        f['strict'] = False
    fleet.twist(r, sc['blocks'], r.choice([0, 0, 1, 2, 4]), scope)
    sc['plan'] = {'short': [r.randrange(10 ** 6), r.choice([0, .2, .6]),
                            r.choice([0, .2, .6])]} \
        if r.random() < 0.4 else None
    sc['killed'] = [r.randrange(1, 120) for _ in range(
        r.choice([0, 0, 0, 1, 2]))]
    sc['legs'] = fleet.legs(r, f['start'], f['until'], len(f['langs']))
    sc['walk'] = r.randrange(10 ** 9)
    return sc


def grains(f):
    scope = f['scope']
    g = [1, 1, 60] if scope == 'complete' else [60, 60, 900]
    if f.get('granularity'):
        g = [f['granularity']] * 3
    for k, n in (('until_at_granularity', 0), ('offset_granularity', 1),
                 ('delta_granularity', 2)):
        if f.get(k) and not f.get('granularity'):
            g[n] = f[k]
    return g


def held(f):
    """Granularity that both the flags and the scope's encoding can hold."""
    g = [1, 1, 60] if f['scope'] == 'complete' else [60, 60, 900]
    return [math.lcm(a, b) for a, b in zip(g, grains(f))]


def execute(sc):
    res = Result()
    w = core.World()
    f = sc['flags']
    try:
        scene.setup(w, sc)
        for at in sc['killed']:
            o = scene.run(w, sc, core.Plan(faults=[{'at': at,
                                                    'do': 'crash'}]))
            res.run(o)
        o = scene.run(w, sc, core.Plan(**(sc['plan'] or {})))
        res.run(o)
        m = model.Model({k: v.encode('utf-8') for k, v in
                         tzgen.render(sc['blocks']).items()})
        names = [n for n in m.zones if n in sc.get('include', m.zones)]
        good = set() if m.bad or m.grey else {
            n for n in names if fleet.plain(m, n, f['scope'], held(f),
                                            f['until'])}
        if o.get('exit') != 0:
            if names and len(good) == len(names):
                res.violation('refused', 'every zone can be held by the '
                              'scope %s, but: %s' % (f['scope'],
                                                     scene.tell(o)))
            res.count('runs_refused')
            res.saw(f['scope'], o.get('exc'), o.get('where'))
            return res
        res.count('databases')
        out = scene.files(w.snap('out'))
        dbs = []
        try:
            base = decode.decode_json(out['zonedb.json'])
            for lang in f['langs']:
                dbs.append(decode.decode(lang, out, f['scope'], f['ns']))
        except decode.Bad as e:
            res.violation('unsound', 'a database cannot be read: %s' % e)
            return res
        gone = sorted(good - set(base['zones']))
        if gone:
            res.violation('removed', 'zone %s can be held by the scope %s '
                          'but was removed: %s' % (
                              gone[0], f['scope'],
                              base['removed']['zones'].get(gone[0])))
            return res
        res.count('plain_zones', len(good))
        judge(sc, res, m, base, dbs)
    finally:
        w.close()
    return res


def judge(sc, res, m, base, dbs):
    f = sc['flags']
    ctx = base['ctx']
    if ctx['start_acc'] > f['start'] or ctx['until_acc'] < f['until']:
        res.violation('narrowed', 'years [%s, %s) were asked for but only '
                      '[%s, %s) are stated as accurate' % (
                          f['start'], f['until'], ctx['start_acc'],
                          ctx['until_acc']))
        return
    a, b = ztime.span(ctx['start_acc'], ctx['until_acc'])
    if b <= a:
        return
    truth = fleet.Truth(m, grains(f), bool(f.get('strict', True)), a, b)
    names = sorted(base['zones'])
    for n in names:
        why = truth.unreadable(n)
        if why:
            res.violation('unreadable', 'zone %s is emitted though its '
                          'source has no meaning: %s' % (n, why))
            return
    raw = base['raw']
    for n in names:
        if f.get('strict', True) is True:
            continue
        notes = []
        for group, keys in (('notable_zones', [n]),
                            ('merged_notable_zones', [n]),
                            ('notable_policies', truth.policies_of(n))):
            for k in keys:
                notes += raw[group].get(k, [])
        for value in truth.cut(n):
            res.count('rounded_values')
            if not any("'%s'" % value in x and 'truncated' in x
                       for x in notes):
                res.violation('unnoted', 'zone %s is emitted with %r cut to '
                              'the granularity, but the notes on it and its '
                              'rule sets do not say so: %s' % (
                                  n, value, notes))
                return
    res.count('zones', len(names))
    flt = fleet.Fleet(names, truth, dbs, f['langs'], a, b,
                      rng('walk', sc['walk']))
    bad = flt.walk(sc['legs'])
    res.count('stops', flt.stops)
    res.count('readings', flt.readings)
    res.count('changes_passed', flt.passed)
    res.count('simulated_years', flt.elapsed // (86400 * 365))
    for k, v in flt.did.items():
        res.fired[k] = res.fired.get(k, 0) + v
    res.saw(f['scope'], f['start'], f['until'], len(names),
            len(base['removed_zones']), ctx['start_acc'] > 0,
            ctx['until_acc'] < 32767, flt.passed)
    res.mix(len(names), flt.stops, flt.passed, flt.elapsed)
    if bad:
        res.violation('wrong-time', bad)
    elif flt.cut:
        res.violation('one-byte-years', 'zone %s at %s UTC: the source says '
                      '%s, a device shows %s: rules of years that do not fit '
                      'one byte lost their order' % flt.cut)


def simplify(sc):
    for k in range(len(sc['legs'])):
        if len(sc['legs']) > 1:
            yield dict(sc, legs=sc['legs'][:k] + sc['legs'][k + 1:])
    for k, leg in enumerate(sc['legs']):
        if leg.get('run', 0) > 1:
            yield dict(sc, legs=sc['legs'][:k] + [dict(
                leg, run=leg['run'] // 2)] + sc['legs'][k + 1:])
    if sc.get('killed'):
        yield dict(sc, killed=[])
    if sc.get('plan'):
        yield dict(sc, plan=None)
    if sc.get('include'):
        yield {k: v for k, v in sc.items() if k != 'include'}
