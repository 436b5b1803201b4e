"""C19: what a database says about itself is true."""
from sim import attest, core, decode, model, releases, scene, tzgen
from sim.engine import Result

ID = 'C19'
COUNTS = {'quick': 3000, 'thorough': 40000}
META = {
    'rule': 'Each scenario is the life of one output directory: a history of '
            'requests that differ in source release, TZ version, scope, '
            'languages, years, granularities, name space and include list, '
            'all written to the same place, with attempts that are killed or '
            'meet a failing operation in between and with split transfers. '
            'After each run that ends with status 0 everything its files '
            'state about themselves is recomputed from the request, from the '
            'source lines and from the records: command line, version, '
            'years, what was left out at either end, removals and notes, '
            'numbers of records, string tables, sizes in memory, the '
            'source line quoted with each record, and the terms, letters, '
            'names and identifiers beside the values. Distinct counts the '
            'different (scope, languages, flags, truncation, notes) seen.',
    'states': 'distinct (scope, languages, strict, compressed, truncated '
              'below and above, removals, kinds of notes)',
    'assumptions': ['the record sizes of the C and C++ libraries are the '
                    'ones documented in artransformer.py'],
}
LANGS = ['arduino', 'c', 'go', 'python']


def gen(r, i, tier):
    first = scene.gen_base(r, langs=['python'], big=0.05, include=0.25)
    sc = {'blocks': first['blocks'], 'runs': []}
    for k in range(r.choice([1, 2, 2, 3])):
        f = tzgen.gen_flags(r, scope=first['flags']['scope']
                            if r.random() < 0.6 else None)
        f['langs'] = r.sample(LANGS, r.choice([1, 1, 2, 2, 3]))
        if 'arduino' in f['langs'] and 'c' in f['langs']:
            f['langs'].remove(r.choice(['arduino', 'c']))
        f['actions'] = r.sample(['zonedb', 'json', 'zonelist'], 3) \
            if r.random() < 0.6 else ['zonedb', 'json']
        if {'arduino', 'c'} & set(f['langs']):
            f.pop('skip', None)
        f['ver'] = '%d%s' % (r.choice([2024, 2023, 2025, 2000, 2030, 1999]),
                             r.choice('abcdez'))
        if r.random() < 0.15:
            f['start'], f['until'] = {
                'basic': (1980, 2100), 'extended': (1974, 2100),
                'complete': (1800, 10000)}[f['scope']]
        if r.random() < 0.08:
            f['granularity'] = r.choice([60, 900])
        run = {'flags': f}
        if r.random() < 0.5:
            run['edits'] = releases.draw(r, r.choice([1, 2, 4]))
        if r.random() < 0.2:
            run['include'] = r.random()
        if r.random() < 0.4:
            run['fault'] = [{'at': r.randrange(1, 150), 'do': r.choice(
                ['crash', 'crash', 'ENOSPC', 'EIO'])}]
        if r.random() < 0.3:
            run['short'] = [r.randrange(10 ** 6), .3, .3]
        sc['runs'].append(run)
    return sc


def execute(sc):
    res = Result()
    w = core.World()
    bl = sc['blocks']
    try:
        w.put('out/.keep', '')
        for k, run in enumerate(sc['runs']):
            f = run['flags']
            if run.get('edits'):
                bl = releases.apply(bl, run['edits'], f['scope'])
            now = {'blocks': bl, 'flags': f}
            if run.get('include') is not None:
                names = [b['n'] for b in bl if b['k'] in ('zone', 'link')]
                step = 1 + int(run['include'] * 3)
                now['include'] = names[::step]
            scene.setup(w, now)
            plan = core.Plan(short=run.get('short') or [0, 0, 0])
            if run.get('fault'):
                o = scene.run(w, now, core.Plan(
                    faults=run['fault'], short=run.get('short')
                    or [0, 0, 0]))
                res.run(o)
            o = scene.run(w, now, plan)
            res.run(o)
            if o.get('exit') != 0:
                res.count('refused')
                res.saw(f['scope'], f['langs'], o.get('exc'), o.get('where'))
                continue
            bad = judge(res, now, scene.files(w.snap('out')))
            if bad:
                res.violation('untrue', '%s; in run %d: %s' % (
                    bad, k, ' '.join(scene.args(now))))
                return res
    finally:
        w.close()
    return res


def judge(res, now, files):
    f = now['flags']
    m = model.Model({n: t.encode('utf-8') for n, t in
                     tzgen.render(now['blocks']).items()})
    want = scene.expected(now)
    try:
        for n in want:
            decode.need(n in files, n, 'is missing')
        try:
            d = decode.decode_json(files[f.get('json') or 'zonedb.json'])
            d = d['raw']
        except decode.Bad:
            res.count('undecodable')            # judged by C13
            return None
        attest.request(d, f)
        sure, left = attest.years(d, m, f)
        if not sure:
            res.count('extent_not_certain')
        attest.notes(d, m, f, left)
        attest.tables(d, f)
        attest.quoted(d, m)
        res.count('statements_of_files', attest.headers(
            files, want, d, scene.args(now), f))
    except decode.Bad as e:
        return str(e)
    except (KeyError, TypeError, ValueError, AttributeError) as e:
        return 'a statement is missing or cannot be read: %r' % (e,)
    res.count('databases')
    kinds = sorted({'removed' * bool(d['removed_zones']),
                    'policies' * bool(d['removed_policies']),
                    'notes' * bool(d['notable_zones']),
                    'rulenotes' * bool(d['notable_policies'])})
    res.saw(f['scope'], sorted(f['langs']), d['strict'], d['compress'],
            d['lower_truncated'], d['upper_truncated'], kinds)
    for k in ('lower_truncated', 'upper_truncated'):
        res.count(('' if d[k] else 'not_') + k)
    return None


def simplify(sc):
    rs = sc['runs']
    for k in range(len(rs)):
        if len(rs) > 1:
            yield dict(sc, runs=rs[:k] + rs[k + 1:])
    for k, run in enumerate(rs):
        for key in ('fault', 'short', 'include', 'edits'):
            if run.get(key) is not None:
                x = {a: b for a, b in run.items() if a != key}
                yield dict(sc, runs=rs[:k] + [x] + rs[k + 1:])
