"""C20: notes and removal reasons are true and complete."""
from sim import core, damage, decode, model, scene, tzgen, verdict
from sim.checks import c08
from sim.engine import Result

ID = 'C20'
BLUNDERS = ('TypeError', 'KeyError', 'IndexError', 'AttributeError',
            'NameError', 'UnboundLocalError', 'RecursionError')
COUNTS = {'quick': 3500, 'thorough': 80000}
META = {
    'rule': 'Each scenario draws a source tree, puts odd, borderline and '
            'impossible values into many fields, or damages the stored files, '
            'and compiles with drawn scope, years, granularities, strictness '
            'and include list, with split transfers and after killed '
            'attempts. Every note and reason in the database is then judged '
            'against the source lines, and every record emitted is searched '
            'for peculiarities that had to be noted and faults that had to '
            'keep it out. Distinct counts the different (scope, strict, '
            'granularities, kinds of notes and reasons) seen.',
    'states': 'distinct (scope, strict, granularities, kinds of notes and '
              'reasons)',
    'assumptions': [],
}
ONS = ['lastSun', 'lastMon', 'Sun>=1', 'Sat>=8', 'Fri>=23', 'Thu>=25',
       'Sun>=26', 'Sun>=25', 'Mon>=27', 'Sun<=7', 'Sun<=8', 'Sat<=6',
       'Fri<=1', 'Sun<=2', 'Sat<=14', '1', '2', '15', '28', '0', 'Sun>=0',
       'Sund', 'lastSunday', '32']
ATS = ['0', '2:00', '24:00', '25:00', '25:59', '26:00', '2:00s', '1:00u',
       '2:00w', '1:00g', '1:00z', '23:59', '0:01', '2:15', '2:15:30',
       '0:00:30', '1:23:45s', '2:59:59u', '-', '-1:00', '2:60', '-0:30',
       '1:07', '2:30', '1:45', '0:10', '0:00:01', '--1:00', '1_0', '+2']
SAVES = ['0', '1:00', '0:30', '2:00', '0:20', '0:40', '-1:00', '1:30',
         '2:45', '2:59', '3:00', '2:59:59', '-1:01', '-1:15', '-0:30', '1',
         '3', '0:00', '1:00:01', '0:15', '0:01', '-0:59:59', '-', '1:01',
         '2:50', '-1:00:30', '--1', '+1:00', '0:-30']
OFFS = ['0', '1:00', '-8:00', '5:45', '-3:30', '9:15', '0:14', '-0:44',
        '5:53:28', '-0:01:15', '7:07:12', '-0:00:01', '0:15', '0:30',
        '25:59', '26:00', '-25:45', '-12:00', '1:60', '-2:45', '0:01', '--5',
        '+3', '1_0', '3:-15']
FIXED = ['1:00', '0:30', '2:00', '-1:00', '0:20', '0:00', '1:30', '2:15',
         '1:00:30', '0:15', '-0:30', '1:99', '0:00:00', '1:07', '26:00']
FORMATS = ['ABC', 'A%sT', 'AST/ADT', '%z', '+03/+04', '%s', '-03', '+05']
LETTERS = ['-', 'S', 'D', 'DT', 'ST', 'X', 'GMT', 'EEST']
DAYS = ['1', '2', '31', '30', 'lastSun', 'lastTue', 'Sun>=1', 'Sun>=25',
        'Fri>=28', 'Mon>=30', 'Sun<=1', 'Fri<=3', 'Tue<=6', 'Sun<=25', '29',
        'Sun<=7']
TIMES = ['0:00', '2:00', '24:00', '2:00s', '1:00u', '2:00w', '23:59', '0:01',
         '2:15', '2:15:30', '0:00:30s', '1:30', '0:45', '1:00g', '-1:00',
         '25:00', '26:00', '0:00:01', '0']
BORDER = {'Jan': ['Sun<=7', 'Sun<=1', 'Mon<=6', 'Fri<=8', 'Sun>=1', '1', '2',
                  'Tue>=2', 'Sun<=2', 'lastSun', 'Sat<=5'],
          'Dec': ['Sun>=25', 'Sun>=26', 'Mon>=27', '31', 'lastSun',
                  'Sat<=31', 'Sun>=24']}
MILD = {'ONS': [x for x in ONS if x not in (
            'Sund', 'lastSunday', '32', '0', 'Sun>=0', 'Sun>=26', 'Sun>=25',
            'Mon>=27', 'Fri<=1', 'Sun<=2', 'Sat<=6', 'Sun<=7')],
        'ATS': [x for x in ATS if x not in (
            '26:00', '-', '-1:00', '2:60', '-0:30', '1:00g', '1:00z', '--1:00',
            '1_0', '+2')],
        'SAVES': [x for x in SAVES if x not in (
            '3:00', '-1:01', '-1:15', '3', '-', '-1:00:30', '--1', '+1:00',
            '0:-30')],
        'OFFS': [x for x in OFFS if x not in (
            '26:00', '1:60', '--5', '+3', '1_0', '3:-15')],
        'FIXED': [x for x in FIXED if x not in (
            '0:00', '0:00:00', '1:99', '26:00')],
        'TIMES': [x for x in TIMES if x not in (
            '1:00g', '-1:00', '26:00')]}


def odd(r, blocks, n, scope, mild):
    """Unusual, borderline or (unless mild) impossible values."""
    def pick(name):
        return r.choice(MILD[name] if mild and name in MILD
                        else globals()[name])
    for _ in range(n):
        b = r.choice(blocks)
        k = r.randrange(len(b['l']))
        t = b['l'][k].split('#')[0].split()
        if b['k'] == 'policy' and len(t) == 10:
            x = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7])
            if x == 0:
                t[6] = pick('ONS')
                if r.random() < 0.7:
                    t[5] = r.choice(['Jan', 'Dec'] if not mild else
                                    ['Feb', 'Nov'])
                    if not mild and r.random() < 0.5:
                        t[6] = r.choice(BORDER[t[5]])
            elif x == 1:
                t[7] = pick('ATS')
            elif x in (2, 3):
                t[8] = pick('SAVES')
            elif x == 4:
                t[9] = pick('LETTERS')
            elif x == 5:
                t[2] = str(r.randint(1960, 2050))
                t[3] = r.choice(['only', 'only', 'max', str(
                    int(t[2]) + r.randint(1, 30))])
            elif x == 6 and not mild:
                t[5] = r.choice(['Jan', 'Dec', 'Mar', 'Oct'])
            else:
                t[8] = pick('SAVES')
                t[7] = pick('ATS')
            b['l'][k] = '\t'.join(t)
        elif b['k'] == 'zone' and len(t) > 2:
            o = 2 if t[0] == 'Zone' else 0
            x = r.randrange(6)
            if x in (0, 1):
                t[o] = pick('OFFS')
            elif x == 2 and (scope != 'basic' or r.random() < 0.2):
                t[o + 1] = pick('FIXED')
                t[o + 2] = t[o + 2].replace('%s', 'S')
            elif x == 3:
                f = r.choice(FORMATS)
                if '%s' not in f or t[o + 1][:1].isalpha():
                    t[o + 2] = f
            elif x == 4 and not mild:
                t[o + 1] = r.choice(['Gone', 'US', 'EU', '-'])
                t[o + 2] = t[o + 2].replace('%s', 'S')
            elif len(t) > o + 3 and (scope != 'basic' or r.random() < 0.1):
                t[o + 4:] = [r.choice(tzgen.MONTHS), r.choice(DAYS),
                             pick('TIMES')][:r.choice([1, 2, 3, 3])]
            b['l'][k] = ('' if o else '\t\t\t') + '\t'.join(t)


def border(r, blocks):
    """A rule that is in force moves to the first or last days of a year."""
    used = set()
    for b in blocks:
        if b['k'] == 'zone':
            t = b['l'][-1].split()
            used.add(t[3 if t[0] == 'Zone' else 1])
    pols = [b for b in blocks if b['k'] == 'policy' and b['n'] in used]
    if not pols:
        return
    b = r.choice(pols)
    ls = [k for k, ln in enumerate(b['l']) if len(ln.split('#')[0].split())
          == 10]
    late = [k for k in ls if b['l'][k].split()[3] == 'max'
            or int('0' + ''.join(c for c in b['l'][k].split()[2]
                                 if c.isdigit())) > 1985]
    if late or ls:
        k = r.choice(late or ls)
        t = b['l'][k].split('#')[0].split()
        t[5] = r.choice(['Jan', 'Dec'])
        t[6] = r.choice(BORDER[t[5]])
        b['l'][k] = '\t'.join(t)


def gen(r, i, tier):
    scope = r.choice(['basic', 'basic', 'basic', 'basic', 'extended',
                      'extended', 'complete', 'complete'])
    sc = scene.gen_base(r, scope=scope, langs=['python'], big=0.03,
                        include=0.12, actions=['zonedb', 'json'])
    f = sc['flags']
    f.pop('json', None)
    if r.random() < 0.55:
        f['strict'] = False
    if r.random() < 0.25:
        f[r.choice(['until_at_granularity', 'offset_granularity',
                    'delta_granularity'])] = r.choice(
            [10, 30, 60, 300, 900, 1800, 3600] if scope == 'complete' else
            [60, 300, 900, 1800, 3600])
    if r.random() < 0.2:
        f['start'], f['until'] = r.choice([(2000, 2001), (1995, 2010),
                                           (2020, 2060), (1985, 2035)])
    mild = r.random() < (0.1 if scope == 'basic' else 0.85)
    odd(r, sc['blocks'], r.choice([1, 2, 4, 8]) if not mild or scope ==
        'basic' else r.choice([2, 4, 6, 10]), scope, mild)
    if scope == 'basic' and r.random() < 0.35:
        border(r, sc['blocks'])
    if r.random() < 0.15 and not mild:
        sc['damage'] = [damage.draw(r, hard=r.choice([0.3, 1.0]))
                        for _ in range(r.choice([1, 1, 2]))]
    if r.random() < 0.15:
        sc['fault'] = [{'at': r.randrange(1, 150), 'do': 'crash'}]
    if r.random() < 0.25:
        sc['short'] = [r.randrange(10 ** 6), .3, .3]
    return sc


def execute(sc):
    res = Result()
    w = core.World()
    f = sc['flags']
    try:
        scene.setup(w, sc)
        files = {n: t.encode('utf-8') for n, t in
                 tzgen.render(sc['blocks']).items()}
        if sc.get('damage'):
            files, done = damage.apply(tzgen.render(sc['blocks']),
                                       sc['damage'])
            for k, v in done.items():
                res.fired[k] = res.fired.get(k, 0) + v
            c08.place(w, files)
        short = sc.get('short') or [0, 0, 0]
        if sc.get('fault'):
            res.run(scene.run(w, sc, core.Plan(faults=sc['fault'],
                                               short=short)))
        o = scene.run(w, sc, core.Plan(short=short))
        res.run(o)
        if o.get('exit') != 0:
            res.count('refused')
            res.saw(f['scope'], o.get('exc'), o.get('where'))
            if o.get('exc') in BLUNDERS and str(o.get('where')).startswith(
                    'transformer.py'):
                res.violation('crash', 'a value is answered with %s: %s in '
                              '%s and not with a reason; %s' % (
                                  o['exc'], o['msg'], o['where'],
                                  ' '.join(scene.args(sc))))
            return res
        out = scene.files(w.snap('out'))
        try:
            d = decode.decode_json(out['zonedb.json'])['raw']
        except (decode.Bad, KeyError):
            res.count('undecodable')            # judged by C13
            return res
        m = model.Model(files)
        if m.fatal:
            return res
        try:
            verdict.judge(d, m, f, set(sc['include'])
                          if sc.get('include') else None, res.count)
        except decode.Bad as e:
            res.violation('untrue', '%s; %s' % (
                ' '.join(str(x) for x in e.args), ' '.join(scene.args(sc))))
            return res
        lost = [n for k in ('removed_zones', 'removed_links') for n in d[k]
                if not sc.get('include') or n in sc['include']]
        if f['scope'] != 'basic' and lost:
            res.violation('lost', 'the %s scope left out %s and exits 0; %s'
                          % (f['scope'], lost[:5],
                             ' '.join(scene.args(sc))))
            return res
        res.count('databases')
        g = verdict.Grain(f)
        kinds = set()
        for k in ('notable_zones', 'notable_policies', 'removed_zones',
                  'removed_policies'):
            for v in d[k].values():
                for t in v:
                    x = verdict.read(t, g) if k[0] == 'n' else \
                        verdict.fault(t, g)
                    kinds.add((x[0], x[2].split(' to ')[0])
                              if x and k[0] == 'n' else
                              (x[0],) if x else (t[:12],))
        for x in kinds:
            res.count('kind: ' + ' '.join(x))
        res.saw(f['scope'], g.strict, g.at, g.off, g.save, sorted(kinds))
    finally:
        w.close()
    return res


def simplify(sc):
    for key in ('damage', 'fault', 'short', 'include'):
        if sc.get(key) is not None:
            yield {a: b for a, b in sc.items() if a != key}
