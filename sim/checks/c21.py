"""C21: a source that does not fit the records of a language is refused."""
from sim import attest, core, decode, scene, tzgen
from sim.engine import Result

ID = 'C21'
COUNTS = {'quick': 400, 'thorough': 9000}
META = {
    'rule': 'Each scenario builds a source around one limit of the generated '
            'records (rules of a rule set, eras of a zone, letters, bytes of '
            'letters, formats and names, rule sets, fragments of names, and '
            'in the thorough tier rules in total), a few below it, at it or '
            'above it, next to ordinary zones, and compiles it over an '
            'earlier release for drawn languages, after attempts that are '
            'killed and with short transfers. What the tree holds is taken '
            'from a run for Python and JSON, whose records have no limits: '
            'where it fits, every file set must decode to the same database; '
            'where it does not, the status must not be 0 and no file of the '
            'earlier release may have changed. Distinct counts the different '
            '(limit, distance, scope, languages, outcome) seen.',
    'states': 'distinct (limit, distance from it, scope, languages, '
              'outcome)',
    'assumptions': ['the widths of the records of the C, C++ and Go libraries '
                    'are those stated by the transformers and generators'],
}
KINDS = ['rules', 'eras', 'letters', 'letterbytes', 'policies', 'formats',
         'names', 'fragments']
YEARS = {'basic': (1980, 2200), 'extended': (1974, 2200),
         'complete': (1800, 10000)}


def gen(r, i, tier):
    kinds = KINDS + (['total'] if tier == 'thorough' and
                     r.random() < 0.02 else [])
    kind = kinds[-1] if len(kinds) > len(KINDS) else kinds[i % len(kinds)]
    scope = r.choice(['complete', 'extended', 'basic'])
    if kind in ('eras', 'rules', 'letters', 'total') and scope == 'basic':
        scope = r.choice(['complete', 'extended'])
    x = r.random()
    off = r.choice([-2, -1, 0, 0, 1, 1, 2]) if x < 0.75 else \
        r.choice([-40, -7, 5, 30, 260])
    langs = r.choice([['go'], ['c'], ['arduino'], ['c', 'go'],
                      ['arduino', 'go'], ['python', 'go'], ['python', 'c'],
                      ['arduino', 'python'], ['go', 'c', 'python']])
    langs = list(langs)
    r.shuffle(langs)
    w = YEARS[scope]
    sc = {'kind': kind, 'off': off, 'salt': r.randrange(10 ** 6),
          'flags': {'scope': scope, 'langs': langs, 'ns': 'zonedb',
                    'actions': r.sample(['zonedb', 'json'], 2),
                    'start': w[0], 'until': w[1],
                    'ver': r.choice(['2024b', '2025a'])}}
    if kind != 'fragments' and r.random() < 0.25:
        sc['flags']['compress'] = False
    if r.random() < 0.3:
        sc['flags']['strict'] = False
    if r.random() < 0.3:
        sc['short'] = [r.randrange(10 ** 6), .3, .3]
    if r.random() < 0.25:
        sc['fault'] = [{'at': r.randrange(1, 200), 'do': r.choice(
            ['crash', 'ENOSPC', 'EIO'])}]
    return sc


MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
       'Nov', 'Dec']


def letters(n):
    """n different short letters."""
    a = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
    out = list(a)
    for x in a:
        out += [x + y for y in a]
    return out[:n]


def rule(p, y, k, save, letter='-'):
    return 'Rule\t%s\t%d\tonly\t-\t%s\t%d\t2:00\t%s\t%s' % (
        p, y, MON[1 + k % 11], 2 + k % 26, save, letter)


def run_of(p, n, year0, let=None):
    """n transitions of one rule set, eleven a year."""
    return [rule(p, year0 + k // 11, k, '1:00' if k % 2 else '0',
                 let(k) if let else 'D' if k % 2 else 'S') for k in range(n)]


def tree(sc):
    """The blocks of a scenario."""
    kind, off, scope = sc['kind'], sc['off'], sc['flags']['scope']
    y0 = 1985 if scope != 'complete' else 1905
    pol, zones = [], []

    def P(n, ls):
        pol.append({'k': 'policy', 'n': n, 'f': 'europe', 'l': ls})

    def Z(n, ls):
        zones.append({'k': 'zone', 'n': n, 'f': 'europe', 'l': ls})
    if kind == 'rules':
        # what the database holds is counted afterwards: the anchor is added
        for n, d in (('Lim', off), ('Low', -9)):
            ls = run_of(n, 254 + d, y0)
            P(n, ls)
            Z('Europe/' + n, ['Zone\tEurope/%s\t1:00\t%s\tC%%sT' % (n, n)])
    elif kind == 'eras':
        n = 255 + off
        ls = []
        for k in range(n):
            until = '' if k == n - 1 else '\t%d\t%s\t%d\t2:00' % (
                y0 + k // 11, MON[1 + k % 11], 2 + k % 26)
            head = 'Zone\tEurope/Lim' if not k else '\t\t'
            ls.append('%s\t%d:00\t-\tX%d%s' % (head, 1 + k % 2, k % 7, until))
        Z('Europe/Lim', ls)
    elif kind in ('letters', 'letterbytes'):
        if kind == 'letters':
            # Go: the bytes; C: the number
            n = 254 + off
            pool = letters(n)
        else:
            pool, n = [], 255 + off
            while n > 0:
                k = min(n, 6)
                pool.append('Q%05d' % len(pool) if k == 6 else 'R' * k)
                n -= k
        # spread over rule sets of 120
        for j in range(0, len(pool), 120):
            part = pool[j:j + 120]
            P('L%d' % j, run_of('L%d' % j, len(part), y0,
                                lambda k: part[k]))
            Z('Europe/L%d' % j,
              ['Zone\tEurope/L%d\t1:00\tL%d\tC%%sT' % (j, j)])
    elif kind == 'policies':
        for k in range(254 + off):
            P('P%03d' % k, [
                rule('P%03d' % k, y0, 3, '0', 'S'),
                rule('P%03d' % k, y0 + 1 + k % 9, 6, '1:00', 'D'),
                rule('P%03d' % k, y0 + 1 + k % 9, 9, '0', 'S')])
            Z('Asia/P%03d' % k,
              ['Zone\tAsia/P%03d\t1:00\tP%03d\tC%%sT' % (k, k)])
    elif kind == 'formats':
        total, k = 65535 + off, 0
        while total > 0:
            n = min(total, 230)
            if total - n < 9 and total != n:
                n -= 9
            fmt = ('F%04d' % k + 'x' * n)[:n] if n >= 5 else 'y' * n
            Z('Asia/F%04d' % k, ['Zone\tAsia/F%04d\t1:00\t-\t%s' % (k, fmt)])
            total -= n
            k += 1
    elif kind == 'names':
        total, k = 65535 + off, 0
        while total > 0:
            n = min(total, 230)
            if total - n < 12 and total != n:
                n -= 12
            name = ('Asia/N%04d' % k + 'x' * n)[:n]
            if k % 3 == 1:
                zones.append({'k': 'link', 'n': name, 'f': 'backward',
                              'l': ['Link\t%s\t%s' % (last, name)]})
            else:
                Z(name, ['Zone\t%s\t%d:00\t-\tA%d' % (name, k % 9, k % 9)])
                last = name
            total -= n
            k += 1
    elif kind == 'fragments':
        for k in range(max(1, 30 + off % 50)):
            for j in range(4 + k % 2):
                n = 'Frag%02d/City%d' % (k, j)
                Z(n, ['Zone\t%s\t%d:00\t-\tA%d' % (n, j, j)])
            n = 'Rare%02d/City' % k
            if k % 3 == 0:
                Z(n, ['Zone\t%s\t2:00\t-\tB' % n])
    else:
        total, k = 65535 + off, 0
        while total > 0:
            n = min(total - 1, 599)
            P('T%03d' % k, run_of('T%03d' % k, n, y0))
            Z('Asia/T%03d' % k,
              ['Zone\tAsia/T%03d\t1:00\tT%03d\tC%%sT' % (k, k)])
            total -= n + 1
            k += 1
    return pol + zones


SMALL = [{'k': 'zone', 'n': 'Europe/Old', 'f': 'europe',
          'l': ['Zone\tEurope/Old\t2:00\t-\tEET']}]


def needs(base, f):
    """For each language: does the database fit (None: either will do)."""
    raw = base['raw']
    zones, pols = base['zones'], base['policies']
    names = list(zones) + list(base['links'])
    let = {''} | {r[8] for p in pols.values() for r in p}
    fmt = {''} | {e['format'].replace('%s', '%')
                  for z in raw['zones_map'].values() for e in z['eras']}
    frag = {}
    for n in names:
        for part in n.split('/')[:-1]:
            if len(part) > 2:
                frag[part] = frag.get(part, 0) + 1
    nf = sum(1 for v in frag.values() if v > 3)
    go = all((sum(map(len, let)) <= 255, sum(map(len, fmt)) <= 65535,
              sum(map(len, names)) <= 65535, len(pols) + 1 <= 256,
              sum(map(len, pols.values())) <= 65535))
    if go and len(pols) + 1 == 256:
        go = None
    c = all((all(len(p) <= 255 for p in pols.values()),
             all(len(z['eras']) <= 255 for z in zones.values()),
             len(let) <= 256,
             nf <= 31 or f.get('compress') is False))
    if c and (len(let) == 256 or
              nf == 31 and f.get('compress') is not False):
        c = None
    size = {'rules': max(map(len, pols.values()), default=0),
            'eras': max(len(z['eras']) for z in zones.values()),
            'letters': len(let), 'letterbytes': sum(map(len, let)),
            'policies': len(pols), 'formats': sum(map(len, fmt)),
            'names': sum(map(len, names)), 'fragments': nf,
            'total': sum(map(len, pols.values()))}
    return {'go': go, 'c': c, 'arduino': c, 'python': True}, size


def execute(sc):
    res = Result()
    w = core.World()
    f = sc['flags']
    try:
        # the earlier release, then the new one for Python alone
        scene.setup(w, {'blocks': SMALL, 'flags': f})
        old = scene.run(w, {'blocks': SMALL, 'flags': f})
        if old.get('exit') != 0:
            res.violation('refused', 'a tree of one zone: '
                          + scene.tell(old))
            return res
        now = {'blocks': sc.get('blocks') or tree(sc), 'flags': f}
        tzgen.put_tree(w, now['blocks'])
        twin = dict(now, flags=dict(f, langs=['python'],
                                    actions=['zonedb', 'json']))
        w.put('twin/.keep', '')
        o = scene.run(w, twin, out='twin', cpu=120)
        res.run(o)
        if o.get('exit') != 0:
            res.violation('refused', 'Python and JSON have no limits, but '
                          'the tree around %s%+d is refused: %s' % (
                              sc['kind'], sc['off'], scene.tell(o)))
            return res
        base = decode.decode_json(w.snap('twin')['zonedb.json'])
        fits, size = needs(base, f)
        if sc.get('fault'):
            before = scene.files(w.snap('out'))
            o = scene.run(w, now, core.Plan(
                faults=sc['fault'], short=sc.get('short') or [0, 0, 0]),
                cpu=120)
            res.run(o)
        before = scene.files(w.snap('out'))
        o = scene.run(w, now, core.Plan(short=sc.get('short') or [0, 0, 0]),
                      cpu=120)
        res.run(o)
        after = scene.files(w.snap('out'))
        want = [fits[x] for x in f['langs']]
        ok = o.get('exit') == 0
        n = size[sc['kind']]
        where = '%s: %d; %s' % (sc['kind'], n, ' '.join(scene.args(now)))
        res.saw(sc['kind'], n, f['scope'], sorted(f['langs']), ok)
        res.count('%s_%s' % (sc['kind'], 'accepted' if ok else 'refused'))
        if o.get('died') or o.get('crashed'):
            res.violation('hang', '%s; %s' % (scene.tell(o), where))
        elif ok and False in want:
            res.violation('overflow', 'status 0, though the database does '
                          'not fit the records of %s; %s' % (
                              f['langs'][want.index(False)], where))
        elif ok:
            try:
                judge(base, after, now)
            except decode.Bad as e:
                res.violation('unsound', '%s; %s' % (e, where))
        elif all(x is True for x in want):
            res.violation('refused', 'the database fits, but the run ends '
                          'with %s; %s' % (scene.tell(o), where))
        elif after != before:
            bad = sorted(k for k in set(before) | set(after)
                         if before.get(k) != after.get(k))
            res.violation('partial', 'the run ends with %s, but %s of the '
                          'earlier release changed; %s' % (
                              scene.tell(o), ', '.join(bad[:4]), where))
        res.mix(n, ok)
    except decode.Bad as e:
        res.violation('unsound', 'JSON: %s' % e)
    finally:
        w.close()
    return res


def judge(base, out, sc):
    f = sc['flags']
    for n in scene.expected(sc):
        decode.need(n in out, n, 'is missing')
    j = decode.decode_json(out['zonedb.json'])
    attest.tables(j['raw'], f)
    decode.agree(base, j, 'the run for Python', 'json')
    for lang in f['langs']:
        c = decode.decode(lang, out, f['scope'], f['ns'])
        decode.sound(c, lang)
        decode.agree(base, c, 'json', lang)


def simplify(sc):
    for key in ('fault', 'short'):
        if sc.get(key) is not None:
            yield {a: b for a, b in sc.items() if a != key}
    f = sc['flags']
    if len(f['langs']) > 1:
        for x in f['langs']:
            yield dict(sc, flags=dict(f, langs=[x]))
