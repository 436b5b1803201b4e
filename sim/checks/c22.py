"""C22: an include list selects zones and links and does nothing else."""
import random

from sim import core, decode, model, scene, tzgen
from sim.checks import c16
from sim.engine import Result

ID = 'C22'
COUNTS = {'quick': 1200, 'thorough': 26000}
META = {
    'rule': 'Each scenario draws a source tree and flags and a list of some '
            'of its zones and links: with or without the targets of the '
            'links, with repeated, misspelled, unknown and commented-out '
            'names, written with any line ends, margins, comments and order, '
            'or with nothing in it. Three runs are compared: one over the '
            'whole tree, one with the list, and one over a tree that holds '
            'only the blocks of the listed names. The run with the list must '
            'end like the one over the smaller tree and hold the same '
            'tables, notes and reasons, and every listed zone must be the '
            'same as in the whole database; what is not listed must be '
            'removed with that reason, a list that names nothing must select '
            'nothing and an empty one everything. The run with '
            'the list happens after killed attempts, with short reads, and '
            'again with a failing operation, after which it may only report '
            'success with the same files. Distinct counts the different '
            '(scope, languages, kind of list, kept, outcome) seen.',
    'states': 'distinct (scope, languages, kind of list, zones kept, links '
              'kept, outcome)',
    'assumptions': ['a line of the list is one name; blank lines and lines '
                    'that start with # say nothing'],
}
# What may differ from the run over the smaller tree
APART = {'removed_zones', 'removed_links', 'original_min_year',
         'original_max_year'}


def gen(r, i, tier):
    x = r.random()
    scope = 'basic' if x < 0.4 else 'extended' if x < 0.7 else 'complete'
    langs = [r.choice(['python', 'arduino', 'c', 'go'])]
    if r.random() < 0.2:
        langs = ['go', 'python', r.choice(['arduino', 'c'])]
    sc = scene.gen_base(r, scope=scope, langs=langs, big=0.08, include=0,
                        actions=['zonedb', 'json', 'zonelist'])
    f = sc['flags']
    f.pop('json', None)
    if r.random() < 0.4:
        f['strict'] = False
    names = [b['n'] for b in sc['blocks'] if b['k'] in ('zone', 'link')]
    x = r.random()
    if x < 0.06:
        kind, pick = 'empty', []
    elif x < 0.12:
        kind, pick = 'none', []
    else:
        kind = r.choice(['closed', 'closed', 'zones', 'any', 'all'])
        pick = r.sample(names, r.randint(1, len(names)))
        if kind == 'all':
            pick = list(names)
        if kind == 'zones':
            pick = [b['n'] for b in sc['blocks']
                    if b['k'] == 'zone' and (b['n'] in pick)]
        if kind == 'closed':
            for b in sc['blocks']:
                if b['k'] == 'link' and b['n'] in pick:
                    pick.append(b['l'][0].split()[1])
        if not pick:
            pick = [b['n'] for b in sc['blocks'] if b['k'] == 'zone'][:1]
    sc['kind'] = kind
    ls = list(dict.fromkeys(pick))
    odd = []
    if kind != 'empty' and (kind == 'none' or r.random() < 0.5):
        for _ in range(r.randint(1, 3)):
            n = r.choice(names)
            odd.append(r.choice([
                n.lower() if n.lower() != n else n.upper(), n + '_2',
                'No/Such', n[:-1], n.replace('/', '//') + '/', '/' + n,
                n + ' # ' + n, '"%s"' % n, n.split('/')[-1] + '?']))
        odd = [n for n in odd if n and n not in names]
        if kind == 'none' and not odd:
            odd = ['No/Such']
    sc['list'] = ls + odd
    r.shuffle(sc['list'])
    sc['form'] = [r.randrange(10 ** 9), r.choice(['\n', '\n', '\r\n', '\r'])]
    sc['killed'] = r.choice([0, 0, r.randrange(1, 150)])
    sc['short'] = [r.randrange(10 ** 6), r.choice([0, .4]), r.choice([0, .4])]
    if r.random() < 0.5:
        sc['fault'] = {'at': r.choice([0, 1, 2, 3, r.randrange(150)]),
                       'do': r.choice(['EIO', 'ENOSPC', 'ENOMEM'])}
    return sc


def text(sc):
    """The list as a file."""
    r = random.Random(sc['form'][0])
    nl = sc['form'][1]
    names = [b['n'] for b in sc['blocks'] if b['k'] in ('zone', 'link')]
    out = []
    for n in sc['list'] + [None]:
        while r.random() < 0.3:
            out.append(r.choice([
                '', '   ', '\t', '#', '# ' + r.choice(names),
                '#' + r.choice(names), '  # Städte: ' + r.choice(names)]))
        if n is not None:
            out.append(r.choice(['', '', '', ' ', '\t']) + n
                       + r.choice(['', '', '', ' ', '\t ']))
            if r.random() < 0.08:
                out.append(n)
    s = nl.join(out)
    return s + (nl if r.random() < 0.7 else '')


def apart(c):
    return {k: v for k, v in c.items() if k not in APART}


def execute(sc):
    res = Result()
    w = core.World()
    f = sc['flags']
    kind = sc['kind']
    try:
        bl = sc['blocks']
        tzgen.put_tree(w, bl, 'in')
        few = [b for b in bl if b['k'] == 'policy' or b['n'] in sc['list']]
        tzgen.put_tree(w, few if kind != 'empty' else bl, 'few')
        w.put('include.txt', text(sc))
        for d in ('all', 'out', 'less'):
            w.put(d + '/.keep', '')
        named = dict(sc, include=['x'])
        whole = scene.run(w, sc, out='all')
        less = scene.run(w, sc, out='less', where='few')
        res.run(whole)
        res.run(less)
        if sc['killed']:
            o = scene.run(w, named, core.Plan(
                faults=[{'at': sc['killed'], 'do': 'crash'}]))
            res.run(o)
        before = scene.files(w.snap('out'))
        o = scene.run(w, named, core.Plan(short=sc['short']))
        res.run(o)
        out = scene.files(w.snap('out'))
        ok = o.get('exit') == 0
        where = ' '.join(scene.args(named)) + '; list: ' + \
            ' '.join(sc['list'])[:300]
        kept = sorted({b['n'] for b in few if b['k'] != 'policy'})
        res.saw(f['scope'], f['langs'], kind, len(kept), ok,
                o.get('where') if not ok else '')
        res.count(kind + ('_accepted' if ok else '_refused'))
        if not ok and out != before:
            res.count('left_changed')       # judged by C05
        if not ok and less.get('exit') == 0 and kept:
            res.violation('refused', 'the run with the list ends with %s, '
                          'the one over only those zones with status 0; %s'
                          % (scene.tell(o), where))
            return res
        if ok and less.get('exit') != 0:
            res.violation('accepted', 'status 0, but the run over only '
                          'those zones ends with %s; %s' % (
                              scene.tell(less), where))
            return res
        if not ok:
            return res
        bad = judge(res, w, sc, bl, few, out, whole)
        if bad:
            res.violation(bad[0], '%s; %s' % (bad[1], where))
            return res
        if sc.get('fault'):
            o = scene.run(w, named, core.Plan(faults=[dict(sc['fault'])]))
            res.run(o)
            now = scene.files(w.snap('out'))
            if o.get('exit') == 0 and now != out:
                n = sorted(k for k in set(out) | set(now)
                           if out.get(k) != now.get(k))[0]
                res.violation('lost', 'after a failed operation (%s) status '
                              '0, but %s differs: %s; %s' % (
                                  sc['fault'], n,
                                  scene.diff(out.get(n), now.get(n)), where))
        res.mix(kept)
    finally:
        w.close()
    return res


def judge(res, w, sc, bl, few, out, whole):
    f = sc['flags']
    try:
        j = decode.decode_json(out['zonedb.json'])
        k = decode.decode_json(w.snap('less')['zonedb.json'])
        cs = [decode.decode(g, out, f['scope'], f['ns'])
              for g in f['langs']]
    except (decode.Bad, KeyError, ValueError):
        res.count('undecodable')        # judged by C13
        return None
    a, b = j['raw'], k['raw']
    for x in sorted(set(a) | set(b)):
        if x not in APART and a.get(x) != b.get(x):
            return 'differs', 'the JSON data %s differ from those of the ' \
                'run over only those zones: %s' % (
                    x, decode._first_diff(a.get(x), b.get(x)))
    less = scene.files(w.snap('less'))
    for n in sorted(set(out) | set(less)):
        if (n in out) != (n in less):
            return 'differs', '%s is written by one run only' % n
    for g, c in zip(f['langs'], cs):
        try:
            d = decode.decode(g, less, f['scope'], f['ns'])
            decode.agree(apart(c), apart(d), 'the run with the list',
                         'the run over only those zones')
        except decode.Bad as e:
            return 'differs', '%s: %s' % (g, e)
    names = {b['n']: b['k'] for b in bl if b['k'] != 'policy'}
    gone = {n for n in names if n not in sc['list']} \
        if sc['kind'] != 'empty' else set()
    for kind in ('zone', 'link'):
        m = a['removed_%ss' % kind]
        n = b['removed_%ss' % kind]
        src = j[kind + 's']
        for x in sorted(gone):
            if names[x] == kind and x in src:
                return 'selected', '%s %s is not listed, but emitted' % (
                    kind, x)
            if names[x] == kind and not any(
                    'include list' in t for t in m.get(x, [])):
                return 'reason', '%s %s is not listed, but removed with %s' \
                    % (kind, x, m.get(x))
        rest = {x: v for x, v in m.items() if x not in gone}
        if rest != n:
            return 'removed', 'listed %ss are removed: %s; with only those ' \
                'zones: %s' % (kind, rest, n)
    # Each listed zone as in the whole database
    if whole.get('exit') == 0:
        full = scene.files(w.snap('all'))
        try:
            v0, v1 = c16.view(full), c16.view(out)
            c0 = [decode.decode(g, full, f['scope'], f['ns'])
                  for g in f['langs']]
        except (decode.Bad, KeyError, ValueError):
            return None

        def mod(x):
            return model.Model({n: t.encode('utf-8')
                                for n, t in tzgen.render(x).items()})
        part = few if sc['kind'] != 'empty' else bl
        bad = c16.compare(res, (c16.ordered(bl), mod(bl), v0, full, c0),
                          (c16.ordered(part), mod(part), v1, out, cs),
                          f['langs']) if len(part) != len(bl) else None
        if bad:
            return 'changed', 'with all zones against only those listed: ' \
                + bad
        if sc['kind'] == 'empty' and j['raw'] != decode.decode_json(
                full['zonedb.json'])['raw']:
            return 'changed', 'an empty list does not select everything'
        res.count('whole_compared')
    return None


def simplify(sc):
    if sc.get('fault'):
        yield {k: v for k, v in sc.items() if k != 'fault'}
    if sc['killed']:
        yield dict(sc, killed=0)
    if any(sc['short'][1:]):
        yield dict(sc, short=[0, 0, 0])
    ls = sc['list']
    for k in range(len(ls)):
        if len(ls) > 1:
            yield dict(sc, list=ls[:k] + ls[k + 1:])
    bl = sc['blocks']
    for k in range(len(bl)):
        if len(bl) > 1:
            yield dict(sc, blocks=bl[:k] + bl[k + 1:])
