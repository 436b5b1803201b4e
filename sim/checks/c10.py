"""C10: zone identifiers are stable across releases and languages."""
from sim import core, decode, releases, scene, tzgen
from sim.engine import Result
from sim.rng import rng

ID = 'C10'
COUNTS = {'quick': 1000, 'thorough': 24000}
META = {
    'rule': 'Each scenario draws a source tree and a history of releases '
            '(sim/releases.py), some of which bring a name whose identifier '
            'or symbol is that of another name, or whose identifier is 0. '
            'Every release is compiled several times: for drawn scopes, '
            'languages, windows and hash seeds, after killed attempts, with '
            'split transfers. A fleet of devices holds databases of drawn '
            'builds; seeded events store the identifier of a zone in a '
            'device, upgrade and roll back devices, and send identifiers '
            'over a network that delays, repeats and loses messages. '
            'Whatever a device resolves must be the zone that was meant; '
            'no identifier is 0 or stands for two names; releases with '
            'colliding names must be refused and write nothing. Distinct '
            'counts the different (builds, names, events, outcome) seen.',
    'states': 'distinct (scope, languages, names held, collisions planted, '
              'exit status)',
    'assumptions': ['python databases hold no identifiers; their users '
                    'compute them from the name'],
}
ZERO = ['Etc/Agxgizqu', 'Etc/Bakfkext', 'Etc/Bxtmxxvo',
        'Etc/Doecoilq', 'Etc/Ebcshbah']
LANGS = ['arduino', 'c', 'go', 'json']


def gen(r, i, tier):
    sc = scene.gen_base(r, scope=r.choice(['basic', 'extended', 'complete']),
                        langs=['go'], big=0.06, include=0.0,
                        actions=['zonedb', 'json'])
    sc['edits'] = [releases.draw(r, r.choice([0, 1, 2, 4]))
                   for _ in range(r.choice([1, 2, 3]))]
    for e in sc['edits']:       # names are what matters here
        e += [[r.choice(['add_link', 'add_link', 'twin_zone', 'rename_zone']),
               r.randrange(10 ** 9)] for _ in range(r.choice([0, 2, 3]))]
    sc['clash'] = [[] for _ in sc['edits']]
    for c in sc['clash']:
        if r.random() < 0.35:
            c.append([r.choice(['id', 'id', 'symbol', 'zero', 'rules']),
                      r.choice(['zone', 'link']), r.randrange(10 ** 9)])
    sc['builds'] = []
    for k in range(len(sc['edits']) + 1):
        for _ in range(r.choice([1, 1, 2])):
            f = tzgen.gen_flags(r, scope=r.choice(
                ['basic', 'extended', 'complete']),
                langs=r.choice([['arduino'], ['c'], ['go'], ['go', 'c'],
                                ['arduino', 'go']]),
                actions=['zonedb', 'json'])
            f.pop('json', None)
            sc['builds'].append({
                'rel': k, 'flags': f, 'killed': r.choice(
                    [0, 0, 0, r.randrange(1, 200)])})
    sc['events'] = [r.randrange(10 ** 9) for _ in range(
        r.choice([20, 60, 150]))]
    sc['devices'] = r.choice([2, 3, 5])
    sc['short'] = [r.randrange(10 ** 6), r.choice([0, .3]), r.choice([0, .3])]
    return sc


def clash(blocks, kind, what, seed):
    """Add one name that must not be accepted; returns (blocks, the two)."""
    r = rng('clash', seed)
    if kind == 'rules':
        return rules_clash(blocks, r)
    names = [b['n'] for b in blocks if b['k'] in ('zone', 'link')]
    zones = [b['n'] for b in blocks if b['k'] == 'zone']
    if kind == 'zero':
        old = new = r.choice([z for z in ZERO if decode.djb2(z) == 0])
    else:
        pairs = []
        for n in sorted(names):
            for i in range(1, len(n) - 1):
                if kind == 'symbol':
                    m = n[:i] + {'_': '-', '-': '_'}.get(n[i], '') + n[i + 1:]
                    if n[i] in '_-' and n[i + 1].isalnum():
                        pairs.append((n, m))
                else:
                    a, b = ord(n[i]), ord(n[i + 1])
                    m = n[:i] + chr(a + 1) + chr(b - 33) + n[i + 2:]
                    if chr(a + 1).isalpha() and chr(b - 33).isalpha() and \
                            m.isascii():
                        pairs.append((n, m))
        pairs = [p for p in pairs if p[1] not in names]
        if not pairs:
            return blocks, None
        old, new = r.choice(pairs)
    if what == 'zone':
        b = {'f': r.choice(tzgen.FILES), 'k': 'zone', 'n': new,
             'l': ['Zone\t%s\t%d:00\t-\tABC' % (new, r.randint(1, 9))]}
    else:
        b = {'f': r.choice(tzgen.FILES), 'k': 'link', 'n': new,
             'l': ['Link\t%s\t%s' % (r.choice(zones), new)]}
    return blocks[:] + [b] if r.random() < 0.5 else [b] + blocks[:], \
        (old, new)


def rules_clash(blocks, r):
    pair = r.choice([('Xy-z', 'Xy_z'), ('Xy_z', 'Xy-z'), ('A+B', 'A_PLUS_B')])
    g = tzgen.Gen(r, scope='basic', lo=1985, hi=2080)
    out = list(blocks)
    for k, n in enumerate(pair):
        z = 'Etc/Clash%d' % k
        f = r.choice(tzgen.FILES)
        for b in ({'f': f, 'k': 'policy', 'n': n, 'l': g.policy(n)},
                  {'f': f, 'k': 'zone', 'n': z,
                   'l': ['Zone\t%s\t%d:00\t%s\tX%%sT' % (z, k, n)]}):
            out.insert(r.randint(0, len(out)), b)
    return out, pair


def execute(sc):
    res = Result()
    w = core.World()
    try:
        bl = sc['blocks']
        tzgen.put_tree(w, bl, 'in')
        built = []
        for k in range(len(sc['edits']) + 1):
            if k:
                # clashes are withdrawn before the next release
                bl = releases.apply(bl, sc['edits'][k - 1], 'complete')
            now, pairs = bl, []
            for c in (sc['clash'][k - 1] if k else ()):
                now, p = clash(now, *c)
                if p:
                    pairs.append((c[0], p))
                    res.fired['clash_' + c[0]] = res.fired.get(
                        'clash_' + c[0], 0) + 1
            tzgen.put_tree(w, now, 'in')
            for b in sc['builds']:
                if b['rel'] != k:
                    continue
                bad = build(sc, res, w, b, pairs, built)
                if bad:
                    res.violation(*bad)
                    return res
            if pairs:       # and then repaired
                tzgen.put_tree(w, bl, 'in')
                for b in sc['builds']:
                    if b['rel'] == k:
                        bad = build(sc, res, w, b, [], built)
                        if bad:
                            res.violation(*bad)
                            return res
        if built:
            bad = live(sc, res, built)
            if bad:
                res.violation('other-zone', bad)
    finally:
        w.close()
    return res


def build(sc, res, w, b, pairs, built):
    f = b['flags']
    out = 'out-%s-%s' % (f['scope'], '-'.join(f['langs']))
    one = {'blocks': None, 'flags': f}
    core.os.makedirs(w.path(out), exist_ok=True)
    if b['killed']:
        o = scene.run(w, one, core.Plan(faults=[{'at': b['killed'],
                                                 'do': 'crash'}]), out=out)
        res.run(o)
    was = w.snap(out)
    o = scene.run(w, one, core.Plan(short=sc['short']), out=out)
    res.run(o)
    res.saw(f['scope'], f['langs'], [p[0] for p in pairs], o.get('exit'),
            o.get('exc'), len(built))
    if o.get('exit') != 0:
        res.count('builds_refused')
        if pairs and w.snap(out) != was:
            return 'written', 'a release in which %s clash is refused, but ' \
                'files were written' % (pairs,)
        return None
    snap = scene.files(w.snap(out))
    maps = {}
    try:
        j = decode.decode_json(snap['zonedb.json'])
        raw = j['raw']
        maps['json'] = [(n, z['id']) for part in ('zones', 'links')
                        for n, z in j[part].items()]
        for g in f['langs']:
            c = decode.decode(g, snap, f['scope'], f['ns'])
            maps[g] = [(n, z['id']) for part in ('zones', 'links')
                       for n, z in c[part].items()]
    except decode.Bad as e:
        msg = ' '.join(str(x) for x in e.args)
        if 'id' not in msg.lower():
            res.count('undecodable')        # judged by C13
            return None
        return 'broken', 'identifiers of a database cannot be read: ' + msg
    for g, m in maps.items():
        res.count('identifiers', len(m))
        seen = {}
        for n, i in m:
            if i != decode.djb2(n):
                return 'hash', 'the %s database has %#x for %s instead of ' \
                    '%#x' % (g, i, n, decode.djb2(n))
            if i == 0:
                return 'zero', 'the identifier of %s is 0' % n
            if seen.setdefault(i, n) != n:
                return 'collision', '%#x stands for %s and %s in the %s ' \
                    'database' % (i, seen[i], n, g)
    for kind, (a, c) in pairs:
        have = {n for n, _ in maps['json']}
        gone = set(raw['removed_zones']) | set(raw['removed_links'])
        if kind == 'rules':
            have = set(raw['policies_map'])
            gone = set(raw['removed_policies'])
        if a in have and c in have:
            return 'accepted', 'the clash of %s and %s (%s) is accepted' % (
                a, c, kind)
        lost = [n for n in (a, c) if n not in have and n not in gone]
        if lost:
            return 'dropped', 'the clash of %s and %s (%s) is resolved by ' \
                'silently dropping %s' % (a, c, kind, lost[0])
    for g, m in maps.items():
        built.append((g, b, dict(m)))
    return None


def live(sc, res, built):
    """Devices store, resolve and exchange identifiers."""
    r = rng('fleet', len(sc['events']))
    dev = [{'db': 0, 'kept': []} for _ in range(sc['devices'])]
    net = []
    for e in sc['events']:
        r = rng('event', e)
        d = r.choice(dev)
        g, b, ids = built[d['db'] % len(built)]
        x = r.randrange(6)
        if x in (0, 1) and ids:
            n = r.choice(sorted(ids))
            d['kept'].append((ids[n], n))
            res.count('stored')
        elif x == 2:
            d['db'] = r.randrange(len(built))   # upgrade or roll back
            res.fired['upgrade'] = res.fired.get('upgrade', 0) + 1
        elif x == 3 and d['kept']:
            m = r.choice(d['kept'])
            for _ in range(r.choice([0, 1, 1, 2])):     # lost or repeated
                net.append((r.randrange(len(dev)), m))
            res.fired['message'] = res.fired.get('message', 0) + 1
        elif x == 4 and net:
            to, m = net.pop(r.randrange(len(net)))
            dev[to]['kept'].append(m)
            d = dev[to]
        g, b, ids = built[d['db'] % len(built)]
        back = {i: n for n, i in ids.items()}
        for i, n in d['kept'][-20:]:
            res.count('resolved')
            got = back.get(i)
            if got is not None and got != n:
                return '%#x was stored for %s, but the %s database of ' \
                    'release %d resolves it to %s' % (i, n, g, b['rel'], got)
            if got is None and n in ids:
                return '%s was stored as %#x, but in the %s database of ' \
                    'release %d (%s) it is %#x' % (
                        n, i, g, b['rel'], b['flags']['scope'], ids[n])
    res.mix(sum(len(d['kept']) for d in dev))
    return None


def simplify(sc):
    for k in range(len(sc['builds'])):
        if len(sc['builds']) > 1:
            yield dict(sc, builds=sc['builds'][:k] + sc['builds'][k + 1:])
    es = sc['edits']
    if len(es) > 1:
        yield dict(sc, edits=es[:-1], clash=sc['clash'][:-1])
    for k, e in enumerate(es):
        for j in range(len(e)):
            yield dict(sc, edits=es[:k] + [e[:j] + e[j + 1:]] + es[k + 1:])
    if len(sc['events']) > 1:
        yield dict(sc, events=sc['events'][:len(sc['events']) // 2])
    for k, b in enumerate(sc['builds']):
        if b['killed']:
            yield dict(sc, builds=sc['builds'][:k] + [dict(b, killed=0)]
                       + sc['builds'][k + 1:])
