"""C16: unrelated source edits leave a zone untouched."""
import json

from sim import core, decode, model, releases, scene, tzgen
from sim.checks import c09
from sim.engine import Result

ID = 'C16'
COUNTS = {'quick': 1400, 'thorough': 30000}
META = {
    'rule': 'Each scenario draws a source tree and a history of releases: '
            'each release adds, removes, renames and edits zones, rule sets '
            'and links, turns zones into links, splits, moves and shuffles '
            'blocks within and between files. The releases are compiled one '
            'after the other into one directory while attempts may be '
            'killed, transfers split and the hash seed changes. For every '
            'two releases in a row that compile, each zone and link whose '
            'own lines and rules are the same in both must be emitted with '
            'the same data, notes and identifier, or be removed for the '
            'same reasons, in the JSON file and in the generated sources; '
            'if only the order of blocks differs, every generated source '
            'must be the same byte for byte, and the JSON data too. Distinct counts the different (scope, '
            'language, edits, zones compared, outcome) seen.',
    'states': 'distinct (scope, language, kinds of edits, zones compared, '
              'exit status)',
    'assumptions': ['a zone depends on its own lines and on the rules its '
                    'eras name, and a link on its target'],
}


def gen(r, i, tier):
    x = r.random()
    scope = 'basic' if x < 0.6 else 'extended' if x < 0.8 else 'complete'
    langs = [r.choice(['python', 'python', 'arduino', 'c', 'go'])]
    if r.random() < 0.15:
        langs = ['python', 'go', r.choice(['arduino', 'c'])]
    sc = scene.gen_base(r, scope=scope, langs=langs, big=0.05, include=0.1,
                        actions=['zonedb', 'json', 'zonelist'])
    f = sc['flags']
    f.pop('json', None)
    if r.random() < 0.5:
        f['strict'] = False
    sc['edits'] = [releases.draw(r, r.choice([1, 1, 2, 3, 6]))
                   for _ in range(r.choice([1, 2, 4]))]
    if r.random() < 0.3:
        sc['edits'].append([[r.choice(['shuffle', 'move']),
                             r.randrange(10 ** 9)] for _ in range(2)])
    sc['killed'] = [r.choice([0, 0, 0, r.randrange(1, 150)])
                    for _ in range(len(sc['edits']) + 1)]
    sc['short'] = [r.randrange(10 ** 6), r.choice([0, .3]), r.choice([0, .3])]
    return sc


def ordered(blocks):
    """The order of blocks that share a name matters."""
    out = {}
    for f in tzgen.FILES:
        for b in blocks:
            if b['f'] == f:
                ls = [x for x in b['l'] if x and x[0] != '#']
                out.setdefault((b['k'], b['n']), []).extend(ls)
    return out


def execute(sc):
    res = Result()
    w = core.World()
    f = sc['flags']
    try:
        scene.setup(w, sc)
        bl = sc['blocks']
        last = None
        for k in range(len(sc['edits']) + 1):
            if k:
                bl = releases.apply(bl, sc['edits'][k - 1], f['scope'])
            tzgen.put_tree(w, bl, 'in')
            if sc['killed'][k]:
                o = scene.run(w, sc, core.Plan(faults=[{
                    'at': sc['killed'][k], 'do': 'crash'}]))
                res.run(o)
            o = scene.run(w, sc, core.Plan(short=sc['short']))
            res.run(o)
            kinds = sorted({e[0] for e in sc['edits'][k - 1]}) if k else []
            for e in kinds:
                res.fired[e] = res.fired.get(e, 0) + 1
            if o.get('exit') != 0:
                res.count('releases_refused')
                res.saw(f['scope'], o.get('exc'), o.get('where'))
                continue
            res.count('releases')
            m = model.Model({n: t.encode('utf-8') for n, t in
                             tzgen.render(bl).items()})
            out = scene.files(w.snap('out'))
            try:
                now = (ordered(bl), m, view(out), out, [decode.decode(
                    g, out, f['scope'], f['ns']) for g in f['langs']])
            except (decode.Bad, KeyError, ValueError):
                res.count('undecodable')        # judged by C13
                return res
            if last:
                bad = compare(res, last, now, f['langs'])
                if bad:
                    res.violation('spread', 'release %d: %s; edits: %s' % (
                        k, bad, sc['edits'][k - 1]))
                    return res
            res.saw(f['scope'], f['langs'], kinds, len(now[2]['zones']))
            last = now
    finally:
        w.close()
    return res


def view(out):
    """The records of each zone and link in what a run wrote."""
    z, removed, links = c09.view(out)
    raw = decode.decode_json(out['zonedb.json'])['raw']

    def text(d):
        return {n: sorted(v) for n, v in d.items()}
    return {'zones': {n: c09.strip(v) for n, v in z.items()},
            'removed': removed, 'links': links,
            'notes': text(raw['notable_zones']),
            'rule_notes': text(raw['notable_policies']),
            'rules_removed': text(raw['removed_policies']),
            'links_removed': text(raw['removed_links']),
            'link_notes': text(raw['notable_links'])}


def closure(m, b, z):
    ps = {e['rules'] for e in m.zones[z]}
    return m.zones[z], b.get(('zone', z)), {
        p: (m.policies.get(p), b.get(('policy', p))) for p in ps}


def compare(res, old, new, langs):
    (b0, m0, v0, f0, c0), (b1, m1, v1, f1, c1) = old, new
    if b0 == b1:
        res.count('reorderings')
        for n in sorted(f0):
            if n == 'zonedb.json':
                x, y = json.loads(f0[n]), json.loads(f1.get(n, '{}'))
                if x != y:
                    return 'only the order of blocks changed, but the JSON ' \
                        'data differ: ' + decode._first_diff(x, y)
            elif f0[n] != f1.get(n):
                return 'only the order of blocks changed, but %s differs: ' \
                    '%s' % (n, scene.diff(f0[n], f1.get(n)))
    keep = set()
    for z in sorted(set(m0.zones) & set(m1.zones)):
        if closure(m0, b0, z) != closure(m1, b1, z):
            res.count('zones_edited')
            continue
        if z in m0.links or z in m1.links:
            continue
        keep.add(z)
        res.count('zones_compared')
        a, b = v0['zones'].get(z), v1['zones'].get(z)
        if (a is None) != (b is None):
            return 'zone %s was %s and is now %s' % tuple([z] + [
                'emitted' if x else 'removed (%s)' % v['removed'].get(z)
                for x, v in ((a, v0), (b, v1))])
        if a != b:
            return 'zone %s changed: %s' % (z, decode._first_diff(a, b))
        for part in ('removed', 'notes'):
            if v0[part].get(z) != v1[part].get(z):
                return 'zone %s: %s was %s and is now %s' % (
                    z, part, v0[part].get(z), v1[part].get(z))
        for lang, x, y in zip(langs, c0, c1):
            if not c09.same(x, y, z):
                return 'zone %s changed in the %s files' % (z, lang)
        if a:
            for p in sorted(a['rules']):
                if v0['rule_notes'].get(p) != v1['rule_notes'].get(p):
                    return 'notes on rule set %s were %s and are now %s' % (
                        p, v0['rule_notes'].get(p), v1['rule_notes'].get(p))
    for n in sorted(set(m0.links) & set(m1.links)):
        if m0.links[n] != m1.links[n] or len(m0.links[n]) > 1 or \
                m0.links[n][0] not in keep or n in m0.zones or n in m1.zones:
            continue
        res.count('links_compared')
        for part in ('links', 'links_removed', 'link_notes'):
            if v0[part].get(n) != v1[part].get(n):
                return 'link %s: %s was %s and is now %s' % (
                    n, part, v0[part].get(n), v1[part].get(n))
    return None


def simplify(sc):
    es = sc['edits']
    for k in range(len(es)):
        if len(es) > 1:
            yield dict(sc, edits=es[:k] + es[k + 1:],
                       killed=sc['killed'][:k] + sc['killed'][k + 1:])
    for k, e in enumerate(es):
        for j in range(len(e)):
            if len(e) > 1:
                yield dict(sc, edits=es[:k] + [e[:j] + e[j + 1:]]
                           + es[k + 1:])
    if any(sc['killed']):
        yield dict(sc, killed=[0] * len(sc['killed']))
    if any(sc['short'][1:]):
        yield dict(sc, short=[0, 0, 0])
