"""C13: a successful run yields a sound database even from damaged input."""
from sim import core, damage, decode, model, scene, tzgen
from sim.checks import c08
from sim.engine import Result

ID = 'C13'
COUNTS = {'quick': 800, 'thorough': 26000}
META = {
    'rule': 'Each scenario draws a source tree and flags, damages the stored '
            'files several times (changed fields with boundary and hostile '
            'values, typing errors, bit flips, lost, repeated, joined, split '
            'and swapped lines, torn tails, overwritten regions, or nothing) '
            'and compiles for drawn languages, JSON and the zone list. '
            'Whenever the status is 0 every file is decoded by an '
            'independent reader, checked for soundness, compared with the '
            'other languages, and every readable name must be emitted or '
            'listed as removed. Distinct counts the different (scope, '
            'languages, kinds of damage, outcome) seen.',
    'states': 'distinct (scope, languages, kinds of damage, exit status, '
              'exception, zones emitted and removed)',
    'assumptions': ['the readers of the generated sources accept the subset '
                    'of each language the generators use'],
}
LANGS = ['arduino', 'c', 'go', 'python']


def gen(r, i, tier):
    langs = r.sample(LANGS, r.choice([1, 2, 2, 3]))
    if 'arduino' in langs and 'c' in langs:     # they share file names
        langs.remove(r.choice(['arduino', 'c']))
    x = r.random()
    scope = 'basic' if x < 0.45 else 'extended' if x < 0.7 else 'complete'
    sc = scene.gen_base(r, scope=scope, langs=langs, big=0.05, include=0.12,
                        actions=['zonedb', 'json', 'zonelist'])
    sc['flags'].pop('json', None)
    if r.random() < 0.06:
        twin(r, sc)
    sc['cases'] = [[]] if r.random() < 0.15 else []
    for _ in range(4 if tier == 'quick' else 7):
        sc['cases'].append([damage.draw(r, hard=r.choice([0.3, 0.7, 1.0]))
                            for _ in range(r.choice([1, 1, 2, 4]))])
    return sc


def twin(r, sc):
    """A link whose name gives the same symbol as another name."""
    names = [(b['n'], b['n'] if b['k'] == 'zone' else b['l'][0].split()[1])
             for b in sc['blocks'] if b['k'] in ('zone', 'link')]
    name, target = r.choice(names)
    new = None
    for a, c in (('/', '-'), ('/', '_'), ('_', '-'), ('-', '_'), ('/', '.'),
                 ('+', '_PLUS_')):
        if a in name and (new is None or r.random() < 0.5):
            new = name.replace(a, c)
    if new and new not in [n for n, t in names]:
        if r.random() < 0.3:
            target = r.choice(names)[1]
        sc['blocks'].append({'k': 'link', 'n': new, 'f': 'backward',
                             'l': ['Link\t%s\t%s' % (target, new)]})
        if sc.get('include'):
            sc['include'] = sorted(set(sc['include']) | {new, name, target})


def execute(sc):
    res = Result()
    w = core.World()
    f = sc['flags']
    try:
        scene.setup(w, sc)
        files = tzgen.render(sc['blocks'])
        for case in sc['cases']:
            after, done = damage.apply(files, case)
            for k, v in done.items():
                res.fired[k] = res.fired.get(k, 0) + v
            core.shutil.rmtree(w.path('out'))
            w.put('out/.keep', '')
            c08.place(w, after)
            o = scene.run(w, sc)
            res.run(o)
            if o.get('died') or o.get('crashed'):
                res.violation('hang', 'the run over damaged input %s; '
                              'damage: %s' % (scene.tell(o), case))
                return res
            if o.get('exit') != 0 or 'json' not in f['actions']:
                res.saw(f['scope'], sorted(done), o.get('exc'),
                        o.get('where'))
                res.count('runs_refused')
                continue
            res.count('databases_decoded')
            out = scene.files(w.snap('out'))
            out.pop('.keep')
            try:
                c = judge(sc, out, after)
                res.saw(f['scope'], f['langs'], sorted(done),
                        len(c['zones']), len(c['removed_zones']))
                res.mix(len(c['zones']), len(c['policies']))
            except decode.Bad as e:
                msg = ' '.join(str(x) for x in e.args)
                res.violation('unsound', 'status 0, but %s; damage: %s' % (
                    msg, case))
                return res
    finally:
        w.close()
    return res


def judge(sc, out, after):
    f = sc['flags']
    decode.need(set(out) == set(scene.expected(sc)), 'files written:',
                sorted(out))
    base = decode.decode_json(out['zonedb.json'])
    decode.sound(base, 'json')
    for lang in f['langs'] if 'zonedb' in f['actions'] else ():
        c = decode.decode(lang, out, f['scope'], f['ns'])
        decode.sound(c, lang)
        decode.agree(base, c, 'json', lang)
    if 'zonelist' in f['actions']:
        names = decode.decode_zonelist(out['zones.txt'])
        decode.need(set(names) == set(base['zones']), 'zone list and JSON '
                    'differ:', sorted(set(names) ^ set(base['zones']))[:4])
    m = model.Model(after)
    decode.need(not m.fatal, 'a file that is not UTF-8 is accepted')
    raw = base['raw']
    for kind, want, have, gone in (
            ('z', m.zones, raw['zones_map'], raw['removed_zones']),
            ('p', m.policies, raw['policies_map'], raw['removed_policies']),
            ('l', m.links, raw['links_map'], raw['removed_links'])):
        for n in want:
            if (kind, n) in m.soiled or kind == 'l' and len(want[n]) > 1:
                continue
            decode.need(n in have or n in gone, {
                'z': 'zone', 'p': 'rule set', 'l': 'link'}[kind], repr(n),
                'is in the input but neither emitted nor removed')
            decode.need(n in have or all(gone[n]) and gone[n],
                        repr(n), 'is removed without a reason')
    return base


def simplify(sc):
    cs = sc['cases']
    for n, c in enumerate(cs):
        if len(cs) > 1:
            yield dict(sc, cases=[c])
        for k in range(len(c)):
            if len(c) > 1:
                yield dict(sc, cases=cs[:n] + [c[:k] + c[k + 1:]]
                           + cs[n + 1:])
