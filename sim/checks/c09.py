"""C09: damage in the input reaches only the zones that depend on it."""
import difflib
import re

from sim import core, damage, decode, model, scene, tzgen
from sim.checks import c08
from sim.engine import Result

ID = 'C09'
COUNTS = {'quick': 900, 'thorough': 30000}
META = {
    'rule': 'Each scenario draws a source tree (mostly for the scope basic, '
            'which goes on after removals) and flags and compiles it; then '
            'it damages the stored files several times (bit flips, typing '
            'errors, changed fields, lost, repeated, joined, split and '
            'swapped lines, torn tails, overwritten regions) and compiles '
            'again. If that run succeeds, every zone and link whose lines, '
            'neighbours and rules are untouched by the difference must be '
            'emitted or removed exactly as before; lines that a reference '
            'reader finds unreadable must be counted and quoted in the log. '
            'Distinct counts the different (scope, kinds of damage, lines '
            'touched, outcome) seen.',
    'states': 'distinct (scope, kinds of damage, number of touched lines, '
              'exit status, exception)',
    'assumptions': ['a zone is touched if a changed line lies in its block or '
                    'next to it, names it, or names a rule set it uses, '
                    'before or after the damage'],
}


def gen(r, i, tier):
    x = r.random()
    scope = 'basic' if x < 0.55 else 'extended' if x < 0.78 else 'complete'
    y = r.random()
    langs = ['python'] if y < 0.6 else [r.choice(['arduino', 'c', 'go',
                                                  'python'])]
    sc = scene.gen_base(r, scope=scope, langs=langs, big=0.06, include=0.12,
                        actions=['zonedb', 'json'])
    sc['flags'].pop('json', None)
    # links to damaged zones go with them; fewer make more runs succeed
    sc['cases'] = []
    for _ in range(5 if tier == 'quick' else 8):
        sc['cases'].append([damage.draw(r) for _ in range(
            r.choice([1, 1, 1, 2, 3]))])
        if r.random() < (0.3 if scope == 'basic' else 0.1):
            sc['cases'][-1] = burst(r)
    return sc


def burst(r):
    """Many damages in one region of one file, most of them to fields."""
    f, p, w = r.random(), r.random(), r.choice([0.02, 0.1, 0.3])
    out = []
    for _ in range(r.choice([5, 8, 12, 20])):
        d = damage.draw(r, hard=0.93)
        d.update(f=f, p=min(0.999, max(0.0, p + r.uniform(-w, w))))
        if d['op'] == 'field' and r.random() < 0.7:
            d.update(k='offset', v=r.choice(['', '#', '-']))
        out.append(d)
    return out


def owners(ls):
    """For every line, the name of the zone block it lies in, or None."""
    out, z = [], None
    for ln in ls:
        s = ln.split('#', 1)[0].rstrip()
        t = s.split()
        if not t:
            out.append(z)
            continue
        if t[0] == 'Zone' and s[0] == 'Z':
            z = t[1] if len(t) > 1 else ''
            out.append(z)
        elif s[0] == '\t':
            out.append(z)
        else:
            out.append(None)
            if t[0] in ('Rule', 'Link'):
                z = None
    return out


def neighbours(ls, own, lo, hi):
    """Zones at and around the lines lo..hi (hi excluded)."""
    out = set(own[max(0, lo - 1):hi + 1])
    k = lo - 1                      # the block above
    while k >= 0:
        t = ls[k].split()
        if t and ls[k][0] not in '\t#':
            out.add(own[k])
            break
        out.add(own[k])
        k -= 1
    k = hi                          # the block below
    while k < len(ls):
        out.add(own[k])
        t = ls[k].split()
        if t and ls[k][0] not in '\t#':
            break
        k += 1
    out.discard(None)
    return out


def touched(before, after):
    """Names the difference of two {file: bytes} may concern."""
    zones, names, n = set(), set(), 0
    for f in tzgen.FILES:
        if before[f] == after[f]:
            continue
        a, b = model.lines_of(before[f]), model.lines_of(after[f])
        if b is None:
            return None, None, 1
        oa, ob = owners(a), owners(b)
        sm = difflib.SequenceMatcher(None, a, b, autojunk=False)
        for tag, i1, i2, j1, j2 in sm.get_opcodes():
            if tag == 'equal':
                continue
            n += max(i2 - i1, j2 - j1)
            zones |= neighbours(a, oa, i1, i2) | neighbours(b, ob, j1, j2)
            for ln in a[i1:i2] + b[j1:j2]:
                t = ln.split('#', 1)[0].split()
                if t and t[0] in ('Rule', 'Zone', 'Link'):
                    names |= set(t[1:3] if t[0] == 'Link' else t[1:2])
    return zones, names, n


def policies_of(m, zone):
    return {e['rules'] for e in m.zones.get(zone, ())}


def view(out):
    """The records of each zone and link in what a run wrote."""
    j = decode.decode_json(out['zonedb.json'])
    raw = j['raw']
    z = {}
    for n, rec in raw['zones_map'].items():
        pols = sorted({e['policy_name'] for e in rec['eras']
                       if e.get('policy_name')})
        z[n] = {'zone': rec, 'id': raw['zone_ids'][n],
                'rules': {p: raw['policies_map'][p] for p in pols}}
    removed = {n: sorted(v) for n, v in raw['removed_zones'].items()}
    links = {n: (t, raw['link_ids'][n]) for n, t in
             raw['links_map'].items()}
    return z, removed, links


INDEX = re.compile(r'index|offset$|_map$|^go_')


def strip(x):
    """Without positions in tables that all zones share."""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()
                if not (INDEX.search(k) and isinstance(v, int))}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def execute(sc):
    res = Result()
    w = core.World()
    scope = sc['flags']['scope']
    lang = sc['flags']['langs'][0]
    try:
        scene.setup(w, sc)
        files = tzgen.render(sc['blocks'])
        before = {f: t.encode() for f, t in files.items()}
        o = scene.run(w, sc)
        res.run(o)
        if o.get('exit') != 0:
            res.count('tree_rejected')
            return res
        m0 = model.Model(before)
        good = w.snap('out')
        z0, r0, l0 = view(good)
        c0 = None
        for case in sc['cases']:
            after, done = damage.apply(files, case)
            if after == before:
                continue
            for k, v in done.items():
                res.fired[k] = res.fired.get(k, 0) + v
            c08.place(w, after)
            o = scene.run(w, sc)
            res.run(o)
            zones, names, n = touched(before, after)
            res.saw(scope, sorted(done), n, o.get('exit'), o.get('exc'))
            if o.get('died') or o.get('crashed'):
                res.violation('hang', 'the run over damaged input %s; '
                              'damage: %s' % (scene.tell(o), case))
                return res
            m = model.Model(after)
            if m.fatal:
                if o.get('exit') == 0:
                    res.violation('garbled', 'a file that is not UTF-8 is '
                                  'accepted; damage: %s' % case)
                    return res
                continue
            bad = account(m, o['log'])
            if bad:
                res.violation('account', '%s; damage: %s' % (bad, case))
                return res
            if o.get('exit') != 0:
                res.count('runs_refused')
                continue
            res.count('runs_compared')
            out = w.snap('out')
            try:
                z1, r1, l1 = view(out)
                c1 = decode.decode(lang, out, scope, sc['flags']['ns'])
                c0 = c0 or decode.decode(lang, good, scope,
                                         sc['flags']['ns'])
            except (decode.Bad, KeyError, ValueError) as e:
                res.count('undecodable')    # judged by C13
                continue

            def dirty(z):
                return z in zones or z in names or \
                    policies_of(m0, z) & names
            for z in sorted(set(z0) | set(r0) | set(c0['zones'])):
                if dirty(z):
                    res.count('zones_touched')
                    continue
                res.count('zones_compared')
                what = None
                if z in z0:
                    if z not in z1:
                        what = 'is no longer emitted (%s)' % r1.get(z)
                    elif strip(z0[z]) != strip(z1[z]):
                        what = 'changed: ' + decode._first_diff(
                            strip(z0[z]), strip(z1[z]))
                    elif not same(c0, c1, z):
                        what = 'changed in the %s files' % lang
                elif z in z1 or r0[z] != r1.get(z):
                    what = 'was removed for %s, now %s' % (
                        r0[z], 'emitted' if z in z1 else r1.get(z))
                if what:
                    res.violation('spread', 'zone %s, which the damage does '
                                  'not touch, %s; damage: %s' % (
                                      z, what, case))
                    return res
            for l in sorted(l0):
                t = l0[l][0]
                if l in names or t in names or l in zones or dirty(t):
                    continue
                if l1.get(l) != l0[l]:
                    res.violation('spread', 'link %s, which the damage does '
                                  'not touch, is %s instead of %s; damage: %s'
                                  % (l, l1.get(l), l0[l], case))
                    return res
    finally:
        w.close()
    return res


def same(c0, c1, z):
    if c0['zones'].get(z) != c1['zones'].get(z):
        return False
    for e in c0['zones'].get(z, {'eras': ()})['eras']:
        if e[1] and c0['policies'].get(e[1]) != c1['policies'].get(e[1]):
            return False
    return True


def squeeze(s):
    return ' '.join(s.split())


def account(m, log):
    """Unreadable lines must be counted and quoted in the log."""
    if 'Summary' not in log:
        return None             # reading itself was refused
    dup = sum(len(v) for v in m.links.values() if len(v) > 1)
    n = c08.counters(log)
    if n < len(m.bad) + dup:
        return '%d lines cannot be read, but only %d are counted (%s)' % (
            len(m.bad) + dup, n, m.bad[:4])
    if n > len(m.bad) + dup + len(m.grey):
        return '%d lines are counted as unreadable, but only %d are (%s)' % (
            n, len(m.bad) + dup + len(m.grey), (m.bad + m.grey)[:4])
    text = squeeze(log)
    for f, ln, why in m.bad:
        t = ln.split('#', 1)[0].split()
        if t[0] == 'Zone':
            t = t[2:]
        if ' '.join(t) not in text:
            return 'unreadable line %r (%s, %s) is not in the log' % (
                ln, f, why)
    return None


def simplify(sc):
    cs = sc['cases']
    for n, c in enumerate(cs):
        if len(cs) > 1:
            yield dict(sc, cases=[c])
        for k in range(len(c)):
            if len(c) > 1:
                yield dict(sc, cases=cs[:n] + [c[:k] + c[k + 1:]]
                           + cs[n + 1:])
