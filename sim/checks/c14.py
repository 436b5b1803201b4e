"""C14: a failing or oversized size estimate never slips through."""
import copy

from sim import core, decode, scene, tzgen
from sim.engine import Result

ID = 'C14'
COUNTS = {'quick': 1000, 'thorough': 26000}
LIMIT = 8
META = {
    'rule': 'Each scenario draws a source tree, flags and a sequence of runs '
            'over the same output directory. In every run the peer that '
            'estimates the sizes follows a drawn script: a size for every '
            'zone and year with its largest value placed at a drawn year '
            '(the first or last one of the range, beside the year from which '
            'the zone is unchanging, in between), possibly above what the '
            'device supports, and possibly a failure of a drawn kind at a '
            'drawn call, or an answer that is none. Some runs share their '
            'process with earlier runs whose peer failed. What is written is '
            'compared with what the peer said. Distinct counts the different '
            '(scope, languages, script kinds, failures, status) seen.',
    'states': 'distinct (scope, languages, override, kinds of script, kind '
              'and method of the failure, exit status)',
    'assumptions': ['the peer answers consistently: from two years after '
                    'the one it declares unchanging its answers stay the '
                    'same'],
    'stub': ['acetime.zone_processor (the scripted peer under test '
             'conditions)', 'raw file device (wrapped real calls)'],
}
LANGS = ['arduino', 'c', 'go', 'python']
METHODS = ['init', 'init_for_year', 'get_buffer_sizes', 'is_terminal_year']
ERRORS = ['Exception', 'ValueError', 'KeyError', 'IndexError', 'OSError',
          'AssertionError', 'RuntimeError', 'MemoryError', 'RecursionError',
          'StopIteration', 'ZeroDivisionError', 'AttributeError',
          'NotImplementedError', 'TimeoutError', 'KeyboardInterrupt']


def draw_script(r, zones, large):
    """What the peer says about each zone; the last entry is the default."""
    s = {}
    for n in zones + ['']:
        z = {'base': r.choice([0, 1, 1, 2, 3, 4])}
        if r.random() < 0.8:
            z['term'] = round(r.random(), 3)
        if r.random() < 0.85:
            z['peaks'] = [[r.choice(['first', 'last', 'start', 'until-1',
                                     'mid', 't', 't+1', 't+2', 't-1']),
                           round(r.random(), 3), r.randint(2, LIMIT)]
                          for _ in range(r.choice([1, 1, 2]))]
        s[n] = z
    if large:
        n = r.choice(zones + [''])
        s[n].setdefault('peaks', []).append(
            [r.choice(['first', 'last', 'mid', 't+2', 't+1']),
             round(r.random(), 3), r.choice([9, 9, 9, 10, 12, 40, 255])])
    return s


def draw_run(r, zones):
    run = {'script': draw_script(r, zones, r.random() < 0.35)}
    if r.random() < 0.4:
        run['ignore'] = True
    x = r.random()
    if x < 0.4:
        run['fail'] = [r.choice(METHODS), r.choice(
            [0, 0, 1, 2, 5, 20, 60, 150]), r.choice(ERRORS)]
        if r.random() < 0.7:
            run['fail'].append(r.choice(zones))
    elif x < 0.45:
        run['junk'] = [r.choice([0, 1, 7, 30]), r.choice(['none', 'text'])]
    return run


def gen(r, i, tier):
    langs = r.sample(LANGS, r.choice([1, 2, 2, 3]))
    if 'arduino' in langs and 'c' in langs:
        langs.remove(r.choice(['arduino', 'c']))
    acts = r.choice([['zonedb', 'json']] * 4 + [['zonedb', 'json',
                                                 'zonelist'], ['json']])
    sc = scene.gen_base(r, langs=langs, actions=acts, big=0.04, include=0.2)
    f = sc['flags']
    for k in ('skip', 'ignore_large', 'json'):
        f.pop(k, None)
    if r.random() < 0.35:       # values that are rounded on the way
        f['strict'] = False
        for k in ('until_at_granularity', 'offset_granularity',
                  'delta_granularity'):
            if r.random() < 0.6:
                f[k] = r.choice([900, 1800, 3600])
    zones = sorted({b['n'] for b in sc['blocks'] if b['k'] == 'zone'})
    sc['runs'] = []
    for _ in range(r.choice([2, 3, 4] if tier == 'quick' else [4, 6])):
        run = draw_run(r, zones)
        if r.random() < 0.2:
            run['before'] = [draw_run(r, zones)
                             for _ in range(r.choice([1, 2]))]
        sc['runs'].append(run)
    return sc


class Peer:
    """The answers of the scripted peer; one object for each run."""

    def __init__(self, run, f):
        self.run = run
        self.f = f
        self.said = {}          # zone -> {year: size}
        self.term = {}          # zone -> years asked about
        self.infos = {}
        self.calls = 0
        self.failed = None
        self.n = {}

    def plan(self, zone):
        s = self.run['script']
        z = s.get(zone) or s['']
        a, b = self.f['start'] - 1, self.f['until']
        t = None
        if 'term' in z:
            t = a - 3 + int(z['term'] * (min(b, a + 300) - a + 5))
        at = {'first': a, 'last': b, 'start': a + 1, 'until-1': b - 1}
        peaks = {}
        for where, x, n in z.get('peaks', ()):
            if where == 'mid':
                y = a + int(x * (b - a))
            elif where in at:
                y = at[where]
            elif t is None:
                continue
            else:
                y = t + int(where[1:] or 0)
            peaks[y] = max(n, peaks.get(y, 0))
        return z['base'], t, peaks

    def size(self, zone, year):
        base, t, peaks = self.plan(zone)
        if t is not None and year > t + 2:
            year = t + 2
        return peaks.get(year, base)

    def hit(self, zone, method):
        self.calls += 1
        fail = self.run.get('fail')
        if fail and fail[0] == method and (
                len(fail) < 4 or fail[3] == zone):
            n = self.n['f'] = self.n.get('f', 0) + 1
            if n - 1 == fail[1]:
                self.failed = '%s in %s' % (fail[2], method)
                import builtins
                raise getattr(builtins, fail[2])('simulated peer failure')


def stand_in(peer, zp):
    """The class put in the place of acetime's ZoneProcessor."""
    class ZoneProcessor:
        def __init__(self, zone_info, *a, **k):
            self.name = zone_info['name']
            peer.hit(self.name, 'init')
            peer.infos.setdefault(self.name, []).append(
                copy.deepcopy(zone_info))
            self.year = None

        def init_for_year(self, year):
            peer.hit(self.name, 'init_for_year')
            self.year = year

        def get_buffer_sizes(self):
            peer.hit(self.name, 'get_buffer_sizes')
            j = peer.run.get('junk')
            if j:
                n = peer.n['j'] = peer.n.get('j', 0) + 1
                if n - 1 == j[0]:
                    peer.failed = 'an answer that is none'
                    return None if j[1] == 'none' else zp.BufferSizeInfo(
                        'x', 'y')
            n = peer.size(self.name, self.year)
            peer.said.setdefault(self.name, {})[self.year] = n
            return zp.BufferSizeInfo(max(0, n - 1), n)

        def is_terminal_year(self, year):
            peer.hit(self.name, 'is_terminal_year')
            t = peer.plan(self.name)[1]
            return t is not None and year >= t
    return ZoneProcessor


def simulate(w, sc, run):
    """One process: the earlier runs of it, then the run to be judged."""
    f = sc['flags']
    state = {}

    def one(r, out):
        zp = core.load_repo()['zp']
        peer = Peer(r, f)
        tool = stand_in(peer, zp)
        # Named at import time, or looked up when used: both are reached.
        import sys
        zp.ZoneProcessor = tool
        for m in [m for n, m in list(sys.modules.items())
                  if n.startswith('acetimetools')]:
            if getattr(m, 'ZoneProcessor', None) is not None:
                m.ZoneProcessor = tool
        a = scene.args(dict(sc, flags=dict(
            f, **({'ignore_large': True} if r.get('ignore') else {}))), out)
        return core.run_main(a), peer

    def main():
        for b in run.get('before', ()):
            one(b, 'out0')
        out, peer = one(run, 'out')
        state.update(said=peer.said, infos=peer.infos, failed=peer.failed,
                     calls=peer.calls)
        return out
    return core.compile_run(w, [], main=main, inspect=lambda: state)


def execute(sc):
    res = Result()
    w = core.World()
    f = sc['flags']
    try:
        scene.setup(w, sc)
        scene.setup(w, dict(sc, blocks=[], include=None), 'none', 'out0')
        plain = scene.run(w, dict(sc, flags=dict(f, ignore_large=True)))
        res.run(plain)
        sound = plain.get('exit') == 0
        for n, run in enumerate(sc['runs']):
            old = w.snap('out', meta=True)
            o = simulate(w, sc, run)
            res.run(o)
            st = o.get('inspect') or {}
            failed = st.get('failed')
            if failed:
                k = 'peer: ' + failed
                res.fired[k] = res.fired.get(k, 0) + 1
            try:
                big = judge(res, w, sc, run, o, st, sound, old)
            except decode.Bad as e:
                res.violation('bad', 'run %d ended with status 0, but %s' % (
                    n + 1, ' '.join(str(x) for x in e.args)))
                big = None
            if big:
                res.fired['peer: size above the limit'] = res.fired.get(
                    'peer: size above the limit', 0) + 1
            res.mix(sorted((st.get('said') or {}).items()))
            res.saw(f['scope'], sorted(f['langs']), bool(run.get('ignore')),
                    bool(big), failed, o.get('exit'), o.get('exc'),
                    bool(run.get('before')), (big or 0) > 12)
            if res.viol:
                return res
    finally:
        w.close()
    return res


def judge(res, w, sc, run, o, st, sound, old):
    f = sc['flags']
    ok = o.get('exit') == 0
    said = st.get('said') or {}
    top = max([n for y in said.values() for n in y.values()], default=0)
    big = top if top > LIMIT else None
    what = st.get('failed')
    if o.get('died') or o.get('crashed'):
        res.violation('hang', 'the run %s' % scene.tell(o))
        return big
    if not ok:
        res.count('runs_refused')
        now = w.snap('out', meta=True)
        for k in sorted(set(old) | set(now)):
            if old.get(k) != now.get(k):
                res.violation('wrote', 'the run failed (%s; peer: %s, largest '
                              'size %d) but %s was written' % (
                                  scene.tell(o), what or 'no failure', top, k))
                return big
        if sound and not what and not (big and not run.get('ignore')):
            res.violation('refused', 'the peer neither failed nor reported '
                          'too large a size (largest %d, override %s), but '
                          'the run was refused: %s' % (
                              top, bool(run.get('ignore')), scene.tell(o)))
        return big
    res.count('databases_compared')
    if what:
        res.violation('slipped', 'status 0 though the peer failed: %s' % what)
        return big
    if big and not run.get('ignore'):
        res.violation('oversize', 'status 0 though the peer reported %d and '
                      'the override was not given' % big)
        return big
    out = scene.files(w.snap('out'))
    base = decode.decode_json(out['zonedb.json'])
    raw = base['raw']
    zones = base['zones']
    need = decode.need
    for z in zones:
        need(said.get(z), 'zone', z, 'is emitted but the peer was not asked')
        need(len(zones[z]['eras']) and st['infos'].get(z), 'zone', z,
             'was handed over without data')
        for info in st['infos'][z]:
            need(canon(info) == emitted(base, z), 'the peer was asked about',
                 z, 'with data that is not what is emitted:',
                 decode._first_diff(canon(info), emitted(base, z)))
        t = Peer(run, f).plan(z)[1]
        last = f['until'] if t is None else min(f['until'], t + 2)
        lost = [y for y in range(f['start'] - 1, last + 1)
                if y not in said[z]]
        need(not lost, 'the peer was not asked about', z, 'in', lost[:5])
    want = {z: max(said[z].values()) for z in zones}
    need(base['bufs'] == want, 'JSON: sizes differ from what the peer said:',
         decode._first_diff(want, base['bufs']), 'said / written',
         sorted(set(want) ^ set(base['bufs']))[:3])
    for z, (n, y) in raw['buf_sizes'].items():
        need(not n or said[z].get(y) == n, 'JSON: the peer did not say', n,
             'for', z, 'in', y)
    most = max(want.values())
    need(raw['max_buf_size'] == most, 'JSON: the maximum is',
         raw['max_buf_size'], 'not', most)
    if 'zonedb' in f['actions']:
        for lang in f['langs']:
            c = decode.decode(lang, out, f['scope'], f['ns'])
            if 'bufs' in c:
                need(c['bufs'] == want, lang, 'sizes differ from what the '
                     'peer said:', decode._first_diff(want, c['bufs']),
                     'said / written')
            if 'maxbuf' in c['ctx']:
                need(c['ctx']['maxbuf'] == most, lang, 'the maximum is',
                     c['ctx']['maxbuf'], 'not', most)
    return big


def canon(info):
    """The eras, with the rules they use, in the form of the decoders."""
    out = []
    for e in info['eras']:
        p = e['zone_policy']
        out.append((
            e['offset_seconds'], e['era_delta_seconds'],
            decode.short_format(e['format']), e['until_year'],
            e['until_month'], e['until_day'], e['until_seconds'],
            e['until_time_suffix'], p and decode.norm(p['name']),
            p and [(r['from_year'], r['to_year'], r['in_month'],
                    r['on_day_of_week'], r['on_day_of_month'],
                    r['at_seconds'], r['at_time_suffix'], r['delta_seconds'],
                    r['letter']) for r in p['rules']]))
    return out


def emitted(base, z):
    return [(e[0], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[1],
             e[1] and base['policies'][e[1]]) for e in base['zones'][z]['eras']]


def simplify(sc):
    rs = sc['runs']
    for n in range(len(rs)):
        if len(rs) > 1:
            yield dict(sc, runs=rs[:n] + rs[n + 1:])
    for n, x in enumerate(rs):
        for k in ('before', 'fail', 'junk', 'ignore'):
            if k in x:
                y = dict(x)
                del y[k]
                yield dict(sc, runs=rs[:n] + [y] + rs[n + 1:])
        for z in x['script']:
            if z and len(x['script']) > 1:
                y = dict(x, script={a: b for a, b in x['script'].items()
                                    if a != z})
                yield dict(sc, runs=rs[:n] + [y] + rs[n + 1:])
