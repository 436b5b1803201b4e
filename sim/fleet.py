"""Simulated devices that carry generated databases, and their clocks.

A device holds the decoded database of one language.  The simulator owns the
clocks: a leg of a device's life is a jump to some instant (a clock that was
set wrongly, a synchronisation, a long time in a drawer), possibly a reboot,
and some years of running on.  While running, time advances from one event to
the next: an event is a change of any zone, as the source or as the database
has it.
"""
import re

from sim import tzgen, ztime
from sim.decode import norm

LO, HI = 1790, 2262


class Truth:
    """What the source lines say, at the resolution that was asked for."""

    def __init__(self, m, grain, strict, a, b):
        self.m, self.grain, self.strict = m, grain, strict
        self.a, self.b = a, b
        self.lo, self.hi = ztime.year_of(a), ztime.year_of(b)
        self.rules, self.exact, self.bad = {}, {}, {}
        self._clock, self._exact = {}, {}

    def _policy(self, p):
        if p in self.exact or p in self.bad:
            return
        out = []
        for r in self.m.policies.get(p, ()):
            try:
                out.append(ztime.source_rule(r))
            except ztime.Unreadable as e:
                if r['to_year'] >= self.lo and r['from_year'] < self.hi:
                    self.bad[p] = 'rule set %s: %s' % (p, e)
                    return
        self.exact[p] = ztime.Rules(out, LO, HI)
        self.rules[p] = self.exact[p] if self.strict else ztime.Rules(
            [ztime.coarse_rule(r, self.grain) for r in out], LO, HI,
            self.exact[p].letter)

    def policies_of(self, zone):
        return sorted({e['rules'] for e in self.m.zones.get(zone, ())
                       if not re.match(r'-$|-?[0-9]', e['rules'])})

    def unreadable(self, zone):
        """Why nobody can say what time it is there, or None."""
        if zone not in self.m.zones:
            return 'there is no such zone'
        if zone in self._clock:
            return None
        eras = []
        begin = -10 ** 9
        for e in self.m.zones[zone]:
            seen = e['until_year'] >= self.lo and begin < self.hi
            begin = e['until_year']
            if not seen:
                # must not matter, but keeps the order
                try:
                    eras.append(ztime.source_era(e))
                except (ztime.Unreadable, ValueError):
                    pass
                continue
            try:
                x = ztime.source_era(e)
            except ztime.Unreadable as err:
                return 'era until %s: %s' % (e['until_year'], err)
            if x[1] is not None:
                if x[1] not in self.m.policies:
                    return 'no rule set ' + x[1]
            eras.append(x)
        use = {}
        for x in eras:
            if x[1] is None:
                continue
            self._policy(x[1])
            if x[1] in self.bad:
                return self.bad[x[1]]
            use[x[1]] = True
        if not eras:
            return 'no eras'
        self._exact[zone] = ztime.Clock(eras, self.exact, LO, HI)
        if self.strict:
            self._clock[zone] = self._exact[zone]
        else:
            self._clock[zone] = ztime.Clock(
                [ztime.coarse_era(x, self.grain) for x in eras], self.rules,
                LO, HI)
        return None

    def clock(self, zone):
        return self._clock[zone]

    def cut(self, zone):
        """Fields of the zone, as written, that the resolution changes."""
        g = self.grain
        begin = -10 ** 9
        for f in self.m.zones[zone]:
            until = f['until_year']
            if begin < self.hi and until > self.lo:
                x = ztime.source_era(f)
                y = ztime.coarse_era(x, g)
                if x[0] != y[0]:
                    yield f['offset_string']
                if x[2] != y[2]:
                    yield f['rules']
                if x[7] != y[7] and until < self.hi:
                    yield f['until_time']
                for r in self.m.policies[x[1]] if x[1] else ():
                    if r['from_year'] >= self.hi or r['to_year'] < self.lo:
                        continue
                    u = ztime.source_rule(r)
                    v = ztime.coarse_rule(u, g)
                    if u[5] != v[5]:
                        yield r['at_time']
                    if u[7] != v[7]:
                        yield r['delta_offset']
            begin = until


def plain_rule(r, grain):
    """Certainly representable in every scope but basic."""
    frm, to, month, dow, dom, at, suf, save, letter = r
    if month == 1 and dom < 0 or month == 12 and dow and dom > 24:
        return False
    if dom > 28 and month in (2, 4, 6, 9, 11) or dom < 0 and month == 3:
        return False
    return 0 <= at <= 90000 and at % grain[0] == 0 and \
        -3600 <= save <= 7200 and save % grain[2] == 0


def plain_era(x, f, grain, last):
    """f: as written; x: canonical."""
    if not f['until_day_string'].isdigit() and \
            f['until_month'] in (1, 2, 3, 12):
        return False
    if int(re.sub('[^0-9]', '', f['until_day_string']) or 1) > 28:
        return False
    if f['until_time_suffix'] not in ('', 'w', 's', 'u'):
        return False
    if re.match('[0-9]|-.', f['rules']) and (':' not in f['rules']
                                             or x[2] == 0):
        return False
    if '%' in f['format'] and (x[1] is None and f['format'] != '%z' or
                               f['format'].replace('%s', '', 1).count('%')
                               and f['format'] != '%z'):
        return False
    return 0 <= x[7] <= 90000 and x[7] % grain[0] == 0 and \
        abs(x[0]) <= 14 * 3600 and x[0] % grain[1] == 0 and \
        -3600 <= x[2] <= 7200 and x[2] % grain[2] == 0 and \
        (x[4] == ztime.MAX_UNTIL) == last


def plain(m, zone, scope, grain, until):
    """Is a zone of the source certainly one that the scope can hold?"""
    fs = m.zones[zone]
    prev = None
    try:
        for k, f in enumerate(fs):
            x = ztime.source_era(f)
            if not plain_era(x, f, grain, k == len(fs) - 1):
                return False
            if prev is not None and x[4:8] <= prev:
                return False
            prev = x[4:8]
            if scope == 'basic' and (
                    x[2] or x[5:8] != (1, 1, 0) or x[8] != 'w' or
                    not f['until_year_only'] and x[4] != ztime.MAX_UNTIL):
                return False
            if x[1] is None:
                continue
            if x[1] not in m.policies:
                return False
            seen = set()
            new = True
            for g in m.policies[x[1]]:
                if '-' in (g['at_time'], g['delta_offset']):
                    return False
                r = ztime.source_rule(g)
                if not plain_rule(r, grain):
                    return False
                new = new and r[0] > until
                if scope == 'basic':
                    # one change a month, none on the first day of a year
                    if r[2] == 1 and r[4] == 1:
                        return False
                    ys = {(y, r[2]) for y in range(r[0], min(r[1], 2300) + 1)}
                    if seen & ys:
                        return False
                    seen |= ys
            if new:
                return False
    except (ztime.Unreadable, ValueError):
        return False
    return True


class Database:
    def __init__(self, canon):
        self.zones = canon['zones']
        self.links = canon['links']
        self.pol = canon['policies']
        self._rules, self._clock = {}, {}

    def clock(self, zone):
        c = self._clock.get(zone)
        if c is None:
            eras = self.zones[zone]['eras']
            for e in eras:
                if e[1] is not None and e[1] not in self._rules:
                    self._rules[e[1]] = ztime.Rules(self.pol[e[1]], LO, HI)
            c = self._clock[zone] = ztime.Clock(eras, self._rules, LO, HI)
        return c


def show(st):
    return 'UTC%+d s (of which %d s daylight saving) %r' % st


def same(want, got):
    return want[:2] == got[:2] and (want[2] is None or want[2] == got[2])


class Fleet:
    def __init__(self, names, truth, canons, langs, a, b, r):
        self.names, self.truth, self.canons = names, truth, canons
        self.langs = langs
        self.a, self.b, self.r = a, b, r
        self.stops = self.readings = self.passed = self.elapsed = 0
        self.did = {}
        self.cut = None         # a reading the recorded finding explains
        self.dbs = [Database(c) for c in canons]

    def _fired(self, k):
        self.did[k] = self.did.get(k, 0) + 1

    def read(self, dev, t, names=None):
        """Every zone of a device at an instant; None or what is wrong."""
        self.stops += 1
        db = self.dbs[dev]
        for n in names or self.names:
            self.readings += 1
            want = self.truth.clock(n).at(t)
            got = db.clock(n).at(t)
            if not same(want, got):
                if self.too_old(dev, n, t):
                    self.cut = self.cut or (n, stamp(t), show(want),
                                            show(got))
                    continue
                return 'zone %s at %s UTC: the source says %s, a device ' \
                    'with the %s database shows %s' % (
                        n, stamp(t), show(want), self.langs[dev], show(got))
        return None

    def too_old(self, dev, n, t):
        """The recorded finding: no rule of a year that fits one byte has
        taken effect yet at `t`, and several others were cut to one year."""
        base = self.canons[dev].get('tiny')
        if not base:
            return False
        first = ztime.days(base - 126, 1, 1) * 86400
        t -= 86400      # the instant of the next change depends on the state
        began = self.truth.clock(n).since(t)
        db = self.dbs[dev]
        db.clock(n)
        for e in db.zones[n]['eras']:
            if e[1] is None or sum(r[1] <= ztime.MIN_YEAR
                                   for r in db.pol[e[1]]) < 2:
                continue
            if began < first or not any(
                    ztime.DAWN < o[0] <= t for o in db._rules[e[1]].occ):
                return True
        return False

    def walk(self, legs):
        events = {}
        for n in self.names:
            for c in [self.truth.clock(n)] + [d.clock(n) for d in self.dbs]:
                for t in c.changes(self.a - 200000, self.b + 200000):
                    events.setdefault(t, set()).add(n)
        order = sorted(events)
        for leg in legs:
            dev = leg['dev'] % len(self.dbs)
            if leg.get('reboot'):
                self._fired('reboot')
                self.dbs[dev] = Database(self.canons[dev])
            t = min(self.b - 1, max(self.a, self.a + int(
                (self.b - self.a) * leg['to'])))
            self._fired('clock_jump')
            bad = self.read(dev, t)
            if bad:
                return bad
            if leg['run']:
                end = min(self.b, t + leg['run'] * 31556952)
                self.elapsed += end - t
                for x in order:
                    if x < t or x >= end:
                        continue
                    self.passed += 1
                    for u in (x - 1, x, x + 1):
                        if self.a <= u < self.b:
                            bad = self.read(dev, u, sorted(events[x]))
                            if bad:
                                return bad
            for _ in range(leg.get('random', 0)):
                bad = self.read(dev, self.r.randrange(self.a, self.b))
                if bad:
                    return bad
        return None


def stamp(t):
    y = ztime.year_of(t)
    n = t // 86400 - ztime.days(y, 1, 1)
    m = 1
    while n >= ztime.month_days(y, m):
        n -= ztime.month_days(y, m)
        m += 1
    return '%04d-%02d-%02d %02d:%02d:%02d' % (
        y, m, n + 1, t % 86400 // 3600, t % 3600 // 60, t % 60)


def legs(r, start, until, ndev):
    """Lives of the devices."""
    out = []
    for d in range(ndev):
        out.append({'dev': d, 'to': 0.0, 'run': 500, 'random': 3,
                    'reboot': False})
    for _ in range(r.choice([1, 2, 4])):
        out.append({'dev': r.randrange(ndev), 'to': round(r.random(), 4),
                    'run': r.choice([0, 0, 1, 10]),
                    'random': r.choice([0, 1, 4]),
                    'reboot': r.random() < 0.3})
    r.shuffle(out)
    return out


ONS = ['lastSun', 'lastMon', 'Sun>=1', 'Sat>=8', 'Fri>=23', 'Thu>=25',
       'Sun>=29', 'Mon>=30', 'Sun<=7', 'Sat<=14', 'Fri<=1', 'Wed<=31',
       'Sun<=25', '1', '28', '29', '30', '31', '15', 'Tue<=4']
ATS = ['0', '0:00', '2:00', '2:00s', '1:00u', '24:00', '23:59', '0:01',
       '25:00', '2:45s', '12:34', '2:00:01', '23:59:59u', '3:00w', '1:30u',
       '0:00:30', '-', '2:30:30s']
SAVES = ['0', '1:00', '1:00', '0:30', '2:00', '0:20', '0:40', '-1:00',
         '1:30', '2:45', '0:00', '0:14', '0:45', '3', '-']
OFFS = ['0', '1:00', '-8:00', '5:45', '-3:30', '14', '-12:00', '5:53:28',
        '-0:01:15', '9:15', '-10:31', '0:14', '-0:44', '-0:00:01', '7:07:12']
UNTILS = ['%d', '%d Jan', '%d Dec 31 24:00', '%d Mar lastSun 2:00s',
          '%d Oct Sun>=8 1:00u', '%d Jan 1', '%d Feb 29', '%d Apr Fri<=7',
          '%d Jul 1 0:00:30', '%d Dec Sun>=25 12:00', '%d Nov 30 23:00s',
          '%d May 31 23:59', '%d Feb lastTue', '%d Feb lastSun 2:00',
          '%d Mar Fri<=1', '%d Mar Tue<=6 1:00', '%d Feb Sat>=23',
          '%d Aug Mon>=29', '%d Sep 1 0:00s']


def real(line):
    return line.split('#')[0].split()


def twist(r, blocks, n, scope):
    """Put unusual but legal values into some lines."""
    rules = [(b, k) for b in blocks if b['k'] == 'policy'
             for k in range(len(b['l'])) if real(b['l'][k])]
    eras = [(b, k) for b in blocks if b['k'] == 'zone'
            for k in range(len(b['l'])) if real(b['l'][k])]
    for _ in range(n):
        if rules and r.random() < 0.6:
            b, k = r.choice(rules)
            t = b['l'][k].split('#')[0].split()
            if len(t) != 10:
                continue
            x = r.randrange(7)
            if x == 0:
                t[6] = r.choice(ONS)
                if t[6] in ('29', '30', '31') or '<=31' in t[6]:
                    t[5] = r.choice(['Jan', 'Mar', 'Oct', 'Aug'])
            elif x == 1:
                t[7] = r.choice(ATS)
            elif x == 2:
                t[8] = r.choice(SAVES)
            elif x == 3:
                t[5] = r.choice(tzgen.MONTHS)
                if t[6] in ('29', '30', '31'):
                    t[6] = '28'
            elif x == 4:
                t[9] = r.choice(['-', 'S', 'D', 'DT', 'ST', 'X', 'GMT'])
            elif x == 5:
                t[2] = str(r.randint(1960, 2050))
                t[3] = r.choice(['only', 'max', str(int(t[2]) +
                                                    r.randint(1, 9))])
            else:
                b['l'][k] = '\t'.join(t)
                # one of a pair is lost: a rule set may end in summer time
                if len(b['l']) > 1:
                    del b['l'][k]
                    rules = [(c, j) for c, j in rules if c is not b] + [
                        (b, j) for j in range(len(b['l']))
                        if real(b['l'][j])]
                continue
            b['l'][k] = '\t'.join(t)
        elif eras:
            b, k = r.choice(eras)
            t = b['l'][k].split('#')[0].split()
            o = 2 if t[0] == 'Zone' else 0
            x = r.randrange(4)
            if x == 3 and k == len(b['l']) - 1 and len(t) == o + 3:
                # one more era, before the last
                y = r.choice([1999, 2000, 2000, 2004, 2100,
                              r.randint(1975, 2060)])
                was = b['l'][k - 1].split('#')[0].split() if k else []
                if k and (len(was) < o + 4 or not was[
                        3 if was[0] != 'Zone' else 5].isdigit() or int(
                            was[3 if was[0] != 'Zone' else 5]) >= y):
                    continue
                b['l'][k] = '\t'.join(
                    (t[:2] if o else ['\t\t']) + [r.choice(OFFS[:6])] +
                    ['-', 'OLD'] + (r.choice(UNTILS) % y).split())
                b['l'].append('\t\t\t' + '\t'.join(t[o:]))
                eras.append((b, k + 1))
                continue
            if x == 0:
                t[o] = r.choice(OFFS)
            elif x == 1 and len(t) > o + 3:
                t[o + 3:] = (r.choice(UNTILS) % (
                    int(t[o + 3]) // 4 * 4 if r.random() < 0.8 else
                    r.choice([1900, 2000, 2100]))).split()
            elif x == 2 and scope != 'basic':
                t[o + 1] = r.choice(['1:00', '0:30', '-1:00', '2:00', '0:20',
                                     '0:45', '-'])
                if '%s' in t[o + 2]:
                    t[o + 2] = 'ABC'
            b['l'][k] = ('' if o else '\t\t\t') + '\t'.join(t)
