"""Local time from eras and rules, as zic(8) and tz-how-to describe it.

One evaluator serves both the reference (eras and rules read from the source
lines by `sim.model`) and the simulated device (eras and rules decoded from a
generated database): only the data differ.

    era  = (offset s, policy or None, fixed save s, short format, until year,
            month, day, seconds, suffix)
    rule = (from, to, month, dow, dom, at s, suffix, save s, letter)
"""
import bisect
import re

MIN_YEAR, MAX_TO, MAX_UNTIL = -32767, 32766, 32767
DAY = 86400
NEVER, DAWN, EVER = -10 ** 14, -10 ** 13, 10 ** 14
CLOCK = re.compile(r'(-?)([0-9]{1,3})(?::([0-9]{1,2}))?(?::([0-9]{1,2}))?$')
DOW = {'Mon': 1, 'Tue': 2, 'Wed': 3, 'Thu': 4, 'Fri': 5, 'Sat': 6, 'Sun': 7}
ON = re.compile(r'(?:(last)([A-Z][a-z]{2})|([A-Z][a-z]{2})([<>]=)([0-9]{1,2})'
                r'|([0-9]{1,2}))$')
LENGTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


class Unreadable(Exception):
    """A value that has no meaning."""


def days(y, m, d):
    """Days from 1970-01-01 to the proleptic Gregorian date."""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def year_of(t):
    z = t // DAY + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    return yoe + era * 400 + (doy >= 306)


def month_days(y, m):
    return LENGTH[m - 1] + (m == 2 and (y % 4 == 0 and y % 100 != 0
                                        or y % 400 == 0))


def on_day(y, m, dow, dom):
    """Day number of a rule's ON in the given year."""
    if dow == 0:
        return days(y, m, dom)
    if dom == 0:
        dom = month_days(y, m) - 6
    if dom > 0:
        d = days(y, m, dom)
        return d + (dow - ((d + 3) % 7 + 1)) % 7
    d = days(y, m, -dom)
    return d - (((d + 3) % 7 + 1) - dow) % 7


def seconds(s):
    """A time as written in the source."""
    if s == '-':
        return 0
    m = CLOCK.match(s)
    if not m or int(m[3] or 0) > 59 or int(m[4] or 0) > 59:
        raise Unreadable('time ' + repr(s))
    v = int(m[2]) * 3600 + int(m[3] or 0) * 60 + int(m[4] or 0)
    return -v if m[1] else v


def on_field(s):
    """(day of week, day of month) in the canonical encoding."""
    m = ON.match(s)
    if not m or (m[2] or m[3] or 'Mon') not in DOW:
        raise Unreadable('day ' + repr(s))
    if m[1]:
        return DOW[m[2]], 0
    n = int(m[5] or m[6])
    if not 1 <= n <= 31:
        raise Unreadable('day ' + repr(s))
    if m[6]:
        return 0, n
    return DOW[m[3]], n if m[4] == '>=' else -n


def toward_zero(v, step):
    return -(-v // step * step) if v < 0 else v // step * step


def source_rule(f):
    """A rule of `model.Model` in canonical form, exact."""
    dow, dom = on_field(f['on_day'])
    if f['at_time_suffix'] not in ('', 'w', 's', 'u', 'g', 'z'):
        raise Unreadable('suffix')
    suf = {'': 'w', 'g': 'u', 'z': 'u'}.get(f['at_time_suffix'],
                                            f['at_time_suffix'])
    return (f['from_year'], f['to_year'], f['in_month'], dow, dom,
            seconds(f['at_time']), suf, seconds(f['delta_offset']),
            '' if f['letter'] == '-' else f['letter'])


def source_era(f):
    """An era of `model.Model` in canonical form, exact."""
    if f['rules'] == '-':
        pol, fixed = None, 0
    elif re.match(r'-?[0-9]', f['rules']):
        pol, fixed = None, seconds(f['rules'])
    else:
        pol, fixed = f['rules'], 0
    y, m = f['until_year'], f['until_month']
    dow, dom = on_field(f['until_day_string'])
    if y == MAX_UNTIL:
        d = 1
    else:
        n = on_day(y, m, dow, dom) - days(y, m, 1) + 1
        if n > month_days(y, m):
            n -= month_days(y, m)
            m += 1
            if m > 12:
                y, m = y + 1, 1
        elif n < 1:
            m -= 1
            if m < 1:
                y, m = y - 1, 12
            n += month_days(y, m)
        d = n
    suf = f['until_time_suffix']
    suf = {'': 'w', 'g': 'u', 'z': 'u'}.get(suf, suf)
    return (seconds(f['offset_string']), pol, fixed,
            f['format'].replace('%z', '').replace('%s', '%'), y, m, d,
            seconds(f['until_time']), suf)


def coarse_rule(r, gran):
    return r[:5] + (toward_zero(r[5], gran[0]), r[6],
                    toward_zero(r[7], gran[2]), r[8])


def coarse_era(e, gran):
    return (toward_zero(e[0], gran[1]), e[1], toward_zero(e[2], gran[2])) \
        + e[3:7] + (toward_zero(e[7], gran[0]), e[8])


class Rules:
    """The occurrences of one rule set, in order."""

    def __init__(self, rules, lo, hi, letter=None):
        occ = []
        std = None
        for r in rules:
            frm, to, month, dow, dom, at, suf, save, let = r
            # years too old to be told apart: by month and day
            old = NEVER + (on_day(1, month, dow, dom) - days(1, 1, 1)) * DAY \
                + at
            if to <= MIN_YEAR:
                occ.append((old, suf, save, let))
            if save == 0:
                k = (old - at if frm <= MIN_YEAR else
                     on_day(frm, month, dow, dom) * DAY, let)
                if std and std[0] == k[0] and std[1] != let:
                    k = (k[0], None)        # two on one day
                elif std and std[0] <= k[0]:
                    k = std
                std = k
            if to <= MIN_YEAR:
                continue
            for y in range(max(frm, lo), min(to, hi) + 1):
                occ.append((on_day(y, month, dow, dom) * DAY + at, suf, save,
                            let))
            if to < lo:     # what it left behind
                occ.append((on_day(to, month, dow, dom) * DAY + at, suf,
                            save, let))
        occ.sort()
        self.occ = occ
        # of standard time before the first rule; known better by the caller
        # if the rules have been rounded
        self.letter = letter if letter is not None else \
            std[1] if std else None


def name(fmt, off, save, letter):
    if fmt == '':
        v = abs(off)
        s = '%02d' % (v // 3600)
        if v % 3600:
            s += '%02d' % (v // 60 % 60)
        if v % 60:
            s += '%02d' % (v % 60)
        return ('-' if off < 0 else '+') + s
    if '/' in fmt:
        a, b = fmt.split('/', 1)
        return b if save else a
    if '%' in fmt and letter is None:
        return None             # the source does not say
    return fmt.replace('%', letter or '')


class Clock:
    """What the clocks of one zone show: states and when they begin."""

    def __init__(self, eras, policies, lo, hi):
        self.t, self.s = [], []
        start, save = NEVER, 0
        cache = {}
        for e in eras:
            off, pol, fixed, fmt, uy, um, ud, us, suf = e
            until = EVER if uy >= MAX_UNTIL else days(uy, um, ud) * DAY + us

            def end(sv):
                return until if until == EVER or suf == 'u' else \
                    until - off - (sv if suf == 'w' else 0)
            if pol is None:
                self._add(start, off + fixed, fixed, fmt, '')
                save = fixed
            else:
                if pol not in cache:
                    cache[pol] = policies[pol] \
                        if isinstance(policies[pol], Rules) \
                        else Rules(policies[pol], lo, hi)
                rl = cache[pol]
                save, letter, began = 0, rl.letter, False
                for local, rs, rsave, rletter in rl.occ:
                    t = local if rs == 'u' or local < DAWN else \
                        local - off - (save if rs == 'w' else 0)
                    if t >= end(save):
                        break
                    if t <= start or local < DAWN:
                        save, letter = rsave, rletter
                        continue
                    if not began:
                        self._add(start, off + save, save, fmt, letter)
                        began = True
                    save, letter = rsave, rletter
                    self._add(t, off + save, save, fmt, letter)
                if not began:
                    self._add(start, off + save, save, fmt, letter)
            start = max(end(save), start)
            if start >= EVER:
                break
        self._settle()

    def _settle(self):
        """Two changes that would show the same wall clock are one, as in
        zic's writezone."""
        t, s = self.t, self.s
        nt, ns = t[:1], s[:1]
        for i in range(1, len(t)):
            if len(nt) > 1 and t[i] + ns[-1][0] <= nt[-1] + ns[-2][0]:
                ns[-1] = s[i]
            else:
                nt.append(t[i])
                ns.append(s[i])
        self.t, self.s = nt, ns

    def _add(self, t, off, save, fmt, letter):
        st = (off, save, name(fmt, off, save, letter))
        if self.t and t <= self.t[-1]:
            t = self.t[-1]
            self.t.pop()
            self.s.pop()
        self.t.append(t)
        self.s.append(st)

    def at(self, t):
        return self.s[bisect.bisect_right(self.t, t) - 1]

    def since(self, t):
        """When the state at `t` began."""
        return self.t[bisect.bisect_right(self.t, t) - 1]

    def changes(self, a, b):
        i = bisect.bisect_left(self.t, a)
        j = bisect.bisect_left(self.t, b)
        return self.t[i:j]


def span(start_year, until_year, floor=1800, ceil=2250):
    """Seconds of the years [start, until), bounded for simulation."""
    return (days(max(start_year, floor), 1, 1) * DAY,
            days(min(until_year, ceil), 1, 1) * DAY)
