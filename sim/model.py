"""A small reference reader of TZ source lines, written from the format's
description (zic(8), and the header of extractor.py), not from the code.

Every line is put into one of
    None        blank or comment only
    ('rule', name, fields) / ('link', name, target) / ('zone', name, fields)
    ('cont', fields)        continuation of the zone above
    ('bad', why)            certainly not readable
    ('grey', why)           readers may differ; nothing is demanded
"""
import re

from sim import tzgen

MONTHS = [m.lower() for m in (
    'January', 'February', 'March', 'April', 'May', 'June', 'July',
    'August', 'September', 'October', 'November', 'December')]
YEAR = re.compile(r'[0-9]{1,4}$')
CLOCK = re.compile(r'-?[0-9]{1,2}(:[0-9]{2}){0,2}$')
PORTABLE = re.compile(r'[A-Za-z0-9 \t%+./:<=>_-]*$')
MAX_YEAR = 32767
KEYWORDS = ('Rule', 'Zone', 'Link')


def lines_of(data):
    """The lines of a file, however they are ended.  None: not UTF-8."""
    try:
        t = data.decode('utf-8')
    except UnicodeDecodeError:
        return None
    return t.replace('\r\n', '\n').replace('\r', '\n').split('\n')


def month(s):
    """1..12, 'grey' or None (unknown)."""
    low = s.lower()
    if low[:3] not in [m[:3] for m in MONTHS]:
        # zic also accepts shorter unambiguous prefixes
        return 'grey' if low and any(m.startswith(low) for m in MONTHS) \
            else None
    n = [m[:3] for m in MONTHS].index(low[:3]) + 1
    return n if MONTHS[n - 1].startswith(low) else 'grey'


def year(s):
    if YEAR.match(s) and int(s):
        return int(s)
    try:
        int(s)
        return 'grey'
    except ValueError:
        return None


def clock(s):
    """(text, suffix), 'grey' or None for an AT or UNTIL time."""
    if s[-1:].isdigit():
        t, suf = s, ''
    else:
        t, suf = s[:-1], s[-1:]
        if suf not in 'wsugz':
            return None
    return (t, suf)


def read_rule(t):
    if len(t) < 10:
        return ('bad', 'too few fields')
    if len(t) > 10:
        return ('bad', 'too many fields')
    frm = year(t[2])
    to = frm if t[3] == 'only' else (
        MAX_YEAR - 1 if t[3] == 'max' else year(t[3]))
    mon = month(t[5])
    at = clock(t[7])
    if None in (frm, to, mon, at):
        return ('grey' if t[2].lower()[:2] == 'mi' or
                t[3].lower()[:1] in ('o', 'm') else 'bad', 'year, month or AT')
    if 'grey' in (frm, to, mon, at) or frm > to:
        return ('grey', 'year, month or AT')
    return ('rule', t[1], {
        'from_year': frm, 'to_year': to, 'in_month': mon, 'on_day': t[6],
        'at_time': at[0], 'at_time_suffix': at[1], 'delta_offset': t[8],
        'letter': t[9]})


def read_era(t):
    if len(t) < 3:
        return None, ('bad', 'too few fields')
    if len(t) > 7:
        return None, ('bad', 'too many fields')
    e = {'offset_string': t[0], 'rules': t[1], 'format': t[2],
         'until_year': MAX_YEAR, 'until_year_only': len(t) < 5,
         'until_month': 1, 'until_day_string': '1', 'until_time': '00:00',
         'until_time_suffix': 'w'}
    if len(t) > 3:
        e['until_year'] = year(t[3])
    if len(t) > 4:
        e['until_month'] = month(t[4])
    if len(t) > 5:
        e['until_day_string'] = t[5]
    if len(t) > 6:
        c = clock(t[6])
        if c is None:
            return None, ('bad', 'UNTIL time')
        e['until_time'], e['until_time_suffix'] = c
    if None in (e['until_year'], e['until_month']):
        return None, ('bad', 'UNTIL')
    if 'grey' in (e['until_year'], e['until_month']):
        return None, ('grey', 'UNTIL')
    return e, None


def classify(line, in_zone):
    """One line, given whether a zone is open above it."""
    s = line.split('#', 1)[0].rstrip()
    if not s:
        return None
    t = s.split()
    if any(c in s for c in '\x0b\x0c\x1c\x1d\x1e\x1f\x85\u2028\u2029\xa0') \
            or any(c.isspace() and c not in ' \t' for c in s) or '"' in s:
        return ('grey', 'odd white space or quoting')
    if not PORTABLE.match(s):
        return ('grey', 'unusual character')
    if s[0] == '\t':
        if not in_zone:
            return ('bad', 'continuation without a zone')
        e, err = read_era(t)
        return err or ('cont', e)
    if s[0] == ' ':
        return ('grey' if t[0] in KEYWORDS or in_zone else 'bad',
                'leading space')
    if t[0] == 'Rule':
        if len(t) < 2:
            return ('bad', 'no name')
        return read_rule(t)
    if t[0] == 'Link':
        if len(t) != 3:
            return ('bad', 'fields of a link')
        return ('link', t[2], t[1])
    if t[0] == 'Zone':
        if len(t) < 2:
            return ('bad', 'no name')
        e, err = read_era(t[2:])
        return err or ('zone', t[1], e)
    if t[0][:4] in KEYWORDS or t[0].lower() in ('rule', 'zone', 'link') or \
            (t[0] and t[0][0] in 'rRzZlL' and any(
                k.lower().startswith(t[0].lower()) for k in KEYWORDS)):
        return ('grey' if t[0][:4] not in KEYWORDS else 'bad', 'keyword')
    return ('bad', 'unknown line')


class Model:
    """What a reader must find in {file: bytes}."""

    def __init__(self, files):
        self.policies = {}      # name -> [fields]
        self.zones = {}         # name -> [fields]
        self.links = {}         # name -> [targets]
        self.bad = []           # (file, line text, why)
        self.grey = []
        self.soiled = set()     # ('p'|'z'|'l', name) the model is unsure of
        self.fatal = None       # a file that cannot be decoded
        self.records = 0
        for f in tzgen.FILES:
            ls = lines_of(files[f])
            if ls is None:
                self.fatal = f
                return
            self._file(f, ls)

    def _file(self, f, ls):
        zone = None
        sure = True             # zone is certainly the open one
        for ln in ls:
            c = classify(ln, zone is not None)
            if c is None:
                continue
            self.records += 1
            t = ln.split('#', 1)[0].split()
            if c[0] == 'rule':
                self.policies.setdefault(c[1], []).append(c[2])
                zone, sure = None, True
            elif c[0] == 'link':
                self.links.setdefault(c[1], []).append(c[2])
                zone, sure = None, True
            elif c[0] == 'zone':
                zone, sure = c[1], True
                self.zones.setdefault(zone, []).append(c[2])
            elif c[0] == 'cont' and sure:
                self.zones.setdefault(zone, []).append(c[1])
            elif c[0] == 'cont':
                self.grey.append((f, ln, 'zone above not certain'))
                self.soiled.add(('z', zone))
            else:
                if c[0] == 'bad' and not sure and ln[:1] == '\t':
                    c = ('grey', c[1])
                (self.bad if c[0] == 'bad' else self.grey).append(
                    (f, ln, c[1]))
                if c[0] == 'grey':
                    for n in t[1:3]:
                        self.soiled.update((k, n) for k in 'pzl')
                if zone is not None:
                    self.soiled.add(('z', zone))
                if ln[:1] == '\t' and zone is None:
                    pass        # nothing above it to continue
                elif ln[:1] != '\t' and t and t[0] == 'Zone' and len(t) > 1:
                    # an unreadable first era: the zone is open all the same
                    zone, sure = t[1], c[0] == 'bad'
                    if c[0] == 'grey':
                        self.soiled.add(('z', zone))
                elif t and t[0] in ('Rule', 'Link') and c[0] == 'bad':
                    zone, sure = None, True
                elif ln[:1] == '\t' and c[0] == 'bad' and zone is not None:
                    pass        # an unreadable era of the open zone
                elif c[0] == 'bad':
                    # an unknown line: nothing may be continued across it,
                    # though a reader might
                    if zone is not None:
                        self.soiled.add(('z', zone))
                    zone, sure = None, True
                else:
                    sure = False
                    if zone is None:
                        zone = ''
