"""Notes and removal reasons, judged against the source lines.

`expected` notes are derived from the fields alone; a reason is true if some
record of the source has the fault it names.  Shapes of text that are not
known here are left alone."""
import re

from sim import attest, ztime
from sim.decode import need

MAX_TO, MAX_UNTIL = attest.MAX_TO, attest.MAX_UNTIL


def secs(s):
    """Seconds of a time, None if no device can be given it."""
    if s == '-':
        return None
    try:
        v = ztime.seconds(s)
    except ztime.Unreadable:
        return None
    return v if abs(v) < 26 * 3600 else None


def day(s):
    try:
        return ztime.on_field(s)
    except ztime.Unreadable:
        return None


def clock(v):
    """As times are written in notes."""
    h, m, s = abs(v) // 3600, abs(v) // 60 % 60, abs(v) % 60
    return '%s%02d:%02d' % ('-' * (v < 0), h, m) + (':%02d' % s if s else '')


class Grain:
    def __init__(self, f):
        self.scope, self.strict = f['scope'], f.get('strict') is not False
        g = [f.get('granularity') or f.get(k) or v for k, v in zip(
            ('until_at_granularity', 'offset_granularity',
             'delta_granularity'), attest.GRAIN[f['scope']])]
        self.at, self.off, self.save = g


# -- what must be noted -------------------------------------------------------

def cut(kind, text, v, grain, fine='not multiple of :01 min'):
    t = ztime.toward_zero(v, grain)
    if t != v:
        return [(kind, text, 'truncated to ' + clock(t))]
    return [(kind, text, fine)] if v % 60 else []


def era_notes(e, last, g):
    """Notes on an emitted era of the source; `last`: none follows."""
    out = []
    if not last:
        d = day(e['until_day_string'])
        if d and d[0]:
            y, m = e['until_year'], e['until_month']
            n = ztime.on_day(y, m, *d) - ztime.days(y, m, 1) + 1
            to = m + (n > ztime.month_days(y, m)) - (n < 1)
            if to != m:
                out.append(('shift', e['until_day_string'],
                            '%d %d' % (m, to)))
        v = secs(e['until_time'])
        if v is not None:
            if v % 900:
                out.append(('UNTIL', e['until_time'],
                            'not multiple of :15 min'))
            out += cut('UNTIL', e['until_time'], v, g.at)
    v = secs(e['offset_string'])
    if v is not None:
        t = e['offset_string']
        if v % 1800:
            out.append(('STDOFF', t, 'not multiple of :%s min' % (
                15 if v % 900 else 30)))
        out += [x for x in cut('STDOFF', t, v, g.off) if 'trunc' in x[2]]
    t = e['rules']
    if ':' in t:
        v = secs(t)
        if v is not None:
            if v < 0:
                out.append(('RULES', t, 'negative'))
            elif v != 3600:
                out.append(('RULES', t, 'different from 1:00'))
            out += cut('RULES', t, v, g.save)
    elif t != '-' and '%s' not in e['format'] and '/' not in e['format']:
        out.append(('FORMAT', '', 'fixed'))
    return out


def rule_notes(r, g):
    out = []
    t = r['at_time']
    v = secs(t)
    if v is not None:
        if v % 900:
            out.append(('AT', t, 'not multiple of :15 min'))
        out += cut('AT', t, v, g.at)
    t = r['delta_offset']
    v = secs(t)
    if v is not None:
        if v < 0:
            out.append(('SAVE', t, 'negative'))
        elif v not in (0, 3600):
            out.append(('SAVE', t, 'different from 1:00'))
        out += [(a, b, 'truncated' if c.startswith('trunc') else c)
                for a, b, c in cut('SAVE', t, v, g.save)]
    if len(r['letter']) > 1:
        out.append(('LETTER', r['letter'], 'long'))
    return out


NOTES = [
    (r"until_month shifted from '(\d+)' to '(\d+)' due to (\S+)",
     lambda x: ('shift', x[3], '%s %s' % (x[1], x[2]))),
    (r"(UNTIL|STDOFF|AT) '(.*)' not multiple of :(15|30) min",
     lambda x: (x[1], x[2], 'not multiple of :%s min' % x[3])),
    (r"(UNTIL|AT|SAVE|RULES) '(.*)' not multiple of (:01 min|1-min)",
     lambda x: (x[1], x[2], 'not multiple of :01 min')),
    (r"(UNTIL|STDOFF|AT|RULES) '(.*)' truncated to '(.*)'",
     lambda x: (x[1], x[2], 'truncated to ' + x[3])),
    (r"(SAVE) '(.*)' truncated to a multiple of '(\d+)' seconds",
     lambda x: (x[1], x[2], 'truncated', int(x[3]))),
    (r"(SAVE|RULES) '(.*)' is a negative DST",
     lambda x: (x[1], x[2], 'negative')),
    (r"(SAVE|RULES) '(.*)' different from 1:00",
     lambda x: (x[1], x[2], 'different from 1:00')),
    (r"LETTER '(.*)' not single character", lambda x: (
        'LETTER', x[1], 'long')),
    (r"RULES not fixed but FORMAT is missing '%s' or '/'",
     lambda x: ('FORMAT', '', 'fixed')),
]


def read(text, g):
    for p, f in NOTES:
        x = re.fullmatch(p, text)
        if x:
            t = f(x)
            if len(t) == 4:
                need(t[3] == g.save, 'the note', repr(text),
                     'quotes another granularity than', g.save)
                t = t[:3]
            return t
    return None


def compare(what, have, must, may):
    for x in must:
        need(x in have, what, 'has', x, 'but no such note:', sorted(have))
    for x in have:
        need(x in may, what, 'has the note', x, 'but no record is like that')


# -- why something was removed ------------------------------------------------

def rule_faults(r, g):
    """Faults for which a rule cannot be emitted, as (kind, text)."""
    out = []
    v = secs(r['at_time'])
    if v is None:
        out.append(('invalid AT', r['at_time']))
    elif v < 0:
        out.append(('negative AT', r['at_time']))
    elif g.strict and v % g.at:
        out.append(('coarse AT', r['at_time']))
    if r['at_time_suffix'] in ('g', 'z'):
        out.append(('suffix', r['at_time_suffix']))
    v = secs(r['delta_offset'])
    if v is None:
        out.append(('invalid SAVE', r['delta_offset']))
    else:
        if g.strict and v % g.save:
            out.append(('coarse SAVE', r['delta_offset']))
        if not -3600 <= ztime.toward_zero(v, g.save) < 10800:
            out.append(('large SAVE', r['delta_offset']))
    d = day(r['on_day'])
    if d is None:
        out.append(('invalid ON', r['on_day']))
    elif d[0]:
        if r['in_month'] == 1 and -7 < d[1] < 0:
            out.append(('before Jan', r['on_day']))
        if r['in_month'] == 12 and d[1] > 25:
            out.append(('after Dec', r['on_day']))
    if g.scope == 'basic' and r['in_month'] == 1 and d and \
            d[1] in (1, -7):
        out.append(('Jan 1', ''))
    return out


def era_faults(e, last, g):
    out = []
    if not last:
        if g.scope == 'basic' and not e['until_year_only']:
            out.append(('long UNTIL', ''))
        if day(e['until_day_string']) is None:
            out.append(('invalid day', e['until_day_string']))
        v = secs(e['until_time'])
        if v is None:
            out.append(('invalid UNTIL', e['until_time']))
        elif v < 0:
            out.append(('negative UNTIL', e['until_time']))
        elif g.strict and v % g.at:
            out.append(('coarse UNTIL', e['until_time']))
        if e['until_time_suffix'] in (
                'gz' if g.scope != 'basic' else 'gzsu') and \
                e['until_time_suffix']:
            out.append(('UNTIL suffix', e['until_time_suffix']))
    v = secs(e['offset_string'])
    if v is None:
        out.append(('invalid STDOFF', e['offset_string']))
    else:
        if g.strict and v % g.off:
            out.append(('coarse STDOFF', e['offset_string']))
        if abs(ztime.toward_zero(v, g.off)) >= 128 * 900:
            out.append(('large STDOFF', e['offset_string']))
    t = e['rules']
    if ':' in t:
        v = secs(t)
        if g.scope == 'basic':
            out.append(('fixed RULES', t))
        elif v is None:
            out.append(('invalid RULES', t))
        elif v == 0:
            out.append(('zero RULES', t))
        elif g.strict and v % g.save:
            out.append(('coarse RULES', t))
    return out


REASONS = [
    (r"invalid (AT|SAVE|STDOFF|RULES|UNTIL) '(.*)'",
     lambda x: ('invalid ' + x[1], x[2])),
    (r"negative (AT|UNTIL) '(.*)'", lambda x: ('negative ' + x[1], x[2])),
    (r"(AT|UNTIL|STDOFF|RULES|SAVE) '(.*)' must be (?:a multiple|multiples) "
     r"of '(\d+)' seconds", lambda x: ('coarse ' + x[1], x[2], int(x[3]))),
    (r"(SAVE) '(.*)' too large for 4-bits", lambda x: ('large SAVE', x[2])),
    (r"(STDOFF) '(.*)' too large for 8-bits",
     lambda x: ('large STDOFF', x[2])),
    (r"unsupported AT suffix '(.*)'", lambda x: ('suffix', x[1])),
    (r"unsupported UNTIL suffix '(.*)'", lambda x: ('UNTIL suffix', x[1])),
    (r"invalid on_day '(.*)'", lambda x: ('invalid ON', x[1])),
    (r"invalid until_day '(.*)'", lambda x: ('invalid day', x[1])),
    (r"cannot shift '(.*)' from Jan to prev year",
     lambda x: ('before Jan', x[1])),
    (r"cannot shift '(.*)' from Dec to next year",
     lambda x: ('after Dec', x[1])),
    (r"Transition on Jan 1 not supported \(.*\)", lambda x: ('Jan 1', '')),
    (r"UNTIL contains month/day/time", lambda x: ('long UNTIL', '')),
    (r"unsupported fixed RULES '(.*)'", lambda x: ('fixed RULES', x[1])),
    (r"unexpected 0:00 in RULES '(.*)'", lambda x: ('zero RULES', x[1])),
]


def fault(text, g):
    for p, f in REASONS:
        x = re.fullmatch(p, text)
        if x:
            t = f(x)
            if len(t) == 3:
                want = {'SAVE': g.save, 'RULES': g.save,
                        'STDOFF': g.off}.get(t[0].split()[1], g.at)
                need(t[2] == want, 'the reason', repr(text),
                     'quotes another granularity than', want)
                t = t[:2]
            return t
    return None


def crowded(rules, lo, hi):
    """{(year, month): number of rules}, for more than one."""
    n = {}
    for r in rules:
        for y in range(max(lo, r['from_year']), min(hi, r['to_year']) + 1):
            n[y, r['in_month']] = n.get((y, r['in_month']), 0) + 1
    return {k: v for k, v in n.items() if v > 1}


def policy_reason(p, text, rules, d, f, g):
    """Is this reason for removing a rule set true?  None: not known."""
    t = fault(text, g)
    if t:
        return any(t in rule_faults(r, g) for r in rules)
    x = re.fullmatch(r"Found (\d+) transitions in year/month '(\d+)-(\d+)'",
                     text)
    if x:
        n = crowded(rules, int(x[2]), int(x[2])).get(
            (int(x[2]), int(x[3])), 0)
        return 1 < int(x[1]) <= n
    if text == 'All rules too old or too new':
        return all(r['from_year'] > f['until'] or r['to_year'] < f['start']
                   for r in rules)
    if text == 'unused':
        return not any(e['policy_name'] == p for z in
                       d['zones_map'].values() for e in z['eras'])
    return None


def until(e):
    d = day(e['until_day_string']) or (0, 1)
    return (e['until_year'], ztime.on_day(min(e['until_year'], 9999),
                                          e['until_month'], *d),
            secs(e['until_time']) or 0)


def zone_reason(n, text, eras, d, m, f, g, include):
    t = fault(text, g)
    if t:
        return any(t in era_faults(e, False, g) for e in eras)
    if text == 'Zone missing from include list':
        return include is not None and n not in include
    x = re.fullmatch(r"policy '(.*)' not found", text)
    if x:
        why = d['removed_policies'].get(x[1])
        return any(e['rules'] == x[1] for e in eras) and \
            x[1] not in d['policies_map'] and (
                x[1] not in m.policies or bool(why) and why != ['unused'])
    x = re.fullmatch(r'decreasing UNTIL year: (\d+)', text)
    if x:
        return any(a['until_year'] > b['until_year'] == int(x[1])
                   for a, b in zip(eras, eras[1:]))
    x = re.fullmatch(r'All eras are too old, < year (\d+)', text)
    if x:
        return int(x[1]) == f['start'] and \
            all(e['until_year'] < f['start'] for e in eras)
    x = re.fullmatch(r'non increasing UNTIL: (\d+)-.*', text)
    if x:
        return any(until(a) >= until(b) and b['until_year'] - int(x[1])
                   in (-1, 0, 1) for a, b in zip(eras, eras[1:]))
    return None


# -- everything ---------------------------------------------------------------

def judge(d, m, f, include=None, count=lambda *a: None):
    g = Grain(f)
    soiled = m.soiled
    for n, z in d['zones_map'].items():
        if ('z', n) in soiled or n not in m.zones:
            continue
        need(include is None or n in include, 'zone', n, 'is emitted but not '
             'in the include list')
        src = m.zones[n]
        where = attest.eras_left_out(src, z['eras'])
        if where is None:
            count('extent_not_certain')
            continue
        src = src[where[0]:len(src) - where[1]]
        must = set()
        for k, e in enumerate(src):
            last = k == len(src) - 1
            must.update(era_notes(e, last, g))
            for x in era_faults(e, last, g):
                need(False, 'zone', n, 'is emitted in spite of', x)
        have = {read(t, g) for t in d['notable_zones'].get(n, ())} - {None}
        compare('zone ' + n, have, must, must)
        count('zone_notes', len(have))
    for p, x in d['policies_map'].items():
        if ('p', p) in soiled or p not in m.policies:
            continue
        src = m.policies[p]
        must, may, rules = set(), set(), []
        for r in src:
            may.update(rule_notes(r, g))
        for r in x['rules']:
            if r.get('anchor'):
                must.update(rule_notes(dict(
                    r, at_time='0', delta_offset='0'), g))
                continue
            rules.append(r)
            must.update(rule_notes(r, g))
            for y in rule_faults(dict(r, at_time_suffix=''), g):
                need(False, 'rule set', p, 'is emitted in spite of', y)
        have = {read(t, g) for t in d['notable_policies'].get(p, ())} - {None}
        compare('rule set ' + p, have, must, may)
        count('rule_notes', len(have))
        if g.scope == 'basic':
            both = crowded(rules, f['start'], f['until'])
            need(not both, 'rule set', p, 'has several changes in one month '
                 'in the basic scope:', both)
    for what, have, got, judge_one in (
            ('rule set', m.policies, d['removed_policies'],
             lambda n, t: policy_reason(n, t, m.policies[n], d, f, g)),
            ('zone', m.zones, d['removed_zones'],
             lambda n, t: zone_reason(n, t, m.zones[n], d, m, f, g,
                                      include))):
        for n, ts in got.items():
            if (what[0].replace('r', 'p'), n) in soiled or n not in have:
                continue
            for t in ts:
                ok = judge_one(n, t)
                count('reasons' if ok is not None else 'reasons_not_known')
                need(ok is not False, what, n, 'was removed because of',
                     repr(t), 'but that is not so')
    for n, ts in d['removed_links'].items():
        if ('l', n) in soiled or len(m.links.get(n, ())) != 1:
            continue
        for t in ts:
            x = re.fullmatch(r'Target Zone "(.*)" missing', t)
            if x:
                need(m.links[n] == [x[1]] and x[1] not in d['zones_map'],
                     'link', n, 'was removed because of', repr(t),
                     'but that is not so')
            elif t == 'Link missing from include list':
                need(include is not None and n not in include, 'link', n,
                     'was removed because of', repr(t), 'but it is there')
            count('reasons')
    for n in d['links_map']:
        need(include is None or n in include, 'link', n,
             'is emitted but not in the include list')
