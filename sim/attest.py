"""What the generated files say about themselves, judged against the request
and the data in them.  A statement that is wrong raises `decode.Bad`."""
import re

from sim import model, tzgen
from sim.decode import Bad, need, norm, short_format

MIN_YEAR, MAX_TO, MAX_UNTIL = -32767, 32766, 32767
GRAIN = {'basic': (60, 60, 900), 'extended': (60, 60, 900),
         'complete': (1, 1, 60)}

# Bytes of one record on an 8-bit and on a 32-bit processor.
SIZES = {
    'low': ({'context': 16, 'rule': 9, 'policy': 3, 'era': 11, 'info': 13,
             'pointer': 2},
            {'context': 24, 'rule': 12, 'policy': 8, 'era': 16, 'info': 24,
             'pointer': 4}),
    'high': ({'context': 16, 'rule': 12, 'policy': 3, 'era': 15, 'info': 13,
              'pointer': 2},
             {'context': 24, 'rule': 12, 'policy': 8, 'era': 20, 'info': 24,
              'pointer': 4}),
}
ERA = ('offset_string', 'rules', 'format')
UNTIL = ('until_year', 'until_month', 'until_day_string', 'until_time',
         'until_time_suffix')
RULE = ('from_year', 'to_year', 'in_month', 'on_day', 'at_time',
        'at_time_suffix', 'delta_offset', 'letter')


def eq(what, want, got):
    need(want == got, '%s: stated %r, is %r' % (what, got, want))


# -- the request --------------------------------------------------------------

def request(d, f):
    """The JSON data name the request they were made for."""
    s = f['scope']
    eq('tz_version', f['ver'], d['tz_version'])
    eq('tz_version_number', (int(f['ver'][:4]) - 2000) * 100
       + ord(f['ver'][4]) - ord('a') + 1, d['tz_version_number'])
    eq('tz_files', sorted(tzgen.FILES), sorted(d['tz_files']))
    eq('scope', s, d['scope'])
    eq('start_year', f['start'], d['start_year'])
    eq('until_year', f['until'], d['until_year'])
    eq('strict', f.get('strict') is not False, d['strict'])
    eq('compress', f.get('compress') is not False, d['compress'])
    for k, v in zip(('until_at_granularity', 'offset_granularity',
                     'delta_granularity'), GRAIN[s]):
        eq(k, f.get('granularity') or f.get(k) or v, d[k])


# -- years --------------------------------------------------------------------

def plain(r, keys):
    """Fields as they are emitted."""
    out = []
    for k in keys:
        v = r[k]
        if k in ('until_year', 'until_month') and not \
                r['until_day_string'].isdigit():
            continue    # the day may lie in a neighbouring month
        if k.endswith('_suffix'):
            v = {'': 'w', 'g': 'u', 'z': 'u'}.get(v, v)
        elif k == 'letter' and v == '-':
            v = ''
        out.append(v)
    return out


def span(untils, froms):
    lo = min(list(untils) + list(froms) + [MAX_TO])
    hi = max([y for y in untils if y != MAX_UNTIL]
             + [y for y in froms if y != MAX_TO] + [MIN_YEAR])
    return lo, hi


def eras_left_out(src, out):
    """(before, after) the eras emitted, None if that is not certain."""
    pick = plain
    fits = []
    for k in range(len(src) - len(out) + 1):
        s = src[k:k + len(out)]
        if all(pick(a, ERA) == pick(b, ERA) for a, b in zip(s, out)) and \
                all(pick(a, UNTIL) == pick(b, UNTIL)
                    for a, b in zip(s[:-1], out[:-1])):
            fits.append(k)
    if len(fits) != 1:
        return None
    return fits[0], len(src) - fits[0] - len(out)


def rules_left_out(src, out, start):
    have = [plain(r, RULE) for r in out if not r.get('anchor')]
    # the rule that stands for the time before all others
    have += [plain(s[2], RULE) for s in (
        model.read_rule(r['raw_line'].split('#')[0].split()[1:])
        for r in out if r.get('anchor')) if s[0] == 'rule']
    lo = hi = False
    for r in src:
        t = plain(r, RULE)
        if t in have:
            have.remove(t)
        elif r['to_year'] < start:
            lo = True
        else:
            hi = True
    return lo, hi


def years(d, m, f):
    """Original, generated and accurate years, and what was left out."""
    eq('original years', span(
        [e['until_year'] for z in m.zones.values() for e in z],
        [r['from_year'] for p in m.policies.values() for r in p]),
       (d['original_min_year'], d['original_max_year']))
    eq('generated years', span(
        [e['until_year'] for z in d['zones_map'].values()
         for e in z['eras']],
        [r['from_year'] for p in d['policies_map'].values()
         for r in p['rules'] if not r.get('anchor')]),
       (d['generated_min_year'], d['generated_max_year']))
    sure, any_lo, any_hi = True, False, False
    gone = {p: rules_left_out(m.policies.get(p, []), x['rules'], f['start'])
            for p, x in d['policies_map'].items()}
    for p, x in d['policies_map'].items():
        lo, hi = gone[p]
        for r in x['rules']:
            if 'from_year_tiny' in r:
                lo |= r['from_year_tiny'] == -127 and \
                    r['from_year'] != MIN_YEAR
                hi |= r['to_year_tiny'] == 126 and r['to_year'] != MAX_TO
        gone[p] = lo, hi
    left = {}
    for n, z in d['zones_map'].items():
        cut = eras_left_out(m.zones.get(n, []), z['eras'])
        if cut is None:
            sure = False
            continue
        left[n] = cut
        lo, hi = cut[0] > 0, cut[1] > 0
        for e in z['eras']:
            if 'until_year_tiny' in e:
                lo |= e['until_year_tiny'] == -127
                hi |= e['until_year_tiny'] == 127 and \
                    e['until_year'] != MAX_UNTIL
            if e['policy_name']:
                a, b = gone.get(e['policy_name'], (False, False))
                lo, hi = lo or a, hi or b
        for k, v in (('lower_zone_truncated', lo),
                     ('upper_zone_truncated', hi)):
            if k in z:
                eq('%s of %s' % (k, n), v, z[k])
        any_lo, any_hi = any_lo or lo, any_hi or hi
    if sure:
        eq('lower_truncated', any_lo, d['lower_truncated'])
        eq('upper_truncated', any_hi, d['upper_truncated'])
    eq('start_year_accurate', f['start'] if d['lower_truncated']
       else MIN_YEAR, d['start_year_accurate'])
    eq('until_year_accurate', f['until'] if d['upper_truncated']
       else MAX_UNTIL, d['until_year_accurate'])
    return sure, left


# -- notes --------------------------------------------------------------------

def notes(d, m, f, left):
    used = {}
    for n, z in d['zones_map'].items():
        ps = {e['policy_name'] for e in z['eras'] if e['policy_name']}
        if ps:
            used[n] = sorted(ps)
    eq('zones_to_policies', used,
       {k: sorted(v) for k, v in d['zones_to_policies'].items()})
    for k in ('removed_zones', 'removed_links', 'removed_policies',
              'notable_zones', 'notable_links', 'notable_policies'):
        for n, v in d[k].items():
            need(v and all(isinstance(x, str) and x.strip() for x in v),
                 k, n, 'without a reason')
            need(len(set(v)) == len(v), k, n, 'says the same twice', v)
    want = {n: list(v) for n, v in d['notable_zones'].items()}
    for n, ps in used.items():
        sub = {p: d['notable_policies'][p] for p in ps
               if p in d['notable_policies']}
        if sub:
            want.setdefault(n, []).append(sub)
    eq('merged notes', want, d['merged_notable_zones'])
    live = {p for v in used.values() for p in v}
    for p, v in d['removed_policies'].items():
        if 'unused' in v:
            need(p not in live, 'policy', p, 'is used but listed as unused')
    for p, v in d['notable_policies'].items():
        for x in v:
            g = re.fullmatch(r"LETTER '(.+)' not single character", x)
            if g and p in d['policies_map']:
                need(any(r['letter'] == g[1] for r in
                         d['policies_map'][p]['rules']),
                     'note on', p, 'no rule has the letter', g[1])
    for p, x in d['policies_map'].items():
        for r in x['rules']:
            if len(r['letter']) > 1:
                need(any("'%s'" % r['letter'] in t for t in
                         d['notable_policies'].get(p, ())),
                     'the letter', r['letter'], 'of', p, 'is not noted')
    for n, (a, b) in left.items():
        told = [int(g[1]) for g in (re.fullmatch(
            r'Removed (\d+) zone eras after year (\d+)', t)
            for t in d['notable_zones'].get(n, ()))
            if g and eq('year of the note on ' + n, f['until'],
                        int(g[2])) is None]
        eq('eras of %s removed at the end' % n, [b] if b else [], told)
    for n, v in d['removed_links'].items():
        need(n not in d['links_map'], 'link', n, 'both emitted and removed')


# -- tables and sizes ---------------------------------------------------------

def tables(d, f):
    zones, links, pols = d['zones_map'], d['links_map'], d['policies_map']
    rules = sum(len(p['rules']) for p in pols.values())
    eras = sum(len(z['eras']) for z in zones.values())
    for k, v in (('zones', len(zones)), ('links', len(links)),
                 ('policies', len(pols)), ('eras', eras), ('rules', rules)):
        eq('num_' + k, v, d['num_' + k])
    names = list(zones) + list(links)
    letters = {''} | {r['letter'] for p in pols.values() for r in p['rules']}
    if {'arduino', 'c'} & set(f['langs']):
        shorts = {e['format'].replace('%z', '').replace('%s', '%')
                  for z in zones.values() for e in z['eras']}
        eq('letters_map', {x: i for i, x in enumerate(sorted(letters))},
           d['letters_map'])
        eq('formats_map', {x: i for i, x in enumerate(sorted(shorts))},
           d['formats_map'])
        frag = {chr(v): k for k, v in d['fragments_map'].items()}
        eq('fragments_map', {x: i + 1 for i, x in enumerate(
            sorted(d['fragments_map']))}, d['fragments_map'])
        comp = d['compressed_names']
        if d['compress']:
            eq('compressed names', sorted(names), sorted(comp))
            for n, c in comp.items():
                eq('compressed name', n, ''.join(frag.get(x, x) for x in c))
        else:
            eq('compressed names', {}, comp)
            eq('fragments', {}, frag)
        for k, s in zip(('memory_map8', 'memory_map32'),
                        SIZES['high' if f['scope'] == 'complete' else 'low']):
            def strings(x, ptr=0):
                return sum(len(y) + 1 + ptr for y in x)
            want = {'context': s['context'], 'rules': s['rule'] * rules,
                    'policies': s['policy'] * len(pols),
                    'eras': s['era'] * eras, 'zones': s['info'] * len(zones),
                    'links': s['info'] * len(links),
                    'registry': s['pointer'] * len(names),
                    'names': strings(comp.get(n, n) for n in names),
                    'fragments': strings(frag.values(), s['pointer']),
                    'letters': strings(letters, s['pointer']),
                    'formats': strings(shorts)}
            total = sum(want.values())
            eq(k, dict(want, names_original=strings(names), total=total),
               d[k])
    if 'go' in f['langs']:
        fmts = {''} | {e['format'].replace('%s', '%')
                       for z in zones.values() for e in z['eras']}

        def offsets(x):
            out, at = {}, 0
            for i, y in enumerate(sorted(x)):
                out[y] = [i, at]
                at += len(y)
            return dict(out, **{'~': [len(out), at]})

        def packed(x, width):
            return sum(len(y) for y in x) + 1 + width * (len(x) + 1)
        eq('go_letters_map', offsets(letters), d['go_letters_map'])
        eq('go_formats_map', offsets(fmts), d['go_formats_map'])
        eq('go_names_map', offsets(names), d['go_names_map'])
        want, at = {'': [0, 0, 0]}, 0
        for i, p in enumerate(sorted(pols)):
            want[p] = [i + 1, at, len(pols[p]['rules'])]
            at += want[p][2]
        eq('go_policy_index_size_map', want, d['go_policy_index_size_map'])
        want, at = {}, 0
        for i, z in enumerate(sorted(zones)):
            want[z] = [i, at, len(zones[z]['eras'])]
            at += want[z][2]
        eq('go_info_index_size_map', want, d['go_info_index_size_map'])
        ids = dict(d['zone_ids'], **d['link_ids'])
        eq('go_zone_and_link_index_map',
           {n: i for i, n in enumerate(sorted(names, key=ids.get))},
           d['go_zone_and_link_index_map'])
        want = {'rules': 12 * rules, 'policies': 4 * (len(pols) + 1),
                'eras': 14 * eras, 'zones': 12 * len(zones),
                'links': 12 * len(links), 'registry': 0, 'fragments': 0,
                'names': packed(names, 2), 'formats': packed(fmts, 2),
                'letters': packed(letters, 1)}
        total = sum(want.values())
        eq('go_memory_map', dict(want, total=total,
                                 names_original=want['names']),
           d['go_memory_map'])
    if d['buf_sizes']:
        eq('max_buf_size', max(v[0] for v in d['buf_sizes'].values()),
           d['max_buf_size'])


def quoted(d, m):
    """The source line quoted with a record is the one it was read from."""
    for n, z in d['zones_map'].items():
        for k, e in enumerate(z['eras']):
            t = e['raw_line'].split('#')[0]
            if k == len(z['eras']) - 1:
                t = re.sub(r'^Extended: ', '', t)
            t = t.split()
            s, err = model.read_era(t[2:] if t[:1] == ['Zone'] else t)
            if err:
                continue
            keys = ERA + (UNTIL if k < len(z['eras']) - 1 else ())
            eq('line quoted with era %d of %s' % (k, n),
               plain(s, keys), plain(e, keys))
    for n, p in d['policies_map'].items():
        for r in p['rules']:
            if r.get('anchor'):
                continue
            s = model.read_rule(r['raw_line'].split('#')[0].split())
            if s[0] == 'rule':
                eq('line quoted with a rule of ' + n,
                   (s[1], plain(s[2], RULE)), (n, plain(r, RULE)))


# -- headers ------------------------------------------------------------------

def head(text, fname):
    cm = '#' if fname.endswith(('.py', '.txt')) else '//'
    out = []
    for ln in text.split('\n'):
        need(ln.startswith(cm), fname, 'header line', repr(ln))
        ln = ln[len(cm):].strip()
        if ln == 'DO NOT EDIT':
            return out, cm
        out.append(ln)
    raise Bad('%s: the header does not end' % fname)


def years_line(label, a, b):
    return label, re.compile(r'%s:\s+\[(\S+?),\s*(\S+?)\]$' % re.escape(
        label)), (str(a), str(b))


def headers(files, names, d, argv, f):
    """Every text file states the request and the extent of the data."""
    n = 0
    for name in names:
        if name.endswith('.json'):
            continue
        text = files[name].decode('utf-8')
        h, cm = head(text, name)
        try:
            a = h.index('This file was generated by the following script:')
            b = h.index('using the TZ Database files')
        except ValueError:
            raise Bad('%s: the header names no command line' % name)
        cmd = ' '.join(h[a + 1:b]).split()
        need(cmd[:1] == ['$'], name, 'command line', cmd[:2])
        eq(name + ': command line', ' '.join(argv).split(), cmd[2:])
        rel = next((i for i, x in enumerate(h) if x.startswith('from ')), None)
        need(rel is not None, name, 'names no release')
        eq(name + ': TZ files', sorted(tzgen.FILES),
           sorted(x for x in h[b + 1:rel] if x))
        eq(name + ': release', f['ver'], h[rel].split('/')[-1])
        n += 1
        if name.endswith('.txt'):
            eq(name + ': numZones', d['num_zones'], int(re.search(
                r'^# numZones: (\d+)$', text, re.M)[1]))
            continue
        want = [years_line('Requested Years', f['start'], f['until']),
                years_line('Accurate Years', d['start_year_accurate'],
                           d['until_year_accurate']),
                years_line('Original Years', d['original_min_year'],
                           d['original_max_year']),
                years_line('Generated Years', d['generated_min_year'],
                           d['generated_max_year']),
                years_line('Lower/Upper Truncated', d['lower_truncated'],
                           d['upper_truncated'])]
        py = name.endswith('.py')
        if not py:
            want.append(years_line('Estimator Years',
                                   d['estimator_min_year'],
                                   d['estimator_max_year']))
            want.append(('Max Buffer Size', re.compile(
                r'Max Buffer Size: (\S+)$'), (str(d['max_buf_size']),)))
        for label, pat, v in want:
            g = [x for x in map(pat.match, h) if x]
            need(len(g) == 1, name, 'states', label, len(g), 'times')
            eq('%s: %s' % (name, label), v, g[0].groups())
        counts(name, h, d)
        if not py:
            memory(name, h, d)
        body(name, text, cm, d)
        beside(name, text, d)
        naming(name, text, d)
    return n


def counts(name, h, d):
    i = h.index('Records:') if 'Records:' in h else None
    need(i is not None, name, 'states no records')
    got = {}
    for x in h[i + 1:]:
        g = re.fullmatch(r'(\w+): (\d+)', x)
        if not g:
            break
        got[g[1]] = int(g[2])
    eq(name + ': records', {
        'Infos': d['num_zones'] + d['num_links'], 'Eras': d['num_eras'],
        'Policies': d['num_policies'], 'Rules': d['num_rules']}, got)
    for k, a, b in (('Supported', d['num_zones'], d['num_links']),
                    ('Unsupported', len(d['removed_zones']),
                     len(d['removed_links']))):
        need('%s Zones: %d (%d zones, %d links)' % (k, a + b, a, b) in h,
             name, 'states other numbers of', k, 'zones than',
             (a + b, a, b), [x for x in h if 'zones' in x])


def memory(name, h, d):
    pairs = [('Memory (8-bits):', 'memory_map8'),
             ('Memory (32-bits):', 'memory_map32')]
    if name.endswith('.go'):
        pairs = [('Memory:', 'go_memory_map')]
    for title, k in pairs:
        need(h.count(title) == 1, name, 'lacks', title)
        got = {}
        for x in h[h.index(title) + 1:]:
            g = re.fullmatch(r'(\w+): (\d+)(?: \(original: (\d+)\))?', x)
            if not g:
                break
            got[g[1].lower()] = int(g[2])
            if g[3]:
                got['names_original'] = int(g[3])
        want = {a: b for a, b in d[k].items()
                if a in got or a != 'names_original'}
        eq('%s: %s' % (name, title), want, got)


def squeeze(s):
    return ' '.join(s.split())


def body(name, text, cm, d):
    """Comments beside the records, and the lists of removals and notes."""
    rest = text.split('DO NOT EDIT', 1)[1]
    lines = [ln.strip()[len(cm):] for ln in rest.split('\n')
             if ln.strip().startswith(cm)]
    stem = name.rsplit('.', 1)[0]
    seq = None
    if stem.startswith('zone_infos') and (
            name.endswith(('.py', '.c', '.cpp')) or stem.endswith('_test')):
        seq = [e['raw_line'] for n in sorted(d['zones_map'])
               for e in d['zones_map'][n]['eras']]
    elif stem.startswith('zone_policies') and (
            name.endswith(('.py', '.c', '.cpp')) or stem.endswith('_test')):
        seq = [r['raw_line'] for n in sorted(d['policies_map'])
               for r in d['policies_map'][n]['rules']]
    if seq is not None:
        seq = [squeeze(x) for x in seq]
        known = set(seq)
        got = [squeeze(x) for x in lines if squeeze(x) in known]
        need(got == seq, name, 'quotes other source lines than those of its '
             'records:', next(((a, b) for a, b in zip(seq, got) if a != b),
                              (len(seq), len(got))))
    for label, n in (
            (r'Supported zones|Zones', d['num_zones']),
            (r'Supported links|Links', d['num_links']),
            (r'Supported (?:zone )?policies|Policies', d['num_policies']),
            (r'numEras|Supported eras', d['num_eras']),
            (r'numRules', d['num_rules']),
            (r'Supported Zones and Links', d['num_zones'] + d['num_links']),
            (r'Supported Zones', d['num_zones']),
            (r'Unsup+orted zones', len(d['removed_zones'])),
            (r'Unsup+orted links', len(d['removed_links'])),
            (r'Unsup+orted (?:zone )?policies', len(d['removed_policies'])),
            (r'Notable zones', len(d['merged_notable_zones'])),
            (r'Notable links', len(d['notable_links'])),
            (r'Notable (?:zone )?policies', len(d['notable_policies'])),
            (r'MaxBufSize', d['max_buf_size'])):
        for x in lines:
            g = re.fullmatch(r' ?(?:%s): (\d+)' % label, x)
            if g:
                eq('%s: %s' % (name, x.strip()), n, int(g[1]))
    text_of = {k: ''.join(listed(d[k])) for k in (
        'removed_zones', 'removed_links', 'removed_policies',
        'merged_notable_zones', 'notable_links', 'notable_policies')}
    for k, pat in (('removed_zones', r'Unsup+orted zones: \d+'),
                   ('removed_links', r'Unsup+orted links: \d+'),
                   ('merged_notable_zones', r'Notable zones: \d+'),
                   ('notable_links', r'Notable links: \d+'),
                   ('removed_policies',
                    r'Unsup+orted (?:zone )?policies: \d+'),
                   ('notable_policies', r'Notable (?:zone )?policies: \d+')):
        for i, x in enumerate(lines):
            if re.fullmatch(' ?' + pat, x):
                j = i + 2
                got = []
                while j < len(lines) and not re.fullmatch(r' ?-+', lines[j]):
                    got.append(re.sub(r'\s', '', lines[j]))
                    j += 1
                eq('%s: %s' % (name, k), re.sub(r'\s', '', text_of[k]),
                   ''.join(got))


def snake(s):
    return re.sub(r'(?<=[a-z])([A-Z])', r'_\1', s).lower()


def worth(expr):
    """What an expression like '(deltaMinutes=60)/15 + 4' comes to, with the
    division of Python and the one of C."""
    expr = re.sub(r'\b[A-Za-z]\w*=', '', expr)
    if not re.fullmatch(r'[-+*/%<() 0-9]+', expr):
        return None
    g = re.fullmatch(r'\s*(-?\d+) ?([/%]) ?(\d+)\s*', expr)
    if g:
        a, b = int(g[1]), int(g[3])
        q = abs(a) // b * (1 if a >= 0 else -1)
        return (a // b, q) if g[2] == '/' else (a % b, a - q * b)
    try:
        return (eval(expr.replace('/', '//'), {'__builtins__': {}}),) * 2
    except (SyntaxError, TypeError, ZeroDivisionError):
        return None


SAME = {'in_month': 'in_month', 'on_day_of_week': 'on_day_of_week',
        'on_day_of_month': 'on_day_of_month', 'from_year': 'from_year',
        'to_year': 'to_year', 'until_year': 'until_year',
        'until_month': 'until_month', 'until_day': 'until_day'}
SECONDS = {'offset_code': 'offset_seconds_truncated',
           'offset_seconds_code': 'offset_seconds_truncated',
           'offset_remainder': 'offset_seconds_truncated',
           'at_time_code': 'at_seconds_truncated',
           'at_seconds_code': 'at_seconds_truncated',
           'until_time_code': 'until_seconds_truncated',
           'until_seconds_code': 'until_seconds_truncated'}


def beside(name, text, d):
    """What stands beside the values: labels, terms, letters and names."""
    stem, _, ext = name.rpartition('.')
    go = stem.endswith('_test') and ext == 'go'
    if stem.startswith('zone_policies'):
        recs = [r for n in sorted(d['policies_map'])
                for r in d['policies_map'][n]['rules']]
    elif stem.startswith('zone_infos'):
        recs = [e for n in sorted(d['zones_map'])
                for e in d['zones_map'][n]['eras']]
    else:
        return
    if not (go or ext in ('c', 'cpp')):
        return
    pat = re.compile(r'\s*(\w+): (\S+),(?: // (.*))?' if go else
                     r'\s*(\S.*?) /\*(\w+)(?: \((.*)\))?\*/,')
    seen = {}
    begun = go
    for ln in text.split('\n'):
        # the context has labels of the same names
        begun = begun or re.search(r'Zone(Era|Rule)\w* .*\[\]', ln)
        g = begun and pat.fullmatch(ln)
        if not g:
            continue
        label, value, note = (g[1], g[2], g[3]) if go else (g[2], g[1], g[3])
        label = snake(label)
        if not re.fullmatch(r'-?\d+', value):
            continue
        v = int(value)
        i = seen[label] = seen.get(label, -1) + 1
        what = '%s: %s' % (name, ln.strip())
        if go and label in ('name_index', 'era_index', 'era_count',
                            'target_index', 'rule_index', 'rule_count'):
            continue
        base = label[:-5] if label.endswith('_tiny') else label
        if label in ('num_rules', 'num_eras') or label not in (
                'format_index', 'letter_index', 'policy_index') and \
                base not in SAME and label not in SECONDS and not \
                re.search('modifier|delta', label):
            continue
        need(i < len(recs), what, 'belongs to no record')
        r = recs[i]
        if base in SAME:
            if label == base:
                eq(what, r[SAME[base]], v)
            if note is not None:
                eq(what, str(r[SAME[base]]), note)
            continue
        if note is None:
            continue
        if label in SECONDS:
            g = re.match(r'\s*(-?\d+)', note)
            if g:
                eq(what, r[SECONDS[label]], int(g[1]))
        if 'modifier' in label:
            sfx = r['at_time_suffix' if label.startswith('at_')
                    else 'until_time_suffix']
            g = re.fullmatch(r'k?(?:Atc)?Suffix(\w) \+ (\w+)=(\d+)', note)
            need(g is not None, what, 'cannot be read')
            eq(what, ({'g': 'u', 'z': 'u'}.get(sfx, sfx).upper(), v & 15),
               (g[1], int(g[3])))
            eq(what, {'W': 0, 'S': 16, 'U': 32}[g[1]], v & 0xf0)
        elif label == 'format_index':
            eq(what, short_format(r['format']), note.strip('"'))
        elif label == 'letter_index':
            eq(what, '' if r['letter'] == '-' else r['letter'],
               note.strip('"'))
        elif label == 'policy_index':
            eq(what, 'PolicyName: %s' % (r['policy_name'] or '(none)'), note)
        else:
            w = worth(note)
            need(w is not None and v in w, what, 'is', w)


ITEM = re.compile(r'(.*\S)\s*(?://|/\*) (?:0x([0-9a-f]{8}), )?'
                  r'"?([^\s"]+)"?(?: -> (\S+))?(?: in (-?\d+))?(?: \*/)?')


def naming(name, text, d):
    """The names beside symbols, the headings of records and their numbers."""
    stem, _, ext = name.rpartition('.')
    if ext not in ('c', 'cpp', 'h', 'go'):
        return
    zones, links, pols = d['zones_map'], d['links_map'], d['policies_map']
    ids = dict(d['zone_ids'], **d['link_ids'])
    order = sorted(ids, key=lambda n: ids[n])
    heads = {'zone': [], 'link': [], 'policy': []}
    size = {'zone': {n: len(z['eras']) for n, z in zones.items()},
            'policy': {n: len(p['rules']) for n, p in pols.items()}}
    owner, item, at = None, None, {'Era': 0, 'Rule': 0}
    for ln in text.split('DO NOT EDIT', 1)[1].split('\n'):
        what = '%s: %s' % (name, ln.strip())
        g = re.fullmatch(r'\s*// (?:(Zone|Link|Policy) ?[nN]ame): (\S+)'
                         r'(?: -> (\S+))?', ln)
        if g:
            owner = g[1].lower(), g[2]
            heads[owner[0]].append(g[2])
            if owner[0] == 'link':
                eq(what, links.get(g[2]), g[3])
            continue
        g = re.fullmatch(r'\s*// (?:(Era|Rule)s|(Era|Rule)Count): (\d+)', ln)
        if g:
            k = g[1] or g[2]
            of = size['zone' if k == 'Era' else 'policy']
            n = of.get(owner[1]) if owner else sum(of.values())
            eq(what, n, int(g[3]))
            at[k] += n
            continue
        g = re.fullmatch(r'\s*// (Era|Rule)Index: (\d+)', ln)
        if g:
            eq(what, at[g[1]], int(g[2]))
            continue
        g = re.fullmatch(r'\s*// (\d+): (Zone|Link) (\S+)(?: -> (\S+))?', ln)
        if g:
            item = g[3]
            need(item in ids, what, 'is not in the database')
            eq(what, (order.index(item), links.get(item)), (int(g[1]), g[4]))
            need((item in links) == (g[2] == 'Link'), what, 'is not a', g[2])
            continue
        g = re.fullmatch(r'\s*NameIndex: \d+, // "(.*)"', ln)
        if g and item:
            eq(what, item, g[1])
            continue
        g = re.fullmatch(r'\s*TargetIndex: (\d+),(?: // (\S+))?', ln)
        if g and item:
            to = links.get(item)
            eq(what, to, g[2])
            if to:
                eq(what, order.index(to), int(g[1]))
            continue
        g = re.fullmatch(r'.*\}, // (\d+): PolicyName: (\S+)', ln)
        if g:
            eq(what, (['(None)'] + sorted(pols))[int(g[1])], g[2])
            continue
        g = ITEM.fullmatch(ln)
        n = g and g[3]
        if not g or n not in ids:
            continue
        if not re.search('(extern|Zone(Id|ID|BufSize|InfoIndex)|^  &k)',
                         g[1]):
            continue
        syms = re.findall(r'\w+', g[1])
        need(any(x.endswith(norm(n)) for x in syms), what,
             'belongs to another name')
        if g[2]:
            eq(what, '%08x' % ids[n], g[2])
        if g[4] or re.match(r'extern|  &k', g[1]):
            eq(what, links.get(n), g[4])
        if g[5]:
            eq(what, d['buf_sizes'][n][1], int(g[5]))
    if ext in ('c', 'cpp') or stem.endswith('_test'):
        if stem.startswith('zone_infos'):
            eq(name + ': headings', sorted(zones), heads['zone'])
            if ext != 'go':
                eq(name + ': headings', sorted(links), heads['link'])
        if stem.startswith('zone_policies'):
            eq(name + ': headings', sorted(pols), heads['policy'])


def listed(c):
    """Names with their notes as they are listed, white space aside."""
    for n in sorted(c):
        v = c[n]
        if len(v) == 1 and isinstance(v[0], str):
            yield '%s {%s}' % (n, v[0])
        else:
            yield n + ' {'
            for x in v:
                if isinstance(x, str):
                    yield x + ','
                else:
                    yield from listed(x)
            yield '}'
