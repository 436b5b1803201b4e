"""Seeded generator of TZ source trees.

A tree is a list of blocks, each a JSON-able dict
    {'f': file, 'k': 'policy'|'zone'|'link'|'misc', 'n': name, 'l': [lines]}
in file order.  `render` turns the blocks into {file: text}.
"""
import os

FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
         'etcetera', 'europe', 'northamerica', 'southamerica']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec']
DAYS = ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat']
REGIONS = ['America', 'Europe', 'Asia', 'Africa', 'Pacific', 'Atlantic',
           'Indian', 'Antarctica', 'Etc', 'Australia',
           'America/Argentina', 'America/Indiana']
SYLL = ['ba', 'ra', 'lo', 'mi', 'ten', 'gor', 'vik', 'sun', 'pe', 'dal',
        'kor', 'zu', 'na', 'tri', 'os', 'qui', 'fen', 'wy', 'hal', 'ju']
POLNAMES = ['US', 'EU', 'Eire', 'C-Eur', 'E-EurAsia', 'W-Eur', 'AN', 'AS',
            'Canada', 'Rus_sia', 'Iran', 'NZ', 'Mex', 'Para', 'Chile', 'GB-Eire',
            'SA', 'Leb', 'x', 'Z9', 'Tun_is', 'Morocco', 'Fiji', 'LH']


class Gen:
    def __init__(self, rng, nz=6, npol=3, nlinks=3, lo=1900, hi=2060,
                 odd=0.15, scope='complete'):
        self.r = rng
        self.nz, self.npol, self.nlinks = nz, npol, nlinks
        self.lo, self.hi = lo, hi
        self.odd = odd          # rate of unusual features
        self.scope = scope
        self.names = set()
        self.norm = set()

    # -- pieces -----------------------------------------------------------

    def chance(self, p):
        return self.r.random() < p

    def year(self, lo=None, hi=None):
        return self.r.randint(self.lo if lo is None else lo,
                              self.hi if hi is None else hi)

    def hms(self, sec, trim=True):
        neg = '-' if sec < 0 else ''
        sec = abs(sec)
        h, m, s = sec // 3600, sec // 60 % 60, sec % 60
        if s:
            return '%s%d:%02d:%02d' % (neg, h, m, s)
        if m or not trim or self.chance(0.7):
            return '%s%d:%02d' % (neg, h, m)
        return '%s%d' % (neg, h)

    def on_day(self, month):
        r = self.r
        x = r.random()
        if x < 0.3:
            return 'last' + r.choice(DAYS)
        if x < 0.65:
            return '%s>=%d' % (r.choice(DAYS),
                               r.choice([1, 2, 8, 8, 9, 15, 22, 23, 24]))
        if x < 0.72 and month != 1:
            return '%s<=%d' % (r.choice(DAYS), r.choice([8, 14, 20, 25, 28, 1]))
        if x < 0.78 and month not in (2, 12):
            return '%s>=%d' % (r.choice(DAYS), r.choice([25, 26, 29, 30]))
        return str(r.randint(1, 28) if self.chance(0.9) or month == 2
                   else r.choice([29, 30]))

    def at(self):
        r = self.r
        x = r.random()
        if self.scope == 'complete' and x < self.odd * 0.5:
            s = r.randint(0, 86400)
        elif x < 0.3:
            s = r.choice([0, 60, 23 * 3600 + 59 * 60, 86400, 24 * 3600,
                          5400, 9000, 2 * 3600 + 45 * 60])
        else:
            s = r.choice([1, 2, 2, 3, 1, 23, 0]) * 3600
        return self.hms(s) + r.choice(['', '', '', 's', 'u', 'w'])

    def save(self):
        r = self.r
        x = r.random()
        if x < 0.7:
            return 3600
        if x < 0.9 or self.scope == 'basic':
            return r.choice([1800, 7200, 5400, 2700])
        if self.scope == 'complete' and x < 0.95:
            return r.choice([1200, 2400, 6000, 660])
        return -3600

    def savestr(self, s):
        if s == 0:
            return self.r.choice(['0', '0', '0:00'])
        if s % 3600 == 0 and self.chance(0.5):
            return '%d' % (s // 3600)
        return self.hms(s, False)

    def rule(self, pol, frm, to, month, on, at, save, letter):
        to = 'only' if to == frm and self.chance(.9) else (
            'max' if to == 'max' else str(to))
        mon = MONTHS[month - 1]
        if self.chance(0.04):
            mon = ['January', 'February', 'March', 'April', 'May', 'June',
                   'July', 'August', 'September', 'October', 'November',
                   'December'][month - 1]
        return '\t'.join(['Rule', pol, str(frm), to, '-', mon, on, at,
                          self.savestr(save), letter])

    def policy(self, name):
        r = self.r
        lines = []
        style = r.choice(['SD', '-S', 'long', 'same'])
        if style == 'SD':
            sl, dl = 'S', 'D'
        elif style == '-S':
            sl, dl = '-', 'S'
        elif style == 'long':
            sl, dl = r.choice(['ST', 'T', 'NST', 'EET']), \
                r.choice(['DT', 'ST', 'ND', 'EEST'])
        else:
            sl = dl = '-'
        n = r.randint(1, 4)
        cuts = sorted(r.sample(range(self.lo, self.hi), n))
        ends = cuts[1:] + [None]
        for y, e in zip(cuts, ends):
            if e is None:
                to = r.choice(['max', 'max', y, min(y + r.randint(1, 12),
                                                     2200)])
            else:
                to = r.choice([e - 1, e - 1, y, r.randint(y, e - 1)])
            m1, m2 = r.choice([(3, 10), (4, 10), (3, 11), (4, 9), (10, 3),
                               (9, 4), (6, 8), (2, 12), (5, 5)])
            sv = self.save()
            lines.append(self.rule(name, y, to, m1, self.on_day(m1),
                                   self.at(), sv, dl))
            lines.append(self.rule(name, y, to, m2, self.on_day(m2),
                                   self.at(), 0, sl))
            if self.chance(self.odd):
                m = r.randint(1, 12)
                lines.append(self.rule(
                    name, y, y, m, self.on_day(m), self.at(),
                    r.choice([0, sv, self.save()]),
                    r.choice([sl, dl, 'W', 'GMT'])))
        # the earliest rule must be a standard one, for zones before it
        if self.chance(0.5):
            y = cuts[0] - r.randint(1, 30)
            lines.insert(0, self.rule(name, y, y, r.randint(1, 12), '1',
                                      '0:00', 0, sl))
        if self.chance(self.odd):
            r.shuffle(lines)
        return lines

    def offset(self):
        r = self.r
        x = r.random()
        if x < 0.7:
            return r.randint(-12, 14) * 3600
        if x < 0.9:
            return r.randint(-48, 56) * 900
        if self.scope == 'complete':
            return r.randint(-12 * 3600, 14 * 3600)
        return r.randint(-12 * 60, 14 * 60) * 60

    def offstr(self, s):
        if s % 3600 == 0 and self.chance(0.4):
            return '%d' % (s // 3600)
        return self.hms(s, False)

    def abbr(self):
        return ''.join(self.r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
                       for _ in range(self.r.choice([3, 3, 4])))

    def zone(self, name, pols):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4, 5])
        lo, hi = self.lo, self.hi
        years = sorted(r.sample(range(lo, hi), n - 1))
        lines = []
        for i in range(n):
            off = self.offset()
            if n > 1 and i == 0 and self.chance(0.6):
                if self.scope == 'complete':
                    off = r.randint(-43000, 43000)
                rules, fmt = '-', 'LMT'
            elif pols and self.chance(0.62):
                rules = r.choice(pols)
                fmt = r.choice([self.abbr()[:2] + '%sT', self.abbr()[:1] +
                                '%sT', '%s', self.abbr() + '/' + self.abbr(),
                                '%z', '+0%d/+0%d' % (r.randint(1, 4),
                                                     r.randint(5, 9)),
                                self.abbr(), '%sT'])
            elif self.chance(0.2) and self.scope != 'basic':
                rules = self.hms(r.choice([3600, 3600, 1800, 7200]), False)
                fmt = r.choice([self.abbr(), '%z', '+03',
                                self.abbr() + '/' + self.abbr()])
            else:
                rules = '-'
                fmt = r.choice([self.abbr(), '%z', '+05', '-0330', self.abbr()])
            f = [self.offstr(off), rules, fmt]
            if i < n - 1:
                f.append(self.until(years[i]))
            head = 'Zone\t' + name + '\t' if i == 0 else '\t\t\t'
            lines.append(head + '\t'.join(f))
        return lines

    def until(self, y):
        r = self.r
        u = [str(y)]
        if self.scope == 'basic':
            return ' '.join(u)
        if self.chance(0.7):
            m = r.randint(1, 12)
            u.append(MONTHS[m - 1])
            if self.chance(0.85):
                if self.chance(0.7):
                    u.append(str(r.randint(1, 28)))
                else:
                    u.append(r.choice(['lastSun', 'Sun>=1', 'Fri>=8',
                                       'lastThu', 'Sun<=20']))
                if self.chance(0.7):
                    if self.scope == 'complete' and self.chance(0.3):
                        t = self.hms(r.randint(0, 86399))
                    else:
                        t = self.hms(r.choice([0, 2, 3, 24, 1, 23]) * 3600)
                    u.append(t + r.choice(['', '', '', 's', 'u']))
        return ' '.join(u)

    def name(self):
        while True:
            r = self.r
            n = r.choice(REGIONS) + '/' + ''.join(
                r.choice(SYLL) for _ in range(r.randint(2, 4))).capitalize()
            x = r.random()
            if x < 0.15:
                n += '_' + r.choice(SYLL).capitalize()
            elif x < 0.2:
                n += '-' + r.choice(SYLL).capitalize()
            elif x < 0.25:
                n = 'Etc/GMT' + r.choice('+-') + str(r.randint(0, 14))
            elif x < 0.3:
                n = r.choice(SYLL).upper() + str(r.randint(1, 9))
            norm = ''.join(c if c.isalnum() else '_'
                           for c in n.replace('+', '_PLUS_'))
            if norm not in self.norm:
                self.norm.add(norm)
                self.names.add(n)
                return n

    # -- the whole tree ---------------------------------------------------

    def tree(self):
        r = self.r
        blocks = []
        pols = r.sample(POLNAMES, min(self.npol, len(POLNAMES)))
        for p in pols:
            blocks.append({'f': r.choice(FILES), 'k': 'policy', 'n': p,
                           'l': self.policy(p)})
        zones = []
        for _ in range(self.nz):
            n = self.name()
            zones.append(n)
            blocks.append({'f': r.choice(FILES), 'k': 'zone', 'n': n,
                           'l': self.zone(n, pols)})
        for _ in range(self.nlinks):
            n = self.name()
            blocks.append({'f': r.choice(FILES + ['backward'] * 6),
                           'k': 'link', 'n': n,
                           'l': ['Link\t%s\t%s' % (r.choice(zones), n)]})
        if self.chance(0.3):
            blocks.append({'f': r.choice(FILES), 'k': 'policy', 'n': 'Unused',
                           'l': self.policy('Unused')})
        r.shuffle(blocks)
        blocks.sort(key=lambda b: FILES.index(b['f']))
        return blocks


def gen_tree(rng, scope='complete', **kw):
    lo, hi = {'basic': (1985, 2080), 'extended': (1960, 2080),
              'complete': (1850, 2090)}[scope]
    kw.setdefault('lo', lo)
    kw.setdefault('hi', hi)
    return Gen(rng, scope=scope, **kw).tree()


def render(blocks, header=True):
    out = {f: [] for f in FILES}
    for f in FILES:
        if header:
            out[f].append('# file %s' % f)
    for b in blocks:
        out[b['f']].extend(b['l'])
        if header:
            out[b['f']].append('')
    return {f: ''.join(x + '\n' for x in ls) for f, ls in out.items()}


_corpus = []


def corpus_blocks():
    """The bundled real release, as blocks."""
    if _corpus:
        return _corpus[0]
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'corpus', 'tzdata.txt'),
              encoding='utf-8') as f:
        lines = f.read().split('\n')
    pol, blocks, cur = {}, [], None
    for ln in lines:
        if not ln:
            continue
        t = ln.split()
        if ln.startswith('Rule'):
            if t[1] not in pol:
                pol[t[1]] = {'f': FILES[len(pol) % 4 * 2], 'k': 'policy',
                             'n': t[1], 'l': []}
                blocks.append(pol[t[1]])
            pol[t[1]]['l'].append(ln)
            cur = None
        elif ln.startswith('Zone'):
            reg = t[1].split('/')[0]
            f = {'America': 'northamerica', 'Europe': 'europe',
                 'Asia': 'asia', 'Africa': 'africa',
                 'Antarctica': 'antarctica', 'Australia': 'australasia',
                 'Pacific': 'australasia', 'Etc': 'etcetera'}.get(
                     reg, 'southamerica')
            cur = {'f': f, 'k': 'zone', 'n': t[1], 'l': [ln]}
            blocks.append(cur)
        elif ln.startswith('Link'):
            blocks.append({'f': 'backward', 'k': 'link', 'n': t[2],
                           'l': [ln]})
            cur = None
        elif cur is not None:
            cur['l'].append(ln)
    blocks.sort(key=lambda b: FILES.index(b['f']))
    _corpus.append(blocks)
    return blocks


def corpus_sample(rng, nz=8, nlinks=4):
    """A few real zones with the rules and links that belong to them."""
    bl = corpus_blocks()
    zones = [b for b in bl if b['k'] == 'zone']
    pick = rng.sample(zones, min(nz, len(zones)))
    names = {b['n'] for b in pick}
    pols = set()
    for b in pick:
        for ln in b['l']:
            t = ln.split()
            if t[0] == 'Zone':
                t = t[2:]
            pols.add(t[1])
    links = [b for b in bl if b['k'] == 'link'
             and b['l'][0].split()[1] in names]
    rng.shuffle(links)
    keep = [b for b in bl if (b['k'] == 'zone' and b['n'] in names)
            or (b['k'] == 'policy' and b['n'] in pols)] + links[:nlinks]
    keep.sort(key=lambda b: FILES.index(b['f']))
    return [dict(b, l=list(b['l'])) for b in keep]


def put_tree(world, blocks, where='in'):
    for f, text in render(blocks).items():
        world.put(where + '/' + f, text)


# -- flags ------------------------------------------------------------------

WINDOWS = {
    'basic': [(2000, 2100), (1980, 2200), (2010, 2030), (1990, 2000)],
    'extended': [(2000, 2100), (1974, 2050), (1980, 2200), (2015, 2040),
                 (1990, 1995)],
    'complete': [(2000, 2100), (1800, 2200), (1, 2100), (1950, 1980),
                 (1974, 2050), (2023, 2025), (1800, 2100)],
}


def gen_flags(rng, scope=None, langs=None, actions=None):
    """Flags of a run, as a dict (see `argv`)."""
    scope = scope or rng.choice(['complete', 'complete', 'extended', 'basic'])
    if langs is None:
        pool = ['arduino', 'c', 'go', 'python']
        langs = [x for x in pool if rng.random() < 0.6] or [rng.choice(pool)]
        rng.shuffle(langs)
    if actions is None:
        actions = ['zonedb'] + [x for x in ('json', 'zonelist')
                                if rng.random() < 0.5]
        rng.shuffle(actions)
    w = rng.choice(WINDOWS[scope])
    f = {'scope': scope, 'langs': langs, 'actions': actions,
         'start': w[0], 'until': w[1], 'ver': rng.choice(
             ['2024b', '2023a', '2025c'])}
    if rng.random() < 0.25:
        f['compress'] = False
    if rng.random() < 0.25:
        f['strict'] = False
    if 'json' in actions and rng.random() < 0.5:
        f['json'] = rng.choice(['zonedb.json', 'zonedbx.json', 'z.json'])
    f['ns'] = rng.choice(['zonedb', 'zonedbx', 'ZoneDb', 'testing'])
    if rng.random() < 0.2:
        f['tiny'] = rng.choice([2100, 2090, 2080]) \
            if scope != 'complete' else 2100
    if rng.random() < 0.1:
        f['ignore_large'] = True
    if rng.random() < 0.12:
        f['until_at_granularity'] = rng.choice([60, 300, 900, 3600])
    if rng.random() < 0.12:
        f['offset_granularity'] = rng.choice([60, 900, 1800, 3600])
    if rng.random() < 0.12:
        f['delta_granularity'] = rng.choice([900, 1800, 3600])
    if not {'arduino', 'c'} & set(langs) and rng.random() < 0.15:
        f['skip'] = True
    return f


def argv(f, indir='in', out='out', include=None):
    a = ['--actions', ','.join(f['actions']),
         '--languages', ','.join(f['langs']),
         '--input_dir', indir, '--output_dir', out,
         '--scope', f['scope'], '--tz_version', f.get('ver', '2024b'),
         '--start_year', str(f['start']), '--until_year', str(f['until']),
         '--db_namespace', f.get('ns', 'zonedb')]
    if f.get('compress') is False:
        a.append('--nocompress')
    if f.get('strict') is False:
        a.append('--nostrict')
    if f.get('json'):
        a += ['--json_file', f['json']]
    if f.get('tiny'):
        a += ['--tiny_base_year', str(f['tiny'])]
    if f.get('skip'):
        a.append('--skip_bufestimator')
    if f.get('ignore_large'):
        a.append('--ignore_buf_size_too_large')
    for k in ('granularity', 'until_at_granularity', 'offset_granularity',
              'delta_granularity'):
        if f.get(k):
            a += ['--' + k, str(f[k])]
    if include:
        a += ['--include_list', include]
    return a


LANG_FILES = {
    'python': ['zone_policies.py', 'zone_infos.py', 'zone_registry.py'],
    'arduino': ['zone_policies.h', 'zone_policies.cpp', 'zone_infos.h',
                'zone_infos.cpp', 'zone_registry.h', 'zone_registry.cpp'],
    'c': ['zone_policies.h', 'zone_policies.c', 'zone_infos.h',
          'zone_infos.c', 'zone_registry.h', 'zone_registry.c'],
    'go': ['zone_policies.go', 'zone_infos.go', 'zone_registry.go',
           'zone_policies_test.go', 'zone_infos_test.go',
           'zone_registry_test.go', 'reader_test.go'],
}


def outputs(f):
    """The files a run with these flags is expected to write, in order."""
    out = []
    if 'zonedb' in f['actions']:
        for lang in ('python', 'arduino', 'c', 'go'):
            if lang in f['langs']:
                out += LANG_FILES[lang]
    if 'json' in f['actions']:
        out.append(f.get('json') or 'zonedb.json')
    if 'zonelist' in f['actions']:
        out.append('zones.txt')
    return list(dict.fromkeys(out))
