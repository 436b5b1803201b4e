"""Seeded damage to stored files: what disks, transfers and editors do.

A damage is a JSON-able dict; positions are fractions, so that it still makes
sense when the tree shrinks.  `apply` gives the damaged {file: bytes}.
"""
from sim import tzgen

TYPO = '0123456789:-+abcSDZswugzMFx%/#>=<_.\t ,;\\"\'\u00e9{}*'
FIELDS = {
    'year': ['0', '1', '99', '1980', '1999', '2000', '2001', '2037', '2050',
             '2100', '2127', '2128', '2200', '32766', '32767', '32768',
             '-1', '-32767', '-32768', '99999', '200000', '1_990', '+1990',
             '20x0', 'max', 'only', 'min', 'maximum', '020', '3000000'],
    'month': ['Jan', 'Feb', 'Dec', 'Jun', 'June', 'jan', 'Janx', 'J', 'M',
              '3', 'Foo', 'Mat', 'Sept', 'ma'],
    'day': ['1', '0', '31', '30', '29', '32', '99', '-1', 'lastSun', 'lastXxx',
            'lastsun', 'Sun>=1', 'Sun>=0', 'Sun>=25', 'Sun>=31', 'Sun>=32',
            'Sun<=1', 'Sun<=7', 'Sun<=31', 'Sun<=0', 'Sun>=', 'Sun=1', '>=1',
            'Xxx>=3', 'Sun>=-3', 'Sun<=99', 'last', 'Sun', '1.5', '0x1',
            '1_0', '+3', 'Mon>=29', 'Fri<=1', '\u0663'],
    'time': ['0', '2', '24:00', '24', '25:00', '26', '48:00', '99:99', '2:60',
             '2:0:61', '-1:00', '-2:30', '2:00:30', '2:30:15s', '1:00u',
             '1:00g', '1:00z', '1:00q', ':', '1:', ':30', '1:2:3:4', '2:-30',
             '2:00:-1', '127:00', '24:00:01', '1_0:00', '+2:00', '', '2.5',
             '100', '1:00:00.5', '-', '24:15', '25:00s', '-0:00'],
    'offset': ['0', '-', '5:45', '14:00', '15:45', '16:00', '-16:00', '24:00',
               '31:45', '32:00', '-31:45', '-32:00', '100', '1:00:07',
               '0:00:01', '-0:00:01', '--5', '1:99', '-5:-30', 'abc', '+3',
               '5:20', '-0:44:30'],
    'save': ['0', '1', '1:00', '0:30', '2:00', '2:45', '2:46', '3:00', '-1:00',
             '-1:15', '-2:00', '0:20', '0:01', '0:00:30', '1:00d', '1s', '0d',
             '4:00', '-', 'x', '2:07', '24:00', '-0:15'],
    'rules': ['-', '1:00', '0:30', '0:00', '-1:00', '2:00', '3:00', '8:00',
              '2:07', '2:08', '1', 'NoSuch', '1:00:30', ':', '+1:00', '10:00',
              '-2:08', '-2:09', '32:00', 'US', 'x"y', 'a*/b', '_', '9'],
    'format': ['EST', '%s', 'E%sT', 'EST/EDT', '%z', '%z%s', '%', '%%', 'A%dT',
               '/', 'A/', '/B', 'A/B/C', '%s/%s', '+03', '-', 'E"T', 'E\\T',
               'E\'T', '\u00c9ST', 'A' * 40, '%s%s', 'E*/T', '{x}', '%Z',
               '%%s', 'a?b', '"""', '\\', '\x07A', '\x7f', '//'],
    'letter': ['S', 'D', '-', 'ST', '"', '\\', "'", 'LONGER', '%s', '*/',
               '\u00e9', '%', '/', 'X' * 40, '\\n', '??/', '0', '{', '--'],
    'name': ['US', 'A', 'A/B', 'A-B', 'A_B', 'A+B', 'a"b', 'a\\b', "a'b",
             '*/', '\u00c5land/\u00d8y', '-', '1a', 'A.B', 'GMT+0', 'GMT-0',
             'GMT0', '{}', '{x}', 'x' * 60, '%s', '/', '\x01', 'A,B', '9',
             'Etc/UTC', '/*', '//', '"""', 'a;b', 'U+S', 'A' * 300],
    'target': ['No/Where', 'Etc/UTC', 'x"y', '-'],
    'type': ['-', 'even', 'x'],
}
RULE = ['kw', 'name', 'year', 'year', 'type', 'month', 'day', 'time', 'save',
        'letter']
ERA = ['offset', 'rules', 'format', 'year', 'month', 'day', 'time']
LINK = ['kw', 'target', 'name']


def field_kinds(tokens, line):
    if tokens[0] == 'Rule':
        return RULE
    if tokens[0] == 'Link':
        return LINK
    if tokens[0] == 'Zone':
        return ['kw', 'name'] + ERA
    return ERA


def draw(r, hard=None):
    """One damage.  hard: rate of changes to whole fields."""
    x = r.random()
    d = {'f': r.random(), 'p': r.random(), 'q': r.random()}
    if x < (0.45 if hard is None else hard):
        kinds = sorted(FIELDS)
        d.update(op='field', k=r.choice(kinds))
        d['v'] = r.choice(FIELDS[d['k']])
    elif x < 0.6:
        d.update(op='typo', c=r.choice(TYPO), how=r.choice('rid'))
    elif x < 0.7:
        d.update(op='flip', bit=r.randrange(8))
    elif x < 0.78:
        d.update(op='lost', n=r.choice([1, 1, 1, 2, 5]))
    elif x < 0.84:
        d.update(op='dup', n=r.choice([1, 1, 2]), far=r.random() < 0.5,
                 g=r.random())
    elif x < 0.88:
        d.update(op='tear')
    elif x < 0.92:
        d.update(op='join')
    elif x < 0.95:
        d.update(op='split')
    elif x < 0.98:
        d.update(op='over', n=r.choice([1, 4, 16, 64, 512]),
                 w=r.choice(['zero', 'ff', 'space', 'other', 'letters']))
    else:
        d.update(op='swap')
    return d


def at_line(ls, p, want=lambda ln: True):
    """Index of the line at fraction p among those that are wanted."""
    ok = [i for i, ln in enumerate(ls) if ln and ln[:1] != '#' and want(ln)]
    return ok[min(int(p * len(ok)), len(ok) - 1)] if ok else None


def apply(files, damages):
    """files: {name: text} -> {name: bytes}; counts by kind."""
    data = {f: t.encode('utf-8') for f, t in files.items()}
    done = {}
    for d in damages:
        # the file: weighted by size, so that empty ones are left alone
        tot = sum(len(b) for b in data.values())
        x = d['f'] * tot
        f = None
        for f in tzgen.FILES:
            x -= len(data[f])
            if x < 0:
                break
        new = one(data, f, d)
        if new is not None and new != data[f]:
            data[f] = new
            k = d['op'] + ('_' + d['k'] if d['op'] == 'field' else '')
            done[k] = done.get(k, 0) + 1
    return data, done


def one(data, f, d):
    b = data[f]
    op = d['op']
    if not b:
        return None
    i = min(int(d['p'] * len(b)), len(b) - 1)
    if op == 'flip':
        return b[:i] + bytes([b[i] ^ (1 << d['bit'])]) + b[i + 1:]
    if op == 'tear':
        return b[:i]
    if op == 'over':
        n = d['n']
        if d['w'] == 'other':
            g = tzgen.FILES[int(d['q'] * len(tzgen.FILES))]
            j = int(d['q'] * 7919 % 1 * max(1, len(data[g]) - n))
            new = data[g][j:j + n]
        else:
            new = {'zero': b'\0', 'ff': b'\xff', 'space': b' ',
                   'letters': b'q'}[d['w']] * n
        return b[:i] + new + b[i + len(new):]
    ls = b.decode('utf-8', 'surrogateescape').split('\n')

    def back(x):
        return '\n'.join(x).encode('utf-8', 'surrogateescape')
    if op == 'field':
        k = d['k']
        want = None

        def has(ln):
            t = ln.split()
            fk = field_kinds(t, ln) if t else []
            return k in fk[:len(t)]
        n = at_line(ls, d['p'], has)
        if n is None:
            return None
        t = ls[n].split()
        fk = field_kinds(t, ls[n])
        cols = [c for c, x in enumerate(fk[:len(t)]) if x == k]
        want = cols[int(d['q'] * len(cols))]
        t[want] = d['v']
        ls[n] = ('' if fk[0] == 'kw' else '\t\t\t') + '\t'.join(t)
        return back(ls)
    n = at_line(ls, d['p'])
    if n is None:
        return None
    if op == 'typo':
        ln = ls[n]
        c = min(int(d['q'] * len(ln)), len(ln) - 1)
        ls[n] = {'r': ln[:c] + d['c'] + ln[c + 1:],
                 'i': ln[:c] + d['c'] + ln[c:],
                 'd': ln[:c] + ln[c + 1:]}[d['how']]
    elif op == 'lost':
        del ls[n:n + d['n']]
    elif op == 'dup':
        part = ls[n:n + d['n']]
        m = min(int(d['q'] * len(ls)), len(ls) - 1) if d['far'] else n
        ls[m:m] = part
    elif op == 'join':
        if n + 1 < len(ls):
            ls[n:n + 2] = [ls[n] + ls[n + 1]]
    elif op == 'split':
        ln = ls[n]
        c = min(int(d['q'] * len(ln)), len(ln) - 1)
        ls[n:n + 1] = [ln[:c], ln[c:]]
    elif op == 'swap':
        m = at_line(ls, d['q'])
        ls[n], ls[m] = ls[m], ls[n]
    return back(ls)
