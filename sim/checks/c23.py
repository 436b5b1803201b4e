"""C23: a request is served as it stands or refused before a file changes."""
import json
import os
import random
import re

from sim import core, decode, scene, tzgen
from sim.engine import Result

ID = 'C23'
COUNTS = {'quick': 2600, 'thorough': 50000}
META = {
    'rule': 'Each scenario draws a source tree, flags and an earlier release, '
            'and then changes the command line in one to three ways, each of '
            'which either may not matter (flags in another order or written '
            'with =, languages and actions named twice, defaults spelled '
            'out, flags left out that no chosen language needs, versions of '
            'any form, directories whose names hold spaces, quotes, line '
            'ends, dashes and bytes that are no UTF-8) or makes the request '
            'impossible (unknown or empty actions, languages, scopes and '
            'flags, missing flags and values, years and granularities that '
            'are no numbers or out of range, missing source or include '
            'files, a missing or broken output directory, a language without '
            'the name space or the buffer sizes that it needs, names and '
            'versions that cannot be written into its sources). An '
            'impossible request must end with a nonzero status and leave '
            'every file as it was, also when operations fail or are cut '
            'short; any other must write what the plain command line '
            'writes, apart from the quoted command line and version. '
            'Distinct counts the different (ways, scope, languages, '
            'actions, outcome) seen.',
    'states': 'distinct (ways the command line was changed, scope, '
              'languages, actions, exit status)',
    'assumptions': ['requests whose standing the documentation leaves open '
                    '(abbreviated flags, an empty range of years, two '
                    'outputs with one name) are not judged'],
}
SERVE = ['order', 'equals', 'twice', 'defaults', 'unneeded', 'version', 'dir',
         'dir', 'include']
REFUSE = ['action', 'language', 'scope', 'flag', 'missing', 'value', 'number',
          'year', 'tiny', 'source', 'list', 'outdir', 'ns', 'badns', 'buf',
          'badver', 'stray', 'indir']
DIRS = ['a b', "it's", 'q"q', 'x --scope basic', 'new\nline', 'cr\rx',
        'tab\tx', 'back\\', 'é', '時', 'bad\udcff', '*', '$(x)', '//c',
        '#h', '%s{}', 'f\x0cf', 'u\u2028u', 'n\x85l', '*/', "'''", '{x}',
        '??/', '\x1b[1m']


def gen(r, i, tier):
    sc = scene.gen_base(r, big=0.02, include=0)
    f = sc['flags']
    n = r.choice([1, 1, 2, 3])
    ways = []
    bad = r.random() < 0.5
    for k in range(n):
        w = r.choice(REFUSE if bad and k == 0 else SERVE)
        if w not in [x[0] for x in ways] and not (
                w in ('version', 'unneeded') and ways and
                ways[0][0] in ('badver', 'ns', 'badns', 'buf')):
            ways.append([w, r.randrange(10 ** 9)])
    names = [x[0] for x in ways]
    if set(names) & {'ns', 'badns'}:
        f['actions'] = list(dict.fromkeys(f['actions'] + ['zonedb']))
        f['langs'] = list(dict.fromkeys(f['langs'] + [r.choice(
            ['arduino', 'c', 'go'])]))
    if 'buf' in names:
        f['actions'] = list(dict.fromkeys(f['actions'] + ['zonedb']))
        f['langs'] = list(dict.fromkeys(f['langs'] + [r.choice(
            ['arduino', 'c'])]))
        f.pop('skip', None)
    if 'tiny' in names and f['scope'] == 'complete':
        f['scope'], f['start'], f['until'] = 'extended', 1990, 2050
    if 'badver' in names:
        f['actions'] = list(dict.fromkeys(f['actions'] + ['zonedb']))
    if 'unneeded' in names and r.random() < 0.6:
        if r.random() < 0.5:
            f['langs'] = ['python']
        else:
            f['actions'] = r.sample(['json', 'zonelist'], r.choice([1, 2]))
            if 'json' not in f['actions']:
                f.pop('json', None)
    f['ver'] = '2031q'
    sc['ways'] = ways
    sc['prior'] = r.choice(['release', 'release', 'dirt', ''])
    if r.random() < 0.3:
        sc['short'] = [r.randrange(10 ** 6), .3, .3]
    if r.random() < 0.3:
        sc['fault'] = [{'at': r.choice([0, 1, 2, 5, r.randrange(120)]),
                        'do': r.choice(['EIO', 'ENOMEM', 'EMFILE',
                                        'crash'])}]
    return sc


def pairs(argv):
    out, i = [], 0
    while i < len(argv):
        if i + 1 < len(argv) and not argv[i + 1].startswith('--'):
            out.append([argv[i], argv[i + 1]])
            i += 2
        else:
            out.append([argv[i]])
            i += 1
    return out


def put(ps, flag, value):
    for p in ps:
        if p[0] == flag:
            p[1:] = [value]
            return
    ps.append([flag, value])


def drop(ps, flag):
    ps[:] = [p for p in ps if p[0] != flag]


def change(w, f, ps, way, r, st):
    """Apply one way; st collects what is to be known afterwards."""
    langs = set(f['langs']) if 'zonedb' in f['actions'] else set()
    if way == 'order':
        r.shuffle(ps)
    elif way == 'equals':
        st['join'] = [r.random() < 0.6 for _ in range(40)]
    elif way == 'twice':
        for flag in ('--languages', '--actions'):
            for p in ps:
                if p[0] == flag:
                    v = p[1].split(',')
                    v += r.sample(v, r.randint(1, len(v)))
                    r.shuffle(v)
                    p[1] = ','.join(v)
    elif way == 'defaults':
        c = f['scope'] == 'complete'
        have = {p[0] for p in ps}
        for flag, v in (('--until_at_granularity', '1' if c else '60'),
                        ('--offset_granularity', '1' if c else '60'),
                        ('--delta_granularity', '60' if c else '900'),
                        ('--tiny_base_year', '2100'),
                        ('--json_file', 'zonedb.json'),
                        ('--include_list', '')):
            if flag not in have and r.random() < 0.6 and \
                    (flag != '--json_file' or 'json' in f['actions']):
                ps.append([flag, v])
        for flag, no in (('--compress', '--nocompress'),
                         ('--strict', '--nostrict')):
            if no not in have and r.random() < 0.5:
                ps.append([flag])
        for flag, v in (('--start_year', '2000'), ('--until_year', '2100')):
            if [flag, v] in ps and r.random() < 0.5:
                ps.remove([flag, v])
    elif way == 'unneeded':
        if not langs - {'python'}:
            r.choice([lambda: drop(ps, '--db_namespace'),
                      lambda: put(ps, '--db_namespace', ''),
                      lambda: put(ps, '--db_namespace', 'a b')])()
    elif way == 'version':
        st['ver'] = r.choice(['HEAD', '2024b', '2030z', 'main', '2024',
                              '2024b-12-g0a1b2c3', 'v1.0', '1.0+x', 'x/y',
                              '2024b-rc1', 'Ünstable', '2024B'])
        put(ps, '--tz_version', st['ver'])
    elif way == 'dir':
        name = r.choice(DIRS)
        which = r.choice(['in', 'out'])
        flag = '--input_dir' if which == 'in' else '--output_dir'
        new = 'd/%s/%s' % (name, which) if r.random() < 0.5 else \
            'd/%s%s' % (which, name)
        if st[which] == which:
            st[which] = new
            put(ps, flag, new + r.choice(['', '', '/']))
    elif way == 'include':
        st['include'] = 'd/' + r.choice(DIRS) + '.lst'
        put(ps, '--include_list', st['include'])
    elif way == 'action':
        put(ps, '--actions', r.choice([
            '', 'zonedb,', 'zonedb;json', 'ZoneDb', 'all', 'json,tzdb',
            ' zonedb', 'zonedb, json', 'zonedb,,json', 'go']))
    elif way == 'language':
        put(ps, '--languages', r.choice([
            '', 'python,', 'c++', 'Go', 'arduino,cpp', ' c', 'go, python',
            'none', 'python,rust', 'go,zonedb', 'json']))
    elif way == 'scope':
        put(ps, '--scope', r.choice(['', 'full', 'Basic', 'basic,complete',
                                     'bas', 'extended ', 'all']))
    elif way == 'flag':
        ps.append([r.choice(['--foo', '-q', '--granularities', '--zone',
                             '--languages2', '-x1'])]
                  + r.choice([[], ['1']]))
    elif way == 'missing':
        drop(ps, r.choice(['--actions', '--languages', '--input_dir',
                           '--scope', '--tz_version']))
    elif way == 'value':
        p = r.choice([p for p in ps if len(p) > 1])
        ps.remove(p)
        st['tail'] = [p[0]]
    elif way == 'number':
        put(ps, r.choice(['--start_year', '--until_year', '--granularity',
                          '--tiny_base_year', '--delta_granularity',
                          '--offset_granularity', '--until_at_granularity']),
            r.choice(['', 'x', '20x0', '2000.5', '2000,2001', '1e3', 'min',
                      '0x7d0', '60s']))
    elif way == 'year':
        lo = {'basic': 1979, 'extended': 1973}.get(f['scope'])
        if lo is None:
            put(ps, '--start_year', 'now')
        else:
            put(ps, '--start_year', str(r.choice([
                lo, lo, lo - 1, lo - r.randrange(2000), 0, -1])))
    elif way == 'tiny':
        put(ps, '--tiny_base_year', str(r.choice([1000, 10, 3000, 100000,
                                                  -2000])))
    elif way == 'source':
        st['source'] = [r.choice(tzgen.FILES), r.choice(['gone', 'dir'])]
    elif way == 'indir':
        put(ps, '--input_dir', r.choice(['nowhere', 'in/europe', 'in2/',
                                         'IN']))
    elif way == 'list':
        put(ps, '--include_list', r.choice(['nowhere.txt', 'in', 'out/no',
                                            'in/europe/x']))
    elif way == 'outdir':
        st['nowhere'] = True
        put(ps, '--output_dir', r.choice(['nowhere', 'in/europe',
                                          'in/europe/x', 'out/no/such']))
    elif way == 'ns':
        r.choice([lambda: drop(ps, '--db_namespace'),
                  lambda: put(ps, '--db_namespace', '')])()
    elif way == 'badns':
        put(ps, '--db_namespace', r.choice([
            'a b', '1a', 'a-b', 'a.b', 'a;', 'a\n', 'a"', ' ', 'é', 'a/b',
            'zonedb ', 'a{', '٣a']))
    elif way == 'buf':
        ps.append(['--skip_bufestimator'])
    elif way == 'badver':
        put(ps, '--tz_version', r.choice([
            '2024b"', "2024b'", '2024b\n', '2024\nb', '2024b\\', '2024b\r',
            '2024b\x00'[:5] + '\x01', '2024b\u2028', '2024b\udcff']))
    elif way == 'stray':
        ps.insert(r.randrange(len(ps) + 1), [r.choice(
            ['europe', 'zonedb', '2024b', 'x', ''])])


QUOTE = re.compile(rb'^(//|#) +(\$ |--)')


def bare(out, old, ver):
    """What was written, without the quoted command line, and with version
    `old`, which occurs nowhere else, replaced."""
    d = {}
    for n, b in out.items():
        if n.endswith('.json'):
            b = re.sub(rb'"tz_version_number": -?\d+', b'', b)
            new = json.dumps(ver)[1:-1]
        else:
            b = b'\n'.join(x for x in b.split(b'\n') if not QUOTE.match(x))
            new = ver
        d[n] = b.replace(old.encode(), new.encode())
    return d


def execute(sc):
    res = Result()
    w = core.World()
    f = sc['flags']
    ways = [x[0] for x in sc['ways']]
    refuse = any(x in REFUSE for x in ways)
    try:
        tzgen.put_tree(w, sc['blocks'], 'in')
        for d in ('out', 'plain'):
            w.put(d + '/.keep', '')
        ps = pairs(scene.args(sc))
        st = {'in': 'in', 'out': 'out', 'join': [], 'tail': [], 'ver': None}
        for way, seed in sorted(sc['ways'], key=lambda x: x[0] in REFUSE):
            change(w, f, ps, way, random.Random(seed), st)
        argv = []
        for k, p in enumerate(ps):
            if len(p) > 1 and (p[1].startswith('-') or (
                    k < len(st['join']) and st['join'][k])):
                argv.append('='.join(p))
            else:
                argv += p
        argv += st['tail']
        if st['in'] != 'in':
            tzgen.put_tree(w, sc['blocks'], st['in'])
        if st['out'] != 'out':
            w.put(st['out'] + '/.keep', '')
        if st.get('include'):
            w.put(st['include'], '# everything\n')
        if sc['prior'] == 'release':
            few = [b for b in sc['blocks'] if b['k'] != 'link']
            tzgen.put_tree(w, few, 'old')
            o = scene.run(w, sc, where='old', out=st['out'])
            res.run(o)
        elif sc['prior'] == 'dirt':
            for n in scene.expected(sc):
                w.put(st['out'] + '/' + n, 'earlier %s\n' % n)
        plain = None
        if not refuse:
            plain = scene.run(w, sc, out='plain')
            res.run(plain)
            if plain.get('exit') != 0:
                res.count('tree_refused')
                return res
        if st.get('source'):
            n, how = st['source']
            p = w.path(st['in'], n)
            os.unlink(p)
            if how == 'dir':
                os.mkdir(p)
        before = w.snap('.')
        if sc.get('fault'):
            o = core.compile_run(w, argv, core.Plan(faults=sc['fault']))
            res.run(o)
            if refuse:
                bad = kept(before, w.snap('.'))
                if bad or o.get('exit') == 0:
                    res.violation('touched', 'after %s: %s, %s; %r' % (
                        sc['fault'], scene.tell(o), bad, argv))
                    return res
        o = core.compile_run(w, argv, core.Plan(
            short=sc.get('short') or [0, 0, 0]))
        res.run(o)
        for x in ways:
            res.fired[x] = res.fired.get(x, 0) + 1
        ok = o.get('exit') == 0
        res.saw(sorted(ways), f['scope'], sorted(f['langs']),
                sorted(f['actions']), ok)
        res.count('refused' if refuse else 'served')
        if o.get('died') or o.get('crashed'):
            res.violation('hang', '%s; %r' % (scene.tell(o), argv))
        elif refuse:
            bad = kept(before, w.snap('.'))
            if ok:
                res.violation('accepted', 'status 0 for a request that '
                              'cannot be served (%s): %r' % (
                                  ' '.join(ways), argv))
            elif bad:
                res.violation('touched', 'the request is refused (%s) after '
                              'files were changed: %s; %r' % (
                                  scene.tell(o), bad, argv))
        elif not ok:
            res.violation('refused', 'the plain request is served, this one '
                          '(%s) ends with %s: %r' % (
                              ' '.join(ways), scene.tell(o), argv))
        else:
            v = st['ver'] or f['ver']
            a = bare(scene.files(w.snap('plain')), f['ver'], v)
            b = bare(scene.files(w.snap(st['out'])), v, v)
            for n in scene.expected(sc):
                if a.get(n) != b.get(n):
                    res.violation('differs', '%s is not what the plain '
                                  'request writes (%s): %s; %r' % (
                                      n, ' '.join(ways),
                                      scene.diff(a.get(n), b.get(n)), argv))
                    break
            else:
                judge(res, w, sc, st, argv)
        res.mix(ways, ok)
    finally:
        w.close()
    return res


def judge(res, w, sc, st, argv):
    """The files can still be read by their languages."""
    f = sc['flags']
    if 'zonedb' not in f['actions']:
        return
    out = scene.files(w.snap(st['out']))
    for g in f['langs']:
        if g == 'arduino' and 'c' in f['langs']:
            continue
        try:
            c = decode.decode(g, out, f['scope'], f['ns'])
        except decode.Bad as e:
            try:
                decode.decode(g, scene.files(w.snap('plain')), f['scope'],
                              f['ns'])
            except decode.Bad:
                return          # judged by C13
            res.violation('broken', 'the %s files cannot be read: %s; %r' % (
                g, e, argv))
            return
        v = c['ctx'].get('version')
        if v is not None and v != (st['ver'] or f['ver']):
            res.violation('differs', 'the %s files state version %r; %r' % (
                g, v, argv))


def kept(a, b):
    """The first path that differs."""
    for n in sorted(set(a) | set(b)):
        if a.get(n) != b.get(n):
            return '%s %s' % (n, 'is new' if n not in a else 'is gone'
                              if n not in b else 'changed')
    return None


def simplify(sc):
    for key in ('fault', 'short'):
        if sc.get(key) is not None:
            yield {a: b for a, b in sc.items() if a != key}
    for k in range(len(sc['ways'])):
        if len(sc['ways']) > 1:
            yield dict(sc, ways=sc['ways'][:k] + sc['ways'][k + 1:])
    if sc['prior']:
        yield dict(sc, prior='')
    bl = sc['blocks']
    for k in range(len(bl)):
        if len(bl) > 1:
            yield dict(sc, blocks=bl[:k] + bl[k + 1:])
