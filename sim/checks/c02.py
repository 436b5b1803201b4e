"""C02: output depends only on the inputs and the flags."""
import os

from sim import core, scene, tzgen, zygote
from sim.engine import Result

ID = 'C02'
COUNTS = {'quick': 720, 'thorough': 20000}
META = {
    'rule': 'Each scenario draws a source tree, flags and an optional include '
            'list and compiles them in several simulated environments: '
            'interpreters with different hash seeds, dates from 1970 to 2106 '
            'with clocks of different speed, time zones, locales and locale '
            'encodings, environment variables, process and user ids, host '
            'names, random sources, directory locations and listing orders, '
            'file timestamps, modes and creation orders, garbage-collection '
            'settings, transfer sizes, and with or without earlier '
            'compilations in the process. Distinct counts the different '
            '(scope, targets, hash seed, set of environment features) seen.',
    'states': 'distinct (scope, targets, hash seed, changed environment '
              'features, exit status)',
    'time': 'simulated dates between 1970 and 2106, clocks advancing '
            '0 to 86400 s per reading',
    'assumptions': ['the interpreter version is the same in all runs'],
    'stub': ['raw file device and directory calls (wrapped)',
             'acetime.zone_processor (scripted peer)',
             'clock, time zone, locale, ids, host name, random sources and '
             'directory listing (simulated)'],
}
HASHES = [0, 1, 42, 12345]
TZS = ['UTC', 'America/New_York', 'Asia/Kathmandu', 'Pacific/Kiritimati',
       'XYZ-14', 'ABC+11:30']
ENCS = ['utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252', 'utf-16']


def environ(r, like=None):
    v = {'PATH': r.choice(['/usr/bin:/bin', '/x/bin', '']),
         'HOME': r.choice(['/root', '/home/u', '/nonexistent']),
         'USER': r.choice(['root', 'alice', 'bob']),
         'TZ': r.choice(TZS), 'LANG': r.choice(
             ['C', 'C.UTF-8', 'de_DE.UTF-8', 'tr_TR.UTF-8', 'ja_JP.SJIS'])}
    for k, vs in (('COLUMNS', ['20', '80', '200']), ('LC_ALL', ['C', 'tr_TR']),
                  ('SOURCE_DATE_EPOCH', ['0', '1700000000']),
                  ('TMPDIR', ['/tmp', '/var/tmp']), ('PWD', ['/', '/x/y']),
                  ('LOGNAME', ['z']), ('HOSTNAME', ['h1', 'h2']),
                  ('TZDIR', ['/usr/share/zoneinfo']), ('NO_COLOR', ['1']),
                  ('PYTHONUTF8', ['0', '1']), ('DEBUG', ['1']),
                  ('LANGUAGE', ['fr']), ('TERM', ['dumb', 'xterm'])):
        if r.random() < 0.35:
            v[k] = r.choice(vs)
    return {
        'hash': r.choice(HASHES), 'vars': v,
        'now': float(r.choice([0, 86399, 946684799, 1709164800, 1735689599,
                               2147483647, 4291747200,
                               r.randrange(1 << 32)])),
        'step': r.choice([0.0, 0.0001, 1.0, 3600.0, 86400.0]),
        'encoding': r.choice(ENCS),
        'setlocale': r.choice(['C', 'C.UTF-8', 'POSIX']),
        'pid': r.randint(2, 4000000), 'umask': r.choice([0o22, 0, 0o77]),
        'order': r.randrange(1 << 30),
        'gc': r.choice([[700, 10, 10], [1, 1, 1], [0, 0, 0], [50, 2, 2]]),
        'recursion': r.choice([1000, 400, 20000]),
        'tty': r.random() < 0.3, 'bufsize': r.choice([8192, 512, 70000]),
        'depth': r.randint(0, 6), 'create': r.randrange(1 << 30),
        'mtime': r.choice([0, 10 ** 9, 4 * 10 ** 9, None]),
        'warm': r.choice([0, 0, 0, 1, 2]),
    }


def gen(r, i, tier):
    sc = scene.gen_base(r, big=0.15, corpus=0.45)
    if sc.get('include') and r.random() < 0.3:
        sc['note'] = True      # a comment that is not ASCII
    if r.random() < 0.25:
        sc['utf8'] = True      # comments in the sources that are not ASCII
    sc['variants'] = [environ(r) for _ in range(3 if tier == 'quick' else 4)]
    if len({v['hash'] for v in sc['variants']}) == 1:
        h = sc['variants'][0]['hash']
        sc['variants'][1]['hash'] = HASHES[(HASHES.index(h) + 1) % 4]
    if any(v['warm'] for v in sc['variants']):
        o = scene.gen_base(r, big=0.0)
        sc['other'] = {'blocks': o['blocks'], 'flags': o['flags']}
    return sc


def place(w, sc, env):
    """Lay out the inputs as this environment has them."""
    sub = '/'.join(['d%d' % k for k in range(env['depth'])])
    root = w.path(sub) if sub else w.root
    os.makedirs(root, exist_ok=True)
    x = core.World(root=root)
    texts = tzgen.render(sc['blocks'])
    names = list(texts)
    core.random.Random(env['create']).shuffle(names)
    for k in names:
        t = texts[k]
        if sc.get('utf8'):
            t = '# Règles – São Tomé, Åland\n' + t + '# fin été\n'
        x.put('in/' + k, t)
    if sc.get('include'):
        t = scene.include_text(sc['include'])
        if sc.get('note'):
            t = '# zones d’été – São Paulo\n' + t
        x.put('include.txt', t)
    os.mkdir(x.path('out'))
    if env['mtime'] is not None:
        for d, _, fs in os.walk(root):
            for f in fs:
                os.utime(os.path.join(d, f), (env['mtime'], env['mtime']))
    warm = []
    if env['warm'] and sc.get('other'):
        tzgen.put_tree(x, sc['other']['blocks'], 'in9')
        os.mkdir(x.path('out9'))
        warm = [tzgen.argv(sc['other']['flags'], 'in9', 'out9')] * \
            env['warm']
    return x, warm


def execute(sc):
    res = Result()
    first = None
    for n, env in enumerate(sc['variants']):
        w = core.World()
        try:
            x, warm = place(w, sc, env)
            out = zygote.get(env['hash']).ask(
                root=x.root, argv=scene.args(sc), env=env, warm=warm)
            files = scene.files(x.snap('out'))
        finally:
            w.close()
        res.evals += 1
        res.ops += out.get('nops') or 0
        feats = [k for k in env if first and env[k] != first[0][k]]
        for k in feats:
            res.fired['differs_' + k] = res.fired.get('differs_' + k, 0) + 1
        res.saw(sc['flags']['scope'], sc['flags']['langs'],
                sc['flags']['actions'], env['hash'], feats, out.get('exit'))
        res.mix(out.get('exit'), sorted(files.items()))
        if first is None:
            first = (env, out, files)
            res.count('ok' if out.get('exit') == 0 else 'refused')
            continue
        if out.get('exit') != first[1].get('exit') or out.get('died'):
            res.violation('status', 'same inputs and flags, but %s in one '
                          'environment and %s in another' % (
                              scene.tell(first[1]), scene.tell(out)))
            return res
        if out.get('exit') != 0:
            continue
        for k in sorted(set(files) | set(first[2])):
            if files.get(k) != first[2].get(k):
                res.violation('bytes', 'same inputs and flags, but %s differs '
                              'between environments: %s' % (
                                  k, scene.diff(first[2].get(k),
                                                files.get(k))))
                return res
    return res


def simplify(sc):
    """Make the environments equal, feature by feature."""
    vs = sc['variants']
    if len(vs) > 2:
        for k in range(len(vs)):
            yield dict(sc, variants=vs[:k] + vs[k + 1:])
        return
    if len(vs) < 2:
        return
    for k in sorted(vs[0]):
        if vs[0][k] != vs[1][k]:
            yield dict(sc, variants=[vs[0], dict(vs[1], **{k: vs[0][k]})])
    for k in ('note', 'utf8', 'include', 'other'):
        if k in sc:
            yield {a: b for a, b in sc.items() if a != k}
