"""C03: a rerun repairs whatever an earlier run left behind."""
import os

from sim import core, scene, tzgen
from sim.checks import c01, c05
from sim.engine import Result

ID = 'C03'
COUNTS = {'quick': 900, 'thorough': 26000}
META = {
    'rule': 'Each scenario lays out an output directory with a history: stale, '
            'torn, extended, same-size-but-altered, empty or binary files '
            'under the output names (with past or future timestamps), files '
            'under other names, and one to four earlier runs with their own '
            'input and flags of which most are killed, interrupted, starved '
            'of disk or hit by an error. One undisturbed run follows and is '
            'compared with the same run into an empty directory. Distinct '
            'counts the different (history, state of each output before the '
            'final run) seen.',
    'states': 'distinct (kind of each history step, per output: absent/'
              'equal/prefix/longer/same size/other before the final run)',
    'assumptions': ['the output directory itself exists and is writable'],
}
STALE = ['empty', 'torn', 'extended', 'flip', 'body', 'binary', 'other',
         'samesize', 'crlf', 'header']
EXTRA = ['zone_infos.py.bak', 'zone_infos.tmp', '.zone_infos.py.swp',
         'README.md', 'zone_infos.txt', 'zonedb.json.old', 'Makefile',
         'sub/zone_infos.py', 'sub/x', 'zone_info.go', 'zones.txt~',
         'zone_policies.hpp', '__init__.py', 'test_zones.py', 'zoneinfo.c']


def gen(r, i, tier):
    sc = scene.gen_base(r, big=0.08)
    hist = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        if r.random() < 0.55:       # the same job, cut short
            h = {'same': True}
        else:
            other = scene.gen_base(r, big=0.0)
            if r.random() < 0.5:    # same flags, other release
                other['flags'] = dict(sc['flags'])
                other['flags'].pop('include', None)
            h = {'blocks': other['blocks'], 'flags': other['flags']}
        x = r.random()
        if x < 0.5:
            h['fault'] = {'kind': 'crash', 'pos': r.random(), 'frac':
                          r.random(), 'out': True, 'do': r.choice(
                              ['crash', 'part', 'part', 'crash_after'])}
        elif x < 0.6:
            h['fault'] = {'kind': 'disk', 'pos': r.random()}
        elif x < 0.7:
            h['fault'] = {'kind': 'error', 'pos': r.random(), 'pick':
                          r.random(), 'out': True, 'part': 40}
        elif x < 0.78:
            h['fault'] = {'kind': 'interrupt', 'pos': r.random()}
        hist.append(h)
    sc['history'] = hist
    sc['stale'] = []
    if r.random() < 0.8:
        rate = r.choice([0.2, 0.6, 1.0])
        for k in scene.expected(sc):
            if r.random() < rate:
                sc['stale'].append([k, r.choice(STALE), r.randrange(1 << 30)])
    sc['stale_last'] = r.random() < 0.6
    sc['mtime'] = r.choice([None, None, 0, 86400 * 365 * 80])
    sc['extra'] = r.sample(EXTRA, r.randint(0, 5))
    if r.random() < 0.3:     # outputs of another target
        for lang in r.sample(sorted(tzgen.LANG_FILES), 2):
            sc['extra'] += [k for k in tzgen.LANG_FILES[lang]
                            if k not in scene.expected(sc)]
    sc['extra'] = sorted(set(sc['extra']) - set(scene.expected(sc)))
    return sc


def stale_bytes(kind, good, n):
    r = core.random.Random(n)
    if kind == 'empty' or not good:
        return b''
    if kind == 'torn':
        return good[:r.randrange(len(good))]
    if kind == 'extended':
        return good + good[-r.randint(1, 200):]
    if kind == 'flip':
        k = r.randrange(len(good))
        return good[:k] + bytes([good[k] ^ (1 << r.randrange(7))]) + \
            good[k + 1:]
    if kind == 'samesize':
        k = r.randrange(len(good))
        return good[:k] + b'0' * (len(good) - k)
    if kind == 'body':
        k = len(good) // 2
        return good[:k] + b'\n# stale\n' + good[k:]
    if kind == 'header':
        k = min(len(good), 1200)
        return good[:k]
    if kind == 'crlf':
        return good.replace(b'\n', b'\r\n')
    if kind == 'binary':
        return bytes(r.randrange(256) for _ in range(len(good) + 5000))
    return b'something else entirely\n' * r.choice([1, 2000])


def shape(b, good):
    if b is None:
        return 'absent'
    if b == good:
        return 'equal'
    if good is None:
        return 'other'
    if good.startswith(b):
        return 'prefix'
    if b.startswith(good):
        return 'longer'
    return 'same size' if len(b) == len(good) else 'other'


def execute(sc):
    res = Result()
    w = core.World()
    try:
        scene.setup(w, sc, out='fresh')
        os.mkdir(w.path('out'))
        # the reference writes to a directory of the same name elsewhere
        os.rename(w.path('out'), w.path('keep'))
        os.rename(w.path('fresh'), w.path('out'))
        ref = scene.run(w, sc)
        res.run(ref)
        good = scene.files(w.snap('out'))
        if ref['exit'] != 0:
            res.count('undisturbed_refused')
            return res
        core.shutil.rmtree(w.path('out'))
        os.rename(w.path('keep'), w.path('out'))
        for k in sc['extra']:
            w.put('out/' + k, 'mine: %s\n' % k)

        def put_stale():
            for k, kind, n in sc['stale']:
                w.put('out/' + k, stale_bytes(kind, good.get(k, b''), n))
                res.fired['stale_' + kind] = \
                    res.fired.get('stale_' + kind, 0) + 1
        if not sc['stale_last']:
            put_stale()
        kinds = []
        for h in sc['history']:
            kinds.append(step(w, sc, h, ref, res))
        if sc['stale_last']:
            put_stale()
        if sc['mtime'] is not None:
            for k in os.listdir(w.path('out')):
                os.utime(w.path('out', k), (sc['mtime'], sc['mtime']))
        before = w.snap('out', meta=True)
        bf = {k: v[0] for k, v in before.items()}
        out = scene.run(w, sc)
        res.run(out)
        after = w.snap('out', meta=True)
        af = {k: v[0] for k, v in after.items()}
        res.saw(kinds, [(k, shape(bf.get(k), good[k])) for k in sorted(good)])
        res.mix(sorted(scene.files(af).items()))
        if out['exit'] != 0 or out.get('died'):
            res.violation('fails', 'an undisturbed run into a fresh directory '
                          'succeeds; after the history it ends with %s' %
                          scene.tell(out))
            return res
        for k in sorted(good):
            if af.get(k) != good[k]:
                res.violation('stale', 'after a clean rerun %s (%s before) '
                              'differs from a fresh run: %s' % (
                                  k, shape(bf.get(k), good[k]),
                                  scene.diff(good[k], af.get(k))))
                return res
        for k in sorted(set(before) | set(after)):
            if k in good:
                continue
            if before.get(k) != after.get(k):
                res.violation('other', 'the clean rerun changed %s, which is '
                              'none of its outputs' % k)
                return res
    finally:
        w.close()
    return res


def step(w, sc, h, ref, res):
    if h.get('same'):
        h = dict(h, blocks=sc['blocks'], flags=sc['flags'])
        job = dict(sc)
        where = 'in'
    else:
        job = {'blocks': h['blocks'], 'flags': h['flags']}
        where = 'in1'
        core.shutil.rmtree(w.path('in1'), ignore_errors=True)
        tzgen.put_tree(w, h['blocks'], 'in1')
    plan = {}
    f = h.get('fault')
    if f:
        if not h.get('same'):
            core.shutil.copytree(w.path('out'), w.path('save'),
                                 symlinks=True)
            dry = scene.run(w, job, where=where)
            core.shutil.rmtree(w.path('out'))
            os.rename(w.path('save'), w.path('out'))
        else:
            dry = ref
        plan = c05.plan_of(f, dry, 20000, lambda: 1)
    out = scene.run(w, job, plan, where=where)
    res.run(out)
    return ('same' if h.get('same') else 'other',
            tuple(sorted(out.get('fired') or ())), out['exit'])
