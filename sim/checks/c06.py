"""C06: compilations in one process do not influence each other."""
import os

from sim import core, scene, sched, tzgen
from sim.engine import Result

ID = 'C06'
COUNTS = {'quick': 560, 'thorough': 16000}
META = {
    'rule': 'Each scenario draws two to five compilations with their own or '
            'shared input, flags and output directories and runs them in one '
            'process: one after another, or interleaved by a seeded scheduler '
            'that changes between them at file operations and after drawn '
            'numbers of source lines. Some are interrupted, starved of memory '
            'or hit by an error at a drawn operation or line, or have input '
            'that is rejected. Every compilation that is not itself hit is '
            'compared with the same one alone in a fresh process. Distinct '
            'counts the different interleavings (sequence of batons) and '
            'histories (flags and endings) seen.',
    'states': 'distinct baton sequences and distinct (targets, ending) '
              'histories',
    'assumptions': ['jobs are switched at file operations and lines of '
                    '/repo/src, not inside C functions or library code'],
    'stub': ['raw file device and directory calls (wrapped)',
             'acetime.zone_processor (scripted peer)',
             'the thread scheduler (seeded baton)'],
}


def fault(r):
    f = {'do': r.choice(['memory', 'interrupt', 'EIO', 'ENOSPC', 'term'])}
    if f['do'] in ('EIO', 'ENOSPC') or r.random() < 0.4:
        f['op'] = r.choice([1, 5, 12, 18, 19, 25, 30, 40, r.randint(1, 70)])
    else:
        f['line'] = int(2 ** r.uniform(3, 15.5))
    return f


def gen(r, i, tier):
    mode = 'seq' if i % 3 else 'mix'
    n = r.choice([2, 2, 3]) if mode == 'mix' else r.choice([2, 3, 3, 4, 5])
    jobs = []
    for k in range(n):
        x = r.random()
        if jobs and x < 0.25:       # the same again
            j = dict(r.choice(jobs))
            j.pop('fault', None)
        elif jobs and x < 0.6:      # same input, other flags
            o = r.choice(jobs)
            f = tzgen.gen_flags(r, scope=o['flags']['scope']
                                if r.random() < 0.4 else None)
            j = {'blocks': o['blocks'], 'flags': f}
        elif jobs and x < 0.75:     # same flags, other input
            o = r.choice(jobs)
            j = scene.gen_base(r, scope=o['flags']['scope'],
                               big=0.0 if mode == 'mix' else .05)
            j['flags'] = o['flags']
        else:
            j = scene.gen_base(r, big=0.0 if mode == 'mix' else .05)
        if mode == 'mix' and len(j['blocks']) > 16:
            j = dict(scene.gen_base(r, corpus=0, big=0))
        if r.random() < 0.3:
            j['fault'] = fault(r)
        elif r.random() < 0.08:
            j['reject'] = True
        jobs.append(j)
    if all(j.get('fault') for j in jobs):
        jobs[-1].pop('fault')
    sc = {'mode': mode, 'jobs': jobs, 'seed': r.randrange(1 << 30)}
    if mode == 'mix':
        sc['p_op'] = r.choice([0.0, 0.3, 1.0])
        sc['quantum'] = r.choice([None, [1, 200], [20, 2000], [500, 9000]])
        if not sc['p_op'] and not sc['quantum']:
            sc['p_op'] = 0.5
    return sc


def argv(j, n):
    return tzgen.argv(j['flags'], 'j%d/in' % n, 'j%d/out' % n,
                      'j%d/include.txt' % n if j.get('include') else None)


def place(w, j, n):
    x = core.World(root=w.path('j%d' % n))
    os.mkdir(x.root)
    scene.setup(x, j)
    if j.get('reject'):
        x.put('in/europe', b'Zone\n\xff')


def execute(sc):
    res = Result()
    w = core.World()
    jobs = sc['jobs']
    try:
        alone = []
        for n, j in enumerate(jobs):
            place(w, j, n)
            if j.get('fault'):
                alone.append(None)
                continue
            o = core.compile_run(w, argv(j, n))
            res.run(o)
            alone.append((o, scene.files(w.snap('j%d/out' % n))))
            core.shutil.rmtree(w.path('j%d' % n))
            place(w, j, n)
        specs = [(argv(j, n), j.get('fault')) for n, j in enumerate(jobs)]
        if sc['mode'] == 'mix':
            g = sched.interleave(w, specs, sc['seed'], sc['p_op'],
                                 sc['quantum'])
            res.count('switches', g.get('switches') or 0)
            res.saw(g.get('trace'))
        else:
            g = sched.sequence(w, specs)
        if 'jobs' not in g:
            res.violation('hang', 'the process running the compilations '
                          'together %s' % scene.tell(g))
            return res
        res.evals += len(jobs)
        res.ops += g['nops']
        res.saw(sc['mode'], [(j['flags']['langs'], o['exit'], o['exc'])
                             for j, o in zip(jobs, g['jobs'])])
        res.mix(g.get('trace'), [(o['exit'], o['ops'], o['lines'])
                                 for o in g['jobs']])
        for n, (j, o) in enumerate(zip(jobs, g['jobs'])):
            if o['fired']:
                k = '%s_in_job' % o['fired']
                res.fired[k] = res.fired.get(k, 0) + 1
            if j.get('reject'):
                res.fired['rejected_job'] = res.fired.get(
                    'rejected_job', 0) + 1
            if o['fired'] or alone[n] is None:
                continue
            a, good = alone[n]
            got = scene.files(w.snap('j%d/out' % n))
            res.mix(sorted(got.items()))
            res.count('compared')
            if a['exit'] != o['exit']:
                res.violation('status', 'compilation %d of %d (%s) ends with '
                              '%s alone, but with %s in this company' % (
                                  n + 1, len(jobs), sc['mode'],
                                  scene.tell(a), scene.tell(o)))
                return res
            for k in sorted(set(good) | set(got)):
                if good.get(k) != got.get(k):
                    res.violation('bytes', 'compilation %d of %d (%s): %s '
                                  'differs from the one written alone: %s' % (
                                      n + 1, len(jobs), sc['mode'], k,
                                      scene.diff(good.get(k), got.get(k))))
                    return res
    finally:
        w.close()
    return res


def simplify(sc):
    jobs = sc['jobs']
    for n, j in enumerate(jobs):
        def put(x):
            return dict(sc, jobs=jobs[:n] + [x] + jobs[n + 1:])
        for k in ('fault', 'include', 'reject'):
            if k in j:
                yield put({a: b for a, b in j.items() if a != k})
        bl = j['blocks']
        if len(bl) > 1:
            h = len(bl) // 2
            yield put(dict(j, blocks=bl[h:]))
            yield put(dict(j, blocks=bl[:h]))
            if len(bl) < 12:
                for b in range(len(bl)):
                    yield put(dict(j, blocks=bl[:b] + bl[b + 1:]))
        for key in ('langs', 'actions'):
            v = j['flags'][key]
            for x in v:
                if len(v) > 1:
                    yield put(dict(j, flags=dict(
                        j['flags'], **{key: [y for y in v if y != x]})))
