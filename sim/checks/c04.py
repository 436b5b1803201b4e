"""C04: inputs are never changed and only requested outputs are touched."""
import os

from sim import core, scene, tzgen
from sim.checks import c05
from sim.engine import Result

ID = 'C04'
COUNTS = {'quick': 640, 'thorough': 18000}
META = {
    'rule': 'Each scenario builds a machine with an input directory, an '
            'include list, an output directory (separate, nested in or equal '
            'to the input or the working directory, or reached by a link) '
            'and bystander files of many names, and runs the compiler '
            'undisturbed and under drawn faults, kills and rejections. '
            'Afterwards contents, permissions and timestamps of everything '
            'but the requested outputs are compared with before. Distinct '
            'counts the different (layout, actions, languages, fault, '
            'status).',
    'states': 'distinct (layout, requested targets, fault kind and operation, '
              'exit status)',
    'assumptions': ['attempts to change anything outside the scratch machine '
                    'are refused by the simulator and count as violations'],
}
LAYOUTS = ['plain', 'plain', 'nested', 'cwd', 'same', 'inside', 'link',
           'inlink', 'slash', 'default', 'deep']


def gen(r, i, tier):
    sc = scene.gen_base(r, big=0.06)
    sc['layout'] = r.choice(LAYOUTS)
    n = 6 if tier == 'quick' else 9
    fs = [{'kind': 'none'}]
    for _ in range(n):
        x = r.random()
        if x < 0.3:
            f = {'kind': 'crash', 'pos': r.random(), 'frac': r.random(),
                 'do': r.choice(['crash', 'part', 'crash_after']),
                 'out': r.random() < 0.7}
        elif x < 0.65:
            f = {'kind': 'error', 'pos': r.random(), 'pick': r.random(),
                 'out': r.random() < 0.5}
            if r.random() < 0.5:
                f['sticky'] = True
            if r.random() < 0.5:
                f['part'] = 30
        elif x < 0.75:
            f = {'kind': 'disk', 'pos': r.random()}
        elif x < 0.85:
            f = {'kind': r.choice(['interrupt', 'memory']), 'pos': r.random()}
        else:
            f = {'kind': 'reject', 'how': r.choice(c05.REJECT),
                 'pick': r.random()}
        fs.append(f)
    sc['faults'] = fs
    return sc


def dirs(layout):
    """(input_dir, output_dir flag, output path seen from the root)"""
    return {
        'plain': ('in', 'out', 'out'),
        'nested': ('src/tz/in', 'gen/out', 'gen/out'),
        'cwd': ('in', '.', '.'),
        'same': ('in', 'in', 'in'),
        'inside': ('in', 'in/out', 'in/out'),
        'link': ('in', 'lnk', 'real'),
        'inlink': ('lnk', 'out', 'out'),
        'slash': ('in/', 'out/', 'out'),
        'default': ('in', '', '.'),
        'deep': ('in', 'a/../out', 'out'),
    }[layout]


def execute(sc):
    res = Result()
    w = core.World()
    try:
        ind, outd, outp = dirs(sc['layout'])
        realin = 'realin' if sc['layout'] == 'inlink' else ind.rstrip('/')
        scene.setup(w, sc, where=realin, out=outp)
        if sc['layout'] == 'inlink':
            os.symlink('realin', w.path('lnk'))
        if sc['layout'] == 'link':
            os.symlink('real', w.path('lnk'))
        if sc['layout'] == 'deep':
            os.mkdir(w.path('a'))
        want = {os.path.normpath(os.path.join(outp, k))
                for k in scene.expected(sc)}
        # bystanders
        names = []
        for d in {outp, realin, '.', 'other'}:
            for k in ('zone_infos.py', 'zones.txt', 'zonedb.json',
                      'zone_registry.go', 'leapseconds', 'zone_infos.h',
                      'version.txt', '.git/HEAD', 'zone_infos.cpp.orig',
                      'backzone', 'tzfiles/africa', 'validation_data.json',
                      'zone_policies.c.tmp', 'zone_strings.cpp',
                      'zone_infos.o'):
                names.append(os.path.normpath(os.path.join(d, k)))
        r = core.random.Random(len(names))
        for k in sorted(set(names) - want):
            if r.random() < 0.5 and not os.path.exists(w.path(k)):
                w.put(k, 'bystander %s\n' % k, mtime=1500000000)
        for d, ds, fs in os.walk(w.root):
            for f in fs:
                p = os.path.join(d, f)
                if not os.path.islink(p):
                    os.utime(p, (1600000000, 1600000000))
                    if r.random() < 0.3:
                        os.chmod(p, r.choice([0o600, 0o444, 0o755, 0o640]))
        before = w.snap('.', meta=True)
        a = scene.args(sc, outd, ind)
        if sc['layout'] == 'default':
            k = a.index('--output_dir')
            del a[k:k + 2]

        def restore():
            now = w.snap('.')
            for k in sorted(now, reverse=True):
                if k not in before and os.path.normpath(k) in want:
                    os.remove(w.path(k))
            for k in want:
                if k in before:
                    w.put(k, before[k][0])
        ref = None
        for f in sc['faults']:
            out, fired = one(w, sc, f, a, ref, realin, ind, outd)
            if out is None:
                continue
            if ref is None:
                ref = out
            res.run(out)
            if fired:
                res.fired[fired] = res.fired.get(fired, 0) + 1
            after = w.snap('.', meta=True)
            res.saw(sc['layout'], sorted(want), f['kind'],
                    sorted(out.get('fired') or ()), out['exit'])
            how = '%s %s' % (f['kind'], sorted(out.get('fired') or ()))
            if out.get('outside'):
                res.violation('outside', 'under %s the run tried to change '
                              'something outside: %s' % (how,
                                                         out['outside'][:3]))
            for k in sorted(set(before) | set(after)):
                if k in want:
                    continue
                b, c = before.get(k), after.get(k)
                if b == c:
                    continue
                if b is None:
                    what = 'created'
                elif c is None:
                    what = 'removed'
                elif b[0] != c[0]:
                    what = 'changed'
                elif b[1] != c[1]:
                    what = 'changed the permissions of'
                else:
                    what = 'rewrote'
                res.violation(what.split()[0], 'under %s (%s) the run %s %s, '
                              'which is none of its outputs %s' % (
                                  how, scene.tell(out), what, k,
                                  sorted(want)[:4]))
            if res.viol:
                return res
            restore()
    finally:
        w.close()
    return res


def one(w, sc, f, a, ref, realin, ind, outd):
    if f['kind'] == 'none' or ref is None:
        return core.compile_run(w, a), ''
    if f['kind'] == 'reject':
        if f['how'] in ('include', 'years', 'peer', 'oversize', 'readerror'):
            if f['how'] == 'include':
                return None, ''
            b = list(a)
            plan, kw = {}, {}
            if f['how'] == 'years':
                b[b.index('--start_year') + 1] = '1'
            elif f['how'] == 'readerror':
                plan = {'faults': [{'at': int(f['pick'] * 18), 'do': 'EIO'}]}
            else:
                def prepare(sim):
                    zp = core.load_repo()['zp']
                    zp.SCRIPT = zp.Script()
                    big = f['how'] == 'oversize'

                    class D(dict):
                        def get(self, k, d=None):
                            if not big:
                                raise RuntimeError('simulated peer failure')
                            return {'default': (3, 9)}
                    zp.SCRIPT.sizes = D()
                kw['prepare'] = prepare
            return core.compile_run(w, b, plan, **kw), 'reject_' + f['how']
        return None, ''
    plan = c05.plan_of(f, {'ops': [
        [o[0], 'out' if not (o[1] or '').startswith(realin + '/') else 'in',
         o[2]] for o in ref['ops']]}, 20000, lambda: 1)
    return core.compile_run(w, a, plan), ''
