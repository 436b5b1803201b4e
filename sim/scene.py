"""Pieces shared by the checks that run the compiler."""
import os

from sim import core, tzgen

NAMES = ('blocks', 'flags', 'include')


def gen_base(r, scope=None, langs=None, actions=None, big=0.12, corpus=0.35,
             include=0.2, flags=None):
    """A random source tree with flags: {'blocks', 'flags', 'include'}."""
    f = dict(tzgen.gen_flags(r, scope=scope, langs=langs, actions=actions))
    f.update(flags or {})
    scope = f['scope']
    x = r.random()
    if x < corpus:
        bl = tzgen.corpus_sample(r, nz=r.choice([2, 5, 10]),
                                 nlinks=r.randint(0, 5))
    elif x < corpus + big:
        if r.random() < 0.5:
            bl = tzgen.corpus_sample(r, nz=r.choice([30, 60]), nlinks=20)
        else:
            bl = tzgen.gen_tree(r, scope=scope, nz=r.randint(20, 50),
                                npol=r.randint(4, 10),
                                nlinks=r.randint(5, 25))
    else:
        bl = tzgen.gen_tree(r, scope=scope, nz=r.randint(1, 7),
                            npol=r.randint(0, 4), nlinks=r.randint(0, 5))
    sc = {'blocks': bl, 'flags': f}
    if r.random() < include:
        names = [b['n'] for b in bl if b['k'] in ('zone', 'link')]
        zones = [b['n'] for b in bl if b['k'] == 'zone']
        pick = set(r.sample(names, r.randint(1, len(names))))
        pick.add(r.choice(zones))
        for b in bl:        # a link needs its target
            if b['k'] == 'link' and b['n'] in pick:
                pick.add(b['l'][0].split()[1])
        sc['include'] = sorted(pick)
        r.shuffle(sc['include'])
    return sc


def setup(w, sc, where='in', out='out'):
    tzgen.put_tree(w, sc['blocks'], where)
    if sc.get('include'):
        w.put('include.txt', include_text(sc['include']))
    if out and not os.path.isdir(w.path(out)):
        os.makedirs(w.path(out))


def include_text(names):
    t = '# Zones to keep\n\n'
    for i, n in enumerate(names):
        t += n + ('  ' if i % 7 == 3 else '') + '\n'
        if i % 5 == 2:
            t += '\n# more\n'
    return t


def args(sc, out='out', where='in'):
    return tzgen.argv(sc['flags'], where, out,
                      'include.txt' if sc.get('include') else None)


def expected(sc):
    return tzgen.outputs(sc['flags'])


def run(w, sc, plan=None, out='out', where='in', **k):
    return core.compile_run(w, args(sc, out, where), plan, **k)


def files(snap):
    """Only the regular files of a snapshot."""
    return {k: v for k, v in snap.items() if not k.endswith('/')}


def tell(out):
    """One line about how a run ended."""
    if out.get('crashed'):
        return 'killed'
    if out.get('died'):
        return 'died (%s)' % out['died']
    s = 'status %s' % out.get('exit')
    if out.get('exc'):
        s += ' (%s: %s)' % (out['exc'], (out.get('msg') or '')[:120])
    return s


def diff(a, b):
    """Where two byte strings first differ, in words."""
    if a is None or b is None:
        return 'missing' if b is None else 'unexpected'
    if a == b:
        return 'equal'
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
             min(len(a), len(b)))
    lo = max(0, n - 40)
    return 'byte %d of %d/%d: %r / %r' % (n, len(a), len(b), a[lo:n + 40],
                                          b[lo:n + 40])
