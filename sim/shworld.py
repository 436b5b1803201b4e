"""Worlds for the shell simulator: awkward names, decoys, faults, runs."""
import os
import signal
import subprocess

from sim import core, shell

NAMES = ['my work', 'a  b', 'wo*k', 'z[ab]', 'q?x', "it's", 'say"x"', '$HOME',
         'tab\tx', 'new\nline', ' lead', 'trail ', '-dash', '-r', 'semi;x',
         'back\\slash', 'b\u00e9', '(p)', '~', 'a&b', '!x', '{a,b}', '#h',
         'x -rf y', 'a .. b', 'a * b', '@(x|y)', '`id`', '--help']
SIBLING = {'wo*k': 'work', 'z[ab]': 'za', 'q?x': 'qax', 'a * b': 'a',
           'back\\slash': 'backslash', '{a,b}': 'a', '@(x|y)': 'x'}
SIGNALS = [int(signal.SIGTERM), int(signal.SIGINT), int(signal.SIGHUP)]
BYSTANDERS = {'keep.txt': b'precious\n', 'africa': b'my own africa\n',
              'zone_infos.py': b'mine\n', 'sub/deep.txt': b'deep\n',
              '.hidden': b'h\n', 'version.txt': b'my version\n'}


def name(r, plain, p=0.5):
    return plain if r.random() < p else r.choice(NAMES)


def fault(r, top=7, vanish=True):
    at = r.randint(0, top)
    x = r.random()
    f = {'at': at, 'seed': r.randrange(1 << 30)}
    if x < 0.5:
        f['do'] = r.choice(['fail', 'fail', 'partial', 'partial', 'partial',
                            'after'])
        f['share'] = r.choice([0.1, 0.5, 0.9, 1.0])
        if r.random() < 0.35:
            f['how'] = 'sig'
            f['code'] = r.choice([9, 9, 11, 15])
        else:
            f['code'] = r.choice([1, 1, 2, 126, 128, 130])
    elif x < 0.92 or not vanish:
        f['do'] = r.choice(['signal', 'group', 'group'])
        f['sig'] = r.choice(SIGNALS * 3 + [9])
        f['when'] = r.choice(['before', 'during', 'after']
                             if f['do'] == 'group' else ['before', 'after'])
    else:
        f['do'] = 'vanish'
    return f


def lay(top, where, files, mark=''):
    for k, v in files.items():
        p = os.path.join(top, where, k)
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.lexists(p):
                with open(p, 'wb') as f:
                    f.write(v)
        except OSError:
            pass


def decoys(top, cwd, path):
    """Precious files where a path would lead if it were taken apart."""
    parts = path.split()
    if len(parts) > 1:
        for x in parts:
            q = os.path.normpath(os.path.join(cwd, x))
            if q.startswith(top + '/') and not os.path.isfile(q):
                lay(q, '.', {'keep.txt': b'precious\n',
                             'asia': b'decoy\n', 'tzfiles/keep': b'k\n'})
    comps = path.split('/')
    for i, c in enumerate(comps):
        if c in SIBLING:
            q = '/'.join(comps[:i] + [SIBLING[c]])
            rest = '/'.join(comps[i + 1:])
            q = os.path.normpath(os.path.join(cwd, q))
            if not q.startswith(top + '/'):
                continue
            if os.path.isfile(q):
                continue
            lay(q, '.', {'keep.txt': b'precious\n', 'asia': b'decoy\n',
                         'sub/x': b'x\n'})
            if rest and not rest.startswith('.'):
                lay(q, rest, {'keep.txt': b'precious\n', 'asia': b'decoy\n'})


def existing(top, at, kind, src):
    """Something that is already where the script wants to work."""
    if kind == 'dir':
        lay(at, '.', {'keep.txt': b'precious\n', 'africa': b'mine\n',
                      'sub/x.c': b'x\n', '.git/config': b'[core]\n'})
    elif kind == 'empty':
        os.mkdir(at)
    elif kind == 'file':
        with open(at, 'wb') as f:
            f.write(b'precious\n')
    elif kind == 'to_source':
        os.symlink(src, at)
    elif kind == 'to_decoy':
        os.symlink(os.path.join(top, 'precious'), at)
    elif kind == 'to_file':
        os.symlink(os.path.join(top, 'precious/keep.txt'), at)
    elif kind == 'dangling':
        os.symlink(os.path.join(top, 'precious/newdir'), at)
    elif kind == 'loop':
        os.symlink(os.path.basename(at), at)
    elif kind == 'locked':
        lay(at, '.', {'keep.txt': b'precious\n'})
        os.chmod(at, 0)


KINDS = ['dir', 'dir', 'empty', 'file', 'to_source', 'to_decoy', 'to_file',
         'dangling', 'dangling', 'loop']


def env_of(top, sc):
    e = {'PATH': os.path.join(top, 'bin'), 'HOME': os.path.join(top, 'home'),
         'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'GIT_CONFIG_NOSYSTEM': '1',
         'TMPDIR': os.path.join(top, 'tmp'), 'USER': 'nobody',
         'SHELL': '/bin/bash', 'GIT_TERMINAL_PROMPT': '0'}
    v = sc.get('env') or {}
    if 'CDPATH' in v:
        e['CDPATH'] = v['CDPATH'].replace('W', top)
    if 'OLDPWD' in v:
        e['OLDPWD'] = v['OLDPWD'].replace('W', top)
    return e


def base_world(base, sc):
    """Tools, home, a source repository.  Returns (top, compiler)."""
    top, comp = shell.furnish(base, sc['tool'])
    lay(top, 'home', dict(BYSTANDERS, **{'tzfiles/keep': b'k\n'}))
    lay(top, 'precious', BYSTANDERS)
    lay(top, 'elsewhere', BYSTANDERS)
    os.mkdir(os.path.join(top, 'tmp'))
    return top, comp


def put_source(top, where, template):
    subprocess.run(['/bin/cp', '-a', '--', template, where], check=True,
                   stdin=subprocess.DEVNULL)


def out_of(kind, base):
    """Where the script's output goes."""
    if kind == 'pipe':
        r, w = os.pipe()
        os.close(r)
        return w
    if kind == 'full':
        return os.open('/dev/full', os.O_WRONLY)
    return os.open(os.path.join(base, 'out'), os.O_WRONLY | os.O_CREAT |
                   os.O_APPEND, 0o644)


def seen_text(base):
    try:
        with open(os.path.join(base, 'out'), errors='replace') as f:
            return f.read()[-1500:]
    except OSError:
        return ''


def result(sim, extra):
    out = {'trace': [sim.mask(t.encode()) for t in sim.trace],
           'fired': sim.fired, 'problems': sim.problems,
           'status': [s.status for s in sim.scripts],
           'runs': len(sim.scripts)}
    import hashlib
    h = hashlib.sha256()
    for k in sorted(sim.now):
        if b'.git/' not in k:
            h.update(repr((k, sim.now[k][0], sim.now[k][1],
                           sim.now[k][2].replace(sim.top, b'W').replace(
                               os.path.dirname(sim.top), b'BASE')))
                     .encode())
    out['world'] = h.hexdigest()[:16]
    out.update(extra)
    return out


def account(res, out, *sig):
    """Move a child's findings to the Result."""
    if out.get('broken'):
        raise RuntimeError(out['broken'])
    res.evals += out['runs']
    res.ops += len(out['trace'])
    for k, v in out['fired'].items():
        res.fired[k] = res.fired.get(k, 0) + v
    for k, v in (out.get('counts') or {}).items():
        res.count(k, v)
    res.mix(out['trace'], out['status'], out['world'])
    res.saw(out['status'], [' '.join(t.split()[:3]) + t.split()[-1]
                            for t in out['trace']], *sig)
    for key, what in out['problems'][:1]:
        res.violation(key, what, trace=out['trace'][-40:],
                      output=out.get('text', '')[-600:])


def smaller(sc):
    """Candidates with less in them."""
    for k, plain in (('tool', 'tool'), ('cwd', 'zonedb'), ('src', 'tz'),
                     ('dst', 'out')):
        if k in sc and sc[k] != plain:
            yield dict(sc, **{k: plain})
    for k, v in (('exist', None), ('stdout', 'file'), ('env', {}),
                 ('umask', 0o22), ('form', 'abs'), ('call', 'abs'),
                 ('dstform', 'rel')):
        if k in sc and sc[k] != v:
            yield dict(sc, **{k: v})
    if len(sc['runs']) > 1:
        for i in range(len(sc['runs'])):
            yield dict(sc, runs=sc['runs'][:i] + sc['runs'][i + 1:])
    for i, run in enumerate(sc['runs']):
        for j in range(len(run.get('faults', []))):
            yield put(sc, i, faults=run['faults'][:j] + run['faults'][j + 1:])
        if run.get('extra'):
            yield put(sc, i, extra=[])
        if run.get('nocleanup'):
            yield put(sc, i, nocleanup=False)
        if run.get('tag') not in ('2023c',):
            yield put(sc, i, tag='2023c')


def put(sc, i, **kw):
    runs = list(sc['runs'])
    runs[i] = dict(runs[i], **kw)
    return dict(sc, runs=runs)
