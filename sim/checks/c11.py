"""C11: tzcompiler.sh deletes nothing but the workspace it created."""
import os
import shutil

from sim import shell, shworld
from sim.engine import Result

ID = 'C11'
COUNTS = {'quick': 900, 'thorough': 26000}
META = {
    'rule': 'Each scenario draws a world (names of the tool, working and '
            'source directories with spaces, globs, quotes, dashes; files '
            'where naive splitting or globbing would lead; something already '
            'at the workspace: directories, files, links to the source or to '
            'precious files, dangling links), one to three runs of the '
            'driver script, one after the other or side by side, with flags, '
            'tags that exist or not, and up to three faults per run: a '
            'command fails, is killed or has part of its effect; a signal '
            'reaches the script alone or its whole group before, during or '
            'after a command; the workspace disappears; output goes to a '
            'closed pipe or a full device.',
    'states': 'distinct (exit statuses, sequence of commands with faults '
              'and outcomes)',
    'time': 'none: the scripts use no timers; runs are counted in commands',
    'real': ['tzcompiler.sh, run by bash', 'cp, rm, git, mkdir and the other '
             'commands, on the scratch directory, when the plan lets them'],
    'stub': ['every command is a client of the simulator, which decides '
             'its effect and outcome', 'tzcompiler.py (records what it was '
             'given and writes two files)'],
    'assumptions': ['signals arrive while a command runs, not between two '
                    'instructions of the shell itself'],
}


def gen(r, i, tier):
    awk = r.random() < 0.5
    sc = {
        'tool': shworld.name(r, 'tool', 0.8 if awk else 1),
        'cwd': shworld.name(r, 'zonedb', 0.3 if awk else 1),
        'src': shworld.name(r, 'tz', 0.5 if awk else 1),
        'form': r.choice(['abs', 'rel', 'slash', 'within']),
        'call': r.choice(['abs', 'rel', 'here']),
        'exist': r.choice(shworld.KINDS) if r.random() < 0.25 else None,
        'stdout': r.choice(['file'] * 10 + ['pipe', 'full']),
        'umask': r.choice([0o22] * 6 + [0o77, 0, 0o27]),
        'env': {}, 'par': False, 'schedule': [], 'runs': [],
    }
    if sc['src'] == sc['cwd'] or sc['src'] == sc['tool']:
        sc['src'] = 'tz'
    if sc['cwd'] == sc['tool']:
        sc['cwd'] = 'zonedb'
    if r.random() < 0.2:
        sc['env']['CDPATH'] = r.choice(['W/elsewhere', 'W:W/elsewhere:.'])
    n = r.choice([1, 1, 1, 2, 2, 3])
    if n > 1 and r.random() < 0.55:
        sc['par'] = True
        sc['schedule'] = [r.randrange(2 * n) for _ in range(24)]
        if r.random() < 0.3:
            # in long stretches rather than in turns
            sc['schedule'] = sorted(sc['schedule'])
    quiet = r.random() < 0.15
    for _ in range(n):
        run = {'tag': r.choice(['', '', '2020a', '2023c'] * 5 + [
                   'dev', 'nosuch', 'a b', '-x', '*']),
               'nocleanup': r.random() < 0.12,
               'extra': [], 'faults': []}
        if r.random() < 0.5:
            run['extra'] = r.choice([
                ['--scope', 'complete', '--action', 'zonedb'],
                ['--db_namespace', 'a  b', '*'], ['--language', 'arduino', ''],
                ['--scope', 'basic', '--nocleanup'], ['x', '--tag']
                ])
        x = r.random()
        if x < 0.04:
            run['repo'] = r.choice(['missing', 'file', 'none', 'last'])
        if not quiet and (n == 1 or r.random() < 0.6):
            k = r.choice([1, 1, 1, 2, 3])
            run['faults'] = [shworld.fault(r, vanish=n == 1)
                             for _ in range(k)]
        sc['runs'].append(run)
    return sc


def argv_of(top, sc, run, cwd, script, src):
    form = sc['form']
    repo = {'abs': src, 'rel': os.path.relpath(src, cwd),
            'slash': src + '/', 'within': os.path.relpath(src, cwd)}[form]
    if form == 'within' and repo.startswith('-'):
        repo = './' + repo if run.get('dot') else repo
    a = [script]
    if run.get('repo') == 'missing':
        repo = os.path.join(top, 'no/such repo')
    elif run.get('repo') == 'file':
        repo = os.path.join(top, 'precious/keep.txt')
    if run.get('repo') == 'last':
        return a + ['--tag', run['tag'], '--tzrepo']
    if run.get('repo') != 'none':
        a += ['--tzrepo', repo]
    if run['tag'] or run.get('emptytag'):
        a += ['--tag', run['tag']]
    if run['nocleanup']:
        a.append('--nocleanup')
    return a + [x.replace('W/', top + '/') for x in run['extra']]


def simulate(base, sc, template):
    top, comp = shworld.base_world(base, sc)
    cwd = os.path.join(top, sc['cwd'])
    os.makedirs(cwd, exist_ok=True)
    shworld.lay(cwd, '.', shworld.BYSTANDERS)
    src = os.path.join(cwd if sc['form'] == 'within' else top, sc['src'])
    shworld.put_source(top, src, template)
    ws = os.path.join(cwd, 'tzfiles')
    shworld.decoys(top, cwd, ws)
    shworld.decoys(top, cwd, src)
    shworld.decoys(top, cwd, os.path.relpath(src, cwd))
    shworld.decoys(top, cwd, os.path.join(top, sc['tool']))
    if sc['exist'] and not os.path.lexists(ws):
        shworld.existing(top, ws, sc['exist'], src)
    had = os.path.lexists(ws)
    script = os.path.join(top, sc['tool'], 'tzcompiler.sh')
    if sc['call'] == 'rel':
        script = os.path.relpath(script, cwd)
        if not script.startswith('.'):
            script = './' + script
    elif sc['call'] == 'here':
        script = os.path.join(os.path.relpath(os.path.dirname(script), cwd),
                              'tzcompiler.sh')
    rel = os.path.relpath(ws, top)
    sim = shell.Sim(top, os.path.join(base, 'k'), comp, [rel])
    env = shworld.env_of(top, sc)
    os.umask(sc['umask'])
    fds = []
    counts = {}
    text = ''
    try:
        batch = []
        for n, run in enumerate(sc['runs']):
            s = shell.Script(n, run)
            s.faults = {f['at']: f for f in run['faults']}
            fd = shworld.out_of(sc['stdout'], base)
            fds.append(fd)
            batch.append((s, argv_of(top, sc, run, cwd, script, src), cwd,
                          env, fd))
        if sc['par']:
            sim.run(batch, sc['schedule'])
        else:
            for b in batch:
                sim.run([b], [])
        judge(sc, sim, rel, cwd, had, src, top, counts)
    except shell.Stuck as e:
        sim.problems.append(('stuck', str(e)))
    finally:
        sim.close()
        for fd in fds:
            os.close(fd)
    text = shworld.seen_text(base).replace(top, 'W')
    return shworld.result(sim, {'counts': counts, 'text': text})


def valid(run):
    return run['tag'] in ('', '2020a', '2023c') and not run.get('repo')


def judge(sc, sim, rel, cwd, had, src, top, counts):
    vs = shell.versions()
    for s in sim.scripts:
        run = s.spec
        counts['exit_%s' % ('0' if s.status == 0 else 'signal'
                            if s.status is None or s.status < 0
                            else 'other')] = \
            counts.get('exit_%s' % ('0' if s.status == 0 else 'signal'
                                    if s.status is None or s.status < 0
                                    else 'other'), 0) + 1
        who = 'run %d (%s)' % (s.n, 'tag %r' % run['tag'])
        if s.status == 0:
            bad = [c for c in s.cmds if c[2] != 0 and (
                c[0] in ('cp', 'tar', 'rsync', 'tzcompiler.py') or
                c[0] == 'git' and any(x in c[1] for x in (
                    b'clone', b'checkout', b'archive', b'worktree')))]
            if bad:
                sim.problems.append((
                    'status', '%s exited 0 although %s ended with %s' % (
                        who, bad[0][0], bad[0][2])))
            last = s.compiles[-1] if s.compiles else None
            if last is None or not last['ok']:
                sim.problems.append((
                    'status', '%s exited 0 although the compiler %s' % (
                        who, 'did not run' if last is None else 'failed')))
                continue
            extra = [x.replace('W/', top + '/') for x in run['extra']]
            if extra and last['args'][-len(extra):] != extra:
                sim.problems.append((
                    'flags', '%s gave the compiler %r instead of %r' % (
                        who, last['args'], extra)))
            if run['tag'] in vs and last['seen'] != vs[run['tag']]:
                d = [k for k in shell.ZONE_FILES
                     if last['seen'].get(k) != vs[run['tag']].get(k)]
                sim.problems.append((
                    'source', '%s compiled other zone files than the '
                    'requested ones: %s' % (who, d)))
            if last['opt'].get('--tz_version') != (run['tag'] or 'HEAD'):
                sim.problems.append((
                    'flags', '%s told the compiler version %r' % (
                        who, last['opt'].get('--tz_version'))))
            if os.path.realpath(last['out']) != os.path.realpath(cwd):
                sim.problems.append((
                    'flags', '%s told the compiler output directory %r' % (
                        who, sim.mask(last['out'].encode()))))
        elif not s.disturbed and valid(run) and not had and \
                sc['stdout'] == 'file' and len(sim.scripts) == 1 and \
                not (sc['form'] == 'within' and sc['src'][:1] == '-') and \
                not sc['src'].startswith('~'):
            sim.problems.append((
                'refused', '%s failed with status %s although nothing '
                'was wrong' % (who, s.status)))
        if run['nocleanup'] or s.killed or s.last_remove:
            continue
        left = sorted(k for k, v in sim.owner.items()
                      if v == 'S%d' % s.n and k in sim.now)
        if left:
            sim.problems.append((
                'left', '%s ended with status %s and left %r (%d entries) '
                'behind' % (who, s.status, sim.mask(left[0]), len(left))))


def execute(sc):
    res = Result()
    shell.load_scripts()
    t = shell.template()
    base = shell.world()
    try:
        out = shell.unprivileged(simulate, base, sc, t)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    shworld.account(res, out, sc['exist'], sc['par'])
    return res


def simplify(sc):
    if sc['par'] and len(sc['runs']) == 1:
        yield dict(sc, par=False, schedule=[])
    yield from shworld.smaller(sc)
