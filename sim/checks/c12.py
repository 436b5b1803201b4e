"""C12: copytz.sh only ever prunes the copy it just made."""
import os
import shutil

from sim import shell, shworld
from sim.engine import Result

ID = 'C12'
COUNTS = {'quick': 1000, 'thorough': 28000}
META = {
    'rule': 'Each scenario draws a world (awkward names of the working, '
            'source and target directories; files where naive splitting, '
            'globbing, CDPATH or "cd -" would lead; something already at the '
            'target), one to three runs of the copy script, one after the '
            'other or side by side, to the same or different targets, with '
            'tags that exist or not, and up to three faults per run: a '
            'command fails, is killed or has part of its effect; a signal '
            'reaches the script or its group before, during or after a '
            'command; the target disappears or is locked; output goes to a '
            'closed pipe or a full device.',
    'states': 'distinct (exit statuses, sequence of commands with faults '
              'and outcomes)',
    'time': 'none: the scripts use no timers; runs are counted in commands',
    'real': ['copytz.sh, run by bash', 'cp, rm, git, mkdir and the other '
             'commands, on the scratch directory, when the plan lets them'],
    'stub': ['every command is a client of the simulator, which decides '
             'its effect and outcome'],
    'assumptions': ['signals arrive while a command runs, not between two '
                    'instructions of the shell itself'],
}


def gen(r, i, tier):
    awk = r.random() < 0.55
    sc = {
        'tool': 'tool', 'cwd': shworld.name(r, 'zonedb', 0.6 if awk else 1),
        'src': shworld.name(r, 'tz', 0.5 if awk else 1),
        'dst': shworld.name(r, 'out', 0.3 if awk else 1),
        'form': r.choice(['abs', 'rel', 'slash', 'within']),
        'dstform': r.choice(['rel', 'rel', 'rel', 'abs', 'abs', 'slash',
                             'deep', 'dot']),
        'exist': r.choice(shworld.KINDS) if r.random() < 0.22 else None,
        'stdout': r.choice(['file'] * 10 + ['pipe', 'full']),
        'umask': r.choice([0o22] * 6 + [0o77, 0, 0o27]),
        'env': {}, 'par': False, 'schedule': [], 'runs': [],
    }
    if r.random() < 0.1:
        sc['dst'] = r.choice(['-', '', '.', '..', '--', '-L', '-P'])
        sc['dstform'] = 'raw'
    if sc['src'] in (sc['cwd'], sc['dst']):
        sc['src'] = 'tz'
    if r.random() < 0.35:
        sc['env']['CDPATH'] = r.choice(['W/elsewhere', 'W/elsewhere:.',
                                        'W:W/elsewhere', ':W/elsewhere',
                                        'W/elsewhere:W/precious'])
    if r.random() < 0.5 or sc['dst'] == '-':
        sc['env']['OLDPWD'] = r.choice(['W/home', 'W/elsewhere'])
    n = r.choice([1, 1, 1, 1, 2, 2, 3])
    if n > 1 and r.random() < 0.6:
        sc['par'] = True
        sc['schedule'] = [r.randrange(2 * n) for _ in range(24)]
        if r.random() < 0.3:
            sc['schedule'] = sorted(sc['schedule'])
    quiet = r.random() < 0.25
    for k in range(n):
        run = {'tag': r.choice(['', '', '2020a', '2023c'] * 4 + [
                   'dev', 'nosuch', 'a b', '-x', '*']), 'faults': []}
        if n > 1 and r.random() < 0.4:
            run['other'] = True     # its own target
        if r.random() < 0.03:
            run['repo'] = r.choice(['missing', 'file', 'none', 'three'])
        if not quiet and (n == 1 or r.random() < 0.6):
            m = r.choice([1, 1, 1, 2, 3])
            run['faults'] = [shworld.fault(r, 5, vanish=n == 1)
                             for _ in range(m)]
            if r.random() < 0.08:
                run['faults'][-1]['do'] = 'lock'
        sc['runs'].append(run)
    return sc


def target(sc, run, top, cwd):
    """(argument, path relative to the world or None)"""
    d = sc['dst']
    if run.get('other') and d not in ('', '.', '..'):
        d = d + '2'
    f = sc['dstform']
    if f == 'raw':
        if d in ('', '.', '..'):
            return d, None
        return d, os.path.relpath(os.path.join(cwd, d), top)
    if f == 'abs':
        p = os.path.join(top, d)
        return p, os.path.relpath(p, top)
    if f == 'deep':
        a = os.path.join('no', 'such', d)
    elif f == 'dot':
        a = './' + d
    elif f == 'slash':
        a = d + '/'
    else:
        a = d
    return a, os.path.relpath(os.path.join(cwd, a), top)


def argv_of(top, sc, run, cwd, script, src):
    form = sc['form']
    repo = {'abs': src, 'rel': os.path.relpath(src, cwd),
            'slash': src + '/', 'within': os.path.relpath(src, cwd)}[form]
    a = [script]
    if run['tag']:
        a += ['--tag', run['tag']]
    arg, _ = target(sc, run, top, cwd)
    if run.get('repo') == 'missing':
        repo = os.path.join(top, 'no/such repo')
    elif run.get('repo') == 'file':
        repo = os.path.join(top, 'precious/keep.txt')
    if run.get('repo') == 'none':
        return a + [arg]
    a += [repo, arg]
    if run.get('repo') == 'three':
        a.append('third')
    return a


def simulate(base, sc, template):
    top, comp = shworld.base_world(base, sc)
    cwd = os.path.join(top, sc['cwd'])
    os.makedirs(cwd, exist_ok=True)
    shworld.lay(cwd, '.', shworld.BYSTANDERS)
    src = os.path.join(cwd if sc['form'] == 'within' else top, sc['src'])
    shworld.put_source(top, src, template)
    shworld.decoys(top, cwd, src)
    shworld.decoys(top, cwd, os.path.relpath(src, cwd))
    ws = []
    for run in sc['runs']:
        arg, rel = target(sc, run, top, cwd)
        if rel is None or rel in ws:
            continue
        ws.append(rel)
        shworld.decoys(top, cwd, arg)
        # where CDPATH would lead
        if not os.path.isabs(arg) and not arg.startswith('-'):
            for d in ('elsewhere', 'precious', 'home'):
                shworld.lay(os.path.join(top, d, arg), '.',
                            {'keep.txt': b'precious\n', 'asia': b'decoy\n',
                             'sub/x': b'x\n'})
        elif arg.startswith('-'):
            shworld.lay(os.path.join(top, 'elsewhere', arg), '.',
                        {'keep.txt': b'precious\n', 'asia': b'decoy\n'})
    if sc['exist'] and ws and sc['dstform'] != 'deep':
        at = os.path.join(top, ws[0])
        if not os.path.lexists(at):
            shworld.existing(top, at, sc['exist'], src)
    had = {w for w in ws if os.path.lexists(os.path.join(top, w))}
    script = os.path.join(top, 'tool', 'copytz.sh')
    sim = shell.Sim(top, os.path.join(base, 'k'), comp, ws)
    env = shworld.env_of(top, sc)
    os.umask(sc['umask'])
    fds = []
    counts = {}
    try:
        batch = []
        for n, run in enumerate(sc['runs']):
            s = shell.Script(n, run)
            s.faults = {f['at']: f for f in run['faults']}
            fd = shworld.out_of(sc['stdout'], base)
            fds.append(fd)
            batch.append((s, argv_of(top, sc, run, cwd, script, src), cwd,
                          env, fd))
        before = []
        if sc['par']:
            before = [sim.now] * len(batch)
            sim.run(batch, sc['schedule'])
        else:
            for b in batch:
                before.append(sim.now)
                sim.run([b], [])
        judge(sc, sim, top, cwd, before, had, counts)
    except shell.Stuck as e:
        sim.problems.append(('stuck', str(e)))
    finally:
        sim.close()
        for fd in fds:
            os.close(fd)
    text = shworld.seen_text(base).replace(top, 'W')
    return shworld.result(sim, {'counts': counts, 'text': text})


def judge(sc, sim, top, cwd, before, had, counts):
    vs = shell.versions()
    for s in sim.scripts:
        run = s.spec
        k = 'exit_%s' % ('0' if s.status == 0 else 'signal'
                         if s.status is None or s.status < 0 else 'other')
        counts[k] = counts.get(k, 0) + 1
        arg, rel = target(sc, run, top, cwd)
        who = 'run %d (tag %r, target %r)' % (s.n, run['tag'],
                                              sim.mask(arg.encode()))
        if s.status == 0:
            if rel is None or os.fsencode(rel) in before[s.n]:
                sim.problems.append((
                    'existing', '%s exited 0 although the target was '
                    'already there' % who))
                continue
            if run['tag'] not in vs:
                if run['tag'] != 'dev':
                    sim.problems.append((
                        'version', '%s exited 0, but there is no such '
                        'version' % who))
                continue
            want = {n.encode(): ('file', v)
                    for n, v in vs[run['tag']].items()}
            pre = os.fsencode(rel) + b'/'
            have = {}
            for p, (kind, _, data) in s.at_exit.items():
                if p.startswith(pre) and not p[len(pre):].startswith(b'.'):
                    have[p[len(pre):]] = (kind, data)
            ver = have.pop(b'version.txt', None)
            if have != want:
                bad = sorted(x for x in set(have) | set(want)
                             if have.get(x) != want.get(x))
                sim.problems.append((
                    'content', '%s exited 0, but the target is wrong: %s '
                    '%s' % (who, shell.show(bad[0]),
                            'is missing' if bad[0] not in have else
                            'should not be there' if bad[0] not in want
                            else 'differs')))
            if ver is None or ver[0] != 'file' or \
                    ver[1].strip() != run['tag'].encode():
                sim.problems.append((
                    'version', '%s exited 0, but version.txt is %r' % (
                        who, ver)))
        elif not s.disturbed and run['tag'] in vs and not run.get('repo') \
                and rel is not None and len(sim.scripts) == 1 and \
                os.fsencode(rel) not in sim.first and \
                sc['stdout'] == 'file' and sc['dstform'] != 'deep' and \
                not arg.startswith('-') and not (
                    sc['form'] == 'within' and sc['src'][:1] == '-'):
            sim.problems.append((
                'refused', '%s failed with status %s although nothing was '
                'wrong' % (who, s.status)))


def execute(sc):
    res = Result()
    shell.load_scripts()
    t = shell.template()
    base = shell.world()
    try:
        out = shell.unprivileged(simulate, base, sc, t)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    shworld.account(res, out, sc['exist'], sc['par'])
    return res


def simplify(sc):
    if sc['par'] and len(sc['runs']) == 1:
        yield dict(sc, par=False, schedule=[])
    yield from shworld.smaller(sc)
