"""C25: the log decides nothing and tells what happened."""
import os
import re
import sys

from sim import core, damage, decode, scene
from sim.checks import c08, c20
from sim.engine import Result
from sim import tzgen

ID = 'C25'
COUNTS = {'quick': 1600, 'thorough': 45000}
META = {
    'rule': 'Each scenario draws a source tree (half of them with odd or '
            'damaged fields), flags, an include list and sometimes an '
            'impossible request. The run is executed with its log kept, and '
            'then with standard output and error closed, broken after some '
            'lines, on a full disk, failing at one write only, or unable to '
            'encode: status and files must be the same. The kept log is then '
            'read: a run that fails must say why, and settings, numbers of '
            'records and every announced removal and note must agree with the '
            'request, the source and the database. Distinct counts the '
            'different (scope, languages, stream fault, outcome, '
            'announcements) seen.',
    'states': 'distinct (scope, languages, fault of the streams, status, '
              'kinds of announcements)',
    'assumptions': ['sentences of the log whose wording is not known are not '
                    'judged'],
}
STREAMS = ['none', 'ebadf', 'epipe', 'epipe', 'full', 'once', 'ascii',
           'eio']
REQUESTS = [['--actions', 'zonedb,zonelists'], ['--languages', 'rust'],
            ['--languages', ','], ['--scope', 'all'], ['--start_year', 'x'],
            ['--no_such_flag'], ['--input_dir', 'nowhere'],
            ['--include_list', 'nowhere.txt'], ['--tz_version', 'a"b'],
            ['--db_namespace', '1x'], ['--start_year', '1900'],
            ['--until_at_granularity', '0.5'], ['--actions', ''],
            ['--delta_granularity', '0']]


class Stream:
    """Standard output or error with a fault in it."""
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, kind, at, sim, name, keep):
        self.kind, self.at, self.n = kind, at, 0
        self.sim, self.name, self.keep = sim, name, keep
        self.closed = False
        self.pending = False

    def write(self, s):
        if self.kind == 'ascii':
            try:
                s.encode('ascii')
            except UnicodeEncodeError:
                self.sim.hit('ascii@' + self.name)
                raise
        n, self.n = self.n, self.n + 1
        bad = {'epipe': (BrokenPipeError, 32), 'full': (OSError, 28),
               'once': (OSError, 5), 'eio': (OSError, 5),
               'ebadf': (OSError, 9)}.get(self.kind)
        if bad and (n == self.at if self.kind == 'once' else
                    self.kind == 'ebadf' or n >= self.at):
            self.sim.hit('%s@%s' % (self.kind, self.name))
            self.pending = self.kind != 'once'
            raise bad[0](bad[1], os.strerror(bad[1]))
        self.keep.write(s)
        return len(s)

    def flush(self):
        if self.pending:
            raise OSError(5, os.strerror(5))

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise OSError('no descriptor')


def gen(r, i, tier):
    scope = r.choice(['basic', 'basic', 'extended', 'complete'])
    sc = scene.gen_base(r, scope=scope, big=0.05, include=0.15,
                        langs=r.choice([['python'], ['go'], ['c', 'python'],
                                        ['arduino'], ['python', 'go', 'c']]),
                        actions=['zonedb', 'json', 'zonelist'])
    f = sc['flags']
    f.pop('json', None)
    if r.random() < 0.4:
        f['strict'] = False
    if r.random() < 0.2:
        f[r.choice(['until_at_granularity', 'offset_granularity',
                    'delta_granularity'])] = r.choice(
            [60, 300, 900, 1800, 3600])
    if r.random() < 0.2:
        f['start'], f['until'] = r.choice([(2000, 2001), (1995, 2010),
                                           (2020, 2060), (1985, 2035)])
    if r.random() < 0.6:
        c20.odd(r, sc['blocks'], r.choice([1, 2, 4, 8]), scope,
                scope != 'basic' and r.random() < 0.7)
    if scope == 'basic' and r.random() < 0.2:
        c20.border(r, sc['blocks'])
    if r.random() < 0.2:
        sc['damage'] = [damage.draw(r, hard=r.choice([0.3, 1.0]))
                        for _ in range(r.choice([1, 2]))]
    if r.random() < 0.12:
        sc['request'] = r.choice(REQUESTS)
    if r.random() < 0.1:
        sc['fault'] = [{'at': r.randrange(1, 150), 'do': r.choice(
            ['EIO', 'ENOSPC', 'EACCES', 'ENOMEM', 'interrupt', 'memory'])}]
    sc['streams'] = [
        [r.choice(STREAMS) if r.random() < .9 else '', r.choice(STREAMS)
         if r.random() < .5 else '', r.choice([0, 1, 2, 5, 20, 40]) if
         r.random() < .6 else r.randrange(60)]
        for _ in range(r.choice([1, 1, 2]))]
    return sc


def tamper(spec):
    """Replace the streams of the run; spec: [error, output, at]."""
    def prepare(sim):
        for name, kind in zip(('stderr', 'stdout'), spec):
            if kind == 'none':
                sim.hit('none@' + name)
                setattr(sys, name, None)
            elif kind:
                setattr(sys, name, Stream(kind, spec[2], sim, name,
                                          getattr(sys, name)))
    return prepare


def execute(sc):
    res = Result()
    w = core.World()
    f = sc['flags']
    try:
        argv = scene.args(sc) + sc.get('request', [])
        where = ' '.join(argv)

        def fresh():
            core.shutil.rmtree(w.path('out'), ignore_errors=True)
            w.put('out/.keep', '')
        scene.setup(w, sc)
        files = {n: t.encode('utf-8') for n, t in
                 tzgen.render(sc['blocks']).items()}
        if sc.get('damage'):
            files, done = damage.apply(tzgen.render(sc['blocks']),
                                       sc['damage'])
            for k, v in done.items():
                res.fired[k] = res.fired.get(k, 0) + v
            c08.place(w, files)
        plan = {'faults': sc.get('fault')}
        fresh()
        o = core.compile_run(w, argv, core.Plan.of(plan), keep_log=False)
        res.run(o)
        if o.get('crashed') or o.get('died'):
            return res
        out = scene.files(w.snap('out'))
        kinds = set()
        bad = read(o, sc, out, kinds)
        if bad:
            res.violation('untrue', '%s; %s' % (bad, where))
            return res
        for x in kinds:
            res.count('announced: ' + x)
        for s in sc['streams']:
            fresh()
            p = core.compile_run(w, argv, core.Plan.of(plan), keep_log=False,
                                 prepare=tamper(s))
            res.run(p)
            if (p.get('exit') == 0) != (o.get('exit') == 0) or p.get('died'):
                res.violation('status', 'with its log kept the run ends with '
                              '%s, with streams %s with %s; %s' % (
                                  scene.tell(o), s, scene.tell(p), where))
                return res
            now = scene.files(w.snap('out'))
            if now != out:
                n = min(k for k in set(now) | set(out)
                        if now.get(k) != out.get(k))
                res.violation('files', 'streams %s change %s: %s; %s' % (
                    s, n, scene.diff(out.get(n), now.get(n)), where))
                return res
            res.saw(f['scope'], sorted(f['langs']), s[:2], o.get('exit'),
                    len(kinds))
        res.saw(f['scope'], sorted(f['langs']), o.get('exit'), sorted(kinds))
    finally:
        w.close()
    return res


def argv_value(sc, flag):
    a = scene.args(sc) + sc.get('request', [])
    return a[len(a) - a[::-1].index(flag)] if flag in a else None


def entries(log):
    """The messages of the log."""
    return [re.sub(r'^[A-Z]+:\w+:', '', x) for x in log.split('\n')]


def read(o, sc, out, kinds):
    """What is wrong with the log, if anything."""
    log = entries(o.get('log') or '')
    if o.get('exit') != 0:
        if o.get('exc') not in (None, 'SystemExit') or (
                o.get('stdout') or '').strip():
            return None              # a traceback, or a message
        if o.get('exc') == 'SystemExit' and (o.get('msg') or '0')[0] not in \
                '0123456789N':
            return None
        if re.search('^(error|warning|critical)|usage|invalid|must|cannot',
                     o.get('log') or '', re.I | re.M):
            return None
        return 'the run ends with %s and does not say why' % scene.tell(o)
    f = sc['flags']
    for x in log:
        m = re.match(r'Scope: (\w+)$', x)
        if m and m[1] != argv_value(sc, '--scope'):
            return 'the log says %r' % x
        m = re.match(r'Strict: (\w+)$', x)
        if m and m[1] != str(f.get('strict') is not False):
            return 'the log says %r' % x
        m = re.match(r'Start year: (-?\d+); Until year: (-?\d+)$', x) or \
            re.match(r'Processing years \[(\d+), (\d+)\)$', x)
        if m and list(m.groups()) != [argv_value(sc, '--start_year'),
                                      argv_value(sc, '--until_year')]:
            return 'the log says %r' % x
        m = re.match(r'TZ Version: (.*)$', x)
        if m and m[1] != argv_value(sc, '--tz_version'):
            return 'the log says %r' % x
    try:
        d = decode.decode_json(out['zonedb.json'])['raw']
    except (decode.Bad, KeyError):
        return None
    sums = {}
    n = 0
    while n < len(log):
        x = log[n]
        n += 1
        m = re.match(r'Summary: (Zone|Policie|Link)s: generated=(\d+); '
                     r'removed=(\d+); noted=(\d+)$', x)
        if m:
            k = m[1].lower().replace('ie', 'y') + 's' if m[1] != 'Policie' \
                else 'policies'
            real = [len(d[k + '_map']), len(d['removed_' + k]),
                    len(d['notable_' + k])]
            kinds.add('summary of ' + k)
            if [int(v) for v in m.groups()[1:]] != real:
                return 'the log says %r, the database holds %s' % (x, real)
        m = re.match(r'(?:.* )?Summary: (\d+) Zones; (\d+) Policies; (\d+) '
                     r'Links$', x)
        if m:
            real = [len(d[k + '_map']) for k in ('zones', 'policies',
                                                 'links')]
            if [int(v) for v in m.groups()] != real:
                return 'the log says %r, the database holds %s' % (x, real)
        m = re.match(r'(Removed|Noted) (\d+) (zone|polic|link)', x)
        if not m:
            continue
        kind = 'policies' if 'polic' in x else {
            'z': 'zones', 'l': 'links'}[m[3][0]]
        key = {'R': 'removed_', 'N': 'notable_'}[m[1][0]] + kind
        kinds.add(re.sub(r'\d+ ', '', x))
        total = int(m[2])
        sums.setdefault(key, [0, set()])[0] += total
        shown, cut = 0, False
        while n < len(log) and log[n].startswith('- '):
            y = log[n]
            n += 1
            if y == '- [...]':
                cut = True
                continue
            shown += 1
            e = re.match(r'- (\S+) \((.*)\)$', y)
            if not e:
                continue
            if e[1] not in d[key]:
                return 'the log says %r under %r, but the database has no ' \
                    'such entry for it' % (y, x)
            sums[key][1].add(e[1])
            for t in d[key][e[1]]:
                if t in e[2] or repr(t) in e[2]:
                    break
            else:
                return 'the log says %r, the database %r' % (y, d[key][e[1]])
        if shown != total if not cut else not 0 < shown < total:
            return '%r is followed by %d entries' % (x, shown)
    for k in ('zones', 'links', 'policies'):
        n = sums.get('removed_' + k, [0])[0]
        real = len(d['removed_' + k])
        if n != real:
            return 'the log announces the removal of %d %s, the database ' \
                'lists %d' % (n, k, real)
        n = sums.get('notable_' + k, [0])[0]
        # Long letters are noted without an announcement.
        real = sum(any('LETTER' not in t for t in v)
                   for v in d['notable_' + k].values())
        if n < real:
            return 'the log announces notes on %d %s, the database lists ' \
                '%d' % (n, k, real)
    return None


def simplify(sc):
    for key in ('damage', 'fault', 'include', 'request'):
        if sc.get(key) is not None:
            yield {a: b for a, b in sc.items() if a != key}
    if len(sc['streams']) > 1:
        for s in sc['streams']:
            yield dict(sc, streams=[s])
