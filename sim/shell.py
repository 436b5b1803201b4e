"""The shell simulator: the driver scripts under a simulated set of commands.

The repository's own scripts run in a real bash, as an unprivileged user, in a
world that is a scratch directory.  PATH leads to stand-in clients only.  A
client does nothing by itself: it reports its name, arguments and directory to
the simulator and waits.  The simulator decides which of the waiting commands
goes next, and what becomes of it: it has its real effect (the client runs the
real tool), a part of it, or none; it succeeds, fails or is killed; a signal
reaches the script or the whole group before, during or after it; the
workspace disappears under the script.  While a command is held, nothing else
in the world moves, so the order of effects is the simulator's choice alone.

The simulator looks at the whole world after every step and keeps, for every
path, the script that created it.
"""
import ast
import hashlib
import json
import os
import random
import select
import shutil
import signal
import socket
import stat
import subprocess
import sys
import tempfile
import time

from sim import core

UID = 65534
PY = sys.executable
ZONE_FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
              'etcetera', 'europe', 'northamerica', 'southamerica']
TOOLS = ['rm', 'rmdir', 'unlink', 'cp', 'mv', 'ln', 'mkdir', 'mktemp', 'touch',
         'chmod', 'chown', 'tar', 'find', 'git', 'python', 'python3',
         'install', 'rsync', 'dd', 'truncate', 'tee', 'shred', 'cpio', 'gzip',
         'unzip', 'xargs', 'patch', 'sponge', 'dirname', 'basename',
         'realpath', 'readlink', 'ls', 'stat', 'date']
PLAIN = ['bash', 'sh', 'env', 'cat', 'sed', 'grep', 'egrep', 'awk', 'mawk',
         'sort', 'uniq', 'head', 'tail', 'tr', 'cut', 'wc', 'true', 'false',
         'test', 'expr', 'printf', 'echo', 'sleep', 'uname', 'id', 'whoami',
         'pwd', 'seq', 'comm', 'diff', 'cmp', 'paste', 'tac', 'kill', 'flock',
         'getopt', 'hostname', 'od', 'sha1sum', 'sha256sum', 'md5sum',
         'nproc', 'tty', 'which', 'yes', 'timeout', 'setsid', 'nohup']
REMOVERS = {'rm', 'rmdir', 'unlink', 'find', 'mv', 'xargs', 'shred'}
MAKERS = {'mkdir', 'mktemp'}
READERS = {'dirname', 'basename', 'realpath', 'readlink', 'ls', 'stat',
           'date'}

CLIENT = '''#!%s -IS
import _socket, sys, posix, _signal
if _signal.getsignal(2) is _signal.default_int_handler:
    _signal.signal(2, 0)
s = _socket.socket(_socket.AF_UNIX, _socket.SOCK_STREAM)
s.connect(%r)
try:
    cwd = posix.getcwdb()
except OSError:
    cwd = b""
m = posix.umask(0); posix.umask(m)
s.send((ascii((posix.environ.get(b"SIMID", b""), posix.getpid(),
    [a.encode("utf-8", "surrogateescape") for a in sys.argv], cwd, m))
    + "\\n").encode())
buf = b""
while True:
    while b"\\n" not in buf:
        d = s.recv(65536)
        if not d:
            posix._exit(120)
        buf += d
    ln, buf = buf.split(b"\\n", 1)
    op, arg = ln[:1], ln[2:]
    if op == b"R":
        pid = posix.fork()
        if pid == 0:
            s.close()
            a = [sys.argv[0]] + sys.argv[1:]
            e = dict(posix.environ)
            e[b"PATH"] = b"/usr/local/bin:/usr/bin:/bin"
            try:
                posix.execve(arg, a, e)
            except OSError:
                posix._exit(126)
        st = posix.waitpid(pid, 0)[1]
        s.send(b"%%d\\n" %% st)
    elif op == b"P":
        try:
            posix.write(1, eval(arg.decode()))
            s.send(b"0\\n")
        except OSError:
            s.send(b"1\\n")
    elif op == b"X":
        posix._exit(int(arg))
    elif op == b"S":
        n = int(arg)
        if n != 9:
            _signal.signal(n, 0)
        posix.kill(posix.getpid(), n)
        _signal.pause()
'''


def which(n):
    return shutil.which(n, path='/usr/local/bin:/usr/bin:/bin')


# --------------------------------------------------------------------------
# Pictures of a world
# --------------------------------------------------------------------------

def picture(top):
    """{path relative to the world: (kind, mode, content)}"""
    out = {}
    stack = [b'']
    top = os.fsencode(top)
    while stack:
        d = stack.pop()
        try:
            it = list(os.scandir(os.path.join(top, d)))
        except OSError:
            out[d + b'/?'] = ('unreadable', 0, b'')
            continue
        for e in it:
            k = os.path.join(d, e.name)
            st = e.stat(follow_symlinks=False)
            mode = stat.S_IMODE(st.st_mode)
            if stat.S_ISLNK(st.st_mode):
                out[k] = ('link', 0, os.readlink(e.path))
            elif stat.S_ISDIR(st.st_mode):
                out[k] = ('dir', mode, b'')
                stack.append(k)
            elif stat.S_ISREG(st.st_mode):
                try:
                    with open(e.path, 'rb') as f:
                        out[k] = ('file', mode, f.read())
                except OSError:
                    out[k] = ('file', mode, b'?unreadable')
            else:
                out[k] = ('other', mode, b'')
    return out


def show(b):
    return b.decode('utf-8', 'backslashreplace')


# --------------------------------------------------------------------------
# The source repository
# --------------------------------------------------------------------------

def zone_text(name, version):
    return ('# tzdb %s, version %s\nZone\tX/%s\t1:00\t-\tX%s\n' % (
        name, version, name.capitalize(), version[-1])).encode()


def versions():
    """{tag or '': {zone file: content}}"""
    out = {}
    for v in ('2020a', '2023c'):
        out[v] = {n: zone_text(n, v) for n in ZONE_FILES
                  if not (v == '2020a' and n == 'backward')}
    out[''] = {n: zone_text(n, 'work') for n in ZONE_FILES
               if n != 'etcetera'}
    return out


CLUTTER = {'Makefile': b'all:\n', 'zic.c': b'int main(){}\n',
           'private.h': b'#define X\n', 'NEWS': b'news\n',
           'version': b'2023c\n', 'factory': b'Zone Factory 0 - -00\n',
           'leap-seconds.list': b'#\n', 'africa.bak': b'old\n',
           'asia2/europe': b'nested\n', 'two words': b'clutter\n',
           'backzone': b'# Zone\n', 'version.txt': b'wrong\n',
           'Asia': b'capital\n', '.gitignore': b'*.o\n',
           '-x': b'dash\n', '--help': b'dashes\n'}
# names that are nearly those of zone files
CLUTTER.update({f(z): b'clutter\n' for z in ZONE_FILES for f in (
    '{}.orig'.format, 'x{}'.format, '{}~'.format, str.capitalize,
    lambda z: z[:-1], lambda z: z[1:])})


def template():
    """A git repository with two tags and a changed working tree (made once
    per process, as the unprivileged user)."""
    global _TEMPLATE
    if _TEMPLATE and _TEMPLATE[0] == os.getpid():
        return _TEMPLATE[1]
    base = tempfile.mkdtemp(prefix='tpl', dir=core.scratch())
    d = os.path.join(base, 'r')
    os.mkdir(d)
    env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': base,
           'GIT_CONFIG_NOSYSTEM': '1', 'GIT_AUTHOR_NAME': 'a',
           'GIT_AUTHOR_EMAIL': 'a@b', 'GIT_COMMITTER_NAME': 'a',
           'GIT_COMMITTER_EMAIL': 'a@b',
           'GIT_AUTHOR_DATE': '1600000000 +0000',
           'GIT_COMMITTER_DATE': '1600000000 +0000'}

    def git(*a):
        subprocess.run(['git', '-c', 'gc.auto=0', '-c',
                        'advice.detachedHead=false'] + list(a), cwd=d,
                       env=env, check=True, stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

    def lay(files):
        for n in os.listdir(d):
            if n != '.git':
                p = os.path.join(d, n)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)
        for k, v in files.items():
            p = os.path.join(d, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(v)
        os.symlink('../../precious', os.path.join(d, 'outside'))
        os.symlink('../home', os.path.join(d, 'outside2'))
    vs = versions()
    git('init', '-q', '--template=', '-b', 'main')
    for v in ('2020a', '2023c'):
        lay(dict(CLUTTER, **vs[v]))
        git('add', '-A', '-f')
        git('commit', '-q', '-m', v)
        git('tag', v)
    with open(os.path.join(d, 'africa'), 'ab') as f:
        f.write(b'# later\n')
    git('commit', '-q', '-a', '-m', 'after')
    git('branch', 'dev', '2020a')
    git('pack-refs', '--all')
    lay(dict(CLUTTER, **vs['']))
    for dp, ds, fs in os.walk(base):
        for n in ds + fs:
            os.lchown(os.path.join(dp, n), UID, UID)
    os.lchown(base, UID, UID)
    os.chmod(base, 0o755)
    _TEMPLATE = (os.getpid(), d)
    return d


_TEMPLATE = None


# --------------------------------------------------------------------------
# Simulation
# --------------------------------------------------------------------------

class Script:
    def __init__(self, n, spec):
        self.n = n
        self.spec = spec
        self.pop = None
        self.status = None      # wait status once it ended
        self.held = []          # commands waiting: Command
        self.count = 0          # commands seen
        self.signals = []       # signals sent to it
        self.killed = False     # by a signal nothing can catch
        self.faults = {}
        self.last_remove = None     # how its last removal went
        self.made_badly = False     # a mkdir that had no clean outcome
        self.disturbed = []
        self.compiles = []
        self.at_exit = None     # picture when it ended
        self.cmds = []          # (name, arguments, wait status)


class Command:
    def __init__(self, conn, simid, pid, argv, cwd, umask):
        self.conn = conn
        self.simid = simid
        self.pid = pid
        self.argv = argv
        self.cwd = cwd
        self.umask = umask
        self.name = os.path.basename(argv[0]).decode('utf-8', 'replace')


class Stuck(Exception):
    pass


class Sim:
    """Runs scripts in the world `top`, as the calling (unprivileged) user."""

    def __init__(self, top, sock, compiler, workspaces=()):
        self.top = os.fsencode(top)
        self.compiler = compiler        # path of the stand-in compiler
        self.scripts = []
        self.orphans = []
        self.fired = {}
        self.owner = {}
        self.problems = []      # (key, what)
        self.trace = []
        self.ws = [os.fsencode(w) for w in workspaces]
        self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.srv.bind(sock)
        self.srv.listen(64)
        self.srv.setblocking(False)
        self.now = picture(top)
        self.first = self.now

    # -- bookkeeping ------------------------------------------------------

    def hit(self, kind, s=None):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        if s is not None:
            s.disturbed.append(kind)

    def mask(self, b):
        if isinstance(b, bytes):
            b = show(b)
        return b.replace(os.fsdecode(self.top), 'W').replace(
            os.path.dirname(os.fsdecode(self.top)), 'BASE')

    def note(self, *parts):
        self.trace.append(' '.join(str(p) for p in parts))

    def look(self, actor, what):
        """Compare the world with the last picture; `actor` did the change."""
        new = picture(self.top)
        old = self.now
        self.now = new
        who = 'S%d' % actor.n if isinstance(actor, Script) else actor
        for k in sorted(set(old) | set(new)):
            if old.get(k) == new.get(k):
                continue
            if k in new and k not in old:
                self.owner[k] = who
                continue
            own = self.owner.get(k)
            if k not in new:
                self.owner.pop(k, None)
            if who == 'sim' or own == who:
                continue
            if own == 'compiler' and who == 'compiler':
                continue
            verb = 'removed' if k not in new else 'changed'
            self.problems.append((
                'touched', '%s %s %r, which %s (during: %s)' % (
                    who, verb, self.mask(k),
                    'was there before' if own is None else
                    'the other run had created' if own.startswith('S') else
                    'belongs to the compiler', what)))

    # -- processes --------------------------------------------------------

    def start(self, s, argv, cwd, env, out):
        e = dict(env)
        e['SIMID'] = str(s.n)
        s.pop = subprocess.Popen(
            argv, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=out,
            stderr=subprocess.STDOUT, start_new_session=True,
            close_fds=True)
        self.scripts.append(s)

    def kids(self, pid):
        try:
            with open('/proc/%d/task/%d/children' % (pid, pid)) as f:
                return [int(x) for x in f.read().split()]
        except OSError:
            return []

    def leaves(self, pid):
        out = set()
        for k in self.kids(pid):
            if self.state(k) not in 'ZX':
                out |= self.leaves(k)
        return out or {pid}

    def state(self, pid):
        try:
            with open('/proc/%d/stat' % pid) as f:
                return f.read().rsplit(')', 1)[1].split()[0]
        except OSError:
            return 'X'

    def asleep(self, pid):
        """Blocked with no signal on its way."""
        try:
            if self.state(pid) != 'S':
                return False
            v = {}
            with open('/proc/%d/status' % pid) as f:
                for ln in f:
                    if ln.startswith(('SigPnd', 'ShdPnd', 'SigBlk')):
                        v[ln[:6]] = int(ln.split()[1], 16)
            if (v['SigPnd'] | v['ShdPnd']) & ~v['SigBlk']:
                return False
            return True
        except OSError:
            return False

    def accept(self, wait=0.0):
        if wait:
            select.select([self.srv], [], [], wait)
        got = False
        while True:
            try:
                c, _ = self.srv.accept()
            except (BlockingIOError, InterruptedError):
                return got
            c.setblocking(True)
            c.settimeout(20)
            buf = b''
            try:
                while not buf.endswith(b'\n'):
                    d = c.recv(65536)
                    if not d:
                        break
                    buf += d
            except OSError:
                buf = b''
            if not buf.endswith(b'\n'):
                c.close()
                continue
            simid, pid, argv, cwd, um = ast.literal_eval(buf.decode())
            cmd = Command(c, simid, pid, argv, cwd, um)
            got = True
            for s in self.scripts:
                if str(s.n).encode() == simid:
                    s.held.append(cmd)
                    s.held.sort(key=lambda h: h.argv)
                    break
            else:
                self.orphans.append(cmd)

    def poll(self, s):
        if s.status is None and s.pop.poll() is not None:
            s.status = s.pop.returncode
        return s.status

    def settle(self, s, limit=25.0):
        """Wait until the script has ended or stands still at commands."""
        end = time.time() + limit
        calm = 0
        while time.time() < end:
            self.accept(0.001 if not calm else 0.0005)
            if self.poll(s) is not None:
                self.accept()
                return
            held = {h.pid for h in s.held}
            lv = self.leaves(s.pop.pid)
            if lv and lv <= held and self.asleep(s.pop.pid):
                calm += 1
                if calm >= 3:
                    return
            else:
                calm = 0
        raise Stuck('script %d neither ended nor ran a command' % s.n)

    def ask(self, cmd, line):
        try:
            cmd.conn.sendall(line + b'\n')
            buf = b''
            while not buf.endswith(b'\n'):
                d = cmd.conn.recv(100)
                if not d:
                    return None
                buf += d
            return int(buf)
        except OSError:
            return None

    def tell(self, cmd, line):
        try:
            cmd.conn.sendall(line + b'\n')
        except OSError:
            pass
        cmd.conn.close()

    # -- effects ----------------------------------------------------------

    def inside(self, cmd, arg):
        """Is the path (its last component not followed) in the world?"""
        p = os.path.join(cmd.cwd or b'/nowhere', arg)
        p = p.rstrip(b'/') or b'/'
        parent = os.path.realpath(os.path.dirname(p))
        q = os.path.normpath(os.path.join(parent, os.path.basename(p)))
        return q.startswith(self.top + b'/')

    def guard(self, s, cmd):
        """Refuse to run what would reach out of the world."""
        if cmd.name not in ('rm', 'rmdir', 'unlink', 'mv', 'cp', 'ln', 'find',
                            'chmod', 'chown', 'shred', 'truncate', 'touch',
                            'install', 'tee', 'rsync', 'tar'):
            return True
        args = [a for a in cmd.argv[1:] if not a.startswith(b'-') or
                a.startswith(b'-/')]
        if cmd.name in ('find', 'tar', 'chmod', 'chown'):
            args = [a for a in args if a.startswith((b'/', b'..'))]
        for a in args:
            if a and not self.inside(cmd, a):
                self.problems.append((
                    'outside', 'S%d ran %s, which reaches %r' % (
                        s.n, self.mask(b' '.join(cmd.argv)), show(a))))
                return False
        return True

    def compile_of(self, cmd):
        """The arguments if this command is the compiler."""
        a = cmd.argv
        if cmd.name in ('python', 'python3'):
            for i, x in enumerate(a[1:], 1):
                if os.path.basename(x) == b'tzcompiler.py':
                    return a[i + 1:]
                if not x.startswith(b'-'):
                    return None
            return None
        return a[1:] if cmd.name == 'tzcompiler.py' else None

    def real(self, s, cmd):
        """Let the command have its real effect; its wait status."""
        comp = self.compile_of(cmd)
        if comp is not None:
            return self.compile(s, cmd, comp)
        if not self.guard(s, cmd):
            return 1 << 8
        tool = which(cmd.name)
        if tool is None:
            return 127 << 8
        st = self.ask(cmd, b'R ' + os.fsencode(tool))
        self.look(s, self.mask(b' '.join(cmd.argv))[:300])
        return 9 if st is None else st

    def compile(self, s, cmd, args):
        opt = {}
        for i, a in enumerate(args):
            for k in (b'--input_dir', b'--output_dir', b'--tz_version'):
                if a == k and i + 1 < len(args) and k not in opt:
                    opt[k] = args[i + 1]
                elif a.startswith(k + b'=') and k not in opt:
                    opt[k] = a[len(k) + 1:]
        ind = os.path.join(cmd.cwd, opt.get(b'--input_dir', b'nothing'))
        seen = {}
        for n in ZONE_FILES:
            try:
                with open(os.path.join(ind, n.encode()), 'rb') as f:
                    seen[n] = f.read()
            except OSError:
                pass
        outd = os.path.join(cmd.cwd, opt.get(b'--output_dir', b'nothing'))
        s.compiles.append({'args': [show(a) for a in args], 'seen': seen,
                           'opt': {show(k): show(v) for k, v in opt.items()},
                           'out': show(outd), 'ok': False})
        st = 0
        if self.inside(cmd, outd + b'/x'):
            try:
                with open(os.path.join(outd, b'zone_infos.cpp'), 'wb') as f:
                    f.write(b'// generated from %d files\n' % len(seen))
                with open(os.path.join(outd, b'zone_infos.h'), 'wb') as f:
                    f.write(b'// generated\n')
            except OSError:
                st = 1 << 8
        if len(seen) < 5:
            st = 1 << 8
        self.look('compiler', 'compiler')
        s.compiles[-1]['ok'] = st == 0
        return st

    def revert(self, s, before, seed, share):
        """Undo a random part of what the last command did."""
        r = random.Random(seed)
        made = sorted((k for k in self.now if k not in before), reverse=True)
        gone = sorted(k for k in before if k not in self.now)
        for k in made:
            if r.random() < share:
                p = os.path.join(self.top, k)
                try:
                    if self.now[k][0] == 'dir':
                        os.rmdir(p)
                    elif self.now[k][0] == 'file' and r.random() < 0.3:
                        with open(p, 'r+b') as f:
                            f.truncate(len(self.now[k][2]) // 2)
                    else:
                        os.unlink(p)
                except OSError:
                    pass
        back = set()
        for k in gone:
            up = os.path.dirname(k)
            if r.random() < share and (up in back or up in self.now or
                                       not up):
                kind, mode, data = before[k]
                p = os.path.join(self.top, k)
                try:
                    if kind == 'dir':
                        os.mkdir(p)
                        os.chmod(p, mode)
                    elif kind == 'link':
                        os.symlink(data, p)
                    else:
                        fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                                     0o600)
                        os.write(fd, data)
                        os.close(fd)
                        os.chmod(p, mode)
                    back.add(k)
                except OSError:
                    pass
        own = dict(self.owner)
        self.look('sim', 'partial effect')
        for k in made:
            if k in self.now:
                self.owner[k] = own.get(k, 'S%d' % s.n)
        for k in back:
            self.owner[k] = 'S%d' % s.n

    def wipe(self):
        for w in self.ws:
            p = os.path.join(self.top, w)
            if self.owner.get(w, '').startswith('S') and \
                    os.path.isdir(p) and not os.path.islink(p):
                for d, ds, fs in os.walk(p):
                    try:
                        os.chmod(d, 0o700)
                    except OSError:
                        pass
                shutil.rmtree(p, ignore_errors=True)
                self.look('sim', 'wiped')
                return True
        return False

    def lock(self):
        for w in self.ws:
            p = os.path.join(self.top, w)
            if self.owner.get(w, '').startswith('S') and \
                    os.path.isdir(p) and not os.path.islink(p):
                os.chmod(p, 0o555)
                self.look('sim', 'locked')
                return True
        return False

    def kill(self, s, sig):
        try:
            os.kill(s.pop.pid, sig)
            s.signals.append(sig)
            if sig == signal.SIGKILL:
                s.killed = True
            return True
        except OSError:
            return False

    # -- one step ---------------------------------------------------------

    def drain(self, s, but=None):
        """Serve the commands a script issues, without faults, until only
        `but` is left or the script has ended."""
        for _ in range(60):
            self.settle(s)
            more = [h for h in s.held if h is not but]
            if not more:
                return
            self.step(s, more[0], {})
        raise Stuck('script %d does not end' % s.n)

    def finish(self, s, cmd, st):
        """Let the client end with this wait status."""
        if cmd in s.held:
            s.held.remove(cmd)
        sig = st & 0x7f
        if sig:
            self.tell(cmd, b'S %d' % sig)
        else:
            self.tell(cmd, b'X %d' % (st >> 8))

    def step(self, s, cmd, fault):
        """Decide one command of a script."""
        do = fault.get('do')
        word = self.mask(b' '.join(cmd.argv))[:200]
        k = s.count
        s.count += 1
        comp = self.compile_of(cmd) is not None
        name = 'tzcompiler.py' if comp else cmd.name
        if name in MAKERS and do in ('partial', 'after'):
            do = 'fail'
        if name in MAKERS and fault.get('how') and do == 'group':
            fault = dict(fault, when='before')
        if name in REMOVERS:
            s.last_remove = None
        code = fault.get('code', 1)
        end = code if fault.get('how') == 'sig' else code << 8
        if do == 'vanish':
            if self.wipe():
                self.hit('workspace_vanished', s)
            else:
                do = None
        elif do == 'lock':
            if self.lock():
                self.hit('workspace_locked', s)
                s.last_remove = 'locked'
            else:
                do = None
        st = None
        if do in ('fail', 'partial', 'after'):
            self.hit('command_%s%s' % (
                {'fail': 'fails', 'partial': 'partly_done',
                 'after': 'fails_after_effect'}[do],
                '_killed' if fault.get('how') == 'sig' else ''), s)
            if do != 'fail':
                before = self.now
                st = self.real(s, cmd)
                if do == 'partial':
                    self.revert(s, before, fault['seed'],
                                fault.get('share', 0.5))
                if comp and s.compiles:
                    s.compiles[-1]['ok'] = False
            st = end
            if name in REMOVERS:
                s.last_remove = 'faulted'
        elif do in ('signal', 'group'):
            sig = fault['sig']
            when = fault.get('when', 'before')
            self.hit('%s_%s' % (do, signal.Signals(sig).name), s)
            if when == 'after':
                st = self.real(s, cmd)
            elif when == 'during' and do == 'group' and \
                    not self.ignores(cmd, sig):
                before = self.now
                self.real(s, cmd)
                self.revert(s, before, fault['seed'], 0.5)
            self.kill(s, sig)
            if do == 'group':
                try:
                    os.kill(cmd.pid, sig)
                except OSError:
                    pass
                # a client that does not ignore the signal ends here
                time.sleep(0.004)
                dead = self.gone(cmd)
                if dead:
                    if name in REMOVERS and when != 'after' and \
                            sig == signal.SIGKILL:
                        s.last_remove = 'faulted'
                    if comp and s.compiles:
                        s.compiles[-1]['ok'] = False
                    self.note('S%d' % s.n, k, word, do, sig, when, 'dead')
                    s.cmds.append((name, cmd.argv[1:], sig))
                    if cmd in s.held:
                        s.held.remove(cmd)
                    cmd.conn.close()
                    self.settle(s)
                    self.look(s, 'after ' + word)
                    return
            else:
                # the script alone: it may go on, or end, meanwhile
                self.drain(s, but=cmd)
                self.look(s, 'on signal %d' % sig)
            if st is None:
                st = self.real(s, cmd)
        if st is None:
            st = self.real(s, cmd)
        self.note('S%d' % s.n, k, word, do or '', fault.get('sig', ''),
                  fault.get('when', ''), st)
        s.cmds.append((name, cmd.argv[1:], st))
        self.finish(s, cmd, st)
        self.settle(s)
        self.look(s, 'after ' + word)

    def ignores(self, cmd, sig):
        try:
            with open('/proc/%d/status' % cmd.pid) as f:
                for ln in f:
                    if ln.startswith('SigIgn'):
                        return bool(int(ln.split()[1], 16) >> (sig - 1) & 1)
        except OSError:
            pass
        return False

    def gone(self, cmd):
        for _ in range(400):
            st = self.state(cmd.pid)
            if st in 'ZX':
                return True
            if st == 'S' and self.asleep(cmd.pid):
                time.sleep(0.002)
                return self.state(cmd.pid) in 'ZX'
            time.sleep(0.001)
        return False

    def run(self, batch, schedule):
        """Run scripts side by side; `schedule` picks who goes next."""
        for s, argv, cwd, env, out in batch:
            self.start(s, argv, cwd, env, out)
            self.settle(s)
            self.look(s, 'start')
            self.ended(s)
        live = [b[0] for b in batch]
        n = 0
        steps = 0
        while True:
            ready = [s for s in live if s.held]
            if not ready:
                left = [s for s in live if s.status is None]
                if not left:
                    break
                self.settle(left[0], 5)
                if left[0].status is None and not left[0].held:
                    raise Stuck('script %d hangs' % left[0].n)
                self.look(left[0], 'end')
                self.ended(left[0])
                continue
            steps += 1
            if steps > 200:
                raise Stuck('too many commands')
            pick = schedule[n % len(schedule)] if schedule else 0
            n += 1
            s = ready[pick % len(ready)]
            cmd = s.held[0]
            self.step(s, cmd, s.faults.get(s.count, {}))
            for x in live:
                self.ended(x)

    def ended(self, s):
        if self.poll(s) is not None and s.at_exit is None:
            self.look(s, 'exit')
            s.at_exit = self.now
            self.note('S%d' % s.n, 'exit', s.status)

    def close(self):
        for s in self.scripts:
            for h in s.held:
                h.conn.close()
            try:
                os.killpg(s.pop.pid, signal.SIGKILL)
            except (OSError, AttributeError):
                pass
        self.srv.close()


# --------------------------------------------------------------------------
# Runs a scenario in a child that is the unprivileged user
# --------------------------------------------------------------------------

def unprivileged(fn, *args):
    """fn(*args) in a forked child without privileges; its JSON result."""
    sys.stdout.flush()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            import ctypes
            ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
            if os.getuid() == 0:
                os.setgroups([])
                os.setgid(UID)
                os.setuid(UID)
            os.umask(0o022)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            out = fn(*args)
            data = json.dumps(out).encode()
            with os.fdopen(wfd, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            import traceback
            try:
                os.write(wfd, json.dumps(
                    {'broken': traceback.format_exc()[-3000:]}).encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(wfd)
    buf = b''
    with os.fdopen(rfd, 'rb') as f:
        buf = f.read()
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else {'broken': 'no answer'}


def world():
    """A new empty world, owned by the unprivileged user."""
    base = tempfile.mkdtemp(prefix='s', dir=core.scratch())
    p = base
    while p.startswith(tempfile.gettempdir() + os.sep):
        os.chmod(p, 0o755)
        p = os.path.dirname(p)
    os.mkdir(os.path.join(base, 'W'))
    for d in (base, os.path.join(base, 'W')):
        if os.getuid() == 0:
            os.chown(d, UID, UID)
    return base


def furnish(base, tool):
    """The stand-in commands and a copy of the scripts (in the child)."""
    top = os.path.join(base, 'W')
    b = os.path.join(top, 'bin')
    os.mkdir(b)
    text = CLIENT % (PY, os.path.join(base, 'k'))
    cl = os.path.join(base, 'client')
    with open(cl, 'w') as f:
        f.write(text)
    os.chmod(cl, 0o755)
    for n in TOOLS:
        if which(n) or n in ('python', 'python3'):
            os.symlink(cl, os.path.join(b, n))
    for n in PLAIN:
        p = which(n)
        if p:
            os.symlink(p, os.path.join(b, n))
    t = os.path.join(top, tool)
    for k, (mode, data) in SCRIPTS.items():
        p = os.path.join(t, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        os.chmod(p, mode)
    comp = os.path.join(t, 'src/acetimetools/tzcompiler.py')
    os.makedirs(os.path.dirname(comp), exist_ok=True)
    with open(comp, 'w') as f:
        f.write(text)
    os.chmod(comp, 0o755)
    return top, comp


def load_scripts():
    """The scripts of the repository, read before privileges are dropped."""
    if SCRIPTS:
        return
    for d, ds, fs in os.walk(core.REPO):
        ds[:] = [x for x in ds if x not in ('.git', 'tests', 'archive')]
        for n in fs:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, core.REPO)
            if n.endswith('.sh') or os.sep not in rel:
                if os.path.isfile(p):
                    with open(p, 'rb') as f:
                        SCRIPTS[rel] = (stat.S_IMODE(os.stat(p).st_mode) |
                                        0o444, f.read())


SCRIPTS = {}
