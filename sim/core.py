"""The in-process simulator: one compiler run (or several) under a simulated
operating system.

A run executes the real code of /repo/src in a forked child.  Every file
operation the code performs under the world's root goes through the seam in
this module (`open`, `io.open`, and the `os` calls that change the file
system); raw transfers use Python's own buffered/text layers on top of a raw
device that this module owns, so short transfers, errors at any operation,
full disks and crashes are decided by the plan and nothing else.

The plan is a list of faults, see `Plan`.  The event log lists every operation
in order; it contains neither clock readings nor addresses, so equal seeds give
equal logs.
"""
import atexit
import builtins
import errno
import gc
import io
import os
import pickle
import random
import resource
import shutil
import signal
import stat
import struct
import sys
import threading
import time
import traceback

REPO = os.environ.get('SIM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')

REAL = {
    'open': io.open, 'os_open': os.open, 'os_read': os.read,
    'os_write': os.write, 'os_close': os.close, 'lseek': os.lseek,
    'ftruncate': os.ftruncate, 'fstat': os.fstat, 'replace': os.replace,
    'rename': os.rename, 'remove': os.remove, 'unlink': os.unlink,
    'mkdir': os.mkdir, 'rmdir': os.rmdir, 'link': os.link,
    'symlink': os.symlink, 'truncate': os.truncate, 'chmod': os.chmod,
    'utime': os.utime, 'listdir': os.listdir, 'scandir': os.scandir,
    'fsync': os.fsync, 'getcwd': os.getcwd,
}

CRASH_STATUS = 77


# --------------------------------------------------------------------------
# Plans
# --------------------------------------------------------------------------

class Plan:
    """What the simulated environment does to a run.

    faults: list of dicts, each either
        {'at': n, 'do': kind, ...}      at the n-th file operation (0-based)
            ('part': k makes a write transfer k bytes first and fail next)
        {'line': n, 'do': kind}         at the n-th executed source line
    kinds at operations: an errno name ('EIO', 'ENOSPC', ...) which makes the
    operation fail; 'crash' (the process dies), 'crash_after' (dies right after the
    operation), 'interrupt' (KeyboardInterrupt), 'memory' (MemoryError).
    kinds at lines: 'crash', 'interrupt', 'memory', 'term' (SystemExit).

    short: None or [seed, p_read, p_write]: partial transfers at random.
    budget: None or number of bytes that fit on the disk.
    bufsize: buffer size of the buffered layer.
    steps: None or the number of source lines after which a run that is
        traced is killed.
    """

    def __init__(self, faults=None, short=None, budget=None, bufsize=8192,
                 sticky=False, steps=None):
        self.steps = steps
        self.faults = faults or []
        self.short = short
        self.budget = budget
        self.bufsize = bufsize
        self.sticky = sticky

    @staticmethod
    def of(d):
        d = d or {}
        return Plan(d.get('faults'), d.get('short'), d.get('budget'),
                    d.get('bufsize', 8192), d.get('sticky', False),
                    d.get('steps'))


class Crash(BaseException):
    """Raised by nobody: crashes really end the child process."""


ERRNAMES = {n: getattr(errno, n) for n in (
    'EIO', 'ENOSPC', 'EDQUOT', 'EACCES', 'ENOENT', 'EMFILE', 'ENFILE',
    'EROFS', 'EFBIG', 'ESTALE', 'ENOMEM', 'EISDIR', 'EPERM', 'ENOTDIR',
    'ETIMEDOUT', 'ENXIO', 'EBADF', 'EAGAIN')}


# --------------------------------------------------------------------------
# The simulated operating system (lives in the child)
# --------------------------------------------------------------------------

class SimOS:
    def __init__(self, root, plan, sink=None):
        self.root = os.path.realpath(root)
        self.plan = plan
        self.ops = 0
        self.log = []            # [kind, relpath, detail]
        self.fired = {}          # fault kind -> times it took effect
        self.outside = []        # attempts to change something outside root
        self.sink = sink         # called before the process dies
        self.sched = None        # cooperative scheduler, if any
        self.by_op = {}
        for f in plan.faults:
            if 'at' in f:
                self.by_op.setdefault(f['at'], []).append(f)
        self.lines = {f['line']: f for f in plan.faults if 'line' in f}
        self.short = None
        if plan.short:
            self.short = random.Random(plan.short[0])
        self.budget = plan.budget
        self.stuck = None        # sticky error, e.g. a device that stays bad
        self.versions = None     # rel -> contents at each close after writing
        self.encoding = None     # simulated locale encoding
        self.pending = {}        # rel -> error of the next write

    # -- bookkeeping ------------------------------------------------------

    def hit(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def rel(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        p = os.path.abspath(path)
        parent = os.path.realpath(os.path.dirname(p))
        p = os.path.join(parent, os.path.basename(p))
        if p == self.root:
            return '.'
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1:]
        return None

    def die(self):
        if self.sink:
            self.sink()
        os._exit(CRASH_STATUS)

    def op(self, kind, rel, detail=None):
        """Called before every operation; returns a partial-transfer limit."""
        if self.sched is not None:
            self.sched.point(kind, rel)
        n = self.ops
        self.ops += 1
        self.log.append([kind, rel, detail])
        after = None
        for f in self.by_op.get(n, ()):
            do = f['do']
            if do == 'crash':
                if f.get('part') is not None and kind == 'write':
                    self.hit('torn_write_crash')
                    return ('crash', f['part'])
                self.hit('crash@' + kind)
                self.die()
            elif do == 'crash_after':
                self.hit('crash_after@' + kind)
                after = 'crash'
            elif do == 'interrupt':
                self.hit('interrupt@' + kind)
                raise KeyboardInterrupt('simulated')
            elif do == 'memory':
                self.hit('memory@' + kind)
                raise MemoryError('simulated')
            elif do == 'short':
                self.hit('short_' + kind)
                return ('short', max(1, f.get('part', 1)))
            else:
                self.hit(do + '@' + kind)
                if self.plan.sticky and kind in ('write', 'read'):
                    self.stuck = (kind, do)
                if f.get('part') and kind == 'write':
                    return ('error', f['part'], do)
                raise OSError(ERRNAMES[do], os.strerror(ERRNAMES[do]), rel)
        if self.stuck and self.stuck[0] == kind:
            do = self.stuck[1]
            self.hit('sticky_' + do + '@' + kind)
            raise OSError(ERRNAMES[do], os.strerror(ERRNAMES[do]), rel)
        if after:
            return ('crash_after',)
        return None

    # -- line-level faults ------------------------------------------------

    def line_tracer(self):
        """A trace function that counts the executed lines of /repo/src."""
        src = SRC + os.sep
        counter = [0]
        lines = self.lines
        steps = self.plan.steps or float('inf')

        def local(frame, event, arg):
            if event == 'line':
                n = counter[0]
                counter[0] = n + 1
                if n >= steps:
                    self.hit('out_of_steps')
                    self.die()
                f = lines.get(n)
                if f is not None:
                    do = f['do']
                    self.hit(do + '@line')
                    if do == 'crash':
                        self.die()
                    if do == 'memory':
                        raise MemoryError('simulated')
                    if do == 'term':
                        raise SystemExit(143)
                    raise KeyboardInterrupt('simulated')
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(src):
                return local
            return None

        self.line_counter = counter
        return tracer

    # -- raw device -------------------------------------------------------

    def install(self):
        sim = self

        def sim_open(file, mode='r', buffering=-1, encoding=None,
                     errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int):
                dev = sim.fds.get(file)
                if dev is None:
                    return REAL['open'](file, mode, buffering, encoding,
                                        errors, newline, closefd, opener)
                raw = SimRaw(sim, dev, mode, fd=file, closefd=closefd)
            else:
                rel = sim.rel(file)
                writing = any(c in mode for c in 'wax+')
                if rel is None:
                    if writing and not _harmless(file):
                        sim.outside.append(['open', os.fspath(file), mode])
                        raise PermissionError(
                            errno.EACCES, 'outside the world', file)
                    return REAL['open'](file, mode, buffering, encoding,
                                        errors, newline, closefd, opener)
                raw = SimRaw(sim, rel, mode, opener=opener)
            return wrap(sim, raw, mode, buffering, encoding, errors, newline)

        builtins.open = sim_open
        io.open = sim_open
        self.fds = {}

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            rel = sim.rel(path)
            writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT
                               | os.O_TRUNC | os.O_APPEND)
            if rel is None:
                if writing and not _harmless(path):
                    sim.outside.append(['os.open', os.fspath(path), flags])
                    raise PermissionError(
                        errno.EACCES, 'outside the world', path)
                return REAL['os_open'](path, flags, mode, dir_fd=dir_fd)
            sim.op('open', rel, 'os%x' % flags)
            fd = REAL['os_open'](path, flags, mode)
            sim.fds[fd] = rel
            return fd

        def os_write(fd, data):
            rel = sim.fds.get(fd)
            if rel is None:
                return REAL['os_write'](fd, data)
            return sim.do_write(fd, rel, data)

        def os_read(fd, n):
            rel = sim.fds.get(fd)
            if rel is None:
                return REAL['os_read'](fd, n)
            return sim.do_read(fd, rel, n)

        def os_close(fd):
            rel = sim.fds.pop(fd, None)
            if rel is None:
                return REAL['os_close'](fd)
            return sim.do_close(fd, rel)

        def os_fsync(fd):
            rel = sim.fds.get(fd) if isinstance(fd, int) else None
            if rel is None:
                return None
            sim.op('fsync', rel)
            return None

        os.open, os.write, os.read, os.close = \
            os_open, os_write, os_read, os_close
        os.fsync = os.fdatasync = os_fsync

        def one(name):
            real = REAL[name]

            def call(path, *a, **k):
                if isinstance(path, int):
                    rel = sim.fds.get(path)
                else:
                    rel = sim.rel(path)
                if rel is None:
                    sim.outside.append(['os.' + name, str(path), ''])
                    raise PermissionError(
                        errno.EACCES, 'outside the world', path)
                sim.op(name, rel)
                return real(path, *a, **k)
            return call

        def two(name):
            real = REAL[name]

            def call(a, b, *x, **k):
                ra, rb = sim.rel(a), sim.rel(b)
                if ra is None or rb is None:
                    sim.outside.append(['os.' + name, str(a), str(b)])
                    raise PermissionError(
                        errno.EACCES, 'outside the world', b)
                sim.op(name, ra, rb)
                return real(a, b, *x, **k)
            return call

        for n in ('remove', 'unlink', 'mkdir', 'rmdir', 'truncate',
                  'chmod', 'utime'):
            setattr(os, n, one(n))
        for n in ('replace', 'rename', 'link', 'symlink'):
            setattr(os, n, two(n))

        def deny(name):
            def call(*a, **k):
                sim.outside.append([name, repr(a)[:200], ''])
                raise PermissionError(errno.EPERM, 'denied by the simulator')
            return call
        for n in ('system', 'popen', 'execv', 'execve', 'execvp', 'execvpe',
                  'posix_spawn', 'posix_spawnp', 'fork', 'forkpty', 'kill',
                  'killpg', 'mknod', 'mkfifo', 'chown', 'lchown', 'chroot'):
            if hasattr(os, n):
                setattr(os, n, deny('os.' + n))

    def do_write(self, fd, rel, data):
        data = bytes(data)
        d = self.op('write', rel, len(data))
        n = len(data)
        do = self.pending.pop(rel, None)
        if do:
            raise OSError(ERRNAMES[do], os.strerror(ERRNAMES[do]), rel)
        if d is not None:
            if d[0] == 'crash':
                REAL['os_write'](fd, data[:d[1]])
                self.die()
            if d[0] == 'error':
                # a short count first, the error at the next transfer
                n = min(d[1], n)
                self.pending[rel] = d[2]
            if d[0] == 'short':
                n = min(n, d[1])
        elif self.short and self.short.random() < self.plan.short[2] and n > 1:
            n = 1 + self.short.randrange(n - 1)
            self.hit('short_write')
        if self.budget is not None:
            if self.budget <= 0 and n > 0:
                self.hit('disk_full')
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), rel)
            n = min(n, self.budget)
            self.budget -= n
        done = 0
        while done < n:
            done += REAL['os_write'](fd, data[done:n])
        if d is not None and d[0] == 'crash_after':
            self.die()
        return n

    def do_read(self, fd, rel, n):
        d = self.op('read', rel, n)
        if d is not None and d[0] == 'short':
            n = min(n, d[1])
        elif self.short and self.short.random() < self.plan.short[1] and n > 1:
            n = 1 + self.short.randrange(min(n - 1, 4096))
            self.hit('short_read')
        data = REAL['os_read'](fd, n)
        if d is not None and d[0] == 'crash_after':
            self.die()
        return data

    def do_close(self, fd, rel):
        try:
            d = self.op('close', rel)
        finally:
            REAL['os_close'](fd)
        if d is not None and d[0] == 'crash_after':
            self.die()


def _harmless(path):
    return str(path) in ('/dev/null', '/dev/tty', '/dev/stdout',
                         '/dev/stderr')


class SimRaw(io.RawIOBase):
    """The raw device under Python's buffered and text layers."""

    def __init__(self, sim, rel, mode, fd=None, closefd=True, opener=None):
        self.sim = sim
        self.rel = rel
        self.name = os.path.join(sim.root, rel)
        self.mode = mode.replace('t', '') + ('' if 'b' in mode else 'b')
        self._r = 'r' in mode or '+' in mode
        self._w = any(c in mode for c in 'wax+')
        self.closefd = closefd
        self._fd = -1
        if fd is not None:
            self._fd = fd
            sim.fds.pop(fd, None)
        else:
            flags = os.O_CLOEXEC
            if '+' in mode:
                flags |= os.O_RDWR
            elif self._w:
                flags |= os.O_WRONLY
            if 'w' in mode:
                flags |= os.O_CREAT | os.O_TRUNC
            elif 'a' in mode:
                flags |= os.O_CREAT | os.O_APPEND
            elif 'x' in mode:
                flags |= os.O_CREAT | os.O_EXCL
            d = sim.op('open', rel, self.mode)
            if sim.budget is not None and 'w' in mode:
                # truncating gives the old blocks back
                try:
                    sim.budget += os.path.getsize(self.name)
                except OSError:
                    pass
            if os.path.isdir(self.name):
                raise IsADirectoryError(
                    errno.EISDIR, os.strerror(errno.EISDIR), rel)
            try:
                self._fd = REAL['os_open'](self.name, flags, 0o666)
            except OSError as e:
                raise type(e)(e.errno, e.strerror, rel) from None
            if d is not None and d[0] == 'crash_after':
                sim.die()

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        self.sim.fds[self._fd] = self.rel      # for os.fsync and the like
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        data = self.sim.do_read(self._fd, self.rel, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        return self.sim.do_write(self._fd, self.rel, b)

    def seek(self, pos, whence=0):
        return REAL['lseek'](self._fd, pos, whence)

    def tell(self):
        return REAL['lseek'](self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.sim.op('truncate', self.rel, size)
        REAL['ftruncate'](self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            fd, self._fd = self._fd, -1
            self.sim.fds.pop(fd, None)
            if fd >= 0 and self.closefd:
                if self._w and self.sim.versions is not None:
                    with REAL['open'](self.name, 'rb') as f:
                        self.sim.versions.setdefault(
                            self.rel, []).append(f.read())
                self.sim.do_close(fd, self.rel)


def wrap(sim, raw, mode, buffering, encoding, errors, newline):
    binary = 'b' in mode
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    size = sim.plan.bufsize
    line_buffering = False
    if buffering == 1 and not binary:
        line_buffering = True
    elif buffering > 1:
        size = buffering
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    if raw._r and raw._w:
        buf = io.BufferedRandom(raw, size)
    elif raw._w:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    if encoding in (None, 'locale') and sim.encoding:
        encoding = sim.encoding
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


# --------------------------------------------------------------------------
# Loading the code under test
# --------------------------------------------------------------------------

_loaded = {}


def load_repo():
    """Import the modules of /repo's current tree once per process."""
    if _loaded:
        return _loaded
    sys.dont_write_bytecode = True
    for p in (STUBS, SRC):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    path = os.path.join(SRC, 'acetimetools', 'tzcompiler.py')
    with open(path, 'rb') as f:
        code = compile(f.read(), path, 'exec')
    import acetimetools.tzcompiler as mod
    import acetime.zone_processor as zp
    _loaded.update(code=code, path=path, module=mod, zp=zp)
    return _loaded


def run_main(argv):
    """Run tzcompiler.py as the `__main__` script.  Returns the outcome."""
    sys.argv = ['tzcompiler.py'] + list(argv)
    ns = {'__name__': '__main__', '__file__': _loaded['path'],
          '__builtins__': builtins}
    out = {'exit': 0, 'exc': None, 'msg': '', 'where': ''}
    try:
        exec(_loaded['code'], ns)
    except SystemExit as e:
        c = e.code
        out['exit'] = 0 if c is None else (c & 0xff if isinstance(c, int)
                                           else 1)
        out['exc'] = 'SystemExit'
        out['msg'] = str(c)[:300]
    except BaseException as e:
        out['exit'] = 130 if isinstance(e, KeyboardInterrupt) else 1
        out['exc'] = type(e).__name__
        out['msg'] = str(e)[:300]
        out['where'] = _where(e)
    ns.clear()
    return out


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if fr.filename.startswith(SRC):
            return '%s:%s' % (os.path.basename(fr.filename), fr.name)
    return ''


def settle(sim, out):
    """What a real interpreter does between the end of the script and exit."""
    try:
        for t in threading.enumerate():
            if t is not threading.current_thread() and not t.daemon:
                t.join(20)
        atexit._run_exitfuncs()
    except BaseException as e:     # an exit handler may fail; status stays
        out['atexit'] = type(e).__name__
    gc.collect()


# --------------------------------------------------------------------------
# Running something in a child
# --------------------------------------------------------------------------

class Outcome(dict):
    __getattr__ = dict.get


def in_child(fn, cpu=60, mem=6 << 30):
    """Fork, run fn() and return what it returned (a picklable dict).

    `fn` gets one argument, `emit`, which may be called with a result before
    the child dies (used for simulated crashes).  A child that dies by a
    signal or exceeds its CPU limit gives {'died': ...}.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = REAL_FORK()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            atexit._clear()
            wr = REAL['os_write']

            def emit(obj):
                data = pickle.dumps(obj)
                data = struct.pack('>Q', len(data)) + data
                while data:
                    data = data[wr(w, data):]
            res = fn(emit)
            if res is not None:
                emit(res)
        except BaseException:
            code = 70
            try:
                emit({'harness': traceback.format_exc()})
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b''.join(chunks)
    res = None
    while len(data) >= 8:
        n = struct.unpack('>Q', data[:8])[0]
        if len(data) < 8 + n:
            break
        res = pickle.loads(data[8:8 + n])
        data = data[8 + n:]
    if res is None:
        res = {}
    if os.WIFSIGNALED(st):
        res['died'] = 'cpu' if os.WTERMSIG(st) in (
            signal.SIGXCPU, signal.SIGKILL) else 'signal %d' % os.WTERMSIG(st)
    elif os.WEXITSTATUS(st) == CRASH_STATUS:
        res['crashed'] = True
    if 'harness' in res:
        raise RuntimeError('simulator error in child:\n' + res['harness'])
    return Outcome(res)


REAL_FORK = os.fork


class World:
    """A scratch directory: the simulated machine's disk."""

    def __init__(self, base=None, root=None):
        import tempfile
        self.root = root or tempfile.mkdtemp(prefix='w', dir=base or scratch())

    def path(self, *p):
        return os.path.join(self.root, *p)

    def put(self, rel, data, mtime=None):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            data = data.encode('utf-8', 'surrogateescape')
        with open(p, 'wb') as f:
            f.write(data)
        if mtime is not None:
            os.utime(p, (mtime, mtime))

    def snap(self, rel='.', meta=False):
        """{relative path: content} of regular files, plus dirs and links.

        With `meta` also permissions and, for files, modification times."""
        top = self.path(rel)
        out = {}
        if meta:
            for k, v in self.snap(rel).items():
                st = os.lstat(os.path.join(top, k.rstrip('/')))
                out[k] = (v, stat.S_IMODE(st.st_mode),
                          None if k.endswith('/') else st.st_mtime_ns)
            return out
        for d, ds, fs in os.walk(top):
            ds.sort()
            for n in ds:
                p = os.path.join(d, n)
                k = os.path.relpath(p, top)
                out[k + '/'] = os.readlink(p) if os.path.islink(p) else None
            for n in fs:
                p = os.path.join(d, n)
                k = os.path.relpath(p, top)
                if os.path.islink(p):
                    out[k] = ('link', os.readlink(p))
                else:
                    with open(p, 'rb') as f:
                        out[k] = f.read()
        return out

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


_scratch = []


def scratch():
    """A directory for this process' worlds, removed at exit."""
    if not _scratch or _scratch[0][0] != os.getpid():
        import tempfile
        d = os.environ.get('SIM_SCRATCH')
        if not d or not os.path.isdir(d):
            d = None
        _scratch[:] = [(os.getpid(), tempfile.mkdtemp(prefix='simw-', dir=d))]
    return _scratch[0][1]


def drop_scratch():
    if _scratch and _scratch[0][0] == os.getpid():
        shutil.rmtree(_scratch[0][1], ignore_errors=True)
        del _scratch[:]


def install_cleanup():
    def bye(*a):
        drop_scratch()
        os._exit(143)
    signal.signal(signal.SIGTERM, bye)


def compile_run(world, argv, plan=None, cwd='.', cpu=20, trace=False,
                prepare=None, inspect=None, keep_log=True, versions=False,
                main=None):
    """Run the compiler once in `world` under `plan`.

    With `main`, call that function instead of the script."""
    load_repo()
    plan = plan if isinstance(plan, Plan) else Plan.of(plan)

    def fn(emit):
        os.chdir(world.path(cwd))
        sim = SimOS(world.root, plan)
        err = io.StringIO()
        sout = io.StringIO()

        def result(out):
            out = dict(out)
            out['ops'] = sim.log if keep_log else len(sim.log)
            out['nops'] = sim.ops
            out['fired'] = sim.fired
            out['outside'] = sim.outside
            out['log'] = err.getvalue()
            out['stdout'] = sout.getvalue()
            if hasattr(sim, 'line_counter'):
                out['lines'] = sim.line_counter[0]
            if versions:
                out['versions'] = sim.versions
            return out
        if versions:
            sim.versions = {}
        sim.sink = lambda: emit(result({'exit': None}))
        sys.stderr, sys.stdout = err, sout
        if prepare:
            prepare(sim)
        sim.install()
        if sim.lines or trace:
            sys.settrace(sim.line_tracer())
        try:
            out = main() if main else run_main(argv)
        finally:
            sys.settrace(None)
        settle(sim, out)
        if inspect:
            out['inspect'] = inspect()
        return result(out)

    return in_child(fn, cpu=cpu)
