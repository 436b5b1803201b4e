"""Interpreters with chosen hash seeds that run the compiler on request.

`Zygote(h)` starts one; `ask` has it fork a child which sets up the simulated
environment (clock, time zone, locale, pid, listing order, ...) and runs the
compiler there.
"""
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Zygote:
    def __init__(self, h):
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        self.p = subprocess.Popen(
            [sys.executable, '-c', 'import sys; sys.dont_write_bytecode=True;'
             'sys.path.insert(0, %r); from sim import zygote; zygote.serve()'
             % HERE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def ask(self, **req):
        data = pickle.dumps(req)
        self.p.stdin.write(struct.pack('>Q', len(data)) + data)
        self.p.stdin.flush()
        n = self.p.stdout.read(8)
        if len(n) < 8:
            raise RuntimeError('zygote died')
        return pickle.loads(self.p.stdout.read(struct.unpack('>Q', n)[0]))


_all = {}


def get(h):
    z = _all.get(h)
    if z is None or z.p.poll() is not None:
        z = _all[h] = Zygote(h)
    return z


# -- the other side ---------------------------------------------------------

class Clock:
    now = None
    step = 0.0


def _clock():
    import time
    if Clock.now is None:
        return REAL_TIME()
    Clock.now += Clock.step
    return Clock.now


def serve():
    import datetime as dt
    import time
    global REAL_TIME
    REAL_TIME = time.time
    real_dt, real_d = dt.datetime, dt.date

    class D(real_d):
        @classmethod
        def today(cls):
            return real_d.fromtimestamp(_clock())

    class DT(real_dt):
        @classmethod
        def now(cls, tz=None):
            return real_dt.fromtimestamp(_clock(), tz)

        @classmethod
        def utcnow(cls):
            return real_dt.fromtimestamp(_clock(), dt.timezone.utc).replace(
                tzinfo=None)

        @classmethod
        def today(cls):
            return real_dt.fromtimestamp(_clock())
    dt.datetime, dt.date = DT, D
    gm, lt, st, ct = time.gmtime, time.localtime, time.strftime, time.ctime
    time.time = _clock
    time.time_ns = lambda: int(_clock() * 1e9)
    time.gmtime = lambda s=None: gm(_clock() if s is None else s)
    time.localtime = lambda s=None: lt(_clock() if s is None else s)
    time.ctime = lambda s=None: ct(_clock() if s is None else s)
    time.asctime = lambda t=None: st('%a %b %d %H:%M:%S %Y',
                                     t or lt(_clock()))
    time.strftime = lambda f, t=None: st(f, t or lt(_clock()))
    from sim import core
    core.load_repo()
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    inp = sys.stdin.buffer
    while True:
        n = inp.read(8)
        if len(n) < 8:
            os._exit(0)
        req = pickle.loads(inp.read(struct.unpack('>Q', n)[0]))
        w = core.World(root=req['root'])
        env = req['env']
        res = core.compile_run(
            w, req['argv'], req.get('plan'),
            prepare=lambda sim: simulate(sim, env, req), keep_log=False)
        res = dict(res)
        data = pickle.dumps(res)
        out.write(struct.pack('>Q', len(data)) + data)
        out.flush()


def simulate(sim, env, req):
    """Make this child believe it lives in the environment `env`."""
    import gc
    import getpass
    import locale
    import platform
    import random
    import socket
    import time
    import uuid
    from sim import core
    os.environ.clear()
    os.environ.update(env['vars'])
    Clock.now, Clock.step = env['now'], env['step']
    base = env['now']
    mono = [float(env['pid'])]

    def monotonic():
        mono[0] += env['step']
        return mono[0]
    time.monotonic = time.perf_counter = time.process_time = monotonic
    time.monotonic_ns = time.perf_counter_ns = time.process_time_ns = \
        lambda: int(monotonic() * 1e9)
    time.tzset()
    try:
        locale.setlocale(locale.LC_ALL, env.get('setlocale', 'C'))
    except locale.Error:
        pass
    sim.encoding = env['encoding']
    locale.getpreferredencoding = lambda do_setlocale=True: env['encoding']
    locale.getencoding = lambda: env['encoding']
    sys.getfilesystemencoding = lambda: env['encoding']
    os.getpid = lambda: env['pid']
    os.getppid = lambda: env['pid'] - 1
    os.getuid = os.geteuid = lambda: env['pid'] % 3000
    os.getlogin = getpass.getuser = lambda: env['vars'].get('USER', 'x')
    os.cpu_count = lambda: env['pid'] % 7 + 1
    os.umask(env['umask'])
    socket.gethostname = socket.getfqdn = platform.node = \
        lambda: 'host%d' % env['pid']
    platform.platform = platform.system = platform.release = \
        platform.version = platform.machine = lambda *a, **k: \
        'Sys%d' % env['pid']
    platform.python_version = lambda: '3.12.%d' % (env['pid'] % 9)
    uname = os.uname()
    os.uname = lambda: os.uname_result(
        (uname.sysname, 'host%d' % env['pid'], 'r%d' % env['pid'],
         uname.version, uname.machine))
    rnd = random.Random(env['pid'])
    random.seed(env['pid'])
    os.urandom = lambda n: rnd.randbytes(n)
    uuid.uuid4 = lambda: uuid.UUID(int=rnd.getrandbits(128))
    uuid.uuid1 = lambda *a: uuid.UUID(int=rnd.getrandbits(128))
    order = random.Random(env['order'])
    listdir, scandir = core.REAL['listdir'], core.REAL['scandir']

    def sim_listdir(path='.'):
        names = sorted(listdir(path))
        order.shuffle(names)
        return names

    class Scan(list):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            pass

        def __next__(self):
            if not self:
                raise StopIteration
            return self.pop(0)

        def __iter__(self):
            return self

    def sim_scandir(path='.'):
        with scandir(path) as it:
            es = sorted(it, key=lambda e: e.name)
        order.shuffle(es)
        return Scan(es)
    os.listdir, os.scandir = sim_listdir, sim_scandir
    gc.set_threshold(*env['gc'])
    if env['gc'][0] == 0:
        gc.disable()
    sys.setrecursionlimit(env['recursion'])
    sys.flags_seen = None
    for k, v in env.get('sysattr', {}).items():
        setattr(sys, k, v)
    if env.get('tty'):
        sys.stdout.isatty = sys.stderr.isatty = lambda: True
    sim.plan.bufsize = env['bufsize']
    warm = req.get('warm')
    if warm:
        # what the process did before
        sim.install()
        for argv in warm:
            core.run_main(argv)
