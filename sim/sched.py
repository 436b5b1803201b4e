"""Several compilations in one process under a seeded scheduler.

Each job is a thread, but only the one that holds the baton runs.  The baton
changes hands only at file operations and executed source lines of /repo/src,
at moments drawn from the seed, so the interleaving is exactly repeatable.
"""
import sys
import threading

from sim import core


class Fault(Exception):
    pass


class Sched:
    def __init__(self, seed, p_op, quantum, jobs):
        self.r = core.random.Random(seed)
        self.p_op = p_op
        self.quantum = quantum      # (lo, hi) lines between switches, or None
        self.jobs = jobs            # list of Job
        self.cur = None
        self.switches = 0
        self.trace = []

    def runnable(self):
        return [j for j in self.jobs if not j.done]

    def give(self, j):
        self.cur = j
        sys.argv = j.argv
        self.trace.append(j.n)
        j.go.release()

    def switch(self):
        me = self.cur
        others = [j for j in self.runnable() if j is not me]
        if not others:
            return
        nxt = self.r.choice(others)
        self.switches += 1
        me.argv = sys.argv
        self.give(nxt)
        me.go.acquire()

    def point(self, kind, rel):
        """Called before each file operation."""
        j = self.cur
        if j is None:
            return
        j.ops += 1
        if self.p_op and self.r.random() < self.p_op:
            self.switch()
        f = j.fault
        if f and f.get('op') == j.ops:
            j.hit(f)

    def line(self):
        j = self.cur
        j.lines += 1
        f = j.fault
        if f and f.get('line') == j.lines:
            j.hit(f)
        if self.quantum:
            j.left -= 1
            if j.left <= 0:
                j.left = self.r.randint(*self.quantum)
                self.switch()

    def tracer(self):
        src = core.SRC + core.os.sep

        def local(frame, event, arg):
            if event == 'line':
                self.line()
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(src):
                return local
            return None
        return tracer


class Job:
    def __init__(self, n, argv, fault=None):
        self.n = n
        self.argv = ['tzcompiler.py'] + list(argv)
        self.args = list(argv)
        self.fault = fault
        self.done = False
        self.out = None
        self.ops = self.lines = 0
        self.left = 1
        self.fired = None
        self.go = threading.Semaphore(0)

    def hit(self, f):
        self.fired = f['do']
        if f['do'] == 'memory':
            raise MemoryError('simulated')
        if f['do'] == 'interrupt':
            raise KeyboardInterrupt('simulated')
        if f['do'] == 'term':
            raise SystemExit(143)
        raise OSError(core.ERRNAMES[f['do']], 'simulated')


def interleave(world, specs, seed, p_op, quantum, cpu=60):
    """Run the jobs [(argv, fault)] interleaved in one child."""
    core.load_repo()

    def fn(emit):
        core.os.chdir(world.root)
        sim = core.SimOS(world.root, core.Plan())
        sys.stderr = sys.stdout = core.io.StringIO()
        sim.install()
        jobs = [Job(n, a, f) for n, (a, f) in enumerate(specs)]
        sch = Sched(seed, p_op, quantum, jobs)
        sim.sched = sch
        trace = quantum or any('line' in (j.fault or {}) for j in jobs)

        def body(j):
            j.go.acquire()
            if trace:
                j.left = sch.r.randint(*quantum) if quantum else 0
                sys.settrace(sch.tracer())
            try:
                j.out = core.run_main(j.args)
            finally:
                sys.settrace(None)
                j.done = True
                rest = sch.runnable()
                if rest:
                    sch.give(sch.r.choice(rest))
        ts = [threading.Thread(target=body, args=(j,)) for j in jobs]
        for t in ts:
            t.start()
        sch.give(sch.r.choice(jobs))
        for t in ts:
            t.join()
        sim.sched = None
        out = {'exit': 0}
        core.settle(sim, out)
        return {'jobs': [dict(j.out, fired=j.fired, ops=j.ops,
                              lines=j.lines) for j in jobs],
                'switches': sch.switches, 'trace': sch.trace,
                'nops': sim.ops, 'outside': sim.outside}
    return core.in_child(fn, cpu=cpu)


def sequence(world, specs, cpu=60):
    """Run the jobs one after another in one child."""
    core.load_repo()

    def fn(emit):
        core.os.chdir(world.root)
        sim = core.SimOS(world.root, core.Plan())
        sys.stderr = sys.stdout = core.io.StringIO()
        sim.install()
        outs = []
        for n, (argv, fault) in enumerate(specs):
            j = Job(n, argv, fault)
            sch = Sched(0, 0, None, [j])
            sch.cur = j
            sim.sched = sch
            if fault and 'line' in fault:
                sys.settrace(sch.tracer())
            try:
                o = core.run_main(argv)
            finally:
                sys.settrace(None)
            outs.append(dict(o, fired=j.fired, ops=j.ops, lines=j.lines))
        sim.sched = None
        out = {'exit': 0}
        core.settle(sim, out)
        return {'jobs': outs, 'nops': sim.ops, 'outside': sim.outside}
    return core.in_child(fn, cpu=cpu)
