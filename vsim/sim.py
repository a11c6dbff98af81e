"""The simulator: one seed/scenario decides every fault, delay and switch."""
import errno
import gc
import hashlib
import io
import os
import random
import shutil
import sys
import tempfile
import threading

import numpy as np

from . import seams


class SimBudget(BaseException):
    """Deterministic step budget exceeded (the run would not end)."""


class SimCrash(BaseException):
    """Simulated process death."""


class SimCancel(BaseException):
    """Cancellation of a kind no handler in the code under test expects."""


class SimFault(RuntimeError):
    """An injected error with a recognisable type."""


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "SimCancel": SimCancel,
    "RuntimeError": SimFault,
    "OSError": OSError,
}


class Task:
    def __init__(self, name, faults):
        self.name = name
        self.counts = {}
        self.plan = {}
        for f in faults:
            self.plan.setdefault(f["seam"], []).append(f)
        self.lines = 0
        self.line_at = {}
        for f in self.plan.get("line", []):
            self.line_at[f["at"]] = f
        self.budget = None          # max lines
        self.solve_budget = None
        self.last_solve = {}
        self.out = []
        self.err = []
        self.outlen = 0
        self.site = None
        self.inside = False
        # scheduling
        self.sem = None
        self.done = False
        self.result = None
        self.gap = None


class Sim:
    def __init__(self, seed=0, faults=(), disk=False, chunk=512, record_sites=False):
        self.seed = seed
        self.rng = random.Random("sim%d" % seed)
        self.faults = list(faults)
        self.h = hashlib.sha256()
        self.nlog = 0
        self.events = []
        self.fired = {}
        self.probes = {}
        self.tasks = {}
        self.disk = SimDisk(self, chunk) if disk else None
        self.now = 1.0e9
        self.t0 = self.now
        self.tick = 0.001
        self.switches = 0
        self.sched = None
        self.record_sites = record_sites
        self.trace = None           # list: record every line event
        self.sites = set()
        self.handle_lines = True
        self.max_solves = 0

    # ---- log ---------------------------------------------------------
    def log(self, *ev):
        s = repr(ev)
        self.h.update(s.encode())
        self.nlog += 1
        if len(self.events) < 400:
            self.events.append(s)

    def digest(self):
        return self.h.hexdigest()[:16]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fire(self, f, kind=None):
        k = "%s.%s" % (f["seam"], kind or f["kind"])
        self.fired[k] = self.fired.get(k, 0) + 1

    @property
    def nfired(self):
        return sum(self.fired.values())

    # ---- tasks -------------------------------------------------------
    def mine(self):
        t = self.tasks.get(threading.get_ident())
        return t is not None and t.inside

    def cur(self):
        return self.tasks[threading.get_ident()]

    def run(self, fn, name="main", faults=None, budget=None, solve_budget=None,
            lines=True):
        """Run fn() as one simulated task on this thread.

        Returns (kind, value): ("ok", result) or ("exc", exception)."""
        t = Task(name, self.faults if faults is None else faults)
        t.budget = budget
        t.solve_budget = solve_budget
        tid = threading.get_ident()
        self.tasks[tid] = t
        random.seed(self.seed)
        np.random.seed(self.seed & 0x7fffffff)
        assert seams.CUR is None or seams.CUR is self
        seams.CUR = self
        if lines:
            seams.lines(True)
        t.inside = True
        try:
            try:
                r = fn()
                t.inside = False
                out = ("ok", r)
            except BaseException as e:
                t.inside = False
                out = ("exc", e)
        finally:
            t.inside = False
            if lines:
                seams.lines(False)
            seams.CUR = None
            self.tasks.pop(tid, None)
        self.last_task = t
        self.log("task", name, out[0], type(out[1]).__name__ if out[0] == "exc" else "",
                 t.counts.get("solve", 0))
        return out

    # ---- fault plan ---------------------------------------------------
    def _hit(self, seam, t):
        n = t.counts.get(seam, 0)
        t.counts[seam] = n + 1
        for f in t.plan.get(seam, ()):
            a = f.get("at", 0)
            if a <= n < a + f.get("count", 1):
                return n, f
        return n, None

    # ---- seams --------------------------------------------------------
    def on_solve(self, go, b):
        t = self.cur()
        n, f = self._hit("solve", t)
        if t.solve_budget is not None and n >= t.solve_budget:
            raise SimBudget("more than %d linear solves" % t.solve_budget)
        key = getattr(b, "shape", None)
        if f is None:
            x = go()
            t.last_solve[key] = np.array(x, copy=True)
            return x
        kind = f["kind"]
        self.fire(f)
        self.log("solve-fault", t.name, n, kind)
        if kind == "raise":
            raise RuntimeError("Factor is exactly singular")
        if kind == "memerr":
            raise MemoryError("injected")
        if kind == "linalg":
            raise np.linalg.LinAlgError("Singular matrix")
        x = np.array(go(), dtype=float, copy=True)
        if kind == "nan":
            x[...] = np.nan
        elif kind == "inf":
            x[...] = np.inf
        elif kind == "nan1":
            if x.size:
                x.flat[f.get("k", 0) % x.size] = np.nan
        elif kind == "inf1":
            if x.size:
                x.flat[f.get("k", 0) % x.size] = -np.inf
        elif kind == "zero":
            x[...] = 0.0
        elif kind == "stale":
            o = t.last_solve.get(key)
            x = np.array(o, copy=True) if o is not None else x * 0
        elif kind == "noise":
            r = np.random.RandomState((self.seed * 7919 + n) & 0x7fffffff)
            x = x * (1 + f.get("mag", 0.1) * r.standard_normal(x.shape))
        elif kind == "scale":
            x = x * f.get("mag", 2.0)
        elif kind == "huge":
            x = x * 1e12
        elif kind == "neg":
            x = -x
        else:
            raise AssertionError(kind)
        return x

    def on_factor(self, go):
        t = self.cur()
        n, f = self._hit("factor", t)
        if f is not None:
            self.fire(f)
            self.log("factor-fault", t.name, n, f["kind"])
            if f["kind"] == "memerr":
                raise MemoryError("injected")
            raise RuntimeError("Factor is exactly singular")
        return go()

    def on_clock(self, which):
        t = self.cur()
        n, f = self._hit("clock", t)
        self.now += self.tick
        if f is not None:
            self.fire(f)
            self.log("clock-jump", t.name, n, f["amount"])
            self.now += f["amount"]
        return self.now

    def on_stream_write(self, which, s):
        t = self.cur()
        n, f = self._hit("std" + which, t)
        if f is not None:
            self.fire(f)
            self.log("stream-fault", t.name, which, n, f["kind"])
            if f["kind"] == "epipe":
                raise BrokenPipeError(errno.EPIPE, "Broken pipe (injected)")
            if f["kind"] == "enospc":
                raise OSError(errno.ENOSPC, "No space left on device (injected)")
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        (t.out if which == "out" else t.err).append(s)
        return len(s)

    def on_stream_flush(self, which):
        return None

    def on_line(self, code, line):
        t = self.tasks[threading.get_ident()]
        t.lines = n = t.lines + 1
        if t.budget is not None and n > t.budget:
            t.budget = None
            raise SimBudget("more than the budgeted lines executed, at %s:%d"
                            % (os.path.basename(code.co_filename), line))
        if self.record_sites:
            self.sites.add((code.co_filename, line))
        if self.trace is not None:
            self.trace.append((code.co_filename, line))
        f = t.line_at.get(n)
        if f is not None:
            t.site = "%s:%s" % (os.path.basename(code.co_filename), code.co_name)
            self.fire(f)
            self.log("cancel", t.name, n, f["kind"])
            raise EXC[f["kind"]]("injected")
        if self.sched is not None:
            self.sched.on_step(t)

    def out_text(self):
        return "".join(self.last_task.out)

    def err_text(self):
        return "".join(self.last_task.err)

    def cleanup(self):
        if self.disk is not None:
            self.disk.cleanup()


# ----------------------------------------------------------------------
class Scheduler:
    """Cooperative scheduler: exactly one task thread runs at a time.

    schedule: list of [gap, to]; after `gap` line events of the running task
    control passes to task index `to` (if still runnable, else the next
    runnable one).  When the list is exhausted tasks run to completion in
    index order."""

    def __init__(self, sim, schedule, points=None):
        self.sim = sim
        self.points = points or {}      # (task index, line count) -> task index
        self.schedule = [list(x) for x in schedule]
        self.i = 0
        self.left = self.schedule[0][0] if self.schedule else None
        self.tasks = []
        self.main = threading.Semaphore(0)
        self.trace = []

    def on_step(self, t):
        if self.points:
            to = self.points.get((t.idx, t.lines))
            if to is not None:
                self.switch(t, to)
                return
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        to = self.schedule[self.i][1]
        self.i += 1
        self.left = self.schedule[self.i][0] if self.i < len(self.schedule) else None
        self.switch(t, to)

    def pick(self, to):
        n = len(self.tasks)
        for k in range(n):
            u = self.tasks[(to + k) % n]
            if not u.done:
                return u
        return None

    def switch(self, t, to):
        u = self.pick(to % len(self.tasks))
        if u is None or u is t:
            return
        self.sim.switches += 1
        self.sim.log("switch", t.name, t.lines, u.name)
        t.inside = False
        u.sem.release()
        t.sem.acquire()
        t.inside = True

    def finish(self, t):
        t.done = True
        u = self.pick(0)
        if u is None:
            self.main.release()
        else:
            u.sem.release()


def run_threads(sim, jobs, schedule, budget=None, points=None):
    """jobs: list of (name, fn, faults).  Returns [(kind, value)] per job and
    the Task objects."""
    sch = Scheduler(sim, schedule, points)
    sim.sched = sch
    res = [None] * len(jobs)
    random.seed(sim.seed)
    np.random.seed(sim.seed & 0x7fffffff)

    def body(i, t, fn):
        t.sem.acquire()
        t.inside = True
        try:
            try:
                r = fn()
                t.inside = False
                res[i] = ("ok", r)
            except BaseException as e:
                t.inside = False
                res[i] = ("exc", e)
        finally:
            t.inside = False
            sch.finish(t)

    ths = []
    for i, (name, fn, faults) in enumerate(jobs):
        t = Task(name, faults)
        t.budget = budget
        t.sem = threading.Semaphore(0)
        t.idx = i
        sch.tasks.append(t)
        th = threading.Thread(target=body, args=(i, t, fn), daemon=True)
        ths.append(th)
    for t, th in zip(sch.tasks, ths):
        th.start()
        sim.tasks[th.ident] = t
    seams.CUR = sim
    seams.lines(True)
    try:
        sch.tasks[0].sem.release()
        sch.main.acquire()
        for th in ths:
            th.join()
    finally:
        seams.lines(False)
        seams.CUR = None
        sim.sched = None
        for th in ths:
            sim.tasks.pop(th.ident, None)
    for i, (name, fn, faults) in enumerate(jobs):
        sim.log("thread", name, res[i][0], sch.tasks[i].lines)
    return res, sch.tasks


# ----------------------------------------------------------------------
class RawSim(io.FileIO):
    def __init__(self, disk, path, mode):
        self._disk = disk
        self._counted = False
        self._pending = None
        super().__init__(path, mode)
        self._counted = True
        disk.handles.append(self)
        disk.nopened += 1

    def write(self, b):
        d = self._disk
        b = bytes(b)
        if d.dead:
            return len(b)
        sim = d.sim
        t = d.task()
        if t is None:
            return super().write(b)
        if self._pending is not None:
            e, self._pending = self._pending, None
            raise e
        n, f = sim._hit("write", t)
        d.nwrites += 1
        if f is None:
            return super().write(b)
        kind = f["kind"]
        k = min(len(b), int(f.get("frac", 0.5) * len(b)))
        sim.fire(f)
        sim.log("write-fault", n, kind, k, len(b))
        if kind == "short":
            k = max(1, k)
            return super().write(b[:k])
        if kind in ("enospc", "interrupt"):
            # as in a kernel: a partial write reports its length, the next one fails
            e = (OSError(errno.ENOSPC, "No space left on device (injected)") if kind == "enospc"
                 else KeyboardInterrupt("injected in write"))
            k = min(k, len(b) - 1)
            if k > 0:
                self._pending = e
                return super().write(b[:k])
            raise e
        if kind == "eio":
            raise OSError(errno.EIO, "Input/output error (injected)")
        if kind == "crash":
            if k:
                super().write(b[:k])
            d.dead = True
            raise SimCrash("process died in write")
        raise AssertionError(kind)

    def readinto(self, buf):
        d = self._disk
        t = d.task()
        if t is None:
            return super().readinto(buf)
        sim = d.sim
        n, f = sim._hit("read", t)
        d.nreads += 1
        if f is None:
            return super().readinto(buf)
        kind = f["kind"]
        sim.fire(f)
        sim.log("read-fault", n, kind)
        if kind == "short":
            mv = memoryview(buf)
            m = max(1, min(len(mv), int(f.get("n", 7))))
            tmp = super().read(m)
            mv[:len(tmp)] = tmp
            return len(tmp)
        if kind == "eio":
            raise OSError(errno.EIO, "Input/output error (injected)")
        raise AssertionError(kind)

    def read(self, size=-1):
        d = self._disk
        t = d.task()
        if t is not None:
            n, f = d.sim._hit("read", t)
            d.nreads += 1
            if f is not None:
                d.sim.fire(f)
                d.sim.log("read-fault", n, f["kind"])
                if f["kind"] == "eio":
                    raise OSError(errno.EIO, "Input/output error (injected)")
        return super().read(size)

    def readall(self):
        d = self._disk
        t = d.task()
        if t is not None:
            n, f = d.sim._hit("read", t)
            d.nreads += 1
            if f is not None:
                d.sim.fire(f)
                d.sim.log("read-fault", n, f["kind"])
                if f["kind"] == "eio":
                    raise OSError(errno.EIO, "Input/output error (injected)")
        return super().readall()

    def close(self):
        if self.closed or not self._counted:
            return super().close()
        d = self._disk
        t = d.task()
        w = self.writable()
        super().close()
        if t is not None and w and not d.dead:
            n, f = d.sim._hit("close", t)
            if f is not None:
                d.sim.fire(f)
                d.sim.log("close-fault", n, f["kind"])
                raise OSError(errno.EIO, "Input/output error on close (injected)")


class SimDisk:
    """A scratch directory whose opens, raw reads/writes and closes are under
    the fault plan.  Buffer sizes are a per-run knob, so that data reaches the
    'platter' in many small steps and can be torn anywhere."""

    def __init__(self, sim, chunk=512):
        self.sim = sim
        self.chunk = chunk
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="vsim_", dir=base)
        self.handles = []
        self.dead = False
        self.nopened = 0
        self.nwrites = 0
        self.nreads = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def owns(self, file):
        try:
            return os.fspath(file).startswith(self.dir)
        except (TypeError, AttributeError):
            return False

    def task(self):
        t = self.sim.tasks.get(threading.get_ident())
        return t if (t is not None and t.inside) else None

    def meta(self, name, a):
        t = self.task()
        if self.dead:
            raise SimCrash("dead")
        n, f = self.sim._hit("meta", t)
        if f is not None:
            self.sim.fire(f)
            self.sim.log("meta-fault", name, n, f["kind"])
            if f["kind"] == "crash":
                self.dead = True
                raise SimCrash("process died in %s" % name)
            raise OSError(errno.EIO, "Input/output error (injected)")

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if self.dead:
            raise SimCrash("dead")
        path = os.fspath(file)
        t = self.task()
        n, f = self.sim._hit("open", t)
        self.sim.log("open", n, os.path.basename(path), mode)
        if f is not None:
            kind = f["kind"]
            self.sim.fire(f)
            self.sim.log("open-fault", n, kind)
            if kind == "crash":
                self.dead = True
                raise SimCrash("process died in open")
            code = {"eacces": errno.EACCES, "enoent": errno.ENOENT, "emfile": errno.EMFILE,
                    "enospc": errno.ENOSPC, "eio": errno.EIO}[kind]
            raise OSError(code, os.strerror(code) + " (injected)", path)
        rawmode = mode.replace("b", "").replace("t", "")
        raw = RawSim(self, path, rawmode)
        binary = "b" in mode
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, self.chunk)
        elif rawmode[0] in "wax":
            buf = io.BufferedWriter(raw, self.chunk)
        else:
            buf = io.BufferedReader(raw, self.chunk)
        if binary:
            return buf if buffering != 0 else raw
        tw = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        tw.mode = mode
        try:
            tw._CHUNK_SIZE = self.chunk
        except Exception:
            pass
        return tw

    def leaked(self):
        gc.collect()
        return [os.path.basename(h.name) for h in self.handles if not h.closed]

    def close_all(self):
        for h in self.handles:
            try:
                io.FileIO.close(h)
            except Exception:
                pass

    def read_bytes(self, name):
        with seams.real["open"](self.path(name), "rb") as fd:
            return fd.read()

    def write_bytes(self, name, data):
        with seams.real["open"](self.path(name), "wb") as fd:
            fd.write(data)

    def exists(self, name):
        return os.path.exists(self.path(name))

    def reboot(self):
        self.close_all()
        self.handles = []
        self.dead = False

    def cleanup(self):
        self.close_all()
        shutil.rmtree(self.dir, ignore_errors=True)
