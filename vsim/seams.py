"""Library-level seams.

Everything nondeterministic or fallible that PYPOWER touches is intercepted
here, *below* PYPOWER (in scipy, numpy, builtins, time, random, sys), before
any pypower module is imported.  No pypower source is changed, and a
refactoring of pypower that keeps using the same libraries keeps meeting the
same seams.  With no simulation active every wrapper is a pass-through.

Seams
  solve   scipy.sparse.linalg.spsolve / splu(...).solve / numpy.linalg.solve /
          pyrlu.factor_solve
  factor  scipy.sparse.linalg.splu
  clock   time.time / monotonic / perf_counter / process_time
  random  random / numpy.random global generators (reseeded per task)
  disk    builtins.open / io.open on paths inside the run's scratch directory,
          os.replace/rename/remove/fsync there
  stdout, stderr   stream proxies bound before pypower does `from sys import stdout`
  line    sys.monitoring LINE events of pypower code: step budget,
          cancellation points, thread switch points
"""
import builtins
import io
import os
import sys
import time as _time

CUR = None            # the active Sim of this process, or None
INSTALLED = False
REPO = os.environ.get("VSIM_REPO", "/repo")
PKG = os.path.join(REPO, "pypower") + os.sep

real = {}


def sim_here():
    """Active sim if the calling thread belongs to it, else None."""
    s = CUR
    if s is None:
        return None
    return s if s.mine() else None


class _LU:
    def __init__(self, lu):
        self._lu = lu

    def solve(self, rhs, *a, **k):
        s = sim_here()
        if s is None:
            return self._lu.solve(rhs, *a, **k)
        return s.on_solve(lambda: self._lu.solve(rhs, *a, **k), rhs)

    def __getattr__(self, n):
        return getattr(self._lu, n)


class StreamProxy(io.TextIOBase):
    """sys.stdout / sys.stderr stand-in, bound for the life of the process."""

    def __init__(self, which, under):
        self.which = which
        self.under = under

    def write(self, s):
        sim = sim_here()
        if sim is None:
            return self.under.write(s)
        return sim.on_stream_write(self.which, s)

    def flush(self):
        sim = sim_here()
        if sim is None:
            return self.under.flush()
        return sim.on_stream_flush(self.which)

    def writable(self):
        return True

    @property
    def encoding(self):
        return "utf-8"

    def isatty(self):
        return False

    def fileno(self):
        return self.under.fileno()


def install():
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True
    import numpy as np
    import scipy.sparse.linalg as sla
    import scipy.io  # noqa: F401  (import before open is patched is irrelevant)
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")

    real["spsolve"] = sla.spsolve
    real["splu"] = sla.splu
    real["np_solve"] = np.linalg.solve
    real["open"] = builtins.open
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        real[n] = getattr(_time, n)
    for n in ("replace", "rename", "remove", "unlink", "fsync"):
        real["os_" + n] = getattr(os, n)
    real["stdout"] = sys.stdout
    real["stderr"] = sys.stderr

    def spsolve(A, b, *a, **k):
        s = sim_here()
        if s is None:
            return real["spsolve"](A, b, *a, **k)
        return s.on_solve(lambda: real["spsolve"](A, b, *a, **k), b)

    def splu(A, *a, **k):
        s = sim_here()
        if s is None:
            return _LU(real["splu"](A, *a, **k))
        return _LU(s.on_factor(lambda: real["splu"](A, *a, **k)))

    def np_solve(A, b, *a, **k):
        s = sim_here()
        if s is None:
            return real["np_solve"](A, b, *a, **k)
        return s.on_solve(lambda: real["np_solve"](A, b, *a, **k), b)

    sla.spsolve = spsolve
    sla.splu = splu
    try:
        import scipy.sparse.linalg._dsolve.linsolve as _ls
        _ls.spsolve = spsolve
        import scipy.sparse.linalg._dsolve as _ds
        _ds.spsolve = spsolve
        _ds.splu = splu
    except Exception:
        pass
    np.linalg.solve = np_solve
    try:
        import pyrlu
        real["pyrlu"] = pyrlu.factor_solve

        def factor_solve(n, ind, ptr, data, x, *a, **k):
            s = sim_here()
            if s is None:
                return real["pyrlu"](n, ind, ptr, data, x, *a, **k)

            def go():
                real["pyrlu"](n, ind, ptr, data, x, *a, **k)
                return x.copy()
            y = s.on_solve(go, x)
            x[...] = y
        pyrlu.factor_solve = factor_solve
    except ImportError:
        pass

    def mk(name):
        def clock():
            s = sim_here()
            if s is None:
                return real[name]()
            return s.on_clock(name)
        clock.__name__ = name
        return clock
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(_time, n, mk(n))

    def open_(file, *a, **k):
        s = sim_here()
        if s is not None and s.disk is not None and s.disk.owns(file):
            return s.disk.open(file, *a, **k)
        return real["open"](file, *a, **k)
    builtins.open = open_
    io.open = open_

    def mkos(n, nargs):
        def f(*a, **k):
            s = sim_here()
            if s is not None and s.disk is not None and a and s.disk.owns(a[0]):
                s.disk.meta(n, a)
            return real["os_" + n](*a, **k)
        f.__name__ = n
        return f
    for n in ("replace", "rename", "remove", "unlink"):
        setattr(os, n, mkos(n, 1))

    sys.stdout = StreamProxy("out", real["stdout"])
    sys.stderr = StreamProxy("err", real["stderr"])

    # line events
    mon = sys.monitoring
    real["tool"] = 3
    mon.use_tool_id(3, "vsim")
    pk = PKG

    def on_line(code, line):
        if not code.co_filename.startswith(pk):
            return mon.DISABLE
        s = CUR
        if s is None:
            return None
        if not s.mine():
            return None
        s.on_line(code, line)
        return None
    mon.register_callback(3, mon.events.LINE, on_line)


def lines(on):
    mon = sys.monitoring
    mon.set_events(3, mon.events.LINE if on else 0)


def import_pypower():
    install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pypower
    assert os.path.abspath(pypower.__file__).startswith(os.path.abspath(PKG)), pypower.__file__
    return pypower
