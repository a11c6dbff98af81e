"""Shared pieces of the property drivers."""
import copy

import numpy as np

from .. import netgen, ref
from ..sim import Sim, SimBudget, SimCrash, SimCancel  # noqa: F401

SOLVE_KINDS = ["nan", "inf", "nan1", "inf1", "zero", "stale", "noise", "scale", "neg", "huge",
               "raise", "memerr", "linalg"]

REAL = ["pypower (all modules, unmodified)", "numpy", "scipy.sparse assembly",
        "SuperLU (results passed through the fault seam)"]
STUB = ["wall clock", "global random generators (reseeded)", "stdout/stderr"]
ASSUME = ["seeded sampling, not enumeration",
          "linear-solver faults are modelled at the scipy/numpy/pyrlu call boundary",
          "OpenBLAS runs single-threaded in the checks"]


def api(name):
    import importlib
    return getattr(importlib.import_module("pypower." + name), name)


def quiet(**kw):
    o = api("ppoption")(VERBOSE=0, OUT_ALL=0)
    o.update(kw)
    return o


def solve_faults(r, n=None, maxat=8, kinds=SOLVE_KINDS, allow_forever=True):
    fl = []
    for _ in range(n or r.choice([1, 1, 1, 2, 3])):
        f = {"seam": "solve", "at": r.randrange(maxat), "kind": r.choice(kinds)}
        if f["kind"] in ("noise", "scale"):
            f["mag"] = r.choice([0.5, 1e-3, 0.05, 3.0, 10.0, -1.0])
        if f["kind"] in ("nan1", "inf1"):
            f["k"] = r.randrange(12)
        c = r.choice([1, 1, 1, 2, 3, 1000 if allow_forever else 2])
        if c > 1:
            f["count"] = c
        fl.append(f)
    return fl


class Ctx:
    def __init__(self):
        self.v = []

    def bad(self, cls, msg):
        if len(self.v) < 20:
            self.v.append((cls, msg))

    def add(self, prefix, lst, extra=""):
        for c, m in lst:
            self.bad(prefix + c, m + extra)


def finish(sim, ctx, key, **kw):
    sim.log("verdict", sorted(set(c for c, _ in ctx.v)))
    out = {"violations": ctx.v, "digest": sim.digest(), "nlog": sim.nlog, "fired": sim.fired,
           "probes": sim.probes, "key": key, "simtime": sim.now - sim.t0, "switches": sim.switches,
           "events": sim.events}
    out.update(kw)
    sim.cleanup()
    return out


def excname(e):
    return "%s: %s" % (type(e).__name__, str(e)[:160])


def summ(x, nd=9):
    """Rounded fingerprint of an array for the event log."""
    a = np.asarray(x, float)
    return (a.shape, [float("%.6g" % v) for v in a.ravel()[:6]])


def arrays_equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc")


def same(a, b, path="", seen=None):
    """First difference of two nested structures (which may refer to themselves), or None."""
    import scipy.sparse as sp
    if isinstance(a, (dict, list, tuple)) or (hasattr(a, "__dict__") and not callable(a)):
        seen = {} if seen is None else seen
        if (id(a), id(b)) in seen:
            return None
        seen[id(a), id(b)] = (a, b)
    if sp.issparse(a) or sp.issparse(b):
        if not (sp.issparse(a) and sp.issparse(b)):
            return "%s: sparse/dense" % path
        if a.shape != b.shape:
            return "%s: shape %s != %s" % (path, a.shape, b.shape)
        if a.format == b.format == "csr" and np.array_equal(a.indptr, b.indptr) and np.array_equal(a.indices, b.indices):
            return None if arrays_equal(a.data, b.data) else "%s: sparse entries differ" % path
        d = (a != b)
        return "%s: sparse entries differ" % path if d.nnz else None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return "%s[%r] appeared" % (path, k)
            if k not in b:
                return "%s[%r] disappeared" % (path, k)
            d = same(a[k], b[k], "%s[%r]" % (path, k), seen)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return "%s: %s became %s" % (path, type(a).__name__, type(b).__name__)
        if a.shape != b.shape:
            return "%s: shape %s became %s" % (path, a.shape, b.shape)
        if a.dtype == object:
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                d = same(x, y, "%s[%d]" % (path, i), seen)
                if d:
                    return d
            return None
        if not arrays_equal(a, b):
            w = np.argwhere(~((a == b) | ((a != a) & (b != b))))[0].tolist()
            return "%s%s: %r became %r" % (path, w, a[tuple(w)], b[tuple(w)])
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d became %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, "%s[%d]" % (path, i), seen)
            if d:
                return d
        return None
    if type(a) is type(b) and type(a).__module__.startswith("pypower") and hasattr(a, "__dict__"):
        return None if a is b else same(vars(a), vars(b), path + "." + type(a).__name__, seen)
    if callable(a) and callable(b):
        return None if a is b or getattr(a, "__qualname__", 1) == getattr(b, "__qualname__", 2) else "%s: callable changed" % path
    try:
        if a is b or a == b or (a != a and b != b):
            return None
    except Exception:
        pass
    return "%s: %r became %r" % (path, a, b)


def close(a, b, rtol=1e-6, atol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
