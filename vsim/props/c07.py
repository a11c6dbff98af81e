"""C07 the caller's case and options survive every analysis unchanged."""
import copy

import numpy as np
import scipy.sparse as sp

from .. import netgen
from ..sim import Sim, SimBudget, SimCancel
from .common import *  # noqa: F401,F403
from . import common as C
from .c04 import BASEF, STOCKS
from .c06 import transfer

ID = "C07"
RUNS = {"quick": 900, "thorough": 9000}
RULE = ("one run = one case with user data attached and one analysis entry point, executed first as scheduled (with linear-solver, "
        "output-stream or callback faults) and then cancelled at several lines; after every return, error or cancellation the "
        "caller's case and options are compared with deep snapshots, and results with the caller's memory; non-trivial when at "
        "least one cancellation or fault struck")
REAL, STUB, ASSUME = C.REAL, C.STUB, C.ASSUME
PROBES = ["returned", "raised", "cancelled", "memerr", "callback-raised", "solve-fault", "stream-fault", "matrices-form",
          "printing", "shares-checked"]
ENTRIES = ["runpf", "runpf", "rundcpf", "runopf", "runopf", "rundcopf", "runuopf", "runduopf", "runcpf", "opf", "dcopf", "uopf",
           "opfmat", "opfmatA", "uopfmat"]
KINDS = ["SimCancel", "KeyboardInterrupt", "MemoryError", "RuntimeError", "OSError"]
STAGES = ["ext2int", "formulation", "int2ext", "printpf"]


class CallbackError(Exception):
    pass


def gen(r, tier, i):
    entry = r.choice(ENTRIES)
    heavy = entry in ("runuopf", "runduopf", "uopf", "uopfmat")
    feats = netgen.FEATURES if entry in ("runpf", "rundcpf", "runcpf") else BASEF + ["ints", "extracols"]
    spec = netgen.rand_spec(r, feats=feats, stocks=("case6ww", "case9", "case30") if heavy else STOCKS, maxnb=6 if heavy else 10)
    spec["feat"] = sorted(set(spec["feat"] + r.sample(netgen.OPF_FEATURES, r.choice([0, 1, 2, 3]))))
    if heavy and r.random() < 0.6:
        spec["pmin"] = r.choice([0.5, 2.5])
    o = {}
    if entry in ("runpf", "rundcpf"):
        o.update(ENFORCE_Q_LIMS=r.choice([0, 0, 1, 2]), PF_ALG=r.choice([1, 2, 3, 4]))
    if entry in ("runopf", "opf", "opfmat", "opfmatA"):
        o.update(OPF_ALG=r.choice([0, 560, 565]), OPF_FLOW_LIM=r.choice([0, 1, 2]))
    if entry == "dcopf" or (entry == "opf" and r.random() < 0.3):
        o["PF_DC"] = True
    if entry == "runcpf":
        o.update(CPF_STOP_AT=r.choice(["NOSE", 0.5, "FULL"]), CPF_STEP=r.choice([0.3, 1.0]),
                 CPF_ADAPT_STEP=r.random() < 0.3, CPF_PARAMETERIZATION=r.choice([1, 2, 3]))
    if r.random() < 0.4:
        o.update(VERBOSE=r.choice([1, 2, 3]), OUT_ALL=r.choice([0, 1, -1]), OUT_AREA_SUM=r.random() < 0.5,
                 OUT_ALL_LIM=r.choice([-1, 2]))
    if r.random() < 0.2:
        o["PDIPM_MAX_IT"] = r.choice([1, 5])
    if r.random() < 0.2:
        o["RETURN_RAW_DER"] = 1
    scn = {"case": spec, "entry": entry, "opts": o, "faults": [], "user": r.random() < 0.6, "partial": r.random() < 0.3,
           "x": {"seed": r.randrange(10**6), "f": 2, "p": 0.7, "g": True},
           "cancel": [[round(r.random(), 4), r.choice(KINDS)] for _ in range(2 if heavy else 4)]}
    if r.random() < 0.4:
        scn["faults"] += solve_faults(r, maxat=12)
    if o.get("OUT_ALL") and r.random() < 0.5:
        scn["faults"].append({"seam": "stdout", "at": r.choice([0, 1, 5, 40]), "kind": r.choice(["epipe", "enospc"])})
    if r.random() < 0.2:
        scn["stage"] = r.choice(STAGES)
    return scn


def dtypes(a, p=""):
    out = {}
    if isinstance(a, dict):
        for k in a:
            out.update(dtypes(a[k], "%s[%r]" % (p, k)))
    elif isinstance(a, np.ndarray) or sp.issparse(a):
        out[p] = (type(a).__name__, str(a.dtype))
    elif isinstance(a, (list, tuple)):
        for k, v in enumerate(a):
            out.update(dtypes(v, "%s[%d]" % (p, k)))
    else:
        out[p] = type(a).__name__
    return out


def arrays(a, p="", seen=None):
    seen = set() if seen is None else seen
    if id(a) in seen:
        return
    seen.add(id(a))
    if isinstance(a, np.ndarray):
        yield p, a
    elif sp.issparse(a):
        if hasattr(a, "data") and isinstance(a.data, np.ndarray):
            yield p + ".data", a.data
    elif isinstance(a, dict):
        for k in a:
            yield from arrays(a[k], "%s[%r]" % (p, k), seen)
    elif isinstance(a, (list, tuple)):
        for k, v in enumerate(a):
            yield from arrays(v, "%s[%d]" % (p, k), seen)
    elif type(a).__module__.startswith("pypower") and hasattr(a, "__dict__"):
        yield from arrays(vars(a), p + ".", seen)


def make(scn, hook):
    ppc = netgen.build(scn["case"])
    f = scn["case"].get("pmin")
    if f:
        on = ppc["gen"][:, 9] >= 0
        ppc["gen"] = ppc["gen"].astype(float)
        ppc["gen"][on, 9] = np.minimum(ppc["gen"][on, 8] * 0.9, ppc["gen"][on, 9] + f * 10)
    if scn.get("user"):
        ppc["notes"] = {"list": [1, [2.5, "x"]], "arr": np.arange(4.0), "nested": {"k": np.eye(2)}}
        ppc["bus_name"] = ["b%d" % k for k in range(len(ppc["bus"]))]
        ppc["userobj"] = ("t", np.array([1, 2, 3]))
    if scn.get("stage"):
        api("add_userfcn")(ppc, scn["stage"], hook, args={"limits": np.array([1.0, 2.0]), "n": [1]})
    return ppc


def run(scn):
    ctx = Ctx()
    sim = Sim(seed=7, faults=[])
    calls = []

    def hook(x, *args):
        calls.append(1)
        if scn.get("stage") != "printpf" or len(calls) > 0:
            raise CallbackError("stage")
        return x
    if scn.get("stage") == "formulation" and scn["x"]["seed"] % 3 == 0:
        def hook(om, *args):   # noqa: F811   a callback that works
            return om
    ppc = make(scn, hook)
    target = transfer(ppc, scn["x"]) if scn["entry"] == "runcpf" else None
    opt = quiet(**scn["opts"])
    if scn.get("partial"):
        d = quiet()
        opt = {k: v for k, v in opt.items() if k in scn["opts"] or k in ("VERBOSE", "OUT_ALL")}
        if scn["entry"] in ("opf", "dcopf", "uopf", "opfmat", "opfmatA", "uopfmat"):
            opt = dict(d, **opt)
    args = [ppc, target, opt]
    names = ["case", "target case", "options"]
    e = scn["entry"]
    if e in ("opfmat", "opfmatA", "uopfmat"):
        n2 = ["baseMVA", "bus", "gen", "branch", "areas", "gencost"]
        mats = [ppc["baseMVA"], ppc["bus"], ppc["gen"].astype(float), ppc["branch"], ppc.get("areas", np.array([])), ppc.get("gencost")]
        if mats[5] is None:
            mats[5] = np.tile([2., 0, 0, 2, 10, 0], (len(mats[2]), 1))
        sim.probe("matrices-form")
        if e == "opfmatA" and "A" in ppc and not opt.get("PF_DC"):
            mats += [ppc["A"], ppc["l"], ppc["u"]]
            n2 += ["A", "l", "u"]
        args, names = mats + [opt], n2 + ["options"]
        fn = api("uopf" if e == "uopfmat" else "opf")
        call = lambda: fn(*args)
    elif e == "runcpf":
        fn = api("runcpf")
        call = lambda: fn(ppc, target, opt)
    else:
        fn = api("opf" if e == "dcopf" else e)
        call = lambda: fn(ppc, opt)
    snap = copy.deepcopy(args)
    types = dtypes(args)
    key = []

    def compare(what):
        for nm, a, b in zip(names, snap, args):
            d = same(a, b, nm)
            if d:
                ctx.bad("caller-data-changed", "%s: %s" % (what, d))
                return True
        t = dtypes(args)
        if t != types:
            k = [k for k in types if t.get(k) != types[k]][0]
            ctx.bad("caller-data-retyped", "%s: %s: %s became %s" % (what, k, types[k], t.get(k)))
            return True
        return False
    big = 1500000
    kind, val = sim.run(call, faults=scn["faults"], budget=big, solve_budget=40000)
    n = sim.last_task.lines
    for f in sim.fired:
        sim.probe("stream-fault" if f.startswith("std") else "solve-fault")
    if opt.get("OUT_ALL"):
        sim.probe("printing")
    if kind == "exc":
        if isinstance(val, SimBudget):
            return finish(sim, ctx, None)
        sim.probe("callback-raised" if isinstance(val, CallbackError) else "raised")
        what = "after %s raised %s" % (e, excname(val))
    else:
        sim.probe("returned")
        what = "after %s returned" % e
    key.append(what[:12])
    bad = compare(what)
    sim.log("first", kind, n, bad)
    if kind == "ok" and not bad:
        sim.probe("shares-checked")
        mine = [(p, a) for p, a in arrays(args) if a.size]
        mine = [(p, a) for p, a in mine]
        for p, a in arrays(val if isinstance(val, (dict, tuple, list)) else [val], "result"):
            if a.size:
                for q, b in mine:
                    if np.shares_memory(a, b):
                        ctx.bad("result-aliases-caller", "%s of %s shares memory with the caller's %s" % (p, e, q))
                        bad = True
                        break
            if bad:
                break
    for frac, ek in scn["cancel"]:
        if bad:
            break
        del calls[:]
        at = max(1, int(frac * n))
        before = sim.nfired
        kind, val = sim.run(call, faults=scn["faults"] + [{"seam": "line", "at": at, "kind": ek}], budget=big, solve_budget=40000)
        if kind == "exc":
            sim.probe("memerr" if isinstance(val, MemoryError) else "cancelled")
            key.append(ek)
            bad = compare("%s interrupted by %s at line %d of %d" % (e, ek, at, n))
        else:
            bad = compare("after %s returned in spite of %s" % (e, ek))
        sim.log("cancel", at, ek, kind, bad)
    return finish(sim, ctx, repr((e, key)) if key else None)


def shrinks(scn):
    if len(scn["cancel"]) > 0:
        yield dict(scn, cancel=[])
    for c in scn["cancel"]:
        yield dict(scn, cancel=[c])
    for k in ("stage", "user", "partial"):
        if scn.get(k):
            yield {a: b for a, b in scn.items() if a != k}
    for s in netgen.shrink_spec(scn["case"]):
        yield dict(scn, case=s)
    for k in sorted(scn["opts"]):
        o = dict(scn["opts"])
        del o[k]
        yield dict(scn, opts=o)
