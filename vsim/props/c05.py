"""C05 unit decommitment."""
import numpy as np

from .. import netgen, ref, refopf
from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C

ID = "C05"
RUNS = {"quick": 700, "thorough": 8000}
RULE = ("one run = one case with raised minimum outputs and no-load costs, AC or DC, one unit decommitment run under a plan of "
        "linear-solver faults placed anywhere in its sequence of inner optimal power flows; non-trivial when a unit was shut "
        "down, a fault fired, or the commitment was compared with the greedy reference search")
REAL, STUB, ASSUME = C.REAL, C.STUB, C.ASSUME
PROBES = ["shutdown", "multi-shutdown", "success-after-fault", "start-failed", "agrees-with-model", "pmin-stage",
          "failure-reported", "raised"]
BASEF = ["shift", "taps", "shunts", "parallel", "multigen", "oosgen", "oosbranch", "scramble", "shuffle",
         "negload", "base", "charging", "widegap", "pqgen", "isolated", "tworef", "extracols", "morebranchcols", "noncontig", "ints", "flatzero", "mus", "areas"]
OPFF = ["oplim", "pwl", "pwl1", "linear", "dispload", "tightv", "qcost"]


def gen(r, tier, i):
    spec = netgen.rand_spec(r, feats=BASEF, stocks=("case6ww", "case9", "case30"), maxnb=10, stock_p=0.1)
    spec["feat"] = sorted(spec["feat"] + r.sample(OPFF, r.choice([0, 0, 1, 2])))
    o = {"PF_DC": r.random() < 0.65}
    if r.random() < 0.15:
        o["PDIPM_MAX_IT"] = r.choice([8, 12, 15, 20])
    scn = {"case": spec, "opts": o, "faults": [],
           "hi": {"seed": r.randrange(10**6), "f": r.choice([0.15, 0.3, 0.45, 0.6, 0.8, 1.0]), "c": r.choice([0, 300, 2000])}}
    if r.random() < 0.5:
        scn["faults"] = solve_faults(r, maxat=r.choice([12, 60, 120]), allow_forever=r.random() < 0.3)
        if r.random() < 0.4:
            for f in scn["faults"]:
                f["count"] = r.choice([5, 15, 30])
    return scn


def raise_pmin(ppc, h):
    import random
    rr = random.Random(h["seed"])
    g, gc = ppc["gen"], ppc["gencost"]
    for k in range(len(g)):
        u, v, w = rr.random(), rr.uniform(0.6, 1.0), rr.random()
        if g[k, 9] < 0:
            continue
        if u < 0.8:
            g[k, 9] = round(g[k, 8] * h["f"] * v, 2)
        if gc[k, 0] == 2 and w < 0.7:
            gc[k, 3 + int(gc[k, 3])] += round(h["c"] * v, 1)
        elif gc[k, 0] == 1 and w < 0.7:
            n = int(gc[k, 3])
            gc[k, 5:5 + 2 * n:2] += round(h["c"] * v, 1)
    return ppc


def isload(g):
    return (g[:, 9] < 0) & (g[:, 8] == 0)


def connected(ppc):
    return ~np.isin(ppc["gen"][:, 0], ppc["bus"][ppc["bus"][:, 1] == 4, 0])


def pmin_stage(ppc):
    """Documented first stage: the set of units shut so minimum outputs fit the load.
    Returns the units, or None when the choice is not unique."""
    g = ppc["gen"].copy()
    live = ppc["bus"][:, 1] != 4
    g[~connected(ppc), 7] = 0
    off = []
    while True:
        on = [k for k in range(len(g)) if g[k, 7] > 0 and not isload(g)[k]]
        onld = (g[:, 7] > 0) & isload(g)
        cap = ppc["bus"][live, 2].sum() - g[onld, 9].sum()
        s = sum(g[k, 9] for k in on)
        if abs(s - cap) < 1e-6:
            return None
        if s <= cap:
            return off
        on = [k for k in on if g[k, 9] > 0]
        if not on:
            return None
        avg = [refopf.cost_at(ppc["gencost"][k], g[k, 9]) / g[k, 9] for k in on]
        top = sorted(avg)
        if len(top) > 1 and top[-1] - top[-2] < 1e-9 * abs(top[-1]) + 1e-12:
            return None
        k = on[int(np.argmax(avg))]
        g[k, [1, 2, 7]] = 0
        off.append(k)


def model(ppc, opt, first):
    """Greedy search as documented, every inner problem solved from scratch.
    Returns (units off, cost) or None when a comparison is too close to call."""
    opf = api("opf")

    def solve(off):
        c = netgen.copy_case(ppc)
        c["gen"][off, 1] = 0
        c["gen"][off, 2] = 0
        c["gen"][off, 7] = 0
        r = opf(c, dict(opt))
        return r if r["success"] else None
    off = list(first)
    best = solve(off)
    if best is None:
        return None
    eps = 2e-5 * (1 + abs(best["f"]))
    while True:
        live = connected(ppc) & (best["gen"][:, 7] > 0)
        mu = np.where(live, best["gen"][:, 22], 0)
        pm = best["gen"][:, 9]
        amb = np.any((mu != 0) & (mu < 5e-3) & (pm > 0)) or np.any((mu <= 0) & (pm > 0) & (best["gen"][:, 1] < pm + 0.02)
                                                            & live)
        if amb:
            return None
        cand = [k for k in range(len(mu)) if mu[k] > 0 and pm[k] > 0]
        trials = []
        for k in cand:
            r = solve(off + [k])
            if r is not None:
                trials.append((r["f"], k, r))
            else:
                # a candidate the solver gives up on may be feasible from another start
                if not opt["PF_DC"]:
                    return None
        if not trials:
            return off, best["f"]
        trials.sort(key=lambda t: t[:2])
        f, k, r = trials[0]
        if abs(f - best["f"]) < eps or (len(trials) > 1 and trials[1][0] - f < eps):
            return None
        if f >= best["f"]:
            return off, best["f"]
        off, best = off + [k], r


def run(scn):
    sim = Sim(seed=7, faults=scn["faults"])
    ctx = Ctx()
    ppc = raise_pmin(netgen.build(scn["case"]), scn["hi"])
    orig = netgen.copy_case(ppc)
    opt = quiet(**scn["opts"])
    dc, cap = bool(opt["PF_DC"]), opt["PDIPM_MAX_IT"]
    nb, ng = len(ppc["bus"]), len(ppc["gen"])
    first = pmin_stage(orig)
    nopf = 2 + ng * (ng + 1)
    from .c04 import pypower_budget
    kind, val = sim.run(lambda: api("runuopf")(ppc, opt), faults=scn["faults"],
                        budget=nopf * pypower_budget(nb, ng, cap, 0), solve_budget=nopf * (cap + 1))
    fired = sim.nfired
    key = None
    if kind == "exc":
        if isinstance(val, SimBudget):
            ctx.bad("unbounded", "unit decommitment did not end (%s)" % val)
        else:
            sim.probe("raised")
            key = "raised" if fired else None
            net = ref.Net(orig)
            if not fired and net.types()[0] and net.islands_ok() and first is not None and len(first) < (connected(orig) & (orig["gen"][:, 7] > 0)).sum():
                ctx.bad("spurious-error", "unit decommitment raised %s with nothing failing" % excname(val))
        return finish(sim, ctx, key)
    res = val
    ok = bool(res["success"])
    sim.log("result", ok, summ(res["gen"][:, 1]), summ([res["f"]]))
    s0, s1 = orig["gen"][:, 7], res["gen"][:, 7]
    off = [k for k in range(ng) if s0[k] > 0 and not s1[k] > 0]
    if any(s1[k] > 0 and not s0[k] > 0 for k in range(ng)):
        ctx.bad("committed", "a unit that was out of service came back in service")
    if off:
        sim.probe("shutdown")
        if len(off) > 1:
            sim.probe("multi-shutdown")
    if first:
        sim.probe("pmin-stage")
    # the same start, alone, under the same faults
    f0 = None
    if first is not None:
        c = netgen.copy_case(orig)
        for q in (1, 2, 7):
            c["gen"][first, q] = 0
        k0, v0 = sim.run(lambda: api("opf")(c, dict(opt)), name="start", faults=scn["faults"])
        if k0 == "ok" and v0["success"]:
            f0 = float(v0["f"])
        else:
            sim.probe("start-failed")
    if f0 is not None and not ok:
        ctx.bad("lost-solution", "the starting dispatch was solved but the run returned an unsolved candidate")
    if ok:
        if fired:
            sim.probe("success-after-fault")
        for k in off:
            if res["gen"][k, 1] != 0 or res["gen"][k, 2] != 0:
                ctx.bad("off-output", "unit row %d was shut down but reports output" % k)
        fake = netgen.copy_case(orig)
        fake["gen"][:, 7] = s1
        bad, info = refopf.check(fake, res, opt, dc)
        seen = set()
        for c_, m in bad:
            if c_ not in seen:
                seen.add(c_)
                ctx.bad("solved-but-" + c_, m)
        if f0 is not None:
            tol = 1e-6 * (1 + abs(f0))
            if not res["f"] <= f0 + tol:
                ctx.bad("dearer", "returned dispatch costs %.8g, the start costs %.8g" % (res["f"], f0))
            extra = [k for k in off if k not in first]
            if extra and not res["f"] < f0 + tol:
                ctx.bad("no-saving", "units %r were shut down without a saving" % extra)
            if any(k not in off for k in first):
                ctx.bad("pmin-stage", "units %r had to be shut down so minimum outputs fit the load; off are %r" % (first, off))
        key = ("ok", dc, bool(fired), len(off))
        if not fired and f0 is not None and cap >= 100 and ng <= 7:
            m = model(orig, opt, first)
            if m is not None:
                sim.probe("agrees-with-model")
                if sorted(m[0]) != sorted(off):
                    ctx.bad("other-commitment", "greedy search shuts down %r (cost %.8g), the run shut down %r (cost %.8g)"
                            % (sorted(m[0]), m[1], off, res["f"]))
    else:
        sim.probe("failure-reported")
        key = ("failed", dc, bool(fired))
    return finish(sim, ctx, repr(key) if key and (off or fired or "ok" in key) else None)


def shrinks(scn):
    for s in netgen.shrink_spec(scn["case"]):
        yield dict(scn, case=s)
