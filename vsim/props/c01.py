"""C01 AC power flow honesty under linear-solver faults."""
import numpy as np

from .. import netgen, ref
from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C

ID = "C01"
RUNS = {"quick": 3600, "thorough": 40000}
RULE = ("one run = one generated or stock network, one algorithm/tolerance/iteration setting, one power flow "
        "(optionally a second, warm-started one) under an explicit plan of linear-solver faults; non-trivial when the "
        "run either reported success and was checked against the reference model, or a fault fired")
REAL, STUB, ASSUME = C.REAL, C.STUB, C.ASSUME
PROBES = ["success-checked", "failure-reported", "success-after-fault", "must-solve", "ref-promoted"]


def gen(r, tier, i):
    spec = netgen.rand_spec(r, stocks=("case6ww", "case9", "case14", "case30", "case24_ieee_rts", "case39", "case57"),
                            maxnb=16)
    alg = r.choice([1, 1, 1, 2, 3, 4])
    o = {"PF_ALG": alg}
    if r.random() < 0.5:
        o["PF_TOL"] = r.choice([1e-3, 1e-5, 1e-6, 1e-9, 1e-10])
    if r.random() < 0.3:
        if alg == 1:
            o["PF_MAX_IT"] = r.choice([0, 1, 2, 3, 20, 40])
        elif alg in (2, 3):
            o["PF_MAX_IT_FD"] = r.choice([0, 1, 3, 8, 60, 120])
        else:
            o["PF_MAX_IT_GS"] = r.choice([0, 1, 10, 200, 1500])
    elif alg == 4:
        o["PF_MAX_IT_GS"] = 1500
    if alg == 1 and r.random() < 0.35:
        o["PF_LIN_SOLVER_NR"] = "pyrlu"
    scn = {"case": spec, "opts": o, "mods": [], "faults": [], "again": r.random() < 0.25}
    if r.random() < 0.15:
        scn["mods"].append({"op": "scale", "f": r.choice([1.5, 2, 3, 6, 20])})
    if r.random() < 0.1:
        scn["mods"].append({"op": "trip", "k": r.randrange(40)})
    if r.random() < 0.15:
        scn["mods"].append({"op": "flat"})
    if r.random() < 0.1:
        scn["mods"].append({"op": "v0", "s": r.randrange(1000)})
    if r.random() < 0.12:
        scn["mods"].append({"op": "infq", "s": r.randrange(1000)})
    if r.random() < 0.55:
        if alg == 4:
            pass
        elif alg in (2, 3):
            scn["faults"] = solve_faults(r, maxat=14)
            if r.random() < 0.15:
                scn["faults"].append({"seam": "factor", "at": r.randrange(2), "kind": r.choice(["raise", "memerr"])})
        else:
            scn["faults"] = solve_faults(r, maxat=5)
    return scn


def apply_mods(ppc, mods):
    import random as _r
    for m in mods:
        if m["op"] == "scale":
            ppc["bus"][:, 2:4] *= m["f"]
            ppc["gen"][:, 1] = ppc["gen"][:, 1] * m["f"]
        elif m["op"] == "trip":
            br = ppc["branch"]
            if len(br):
                br[m["k"] % len(br), 10] = 0
        elif m["op"] == "flat":
            ppc["bus"][ppc["bus"][:, 1] != 3, 8] = 0
            ppc["bus"][ppc["bus"][:, 1] == 1, 7] = 1
        elif m["op"] == "infq":               # units without a reactive limit
            rr = _r.Random(m["s"])
            g = ppc["gen"] = ppc["gen"].astype(float)
            for k in range(len(g)):
                if rr.random() < 0.5:
                    for c, v in ((3, np.inf), (4, -np.inf)):
                        if rr.random() < 0.7:
                            g[k, c] = v
        elif m["op"] == "v0":
            rr = _r.Random(m["s"])
            for i in range(len(ppc["bus"])):
                if ppc["bus"][i, 1] != 3:
                    ppc["bus"][i, 8] += rr.uniform(-8, 8)
                ppc["bus"][i, 7] = rr.uniform(0.9, 1.1)
    return ppc


def run(scn):
    sim = Sim(seed=7, faults=scn["faults"])
    ctx = Ctx()
    runpf = api("runpf")
    ppc = apply_mods(netgen.build(scn["case"]), scn["mods"])
    opt = quiet(**scn["opts"])
    alg, tol = opt["PF_ALG"], opt["PF_TOL"]
    nb = len(ppc["bus"])
    caps = {1: opt["PF_MAX_IT"], 2: opt["PF_MAX_IT_FD"], 3: opt["PF_MAX_IT_FD"], 4: opt["PF_MAX_IT_GS"]}
    cap = caps[alg]
    key = None
    rounds = 2 if scn.get("again") else 1
    cur = ppc
    for rnd in range(rounds):
        orig = netgen.copy_case(cur)
        f = scn["faults"] if rnd == 0 else []
        kind, val = sim.run(lambda: runpf(cur, opt), name="pf%d" % rnd, faults=f,
                            budget=4000 + 200 * nb + (cap + 2) * (80 + 12 * nb), solve_budget=2 * cap + 4)
        fired = sim.nfired if rnd == 0 else 0
        net = ref.Net(orig)
        rr, pvb, pqb = net.types()
        if kind == "exc":
            if isinstance(val, SimBudget):
                ctx.bad("unbounded", "power flow did not end within its iteration limit (%s)" % val)
                break
            key = key or ("raised" if fired else None)
            sim.probe("raised")
            if not fired and net.islands_ok() and rr:
                ctx.bad("spurious-error", "power flow raised %s with nothing failing" % excname(val))
            break
        try:
            res, ok = val
        except Exception:
            ctx.bad("bad-return", "runpf did not return (results, success)")
            break
        sim.log("result", rnd, bool(ok), summ(res["bus"][:, 7]), summ(res["bus"][:, 8]))
        if bool(ok) != bool(res.get("success")):
            ctx.bad("success-flag", "returned success %r but results say %r" % (ok, res.get("success")))
        if ok:
            sim.probe("success-checked")
            if fired:
                sim.probe("success-after-fault")
            if not rr:
                sim.probe("ref-promoted")
            key = "ok-fault" if fired else "ok"
            ctx.add("solved-but-", ref.check_pf(orig, res, tol, alg), "" if not fired else " [after %d faults]" % fired)
        else:
            sim.probe("failure-reported")
            key = key or ("failed-fault" if fired else "failed")
        if not fired and rr and net.islands_ok():
            # liveness: the reference model converges comfortably => so must pypower
            it = {1: lambda: ref.newton(net, tol, cap), 2: lambda: ref.fdpf(net, tol, cap, 2),
                  3: lambda: ref.fdpf(net, tol, cap, 3), 4: lambda: ref.gauss(net, tol, cap)}[alg]()
            marg = {1: 2, 2: 4, 3: 4, 4: max(10, cap // 5)}[alg]
            if it and it[0] and it[1] + marg <= cap and tol >= 1e-10:
                sim.probe("must-solve")
                if not ok:
                    ctx.bad("not-solved", "reference model solves this network in %d of %d iterations; pypower reports failure"
                            % (it[1], cap))
                elif alg != 4 or True:
                    V = res["bus"][net.lb, 7] * np.exp(1j * np.pi / 180 * res["bus"][net.lb, 8])
                    e = float(np.max(np.abs(V - it[2]))) if len(V) else 0.0
                    if e > max(1e-4, 2e4 * tol):
                        ctx.bad("other-solution", "voltages differ from the reference solution by %.3g p.u." % e)
            elif it and not it[0] and it[1] >= cap and ok and tol < 1e-7:
                pass
        if not ok:
            break
        cur = res
    return finish(sim, ctx, key)
