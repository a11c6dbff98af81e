"""C18 every analysis ends within its configured iteration limits."""
import copy
import random

import numpy as np

from .. import netgen, ref
from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C
from . import c04, c05, c06

ID = "C18"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("one run = one solver called directly (Newton, fast-decoupled, Gauss-Seidel, continuation corrector) or one whole analysis "
        "(power flow with or without reactive limits, optimal power flow AC/DC, decommitment search, continuation) on a generated case, "
        "possibly with extreme or non-finite numbers planted in it, under seeded iteration limits (0, 1, small, default) and passing or "
        "perpetual linear-solver faults; the number of iterations, linear solves and executed lines is compared with the bound the "
        "options and the case size give; non-trivial when at least one iteration ran or a fault fired")
REAL, STUB, ASSUME = C.REAL, C.STUB, C.ASSUME + [
    "a continuation run is bounded by its steps, each within the corrector's limit; its number of steps is bounded only for steps not below 0.02"]
PROBES = ["newton", "fd", "gauss", "corrector", "runpf", "runpf-qlim", "qlim-rounds", "opf-ac", "opf-dc", "uopf", "uopf-stages", "cpf", "limit-zero",
          "limit-reached", "converged", "converged-at-start", "perpetual-fault", "extreme", "nonfinite", "raised", "step-zero", "input-kept"]
EXT = [0.0, -1.0, 1e-300, 1e300, -1e300, 1e12, 1e-12, float("nan"), float("inf"), float("-inf")]


def gen(r, tier, i):
    what = r.choice(["newton", "fd", "gauss", "corrector", "runpf", "runpf", "qlim", "qlim", "opf", "opf", "dcopf", "uopf", "cpf"])
    if what == "cpf":
        base = c06.gen(r, "quick", i)
        base["opts"]["CPF_STEP"] = r.choice([0.02, 0.05, 0.2, 0.4, 1.0, 1.0])
        if r.random() < 0.12:
            base["opts"].update(r.choice([{"CPF_STEP": 0.0}, {"CPF_ADAPT_STEP": True, "CPF_STEP_MIN": 0.0, "CPF_ERROR_TOL": 0.0},
                                          {"CPF_ADAPT_STEP": True, "CPF_STEP_MIN": 0.0, "CPF_STEP_MAX": 0.0}]))
        base.pop("cbraise", None)
    elif what == "uopf":
        base = c05.gen(r, "quick", i)
    elif what in ("opf", "dcopf"):
        base = c04.gen(r, "quick", i)
        base["opts"]["PF_DC"] = what == "dcopf"
        if base["opts"]["PF_DC"]:
            base["opts"].pop("OPF_ALG", None)
        base["opts"]["PDIPM_MAX_IT"] = r.choice([0, 1, 2, 5, 20, 60, 150])
    else:
        base = {"case": netgen.rand_spec(r, stocks=("case6ww", "case9", "case14", "case30"), maxnb=14), "opts": {}, "faults": []}
        o = base["opts"]
        o["PF_ALG"] = {"newton": 1, "fd": r.choice([2, 3]), "gauss": 4}.get(what) or r.choice([1, 1, 2, 3, 4])
        o["PF_MAX_IT"] = r.choice([0, 1, 2, 3, 10, 40])
        o["PF_MAX_IT_FD"] = r.choice([0, 1, 2, 5, 30])
        o["PF_MAX_IT_GS"] = r.choice([0, 1, 3, 20, 60])
        o["PF_TOL"] = r.choice([1e-8, 1e-8, 1e-4, 1e-2, 10.0, 0.0, 1e-15])
        o["VERBOSE"] = r.choice([0, 0, 0, 2, 3])
        if what == "qlim":
            o["ENFORCE_Q_LIMS"] = r.choice([1, 2])
            base["tight"] = r.randrange(10**6)
        base["x"] = {"seed": r.randrange(10**6), "f": r.choice([1.5, 3, 8]), "feat": [f for f in base["case"]["feat"] if f == "allpv"], "p": 0.7, "g": r.random() < 0.5}
        base["par"] = r.choice([1, 2, 3])
        base["step"] = r.choice([0.05, 0.3, 1.0, 0.0])
        base["start"] = r.choice(["flat", "case", "wild"])
        if r.random() < 0.5:
            base["faults"] = solve_faults(r, maxat=r.choice([1, 4, 12]))
    if r.random() < 0.3:                        # perpetual, or periodic, faults
        f = {"seam": "solve", "at": r.choice([0, 0, 1, 3]), "kind": r.choice(C.SOLVE_KINDS), "count": 10**6}
        if f["kind"] in ("noise", "scale"):
            f["mag"] = r.choice([0.5, 0.05, 3.0, -1.0])
        base["faults"] = base["faults"] + [f]
    base["ext"] = [[r.choice(["bus", "gen", "branch", "gencost"]), r.randrange(99), r.randrange(99), r.choice(EXT)]
                   for _ in range(r.choice([0, 0, 0, 1, 1, 2, 4]))]
    base["what"] = what
    return base


COLS = {"bus": [2, 3, 4, 5, 7, 8, 11, 12], "gen": [1, 2, 3, 4, 5, 7, 8, 9], "branch": [2, 3, 4, 5, 8, 9, 10, 11, 12], "gencost": [1, 2, 4, 5, 6, 7]}


def plant(ppc, ext, sim):
    for m, i, j, v in ext:
        if m not in ppc or not len(ppc[m]):
            continue
        ppc[m] = np.array(ppc[m], float)
        cols = [c for c in COLS[m] if c < ppc[m].shape[1]]
        ppc[m][i % len(ppc[m]), cols[j % len(cols)]] = v
        sim.probe("extreme" if np.isfinite(v) else "nonfinite")


def run(scn):
    sim = Sim(seed=7, faults=scn["faults"])
    ctx = Ctx()
    if any(f.get("count", 1) >= 1000 for f in scn["faults"]):
        sim.probe("perpetual-fault")
    what = scn["what"]
    ppc = netgen.build(scn["case"])
    if what == "uopf":
        ppc = c05.raise_pmin(ppc, scn["hi"])
    if scn.get("tight"):
        rr = random.Random(scn["tight"])
        ppc["gen"] = np.array(ppc["gen"], float)
        for k in range(len(ppc["gen"])):
            if rr.random() < 0.7:
                q = rr.uniform(-5, 10)
                ppc["gen"][k, 3], ppc["gen"][k, 4] = q + rr.choice([0, 2, 8]), q
    plant(ppc, scn["ext"], sim)
    if what in ("newton", "fd", "gauss", "corrector"):
        return direct(scn, sim, ctx, ppc)
    opt = quiet(**scn["opts"])
    nb, ng = len(ppc["bus"]), len(ppc["gen"])
    v = opt["VERBOSE"]
    if what in ("runpf", "qlim"):
        sim.probe("runpf" if what == "runpf" else "runpf-qlim")
        alg = opt["PF_ALG"]
        cap = {1: opt["PF_MAX_IT"], 2: 2 * opt["PF_MAX_IT_FD"], 3: 2 * opt["PF_MAX_IT_FD"], 4: 0}[alg]
        rounds = 1 if what == "runpf" else ng + 1
        lines = 60000 + rounds * (3000 + 60 * ng + {1: opt["PF_MAX_IT"] * 120, 4: opt["PF_MAX_IT_GS"] * (60 + 12 * nb)}.get(alg, opt["PF_MAX_IT_FD"] * 90))
        solves = rounds * cap
        go = lambda: api("runpf")(ppc, opt)
    elif what in ("opf", "dcopf"):
        sim.probe("opf-ac" if what == "opf" else "opf-dc")
        cap = opt["PDIPM_MAX_IT"]
        solves, lines = cap, c04.pypower_budget(nb, ng, cap, opt["SCPDIPM_RED_IT"])
        go = lambda: api("runopf")(ppc, opt)
    elif what == "uopf":
        sim.probe("uopf")
        cap = opt["PDIPM_MAX_IT"]
        n = 1 + ng * (ng + 1) // 2
        solves, lines = n * cap, n * c04.pypower_budget(nb, ng, cap, 0)
        go = lambda: api("runuopf")(ppc, opt)
    else:
        return cpf(scn, sim, ctx, ppc, opt)
    if cap == 0:
        sim.probe("limit-zero")
    kind, val = sim.run(go, budget=lines, solve_budget=solves)
    used = sim.last_task.counts.get("solve", 0)
    key = "%s-%s-%d" % (what, kind, min(used, 40)) if used or sim.nfired else None
    if kind == "exc":
        if isinstance(val, SimBudget):
            ctx.bad("unbounded", "%s did not stay within its limits (%s; %d linear solves allowed)" % (what, val, solves))
        sim.probe("raised")
    else:
        ok = (val[1] if isinstance(val, tuple) else val["success"])
        if used == cap and cap and not ok:
            sim.probe("limit-reached")
        if used > cap and what == "qlim" and cap:
            sim.probe("qlim-rounds")
        if what == "uopf" and used > 2 * 10:
            sim.probe("uopf-stages")
        sim.log("result", what, bool(np.all(ok)), used)
    return finish(sim, ctx, key)


def cpf(scn, sim, ctx, ppc, opt):
    sim.probe("cpf")
    target = c06.transfer(ppc, scn["x"])
    cap = opt["PF_MAX_IT"]
    steps, most = [], 2000

    def vsim_cb(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args, results=None, is_final=False):
        steps.append(sim.cur().counts.get("solve", 0))
        if len(steps) > most:
            raise SimBudget("more than %d steps" % most)
        return cb_state, results
    import importlib
    importlib.import_module("pypower.cpf_callbacks").vsim_cb = vsim_cb
    opt["CPF_USER_CALLBACK"] = "vsim_cb"
    zero = opt["CPF_STEP"] == 0 or (opt["CPF_ADAPT_STEP"] and opt["CPF_STEP_MIN"] == 0)
    if zero:
        sim.probe("step-zero")
    # a tampered predictor may turn round again and again: only passing faults bound the number of steps
    forever = any(f.get("count", 1) >= 1000 for f in scn["faults"])
    kind, val = sim.run(lambda: api("runcpf")(ppc, target, opt), budget=4 * 10**6, solve_budget=most * (cap + 1))
    used = sim.last_task.counts.get("solve", 0)
    d = np.diff([0] + steps)
    if len(d) and d.max() > cap + 2:
        ctx.bad("unbounded", "one continuation step took %d linear solves, the corrector's limit is %d" % (d.max(), cap))
    if kind == "exc":
        sim.probe("raised")
        if isinstance(val, SimBudget):
            if not forever:
                ctx.bad("unbounded", "continuation did not end (%s), %d steps" % (val, len(steps)))
    else:
        sim.log("result", "cpf", bool(val[1]), used, len(steps))
    return finish(sim, ctx, "cpf-%s-%d" % (kind, min(len(steps), 60)) if used or sim.nfired else None)


def direct(scn, sim, ctx, ppc):
    """The solvers themselves: iteration count, honesty of the flag, inputs left alone."""
    what, o = scn["what"], quiet(**scn["opts"])
    try:
        net = api("ext2int")(netgen.copy_case(ppc))
        rf, pv, pq = api("bustypes")(net["bus"], net["gen"])
        mk = importlib_make(net, o)
        Ybus, Sbus = mk["Y"], mk["S"]
        tgt = api("ext2int")(c06.transfer(ppc, scn["x"]))
        Sx = importlib_make(tgt, o)["S"] - Sbus
    except Exception:
        return finish(sim, ctx, None)           # the planted numbers do not make a case
    nb = len(net["bus"])
    R = np.random.RandomState(scn["x"]["seed"])
    V0 = {"flat": np.ones(nb, complex), "case": net["bus"][:, 7] * np.exp(1j * np.pi / 180 * net["bus"][:, 8]),
          "wild": R.uniform(0.1, 2, nb) * np.exp(1j * R.uniform(-3, 3, nb))}[scn["start"]]
    tol = o["PF_TOL"]
    sim.probe(what)
    lam = lam0 = 0.0
    pvpq = np.r_[pv, pq].astype(int)
    if what == "newton":
        cap = o["PF_MAX_IT"]
        go = lambda: api("newtonpf")(Ybus, Sbus, V0, rf, pv, pq, o)
        persolve, perline = 1, 80
    elif what == "fd":
        cap = o["PF_MAX_IT_FD"]
        Bp, Bpp = mk["B"]
        go = lambda: api("fdpf")(Ybus, Sbus, V0, Bp, Bpp, rf, pv, pq, o)
        persolve, perline = 2, 60
    elif what == "gauss":
        cap = o["PF_MAX_IT_GS"]
        go = lambda: api("gausspf")(Ybus, Sbus, V0, rf, pv, pq, o)
        persolve, perline = 0, 40 + 10 * nb
    else:
        cap = o["PF_MAX_IT"]
        z = R.standard_normal(2 * nb + 1)
        z /= np.linalg.norm(z)
        lam0 = R.uniform(0, 1)
        Vp = V0 * np.exp(1j * 0.01 * R.standard_normal(nb))
        go = lambda: api("cpf_corrector")(Ybus, Sbus, V0, rf, pv, pq, lam0, Sx, Vp, lam0 - 0.1, z, scn["step"], scn["par"], o)
        persolve, perline = 1, 120
    if cap == 0:
        sim.probe("limit-zero")
    before = copy.deepcopy([Ybus, Sbus, V0, Sx, rf, pv, pq, dict(o)])
    kind, val = sim.run(go, budget=4000 + 30 * nb + (cap + 1) * perline, solve_budget=persolve * cap)
    used = sim.last_task.counts.get("solve", 0)
    why = same(before, [Ybus, Sbus, V0, Sx, rf, pv, pq, dict(o)], "argument")
    if why:
        ctx.bad("argument-changed", "%s: %s" % (what, why))
    else:
        sim.probe("input-kept")
    key = "%s-%s-%d" % (what, kind, min(used, 40)) if used or what == "gauss" or sim.nfired else None
    if kind == "exc":
        sim.probe("raised")
        if isinstance(val, SimBudget):
            ctx.bad("unbounded", "%s did not stay within %d iterations (%s)" % (what, cap, val))
        return finish(sim, ctx, key)
    V, conv, it = val[:3]
    if what == "corrector":
        lam = float(np.ravel(val[3])[0])
    if it > cap:
        ctx.bad("too-many-iterations", "%s reports %d iterations, limit %d" % (what, it, cap))
    if what != "gauss" and not (persolve * it - 1 <= used <= persolve * it):
        ctx.bad("iteration-count", "%s reports %d iterations but solved %d systems" % (what, it, used))
    mis = V * np.conj(Ybus @ V) - Sbus - lam * Sx
    if what == "fd":
        mis = mis / np.abs(V)
    F = np.r_[mis[pvpq].real, mis[pq].imag]
    m = np.max(np.abs(F)) if len(F) else 0.0
    sim.log("result", what, bool(conv), int(it), summ([m]))
    scale = 1e-12 * (1 + np.max(np.abs(Ybus.data)) * np.max(np.abs(V))**2) if len(V) and np.all(np.isfinite(V)) and Ybus.nnz else 0
    if conv and not m <= tol * 1.0001 + scale:
        ctx.bad("false-convergence", "%s claims convergence at mismatch %.3g, tolerance %.3g%s" % (what, m, tol, " [%d faults]" % sim.nfired if sim.nfired else ""))
    if not conv and it < cap:
        ctx.bad("gave-up-early", "%s gave up after %d of %d iterations" % (what, it, cap))
    if not conv and what != "corrector" and m < tol * 0.999 - scale:
        ctx.bad("convergence-not-claimed", "%s does not claim convergence at mismatch %.3g, tolerance %.3g" % (what, m, tol))
    if conv:
        sim.probe("converged" if it else "converged-at-start")
    elif cap:
        sim.probe("limit-reached")
    return finish(sim, ctx, key)


def importlib_make(net, o):
    b, g, br = net["bus"], net["gen"], net["branch"]
    Y = api("makeYbus")(net["baseMVA"], b, br)[0].tocsr()
    return {"Y": Y, "S": np.asarray(api("makeSbus")(net["baseMVA"], b, g)),
            "B": api("makeB")(net["baseMVA"], b, br, o["PF_ALG"]) if o["PF_ALG"] in (2, 3) else None}


def shrinks(scn):
    if scn.get("ext"):
        for j in range(len(scn["ext"])):
            yield dict(scn, ext=scn["ext"][:j] + scn["ext"][j + 1:])
    for s in netgen.shrink_spec(scn["case"]):
        yield dict(scn, case=s)
