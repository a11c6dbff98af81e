"""C04 optimal power flow honesty: feasibility, objective and prices."""
import numpy as np

from .. import netgen, ref, refopf
from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C

ID = "C04"
RUNS = {"quick": 1500, "thorough": 20000}
RULE = ("one run = one generated or stock case with random limits, cost shapes and user constraints, AC or DC optimal power "
        "flow under one option setting and a plan of faults on the interior point method's linear solves; non-trivial when "
        "a success was checked against the reference optimality model or a fault fired")
REAL, STUB, ASSUME = C.REAL, C.STUB, C.ASSUME + ["multipliers below the solver's own cut-off may be reported as zero"]
PROBES = ["ac-checked", "dc-checked", "failure-reported", "success-after-fault", "must-solve", "proved-infeasible",
          "binding-flow", "binding-user", "raised"] + ["form-" + f for f in
          "d1 d2 d3 d4 d5 d9 d12 m6 m7 m8 m9 m10 m14 m17".split()]
BASEF = ["shift", "taps", "shunts", "parallel", "multigen", "oosgen", "oosbranch", "isolated", "scramble", "shuffle",
         "negload", "base", "charging", "widegap", "areas", "mus", "pqgen", "zeroload", "pvoff", "flatzero", "tworef", "extracols", "morebranchcols", "noncontig", "ints", "lossless", "zerotap1"]
STOCKS = ("case6ww", "case9", "case14", "case30", "case30Q", "case30pwl")


def gen(r, tier, i):
    spec = netgen.rand_spec(r, feats=BASEF, stocks=STOCKS, maxnb=14 if tier == "quick" else 24)
    k = r.choice([0, 1, 1, 2, 3, 4])
    spec["feat"] = sorted(spec["feat"] + r.sample(netgen.OPF_FEATURES + ["openvar", "openq"], k))
    dc = r.random() < 0.5
    o = {"PF_DC": dc}
    if dc:
        o["OPF_ALG_DC"] = r.choice([0, 200, 200, 250])
    else:
        o["OPF_ALG"] = r.choice([0, 560, 560, 565])
        o["OPF_FLOW_LIM"] = r.choice([0, 0, 1, 2])
        if r.random() < 0.15:
            o["RETURN_RAW_DER"] = 1
    if r.random() < 0.15:
        o["OPF_IGNORE_ANG_LIM"] = True
    if r.random() < 0.3:
        o["PDIPM_FEASTOL"] = r.choice([1e-4, 1e-7, 5e-6])
    if r.random() < 0.2:
        o["PDIPM_GRADTOL"] = r.choice([1e-4, 1e-7])
    if r.random() < 0.2:
        o["PDIPM_COMPTOL"] = r.choice([1e-4, 1e-7])
    if r.random() < 0.15:
        o["PDIPM_COSTTOL"] = r.choice([1e-3, 1e-8])
    if r.random() < 0.15:
        o["PDIPM_MAX_IT"] = r.choice([0, 1, 3, 6, 9, 12, 30])
    if r.random() < 0.1:
        o["SCPDIPM_RED_IT"] = r.choice([1, 3])
    scn = {"case": spec, "opts": o, "faults": []}
    if r.random() < 0.5:
        scn["faults"] = solve_faults(r, maxat=16)
    if r.random() < 0.35:
        fs = list(FORMS)
        if not o.get("PF_DC"):
            fs += ["d1", "d4", "m6", "m9"]
        scn["form"] = r.choice(fs)
        scn["ovr"] = r.randrange(3)
        if scn["form"] in ("d1", "d4", "m6", "m9"):     # forms without options run with the defaults
            scn["opts"] = {}
    return scn


FORMS = ["d2", "d3", "d5", "d9", "d12", "m7", "m8", "m10", "m14", "m17"]


def with_form(scn, ppc, opt):
    """Arguments of opf() in one of its documented calling forms and the case they stand for.

    User data the form has no place for stay in the case dict (dict forms) or are dropped (matrix forms);
    data given as arguments take the place of those in the dict."""
    f, ovr = scn["form"], scn.get("ovr", 0)
    n = int(f[1:])
    eff = netgen.copy_case(ppc)
    E = np.array([])
    G = lambda k: eff[k] if eff.get(k) is not None else (None if k in ("A", "N", "H") else E)
    A, N, Z = [G("A"), G("l"), G("u")], [G("N"), G("fparm"), G("H"), G("Cw")], [G("z0"), G("zl"), G("zu")]
    if f[0] == "m":
        base = [eff["baseMVA"], eff["bus"], eff["gen"], eff["branch"], G("areas"), eff["gencost"]]
        args = {6: [], 7: [opt], 8: [E, opt], 9: A, 10: A + [opt], 14: A + [opt] + N, 17: A + [opt] + N + Z}[n]
        keep = {"A": n >= 9, "N": n >= 14, "z": n >= 17}
        args = base + args
    else:
        args = {1: [], 2: [opt], 3: [E, opt], 4: A, 5: A + [opt], 9: A + [opt] + N, 12: A + [opt] + N + Z}[n]
        keep = {"A": True, "N": True, "z": True}
        d = netgen.copy_case(eff)
        for k, lim in (("A", 4), ("N", 9), ("z", 12)):
            ks = {"A": ("A", "l", "u"), "N": ("N", "fparm", "H", "Cw"), "z": ("z0", "zl", "zu")}[k]
            if n >= lim and ks[0] in eff or k == "z" and n >= 12:
                if ovr:                       # given as arguments only
                    for x in ks:
                        d.pop(x, None)
                if ovr == 2 and k == "A":     # arguments win over what the dict holds
                    d["A"], d["l"], d["u"] = eff["A"], eff["l"] - 1e3, eff["u"] + 1e3
        args = [d] + args
    if not keep["A"]:
        for k in ("A", "l", "u"):
            eff.pop(k, None)
    if not keep["N"]:
        for k in ("N", "fparm", "H", "Cw"):
            eff.pop(k, None)
    if not keep["z"]:
        for k in ("z0", "zl", "zu"):
            eff.pop(k, None)
    return args, eff


def cubic(ppc):
    g = ppc["gencost"]
    return bool(np.any((g[:, 0] == 2) & (g[:, 3] > 3)))


def pypower_budget(nb, ng, cap, red):
    return 40000 + (cap + 2) * (2500 + 60 * (nb + ng)) * (1 + red // 3)


def run(scn):
    sim = Sim(seed=7, faults=scn["faults"])
    ctx = Ctx()
    runopf = api("runopf")
    ppc = netgen.build(scn["case"])
    orig = netgen.copy_case(ppc)
    opt = quiet(**scn["opts"])
    dc = bool(opt["PF_DC"])
    cap = opt["PDIPM_MAX_IT"]
    nb, ng = len(ppc["bus"]), len(ppc["gen"])
    call = lambda: runopf(ppc, opt)
    if scn.get("form"):
        if scn["form"] in ("d1", "d4", "m6", "m9"):
            opt = api("ppoption")()
        args, orig = with_form(scn, ppc, opt)
        orig = netgen.copy_case(orig)
        opff = api("opf")
        call = lambda: opff(*args)
        sim.probe("form-" + scn["form"])
    kind, val = sim.run(call, faults=scn["faults"],
                        budget=pypower_budget(nb, ng, cap, opt["SCPDIPM_RED_IT"]), solve_budget=cap + 1)
    fired = sim.nfired
    net = ref.Net(orig)
    rr, _, _ = net.types()
    sound = bool(rr) and net.islands_ok()
    key = None
    if kind == "exc":
        if isinstance(val, SimBudget):
            ctx.bad("unbounded", "optimal power flow did not end within its iteration limit (%s)" % val)
        else:
            sim.probe("raised")
            key = "raised" if fired else None
            if not fired and sound and not (dc and cubic(orig) and isinstance(val, ValueError)):
                ctx.bad("spurious-error", "optimal power flow raised %s with nothing failing" % excname(val))
        return finish(sim, ctx, key)
    res = val
    ok = bool(res["success"])
    sim.log("result", ok, summ(res["bus"][:, 7]), summ(res["gen"][:, 1]))
    if ok:
        if dc and cubic(orig) and np.any(net.gon[:len(orig["gencost"])] & (orig["gencost"][:ng, 0] == 2) & (orig["gencost"][:ng, 3] > 3)):
            ctx.bad("cost-ignored", "DC optimal power flow succeeded on costs it cannot represent")
        bad, info = refopf.check(orig, res, opt, dc)
        sim.probe("dc-checked" if dc else "ac-checked")
        if fired:
            sim.probe("success-after-fault")
        if np.any(res["branch"][:, 17:19] > 1e-3):
            sim.probe("binding-flow")
        try:
            if np.any(np.asarray(res["lin"]["mu"]["u"]["usr"]) > 1e-3):
                sim.probe("binding-user")
        except Exception:
            pass
        seen = set()
        for c, m in bad:
            if c not in seen:
                seen.add(c)
                ctx.bad("solved-but-" + c, m + (" [after %d faults]" % fired if fired else ""))
        if not dc and opt["RETURN_RAW_DER"]:
            check_raw(ctx, res)
        key = ("ok", dc, bool(fired), len(scn["case"]["feat"]) > 4)
    else:
        sim.probe("failure-reported")
        key = ("failed", dc, bool(fired))
        if not fired and dc and sound and cap >= 100:
            o = opt
            tight = min(o["PDIPM_FEASTOL"] or 1, o["PDIPM_GRADTOL"], o["PDIPM_COMPTOL"], o["PDIPM_COSTTOL"])
            fs = refopf.dc_feasible(orig, opt)
            if fs is False:
                sim.probe("proved-infeasible")
            if fs and tight >= 1e-6 and opt["OPF_ALG_DC"] != 250 and "hugecost" not in scn["case"]["feat"]:
                ctx.bad("not-solved", "a convex DC problem with a strictly feasible point was reported unsolved")
    if not fired and dc and ok:
        sim.probe("must-solve")
    return finish(sim, ctx, repr(key) if key else None)


def check_raw(ctx, res):
    import scipy.sparse as sp
    raw = res["raw"]
    nx = res["om"].getN("var")
    try:
        dg = raw["dg"]
        dg = dg.toarray() if sp.issparse(dg) else np.asarray(dg, float)
        g = np.asarray(raw["g"], float)
        if dg.shape != (len(g), nx):
            ctx.bad("raw-derivatives", "raw constraint Jacobian has shape %r for %d constraints and %d variables"
                    % (dg.shape, len(g), nx))
        d2 = raw["d2f"]
        if tuple(d2.shape) != (nx, nx) or len(np.ravel(raw["df"])) != nx:
            ctx.bad("raw-derivatives", "raw cost derivatives have the wrong size")
    except Exception as e:
        ctx.bad("raw-derivatives", "raw derivatives unusable: %s" % excname(e))


def shrinks(scn):
    for s in netgen.shrink_spec(scn["case"]):
        yield dict(scn, case=s)
    if scn.get("form"):
        yield {k: v for k, v in scn.items() if k not in ("form", "ovr")}
    for k in sorted(scn["opts"]):
        if k != "PF_DC":
            o = dict(scn["opts"])
            del o[k]
            yield dict(scn, opts=o)
