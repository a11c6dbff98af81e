"""C02 DC power flow honesty."""
from .. import netgen, ref
from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C
from .c01 import apply_mods

ID = "C02"
RUNS = {"quick": 8000, "thorough": 60000}
RULE = ("one run = one network (possibly split by an outage history) and one to three DC power flows with failing linear "
        "solves (raise, NaN, inf, partly NaN); non-trivial when a success was checked against the reference model or a fault fired")
REAL, STUB, ASSUME = C.REAL, C.STUB, C.ASSUME + ["finite but wrong linear solutions are outside the DC property"]
PROBES = ["success-checked", "failure-reported", "islanded", "ref-promoted", "raised"]
KINDS = ["nan", "inf", "nan1", "inf1", "raise", "memerr", "linalg"]


def gen(r, tier, i):
    spec = netgen.rand_spec(r, stocks=("case6ww", "case9", "case14", "case30", "case24_ieee_rts", "case39", "case57", "case118"), maxnb=20)
    scn = {"case": spec, "opts": {}, "mods": [], "faults": [], "steps": r.choice([1, 1, 2, 3])}
    for _ in range(r.choice([0, 0, 0, 1, 1, 3])):
        scn["mods"].append({"op": "trip", "k": r.randrange(40)})
    if r.random() < 0.15:
        scn["mods"].append({"op": "scale", "f": r.choice([0.0, 1.5, 5, -1])})
    if r.random() < 0.45:
        scn["faults"] = solve_faults(r, maxat=1, kinds=KINDS)
    scn["via"] = r.choice(["rundcpf", "runpf"])
    return scn


def run(scn):
    sim = Sim(seed=11, faults=scn["faults"])
    ctx = Ctx()
    cur = apply_mods(netgen.build(scn["case"]), scn["mods"])
    opt = quiet(PF_DC=True) if scn["via"] == "runpf" else quiet()
    fn = api(scn["via"])
    key = None
    for rnd in range(scn["steps"]):
        orig = netgen.copy_case(cur)
        net = ref.Net(orig)
        rr, pv, pq = net.types()
        conn = net.islands_ok()
        if not conn:
            sim.probe("islanded")
        before = sim.nfired
        kind, val = sim.run(lambda: fn(cur, opt), name="dc%d" % rnd, faults=scn["faults"] if rnd == 0 else [],
                            budget=6000 + 200 * len(cur["bus"]), solve_budget=6)
        fired = sim.nfired - before
        if kind == "exc":
            if isinstance(val, SimBudget):
                ctx.bad("unbounded", "DC power flow did not end")
                break
            sim.probe("raised")
            key = key or ("raised" if fired else None)
            if not fired and conn and rr:
                ctx.bad("spurious-error", "DC power flow raised %s with nothing failing" % excname(val))
            continue
        res, ok = val
        if bool(ok) != bool(res.get("success")):
            ctx.bad("success-flag", "returned success %r but results say %r" % (ok, res.get("success")))
        sim.log("result", rnd, bool(ok), summ(res["bus"][:, 8]))
        if ok:
            sim.probe("success-checked")
            if not rr:
                sim.probe("ref-promoted")
            key = "ok-fault" if fired else ("ok" if conn else "ok-islanded")
            ctx.add("solved-but-", ref.check_dcpf(orig, res), " [after %d faults]" % fired if fired else "")
            cur = res
        else:
            sim.probe("failure-reported")
            key = key or "failed"
            if not fired and conn and rr:
                ctx.bad("not-solved", "connected network reported as not solved with nothing failing")
    return finish(sim, ctx, key)
