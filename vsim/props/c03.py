"""C03 reactive limit enforcement."""
import numpy as np

from .. import netgen, ref
from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C
from .c01 import apply_mods

ID = "C03"
RUNS = {"quick": 5000, "thorough": 30000}
RULE = ("one run = one network whose reactive limits are tightened by a random factor, one enforcement mode (all at once / "
        "largest first), and a plan of linear-solver faults over the rounds; non-trivial when at least one unit was fixed "
        "at a limit, infeasibility was declared, or a fault fired")
REAL, STUB, ASSUME = C.REAL, C.STUB, C.ASSUME
PROBES = ["limited", "multi-round", "ref-limited", "infeasible", "success-after-fault", "agrees-with-model"]


def gen(r, tier, i):
    feats = [f for f in netgen.FEATURES if f not in ("tworef",)] + (["tworef"] if r.random() < 0.2 else [])
    spec = netgen.rand_spec(r, stocks=("case9", "case14", "case30", "case24_ieee_rts", "case39", "case57"),
                            feats=feats, maxnb=16)
    o = {"ENFORCE_Q_LIMS": r.choice([1, 2, True, 1, 2]), "PF_ALG": r.choice([1, 1, 1, 1, 2, 3])}
    if o["PF_ALG"] != 1:
        o["PF_MAX_IT_FD"] = 60
    scn = {"case": spec, "opts": o, "mods": [], "faults": [],
           "q": {"seed": r.randrange(10**6), "f": r.choice([0.02, 0.05, 0.1, 0.2, 0.4, 1.0]), "p": r.choice([0.2, 0.4, 0.6, 1.0])}}
    if r.random() < 0.2:
        scn["mods"].append({"op": "scale", "f": r.choice([1.3, 1.8, 0.3])})
    if r.random() < 0.15:
        scn["q"]["inf"] = 1
    if r.random() < 0.4:
        scn["faults"] = solve_faults(r, maxat=12)
    return scn


def tighten(ppc, q):
    import random
    rr = random.Random(q["seed"])
    for k in range(len(ppc["gen"])):
        if rr.random() < q["p"]:
            g = ppc["gen"][k]
            c = rr.uniform(-6, 12)
            w = (g[3] - g[4]) * q["f"] * rr.uniform(0.3, 1.0)
            if rr.random() < 0.12:
                w = 0.0
            g[3], g[4] = c + w / 2, c - w / 2
            if q.get("inf") and g.dtype.kind == "f" and rr.random() < 0.5:
                j = rr.randrange(3)
                if j != 0:
                    g[3] = np.inf
                if j != 1:
                    g[4] = -np.inf
    return ppc


VIOL = 5e-6


def model(orig, mode, tol, cap):
    """Plain model of the documented procedure on external data with the
    reference Newton.  Returns ("ok", V, limited, rounds) | ("infeasible",) | None."""
    c = netgen.copy_case(orig)
    c["gen"] = c["gen"].astype(float)
    net = ref.Net(c)
    r0, pv0, pq0 = net.types()
    if len(r0) != 1:
        return None
    va0 = c["bus"][r0[0], 8]
    limited = {}
    worst = 0
    for rnd in range(len(c["gen"]) + 2):
        net = ref.Net(c)
        it = ref.newton(net, tol, cap)
        if it is None or not it[0]:
            return None
        worst = max(worst, it[1])
        V = it[2]
        Y = net.ybus()
        S = V * np.conj(Y @ V) * net.base
        # share total Q at a bus in proportion to range
        viol = {}
        gq = {}
        for i in net.lb:
            ks = [k for k in range(len(c["gen"])) if net.gon[k] and net.gbus[k] == i]
            if not ks:
                continue
            tot = S[net.pos[i]].imag + c["bus"][i, 3]
            lo = sum(c["gen"][k, 4] for k in ks)
            hi = sum(c["gen"][k, 3] for k in ks)
            if len(ks) > 1 and not np.isfinite(hi - lo):
                return None              # how units without limits share is a convention
            for k in ks:
                if len(ks) == 1:
                    gq[k] = tot
                elif hi - lo != 0:
                    gq[k] = c["gen"][k, 4] + (tot - lo) / (hi - lo) * (c["gen"][k, 3] - c["gen"][k, 4])
                else:
                    gq[k] = tot / len(ks)
                if gq[k] > c["gen"][k, 3] + VIOL:
                    viol[k] = gq[k] - c["gen"][k, 3]
                elif gq[k] < c["gen"][k, 4] - VIOL:
                    viol[k] = -(c["gen"][k, 4] - gq[k])
                if min(abs(gq[k] - c["gen"][k, 3] - VIOL), abs(gq[k] - c["gen"][k, 4] + VIOL)) < 1e-6:
                    return None          # too close to call
        # slack P
        rr, pv, pq = net.types()
        for i in rr:
            ks = [k for k in range(len(c["gen"])) if net.gon[k] and net.gbus[k] == i]
            p = S[net.pos[i]].real + c["bus"][i, 2]
            # which unit is first is an ordering detail: leave the split open
            if len(ks) == 1:
                c["gen"][ks[0], 1] = p
            else:
                c["gen"][ks[0], 1] = p - sum(c["gen"][k, 1] for k in ks[1:])
        for k, v in gq.items():
            c["gen"][k, 2] = v
        if not viol:
            return ("ok", net, V, limited, rnd + 1, va0, r0[0], worst)
        remaining = [k for k in range(len(c["gen"])) if net.gon[k] and c["bus"][net.gbus[k], 1] in (2, 3)]
        if all(k in viol for k in remaining):
            return ("infeasible",)
        if mode == 2:
            m = sorted(viol, key=lambda k: -abs(viol[k]))
            if len(m) > 1 and abs(abs(viol[m[0]]) - abs(viol[m[1]])) < 1e-6:
                return None
            fix = [m[0]]
        else:
            fix = list(viol)
        for k in fix:
            lim = c["gen"][k, 3] if viol[k] > 0 else c["gen"][k, 4]
            limited[k] = lim
            c["gen"][k, 2] = lim
            c["gen"][k, 7] = 0
            i = net.gbus[k]
            c["bus"][i, 2] -= c["gen"][k, 1]
            c["bus"][i, 3] -= lim
        for k in fix:
            c["bus"][net.gbus[k], 1] = 1
        n2 = ref.Net(c)
        t2 = n2.types()
        if not t2[0]:
            if not t2[1]:
                return ("infeasible",)
            c["bus"][min(t2[1]), 1] = 3      # first remaining PV bus takes over as slack
    return None


def run(scn):
    sim = Sim(seed=13, faults=scn["faults"])
    ctx = Ctx()
    ppc = tighten(apply_mods(netgen.build(scn["case"]), scn["mods"]), scn["q"])
    opt = quiet(**dict({"ENFORCE_Q_LIMS": 1}, **scn["opts"]))
    tol = opt["PF_TOL"]
    cap = opt["PF_MAX_IT"] if opt["PF_ALG"] == 1 else opt["PF_MAX_IT_FD"]
    orig = netgen.copy_case(ppc)
    net = ref.Net(orig)
    rr, pv, pq = net.types()
    ng = len(orig["gen"])
    kind, val = sim.run(lambda: api("runpf")(ppc, opt), budget=8000 + (ng + 2) * (cap * 60 + 400 + 40 * ng),
                        solve_budget=(ng + 2) * (2 * cap + 2))
    fired = sim.nfired
    conn = net.islands_ok() and len(rr) > 0
    key = None
    if kind == "exc":
        sim.probe("raised")
        if isinstance(val, SimBudget):
            ctx.bad("unbounded", "limit enforcement did not end (%s)" % val)
        elif not fired and conn and not (isinstance(val, ValueError) and len(rr) > 1):
            ctx.bad("spurious-error", "enforcement raised %s with nothing failing" % excname(val))
        return finish(sim, ctx, "raised" if fired else None)
    res, ok = val
    sim.log("result", bool(ok), summ(res["bus"][:, 7]))
    bus, gen_, br = res["bus"], res["gen"], res["branch"]
    m = None
    if not fired and conn and opt["PF_ALG"] == 1 and len(rr) == 1:
        m = model(orig, 2 if opt["ENFORCE_Q_LIMS"] == 2 else 1, tol, cap)
    if ok:
        key = "ok"
        bad = ref.static_diff(orig, res, skip_bus=(1, 2, 3, 7, 8))
        for c in (2, 3):
            if bus.shape[0] == len(orig["bus"]) and np.max(np.abs(bus[:, c] - orig["bus"][:, c])) > 1e-7:
                bad.append("loads changed: %r" % (bus[:, c] - orig["bus"][:, c]).tolist())
        for b in bad:
            ctx.bad("solved-but-data-changed", b)
        if not np.all(np.isfinite(bus[net.lb, 7:9])):
            ctx.bad("solved-but-not-finite", "voltages not finite")
            return finish(sim, ctx, key)
        fb, V = ref.check_flows(net, res, 1e-7)
        for b in fb:
            ctx.bad("solved-but-flows", b)
        for k in range(ng):
            if not net.gon[k]:
                if gen_[k, 1] != 0 or gen_[k, 2] != 0:
                    ctx.bad("solved-but-out-of-service", "out-of-service gen row %d reports output" % k)
            elif not (orig["gen"][k, 4] - VIOL - 1e-6 <= gen_[k, 2] <= orig["gen"][k, 3] + VIOL + 1e-6):
                ctx.bad("limit-violated", "unit row %d reports %g MVAr outside [%g, %g]"
                        % (k, gen_[k, 2], orig["gen"][k, 4], orig["gen"][k, 3]))
        atlim = {k for k in range(ng) if net.gon[k] and min(abs(gen_[k, 2] - orig["gen"][k, 3]), abs(gen_[k, 2] - orig["gen"][k, 4])) < 1e-6}
        sp = net.setpoints()
        released = 0
        for i, vs in sp.items():
            if min(abs(bus[i, 7] - v) for v in vs) > 1e-8:
                released += 1
                if not any(net.gbus[k] == i for k in atlim):
                    ctx.bad("released-not-at-limit", "bus row %d left its setpoint with no unit at a reactive limit" % i)
        if released:
            key = "ok-limited"
            sim.probe("limited")
        if rr and abs((bus[rr[0], 8] - orig["bus"][rr[0], 8] + 180) % 360 - 180) > 1e-7:
            ctx.bad("ref-angle", "reference angle %r became %r" % (orig["bus"][rr[0], 8], bus[rr[0], 8]))
        if rr and len(rr) == 1 and any(net.gbus[k] == rr[0] for k in atlim) and released:
            sim.probe("ref-limited")
        # real power schedule: only slack buses and released buses may move
        ch = [k for k in range(ng) if net.gon[k] and abs(gen_[k, 1] - orig["gen"][k, 1]) > 1e-7 * (1 + abs(orig["gen"][k, 1]))]
        finalref = {i for i in net.lb if bus[i, 1] == 3}
        for k in ch:
            i = net.gbus[k]
            if i not in rr and i not in finalref and not any(net.gbus[q] == i for q in atlim) and (rr or i not in pv):
                ctx.bad("schedule", "unit row %d at non-slack bus redispatched from %g to %g" % (k, orig["gen"][k, 1], gen_[k, 1]))
        # units at PQ buses keep their total schedule unless limited
        inj = np.zeros(len(bus), complex)
        sf, st = net.flows(V)
        for k in range(ng):
            if net.gon[k]:
                inj[net.gbus[k]] += gen_[k, 1] + 1j * gen_[k, 2]
        for i in net.lb:
            inj[i] -= orig["bus"][i, 2] + 1j * orig["bus"][i, 3]
            inj[i] -= abs(V[i]) ** 2 * (orig["bus"][i, 4] - 1j * orig["bus"][i, 5])
        for k in range(len(br)):
            if net.bon[k]:
                inj[net.fb[k]] -= sf[k]
                inj[net.tb[k]] -= st[k]
        lim = tol * net.base * 1.2 + 2e-6
        for i in net.lb:
            if not max(abs(inj[i].real), abs(inj[i].imag)) <= lim:
                ctx.bad("solved-but-imbalance", "bus row %d off balance by %r MVA" % (i, complex(inj[i])))
        if fired:
            key += "-fault"
            sim.probe("success-after-fault")
    else:
        key = "failed-fault" if fired else "failed"
        sim.probe("infeasible" if not fired else "failed-with-fault")
    if m is not None:
        if m[0] == "ok":
            if m[4] > 2:
                sim.probe("multi-round")
            if m[7] + 2 <= cap:
                if not ok:
                    ctx.bad("not-solved", "documented procedure ends in a solution after %d rounds; reported as failed" % m[4])
                else:
                    Vm = bus[m[1].lb, 7]
                    e = float(np.max(np.abs(Vm - np.abs(m[2]))))
                    if e > 1e-4:
                        ctx.bad("other-solution", "voltage magnitudes differ from the documented procedure's by %.3g" % e)
                    sim.probe("agrees-with-model")
        elif m[0] == "infeasible" and ok:
            ctx.bad("infeasible-accepted", "every remaining unit exceeds its limits, yet success was reported")
        elif m[0] == "infeasible":
            sim.probe("infeasible-agreed")
    return finish(sim, ctx, key)
