"""C06 continuation power flow."""
import random

import numpy as np

from .. import netgen, ref
from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C

ID = "C06"
RUNS = {"quick": 1200, "thorough": 12000}
RULE = ("one run = one base case and transfer (load and generation change), one parameterization, step and stop rule, one "
        "continuation under a plan of linear-solver faults or with a raising user callback; every point handed to the "
        "callbacks is checked against the reference network model; non-trivial when at least two points were recorded or a fault fired")
REAL, STUB, ASSUME = C.REAL, C.STUB, C.ASSUME + ["base and target case differ only in loads and scheduled generation"]
PROBES = ["nose", "full", "target", "failed", "raised", "success-after-fault", "base-failed", "callback-raised",
          "must-reach", "identical-cases", "adaptive"]
FEATS = [f for f in netgen.FEATURES if f not in ("mus",)]


class CallbackError(Exception):
    pass


def gen(r, tier, i):
    spec = netgen.rand_spec(r, feats=FEATS, stocks=("case6ww", "case9", "case14", "case30"), maxnb=10, stock_p=0.2)
    o = {"CPF_PARAMETERIZATION": r.choice([1, 2, 3, 3]), "CPF_STEP": r.choice([0.05, 0.1, 0.2, 0.4, 1.0]),
         "CPF_STOP_AT": r.choice(["NOSE", "NOSE", "FULL", 0.3, 0.7, 1.0, 2.5])}
    if r.random() < 0.3:
        o.update(CPF_ADAPT_STEP=True, CPF_ERROR_TOL=r.choice([1e-3, 1e-2]), CPF_STEP_MAX=r.choice([0.2, 1.0]))
    if r.random() < 0.3:
        o["PF_TOL"] = r.choice([1e-4, 1e-6, 1e-9])
    if r.random() < 0.2:
        o["PF_MAX_IT"] = r.choice([1, 2, 4, 20])
    scn = {"case": spec, "opts": o, "faults": [], "x": {"seed": r.randrange(10**6), "f": r.choice([2, 3, 5, 8]), "feat": [f for f in spec["feat"] if f == "allpv"],
                                                        "p": r.choice([0.3, 0.7, 1.0]), "g": r.random() < 0.5},
           "pf": "normal"}
    if r.random() < 0.04:
        scn["x"]["p"] = 0.0
        scn["x"]["g"] = False
    if r.random() < 0.06:
        scn["bad_base"] = r.choice([30, 100])
    if r.random() < 0.5:
        scn["faults"] = solve_faults(r, maxat=r.choice([4, 20, 60]))
    elif r.random() < 0.15:
        scn["cbraise"] = r.choice([0, 1, 2, 4, "final"])
    return scn


def transfer(base, x):
    rr = random.Random(x["seed"])
    t = netgen.copy_case(base)
    for i in range(len(t["bus"])):
        u, w = rr.random(), rr.uniform(0.7, 1.3)
        if u < x["p"]:
            t["bus"][i, 2:4] *= x["f"] * w
            if rr.random() < 0.2:
                t["bus"][i, 3] += 8.0
    if x["g"]:
        t["gen"] = t["gen"].astype(float)
        for k in range(len(t["gen"])):
            if rr.random() < 0.8:
                t["gen"][k, 1] *= x["f"] * rr.uniform(0.6, 1.1)
            if rr.random() < 0.3:
                t["gen"][k, 2] += 3.0
    if len(t["bus"]) <= 2 or "allpv" in x.get("feat", ()):       # keep the number of natural steps to a limit in bounds
        for i in np.flatnonzero(t["bus"][:, 1] < 3)[:1]:
            t["bus"][i, 2] += 25.0
    return t


def interp(base, target, lam):
    c = netgen.copy_case(target)
    c["gen"] = c["gen"].astype(float)
    for q in (2, 3):
        c["bus"][:, q] = base["bus"][:, q] + lam * (target["bus"][:, q] - base["bus"][:, q])
    for q in (1, 2):
        c["gen"][:, q] = base["gen"][:, q] + lam * (target["gen"][:, q] - base["gen"][:, q])
    return c


class Curve:
    """The solution set being traced, in external terms."""

    def __init__(self, base, target):
        self.nb, self.nt = ref.Net(base), ref.Net(target)
        self.Y = self.nb.ybus()
        self.Sb, self.St = self.nb.sinj(), self.nt.sinj()
        self.ref, self.pv, self.pq = self.nb.types()
        self.sp = self.nb.setpoints()
        self.va = {i: self.nb.bus[i, 8] for i in self.ref}

    def check(self, V, lam, tol):
        n = self.nb
        if len(V) != len(n.lb):
            return "point has %d voltages for %d buses" % (len(V), len(n.lb))
        if not (np.all(np.isfinite(V)) and np.isfinite(lam)):
            return "point is not finite"
        mis = V * np.conj(self.Y @ V) - (self.Sb + lam * (self.St - self.Sb))
        lim = tol * 1.05 + 1e-9 * (1 + abs(lam))
        for i in self.pv + self.pq:
            p = n.pos[i]
            if not abs(mis[p].real) <= lim:
                if not self.ref and i in self.pv:
                    continue
                return "real power off by %.3g p.u. at bus row %d, loading %.6g (tolerance %.3g)" % (mis[p].real, i, lam, tol)
            if i in self.pq and not abs(mis[p].imag) <= lim:
                return "reactive power off by %.3g p.u. at bus row %d, loading %.6g (tolerance %.3g)" % (mis[p].imag, i, lam, tol)
        for i, vs in self.sp.items():
            if min(abs(abs(V[n.pos[i]]) - v) for v in vs) > 1e-8:
                return "regulated bus row %d at %.8g, set to %r" % (i, abs(V[n.pos[i]]), sorted(vs))
        for i, a in self.va.items():
            d = (np.angle(V[n.pos[i]]) * 180 / np.pi - a + 180) % 360 - 180
            if abs(d) > 1e-6:
                return "reference angle moved by %.3g degrees" % d
        return None


def run(scn):
    sim = Sim(seed=7, faults=scn["faults"])
    ctx = Ctx()
    base = netgen.build(scn["case"])
    if scn.get("bad_base"):
        base["bus"][:, 2:4] *= scn["bad_base"]
    target = transfer(base, scn["x"])
    ob, ot = netgen.copy_case(base), netgen.copy_case(target)
    opt = quiet(**scn["opts"])
    pts = []
    final = []
    want = scn.get("cbraise")

    def vsim_cb(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args, results=None, is_final=False):
        lam = float(np.asarray(lam_c).ravel()[0])
        if is_final:
            final.append((k, np.array(V_c), lam))
            if want == "final":
                raise CallbackError("final")
        else:
            pts.append((k, np.array(V_c), lam, cb_args))
            if want == k:
                raise CallbackError("callback %d" % k)
        return cb_state, results
    import importlib
    mod = importlib.import_module("pypower.cpf_callbacks")
    mod.vsim_cb = vsim_cb
    opt["CPF_USER_CALLBACK"] = ["vsim_cb"] if scn["x"]["seed"] % 2 else "vsim_cb"
    opt["CPF_USER_CALLBACK_ARGS"] = {"tag": 42}
    tol, cap, stop = opt["PF_TOL"], opt["PF_MAX_IT"], opt["CPF_STOP_AT"]
    runcpf = api("runcpf")
    kind, val = sim.run(lambda: runcpf(base, target, opt), budget=1200000, solve_budget=20000)
    fired = sim.nfired
    cv = Curve(ob, ot)
    net = cv.nb
    bit = ref.newton(net, tol, cap)
    sound = net.islands_ok() and len(cv.ref) > 0
    sim.log("points", len(pts), summ([p[2] for p in pts]))
    # every point handed over as corrected lies on the curve
    for j, (k, V, lam, args) in enumerate(pts):
        if k != j:
            ctx.bad("sequence", "callback %d was told it is step %r" % (j, k))
            break
        if args != {"tag": 42}:
            ctx.bad("callback-args", "callback received %r" % (args,))
            break
        m = cv.check(V, lam, tol)
        if m:
            ctx.bad("point-off-curve" if k else "base-off-curve", "step %d: %s" % (k, m) + (" [%d faults]" % fired if fired else ""))
            break
        if k == 0 and lam != 0:
            ctx.bad("base-off-curve", "first point is at loading %r" % lam)
    lams = [p[2] for p in pts]
    key = None
    if kind == "exc":
        if isinstance(val, SimBudget):
            ctx.bad("unbounded", "continuation did not end (%s), %d points" % (val, len(pts)))
        elif isinstance(val, CallbackError):
            sim.probe("callback-raised")
            key = "cbraise"
            if want is None or (final if want != "final" else False):
                ctx.bad("callback", "callbacks went on after one raised")
            elif want != "final" and len(pts) != want + 1:
                ctx.bad("callback", "callbacks went on after one raised")
        else:
            sim.probe("raised")
            key = "raised" if fired else None
            if not fired and sound:
                ctx.bad("spurious-error", "continuation raised %s with nothing failing" % excname(val))
        return finish(sim, ctx, key)
    res, ok = val
    if bool(ok) != bool(res.get("success")):
        ctx.bad("success-flag", "returned success %r but results say %r" % (ok, res.get("success")))
    sim.log("result", bool(ok), summ(res["bus"][:, 7]))
    dS = cv.St - cv.Sb
    zero = not np.any(dS)
    if isinstance(stop, str):
        # only reactive load at regulated buses or anything at the slack: no limit to find
        slack = cv.ref or cv.pv[:1]
        zero = not any(dS[net.pos[i]].real or (i in cv.pq and dS[net.pos[i]].imag) for i in net.lb if i not in slack)
    if opt["CPF_ADAPT_STEP"]:
        sim.probe("adaptive")
    if want is not None and (want == "final" and ok or want != "final" and len(pts) > want):
        ctx.bad("callback", "the callback's error was swallowed")
    if not fired and bit and bit[0] and bit[1] + 2 <= cap and sound and not pts:
        ctx.bad("not-started", "the base case is solvable in %d iterations but no point was recorded" % bit[1])
    if not ok:
        sim.probe("failed")
        key = ("failed", bool(fired), min(len(pts), 3))
        if not pts:
            sim.probe("base-failed")
        if final:
            ctx.bad("sequence", "final callback ran although the run failed")
    else:
        c = res.get("cpf") or {}
        n = len(pts)
        if fired:
            sim.probe("success-after-fault")
        key = ("ok", stop if isinstance(stop, str) else "target", opt["CPF_PARAMETERIZATION"], bool(fired), min(n, 3))
        try:
            lc, lp = np.ravel(c["lam_c"]).astype(float), np.ravel(c["lam_p"]).astype(float)
            Vc, Vp = np.asarray(c["V_c"]), np.asarray(c["V_p"])
            if Vc.ndim == 1:
                Vc, Vp = Vc.reshape(-1, 1), Vp.reshape(-1, 1)
            nbus = len(ob["bus"])
            if not (len(lc) == len(lp) == n and Vc.shape == Vp.shape == (nbus, n)):
                ctx.bad("trace", "trace holds %d loadings and voltages of shape %r for %d points" % (len(lc), Vc.shape, n))
            else:
                if c["iterations"] != n - 1 or abs(c["max_lam"] - max(lams)) > 1e-12:
                    ctx.bad("trace", "iterations %r, max_lam %r for %d points up to %.6g" % (c["iterations"], c["max_lam"], n, max(lams)))
                for j in range(n):
                    if lc[j] != lams[j] or not np.array_equal(Vc[net.lb, j], pts[j][1]):
                        ctx.bad("trace", "recorded point %d is not the corrected point" % j)
                        break
                dead = [i for i in range(nbus) if i not in set(net.lb)]
                if dead and not np.all(np.isnan(Vc[dead])):
                    ctx.bad("trace", "isolated buses have recorded voltages")
        except (KeyError, TypeError) as e:
            ctx.bad("trace", "success without a usable trace: %s" % excname(e))
        if len(final) != 1 or not pts or final[0][2] != lams[-1] or not np.array_equal(final[0][1], pts[-1][1]) or final[0][0] != n - 1:
            ctx.bad("sequence", "final callback not called once with the last point")
        if pts:
            lam = lams[-1]
            # stopping rule
            if zero:
                sim.probe("identical-cases")
                if n != 1:
                    ctx.bad("stop-rule", "identical cases, yet %d points" % n)
            else:
                dec = [j for j in range(1, n) if lams[j] < lams[j - 1]]
                if n < 2:
                    ctx.bad("stop-rule", "success without a single continuation step")
                elif stop == "NOSE":
                    sim.probe("nose")
                    if dec != [n - 1]:
                        ctx.bad("stop-rule", "nose run ended at step %d, loading first fell at %r" % (n - 1, dec[:1]))
                elif stop == "FULL":
                    sim.probe("full")
                    if not abs(lam) < 1e-7:
                        ctx.bad("stop-rule", "full trace ended at loading %.6g" % lam)
                else:
                    sim.probe("target")
                    if dec != [n - 1] and not (not dec and abs(lam - stop) < 1e-7):
                        ctx.bad("stop-rule", "target %r, ended at loading %.6g" % (stop, lam))
                    elif max(lams) > stop + 1e-6 and not abs(lam - stop) < 1e-6:
                        # a point beyond the target proves that the target can be reached: this is no nose
                        ctx.bad("stop-rule", "target %r, the trace went on to %.6g and ended at %.6g" % (stop, max(lams), lam))
            # result = last accepted point
            want_case = interp(ob, ot, lam)
            want_case["gen"][:, 5] = ob["gen"][:, 5]
            r2 = dict(res)
            V = pts[-1][1]
            e = float(np.max(np.abs(res["bus"][net.lb, 7] * np.exp(1j * np.pi / 180 * res["bus"][net.lb, 8]) - V))) if len(V) else 0
            if not e < 1e-9:
                ctx.bad("result-not-last-point", "result voltages differ from the last point by %.3g" % e)
            sc = 1e-9 * (1 + np.max(np.abs(want_case["bus"][:, 2:4])))
            if np.max(np.abs(res["bus"][net.lb][:, 2:4] - want_case["bus"][net.lb][:, 2:4])) > sc:
                ctx.bad("result-not-last-point", "result loads are not those at loading %.6g" % lam)
            r2["bus"] = res["bus"].copy()
            r2["bus"][net.lb, 2:4] = want_case["bus"][net.lb, 2:4]
            for i in range(len(ob["bus"])):
                if not net.live[i]:
                    want_case["bus"][i] = ot["bus"][i]
            seen = set()
            for cl, m in ref.check_pf(want_case, r2, tol * (1 + 0.0) + 1e-9, 1):
                if cl == "schedule" and abs(lam) > 1e3:
                    continue
                if cl not in seen:
                    seen.add(cl)
                    ctx.bad("result-" + cl, m)
    # liveness: a curve the reference continuation traces comfortably is traced
    if not fired and want is None and sound and not zero and len(cv.ref) == 1 \
            and cap >= 8 and tol >= 1e-9:
        ad = (opt["CPF_ERROR_TOL"], opt["CPF_STEP_MIN"], opt["CPF_STEP_MAX"]) if opt["CPF_ADAPT_STEP"] else None
        big = max(opt["CPF_STEP"], ad[2] if ad else 0)
        try:
            m = ref.cpf(ob, ot, opt["CPF_STEP"], opt["CPF_PARAMETERIZATION"], stop, tol, cap, adapt=ad)
        except (ValueError, FloatingPointError):
            m = None
        if m is not None and m[1] + 3 <= cap:
            sim.probe("must-reach")
            if not ok:
                ctx.bad("not-reached", "the reference continuation ends its %s trace after %d steps with at most %d corrector "
                        "iterations; the run failed after %d points" % (stop, len(m[0]) - 1, m[1], len(pts)))
            elif abs(max(m[0]) - max(lams)) > 0.02 * (1 + max(m[0])) + (big if stop == "NOSE" else 0):
                ctx.bad("other-maximum", "highest loading %.6g, reference continuation finds %.6g" % (max(lams), max(m[0])))
    return finish(sim, ctx, repr(key) if key else None)


def shrinks(scn):
    for s in netgen.shrink_spec(scn["case"]):
        yield dict(scn, case=s)
    for k in sorted(scn["opts"]):
        o = dict(scn["opts"])
        del o[k]
        yield dict(scn, opts=o)
