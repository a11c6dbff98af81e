"""C16 the interior point solver claims convergence only at points that satisfy the optimality conditions."""
import copy

import numpy as np
import scipy.sparse as sp

from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C

ID = "C16"
RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("one run = one generated linear, quadratic or nonlinear program (built around a known optimum, or infeasible, unbounded, "
        "nonconvex or random) solved one to three times with seeded options while linear solves fail or answer wrongly, the user's "
        "functions return non-finite values or raise, and the solve is cancelled at a seeded line; non-trivial when convergence was "
        "claimed and checked against the optimality conditions evaluated by the harness, or a fault fired")
REAL = ["pypower.pips, qps_pips, qps_pypower, pplinsolve (unmodified)", "numpy", "scipy.sparse", "SuperLU (through the fault seam)"]
STUB = ["the user's objective, constraint and Hessian functions (generated)", "wall clock", "stdout/stderr"]
ASSUME = C.ASSUME + ["finite but wrong answers of the user's functions are outside the property: the solver cannot tell"]
PROBES = ["claimed", "claimed-after-faults", "not-claimed", "raised", "known-optimum", "infeasible", "unbounded", "nonconvex", "degenerate",
          "lp", "qp", "nlp", "eq-nonlinear", "ineq-nonlinear", "step-control", "cost-mult", "iteration-limit", "dict-form", "front-end",
          "no-linear", "no-bounds", "unconstrained", "fixed-variable", "free-row", "repeat", "cancelled", "callback-nonfinite", "callback-raise",
          "domain", "limit-1e10"]

CBKINDS = ["nan", "inf", "-inf", "raise"]


def gen(r, tier, i):
    kind = r.choice(["lp", "qp", "qp", "nlp", "nlp", "nlp"])
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
    p = {"kind": kind, "n": n, "s": r.randrange(10**9), "rows": r.choice([0, 1, 1, 2, 3, 5]), "bounds": r.choice(["none", "some", "all"]),
         "mode": r.choice(["known"] * 6 + ["random", "random", "infeasible", "infeasible", "unbounded", "nonconvex", "degenerate"]),
         "ng": 0, "nh": 0}
    if kind == "nlp":
        p["ng"] = r.choice([0, 0, 0, 1, 2])
        p["nh"] = r.choice([0, 1, 1, 2, 3])
        p["domain"] = r.random() < 0.15
        p["exp"] = r.random() < 0.5
    p["far"] = r.choice(["inf"] * 3 + ["1e10", "1e11", "mixed"])     # how an absent limit is written
    opt = {}
    if r.random() < 0.4:
        opt["step_control"] = True
        if r.random() < 0.3:
            opt["max_red"] = r.choice([1, 3, 20])
    if r.random() < 0.3:
        opt["cost_mult"] = r.choice([1e-4, 1e-2, 10, 1e3])
    if r.random() < 0.4:
        t = r.choice([1e-8, 1e-5, 1e-4, 1e-3])
        for k in r.choice([["feastol"], ["gradtol"], ["comptol"], ["costtol"], ["feastol", "gradtol", "comptol", "costtol"]]):
            opt[k] = t
    if r.random() < 0.25:
        opt["max_it"] = r.choice([1, 2, 3, 5, 9, 30])
    if r.random() < 0.25:
        opt["verbose"] = r.choice([1, 2, 3])
    scn = {"p": p, "opt": opt, "call": r.choice(["pips", "pipsd", "qps", "qpsd", "front", "frontd"]) if kind != "nlp" else r.choice(["pips", "pipsd"]),
           "x0": r.choice(["zero", "near", "far", "int", "opt", "huge" if r.random() < 0.3 else "far"]), "faults": [], "calls": r.choice([1, 1, 1, 2, 3]),
           "copt": r.random() < 0.8, "H0": r.random() < 0.5, "Anone": r.random() < 0.5, "dfl": r.randrange(8)}
    scn["f3"] = r.random() < 0.2             # the objective always returns its Hessian too, as in the documented example
    u = r.random()
    if u < 0.3:
        scn["faults"] = solve_faults(r, maxat=r.choice([2, 8, 20]))
    if kind == "nlp" and 0.25 < u < 0.55 or (scn["call"] in ("pips", "pipsd") and 0.3 < u < 0.45):
        for _ in range(r.choice([1, 1, 2])):
            f = {"seam": "cb", "at": r.randrange(r.choice([4, 20, 40])), "kind": r.choice(CBKINDS), "k": r.randrange(6)}
            if r.random() < 0.2:
                f["count"] = r.choice([2, 1000])
            if r.random() < 0.4:                # counted from the last call of an undisturbed solve
                f["at"] = -r.choice([1, 1, 2, 3, 4])
            scn["faults"].append(f)
    if u > 0.92:
        scn["faults"].append({"seam": "line", "at": r.randrange(1, r.choice([30, 200, 900])), "kind": r.choice(["KeyboardInterrupt", "MemoryError", "SimCancel"])})
    return scn


# ----------------------------------------------------------------------
class Problem:
    """min 1/2 x'Hx + c'x + sum w exp(a'x) - sum log(x - dom)  over linear rows, bounds, balls (h) and curved surfaces (g)."""

    def __init__(self, p):
        R = np.random.RandomState(p["s"] % (2**31))
        self.n = n = p["n"]
        mode = p["mode"]
        rnd = lambda *s: np.round(R.uniform(-2, 2, s), 3)
        self.xs = rnd(n)
        if p["kind"] == "lp":
            H = np.zeros((n, n))
        else:
            M = rnd(n, n) * 0.7
            H = M.T @ M + np.diag(R.uniform(0.3, 1.5, n))
            if mode == "degenerate":
                H = np.outer(M[0], M[0])
            if mode == "nonconvex":
                H = M + M.T
        self.H = H
        m = p["rows"]
        A = rnd(m, n)
        A[R.rand(m, n) < 0.25] = 0
        for k in range(m):
            if not A[k].any():
                A[k, R.randint(n)] = 1.0
        self.A = A
        self.nh, self.ng = p["nh"], p["ng"]
        self.ctr = rnd(self.nh, n)
        self.q = R.uniform(0.1, 0.6, (self.ng, n)) * R.choice([-1, 1], (self.ng, n))
        self.b = rnd(self.ng, n)
        self.w, self.a = np.zeros(0), np.zeros((0, n))
        if p.get("exp"):
            self.w, self.a = R.uniform(0.1, 1, 2), rnd(2, n) * 0.4
        self.dom = self.xs - R.uniform(0.2, 1.5, n) if p.get("domain") else None
        # constraints around xs
        budget = n                              # active constraints that may bind (linear independence)
        if self.ng:
            budget = max(0, budget - self.ng)
        self.act = 0
        types = ["le", "ge", "box-u", "box-l", "eq", "le0", "ge0", "box0", "free", "wide"]
        self.l, self.u = np.full(m, -np.inf), np.full(m, np.inf)
        self.types = []
        nu = np.zeros(m)
        v = A @ self.xs if m else np.zeros(0)
        for k in range(m):
            t = types[R.randint(len(types))]
            if t in ("le", "ge", "box-u", "box-l", "eq"):
                if budget <= 0:
                    t = "box0"
                else:
                    budget -= 1
            self.types.append(t)
            nu[k] = self.place(R, t, k, v[k], self.l, self.u)
        self.xmin, self.xmax = np.full(n, -np.inf), np.full(n, np.inf)
        self.btypes = ["free"] * n
        nub = np.zeros(n)
        order = R.permutation(n)
        for k in order:
            if p["bounds"] == "none" or (p["bounds"] == "some" and R.rand() < 0.5):
                continue
            t = types[R.randint(len(types))]
            if t in ("le", "ge", "box-u", "box-l", "eq"):
                if budget <= 0:
                    t = "box0"
                else:
                    budget -= 1
            self.btypes[k] = t
            nub[k] = self.place(R, t, k, self.xs[k], self.xmin, self.xmax)
        muh = np.zeros(self.nh)
        self.r2 = np.zeros(self.nh)
        for k in range(self.nh):
            d = np.sum((self.xs - self.ctr[k])**2)
            if budget > 0 and R.rand() < 0.6:
                budget -= 1
                muh[k] = R.uniform(0.3, 1.5)
                self.r2[k] = d
            else:
                self.r2[k] = d + R.uniform(0.3, 4)
        lamg = R.uniform(-0.5, 0.5, self.ng)
        self.rg = np.array([self.q[k] @ self.xs**2 + self.b[k] @ self.xs for k in range(self.ng)])
        self.vertex = budget == 0
        self.c = np.zeros(n)
        g0 = self.f(self.xs)[1]
        self.c = -(g0 + (A.T @ nu if m else 0) + nub)
        for k in range(self.nh):
            self.c -= muh[k] * 2 * (self.xs - self.ctr[k])
        for k in range(self.ng):
            self.c -= lamg[k] * (2 * self.q[k] * self.xs + self.b[k])
        self.c = np.asarray(self.c, float)
        G = [A[k] for k in range(m) if nu[k]] + [np.eye(n)[k] for k in range(n) if nub[k]] + [2 * (self.xs - self.ctr[k]) for k in range(self.nh) if muh[k]]
        sv = np.linalg.svd(np.array(G), compute_uv=False) if G else np.ones(1)
        self.known = mode == "known" and not self.ng and (p["kind"] != "lp" or self.vertex) and sv.min() > 0.1
        self.infeasible = False
        if mode == "random":
            self.c = rnd(n) * 3
        if mode == "unbounded":
            self.H = np.zeros((n, n))
            self.c = rnd(n)
        if mode == "infeasible":
            if m and R.rand() < 0.5:
                k = R.randint(m)
                self.l[k], self.u[k] = v[k] + 1.0, v[k] - 1.0
            elif m:                             # a row beyond what the bounds allow
                k = R.randint(m)
                self.xmin, self.xmax = self.xs - 1, self.xs + 1
                self.l[k], self.u[k] = v[k] + np.sum(np.abs(A[k])) + 1, np.inf if R.rand() < 0.5 else v[k] + np.sum(np.abs(A[k])) + 2
            else:
                self.xmin, self.xmax = np.array(self.xmin), np.array(self.xmax)
                k = R.randint(n)
                self.xmin[k], self.xmax[k] = self.xs[k] + 0.5, self.xs[k] - 0.5
            self.infeasible = True
        for a in (self.l, self.u, self.xmin, self.xmax):
            for k in np.flatnonzero(np.isinf(a)):
                far = p.get("far", "inf")
                if far == "mixed":
                    far = ["inf", "1e10", "1e11"][R.randint(3)]
                a[k] = np.sign(a[k]) * float(far)

    @staticmethod
    def place(R, t, k, v, l, u):
        """Set the limits of one row so that v is where the type says; returns its multiplier."""
        w = np.round(R.uniform(0.3, 3, 2), 3)
        m = round(R.uniform(0.3, 2), 3)
        if t == "le":
            u[k] = v
            return m
        if t == "ge":
            l[k] = v
            return -m
        if t == "box-u":
            l[k], u[k] = v - w[0], v
            return m
        if t == "box-l":
            l[k], u[k] = v, v + w[0]
            return -m
        if t == "eq":
            l[k] = u[k] = v
            return m * R.choice([-1, 1])
        if t == "le0":
            u[k] = v + w[0]
        elif t == "ge0":
            l[k] = v - w[0]
        elif t == "box0":
            l[k], u[k] = v - w[0], v + w[1]
        elif t == "wide":                       # beyond 1e10 a limit counts as absent
            l[k], u[k] = -1e11, 1e11
        return 0.0

    # plain evaluations --------------------------------------------------
    def f(self, x):
        x = np.asarray(x, float)
        e = self.w * np.exp(self.a @ x) if len(self.w) else np.zeros(0)
        f = 0.5 * x @ self.H @ x + self.c @ x + e.sum()
        df = self.H @ x + self.c + (self.a.T @ e if len(e) else 0)
        if self.dom is not None:
            f = f - np.sum(np.log(x - self.dom))
            df = df - 1 / (x - self.dom)
        return f, df

    def d2f(self, x):
        x = np.asarray(x, float)
        H = self.H.copy()
        for k in range(len(self.w)):
            H += self.w[k] * np.exp(self.a[k] @ x) * np.outer(self.a[k], self.a[k])
        if self.dom is not None:
            H += np.diag(1 / (x - self.dom)**2)
        return H

    def h(self, x):
        return np.array([np.sum((x - self.ctr[k])**2) - self.r2[k] for k in range(self.nh)])

    def g(self, x):
        return np.array([self.q[k] @ x**2 + self.b[k] @ x - self.rg[k] for k in range(self.ng)])

    def dh(self, x):
        return np.array([2 * (x - self.ctr[k]) for k in range(self.nh)]).reshape(self.nh, self.n)

    def dg(self, x):
        return np.array([2 * self.q[k] * x + self.b[k] for k in range(self.ng)]).reshape(self.ng, self.n)


def spoil(sim, vals):
    """A seeded callback fault: one entry of one of the returned quantities becomes non-finite, or the callback raises."""
    t = sim.cur()
    n, f = sim._hit("cb", t)
    if f is None:
        return vals
    sim.fire(f)
    sim.log("callback-fault", n, f["kind"], f["k"])
    if f["kind"] == "raise":
        sim.probe("callback-raise")
        raise ZeroDivisionError("injected in a user function")
    v = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[f["kind"]]
    vals = list(vals)
    order = [j for j, a in enumerate(vals) if a is not None and np.size(a if not sp.issparse(a) else a.toarray())]
    if not order:
        return vals
    sim.probe("callback-nonfinite")
    j = order[f["k"] % len(order)]
    a = vals[j]
    if sp.issparse(a):
        d = a.toarray().astype(float)
        d.flat[f["k"] % d.size] = v
        vals[j] = sp.csr_matrix(d)
    elif np.ndim(a) == 0:
        vals[j] = v
    else:
        a = np.array(a, float)
        a.flat[f["k"] % a.size] = v
        vals[j] = a
    return vals


def finite(vals):
    return all(np.all(np.isfinite(v.toarray() if sp.issparse(v) else v)) for v in vals if v is not None)


def callbacks(sim, P, three):
    P.last = {}

    def f_fcn(x, return_hessian=False):
        f, df = P.f(x)
        out = [f, df] + ([sp.csr_matrix(P.d2f(x))] if return_hessian or three else [])
        out = spoil(sim, out)
        P.last["f"] = finite(out[:2])
        return tuple(out)

    def gh_fcn(x):
        h, g = P.h(x), P.g(x)
        out = [h, g, sp.csr_matrix(P.dh(x).T) if P.nh else None, sp.csr_matrix(P.dg(x).T) if P.ng else None]
        out = spoil(sim, out)
        P.last["gh"] = finite(out)
        return tuple(out)

    def hess_fcn(x, lam, cost_mult=1):
        L = cost_mult * P.d2f(x)
        for k in range(P.nh):
            L = L + lam["ineqnonlin"][k] * 2 * np.eye(P.n)
        for k in range(P.ng):
            L = L + lam["eqnonlin"][k] * 2 * np.diag(P.q[k])
        return spoil(sim, [sp.csr_matrix(L)])[0]
    return f_fcn, gh_fcn, hess_fcn


def kkt(ctx, P, x, f, lm, opt, nonlinear, tag):
    """The claims of a converged solution, evaluated from the problem data."""
    n, m = P.n, len(P.l)
    x = np.asarray(x, float)
    if x.shape != (n,) or not np.all(np.isfinite(x)):
        ctx.bad("false-optimum-nonfinite", "converged with x=%r%s" % (x, tag))
        return
    cm = opt.get("cost_mult", 1)
    tol = {k: opt.get(k, 1e-6) for k in ("feastol", "gradtol", "comptol", "costtol")}
    xn = np.max(np.abs(x))
    f1, df = P.f(x)
    mass = 1 + np.abs(x) @ np.abs(P.H) @ np.abs(x) + np.abs(P.c) @ np.abs(x) + abs(f1)
    if not np.isfinite(f1) or not abs(f - f1) <= 1e-12 * mass:
        ctx.bad("objective-mismatch", "reported f=%.12g, at the returned point it is %.12g%s" % (f, f1, tag))
    ax = P.A @ x if m else np.zeros(0)
    real = lambda lo, hi: (np.where(lo > -1e10, lo, -np.inf), np.where(hi < 1e10, hi, np.inf))
    l, u = real(P.l, P.u)
    lo, hi = real(P.xmin, P.xmax)
    h, g = (P.h(x), P.g(x)) if nonlinear else (np.zeros(0), np.zeros(0))
    slack = [s for s in np.r_[ax - l, u - ax, x - lo, hi - x, -h] if np.isfinite(s) and s > 0]
    scale = 1 + max([xn] + slack)
    viol = max([0.0] + list(l - ax) + list(ax - u) + list(lo - x) + list(x - hi) + list(h) + list(np.abs(g)))
    if not viol <= 2 * tol["feastol"] * scale:
        ctx.bad("false-optimum-infeasible", "converged at a point violating a constraint by %.3g (tolerance %.3g)%s"
                % (viol, tol["feastol"] * scale, tag))
        return
    muL, muU, bL, bU = (np.asarray(lm[k], float) for k in ("mu_l", "mu_u", "lower", "upper"))
    muh = np.asarray(lm.get("ineqnonlin", np.zeros(0)), float)
    lamg = np.asarray(lm.get("eqnonlin", np.zeros(0)), float)
    if (len(muL), len(muU), len(bL), len(bU), len(muh), len(lamg)) != (m, m, n, n, len(h), len(g)):
        ctx.bad("multiplier-shape", "%r%s" % ([len(muL), len(muU), len(bL), len(bU), len(muh), len(lamg)], tag))
        return
    allmu = np.r_[muL, muU, bL, bU, muh]
    if not np.all(np.isfinite(np.r_[allmu, lamg])):
        ctx.bad("false-optimum-nonfinite", "converged with a non-finite multiplier%s" % tag)
        return
    if len(allmu) and allmu.min() < 0:
        ctx.bad("negative-multiplier", "%.3g%s" % (allmu.min(), tag))
    if np.any(muL[~np.isfinite(l)]) or np.any(muU[~np.isfinite(u)]) or np.any(bL[~np.isfinite(lo)]) or np.any(bU[~np.isfinite(hi)]):
        ctx.bad("multiplier-without-limit", "a limit that does not exist has a multiplier%s" % tag)
    r = df + (P.A.T @ (muU - muL) if m else 0) + bU - bL
    if len(h):
        r = r + P.dh(x).T @ muh
    if len(g):
        r = r + P.dg(x).T @ lamg
    big = max([0.0] + list(np.abs(np.r_[allmu, lamg]))) * cm
    # multipliers below 1e-5 on slack constraints may have been dropped
    drop = 1e-5 * (np.abs(P.A).sum() + 2 + (np.abs(P.dh(x)).sum() if len(h) else 0))
    lim = 2 * (tol["gradtol"] * (1 + big) + drop) / cm
    if not np.max(np.abs(r)) <= lim + 1e-9 * (1 + np.max(np.abs(df))):
        ctx.bad("false-optimum-gradient", "converged where the gradient of the Lagrangian is %.3g (tolerance %.3g)%s" % (np.max(np.abs(r)), lim, tag))
    eq = np.abs(u - l) <= 1e-15
    beq = np.abs(hi - lo) <= 1e-15
    fin = lambda a: np.where(np.isfinite(a), a, 0)
    comp = np.r_[(muL * fin(ax - l))[~eq], (muU * fin(u - ax))[~eq], (bL * fin(x - lo))[~beq], (bU * fin(hi - x))[~beq], -muh * h] * cm
    cl = 3 * tol["comptol"] * (1 + xn) + 2 * tol["feastol"] * scale * (1 + big)
    if len(comp) and not np.max(comp) <= cl:
        ctx.bad("false-optimum-complementarity", "converged where multiplier times slack is %.3g (tolerance %.3g)%s" % (np.max(comp), cl, tag))


def run(scn):
    sim = Sim(seed=5, faults=scn["faults"])
    ctx = Ctx()
    P = Problem(scn["p"])
    p, opt = scn["p"], dict(scn["opt"])
    n, m = P.n, len(P.l)
    nonlinear = p["kind"] == "nlp"
    R = np.random.RandomState(p["s"] % 99991)
    x0 = {"zero": np.zeros(n), "near": P.xs + 0.1 * R.uniform(-1, 1, n), "far": R.uniform(-8, 8, n), "int": R.randint(-3, 4, n),
          "opt": P.xs.copy(), "huge": R.uniform(-1, 1, n) * 1e6}[scn["x0"]]
    if P.dom is not None and scn["x0"] in ("zero", "far", "int", "huge"):
        sim.probe("domain")
    sim.probe(p["kind"])
    call = scn["call"]
    lim = lambda a: np.abs(a) < 1e10
    hasb = np.any(lim(P.xmin)) or np.any(lim(P.xmax))
    if p.get("far", "inf") != "inf":
        sim.probe("limit-1e10")
    A = sp.csr_matrix(P.A) if m else (None if scn["Anone"] else sp.csr_matrix((0, n)))
    d = scn["dfl"]
    l = None if not np.any(lim(P.l)) and d & 1 else P.l.copy()
    u = None if not np.any(lim(P.u)) and d & 1 else P.u.copy()
    xmin = None if not np.any(lim(P.xmin)) and d & 2 else P.xmin.copy()
    xmax = None if not np.any(lim(P.xmax)) and d & 2 else P.xmax.copy()
    if not m:
        sim.probe("no-linear")
        if d & 4:
            l = u = np.zeros(0)
        sim.probe("no-bounds" if not hasb else "fixed-variable" if "eq" in P.btypes else "no-linear")
        if not hasb and not (P.nh or P.ng):
            sim.probe("unconstrained")
    if "free" in P.types or "wide" in P.types:
        sim.probe("free-row")
    if P.ng:
        sim.probe("eq-nonlinear")
    if P.nh:
        sim.probe("ineq-nonlinear")
    for k in ("step_control", "cost_mult"):
        if k in opt:
            sim.probe(k.replace("_", "-"))
    f_fcn, gh_fcn, hess_fcn = callbacks(sim, P, scn.get("f3") and nonlinear)
    H = sp.csr_matrix(P.H)
    if p["kind"] == "lp" or not P.H.any():
        H = None if scn["H0"] else H
    maxit = opt.get("max_it", 150)
    sc = opt.get("step_control", False)
    if call in ("front", "frontd"):
        sim.probe("front-end")
        po = {k: v for k, v in opt.items() if k not in ("step_control", "verbose", "max_it")}
        fo = {"alg": 250 if sc else 200 if d & 1 else 0}
        if d & 1 and not sc:
            fo.pop("alg") if d & 2 else None
        if po:
            fo["pips_opt"] = po
        if "verbose" in opt:
            fo["verbose"] = opt["verbose"]
        if "max_it" in opt:
            fo["max_it"] = opt["max_it"]
        elif d & 4:
            fo["max_it"] = 0
        uopt = fo
    else:
        uopt = dict(opt)
    if not uopt and not scn["copt"]:
        uopt = None

    if call == "pips":
        go = lambda: api("pips")(f_fcn, x0, A, l, u, xmin, xmax, gh_fcn if nonlinear else None, hess_fcn if nonlinear else None, uopt)
        args = [x0, A, l, u, xmin, xmax, uopt]
    elif call == "pipsd":
        pr = {"f_fcn": f_fcn, "x0": x0}
        for k, v in (("A", A), ("l", l), ("u", u), ("xmin", xmin), ("xmax", xmax), ("opt", uopt)):
            if v is not None or d & 4:
                pr[k] = v
        if nonlinear:
            pr["gh_fcn"], pr["hess_fcn"] = gh_fcn, hess_fcn
        sim.probe("dict-form")
        go = lambda: api("pips")(pr)
        args = [pr]
    else:
        fn = api("qps_pips" if call in ("qps", "qpsd") else "qps_pypower")
        xx = x0 if scn["x0"] != "zero" or d & 1 else None
        if call in ("qps", "front"):
            go = lambda: fn(H, P.c, A, l, u, xmin, xmax, xx, uopt)
            args = [H, P.c, A, l, u, xmin, xmax, xx, uopt]
        else:
            pr = {}
            for k, v in (("H", H), ("c", P.c), ("A", A), ("l", l), ("u", u), ("xmin", xmin), ("xmax", xmax), ("x0", xx), ("opt", uopt)):
                if v is not None or d & 4:
                    pr[k] = v
            sim.probe("dict-form")
            go = lambda: fn(pr)
            args = [pr]
    for k in ("infeasible", "unbounded", "nonconvex", "degenerate"):
        if p["mode"] == k:
            sim.probe(k)
    first = None
    key = None
    kl = "%s-%s-%s" % (p["kind"], call, p["mode"])
    budget = 20000 + (maxit if maxit else 150) * (700 + 40 * opt.get("max_red", 20) * bool(sc))
    faults = scn["faults"]
    if any(f["at"] < 0 for f in faults):
        kind, val = sim.run(go, name="count", faults=[], budget=budget)
        N = sim.last_task.counts.get("cb", 0)
        faults = [dict(f, at=max(0, N + f["at"])) if f["at"] < 0 else f for f in faults]
    for c in range(scn["calls"]):
        tag = " [%s, call %d]" % (kl, c + 1)
        if c:
            sim.probe("repeat")
        before = copy.deepcopy(args)
        nf = sim.nfired
        kind, val = sim.run(go, name="solve%d" % c, faults=faults if c == 0 or scn["calls"] == 2 else [], budget=budget, solve_budget=maxit + 1)
        solves = sim.last_task.counts.get("solve", 0)
        fired = sim.nfired - nf
        why = same(before, args, "argument")
        if why:
            ctx.bad("caller-data-changed", why + tag)
        if kind == "exc":
            sim.probe("cancelled" if sim.last_task.site else "raised")
            if isinstance(val, SimBudget):
                ctx.bad("unbounded", "%s%s" % (val, tag))
                break
            key = key or (kl + "-raised" if fired else None)
            free_lp = (H is None and call not in ("pips", "pipsd") and not m and not hasb)
            if not fired and not free_lp and (P.known or (p["kind"] == "qp" and p["mode"] in ("known", "random"))):
                ctx.bad("spurious-error", "%s with nothing failing%s" % (excname(val), tag))
            if free_lp and not isinstance(val, ValueError) and not fired:
                ctx.bad("unclear-error", "%s%s" % (excname(val), tag))
            continue
        if call in ("pips", "pipsd"):
            x, f, ok, out, lm = (val[k] for k in ("x", "f", "eflag", "output", "lmbda"))
        else:
            x, f, ok, out, lm = val
        it, hist = out["iterations"], out["hist"]
        if it > maxit or solves > maxit:
            ctx.bad("too-many-iterations", "%d iterations, %d solves, limit %d%s" % (it, solves, maxit, tag))
        if len(hist) != it + 1 and not (out["message"] == "Numerically failed" and len(hist) == it):
            ctx.bad("history-length", "%d entries for %d iterations%s" % (len(hist), it, tag))
        okb = bool(ok == 1)
        if okb != (out["message"] == "Converged") or (not okb and ok > 0):
            ctx.bad("flag-message", "flag %r, message %r%s" % (ok, out["message"], tag))
        sim.log("result", c, okb, it, summ(x), summ([f]))
        if it >= maxit and not okb:
            sim.probe("iteration-limit")
        if okb:
            sim.probe("claimed")
            if not all(P.last.values()):
                ctx.bad("claimed-on-nonfinite", "converged although the last evaluation of a user function was not finite%s" % tag)
            if fired:
                sim.probe("claimed-after-faults")
            kkt(ctx, P, x, f, lm, opt, nonlinear, tag + (" [%d faults]" % fired if fired else ""))
            key = kl + ("-fault" if fired else "")
        else:
            sim.probe("not-claimed")
            key = key or (kl + "-failed" if fired else None)
        if P.known and not fired and P.dom is None and maxit >= 100 and 1e-2 <= opt.get("cost_mult", 1) <= 10 \
                and scn["x0"] in (("near", "opt") if nonlinear else ("near", "opt", "zero", "int", "far")):
            sim.probe("known-optimum")
            if not okb:
                ctx.bad("not-solved", "a convex problem with a known solution is not solved: %s after %d%s" % (out["message"], it, tag))
            elif np.max(np.abs(x - P.xs)) > 1e-2 * (1 + np.max(np.abs(P.xs))) and max(
                    [opt.get(k, 1e-6) for k in ("feastol", "gradtol", "comptol", "costtol")]) <= 1e-6 and opt.get("cost_mult", 1) >= 1:
                ctx.bad("wrong-optimum", "x=%s instead of %s%s" % (np.round(x, 4), P.xs, tag))
        if not fired:
            if first is None:
                first = (x, f, okb, lm)
            elif same(first, (x, f, okb, lm)):
                ctx.bad("not-repeatable", "%s%s" % (same(first, (x, f, okb, lm), "result"), tag))
    return finish(sim, ctx, key)


def shrinks(scn):
    p = scn["p"]
    for k in ("rows", "nh", "ng", "n"):
        if p[k] > (1 if k == "n" else 0):
            yield dict(scn, p=dict(p, **{k: p[k] - 1}))
    for k in scn["opt"]:
        yield dict(scn, opt={a: b for a, b in scn["opt"].items() if a != k})
    if scn["calls"] > 1:
        yield dict(scn, calls=scn["calls"] - 1)
