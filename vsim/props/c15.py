"""C15 the optimization model against a plain ledger."""
import copy
import random

import numpy as np
import scipy.sparse as sp

from ..sim import Sim
from .common import *  # noqa: F401,F403
from . import common as C

ID = "C15"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("one run = a seeded history of additions, additions that must be refused, queries, copies and queries cancelled at a "
        "seeded line, on one optimization model or on several copied from it; every answer is compared with a ledger that stores the "
        "additions and evaluates the documented formulas row by row; non-trivial when constraints or costs were assembled")
REAL = ["pypower.opf_model (unmodified)", "numpy", "scipy.sparse"]
STUB = ["wall clock", "stdout/stderr"]
ASSUME = ["seeded sampling, not enumeration"]
PROBES = ["vars", "lin", "nln", "costs", "empty-set", "all-variables", "named-sets", "set-order-swapped", "default-bounds", "refused-duplicate",
          "refused-size", "refused-unknown", "assembled", "cost-total", "cost-named", "cost-quadratic", "cost-deadzone", "cost-H",
          "cost-rebuilt", "cost-stale", "query-cancelled", "no-costs", "copied", "added-after", "repr", "userdata", "no-rows-named"]


def gen(r, tier, i):
    ops = []
    for _ in range(r.choice([4, 8, 14, 22])):
        o = r.choice(["var", "var", "lin", "lin", "nln", "cost", "cost", "build", "query", "query", "lins", "value", "value", "refuse", "refuse",
                      "cancel", "copy", "data"])
        ops.append({"o": o, "s": r.randrange(10**6)})
    return {"ops": [{"o": "var", "s": r.randrange(10**6)} for _ in range(r.choice([1, 2]))] + ops, "faults": [], "edge": r.random() < 0.5}


class Ledger:
    def __init__(self):
        self.var, self.lin, self.nln, self.cost = [], [], [], []     # [(name, data)] in order of addition
        self.params = None
        self.data = {}

    def nvar(self):
        return sum(d["n"] for _, d in self.var)

    def cols(self, sets):
        """Columns of the full vector for the concatenation of the named sets."""
        at, b = {}, 0
        for nm, d in self.var:
            at[nm] = range(b, b + d["n"])
            b += d["n"]
        return [j for s in sets for j in at[s]]

    def linear(self):
        n = self.nvar()
        rows, lo, hi = [], [], []
        for _, d in self.lin:
            cols = self.cols(d["vs"])
            for k in range(d["A"].shape[0]):
                row = np.zeros(n)
                for c, v in zip(cols, d["A"][k]):
                    row[c] = v
                rows.append(row)
                lo.append(d["l"][k])
                hi.append(d["u"][k])
        return (np.array(rows) if rows else np.zeros((0, n))), np.array(lo), np.array(hi)

    def build(self):
        n = self.nvar()
        out = {"N": [], "Cw": [], "dd": [], "rh": [], "kk": [], "mm": [], "sets": []}
        for nm, d in self.cost:
            cols = self.cols(d["vs"])
            for k in range(d["N"].shape[0]):
                row = np.zeros(n)
                if len(cols) == d["N"].shape[1]:
                    for c, v in zip(cols, d["N"][k]):
                        row[c] = v
                out["N"].append(row)
                out["Cw"].append(d["Cw"][k])
                for q, dflt in (("dd", 1), ("rh", 0), ("kk", 0), ("mm", 1)):
                    out[q].append(d[q][k] if q in d else dflt)
            out["sets"].append((nm, d["N"].shape[0]))
        m = len(out["N"])
        H = np.zeros((m, m))
        b = 0
        for nm, d in self.cost:
            k = d["N"].shape[0]
            if "H" in d:
                H[b:b + k, b:b + k] = d["H"]
            b += k
        out["H"] = H
        out["N"] = np.array(out["N"]) if m else np.zeros((0, n))
        self.params = {k: (np.array(v, float) if k not in ("sets",) else v) for k, v in out.items()}
        self.params["built"] = (len(self.var), len(self.cost))

    def rows(self, name):
        b = 0
        for nm, k in self.params["sets"]:
            if nm == name:
                return slice(b, b + k)
            b += k
        return slice(0, 0)

    def value(self, x, name=None):
        p = self.params
        s = slice(None) if name is None else self.rows(name)
        N, Cw, dd, rh, kk, mm = (p[k][s] for k in ("N", "Cw", "dd", "rh", "kk", "mm"))
        H = p["H"][s, s]
        w = []
        for k in range(len(Cw)):
            r = float(N[k] @ x) - rh[k]
            if -kk[k] <= r <= kk[k] and not (kk[k] == 0 and r == 0):
                w.append(0.0)
                continue
            rr = r + kk[k] if r < -kk[k] else r - kk[k] if r > kk[k] else r
            w.append(mm[k] * (rr if dd[k] == 1 else rr * rr if dd[k] == 2 else 0.0))
        w = np.array(w)
        return 0.5 * w @ H @ w + Cw @ w if len(w) else 0.0


def num(R, n, edge):
    """Small numbers that repeat, so rows and sets are told apart but ties occur."""
    v = R.randint(-9, 10, size=n) * 0.5
    return v if edge else v + 0.125


def mkvar(om, led, r, R, edge, name):
    n = r.choice([0, 1, 1, 2, 3, 4])
    d = {"n": n}
    v0, vl, vu = (num(R, n, edge) for _ in range(3))
    lo, hi = np.minimum(vl, vu), np.maximum(vl, vu)
    how = r.choice(["all", "all", "none", "v0", "empty", "bounds"])
    if how == "all":
        args = [v0, lo, hi]
    elif how == "none":
        args, v0, lo, hi = [], np.zeros(n), np.full(n, -np.inf), np.full(n, np.inf)
    elif how == "v0":
        args, lo, hi = [v0], np.full(n, -np.inf), np.full(n, np.inf)
    elif how == "empty":
        args, v0, hi = [np.array([]), lo, np.array([])], np.zeros(n), np.full(n, np.inf)
    else:
        args, v0 = [None, lo, hi], np.zeros(n)
    d.update(v0=np.array(v0, float), vl=np.array(lo, float), vu=np.array(hi, float))
    return d, (lambda: om.add_vars(name, n, *[a if a is None else a.copy() for a in args]))


def sets_of(led, r, sim):
    names = [n for n, _ in led.var]
    if r.random() < 0.4:
        sim.probe("all-variables")
        return r.choice([None, []]), names
    k = r.randrange(1, len(names) + 1)
    vs = r.sample(names, k)
    sim.probe("named-sets")
    if vs != sorted(vs, key=names.index):
        sim.probe("set-order-swapped")
    return list(vs), list(vs)


def mklin(om, led, r, R, edge, name, sim):
    arg, vs = sets_of(led, r, sim)
    m = len(led.cols(vs))
    n = r.choice([0, 1, 1, 2, 3])
    A = num(R, (n, m), edge) * (R.rand(n, m) < 0.7)
    l, u = -np.abs(num(R, n, edge)), np.abs(num(R, n, edge))
    la, ua = l.copy(), u.copy()
    how = r.choice(["", "", "l", "u"])
    if how == "l":
        l, la = np.full(n, -np.inf), np.array([])
    elif how == "u":
        u, ua = np.full(n, np.inf), np.array([])
    if how:
        sim.probe("default-bounds")
    if not n:
        sim.probe("empty-set")
    M = r.choice([sp.csr_matrix, sp.csc_matrix, sp.lil_matrix])(A)
    d = {"A": A, "l": l, "u": u, "vs": vs}
    if arg is None and r.random() < 0.5:
        return d, (lambda: om.add_constraints(name, M, la, ua))
    return d, (lambda: om.add_constraints(name, M, la, ua, arg))


def mkcost(om, led, r, R, edge, name, sim):
    arg, vs = sets_of(led, r, sim)
    m = len(led.cols(vs))
    n = r.choice([0, 1, 1, 2, 3])
    d = {"N": num(R, (n, m), edge) * (R.rand(n, m) < 0.8), "Cw": num(R, n, edge), "vs": vs}
    if r.random() < 0.5:
        d["H"] = (lambda h: (h + h.T) * 0.5)(num(R, (n, n), edge))
        sim.probe("cost-H")
    if r.random() < 0.5:
        d["dd"] = R.randint(1, 3, n).astype(float)
    if r.random() < 0.5:
        d["rh"] = num(R, n, edge)
    if r.random() < 0.5:
        d["kk"] = np.abs(num(R, n, edge))
    if r.random() < 0.5:
        d["mm"] = num(R, n, edge)
    if not n:
        sim.probe("empty-set")
    cp = {k: (sp.csr_matrix(v) if k in ("N", "H") else v.copy()) for k, v in d.items() if k != "vs"}
    if n == 0 and r.random() < 0.3:
        cp["N"] = sp.csr_matrix((0, m + 2))     # no rows: the width does not matter
        d = dict(d, N=np.zeros((0, m)))
    snap = copy.deepcopy(cp)

    def go():
        om.add_costs(name, cp, arg)
        return same(snap, cp, "cp")
    return d, go


def check(ctx, om, led, what, sim):
    """Everything the model can be asked without assembling anything."""
    for sel, lst, size in (("var", led.var, lambda d: d["n"]), ("lin", led.lin, lambda d: d["A"].shape[0]), ("nln", led.nln, lambda d: d["n"]),
                           ("cost", led.cost, lambda d: d["N"].shape[0])):
        tot = sum(size(d) for _, d in lst)
        if om.getN(sel) != tot:
            ctx.bad("wrong-count", "%s: getN(%s) is %r instead of %d" % (what, sel, om.getN(sel), tot))
            return
        idx = dict(zip(("var", "lin", "nln", "cost"), om.get_idx()))[sel]
        b = 0
        if sorted(idx["N"]) != sorted(n for n, _ in lst):
            ctx.bad("wrong-sets", "%s: %s sets %s instead of %s" % (what, sel, sorted(idx["N"]), sorted(n for n, _ in lst)))
            return
        for nm, d in lst:
            k = size(d)
            if (idx["i1"][nm], idx["iN"][nm], idx["N"][nm], om.getN(sel, nm)) != (b, b + k, k, k):
                ctx.bad("wrong-range", "%s: %s set %s is at %s instead of %s" % (what, sel, nm, (idx["i1"][nm], idx["iN"][nm], idx["N"][nm]), (b, b + k, k)))
                return
            b += k
        if om.getN(sel, "no such set") != 0:
            ctx.bad("wrong-count", "%s: getN of an unknown set" % what)
            return
    cat = lambda k: np.concatenate([d[k] for _, d in led.var]) if led.var else np.zeros(0)
    for got, k in zip(om.getv(), ("v0", "vl", "vu")):
        if not arrays_equal(np.asarray(got, float), cat(k)):
            ctx.bad("wrong-bounds", "%s: %s is %s instead of %s" % (what, k, np.asarray(got).tolist(), cat(k).tolist()))
            return
    for nm, d in led.var:
        for got, k in zip(om.getv(nm), ("v0", "vl", "vu")):
            if not arrays_equal(np.asarray(got, float), d[k]):
                ctx.bad("wrong-bounds", "%s: %s of %s" % (what, k, nm))
                return


def lins(ctx, om, led, what, sim):
    kind, val = sim.run(om.linear_constraints)
    if kind == "exc":
        ctx.bad("assembly-failed", "%s: %s" % (what, excname(val)))
        return
    A, l, u = val
    W = led.linear()
    if A is None:
        if len(W[0]) or len(l) or len(u):
            ctx.bad("wrong-constraints", "%s: none returned" % what)
        return
    A = A.toarray()
    if A.shape != W[0].shape or not arrays_equal(A, W[0]) or not arrays_equal(l, W[1]) or not arrays_equal(u, W[2]):
        ctx.bad("wrong-constraints", "%s: assembled constraints %s %s %s instead of %s %s %s" % (what, A.tolist(), l.tolist(), u.tolist(),
                W[0].tolist(), W[1].tolist(), W[2].tolist()))
    sim.probe("assembled")


def params(ctx, om, led, r, what, sim):
    name = r.choice([None, None] + [n for n, _ in led.params["sets"]])
    s = slice(None) if name is None else led.rows(name)
    kind, val = sim.run(lambda: om.get_cost_params() if name is None else om.get_cost_params(name))
    if kind == "exc":
        ctx.bad("cost-failed", "%s: get_cost_params(%s): %s" % (what, name, excname(val)))
        return
    for k in ("N", "Cw", "H", "dd", "rh", "kk", "mm"):
        want = led.params[k][s] if k != "H" else led.params[k][s, s]
        got = val[k].toarray() if sp.issparse(val[k]) else np.asarray(val[k], float)
        if got.shape != want.shape or not arrays_equal(got, want):
            ctx.bad("wrong-cost-params", "%s: %s of %s is %s instead of %s" % (what, k, name, got.tolist(), want.tolist()))
            return


def value(ctx, om, led, r, R, edge, what, sim):
    if led.params["built"][0] != len(led.var):
        return                      # built for fewer variables
    x = num(R, led.nvar(), edge)
    name = r.choice([None, None] + [n for n, _ in led.params["sets"]])
    kind, val = sim.run(lambda: om.compute_cost(x) if name is None else om.compute_cost(x, name))
    if kind == "exc":
        ctx.bad("cost-failed", "%s: compute_cost(%s): %s" % (what, name, excname(val)))
        return
    want = led.value(x, name)
    if np.ndim(val) or not np.isclose(val, want, rtol=1e-9, atol=1e-9):
        ctx.bad("wrong-cost", "%s: cost of %s at %s is %r instead of %r" % (what, name, x.tolist(), val, want))
    p = led.params
    sim.probe("cost-total" if name is None else "cost-named")
    if name is not None and led.rows(name).start == led.rows(name).stop:
        sim.probe("no-rows-named")
    if not len(p["Cw"]):
        sim.probe("no-costs")
    if (p["dd"] == 2).any():
        sim.probe("cost-quadratic")
    if (p["kk"] > 0).any():
        sim.probe("cost-deadzone")


def run(scn):
    ctx = Ctx()
    sim = Sim(seed=31)
    om_t = api("opf_model")
    ppc = {"marker": 1}
    om, led = om_t(ppc), Ledger()
    edge = scn["edge"]
    key, others = [], []
    cnt = 0
    for n, op in enumerate(scn["ops"]):
        if ctx.v:
            break
        r = random.Random(op["s"])
        R = np.random.RandomState(op["s"] % 2**31)
        o = op["o"]
        what = "op %d %s" % (n, o)
        if o in ("var", "lin", "nln", "cost"):
            cnt += 1
            name = "%s%d" % (r.choice("abcde"), cnt)
            if o == "var":
                d, go = mkvar(om, led, r, R, edge, name)
            elif o == "lin":
                d, go = mklin(om, led, r, R, edge, name, sim)
            elif o == "nln":
                k = r.choice([0, 1, 2, 5])
                d, go = {"n": k}, (lambda: om.add_constraints(name, k, "nonlinear"))
            else:
                d, go = mkcost(om, led, r, R, edge, name, sim)
            kind, val = sim.run(go)
            if kind == "exc":
                ctx.bad("addition-failed", "%s: %s" % (what, excname(val)))
                break
            if o == "cost" and val:
                ctx.bad("argument-changed", "%s: %s" % (what, val))
            getattr(led, o).append((name, d))
            sim.probe({"var": "vars", "cost": "costs"}.get(o, o))
            if o == "var" and (led.lin or led.cost):
                sim.probe("added-after")
        elif o == "refuse":
            refuse(ctx, om, led, r, R, edge, what, sim)
        elif o == "build":
            kind, val = sim.run(om.build_cost_params)
            if kind == "exc":
                ctx.bad("cost-failed", "%s: %s" % (what, excname(val)))
                break
            if led.params is not None:
                sim.probe("cost-rebuilt")
            led.build()
        elif o == "lins":
            lins(ctx, om, led, what, sim)
            key.append("l%d" % len(led.lin))
        elif o == "query" and led.params is not None:
            params(ctx, om, led, r, what, sim)
            key.append("p")
        elif o == "value":
            if led.params is None or led.params["built"] != (len(led.var), len(led.cost)):
                if r.random() < 0.8:
                    sim.run(om.build_cost_params)
                    led.build()
                elif led.params is not None:
                    sim.probe("cost-stale")
            if led.params is not None:
                value(ctx, om, led, r, R, edge, what, sim)
                key.append("c%d" % len(led.cost))
        elif o == "cancel":
            q = r.choice(["lins", "build", "value", "getv", "repr"])
            if q == "value" and (led.params is None or led.params["built"][0] != len(led.var)):
                continue
            x = num(R, led.nvar(), edge)
            fn = {"lins": om.linear_constraints, "build": om.build_cost_params, "value": lambda: om.compute_cost(x), "getv": om.getv,
                  "repr": lambda: repr(om)}[q]
            probe_om = copy.deepcopy(om)
            fn2 = {"lins": probe_om.linear_constraints, "build": probe_om.build_cost_params, "value": lambda: probe_om.compute_cost(x),
                   "getv": probe_om.getv, "repr": lambda: repr(probe_om)}[q]
            sim.run(fn2)
            L = sim.last_task.lines
            if L < 2:
                continue
            kind, val = sim.run(fn, faults=[{"seam": "line", "at": r.randrange(1, L + 1), "kind": r.choice(["KeyboardInterrupt", "MemoryError", "SimCancel"])}])
            if kind == "exc":
                sim.probe("query-cancelled")
                if q == "build":            # either the old or the new parameters stand
                    if led.params is not None:
                        params(ctx, om, led, random.Random(0), what, sim)
            elif q == "build":
                led.build()
        elif o == "copy":
            others.append((copy.deepcopy(om), copy.deepcopy(led), "copy at op %d" % n))
            if len(others) > 1 and r.random() < 0.5:
                j = r.randrange(len(others))
                others[j], (om, led) = (om, led, "original until op %d" % n), others[j][:2]
            sim.probe("copied")
        elif o == "data":
            k = r.choice("xyz")
            if r.random() < 0.6:
                v = r.randrange(99)
                sim.run(lambda: om.userdata(k, v))
                led.data[k] = v
            else:
                _, v = sim.run(lambda: om.userdata(k))
                if (k in led.data and v != led.data[k]) or (k not in led.data and np.size(v)):
                    ctx.bad("wrong-userdata", "%s: %r is %r instead of %r" % (what, k, v, led.data.get(k)))
            sim.probe("userdata")
            if r.random() < 0.3:
                kind, v = sim.run(lambda: repr(om))
                if kind == "exc":
                    ctx.bad("repr-failed", "%s: %s" % (what, excname(v)))
                elif not all(nm in v for nm, _ in led.var + led.lin + led.nln + led.cost):
                    ctx.bad("repr-incomplete", what)
                sim.probe("repr")
        check(ctx, om, led, what, sim)
        if om.get_ppc().get("marker") != 1:
            ctx.bad("wrong-case", what)
        sim.log(n, o, om.getN("var"), om.getN("lin"), om.getN("cost"), len(ctx.v))
    # the final word, of every model
    for m, l, what in [(om, led, "end")] + others:
        if ctx.v:
            break
        check(ctx, m, l, what, sim)
        lins(ctx, m, l, what, sim)
        kind, val = sim.run(m.build_cost_params)
        if kind == "exc":
            ctx.bad("cost-failed", "%s: %s" % (what, excname(val)))
            break
        l.build()
        r, R = random.Random(n), np.random.RandomState(n)
        for _ in range(3):
            params(ctx, m, l, r, what, sim)
            value(ctx, m, l, r, R, edge, what, sim)
        params(ctx, m, l, random.Random(0), what, sim)
    return finish(sim, ctx, repr(key) if key else None)


def refuse(ctx, om, led, r, R, edge, what, sim):
    """An addition that makes no sense leaves everything as it was."""
    k = r.choice(["dupvar", "duplin", "dupnln", "dupcost", "width", "bounds", "unknown", "cwidth", "crows", "cH", "copt", "cunknown"])
    dups = {"dupvar": led.var, "duplin": led.lin, "dupnln": led.nln, "dupcost": led.cost}
    if k in dups:
        if not dups[k]:
            return
        name = r.choice(dups[k])[0]
        if k == "dupvar":
            _, go = mkvar(om, led, r, R, edge, name)
        elif k == "duplin":
            _, go = mklin(om, led, r, R, edge, name, sim)
        elif k == "dupnln":
            go = lambda: om.add_constraints(name, 2, "nonlinear")
        else:
            _, go = mkcost(om, led, r, R, edge, name, sim)
        sim.probe("refused-duplicate")
    else:
        vs = [n for n, _ in led.var]
        m = led.nvar()
        A = sp.csr_matrix(np.ones((2, m)))
        two = np.ones(2)
        wide = sp.csr_matrix(np.ones((2, m + 1)))
        cp = {"N": A, "Cw": two}
        go = {"width": lambda: om.add_constraints("new", wide, two, two, r.choice([None, vs])),
              "bounds": lambda: om.add_constraints("new", A, np.ones(3), two) if r.random() < 0.5 else om.add_constraints("new", A, two, np.ones(1)),
              "unknown": lambda: om.add_constraints("new", A, two, two, vs[:1] + ["nowhere"]),
              "cwidth": lambda: om.add_costs("new", {"N": wide, "Cw": two}, vs),
              "crows": lambda: om.add_costs("new", {"N": A, "Cw": np.ones(3)}, vs),
              "cH": lambda: om.add_costs("new", dict(cp, H=sp.csr_matrix(np.ones((2, 3) if r.random() < 0.5 else (3, 2)))), vs),
              "copt": lambda: om.add_costs("new", dict(cp, **{r.choice(["dd", "rh", "kk", "mm"]): np.ones(3)}), vs),
              "cunknown": lambda: om.add_costs("new", cp, ["nowhere"])}[k]
        sim.probe("refused-unknown" if "unknown" in k else "refused-size")
    before = copy.deepcopy(vars(om))
    kind, val = sim.run(go)
    d = same(before, vars(om), "model")
    if d:
        ctx.bad("rejected-but-added", "%s %s (%s): %s" % (what, k, excname(val) if kind == "exc" else "no error", d))
    elif kind == "ok" and not sim.err_text():
        ctx.bad("silently-ignored", "%s %s" % (what, k))


def shrinks(scn):
    ops = scn["ops"]
    for j in range(len(ops)):
        yield dict(scn, ops=ops[:j] + ops[j + 1:])
