"""C17 optional model features (reserves, interface limits, DC lines) switched on and off."""
import copy
import random
import re

import numpy as np

from .. import netgen, ref, refopf
from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C
from .c04 import BASEF, cubic, pypower_budget

ID = "C17"
RUNS = {"quick": 700, "thorough": 9000}
RULE = ("one run = a seeded history of switching reserves, interface limits and DC lines on and off on one case, running optimal "
        "and plain power flows with any set of them on, printing, saving and reloading the case and carrying on from results, "
        "under linear-solver faults and cancellations; non-trivial when a result with a feature on was checked against the "
        "reference model or a fault fired")
REAL = C.REAL + ["report and case files in a scratch directory"]
STUB = C.STUB + ["raw file layer"]
ASSUME = C.ASSUME + ["reserve price is the sum of the zone prices, as computed and tested, where the docstring says maximum"]
PROBES = ["res-checked", "if-checked", "dc-checked", "if-dc-checked", "pf-checked", "none-identical", "must-solve", "proved-infeasible",
          "success-after-fault", "failure-reported", "raised", "binding-zone", "binding-rmax", "binding-pmax", "binding-if", "binding-dc",
          "dc-reverse", "dc-line-off", "dc-line-dead", "dc-cost", "if-first-branch", "if-branch-off", "if-empty", "res-unit-off", "res-ngr",
          "printed", "reloaded", "chained", "off-when-off", "on-twice", "wres", "repeat-equal", "cancelled", "bad-data-refused", "cpf", "uopf", "uopf-off"]
FEATS = ("res", "if", "dc")
OPFF = ["oplim", "pwl", "linear", "polyorder", "dispload", "tightv", "qcost", "cheapflat", "anglim", "tightq"]
USERF = ["userA", "userN", "userz"]
D = {n: i for i, n in enumerate("F T ST PF PT QF QT VF VT PMIN PMAX QMINF QMAXF QMINT QMAXT L0 L1 MUPMIN MUPMAX MUQMINF MUQMAXF "
                                "MUQMINT MUQMAXT".split())}


# ---- scenario ----------------------------------------------------------
def gen(r, tier, i):
    spec = netgen.rand_spec(r, feats=BASEF, maxnb=10 if tier == "quick" else 18, stock_p=0.12,
                            stocks=("case6ww", "case9", "case14", "case30"))
    have = r.choice([["res"], ["if"], ["dc"], ["dc"], ["res", "if"], ["if", "dc"], ["res", "if", "dc"]])
    spec["feat"] = sorted(spec["feat"] + r.sample(OPFF, r.choice([0, 0, 1, 2, 3]))
                          + (r.sample(USERF, 1) if "dc" not in have and r.random() < 0.25 else []))
    scn = {"case": spec, "have": have, "fs": r.randrange(10**9), "dc": r.random() < 0.55, "ops": [], "chunk": r.choice([64, 512, 8192])}
    if "dc" in have and r.random() < 0.15:
        scn["dc"], scn["cubic"] = False, 1
    ops = scn["ops"]
    for k in range(r.choice([1, 2, 2, 3, 4, 6])):
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            f, s = r.choice(have), int(r.random() < 0.65)
            ops.append({"o": "tog", "f": f, "s": s})
        if k == 0 and not any(op["s"] for op in ops):
            ops.append({"o": "tog", "f": r.choice(have), "s": 1})
        u = r.random()
        if u < 0.12:
            ops.append({"o": "save"})
        elif u < 0.16:
            ops.append({"o": "bad", "f": r.choice(have), "m": r.randrange(6)})
        op = {"o": "run", "e": r.choice(["opf", "opf", "opf", "opf", "opf", "pf", "wres" if "res" in have else "opf"]),
              "dc": scn["dc"] if "cubic" in scn or r.random() < 0.8 else not scn["dc"], "s": r.randrange(10**6)}
        if r.random() < 0.2:
            op["print"] = 1
        if r.random() < 0.2:
            op["chain"] = r.choice([1, 2])
        if r.random() < 0.06 and "dc" in have:
            op.update(e="cpf", dc=False, t=r.choice([0.1, 0.3, -0.2]))
        elif op["e"] == "opf" and r.random() < 0.05:
            op["e"] = "uopf"
        if op["e"] == "pf" and r.random() < 0.2:
            op["qlim"] = r.choice([1, 2])
        v = r.random()
        if v < 0.25:
            op["f"] = {"k": "solve", "l": solve_faults(r, maxat=14)}
        elif v < 0.33:
            op["f"] = {"k": "line", "at": round(r.random(), 5), "kind": r.choice(["KeyboardInterrupt", "MemoryError", "SimCancel"])}
        ops.append(op)
        if r.random() < 0.25:
            ops.append(dict(op, again=1))
    return scn


# ---- feature data ------------------------------------------------------
def features(ppc, scn):
    """Feature fields derived from the case and its scheduled dispatch."""
    net = ref.Net(ppc)
    B = net.base
    bus, g, br = net.bus, net.gen, net.br
    ng, nl = len(g), len(br)
    try:
        va = ref.dc_solve(net)
        fl = ref.dc_flows(net, va) if va is not None else np.zeros(nl)
    except Exception:
        fl = np.zeros(nl)
    if not np.all(np.isfinite(fl)):
        fl = np.zeros(nl)
    u = B / 100.0
    out = {}
    if "res" in scn["have"]:
        r = netgen.R(scn["fs"], "res")
        nrz = r.choice([1, 1, 2, 2, 3])
        z = np.array([[1.0 if r.random() < 0.75 else 0.0 for _ in range(ng)] for _ in range(nrz)])
        for i in range(nrz):
            z[i, r.randrange(ng)] = 1.0
        for k in range(ng):
            v = r.random()
            g[k, 17] = 0.0 if v < 0.4 else round(abs(g[k, 8] - g[k, 9]) * r.uniform(0.1, 0.7), 2)
        ppc["gen"][:, 17] = g[:, 17]
        igr = np.flatnonzero(z.any(axis=0))
        cost = np.array([round(r.uniform(0.0, 8.0), 2) if r.random() < 0.9 else 0.0 for _ in range(ng)])
        qty = np.array([round(max(2.0, abs(g[k, 8] - g[k, 9]) * r.uniform(0.1, 0.8)), 2) for k in range(ng)])
        d = {"zones": z, "cost": cost}
        if r.random() < 0.7:
            d["qty"] = qty
        rm = rmax(d, g)
        # mostly what the schedule leaves room for
        room = np.where(net.gon, np.clip(np.minimum(rm, g[:, 8] - g[:, 1]), 0, None), 0)
        d["req"] = np.array([round(float(z[i] @ room) * r.choice([r.uniform(0.0, 0.9), r.uniform(0.0, 0.9), r.uniform(0.9, 1.5)]) / nrz + 0.0, 2)
                             for i in range(nrz)])
        if len(igr) < ng and r.random() < 0.4:
            for q in ("cost", "qty"):
                if q in d:
                    d[q] = d[q][igr].copy()
        out["reserves"] = d
    if "if" in scn["have"]:
        r = netgen.R(scn["fs"], "if")
        n = r.choice([1, 1, 2, 3])
        nums = r.sample([1, 2, 3, 4, 7, 10, 25], n)
        rows, lims = [], []
        for no in nums:
            ks = r.sample(range(nl), min(nl, r.choice([1, 1, 2, 3, 4])))
            if r.random() < 0.25 and 0 not in ks:
                ks[0] = 0
            p = 0.0
            for k in ks:
                s = 1.0 if k == 0 else r.choice([1.0, -1.0])
                rows.append([no, s * k])
                p += s * fl[k] * net.bon[k]
            w = abs(p) + 10 * u
            v = r.random()
            hi = p + w * r.uniform(0.02, 0.5)
            lo = p - w * r.uniform(0.02, 0.5)
            if v < 0.25:
                lo = -w * 20
            elif v < 0.5:
                hi = w * 20
            elif v < 0.6:
                lo, hi = -np.inf, hi
            if not any(net.bon[k] for k in ks):
                lo, hi = min(lo, -1.0), max(hi, 1.0)
            lims.append([no, round(lo, 2), round(hi, 2)])
        r.shuffle(rows)
        r.shuffle(lims)
        out["if"] = {"map": np.array(rows), "lims": np.array(lims)}
    if "dc" in scn["have"]:
        r = netgen.R(scn["fs"], "dcl")
        n = r.choice([1, 1, 2, 3])
        live = [int(bus[i, 0]) for i in net.lb]
        every = [int(b) for b in bus[:, 0]]
        vset = {}
        for k in range(ng):
            if net.gon[k]:
                vset.setdefault(int(g[k, 0]), g[k, 5])
        rows = []
        for _ in range(n):
            if len(live) < len(every) and r.random() < 0.4:
                f, t = r.sample([r.choice([b for b in every if b not in live]), r.choice(live)], 2)
            elif len(live) > 1:
                f, t = r.sample(live, 2)
            else:
                f, t = r.sample(every, 2)
            st = 0.0 if r.random() < 0.2 else 1.0
            cap = r.uniform(5, 40) * u
            m = r.randrange(5)
            pmin, pmax = [(0.0, cap), (0.2 * cap, cap), (-cap, cap), (-cap, -0.2 * cap), (-cap, 0.0)][m]
            pf = r.uniform(pmin, pmax)
            l0 = 0.0 if r.random() < 0.5 else r.uniform(0, 0.8) * u
            l1 = 0.0 if r.random() < 0.3 else r.uniform(0.005, 0.08)
            q = [r.uniform(5, 40) * u for _ in range(4)]
            for b in (f, t):
                vset.setdefault(b, round(r.uniform(0.98, 1.04), 3))
            rows.append([f, t, st, round(pf, 2), r.choice([0.0, round(pf * 0.95, 2)]), 0.0, 0.0, vset[f], vset[t], round(pmin, 2), round(pmax, 2),
                         -round(q[0], 2), round(q[1], 2), -round(q[2], 2), round(q[3], 2), round(l0, 3), round(l1, 4)])
        out["dcline"] = np.array(rows)
        if r.random() < 0.5:
            cc = []
            for row in rows:
                if r.random() < 0.6:
                    k = r.choice([2, 2, 3, 3])
                    c = [round(r.uniform(0.0005, 0.01), 5), round(r.uniform(0, 6), 3), round(r.uniform(0, 50), 1)]
                    if k > 2 and scn.get("cubic"):
                        c = [round(r.uniform(1e-4, 2e-3), 6) if row[D["PMIN"]] >= 0 else 0.0] + c
                    elif k == 2:
                        c = c[1:]
                    cc.append([2, 0, 0, len(c)] + c)
                else:
                    pw = netgen.pwl_row(r, row[D["PMIN"]], row[D["PMAX"]], r.choice([2, 3, 4]), r.uniform(-2, 4), scale=0.3)
                    cc.append(list(pw))
            w = max(len(c) for c in cc)
            out["dclinecost"] = np.array([c + [0.0] * (w - len(c)) for c in cc])
    return out


def full(d, key, ng):
    """cost or qty as one value per unit."""
    v = np.asarray(d[key], float)
    if len(v) == ng:
        return v
    x = np.zeros(ng)
    x[np.flatnonzero(np.asarray(d["zones"]).any(axis=0))] = v
    return x


def rmax(d, g):
    ng = len(g)
    rm = np.where(g[:, 17] != 0, g[:, 17], np.inf)
    if "qty" in d:
        rm = np.minimum(rm, full(d, "qty", ng))
    return rm


def dc_on(ppc):
    """Rows of DC lines that carry power."""
    live = set(ppc["bus"][ppc["bus"][:, 1] != 4, 0])
    return [k for k, r in enumerate(ppc["dcline"]) if r[D["ST"]] > 0 and r[0] in live and r[1] in live]


# ---- oracles -----------------------------------------------------------
def check_opf(ctx, sim, orig, res, opt, dc, on, note):
    """orig: the caller's case with feature fields; on: features switched on."""
    B = float(orig["baseMVA"])
    net = ref.Net(orig)
    o, rs = orig, res
    ng = len(orig["gen"])
    ext = {"x": [], "slack": [], "mult": [], "cost": 0.0, "npwl": 0, "vars": 0}
    bad = []
    if "res" in on:
        d, q = orig["reserves"], res["reserves"]
        Rv = np.array(q["R"], float)
        if Rv.shape != (ng,):
            return [("reserve-shape", "reserves of %r units reported, the case has %d" % (Rv.shape, ng))]
        ext.update(R=Rv, muR=np.array(q["mu"]["Pmax"], float))
        z = np.asarray(d["zones"], float)
        igr = [k for k in range(ng) if z[:, k].any()]
        ext["vars"] = sum(bool(net.gon[k]) for k in igr)
        c = full(d, "cost", ng)
        rm = rmax(d, net.gen)
        zmu = np.array(res["lin"]["mu"]["l"]["Rreq"], float) / B
        ext["cost"] += float(c @ Rv)
        ext["x"] += list(np.abs(Rv) / B)
        zs = z @ Rv - d["req"]
        ext["slack"] += list(zs / B) + [v / B for v in (np.minimum(rm, 1e12) - Rv)[igr] if v < 1e10 * B]
        ext["mult"] += list(zmu * B) + list(np.array(q["mu"]["u"]) * B) + list(np.array(q["mu"]["l"]) * B)
    if "if" in on:
        m, lims = orig["if"]["map"], orig["if"]["lims"]
        rows = np.zeros((len(lims), len(orig["bus"])))
        inj = np.zeros(len(lims))
        z0 = ref.dc_flows(net, np.zeros(len(orig["bus"]))) if len(net.br) else np.zeros(0)
        for j, (no, lo, hi) in enumerate(lims):
            for a, b in m[m[:, 0] == no]:
                k, s = int(abs(b)), (-1.0 if b < 0 else 1.0)
                if net.bon[k]:
                    w = ref.dc_b(net, k)
                    rows[j, net.fb[k]] += s * w
                    rows[j, net.tb[k]] -= s * w
                    inj[j] += s * z0[k] / B
        mu = np.array(res["if"]["mu"]["u"], float) - np.array(res["if"]["mu"]["l"], float)
        ext["rows"] = {"va": rows, "lo": lims[:, 1] / B - inj, "up": lims[:, 2] / B - inj}
        if mu.shape != (len(lims),):
            return [("interface-shape", "%r prices for %d interfaces" % (mu.shape, len(lims)))]
    if "dc" in on:
        o, rs = dict(orig, bus=orig["bus"].copy()), dict(res, bus=res["bus"].copy())
        act = dc_on(orig)
        a, b = np.asarray(orig["dcline"], float), np.asarray(res["dcline"], float)
        if len(a) != len(b) or b.shape[1] < 23:
            return [("line-shape", "DC line table %r for %r" % (b.shape, a.shape))]
        row = {int(x): i for i, x in enumerate(orig["bus"][:, 0])}
        for k in act:
            f, t = row[int(a[k, 0])], row[int(a[k, 1])]
            for c_ in (o, rs):
                c_["bus"][f, 2] += b[k, D["PF"]]
                c_["bus"][t, 2] -= b[k, D["PT"]]
                if not dc:
                    c_["bus"][f, 3] -= b[k, D["QF"]]
                    c_["bus"][t, 3] -= b[k, D["QT"]]
                for i in (f, t):
                    if c_["bus"][i, 1] != 3:
                        c_["bus"][i, 1] = 2
            if "dclinecost" in orig:
                ext["cost"] += refopf.cost_at(orig["dclinecost"][k], b[k, D["PF"]])
                if orig["dclinecost"][k, 0] == 1:
                    ext["npwl"] += 1
                    ext["x"].append(abs(refopf.cost_at(orig["dclinecost"][k], b[k, D["PF"]])))
            ext["x"] += list(np.abs(b[k, [D["PF"], D["PT"]] + ([] if dc else [D["QF"], D["QT"]])]) / B)
            ext["slack"] += [abs(a[k, D["PMAX"]] - b[k, D["PF"]]) / B, abs(a[k, D["PMIN"]] - b[k, D["PF"]]) / B]
            if not dc:
                ext["slack"] += list(np.r_[a[k, [D["QMAXF"], D["QMAXT"]]] - b[k, [D["QF"], D["QT"]]],
                                           b[k, [D["QF"], D["QT"]]] - a[k, [D["QMINF"], D["QMINT"]]]] / B)
            ext["mult"] += list(b[k, 17:23] * B)
    if "if" in on:
        # prices are documented per MW
        r1 = None
        for scale in (B, 1.0):
            ext["rows"]["mu"] = mu * scale
            got, info = refopf.check(o, rs, opt, dc, dict(ext))
            if not got:
                break
            r1 = r1 or got
        if not got and r1:
            bad.append(("interface-price-unit", "shadow prices of interface limits are given per unit of flow, not per MW (%s)" % r1[0][1]))
        ctx_mu = mu * scale / B
    else:
        got, info = refopf.check(o, rs, opt, dc, dict(ext))
    bad += got
    if "ftol" not in info:
        return bad
    ft, ct, gt, mt = info["ftol"] * B, info["ctol"], info["gtol"], info["mt"]
    tol = gt + 4 * mt
    if "res" in on:
        sim.probe("res-checked")
        for k in range(ng):
            if not net.gon[k] or k not in igr:
                if Rv[k] != 0:
                    bad.append(("reserve-outside", "unit row %d gives %.6g MW of reserve but %s" %
                                (k, Rv[k], "belongs to no zone" if net.gon[k] else "is out of service")))
                if not net.gon[k] and k in igr:
                    sim.probe("res-unit-off")
                continue
            l_, u_, p_ = (float(q["mu"][x][k]) for x in ("l", "u", "Pmax"))
            if not -ft <= Rv[k] <= rm[k] + ft:
                bad.append(("reserve-limit", "unit row %d gives %.6g MW of reserve, it can give 0..%g" % (k, Rv[k], rm[k])))
            if not Rv[k] + res["gen"][k, 1] <= net.gen[k, 8] + ft:
                bad.append(("reserve-limit", "unit row %d: output %.6g plus reserve %.6g exceeds PMAX %g" % (k, res["gen"][k, 1], Rv[k], net.gen[k, 8])))
            if not (q["Rmin"][k] == 0 and close(min(q["Rmax"][k], 1e9), min(rm[k], 1e9))):
                bad.append(("reserve-report", "unit row %d: reserve limits reported %r..%r, they are 0..%r" % (k, q["Rmin"][k], q["Rmax"][k], rm[k])))
            prc = float(z[:, k] @ zmu)
            if not abs(q["prc"][k] - prc) <= 1e-9 * (1 + abs(prc)):
                bad.append(("reserve-report", "unit row %d: reserve price %r, its zones' prices add to %r" % (k, q["prc"][k], prc)))
            e = c[k] - prc + p_ + u_ - l_
            if not abs(e) <= tol + 2 * mt * len(zmu):
                bad.append(("reserve-price", "unit row %d: cost of reserve %g, price %g, limits %g %g %g: off by %.5g (tolerance %.3g)"
                            % (k, c[k], prc, l_, u_, p_, e, tol)))
            for nm, mu_, s in (("lower limit", l_, Rv[k]), ("upper limit", u_, rm[k] - Rv[k]),
                               ("output limit", p_, net.gen[k, 8] - res["gen"][k, 1] - Rv[k])):
                if mu_ < -1e-9 or (np.isfinite(s) and mu_ * s > 2 * ct + mu_ * ft) or (np.isinf(s) and mu_ > 0):
                    bad.append(("reserve-slack", "unit row %d: %s of the reserve has price %.5g and slack %.5g MW" % (k, nm, mu_, s)))
            if u_ > 1e-3:
                sim.probe("binding-rmax")
            if p_ > 1e-3:
                sim.probe("binding-pmax")
        for i in range(len(zs)):
            if not zs[i] >= -ft * max(1, z[i].sum()):
                bad.append(("reserve-zone", "zone %d needs %.6g MW, gets %.6g" % (i, d["req"][i], zs[i] + d["req"][i])))
            if zmu[i] < -1e-9 or zmu[i] * zs[i] > 2 * ct + zmu[i] * ft * max(1, z[i].sum()):
                bad.append(("reserve-slack", "zone %d has price %.5g and %.5g MW to spare" % (i, zmu[i], zs[i])))
            if zmu[i] > 1e-3:
                sim.probe("binding-zone")
        if not abs(q["totalcost"] - c @ Rv) <= 1e-6 * (1 + abs(c @ Rv)):
            bad.append(("reserve-report", "total cost of reserve %r, the reserves cost %r" % (q["totalcost"], float(c @ Rv))))
        for key in ("zones", "req", "cost", "qty"):
            if (key in d) != (key in q) or (key in d and not arrays_equal(d[key], q[key])):
                bad.append(("reserve-data", "reserve field %r changed: %r became %r" % (key, d.get(key), q.get(key))))
        if len(d["cost"]) < ng:
            sim.probe("res-ngr")
    if "if" in on:
        sim.probe("if-dc-checked" if dc else "if-checked")
        P = np.array(res["if"]["P"], float)
        for j, (no, lo, hi) in enumerate(lims):
            p, empty = 0.0, True
            for a_, b_ in m[m[:, 0] == no]:
                k, s = int(abs(b_)), (-1.0 if b_ < 0 else 1.0)
                p += s * res["branch"][k, 13]
                empty &= not net.bon[k]
                if k == 0:
                    sim.probe("if-first-branch")
                if not net.bon[k]:
                    sim.probe("if-branch-off")
            if empty:
                sim.probe("if-empty")
            if not abs(P[j] - p) <= 1e-6 * (1 + abs(p)):
                bad.append(("interface-flow", "interface %g carries %.6g MW, reported %.6g" % (no, p, P[j])))
            f = float(rows[j] @ info["st"]["va"] + inj[j]) * B
            l_, u_ = float(res["if"]["mu"]["l"][j]), float(res["if"]["mu"]["u"][j])
            for nm, mu_, s in (("lower", l_, f - lo), ("upper", u_, hi - f)):
                if mu_ < -1e-9 or (np.isfinite(s) and mu_ * s > 2 * ct * B + mu_ * ft * 2) or (np.isinf(s) and mu_ > 0):
                    bad.append(("interface-slack", "%s limit of interface %g has price %.5g and slack %.5g MW" % (nm, no, mu_, s)))
            if abs(ctx_mu[j]) > 1e-3:
                sim.probe("binding-if")
        for key in ("map", "lims"):
            if not arrays_equal(orig["if"][key], res["if"][key]):
                bad.append(("interface-data", "field %r changed: %r became %r" % (key, orig["if"][key].tolist(), np.asarray(res["if"][key]).tolist())))
    if "dc" in on:
        sim.probe("dc-checked")
        lam, lamq = res["bus"][:, 13], res["bus"][:, 14]
        for k in range(len(a)):
            x = b[k]
            keep = [0, 1, 2] + list(range(9, 17))
            if not np.array_equal(a[k, keep], x[keep]):
                bad.append(("line-data", "DC line %d: data changed from %r to %r" % (k, a[k, keep].tolist(), x[keep].tolist())))
            if k not in act:
                sim.probe("dc-line-off" if a[k, D["ST"]] <= 0 else "dc-line-dead")
                if not np.array_equal(a[k, :17], x[:17]) or np.any(x[17:23] != (a[k, 17:23] if a.shape[1] > 22 else 0)):
                    bad.append(("line-out", "DC line %d is out of service but its results changed" % k))
                continue
            f, t = row[int(x[0])], row[int(x[1])]
            pf, pt, l0, l1 = x[D["PF"]], x[D["PT"]], x[D["L0"]], x[D["L1"]]
            if not np.all(np.isfinite(x[:23] if not dc else x[[3, 4] + list(range(9, 19))])):
                bad.append(("line-result", "DC line %d: results %r" % (k, x[:23].tolist())))
                continue
            if not abs(pf - l0 - l1 * pf - pt) <= ft:
                bad.append(("line-loss", "DC line %d takes %.6g MW and delivers %.6g, loss terms %g + %g Pf" % (k, pf, pt, l0, l1)))
            pmin, pmax = x[D["PMIN"]], x[D["PMAX"]]
            s_lo, s_hi = (pf if pmin >= 0 else pt) - pmin, pmax - (pf if pmax >= 0 else pt)
            wl, wh = (1.0 if pmin >= 0 else 1 - l1), (1.0 if pmax >= 0 else 1 - l1)
            if s_lo < -ft or s_hi < -ft:
                bad.append(("line-limit", "DC line %d flow %.6g (%.6g received) outside %g..%g" % (k, pf, pt, pmin, pmax)))
            ml, mh = x[D["MUPMIN"]], x[D["MUPMAX"]]
            lo_, hi_ = 0.0, 0.0
            tk = tol
            if "dclinecost" in orig:
                cr = orig["dclinecost"][k]
                lo_, hi_ = refopf.slope_range(cr, pf, 0.02 * max(1.0, pmax - pmin))
                sim.probe("dc-cost")
                if cr[0] == 1:
                    tk += max(abs(lo_), abs(hi_)) * gt * B
            e = lam[f] - (1 - l1) * lam[t] + wh * mh - wl * ml
            if not -hi_ - tk <= e <= -lo_ + tk:
                bad.append(("line-price", "DC line %d: prices %.6g and %.6g, limits %.5g %.5g, cost slope %.5g..%.5g do not add up: %.5g (tolerance %.3g)"
                            % (k, lam[f], lam[t], ml, mh, lo_, hi_, e, tk)))
            todo = [("minimum", ml, s_lo + 1e-6), ("maximum", mh, s_hi)]
            if not dc:
                for end, qq, lo, hi, ma, mb, i in (("from", D["QF"], D["QMINF"], D["QMAXF"], D["MUQMINF"], D["MUQMAXF"], f),
                                                   ("to", D["QT"], D["QMINT"], D["QMAXT"], D["MUQMINT"], D["MUQMAXT"], t)):
                    if not x[lo] - ft <= x[qq] <= x[hi] + ft:
                        bad.append(("line-limit", "DC line %d: %s reactive injection %.6g outside %g..%g" % (k, end, x[qq], x[lo], x[hi])))
                    e = lamq[i] + x[ma] - x[mb]
                    if not abs(e) <= tol:
                        bad.append(("line-price", "DC line %d: reactive price %.6g at the %s bus, limits %.5g %.5g" % (k, lamq[i], end, x[ma], x[mb])))
                    todo += [(end + " reactive minimum", x[ma], x[qq] - x[lo]), (end + " reactive maximum", x[mb], x[hi] - x[qq])]
                for end, v, i in (("from", D["VF"], f), ("to", D["VT"], t)):
                    if not abs(x[v] - res["bus"][i, 7]) <= 1e-8:
                        bad.append(("line-voltage", "DC line %d: %s voltage %r, the bus has %r" % (k, end, x[v], res["bus"][i, 7])))
            for nm, mu_, s in todo:
                if mu_ < -1e-9 or mu_ * s > 2 * ct + mu_ * ft:
                    bad.append(("line-slack", "DC line %d: %s has price %.5g and slack %.5g" % (k, nm, mu_, s)))
            if ml > 1e-3 or mh > 1e-3:
                sim.probe("binding-dc")
            if pf < -1e-3:
                sim.probe("dc-reverse")
        if "dclinecost" in orig and not arrays_equal(orig["dclinecost"], res["dclinecost"]):
            bad.append(("line-data", "costs of the DC lines changed"))
    return bad


def lp(orig, on):
    """Added variables and rows of the DC problem."""
    B = float(orig["baseMVA"])
    net = ref.Net(orig)
    nb, ng = len(orig["bus"]), len(orig["gen"])
    le, lb, ub = [], [], []
    cols = {}
    if "res" in on:
        d = orig["reserves"]
        z = np.asarray(d["zones"], float)
        rm = rmax(d, net.gen)
        for k in range(ng):
            if z[:, k].any() and net.gon[k]:
                cols["R", k] = len(lb)
                lb.append(0.0)
                ub.append(rm[k] / B)
    if "dc" in on:
        for k in dc_on(orig):
            x = orig["dcline"][k]
            w = 1 - x[D["L1"]]
            cols["L", k] = len(lb)
            lb.append((x[D["PMIN"]] if x[D["PMIN"]] >= 0 else (x[D["PMIN"]] + x[D["L0"]]) / w) / B)
            ub.append((x[D["PMAX"]] if x[D["PMAX"]] >= 0 else (x[D["PMAX"]] + x[D["L0"]]) / w) / B)
    n = len(lb)
    bal, const = np.zeros((nb, n)), np.zeros(nb)
    zv, zp, ze = np.zeros(nb), np.zeros(ng), np.zeros(n)
    if "res" in on:
        for k in range(ng):
            if ("R", k) in cols:
                p, e = zp.copy(), ze.copy()
                p[k], e[cols["R", k]] = 1, 1
                le.append((zv, p, e, net.gen[k, 8] / B))
        for i in range(len(z)):
            e = ze.copy()
            for k in range(ng):
                if ("R", k) in cols:
                    e[cols["R", k]] = -z[i, k]
            if d["req"][i] != 0 or e.any():
                le.append((zv, zp, e, -d["req"][i] / B))
    if "dc" in on:
        row = {int(x): i for i, x in enumerate(orig["bus"][:, 0])}
        for k in dc_on(orig):
            x = orig["dcline"][k]
            f, t = row[int(x[0])], row[int(x[1])]
            bal[f, cols["L", k]] += 1
            bal[t, cols["L", k]] -= 1 - x[D["L1"]]
            const[t] += x[D["L0"]] / B
    if "if" in on:
        m, lims = orig["if"]["map"], orig["if"]["lims"]
        z0 = ref.dc_flows(net, np.zeros(nb))
        for no, lo, hi in lims:
            v, c = zv.copy(), 0.0
            for a, b in m[m[:, 0] == no]:
                k, s = int(abs(b)), (-1.0 if b < 0 else 1.0)
                if net.bon[k]:
                    w = ref.dc_b(net, k)
                    v[net.fb[k]] += s * w
                    v[net.tb[k]] -= s * w
                    c += s * z0[k] / B
            le.append((v, zp, ze, hi / B - c))
            if lo > -1e9:
                le.append((-v, zp, ze, -lo / B + c))
    return {"n": n, "le": le, "lb": np.array(lb), "ub": np.array(ub), "bal": bal, "const": const}


def explicit(orig):
    """The case with every active DC line written out as two units."""
    c = netgen.copy_case(orig)
    for key in ("dcline", "dclinecost", "reserves", "if", "gencost", "userfcn"):
        c.pop(key, None)
    fg, tg = [], []
    w = orig["gen"].shape[1]
    row = {int(x): i for i, x in enumerate(orig["bus"][:, 0])}
    for k in dc_on(orig):
        x = orig["dcline"][k]
        pt = x[D["PF"]] - (x[D["L0"]] + x[D["L1"]] * x[D["PF"]])
        for out, b, p, q, v, lo, hi in ((fg, x[0], -x[D["PF"]], x[D["QF"]], x[D["VF"]], x[D["QMINF"]], x[D["QMAXF"]]),
                                        (tg, x[1], pt, x[D["QT"]], x[D["VT"]], x[D["QMINT"]], x[D["QMAXT"]])):
            g = np.zeros(w)
            g[[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]] = [b, p, q, hi, lo, v, 100, 1, 1e6, -1e6]
            out.append(g)
            i = row[int(b)]
            if c["bus"][i, 1] != 3:
                c["bus"][i, 1] = 2
    if fg:
        c["gen"] = np.vstack([c["gen"]] + fg + tg)
    return c, len(fg)


def strip(res):
    """What a plain result says."""
    return {k: res.get(k) for k in ("bus", "gen", "branch", "gencost", "f", "success", "baseMVA")}


def parse(text, head):
    """Data rows below a heading."""
    i = text.find("|     " + head)
    if i < 0:
        return None
    rows, dash = [], False
    for ln in text[i:].split("\n")[1:]:
        if re.match(r"^\s*(-{3,}\s*)+$", ln):
            if dash:
                break
            dash = True
        elif ln.startswith("=") and dash:
            break
        elif dash:
            if not ln.strip():
                break
            rows.append(ln.split())
    return rows


def num(s):
    return None if s == "-" else float(s)


def check_print(bad, text, orig, res, on):
    t2, t3 = 0.0051, 0.00051
    if "res" in on:
        q = res["reserves"]
        rows = parse(text, "Reserves  ")
        igr = [k for k in range(len(orig["gen"])) if np.asarray(orig["reserves"]["zones"])[:, k].any()]
        if rows is None or len(rows) != len(igr):
            bad.append(("report-reserves", "%r rows of reserves printed for %d units" % (rows and len(rows), len(igr))))
        else:
            for k, w in zip(igr, rows):
                v = num(w[3])
                if int(w[0]) != k or int(w[1]) != int(orig["gen"][k, 0]) or abs((v or 0.0) - q["R"][k]) > t2 or abs(float(w[4]) - q["prc"][k]) > t2:
                    bad.append(("report-reserves", "unit row %d: printed %r for reserve %r at price %r" % (k, w, q["R"][k], q["prc"][k])))
                    break
                zn = [int(s.strip(",")) for s in w[5:]]
                if zn != np.flatnonzero(np.asarray(orig["reserves"]["zones"])[:, k]).tolist():
                    bad.append(("report-reserves", "unit row %d: printed zones %r" % (k, zn)))
        m = re.search(r"Total:\s*(\S+)\s+Total Cost: \$(\S+)", text)
        if not m or abs(float(m.group(1)) - q["R"].sum()) > t2 or abs(float(m.group(2)) - q["totalcost"]) > t2:
            bad.append(("report-reserves", "totals printed as %r" % (m and m.groups(),)))
    if "if" in on:
        rows = parse(text, "Interface Flow Limits")
        L, q = orig["if"]["lims"], res["if"]
        if rows is None or len(rows) != len(L):
            bad.append(("report-interfaces", "%r rows printed for %d interfaces" % (rows and len(rows), len(L))))
        else:
            for j, w in enumerate(rows):
                v = [num(s) for s in w]
                want = [L[j, 0], q["mu"]["l"][j], L[j, 1], q["P"][j], L[j, 2], q["mu"]["u"][j]]
                tol = [0, t3, t2, t2, t2, t3]
                if len(v) != 6 or any(abs((x or 0.0) - y) > t and x != y for x, y, t in zip(v, want, tol)):
                    bad.append(("report-interfaces", "interface %g: printed %r for %r" % (L[j, 0], w, want)))
                    break
    if "dc" in on:
        rows = parse(text, "DC Line Data")
        d, act = res["dcline"], dc_on(orig)
        if rows is None or len(rows) != len(d):
            bad.append(("report-lines", "%r rows printed for %d DC lines" % (rows and len(rows), len(d))))
        else:
            for k, w in enumerate(rows):
                x = d[k]
                want = [k, x[0], x[1]] + ([x[D["PF"]], x[D["PT"]], x[D["PF"]] - x[D["PT"]], x[D["QF"]], x[D["QT"]]] if k in act else [None] * 5)
                v = [num(s) for s in w]
                if len(v) != 8 or any((p is None) != (e is None) or (p is not None and abs(p - e) > t2) for p, e in zip(v, want)):
                    bad.append(("report-lines", "DC line %d: printed %r for %r" % (k, w, want)))
                    break
            m = re.search(r"Total:\s*(\S+)", text[text.find("|     DC Line Data"):])
            loss = sum(d[k, D["PF"]] - d[k, D["PT"]] for k in act)
            if not m or abs(float(m.group(1)) - loss) > t2:
                bad.append(("report-lines", "total loss printed as %r, the lines lose %.6g" % (m and m.group(1), loss)))


# ---- the run -----------------------------------------------------------
TOG = {"res": ("toggle_reserves", "reserves"), "if": ("toggle_iflims", "if"), "dc": ("toggle_dcline", "dcline")}


def toggle(case, f, s):
    return api(TOG[f][0])(case, "on" if s else "off")


def plain(case):
    """Everything in a case except its callbacks."""
    return {k: v for k, v in case.items() if k != "userfcn"}


def stages(case):
    u = case.get("userfcn")
    return {s: [e["fcn"].__name__ for e in v] for s, v in u.items() if len(v)} if isinstance(u, dict) else {}


def run(scn):
    sim = Sim(seed=7, disk=True, chunk=scn["chunk"])
    ctx = Ctx()
    base = netgen.build(scn["case"])
    if len(base["bus"]) < 2:
        return finish(sim, ctx, None)
    base.update(features(base, scn))
    for key in ("reserves", "if", "dcline", "dclinecost"):
        if key in base:
            sim.log(key, summ(base[key]["zones"] if key == "reserves" else base[key]["lims"] if key == "if" else base[key]))
    net = ref.Net(base)
    sound = bool(net.types()[0]) and net.islands_ok()
    nb, ng = len(base["bus"]), len(base["gen"]) + 2 * len(base.get("dcline", ()))
    cur = netgen.copy_case(base)     # the case the caller works on
    want = netgen.copy_case(base)    # what it must contain, callbacks aside
    on = []                          # features on, in the order switched on
    seen = {}
    key = set()
    for op in scn["ops"]:
        if isinstance(op.get("f"), str) and op["f"] not in scn["have"]:
            continue
        if op["o"] == "tog":
            f = op["f"]
            before = plain(netgen.copy_case(cur))
            kind, val = sim.run(lambda: toggle(cur, f, op["s"]), faults=[], lines=False)
            if kind == "exc":
                ctx.bad("toggle-raised", "switching %s %s raised %s" % (f, "on" if op["s"] else "off", excname(val)))
                break
            cur = val
            if op["s"]:
                if f in on:
                    sim.probe("on-twice")
                else:
                    on.append(f)
            elif f in on:
                on.remove(f)
            else:
                sim.probe("off-when-off")
            d = same(before, plain(cur))
            if d:
                ctx.bad("toggle-changed", "switching %s %s changed the case: %s" % (f, "on" if op["s"] else "off", d))
            check_stages(ctx, cur, on)
        elif op["o"] == "bad":
            bad_data(ctx, sim, base, op)
        elif op["o"] == "save":
            n0 = len(ctx.v)
            cur = save(ctx, sim, cur, want, on)
            if cur is None:
                break
            if len(ctx.v) > n0:
                break
            on = []
            want = netgen.copy_case(cur)
            seen.clear()
        else:
            r = one(ctx, sim, scn, op, cur, want, list(on), nb, ng, sound, seen, key)
            if r is not None:
                cur, want, on = r
                seen.clear()
            if other(ctx):
                break
    return finish(sim, ctx, repr(sorted(key)) if key else None)


def other(ctx):
    """Anything wrong beyond what does not spoil the rest of the history."""
    return any(c != "interface-price-unit" for c, _ in ctx.v)


def check_stages(ctx, case, on):
    st = stages(case)
    w = {"res": "reserves", "if": "iflims", "dc": "dcline"}
    for s in ("ext2int", "formulation", "int2ext", "printpf", "savecase"):
        got = st.get(s, [])
        exp = ["userfcn_%s_%s" % (w[f], s) for f in on]
        if len(got) != len(exp):
            ctx.bad("registration", "with %r on, stage %s has %r" % (on, s, got))
            return


def bad_data(ctx, sim, base, op):
    """Data the documentation requires is missing or does not fit."""
    c = netgen.copy_case(base)
    f, m = op["f"], op["m"]
    if f == "res":
        d = c["reserves"]
        if m < 3:
            del d[["zones", "req", "cost"][m]]
        elif m == 3:
            d["cost"] = np.ones(len(c["gen"]) + 2)
            if "qty" in d:
                d["qty"] = np.ones(len(c["gen"]) + 2)
        elif m == 4:
            d["req"] = np.r_[d["req"], 1.0]
        else:
            del c["reserves"]
    elif f == "if":
        if m < 2:
            del c["if"][["map", "lims"][m]]
        else:
            del c["if"]
    else:
        if m < 3:
            c["dcline"] = c["dcline"][:, :16]
        elif "dclinecost" in c:
            c["dclinecost"] = np.vstack([c["dclinecost"], c["dclinecost"]])
        else:
            del c["dcline"]

    def go():
        x = toggle(c, f, 1)
        return api("rundcopf")(x, quiet())
    kind, val = sim.run(go, name="bad-data", faults=[])
    if kind == "exc":
        sim.probe("bad-data-refused")
    elif val["success"]:
        ctx.bad("bad-data", "optimal power flow succeeded with %s data that are incomplete or do not fit" % f)


def save(ctx, sim, cur, want, on):
    before = netgen.copy_case(cur)
    name = sim.disk.path("c17case.py")
    kind, val = sim.run(lambda: api("savecase")(name, cur), name="save", faults=[])
    if kind == "exc":
        ctx.bad("save-raised", "saving a case with %r on raised %s" % (on, excname(val)))
        return None
    d = same(plain(before), plain(cur))
    if d:
        ctx.bad("save-changed", "saving changed the case: %s" % d)
        return None
    kind, new = sim.run(lambda: api("loadcase")(name), name="load", faults=[])
    if kind == "exc":
        ctx.bad("load-raised", "loading the saved case raised %s" % excname(new))
        return None
    sim.probe("reloaded")
    fld = {"res": ["reserves"], "if": ["if"], "dc": ["dcline", "dclinecost"]}
    for f in on:
        for k in fld[f]:
            if (k in cur) != (k in new):
                ctx.bad("save-lost", "field %r of an active feature is %s after saving and loading" % (k, "missing" if k in cur else "new"))
                return None
            if k not in cur:
                continue
            a, b = cur[k], new[k]
            pairs = [(k, a, b)] if not isinstance(a, dict) else [(k + "." + q, a[q], b.get(q)) for q in (("zones", "req", "cost", "qty") if f == "res"
                                                                                                        else ("map", "lims")) if q in a]
            for nm, x, y in pairs:
                if y is None or np.shape(x) != np.shape(y) or not np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-8, atol=1e-9, equal_nan=True):
                    ctx.bad("save-lost", "field %s is not what was saved: %r became %r" % (nm, np.asarray(x).tolist(), y if y is None else np.asarray(y).tolist()))
                    return None
    if stages(new):
        ctx.bad("save-callbacks", "a loaded case has callbacks: %r" % stages(new))
        return None
    # fields of features that are off need not be kept
    for k, v in want.items():
        if k not in new and k != "userfcn":
            new[k] = copy.deepcopy(v)
    return new


def one(ctx, sim, scn, op, cur, want, on, nb, ng, sound, seen, key):
    e, dc = op["e"], bool(op["dc"])
    case = cur
    if e == "wres":
        if "dc" in on or "res" not in scn["have"]:
            return None
        act = on + ["res"] if "res" not in on else on
    else:
        act = on
    if "res" in act and "dc" in act:
        return None
    if e in ("pf", "cpf") and ("res" in act or "if" in act):
        return None
    o = {"PF_DC": dc}
    if op.get("print"):
        o["OUT_ALL"] = 1
    if op.get("qlim"):
        o["ENFORCE_Q_LIMS"] = op["qlim"]
    if e == "cpf":
        o.update(CPF_STOP_AT=0.25, CPF_STEP=0.12)
    opt = quiet(**o)
    fn = {"cpf": "runcpf", "uopf": "runuopf", "opf": "runopf", "wres": "runopf_w_res", "pf": "rundcpf" if dc else "runpf"}[e]
    name = "%s%s with %s on" % (fn, " (DC)" if dc else "", "+".join(act) or "nothing")
    before = netgen.copy_case(cur)
    st0 = stages(cur)
    cap = opt["PDIPM_MAX_IT"]
    budget = 2 * pypower_budget(nb, ng, cap, 0) + 60000
    if e == "uopf":
        budget *= 2 * ng + 4

    def invoke(c, opt):
        return api(fn)(c, raised_load(c, op["t"]), opt) if e == "cpf" else api(fn)(c, opt)
    flt = []
    f = op.get("f")
    if f and f["k"] == "solve":
        flt = f["l"]
    elif f and f["k"] == "line":
        k0, _ = sim.run(lambda: invoke(netgen.copy_case(cur), dict(opt)), name="count", faults=[], budget=budget)
        flt = [{"seam": "line", "at": 1 + int(f["at"] * sim.last_task.lines), "kind": f["kind"]}]
    nf = sim.nfired
    if e == "wres":
        sim.probe("wres")
    kind, val = sim.run(lambda: invoke(case, opt), name=e, faults=flt, budget=budget,
                        solve_budget=4 * (cap + 12) * (2 * ng + 4 if e == "uopf" else 1) if e != "cpf" else None)
    fired = sim.nfired - nf
    text = "".join(sim.last_task.out)
    d = same(before, cur)
    if d:
        ctx.bad("case-changed", "%s changed the caller's case: %s" % (name, d))
        return None
    if stages(cur) != st0:
        ctx.bad("case-changed", "%s changed the caller's callbacks" % name)
        return None
    if kind == "exc":
        if isinstance(val, SimBudget):
            ctx.bad("unbounded", "%s did not end (%s)" % (name, val))
        elif fired:
            key.add(("raised", e, dc))
            sim.probe("cancelled" if f["k"] == "line" else "raised")
        elif sound and not (dc and (cubic(want) or dcubic(want, act))):
            ctx.bad("spurious-error", "%s raised %s with nothing failing" % (name, excname(val)))
        return None
    two = e in ("pf", "cpf")
    res = val[0] if two else val
    ok = bool(res["success"]) if not two else bool(val[1])
    sim.log("result", e, dc, ok, summ(res["bus"][:, 7]), summ(res["gen"][:, 1]))
    if not fired and not op.get("print"):
        sig = (e, dc, tuple(act), op.get("qlim"), op.get("t"))
        fp = copy.deepcopy(strip(res))
        if sig in seen:
            sim.probe("repeat-equal")
            d = same(seen[sig], fp)
            if d:
                ctx.bad("not-repeatable", "%s gave a different result the second time: %s" % (name, d))
        seen[sig] = fp
    if fired:
        key.add(("fault", e, dc, ok))
    bad = []
    if two:
        sim.probe(e)
        if not fired:
            check_pf(bad, sim, want, res, ok, opt, dc, act, op)
            key.add(("pf", dc, bool(act)))
    elif ok:
        if dc and (cubic(want) or dcubic(want, act)):
            pass
        else:
            w = want
            if e == "uopf":
                sim.probe("uopf")
                w = netgen.copy_case(want)
                if len(res["gen"]) == len(w["gen"]):
                    k = (w["gen"][:, 7] > 0) & (res["gen"][:, 7] <= 0)
                    w["gen"][k, 7] = 0
                    if np.any(k):
                        sim.probe("uopf-off")
            bad += check_opf(ctx, sim, w, res, opt, dc, act, name)
        if fired:
            sim.probe("success-after-fault")
        key.add(("opf", dc, tuple(sorted(act))))
    else:
        sim.probe("failure-reported")
        if not fired and dc and sound and e != "uopf":
            fs = refopf.dc_feasible(want, opt, ext=lp(want, act))
            if fs is False:
                sim.probe("proved-infeasible")
            if fs:
                bad.append(("not-solved", "a convex DC problem with a strictly feasible point was reported unsolved"))
    if not fired and dc and ok and act:
        sim.probe("must-solve")
    if not act and not fired and e != "uopf":
        # nothing on: exactly as if nothing had ever been switched on
        c = netgen.copy_case(plain(want))
        k2, v2 = sim.run(lambda: invoke(c, quiet(**dict(o, OUT_ALL=0))), name="plain", faults=[])
        if k2 == "ok":
            r2 = v2[0] if two else v2
            sim.probe("none-identical")
            d = same(strip(r2), strip(res))
            if d:
                bad.append(("not-off", "result differs from that of a case on which nothing was ever switched on: %s" % d))
    if op.get("print") and act and not fired and (ok and e != "cpf" or e == "pf"):
        sim.probe("printed")
        check_print(bad, text, want, res, act)
    st = stages(res)
    exp = {"res": "reserves", "if": "iflims", "dc": "dcline"}
    # the returned case keeps the features that were on, runopf_w_res takes its own off again
    left = [x for x in act if not (e == "wres" and x == "res")]
    if "userfcn" in cur and set(st.get("formulation", [])) != set("userfcn_%s_formulation" % exp[x] for x in left):
        bad.append(("registration", "the returned case has callbacks %r with %r on" % (st.get("formulation"), act)))
    done = {"interface-price-unit"} if ctx.v else set()
    for c_, m in bad:
        if c_ not in done:
            done.add(c_)
            ctx.bad(c_, "%s: %s%s" % (name, m, " [after %d faults]" % fired if fired else ""))
    if op.get("chain") and ok and e not in ("uopf", "cpf") and not other(ctx):
        return chain(ctx, sim, op, cur, want, res, left, act)
    return None


def dcubic(case, act):
    c = case.get("dclinecost")
    return "dc" in act and c is not None and any(c[k, 0] == 2 and c[k, 3] > 3 for k in dc_on(case))


def chain(ctx, sim, op, cur, want, res, left, act):
    """Carry on from the returned case; the caller's own must not follow what happens to it."""
    sim.probe("chained")
    before, st = netgen.copy_case(cur), stages(cur)
    new = res
    for f in list(left):
        k, v = sim.run(lambda: toggle(new, f, 0), faults=[], lines=False)
        if k == "exc":
            ctx.bad("toggle-raised", "switching %s off on a result raised %s" % (f, excname(v)))
            return None
        new = v
    d = same(before, cur)
    if d or stages(cur) != st:
        ctx.bad("case-changed", "switching features off on a result changed the caller's case: %s" % (d or stages(cur)))
        return None
    if op["chain"] == 1 or any(k not in new for k in ("bus", "gen", "branch")):
        return None
    c = {}
    for k in want:
        c[k] = copy.deepcopy(new[k]) if k in new and k != "userfcn" else copy.deepcopy(want[k])
    return c, netgen.copy_case(c), []


def raised_load(case, t):
    c = netgen.copy_case(case)
    c["bus"][:, 2:4] *= 1 + t
    return c


def check_pf(bad, sim, orig, res, ok, opt, dc, act, op):
    c, n = explicit(orig) if "dc" in act else (explicit(dict(orig, dcline=np.zeros((0, 17))))[0], 0)
    fn = api("rundcpf" if dc else "runpf")
    o = dict(opt, OUT_ALL=0)
    if op["e"] == "cpf":
        fn = lambda c, o: api("runcpf")(c, raised_load(c, op["t"]), o)
    k, v = sim.run(lambda: fn(c, o), name="explicit", faults=[])
    if k == "exc":
        return
    r2, ok2 = v[0], bool(v[1])
    if ok != ok2:
        bad.append(("line-model", "converged is %r, with the lines written out as units it is %r" % (ok, ok2)))
        return
    if not ok:
        return
    sim.probe("pf-checked")
    ng = len(orig["gen"])
    if op["e"] == "cpf":
        a, b = res["cpf"]["lam_c"], r2["cpf"]["lam_c"]
        if np.shape(a) != np.shape(b) or not close(a, b, 1e-6, 1e-6):
            bad.append(("line-model", "continuation visits %r, with the lines written out as units %r" % (list(a)[:6], list(b)[:6])))
            return
    for nm, a, b in (("bus", res["bus"][:, 7:9], r2["bus"][:, 7:9]), ("unit", res["gen"][:, 1:3], r2["gen"][:ng, 1:3]),
                     ("branch", res["branch"][:, 13:17], r2["branch"][:, 13:17])):
        if a.shape != b.shape or not close(a, b, 1e-6, 1e-5):
            i = 0 if a.shape != b.shape else int(np.argmax(np.max(np.abs(a - b), axis=1)))
            bad.append(("line-model", "%s row %d: %r, with the lines written out as units %r" % (nm, i, a[i].tolist(), b[i].tolist())))
            return
    if "dc" not in act:
        return
    d, d0 = res["dcline"], orig["dcline"]
    if len(d) != len(d0):
        bad.append(("line-shape", "DC line table has %d rows, the case %d" % (len(d), len(d0))))
        return
    on = dc_on(orig)
    for k in range(len(d)):
        if k not in on:
            sim.probe("dc-line-off" if d0[k, D["ST"]] <= 0 else "dc-line-dead")
            if not np.array_equal(d[k, :17], d0[k, :17]):
                bad.append(("line-out", "DC line %d is out of service but its results changed" % k))
            continue
        i = on.index(k)
        gf, gt = r2["gen"][ng + i], r2["gen"][ng + n + i]
        want = [-gf[1], gt[1], gf[2], gt[2]]
        got = d[k, [D["PF"], D["PT"], D["QF"], D["QT"]]]
        if not close(got, want, 1e-6, 1e-5):
            bad.append(("line-result", "DC line %d reports %r, its units produce %r" % (k, got.tolist(), want)))
        keep = [0, 1, 2] + list(range(9, 17))
        if not np.array_equal(d0[k, keep], d[k, keep]):
            bad.append(("line-data", "DC line %d: data changed" % k))


def shrinks(scn):
    ops = scn["ops"]
    for j in range(len(ops)):
        if len(ops) > 1:
            yield dict(scn, ops=ops[:j] + ops[j + 1:])
    for j, op in enumerate(ops):
        for k in ("f", "print", "chain", "qlim"):
            if k in op:
                o = dict(op)
                del o[k]
                yield dict(scn, ops=ops[:j] + [o] + ops[j + 1:])
    for f in scn["have"]:
        if len(scn["have"]) > 1:
            yield dict(scn, have=[x for x in scn["have"] if x != f], ops=[op for op in ops if op.get("f") != f or op["o"] == "run"])
    for s in netgen.shrink_spec(scn["case"]):
        yield dict(scn, case=s)
