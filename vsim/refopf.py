"""Independent optimality and feasibility model for optimal power flow results.

Dense arithmetic on the caller's external data; no pypower code.  Tolerances are
the solver's own documented termination conditions, scaled by quantities
recomputed here."""
import numpy as np

from . import ref

INF = np.inf


def cost_at(row, p):
    if row[0] == 1:
        n = int(row[3])
        xs, ys = row[4:4 + 2 * n:2], row[5:5 + 2 * n:2]
        m = [(ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k]) for k in range(n - 1)]
        return max(ys[k] + m[k] * (p - xs[k]) for k in range(n - 1))
    n = int(row[3])
    v = 0.0
    for c in row[4:4 + n]:
        v = v * p + c
    return v


def slope_range(row, p, eps):
    """(lowest, highest) marginal cost within eps of p."""
    if row[0] == 1:
        n = int(row[3])
        xs, ys = row[4:4 + 2 * n:2], row[5:5 + 2 * n:2]
        m = [(ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k]) for k in range(n - 1)]
        act = []
        for k in range(n - 1):
            lo = -INF if k == 0 else xs[k]
            hi = INF if k == n - 2 else xs[k + 1]
            if lo - eps <= p <= hi + eps:
                act.append(m[k])
        return min(act), max(act)
    n = int(row[3])
    c = row[4:4 + n]
    d = 0.0
    for i, a in enumerate(c[:-1]):
        d = d * p + a * (n - 1 - i)
    return d, d


def convex(row, lo, hi):
    if row[0] == 1:
        n = int(row[3])
        xs, ys = row[4:4 + 2 * n:2], row[5:5 + 2 * n:2]
        m = [(ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k]) for k in range(n - 1)]
        return all(b >= a - 1e-9 for a, b in zip(m, m[1:]))
    return True


class Opf:
    """Everything the checks need, in external terms."""

    def __init__(self, orig, dc, opt):
        self.net = net = ref.Net(orig)
        self.dc, self.opt = bool(dc), opt
        self.base = net.base
        self.nb, self.ng, self.nl = len(net.bus), len(net.gen), len(net.br)
        gc = np.array(orig["gencost"], float)
        self.pc = gc[:self.ng]
        self.qc = None if dc or len(gc) < 2 * self.ng else gc[self.ng:2 * self.ng]
        self.cm = 1.0 if dc else 1e-4
        fe = opt["PDIPM_FEASTOL"] or opt["OPF_VIOLATION"]
        self.feastol, self.gradtol, self.comptol = fe, opt["PDIPM_GRADTOL"], opt["PDIPM_COMPTOL"]
        self.g = [k for k in range(self.ng) if net.gon[k]]
        self.user(orig)

    def user(self, orig):
        nb, ng = self.nb, self.ng
        self.A = self.N = None
        self.nz = 0
        net = self.net
        cols = None
        for key in ("A", "N"):
            M = orig.get(key)
            if M is None:
                continue
            M = np.asarray(M.toarray(), float)
            full = M.shape[1] >= 2 * nb + 2 * ng
            nx = 2 * nb + 2 * ng if full else nb + ng
            nz = M.shape[1] - nx
            out = {"va": M[:, :nb]}
            if full:
                out["vm"], out["pg"], out["qg"] = M[:, nb:2 * nb], M[:, 2 * nb:2 * nb + ng], M[:, 2 * nb + ng:nx]
            else:
                out["vm"], out["pg"], out["qg"] = np.zeros((len(M), nb)), M[:, nb:nx], np.zeros((len(M), ng))
            if self.dc:
                out["vm"], out["qg"] = 0 * out["vm"], 0 * out["qg"]
            out["z"] = M[:, nx:]
            for q in ("va", "vm"):
                out[q] = out[q] * net.live
            for q in ("pg", "qg"):
                out[q] = out[q] * net.gon
            setattr(self, key, out)
            self.nz = max(self.nz, nz)
        if self.A is not None:
            self.lo, self.up = np.array(orig["l"], float), np.array(orig["u"], float)
        if self.N is not None:
            nw = len(self.N["va"])
            self.Cw = np.array(orig["Cw"], float)
            H = orig.get("H")
            self.H = np.zeros((nw, nw)) if H is None else np.asarray(H.toarray(), float)
            fp = orig.get("fparm")
            self.fp = np.tile([1.0, 0, 0, 1.0], (nw, 1)) if fp is None else np.array(fp, float)
        self.zl = np.array(orig.get("zl", -INF * np.ones(self.nz)), float)
        self.zu = np.array(orig.get("zu", INF * np.ones(self.nz)), float)

    def lin(self, M, st):
        return (M["va"] @ st["va"] + M["vm"] @ st["vm"] + M["pg"] @ st["pg"] + M["qg"] @ st["qg"]
                + (M["z"] @ st["z"] if self.nz else 0.0))

    def ucost(self, st):
        """User cost and its gradient with respect to each variable block."""
        if self.N is None:
            return 0.0, None
        r = self.lin(self.N, st) - self.fp[:, 1]
        dd, kk, mm = self.fp[:, 0], self.fp[:, 2], self.fp[:, 3]
        rr = np.where(r < -kk, r + kk, np.where(r > kk, r - kk, 0.0 * r))
        act = (r < -kk) | (r > kk) | (kk == 0)
        rr, mm = np.where(act, rr, 0.0), np.where(act, mm, 0.0)
        lin = dd == 1
        w = mm * np.where(lin, rr, rr * rr)
        dw = mm * np.where(lin, 1.0, 2 * rr)
        f = 0.5 * w @ self.H @ w + self.Cw @ w
        gw = (0.5 * (self.H + self.H.T) @ w + self.Cw) * dw
        grad = {q: gw @ self.N[q] for q in ("va", "vm", "pg", "qg", "z")}
        return f, grad

    def state(self, res, after=0):
        """after: variables which added features keep behind the user's own."""
        bus, gen = res["bus"], res["gen"]
        nx = len(res["x"]) - after
        st = {"va": bus[:, 8] * np.pi / 180, "vm": bus[:, 7].copy(),
              "pg": np.where(self.net.gon, gen[:, 1], 0) / self.base,
              "qg": np.where(self.net.gon, gen[:, 2], 0) / self.base,
              "z": np.asarray(res["x"][nx - self.nz:nx], float) if self.nz else np.zeros(0)}
        return st

    def cost(self, gen):
        t = 0.0
        for k in self.g:
            t += cost_at(self.pc[k], gen[k, 1])
            if self.qc is not None:
                t += cost_at(self.qc[k], gen[k, 2])
        return t


def static(orig, res):
    bad = []
    for nm, cols in (("bus", list(range(0, 7)) + [9, 10, 11, 12]), ("gen", [0, 3, 4] + list(range(6, 21))),
                     ("branch", range(13))):
        a, b = np.array(orig[nm], float), np.array(res[nm], float)
        if len(a) != len(b):
            bad.append("%s has %d rows, caller passed %d" % (nm, len(b), len(a)))
            continue
        for c in cols:
            if c < a.shape[1] and not np.array_equal(a[:, c], b[:, c], equal_nan=True):
                k = int(np.argmax(~(a[:, c] == b[:, c])))
                bad.append("%s row %d column %d: caller passed %r, result says %r" % (nm, k, c, a[k, c], b[k, c]))
    if float(orig["baseMVA"]) != float(np.asarray(res["baseMVA"]).ravel()[0]):
        bad.append("baseMVA changed")
    return bad


def check(orig, res, opt, dc, ext=None):
    """List of (class, message).

    ext holds what added features contribute: R and muR (capacity taken from each unit's PMAX, and the
    multiplier of that constraint), rows (linear constraints on the bus angles with limits and multipliers),
    x, slack, mult (magnitudes that enter the solver's termination tests), cost, npwl (piecewise linear cost terms)
    and vars (variables kept behind the user's own)."""
    ext = ext or {}
    m = Opf(orig, dc, opt)
    taken, mur = ext.get("R", np.zeros(m.ng)), ext.get("muR", np.zeros(m.ng))
    if "rows" in ext:
        va = ext["rows"]["va"] * m.net.live
        if m.A is None:
            m.A = {"va": np.zeros((0, m.nb)), "vm": np.zeros((0, m.nb)), "pg": np.zeros((0, m.ng)), "qg": np.zeros((0, m.ng)),
                   "z": np.zeros((0, m.nz))}
            m.lo = m.up = np.zeros(0)
        m.A = {q: np.vstack([M, va if q == "va" else np.zeros((len(va), M.shape[1]))]) for q, M in m.A.items()}
        m.lo, m.up = np.r_[m.lo, ext["rows"]["lo"]], np.r_[m.up, ext["rows"]["up"]]
    net, base = m.net, m.base
    bad = [("data-changed", x) for x in static(orig, res)]
    if any("rows" in x for _, x in bad):
        return bad, {}
    bus, gen, br = (np.array(res[k], float) for k in ("bus", "gen", "branch"))
    lb, on = net.lb, m.g
    need = [bus[lb][:, [8] if dc else [7, 8]], gen[on][:, [1] if dc else [1, 2]],
            br[net.bon][:, 13:17], bus[lb][:, 13:15]]
    if not all(np.all(np.isfinite(a)) for a in need) or not np.isfinite(res["f"]):
        return bad + [("not-finite", "solved dispatch contains non-finite numbers")], {}
    st = m.state(res, ext.get("vars", 0))
    V = bus[:, 7] * np.exp(1j * st["va"])
    # -- out of service
    for k in range(m.ng):
        if not net.gon[k] and np.any(gen[k, [1, 2]] != 0):
            bad.append(("out-of-service", "unit row %d is out of service but reports %r" % (k, gen[k, 1:3].tolist())))
    for k in range(m.nl):
        if not net.bon[k] and np.any(br[k, 13:17] != 0):
            bad.append(("out-of-service", "branch row %d is out of service but reports flow" % k))
    for i in range(m.nb):
        if not net.live[i] and not np.array_equal(bus[i, :13], net.bus[i, :13]):
            bad.append(("out-of-service", "isolated bus row %d changed" % i))
    # -- angle reference
    for i in lb:
        if net.bus[i, 1] == 3 and abs(bus[i, 8] - net.bus[i, 8]) > 1e-4 + 180 * m.feastol * 40:
            bad.append(("reference", "reference bus row %d angle %r, caller set %r" % (i, bus[i, 8], net.bus[i, 8])))
    # -- flows
    if dc:
        pf = ref.dc_flows(net, bus[:, 8])
        sf, s_t = pf + 0j, -pf + 0j
    else:
        sf, s_t = net.flows(V)
    sc = 1 + (np.max(np.abs(sf)) if m.nl else 0)
    for k in range(m.nl):
        if net.bon[k]:
            want = np.array([sf[k].real, sf[k].imag, s_t[k].real, s_t[k].imag])
            if np.max(np.abs(br[k, 13:17] - want)) > 1e-6 * sc:
                bad.append(("flows", "branch row %d reports %r, its voltages imply %r" % (k, br[k, 13:17].tolist(), want.tolist())))
    # -- scales of the termination test
    ys = [abs(cost_at(m.pc[k], gen[k, 1])) for k in on if m.pc[k, 0] == 1]
    if m.qc is not None:
        ys += [abs(cost_at(m.qc[k], gen[k, 2])) for k in on if m.qc[k, 0] == 1]
    xn = max([1e-9] + [abs(v) for v in st["va"][lb]] + ([] if dc else [abs(v) for v in st["vm"][lb]])
             + [abs(v) for v in st["pg"]] + [abs(v) for v in st["qg"]] + [abs(v) for v in st["z"]] + ys
             + list(ext.get("x", ())))
    ineq = []  # (slack in solver units, label, multiplier in $ per unit of slack or None)

    def lim(label, val, hi, mu=None, cls="limit"):
        """val <= hi in solver units."""
        if hi < 1e10:
            ineq.append((hi - val, label, mu, cls))
    B = base
    capped = set()    # units whose P/Q multipliers include a capability curve's
    if not dc:
        capped = {k for k in on if net.gen[k, 10] != net.gen[k, 11]}
    for k in on:
        cls = "capped" if k in capped else "limit"
        lim("PG of unit row %d above PMAX" % k, st["pg"][k], (net.gen[k, 8] - taken[k]) / B, (gen[k, 21] + mur[k]) * B, cls)
        lim("PG of unit row %d below PMIN" % k, -st["pg"][k], -net.gen[k, 9] / B, gen[k, 22] * B, cls)
        if not dc:
            lim("QG of unit row %d above QMAX" % k, st["qg"][k], net.gen[k, 3] / B, gen[k, 23] * B, cls)
            lim("QG of unit row %d below QMIN" % k, -st["qg"][k], -net.gen[k, 4] / B, gen[k, 24] * B, cls)
    if not dc:
        for i in lb:
            lim("VM of bus row %d above VMAX" % i, st["vm"][i], net.bus[i, 11], bus[i, 15])
            lim("VM of bus row %d below VMIN" % i, -st["vm"][i], -net.bus[i, 12], bus[i, 16])
    fl = 0 if dc else opt["OPF_FLOW_LIM"]
    lims = [k for k in range(m.nl) if net.bon[k] and net.br[k, 5] != 0 and net.br[k, 5] < 1e10]
    flowval = {}
    for k in lims:
        r = net.br[k, 5] / B
        if dc:
            p = sf[k].real / B
            lim("flow of branch row %d above its rating" % k, p, r, br[k, 17] * B)
            lim("reverse flow of branch row %d above its rating" % k, -p, r, br[k, 18] * B)
        else:
            a, b = sf[k] / B, s_t[k] / B
            if fl == 1:
                a, b = a.real, b.real
            elif fl == 2:
                a, b = abs(a) / abs(V[net.fb[k]]), abs(b) / abs(V[net.tb[k]])
            flowval[k] = (a, b)
            for v, end, c in ((a, "from", 17), (b, "to", 18)):
                # multiplier of the squared limit
                lim("%s-end flow of branch row %d above its rating" % (end, k), abs(v) ** 2, r * r, br[k, c] * B / (2 * r))
    ang = []
    if not opt["OPF_IGNORE_ANG_LIM"]:
        for k in range(m.nl):
            if not net.bon[k]:
                continue
            lo, hi = net.br[k, 11], net.br[k, 12]
            if (lo != 0 and lo > -360) or (hi != 0 and hi < 360):
                d = (st["va"][net.fb[k]] - st["va"][net.tb[k]])
                ang.append(k)
                has = br.shape[1] > 20
                if hi != 0:
                    lim("angle difference of branch row %d above ANGMAX" % k, d, hi * np.pi / 180,
                        br[k, 20] * 180 / np.pi if has else None)
                if lo != 0:
                    lim("angle difference of branch row %d below ANGMIN" % k, -d, -lo * np.pi / 180,
                        br[k, 19] * 180 / np.pi if has else None)
    eq = []
    isl = (net.gen[:, 9] < 0) & (net.gen[:, 8] == 0)
    special = set()   # units whose P/Q multipliers include joint constraints
    if not dc:
        for k in on:
            if isl[k] and (net.gen[k, 3] != 0 or net.gen[k, 4] != 0):
                q = net.gen[k, 3] if net.gen[k, 4] == 0 else net.gen[k, 4]
                th = np.arctan2(q / B, net.gen[k, 9] / B)
                eq.append((np.sin(th) * st["pg"][k] - np.cos(th) * st["qg"][k], "power factor of dispatchable load row %d" % k))
                special.add(k)
            p1, p2 = net.gen[k, 10], net.gen[k, 11]
            if p1 != p2:
                for hi, (q1, q2) in ((True, net.gen[k, [13, 15]]), (False, net.gen[k, [12, 14]])):
                    at = q1 + (net.gen[k, 8] - p1) * (q2 - q1) / (p2 - p1)
                    if (hi and at < net.gen[k, 3]) or (not hi and at > net.gen[k, 4]):
                        s = (q2 - q1) / (p2 - p1)
                        val = (gen[k, 2] - (q1 + s * (gen[k, 1] - p1))) / B
                        nrm = np.hypot(1.0, s)
                        lim("capability curve of unit row %d violated" % k, (val if hi else -val) / nrm, 0.0)
    if m.A is not None:
        v = m.lin(m.A, st)
        for j in range(len(v)):
            if m.lo[j] == m.up[j]:
                eq.append((v[j] - m.lo[j], "user constraint %d" % j))
            else:
                lim("user constraint %d above its limit" % j, v[j], m.up[j], cls="user")
                lim("user constraint %d below its limit" % j, -v[j], -m.lo[j], cls="user")
    for j in range(m.nz):
        lim("user variable %d above its limit" % j, st["z"][j], m.zu[j], cls="user")
        lim("user variable %d below its limit" % j, -st["z"][j], -m.zl[j], cls="user")
    yslack = 0.0
    for rows, pv in ((m.pc, gen[:, 1]), (m.qc, gen[:, 2])):
        if rows is None:
            continue
        for k in on:
            if rows[k, 0] == 1:
                n = int(rows[k, 3])
                xs, yy = rows[k, 4:4 + 2 * n:2], rows[k, 5:5 + 2 * n:2]
                top = cost_at(rows[k], pv[k])
                for j in range(n - 1):
                    s = (yy[j + 1] - yy[j]) / (xs[j + 1] - xs[j])
                    yslack = max(yslack, top - (yy[j] + s * (pv[k] - xs[j])))
    zmax = max([s for s, *_ in ineq] + [yslack, 0.0] + list(ext.get("slack", ())))
    ftol = 1.2 * m.feastol * (1 + max(xn, zmax)) + 1e-9
    for s, label, mu, cls in ineq:
        if not s >= -ftol:
            bad.append(("user" if cls == "user" else "limit", "%s by %.4g p.u. (tolerance %.3g)" % (label, -s, ftol)))
    for v, label in eq:
        if not abs(v) <= ftol:
            bad.append(("equality", "%s off by %.4g p.u. (tolerance %.3g)" % (label, v, ftol)))
    # -- balance
    inj = np.zeros(m.nb, complex)
    for k in on:
        inj[net.gbus[k]] += gen[k, 1] + (0 if dc else 1j * gen[k, 2])
    for i in lb:
        inj[i] -= net.bus[i, 2] + (net.bus[i, 4] if dc else
                                   1j * net.bus[i, 3] + abs(V[i]) ** 2 * (net.bus[i, 4] - 1j * net.bus[i, 5]))
    for k in range(m.nl):
        if net.bon[k]:
            inj[net.fb[k]] -= sf[k]
            inj[net.tb[k]] -= s_t[k]
    for i in lb:
        e = max(abs(inj[i].real), 0 if dc else abs(inj[i].imag)) / B
        if not e <= ftol:
            bad.append(("imbalance", "bus row %d off balance by %.6g%+.6gj MVA (tolerance %.3g)" % (i, inj[i].real, inj[i].imag, ftol * B)))
    # -- objective
    uf, ug = m.ucost(st)
    want = m.cost(gen) + uf + ext.get("cost", 0.0)
    ctol = 1.2 * m.comptol * (1 + xn) / m.cm
    npwl = len(ys) + ext.get("npwl", 0)
    otol = 1e-7 * (1 + abs(want)) + (ctol + npwl * ftol if npwl else 0)
    if not abs(res["f"] - want) <= otol:
        bad.append(("objective", "objective reported as %.9g, the dispatch costs %.9g" % (res["f"], want)))
    # -- prices
    lamp, lamq = bus[:, 13], bus[:, 14]
    umu = None
    if m.A is not None:
        try:
            um = res["lin"]["mu"]
            umu = np.zeros(0)
            if orig.get("A") is not None:
                umu = np.asarray(um["u"]["usr"], float) - np.asarray(um["l"]["usr"], float)
            if "rows" in ext:
                umu = np.r_[umu, ext["rows"]["mu"]]
        except Exception:
            bad.append(("user-price", "no multipliers reported for the user constraints"))
    mults = [abs(x) * B for x in lamp[lb]] + ([] if dc else [abs(x) * B for x in lamq[lb]])
    for s, label, mu, cls in ineq:
        if mu is not None:
            mults.append(abs(mu))
            if mu < -1e-6 * (1 + abs(mu)):
                bad.append(("multiplier-sign", "multiplier of '%s' is %g" % (label, mu)))
            if cls != "capped" and mu * s > 2 * ctol + abs(mu) * ftol:
                bad.append(("complementarity", "'%s' has slack %.4g p.u. and multiplier %.4g" % (label, s, mu)))
    if umu is not None:
        mults += [abs(x) for x in umu]
    mults += [0.0] + [abs(x) for x in ext.get("mult", ())]
    gtol = 2.0 * m.gradtol * (1 / m.cm + max(mults)) + 1e-6
    mt = 1.05e-5 / m.cm   # multipliers below the solver's threshold are reported as zero
    pos = {}
    for k in on:
        d = ug["pg"][k] / B if ug is not None else 0.0
        if umu is not None:
            d += umu @ m.A["pg"][:, k] / B
        net_p = lamp[net.gbus[k]] - gen[k, 21] - mur[k] + gen[k, 22] - d
        eps = 0.02 * max(1.0, net.gen[k, 8] - net.gen[k, 9])
        lo, hi = slope_range(m.pc[k], gen[k, 1], eps)
        tol = (gtol + 2 * mt) / B
        if m.A is not None:
            tol += mt * (np.sum(np.abs(m.A["pg"][:, k])) + np.sum(np.abs(m.A["qg"][:, k]))) / B
        if m.pc[k, 0] == 1:
            # the segment weights sum to one only within the gradient tolerance
            tol += max(abs(lo), abs(hi)) * gtol
        if k in special:
            continue
        if not lo - tol <= net_p <= hi + tol:
            bad.append(("price-P", "unit row %d marginal cost is %.6g..%.6g, price less limit multipliers is %.6g (tolerance %.3g)"
                        % (k, lo, hi, net_p, tol)))
        if not dc:
            net_q = lamq[net.gbus[k]] - gen[k, 23] + gen[k, 24] - ((ug["qg"][k] / B if ug is not None else 0.0)
                                                                  + (umu @ m.A["qg"][:, k] / B if umu is not None else 0.0))
            lo = hi = 0.0
            if m.qc is not None:
                lo, hi = slope_range(m.qc[k], gen[k, 2], 0.02 * max(1.0, net.gen[k, 3] - net.gen[k, 4]))
                if m.qc[k, 0] == 1:
                    tol += max(abs(lo), abs(hi)) * gtol
            if not lo - tol <= net_q <= hi + tol:
                bad.append(("price-Q", "unit row %d reactive marginal cost is %.6g..%.6g, price less multipliers is %.6g (tolerance %.3g)"
                            % (k, lo, hi, net_q, tol)))
    # -- network stationarity
    gva, gvm = np.zeros(m.nb), np.zeros(m.nb)
    sva, svm = np.zeros(m.nb), np.full(m.nb, 2 * mt)   # reach of zeroed multipliers
    if dc:
        for k in range(m.nl):
            if net.bon[k]:
                b = ref.dc_b(net, k)
                f, t = net.fb[k], net.tb[k]
                if k in lims:
                    sva[f] += mt * abs(b)
                    sva[t] += mt * abs(b)
                w = B * (lamp[f] - lamp[t]) * b
                if k in lims:
                    w += B * (br[k, 17] - br[k, 18]) * b
                gva[f] += w
                gva[t] -= w
    else:
        lv = V[lb]
        Y = net.ybus()
        I = Y @ lv
        dVa = 1j * np.diag(lv) @ np.conj(np.diag(I) - Y @ np.diag(lv))
        E = np.diag(lv / np.abs(lv))
        dVm = np.diag(lv) @ np.conj(Y @ E) + np.conj(np.diag(I)) @ E
        l1, l2 = lamp[lb] * B, lamq[lb] * B
        gva[lb] = l1 @ dVa.real + l2 @ dVa.imag
        gvm[lb] = l1 @ dVm.real + l2 @ dVm.imag + bus[lb, 15] - bus[lb, 16]
        h = 1e-6
        for k in lims:
            r = net.br[k, 5] / B
            mf, m2 = br[k, 17] * B / (2 * r), br[k, 18] * B / (2 * r)
            yff, yft, ytf, ytt = net.branch_adm(k)
            f, t = net.fb[k], net.tb[k]

            def val(x, mf=mf, m2=m2):
                vf, vt = x[2] * np.exp(1j * x[0]), x[3] * np.exp(1j * x[1])
                i1, i2 = yff * vf + yft * vt, ytf * vf + ytt * vt
                if fl == 2:
                    return np.array([abs(i1) ** 2, abs(i2) ** 2])
                a, b2 = vf * np.conj(i1), vt * np.conj(i2)
                if fl == 1:
                    return np.array([a.real ** 2, b2.real ** 2])
                return np.array([abs(a) ** 2, abs(b2) ** 2])
            x0 = np.array([st["va"][f], st["va"][t], st["vm"][f], st["vm"][t]])
            for q, (arr, sl, idx) in enumerate(((gva, sva, f), (gva, sva, t), (gvm, svm, f), (gvm, svm, t))):
                e = np.zeros(4)
                e[q] = h
                d = (val(x0 + e) - val(x0 - e)) / (2 * h)
                arr[idx] += d @ [mf, m2]
                sl[idx] += mt * np.sum(np.abs(d))
    if ang and br.shape[1] > 20:
        for k in ang:
            sva[[net.fb[k], net.tb[k]]] += mt
            d = (br[k, 20] - br[k, 19]) * 180 / np.pi
            gva[net.fb[k]] += d
            gva[net.tb[k]] -= d
    if umu is not None:
        gva += umu @ m.A["va"]
        gvm += umu @ m.A["vm"]
        sva += mt * np.sum(np.abs(m.A["va"]), axis=0)
        svm += mt * np.sum(np.abs(m.A["vm"]), axis=0)
    if ug is not None:
        gva += ug["va"]
        gvm += ug["vm"]
    vt = gtol * 1.5 + 1e-5 * max(mults)
    for i in lb:
        if net.bus[i, 1] != 3 and not abs(gva[i]) <= vt + sva[i]:
            bad.append(("price-network", "prices are not stationary in the angle of bus row %d: %.5g $/rad (tolerance %.3g)" % (i, gva[i], vt + sva[i])))
        if not dc and not abs(gvm[i]) <= vt + svm[i]:
            bad.append(("price-voltage", "prices are not stationary in the voltage of bus row %d: %.5g (tolerance %.3g)" % (i, gvm[i], vt + svm[i])))
    return bad[:20], {"cost": want, "ftol": ftol, "gtol": gtol / B, "ctol": ctol, "mt": mt / B, "st": st, "m": m}


def dc_feasible(orig, opt, margin=1e-4, ext=None):
    """True when the DC problem has a point at least margin (p.u.) inside every
    inequality; False when it has none at all; None in between.

    ext adds n variables with bounds lb, ub: le rows (angles, outputs, added variables, limit), their
    part bal of the bus balances (outflow) and its constant.  All in p.u."""
    from scipy.optimize import linprog
    m = Opf(orig, True, opt)
    net, B, nb, ng, nz = m.net, m.base, m.nb, m.ng, m.nz
    ne = ext["n"] if ext else 0
    nx = nb + ng + nz + ne
    zero = ref.dc_flows(net, np.zeros(nb))
    rows, rhs = [], []
    bal, br = np.zeros((nb, nx)), np.zeros(nb)

    def le(row, v):
        if v < 1e10:
            rows.append(row)
            rhs.append(v)
    for k in range(m.nl):
        if not net.bon[k]:
            continue
        b, f, t, c = ref.dc_b(net, k), net.fb[k], net.tb[k], zero[k] / B
        row = np.zeros(nx)
        row[f], row[t] = b, -b
        bal[f] += row
        bal[t] -= row
        br[f] -= c
        br[t] += c
        r = net.br[k, 5]
        if r != 0 and r < 1e10:
            le(row, r / B - c)
            le(-row, r / B + c)
        if not opt["OPF_IGNORE_ANG_LIM"]:
            lo, hi = net.br[k, 11], net.br[k, 12]
            d = np.zeros(nx)
            d[f], d[t] = 1, -1
            if (lo != 0 and lo > -360) or (hi != 0 and hi < 360):
                if hi != 0:
                    le(d, hi * np.pi / 180)
                if lo != 0:
                    le(-d, -lo * np.pi / 180)
    for k in m.g:
        bal[net.gbus[k], nb + k] -= 1
    for i in net.lb:
        br[i] -= (net.bus[i, 2] + net.bus[i, 4]) / B
    if m.A is not None:
        M = np.hstack([m.A["va"], m.A["pg"], m.A["z"], np.zeros((len(m.lo), ne))])
        for j in range(len(M)):
            if m.lo[j] == m.up[j]:
                return None
            le(M[j], m.up[j])
            if m.lo[j] > -1e10:
                le(-M[j], -m.lo[j])
    if ext:
        for va, pg, e, v in ext["le"]:
            le(np.r_[np.asarray(va) * net.live, np.asarray(pg) * net.gon, np.zeros(nz), e], v)
        bal[:, nx - ne:] += ext["bal"]
        br -= ext["const"]
    lb, ub = np.full(nx, -np.inf), np.full(nx, np.inf)
    for i in range(nb):
        if net.bus[i, 1] == 3:
            lb[i] = ub[i] = net.bus[i, 8] * np.pi / 180
        elif not net.live[i]:
            lb[i] = ub[i] = 0
    for k in range(ng):
        lb[nb + k], ub[nb + k] = (net.gen[k, 9] / B, net.gen[k, 8] / B) if net.gon[k] else (0, 0)
    lb[nb + ng:nx - ne], ub[nb + ng:nx - ne] = m.zl, m.zu
    if ext:
        lb[nx - ne:], ub[nx - ne:] = ext["lb"], ext["ub"]
    for shrink in (margin, 0.0):
        w = np.where(ub - lb > 0, shrink, 0.0)
        if np.any(lb + w > ub - w):
            continue
        r = linprog(np.zeros(nx), A_ub=np.array(rows) if rows else None,
                    b_ub=np.array(rhs) - shrink if rows else None, A_eq=bal[net.lb], b_eq=br[net.lb],
                    bounds=np.c_[lb + w, ub - w], method="highs")
        if r.status == 0:
            return True if shrink else None
    return False
