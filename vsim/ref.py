"""Independent executable reference model of the network physics.

Written from the case-format documentation only: dense complex arithmetic on
the caller's external data, no pypower code."""
import numpy as np
import scipy.linalg as sl

PQ, PV, REF, NONE = 1, 2, 3, 4


class Net:
    """Live part of a case, in external terms."""

    def __init__(self, ppc):
        self.base = float(ppc["baseMVA"])
        self.bus, self.gen, self.br = (np.array(ppc[k], float) for k in ("bus", "gen", "branch"))
        self.ids = [int(x) for x in self.bus[:, 0]]
        self.row = {b: i for i, b in enumerate(self.ids)}
        self.live = self.bus[:, 1] != NONE
        self.lb = [i for i in range(len(self.bus)) if self.live[i]]
        self.pos = {i: k for k, i in enumerate(self.lb)}
        self.gbus = np.array([self.row[int(x)] for x in self.gen[:, 0]], int)
        self.fb = np.array([self.row[int(x)] for x in self.br[:, 0]], int)
        self.tb = np.array([self.row[int(x)] for x in self.br[:, 1]], int)
        self.gon = np.array([self.gen[k, 7] > 0 and self.live[self.gbus[k]]
                             for k in range(len(self.gen))], bool)
        self.bon = np.array([int(self.br[k, 10]) != 0 and self.live[self.fb[k]] and self.live[self.tb[k]]
                             for k in range(len(self.br))], bool)

    def branch_adm(self, k):
        b = self.br[k]
        ys = 1.0 / (b[2] + 1j * b[3])
        tap = b[8] if b[8] != 0 else 1.0
        t = tap * np.exp(1j * np.pi / 180 * b[9])
        ytt = ys + 1j * b[4] / 2
        yff = ytt / (tap * tap)
        yft = -ys / np.conj(t)
        ytf = -ys / t
        return yff, yft, ytf, ytt

    def flows(self, V):
        """Complex MVA flows at both ends for V over all buses (0 if out)."""
        n = len(self.br)
        sf = np.zeros(n, complex)
        st = np.zeros(n, complex)
        for k in range(n):
            if not self.bon[k]:
                continue
            yff, yft, ytf, ytt = self.branch_adm(k)
            vf, vt = V[self.fb[k]], V[self.tb[k]]
            sf[k] = vf * np.conj(yff * vf + yft * vt) * self.base
            st[k] = vt * np.conj(ytf * vf + ytt * vt) * self.base
        return sf, st

    def ybus(self):
        n = len(self.lb)
        Y = np.zeros((n, n), complex)
        for k in range(len(self.br)):
            if not self.bon[k]:
                continue
            yff, yft, ytf, ytt = self.branch_adm(k)
            f, t = self.pos[self.fb[k]], self.pos[self.tb[k]]
            Y[f, f] += yff
            Y[f, t] += yft
            Y[t, f] += ytf
            Y[t, t] += ytt
        for k, i in enumerate(self.lb):
            Y[k, k] += (self.bus[i, 4] + 1j * self.bus[i, 5]) / self.base
        return Y

    def types(self):
        has = set(self.gbus[self.gon])
        ref = [i for i in self.lb if self.bus[i, 1] == REF and i in has]
        pv = [i for i in self.lb if self.bus[i, 1] == PV and i in has]
        pq = [i for i in self.lb if i not in ref and i not in pv]
        return ref, pv, pq

    def sinj(self, gen=None):
        """Scheduled injection per live bus, p.u."""
        gen = self.gen if gen is None else gen
        s = np.zeros(len(self.lb), complex)
        for k in range(len(gen)):
            if self.gon[k]:
                s[self.pos[self.gbus[k]]] += gen[k, 1] + 1j * gen[k, 2]
        for k, i in enumerate(self.lb):
            s[k] -= self.bus[i, 2] + 1j * self.bus[i, 3]
        return s / self.base

    def v0(self):
        V = np.array([self.bus[i, 7] * np.exp(1j * np.pi / 180 * self.bus[i, 8]) for i in self.lb])
        ref, pv, pq = self.types()
        vc = set(ref) | set(pv)
        for k in range(len(self.gen)):
            if self.gon[k] and self.gbus[k] in vc:
                p = self.pos[self.gbus[k]]
                V[p] = self.gen[k, 5] * V[p] / abs(V[p])
        return V

    def setpoints(self):
        """bus row -> set of allowed VM at regulated buses."""
        ref, pv, pq = self.types()
        d = {}
        for k in range(len(self.gen)):
            if self.gon[k] and self.gbus[k] in set(ref) | set(pv):
                d.setdefault(self.gbus[k], set()).add(self.gen[k, 5])
        return d

    def islands_ok(self):
        """Live buses form one connected component."""
        if not self.lb:
            return False
        adj = {i: [] for i in self.lb}
        for k in range(len(self.br)):
            if self.bon[k]:
                adj[self.fb[k]].append(self.tb[k])
                adj[self.tb[k]].append(self.fb[k])
        seen, todo = {self.lb[0]}, [self.lb[0]]
        while todo:
            for v in adj[todo.pop()]:
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        return len(seen) == len(self.lb)


def newton(net, tol, max_it):
    """Reference Newton power flow.  Returns (converged, iterations, V)."""
    ref, pv, pq = net.types()
    if not ref:
        return None
    pvp = [net.pos[i] for i in pv]
    pqp = [net.pos[i] for i in pq]
    pvpq = pvp + pqp
    Y = net.ybus()
    S = net.sinj()
    V = net.v0()
    it = 0
    while True:
        mis = V * np.conj(Y @ V) - S
        F = np.concatenate([mis[pvpq].real, mis[pqp].imag])
        n = np.max(np.abs(F)) if len(F) else 0.0
        if not np.isfinite(n):
            return (False, it, V)
        if n < tol:
            return (True, it, V)
        if it >= max_it:
            return (False, it, V)
        it += 1
        I = Y @ V
        dVa = 1j * np.diag(V) @ np.conj(np.diag(I) - Y @ np.diag(V))
        E = np.diag(V / np.abs(V))
        dVm = np.diag(V) @ np.conj(Y @ E) + np.conj(np.diag(I)) @ E
        J = np.block([[dVa[np.ix_(pvpq, pvpq)].real, dVm[np.ix_(pvpq, pqp)].real],
                      [dVa[np.ix_(pqp, pvpq)].imag, dVm[np.ix_(pqp, pqp)].imag]])
        try:
            dx = -sl.solve(J, F)
        except Exception:
            return (False, it, V)
        Va, Vm = np.angle(V), np.abs(V)
        Va[pvpq] += dx[:len(pvpq)]
        Vm[pqp] += dx[len(pvpq):]
        V = Vm * np.exp(1j * Va)


def fdpf(net, tol, max_it, alg):
    """Reference fast-decoupled power flow, alg 2 = XB, 3 = BX."""
    ref, pv, pq = net.types()
    if not ref:
        return None
    pvp = [net.pos[i] for i in pv]
    pqp = [net.pos[i] for i in pq]
    pvpq = pvp + pqp

    def yb(nor, notap, noshift, nob, nosh):
        n = len(net.lb)
        Y = np.zeros((n, n), complex)
        for k in range(len(net.br)):
            if not net.bon[k]:
                continue
            b = net.br[k].copy()
            if nor:
                b[2] = 0
            if notap:
                b[8] = 0
            if noshift:
                b[9] = 0
            if nob:
                b[4] = 0
            save = net.br[k].copy()
            net.br[k] = b
            yff, yft, ytf, ytt = net.branch_adm(k)
            net.br[k] = save
            f, t = net.pos[net.fb[k]], net.pos[net.tb[k]]
            Y[f, f] += yff
            Y[f, t] += yft
            Y[t, f] += ytf
            Y[t, t] += ytt
        if not nosh:
            for k, i in enumerate(net.lb):
                Y[k, k] += (net.bus[i, 4] + 1j * net.bus[i, 5]) / net.base
        return Y
    try:
        Bp = -yb(alg == 2, True, False, True, True).imag
        Bpp = -yb(alg == 3, False, True, False, False).imag
        Y = net.ybus()
        S = net.sinj()
        V = net.v0()
        Bp = Bp[np.ix_(pvpq, pvpq)]
        Bpp = Bpp[np.ix_(pqp, pqp)]
        lp = sl.lu_factor(Bp) if len(pvpq) else None
        lq = sl.lu_factor(Bpp) if len(pqp) else None
    except Exception:
        return None
    Va, Vm = np.angle(V), np.abs(V)

    def mism():
        m = (V * np.conj(Y @ V) - S) / Vm
        return m[pvpq].real, m[pqp].imag

    def nrm(a):
        return np.max(np.abs(a)) if len(a) else 0.0
    P, Q = mism()
    it = 0
    if nrm(P) < tol and nrm(Q) < tol:
        return (True, 0, V)
    while it < max_it:
        it += 1
        if lp is not None:
            Va[pvpq] -= sl.lu_solve(lp, P)
        V = Vm * np.exp(1j * Va)
        P, Q = mism()
        if not np.isfinite(nrm(P) + nrm(Q)):
            return (False, it, V)
        if nrm(P) < tol and nrm(Q) < tol:
            return (True, it, V)
        if lq is not None:
            Vm[pqp] -= sl.lu_solve(lq, Q)
        V = Vm * np.exp(1j * Va)
        P, Q = mism()
        if not np.isfinite(nrm(P) + nrm(Q)):
            return (False, it, V)
        if nrm(P) < tol and nrm(Q) < tol:
            return (True, it, V)
    return (False, it, V)


def gauss(net, tol, max_it):
    ref, pv, pq = net.types()
    if not ref:
        return None
    pvp = [net.pos[i] for i in pv]
    pqp = [net.pos[i] for i in pq]
    Y = net.ybus()
    S = net.sinj().copy()
    V = net.v0()
    Vm = np.abs(V)
    it = 0
    while True:
        mis = V * np.conj(Y @ V) - S
        F = np.concatenate([mis[pvp + pqp].real, mis[pqp].imag])
        n = np.max(np.abs(F)) if len(F) else 0.0
        if not np.isfinite(n):
            return (False, it, V)
        if n < tol:
            return (True, it, V)
        if it >= max_it:
            return (False, it, V)
        it += 1
        for k in pqp:
            V[k] += (np.conj(S[k] / V[k]) - Y[k] @ V) / Y[k, k]
        for k in pvp:
            q = (V[k] * np.conj(Y[k] @ V)).imag
            S[k] = S[k].real + 1j * q
            V[k] += (np.conj(S[k] / V[k]) - Y[k] @ V) / Y[k, k]
        for k in pvp:
            V[k] = Vm[k] * V[k] / abs(V[k])


# --------------------------------------------------------------- checks

def static_diff(orig, res, skip_bus=(7, 8), skip_gen=(1, 2), skip_br=()):
    """Columns the analysis must not alter; returns list of messages."""
    bad = []
    for nm, ncol, skip in (("bus", 13, set(skip_bus)), ("gen", 21, set(skip_gen)), ("branch", 13, set(skip_br))):
        a, b = np.asarray(orig[nm], float), np.asarray(res[nm], float)
        if a.shape[0] != b.shape[0]:
            bad.append("%s has %d rows, caller's has %d" % (nm, b.shape[0], a.shape[0]))
            continue
        nc = min(ncol, a.shape[1])
        if b.shape[1] < nc:
            bad.append("%s lost columns" % nm)
            continue
        for c in range(nc):
            if c in skip:
                continue
            if not np.array_equal(a[:, c], b[:, c], equal_nan=True):
                i = int(np.where(~((a[:, c] == b[:, c]) | (np.isnan(a[:, c]) & np.isnan(b[:, c]))))[0][0])
                bad.append("%s row %d column %d changed from %r to %r" % (nm, i, c, a[i, c], b[i, c]))
    if float(orig["baseMVA"]) != float(res["baseMVA"]):
        bad.append("baseMVA changed")
    return bad


def check_flows(net, res, atol):
    """Reported flows equal those implied by reported voltages."""
    bad = []
    bus, br = res["bus"], res["branch"]
    V = bus[:, 7] * np.exp(1j * np.pi / 180 * bus[:, 8])
    if br.shape[1] < 17:
        return ["result has no flow columns"], V
    sf, st = net.flows(V)
    for k in range(len(br)):
        got = br[k, 13:17]
        want = np.array([sf[k].real, sf[k].imag, st[k].real, st[k].imag])
        if not np.all(np.isfinite(got)):
            bad.append("branch row %d flow not finite: %r" % (k, got.tolist()))
        elif np.max(np.abs(got - want)) > atol * (1 + np.max(np.abs(want))):
            bad.append("branch row %d reports flow %s but its voltages imply %s"
                       % (k, np.round(got, 6).tolist(), np.round(want, 6).tolist()))
    return bad, V


def check_pf(orig, res, tol, alg=1):
    """All clauses of a solved AC power flow. Returns [(class, message)]."""
    net = Net(orig)
    bad = []

    def add(c, ms):
        for m in ms:
            bad.append((c, m))
    add("data-changed", static_diff(orig, res))
    if bad and any("rows" in m or "lost" in m for _, m in bad):
        return bad
    bus, gen, br = res["bus"], res["gen"], res["branch"]
    lb = net.lb
    if not np.all(np.isfinite(bus[lb, 7:9])):
        return bad + [("not-finite", "voltages not finite")]
    fb, V = check_flows(net, res, 1e-7)
    add("flows", fb)
    # out of service
    for k in range(len(gen)):
        if not net.gon[k] and (gen[k, 1] != 0 or gen[k, 2] != 0):
            bad.append(("out-of-service", "out-of-service gen row %d reports %r" % (k, gen[k, 1:3].tolist())))
    for i in range(len(bus)):
        if not net.live[i] and not np.array_equal(bus[i, :13], net.bus[i, :13]):
            bad.append(("out-of-service", "isolated bus row %d changed" % i))
    ref, pv, pq = net.types()
    # regulated voltages
    sp = net.setpoints()
    for i, vs in sp.items():
        if min(abs(bus[i, 7] - v) for v in vs) > 1e-9:
            bad.append(("setpoint", "bus row %d regulated at %r reports VM %r" % (i, sorted(vs), bus[i, 7])))
    # reference angle
    if ref:
        for i in ref:
            d = (bus[i, 8] - net.bus[i, 8] + 180) % 360 - 180
            if abs(d) > 1e-8:
                bad.append(("ref-angle", "reference bus row %d angle %r, caller set %r" % (i, bus[i, 8], net.bus[i, 8])))
    slack = set(ref)
    nref = None
    if not ref:
        # some PV bus was promoted: exactly one may absorb the slack
        slack = set()
        moved = set()
        for k in range(len(gen)):
            if net.gon[k] and abs(gen[k, 1] - net.gen[k, 1]) > 1e-9:
                moved.add(net.gbus[k])
        if len(moved) > 1:
            bad.append(("schedule", "more than one bus absorbs slack without a reference"))
        slack = moved
        for i in moved:
            if i not in pv:
                bad.append(("schedule", "slack absorbed at bus row %d which is not PV" % i))
    for i in slack:
        ch = [k for k in range(len(gen)) if net.gon[k] and net.gbus[k] == i and abs(gen[k, 1] - net.gen[k, 1]) > 1e-9]
        if len(ch) > 1:
            bad.append(("schedule", "several units at reference bus row %d were redispatched" % i))
    for k in range(len(gen)):
        if net.gon[k] and net.gbus[k] not in slack and not abs(gen[k, 1] - net.gen[k, 1]) <= 1e-9 * (1 + abs(net.gen[k, 1])):
            bad.append(("schedule", "unit row %d scheduled at %r reports %r" % (k, net.gen[k, 1], gen[k, 1])))
    # Q schedule at PQ buses
    b = net.base
    mtol = tol * b * 1.05 + 1e-7 * max(1.0, b)
    for i in pq:
        ks = [k for k in range(len(gen)) if net.gon[k] and net.gbus[k] == i]
        if ks:
            d = sum(gen[k, 2] - net.gen[k, 2] for k in ks)
            lim = mtol * max(1.0, bus[i, 7])
            if not abs(d) <= lim:
                bad.append(("q-schedule", "units at PQ bus row %d scheduled %g MVAr in all report %g"
                            % (i, sum(net.gen[k, 2] for k in ks), sum(gen[k, 2] for k in ks))))
    # balance
    sf, st = net.flows(V)
    inj = np.zeros(len(bus), complex)
    for k in range(len(gen)):
        if net.gon[k]:
            inj[net.gbus[k]] += gen[k, 1] + 1j * gen[k, 2]
    for i in lb:
        inj[i] -= net.bus[i, 2] + 1j * net.bus[i, 3]
        inj[i] -= abs(V[i]) ** 2 * (net.bus[i, 4] - 1j * net.bus[i, 5])
    for k in range(len(br)):
        if net.bon[k]:
            inj[net.fb[k]] -= sf[k]
            inj[net.tb[k]] -= st[k]
    for i in lb:
        lim = mtol * (max(1.0, abs(V[i])) if alg in (2, 3) else 1.0)
        m = max(abs(inj[i].real), abs(inj[i].imag))
        if not m <= lim:
            bad.append(("imbalance", "bus row %d (number %d) is off balance by %.6g%+.6gj MVA (tolerance %.3g)"
                        % (i, net.ids[i], inj[i].real, inj[i].imag, lim)))
    return bad


def dc_b(net, k):
    b = net.br[k]
    tap = b[8] if b[8] != 0 else 1.0
    return 1.0 / b[3] / tap


def dc_flows(net, va_deg):
    """MW flow at from end for angles over all buses."""
    pf = np.zeros(len(net.br))
    for k in range(len(net.br)):
        if net.bon[k]:
            d = (va_deg[net.fb[k]] - va_deg[net.tb[k]] - net.br[k, 9]) * np.pi / 180
            pf[k] = dc_b(net, k) * d * net.base
    return pf


def check_dcpf(orig, res):
    net = Net(orig)
    bad = [("data-changed", m) for m in static_diff(orig, res)]
    if bad and any("rows" in m or "lost" in m for _, m in bad):
        return bad
    bus, gen, br = res["bus"], res["gen"], res["branch"]
    lb = net.lb
    if not np.all(np.isfinite(bus[lb, 8])):
        return bad + [("not-finite", "angles are not finite: %r" % bus[lb, 8].tolist()[:5])]
    pf = dc_flows(net, bus[:, 8])
    scale = 1 + float(np.max(np.abs(pf))) if len(pf) else 1.0
    for k in range(len(br)):
        if not np.all(np.isfinite(br[k, 13:17])):
            bad.append(("flows", "branch row %d flow not finite" % k))
        elif abs(br[k, 13] - pf[k]) > 1e-7 * scale or abs(br[k, 15] + pf[k]) > 1e-7 * scale or br[k, 14] != 0 or br[k, 16] != 0:
            bad.append(("flows", "branch row %d reports %r, its angles imply %r" % (k, br[k, 13:17].tolist(), pf[k])))
    for k in range(len(gen)):
        if not net.gon[k] and (gen[k, 1] != 0 or gen[k, 2] != 0):
            bad.append(("out-of-service", "out-of-service gen row %d reports %r" % (k, gen[k, 1:3].tolist())))
    for i in range(len(bus)):
        if not net.live[i] and not np.array_equal(bus[i, :13], net.bus[i, :13]):
            bad.append(("out-of-service", "isolated bus row %d changed" % i))
    for i in lb:
        if bus[i, 7] != 1:
            bad.append(("magnitude", "DC solution reports VM %r at bus row %d" % (bus[i, 7], i)))
    ref, pv, pq = net.types()
    for i in ref:
        if abs(bus[i, 8] - net.bus[i, 8]) > 1e-9 * (1 + abs(net.bus[i, 8])):
            bad.append(("ref-angle", "reference bus row %d angle %r, caller set %r" % (i, bus[i, 8], net.bus[i, 8])))
    changed = [k for k in range(len(gen)) if net.gon[k] and not abs(gen[k, 1] - net.gen[k, 1]) <= 1e-9 * (1 + abs(net.gen[k, 1]))]
    slack = set(ref) if ref else set(pv)
    per = {}
    for k in changed:
        if net.gbus[k] not in slack:
            bad.append(("schedule", "unit row %d scheduled at %r reports %r" % (k, net.gen[k, 1], gen[k, 1])))
        per[net.gbus[k]] = per.get(net.gbus[k], 0) + 1
    if any(v > 1 for v in per.values()) or (not ref and len(per) > 1):
        bad.append(("schedule", "more than one unit per reference bus redispatched"))
    for k in range(len(gen)):
        if net.gon[k] and not gen[k, 2] == net.gen[k, 2]:
            bad.append(("q-changed", "DC run changed QG of unit row %d" % k))
    inj = np.zeros(len(bus))
    for k in range(len(gen)):
        if net.gon[k]:
            inj[net.gbus[k]] += gen[k, 1]
    for i in lb:
        inj[i] -= net.bus[i, 2] + net.bus[i, 4]
    for k in range(len(br)):
        if net.bon[k]:
            inj[net.fb[k]] -= pf[k]
            inj[net.tb[k]] += pf[k]
    for i in lb:
        if not abs(inj[i]) <= 1e-6 * scale:
            bad.append(("imbalance", "bus row %d off balance by %.6g MW" % (i, inj[i])))
    return bad


def dc_solve(net, pg=None):
    """Angles (deg, all buses) of the DC power flow for the scheduled dispatch, or None."""
    n = len(net.lb)
    ref, pv, pq = net.types()
    refs = ref or pv
    if not refs:
        return None
    B = np.zeros((n, n))
    p = np.zeros(n)
    for k in range(len(net.br)):
        if net.bon[k]:
            b = dc_b(net, k)
            f, t = net.pos[net.fb[k]], net.pos[net.tb[k]]
            B[f, f] += b
            B[t, t] += b
            B[f, t] -= b
            B[t, f] -= b
            s = b * net.br[k, 9] * np.pi / 180
            p[f] += s
            p[t] -= s
    for k in range(len(net.gen)):
        if net.gon[k]:
            p[net.pos[net.gbus[k]]] += net.gen[k, 1] / net.base
    for k, i in enumerate(net.lb):
        p[k] -= (net.bus[i, 2] + net.bus[i, 4]) / net.base
    rp = [net.pos[i] for i in refs]
    keep = [k for k in range(n) if k not in rp]
    va = np.array([net.bus[i, 8] * np.pi / 180 for i in net.lb])
    try:
        va[keep] = np.linalg.solve(B[np.ix_(keep, keep)], p[keep] - B[np.ix_(keep, rp)] @ va[rp])
    except Exception:
        return None
    out = np.array(net.bus[:, 8], float)
    out[net.lb] = va * 180 / np.pi
    return out


def cpf(base, target, step, par, stop, tol, max_it, max_steps=600, adapt=None):
    """Reference continuation on the curve from base to target, with fixed step
    or, given adapt = (error tolerance, least, largest step), adaptive.

    Returns (loadings, worst corrector iteration count) when the trace reaches
    its stop rule, else None."""
    nb = Net(base)
    Y, Sb = nb.ybus(), nb.sinj()
    X = Net(target).sinj() - Sb
    b = newton(nb, tol, max_it)
    if not b or not b[0]:
        return None
    ref, pv, pq = nb.types()
    pvp, pqp = [nb.pos[i] for i in pv], [nb.pos[i] for i in pq]
    pvpq = pvp + pqp
    na, nm = len(pvpq), len(pqp)
    V, lam = b[2], 0.0
    Va, Vm = np.angle(V), np.abs(V)
    x = np.concatenate([Va[pvpq], Vm[pqp], [0.0]])

    def volt(x):
        va, vm = Va.copy(), Vm.copy()
        va[pvpq] = x[:na]
        vm[pqp] = x[na:na + nm]
        return vm * np.exp(1j * va)

    def f_and_j(x):
        V = volt(x)
        I = Y @ V
        mis = V * np.conj(I) - Sb - x[-1] * X
        dVa = 1j * np.diag(V) @ np.conj(np.diag(I) - Y @ np.diag(V))
        E = np.diag(V / np.abs(V))
        dVm = np.diag(V) @ np.conj(Y @ E) + np.conj(np.diag(I)) @ E
        J = np.block([[dVa[np.ix_(pvpq, pvpq)].real, dVm[np.ix_(pvpq, pqp)].real],
                      [dVa[np.ix_(pqp, pvpq)].imag, dVm[np.ix_(pqp, pqp)].imag]])
        F = np.concatenate([mis[pvpq].real, mis[pqp].imag])
        return F, np.hstack([J, -np.concatenate([X[pvpq].real, X[pqp].imag])[:, None]])

    def par_f(x, xp, z):
        if par == 1:
            up = x[-1] >= xp[-1]
            g = np.zeros(len(x))
            g[-1] = 1 if up else -1
            return abs(x[-1] - xp[-1]) - step, g
        if par == 2:
            d = x - xp
            g = 2 * d
            if d[-1] == 0:
                g[-1] = 1.0
            return float(d @ d) - step * step, g
        return float(z @ (x - xp)) - step, z
    z = np.zeros(len(x))
    z[-1] = 1.0
    xp = x.copy()
    lams, worst = [0.0], 0
    try:
        for _ in range(max_steps):
            _, J = f_and_j(x)
            _, g = par_f(x, xp, z)
            rhs = np.zeros(len(x))
            rhs[-1] = 1.0
            z = np.linalg.solve(np.vstack([J, g]), rhs)
            z = z / np.linalg.norm(z)
            xp, x = x, x + step * z
            x0 = x
            n = 0
            while True:
                F, J = f_and_j(x)
                p, g = par_f(x, xp, z)
                e = max(np.max(np.abs(F)) if len(F) else 0.0, abs(p))
                if not np.isfinite(e) or n > max_it:
                    return None
                if np.any(np.abs(x[:na]) > 3.0) or np.any(x[na:na + nm] < 0.02):
                    return None                # an iterate wraps its angle or collapses: no comfort
                if e < tol:
                    break
                n += 1
                x = x - np.linalg.solve(np.vstack([J, g]), np.concatenate([F, [p]]))
            worst = max(worst, n)
            l, lp = x[-1], xp[-1]
            lams.append(float(l))
            if np.max(np.abs(x - xp)) > 0.5 + 2 * step:
                return None                    # jumped along the curve
            if np.any(np.abs(x[:na]) > 3.0) or np.any(x[na:na + nm] < 0.02):
                return None                    # angle wrap or collapsed voltage: no comfort left
            if stop == "FULL":
                if abs(l) < 1e-9:
                    return lams, worst
                if l < -1e-9:
                    return None
                if l < lp and l - step < 0:
                    step, par, adapt = l, 1, None
            elif stop == "NOSE":
                if l < lp:
                    return lams, worst
            else:
                if l < lp or abs(stop - l) < 1e-9:
                    return lams, worst
                if l + step > stop:
                    step, par, adapt = stop - l, 1, None
            if adapt:
                d = np.abs(np.concatenate([x[len(pvp):], [0.0]]) - np.concatenate([x0[len(pvp):], [0.0]]))
                step = min(max(step * adapt[0] / max(np.max(d), 1e-300), adapt[1]), adapt[2])
    except np.linalg.LinAlgError:
        return None
    return None
