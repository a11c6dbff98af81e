"""Seeded case generator.

A case spec is a small JSON dict: {"gen": seed, "nb": n, "feat": [...]} or
{"stock": name, "feat": [...]}.  Every feature draws from its own
sub-generator, so dropping one while minimising leaves the rest alone.
"""
import copy
import importlib
import random

import numpy as np

FEATURES = ["shift", "taps", "shunts", "parallel", "multigen", "oosgen", "oosbranch",
            "isolated", "scramble", "shuffle", "pqgen", "negload", "base", "zeroload",
            "charging", "lossless", "widegap", "tworef", "morebranchcols", "refoff",
            "pvoff", "mus", "extracols", "areas", "flatzero", "noncontig", "zerotap1", "ints", "allpv"]

OPF_FEATURES = ["oplim", "anglim", "pwl", "pwlall", "pwl1", "linear", "polyorder", "qcost", "qpwl", "dispload",
                "pqcap", "tightv", "userA", "userz", "userN", "userNfull", "tightq", "cheapflat", "rate0", "hugecost"]

STOCK = ["case6ww", "case9", "case14", "case24_ieee_rts", "case30", "case30Q", "case39",
         "case57", "case118", "case300", "case4gs", "case30pwl"]


def R(seed, tag):
    return random.Random("%s/%s" % (seed, tag))


def stock(name):
    m = importlib.import_module("pypower." + name)
    return getattr(m, name)()


def build(spec):
    """Case dict with freshly allocated arrays."""
    if "stock" in spec:
        ppc = stock(spec["stock"])
        ppc["bus"] = ppc["bus"].astype(float)
        ppc["gen"] = ppc["gen"].astype(float)
        ppc["branch"] = ppc["branch"].astype(float)
        if "gencost" in ppc:
            ppc["gencost"] = ppc["gencost"].astype(float)
        apply_features(ppc, spec)
        return ppc
    ppc = synth(spec)
    apply_features(ppc, spec)
    return ppc


def synth(spec):
    seed, nb, feat = spec["gen"], spec["nb"], set(spec.get("feat", ()))
    r = R(seed, "core")
    base = 100.0
    bus = []
    for i in range(nb):
        pd = r.uniform(5, 40) if r.random() < 0.8 else 0.0
        qd = pd * r.uniform(0.0, 0.4)
        bus.append([i + 1, 1, round(pd, 2), round(qd, 2), 0, 0, 1 + i % 3, 1.0, 0.0, 138, 1 + i % 2, 1.1, 0.9])
    br = []

    def mk(f, t):
        x = r.uniform(0.04, 0.2)
        rr = x * r.uniform(0.08, 0.35)
        b = r.uniform(0, 0.06)
        return [f, t, round(rr, 5), round(x, 5), round(b, 5), 250, 250, 250, 0, 0, 1, -360, 360]
    for i in range(1, nb):
        j = r.randrange(max(0, i - 3), i)
        f, t = (i + 1, j + 1) if r.random() < 0.5 else (j + 1, i + 1)
        br.append(mk(f, t))
    extra = r.randrange(max(1, nb // 3), nb) if nb > 1 else 0
    have = set(tuple(sorted(b[:2])) for b in br)
    for _ in range(extra):
        f, t = r.sample(range(1, nb + 1), 2)
        if tuple(sorted((f, t))) in have:
            continue
        have.add(tuple(sorted((f, t))))
        br.append(mk(f, t))
    total = sum(b[2] for b in bus)
    ng = max(1, min(nb, r.randint(1, max(1, nb // 2))))
    gb = r.sample(range(1, nb + 1), ng)
    ref = gb[0]
    gen = []
    share = [r.uniform(0.5, 1.5) for _ in gb]
    ss = sum(share)
    for k, g in enumerate(gb):
        pg = total * share[k] / ss
        vg = round(r.uniform(0.98, 1.05), 3)
        pmax = round(pg * r.uniform(1.3, 2.5) + 20, 1)
        pmin = 0.0 if r.random() < 0.6 else round(pg * r.uniform(0.05, 0.3), 1)
        q = round(pmax * r.uniform(0.5, 1.0) + 25, 1)
        qn = round(-pmax * r.uniform(0.3, 0.8) - 25, 1)
        gen.append([g, round(pg, 2), 0, q, qn, vg, 100, 1, pmax, pmin] + [0] * 11)
        bus[g - 1][1] = 3 if g == ref else 2
        bus[g - 1][7] = vg
    gc = []
    for k in range(ng):
        c2 = round(r.uniform(0.005, 0.08), 5)
        c1 = round(r.uniform(5, 40), 3)
        c0 = round(r.uniform(0, 300), 2)
        gc.append([2, 0, 0, 3, c2, c1, c0])
    return {"version": "2", "baseMVA": base, "bus": np.array(bus, float),
            "gen": np.array(gen, float), "branch": np.array(br, float).reshape(-1, 13),
            "gencost": np.array(gc, float)}


def _connected(ppc, skip=()):
    """True if live branches connect all live buses (skip: branch rows)."""
    live = [int(b) for b in ppc["bus"][ppc["bus"][:, 1] != 4, 0]]
    adj = {b: [] for b in live}
    for k, b in enumerate(ppc["branch"]):
        if k in skip or b[10] == 0:
            continue
        f, t = int(b[0]), int(b[1])
        if f in adj and t in adj:
            adj[f].append(t)
            adj[t].append(f)
    if not live:
        return True
    seen, todo = {live[0]}, [live[0]]
    while todo:
        for v in adj[todo.pop()]:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return len(seen) == len(live)


def _addcost(gc, n0, rows):
    """gencost after appending units whose active cost rows are given."""
    if gc is None:
        return None
    if len(gc) == n0:
        return np.vstack([gc, rows])
    q = np.zeros((len(rows), gc.shape[1]))
    q[:, :7] = [2, 0, 0, 3, 0.001, 0.1, 0]
    return np.vstack([gc[:n0], rows, gc[n0:], q])


def apply_features(ppc, spec):
    seed = spec.get("gen", spec.get("fseed", 0))
    feat = set(spec.get("feat", ()))
    bus, gen, br = ppc["bus"], ppc["gen"], ppc["branch"]

    def has(x):
        return x in feat

    if has("lossless"):
        br[:, 2] = 0.0
    if has("charging"):
        r = R(seed, "charging")
        br[:, 4] = [round(r.uniform(0, 0.3), 4) for _ in br]
    if has("taps"):
        r = R(seed, "taps")
        for k in range(len(br)):
            if r.random() < 0.35:
                br[k, 8] = round(r.uniform(0.94, 1.06), 4)
    if has("zerotap1"):
        br[br[:, 8] == 0, 8] = 1.0
    if has("shift"):
        r = R(seed, "shift")
        for k in range(len(br)):
            if r.random() < 0.25:
                br[k, 9] = round(r.uniform(-8, 8), 2)
    if has("shunts"):
        r = R(seed, "shunts")
        for k in range(len(bus)):
            if r.random() < 0.4:
                bus[k, 4] = round(r.uniform(0, 6), 2)
                bus[k, 5] = round(r.uniform(-10, 20), 2)
    if has("negload"):
        r = R(seed, "negload")
        for k in range(len(bus)):
            if r.random() < 0.2:
                bus[k, 2] = -bus[k, 2] * 0.4
            if r.random() < 0.2:
                bus[k, 3] = -bus[k, 3]
    if has("zeroload"):
        r = R(seed, "zeroload")
        for k in range(len(bus)):
            if r.random() < 0.3:
                bus[k, 2] = bus[k, 3] = 0.0
    if has("parallel"):
        r = R(seed, "parallel")
        add = []
        for k in range(len(br)):
            if r.random() < 0.25:
                b = br[k].copy()
                b[2] *= r.uniform(0.8, 1.4)
                b[3] *= r.uniform(0.8, 1.4)
                if r.random() < 0.5:
                    b[0], b[1] = b[1], b[0]
                    b[9] = -b[9]
                    if b[8]:
                        b[8] = round(1.0 / b[8], 4)
                add.append(b)
        if add:
            br = ppc["branch"] = np.vstack([br, add])
    gc = ppc.get("gencost")
    ng0 = len(gen)
    if has("multigen"):
        r = R(seed, "multigen")
        ag, ac = [], []
        for k in range(ng0):
            if r.random() < 0.5:
                g = gen[k].copy()
                f = r.uniform(0.3, 0.7)
                g[1] *= f
                gen[k, 1] *= 1 - f
                g[3] *= r.uniform(0.5, 1.5)
                g[4] *= r.uniform(0.5, 1.5)
                if r.random() < 0.3:
                    g[3] = g[4] = round(r.uniform(-5, 5), 2)
                    g[2] = g[3]
                ag.append(g)
                if gc is not None:
                    c = gc[k].copy()
                    if c[0] == 2:
                        c[4:] *= r.uniform(0.9, 1.2)
                    ac.append(c)
        if ag:
            gen = ppc["gen"] = np.vstack([gen, ag])
            if gc is not None:
                gc = ppc["gencost"] = _addcost(gc, ng0, ac)
    if has("pqgen"):
        # generator in service at a PQ bus
        r = R(seed, "pqgen")
        cand = [i for i in range(len(bus)) if bus[i, 1] == 1]
        if cand:
            i = r.choice(cand)
            g = gen[0].copy()
            g[0] = bus[i, 0]
            g[1] = round(r.uniform(0, 15), 2)
            g[2] = round(r.uniform(-4, 8), 2)
            g[3], g[4], g[5], g[7], g[8], g[9] = 30, -20, 1.0, 1, 40, 0
            gen = ppc["gen"] = np.vstack([gen, g])
            if gc is not None:
                gc = ppc["gencost"] = _addcost(gc, len(gen) - 1, [gc[0]])
    if has("oosgen"):
        r = R(seed, "oosgen")
        refb = set(bus[bus[:, 1] == 3, 0])
        ag, ac = [], []
        for k in range(len(gen)):
            if r.random() < 0.35:
                g = gen[k].copy()
                g[7] = 0 if r.random() < 0.7 else -1
                g[1] = r.uniform(1, 30)
                g[2] = r.uniform(-9, 9)
                ag.append(g)
                if gc is not None:
                    ac.append(gc[k].copy() if k < len(gc) else gc[0].copy())
        if ag:
            gen = ppc["gen"] = np.vstack([gen, ag])
            if gc is not None:
                gc = ppc["gencost"] = _addcost(gc, len(gen) - len(ag), ac)
        del refb
    if has("allpv") and len(bus) <= 30:
        # a unit at every bus, no bus left without voltage control
        r = R(seed, "allpv")
        ag, ac = [], []
        for i in np.flatnonzero(bus[:, 1] == 1):
            k = r.randrange(len(gen))
            g = gen[k].copy()
            g[[0, 1, 2, 7]] = [bus[i, 0], round(r.uniform(0, 0.2) * abs(gen[k, 1]), 2), 0, 1]
            g[9] = min(g[9], g[1])
            ag.append(g)
            bus[i, 1] = 2
            if gc is not None:
                ac.append(gc[k].copy() if k < len(gc) else gc[0].copy())
        if ag:
            gen = ppc["gen"] = np.vstack([gen, ag])
            if gc is not None:
                gc = ppc["gencost"] = _addcost(gc, len(gen) - len(ag), ac)
    if has("pvoff"):
        # trip every unit at one PV bus
        r = R(seed, "pvoff")
        cand = [b for b in bus[bus[:, 1] == 2, 0]]
        if cand:
            b = r.choice(cand)
            gen[gen[:, 0] == b, 7] = 0
    if has("refoff"):
        r = R(seed, "refoff")
        pvb = [b for b in bus[bus[:, 1] == 2, 0] if np.any(gen[gen[:, 0] == b, 7] > 0)]
        if pvb:
            b = bus[bus[:, 1] == 3, 0]
            for x in b:
                gen[gen[:, 0] == x, 7] = 0
    if has("tworef"):
        r = R(seed, "tworef")
        cand = [i for i in range(len(bus)) if bus[i, 1] == 2
                and np.any(gen[gen[:, 0] == bus[i, 0], 7] > 0)]
        if cand and not has("refoff"):
            i = r.choice(cand)
            bus[i, 1] = 3
            bus[i, 8] = round(r.uniform(-3, 3), 2)
    if has("oosbranch"):
        r = R(seed, "oosbranch")
        for k in range(len(br)):
            if r.random() < 0.2:
                s = br[k, 10]
                br[k, 10] = 0
                if not _connected(ppc):
                    br[k, 10] = s
    if has("isolated"):
        r = R(seed, "isolated")
        mx = bus[:, 0].max()
        nbk = bus.shape[1]
        nbus = []
        nbr = []
        for q in range(r.randint(1, 2)):
            row = bus[r.randrange(len(bus))].copy()
            row[0] = mx + 1 + q
            row[1] = 4
            row[2:4] = [7.0, 3.0]
            row[7:9] = [0.93, -11.0]
            nbus.append(row)
            if r.random() < 0.7 and len(br):
                b = br[r.randrange(len(br))].copy()
                b[0] = row[0]
                b[10] = 1
                nbr.append(b)
            if r.random() < 0.5:
                g = gen[0].copy()
                g[0] = row[0]
                g[1], g[2], g[7] = 12.0, 3.0, 1
                gen = ppc["gen"] = np.vstack([gen, g])
                if gc is not None:
                    gc = ppc["gencost"] = _addcost(gc, len(gen) - 1, [gc[0]])
        bus = ppc["bus"] = np.vstack([bus, nbus])
        assert bus.shape[1] == nbk
        if nbr:
            br = ppc["branch"] = np.vstack([br, nbr])
    if feat & set(OPF_FEATURES) and ppc.get("gencost") is not None:
        opf_features(ppc, spec)
        bus, gen, br, gc = ppc["bus"], ppc["gen"], ppc["branch"], ppc["gencost"]
    if has("base"):
        r = R(seed, "base")
        nbse = r.choice([10.0, 50.0, 250.0, 1000.0])
        f = nbse / ppc["baseMVA"]
        br[:, 2] *= f
        br[:, 3] *= f
        br[:, 4] /= f
        ppc["baseMVA"] = nbse
    if has("areas"):
        r = R(seed, "areas")
        k = r.randint(1, 3)
        ppc["areas"] = np.array([[a + 1, bus[r.randrange(len(bus)), 0]] for a in range(k)], float)
    if has("mus"):
        r = R(seed, "mus")
        bus = ppc["bus"] = np.hstack([bus[:, :13], [[r.uniform(0, 30) for _ in range(4)] for _ in bus]])
        gen = ppc["gen"] = np.hstack([gen[:, :21], [[r.uniform(0, 3) for _ in range(4)] for _ in gen]])
        br = ppc["branch"] = np.hstack([br[:, :13], np.array([[r.uniform(-9, 9) for _ in range(8)] for _ in br]).reshape(-1, 8)])
    elif has("morebranchcols"):
        br = ppc["branch"] = np.hstack([br[:, :13], np.zeros((len(br), 4))])
    if has("noncontig") or has("scramble"):
        r = R(seed, "scramble")
        ids = [int(x) for x in bus[:, 0]]
        if has("widegap"):
            new = r.sample(range(1, 9000), len(ids))
        elif has("scramble"):
            new = r.sample(range(1, 4 * len(ids) + 1), len(ids))
        else:
            new = sorted(r.sample(range(1, 3 * len(ids) + 1), len(ids)))
        m = dict(zip(ids, new))
        bus[:, 0] = [m[int(x)] for x in bus[:, 0]]
        gen[:, 0] = [m[int(x)] for x in gen[:, 0]]
        br[:, 0] = [m[int(x)] for x in br[:, 0]]
        br[:, 1] = [m[int(x)] for x in br[:, 1]]
        if "areas" in ppc:
            ppc["areas"] = np.array(ppc["areas"], float)
            ppc["areas"][:, 1] = [m[int(x)] for x in ppc["areas"][:, 1]]
    if has("shuffle"):
        r = R(seed, "shuffle")
        p = list(range(len(bus)))
        r.shuffle(p)
        ppc["bus"] = bus[p]
        p = list(range(len(br)))
        r.shuffle(p)
        ppc["branch"] = br[p]
        p = list(range(len(gen)))
        r.shuffle(p)
        n = len(gen)
        ppc["gen"] = gen[p]
        if gc is not None:
            if len(gc) == n:
                ppc["gencost"] = gc[p]
            elif len(gc) == 2 * n:
                ppc["gencost"] = gc[p + [n + q for q in p]]
    if feat & {"userA", "userz", "userN", "userNfull"}:
        user_features(ppc, spec)
    if has("flatzero"):
        bus = ppc["bus"]
        k = bus[:, 1] == 1
        bus[k, 7] = 1.0
        k = (bus[:, 1] != 3) & (bus[:, 1] != 4)
        bus[k, 8] = 0.0
    if has("ints"):
        # a case typed in without a decimal point anywhere in its unit data
        g = ppc["gen"] = np.round(ppc["gen"]).astype(int)
        g[:, 5] = 1
        ppc["bus"][:, 6] = np.round(ppc["bus"][:, 6])


def _padcols(a, n):
    return a if a.shape[1] >= n else np.hstack([a, np.zeros((len(a), n - a.shape[1]))])


def pwl_row(r, pmin, pmax, npts, c1, scale=1.0, shift=0.0):
    """Convex piecewise linear cost row over [pmin, pmax]."""
    xs = [pmin + (pmax - pmin) * k / (npts - 1) for k in range(npts)]
    if npts > 2:
        for k in range(1, npts - 1):
            xs[k] += r.uniform(-0.25, 0.25) * (pmax - pmin) / (npts - 1)
    xs = [round(x, 3) for x in xs]
    ys, s = [shift], c1
    for k in range(1, npts):
        ys.append(ys[-1] + s * (xs[k] - xs[k - 1]))
        s = s + r.uniform(1.0, 12.0) * scale
    row = [1, 0, 0, npts]
    for x, y in zip(xs, ys):
        row += [x, round(y, 4)]
    return row


def opf_features(ppc, spec):
    """Limits and cost shapes (called before renumbering)."""
    seed = spec.get("gen", spec.get("fseed", 0))
    feat = set(spec.get("feat", ()))

    def has(x):
        return x in feat
    bus, gen, br, gc = ppc["bus"], ppc["gen"], ppc["branch"], ppc["gencost"]
    if has("dispload"):
        r = R(seed, "dispload")
        add, addc = [], []
        nw = max(gc.shape[1], 8)
        gc = _padcols(gc, nw)
        for _ in range(r.randint(1, 2)):
            i = r.choice([k for k in range(len(bus)) if bus[k, 1] != 4])
            p = round(r.uniform(5, 25), 1)
            q = round(p * r.uniform(0.1, 0.5), 2)
            mode = r.randrange(3)
            g = np.zeros(gen.shape[1])
            g[:10] = [bus[i, 0], -p, 0, 0, 0, 1.0, 100, 1, 0, -p]
            if mode == 0:
                g[4], g[2] = -q, -q
            elif mode == 1:
                g[3], g[2] = q, q
            g[5] = bus[i, 7]
            kind = r.randrange(2)
            val = r.uniform(10, 90)
            row = np.zeros(nw)
            if kind == 0:
                row[:8] = [1, 0, 0, 2, -p, -round(p * val, 3), 0, 0]
            else:
                row[:6] = [2, 0, 0, 2, round(val, 3), 0]
            add.append(g)
            addc.append(row)
        n0 = len(gen)
        gen = ppc["gen"] = np.vstack([gen, add])
        if len(gc) == 2 * n0:
            gc = np.vstack([gc[:n0], addc, gc[n0:], [[2, 0, 0, 1] + [0] * (nw - 4)] * len(add)])
        else:
            gc = np.vstack([gc, addc])
        ppc["gencost"] = gc
    ng = len(gen)
    isl = (gen[:, 9] < 0) & (gen[:, 8] == 0)
    if has("cheapflat"):
        for k in range(ng):
            if gc[k, 0] == 2 and not isl[k]:
                gc[k, 4:4 + int(gc[k, 3])] = 0
                gc[k, 3] = 3
                gc[k, 4] = 0.02
                gc[k, 5] = 20.0
    if has("hugecost"):
        for k in range(ng):
            if gc[k, 0] == 2 and not isl[k]:
                gc[k, 4:4 + int(gc[k, 3])] *= 50.0
    if has("linear"):
        r = R(seed, "linear")
        for k in range(ng):
            if gc[k, 0] == 2 and gc[k, 3] == 3 and not isl[k]:
                gc[k, 4:7] = [round(gc[k, 5] + r.uniform(0.1, 5), 3), gc[k, 6], 0]
                gc[k, 3] = 2
    if has("polyorder"):
        r = R(seed, "polyorder")
        gc = ppc["gencost"] = _padcols(gc, 8)
        for k in range(ng):
            if gc[k, 0] == 2 and gc[k, 3] == 3 and not isl[k]:
                c2, c1, c0 = gc[k, 4:7]
                m = r.randrange(4)
                if m == 0:
                    gc[k, 3:8] = [4, round(r.uniform(1e-6, 1e-4), 7), c2, c1, c0]
                elif m == 1:
                    gc[k, 3:8] = [2, c1, c0, 0, 0]
                elif m == 2:
                    gc[k, 3:8] = [4, 0, c2, c1, c0]
    for tag in ("pwl", "pwlall", "pwl1"):
        if not has(tag):
            continue
        r = R(seed, tag)
        gc = ppc["gencost"] = _padcols(gc, 14)
        for k in range(ng):
            n = 2 if tag == "pwl1" else r.choice([3, 3, 4, 5])
            if isl[k] or gc[k, 0] != 2:
                continue
            if tag != "pwlall" and r.random() < 0.5:
                continue
            lo = min(gen[k, 9], 0.0) if r.random() < 0.7 else gen[k, 9]
            row = pwl_row(r, lo, gen[k, 8] * r.choice([1.0, 1.2]), n, r.uniform(5, 35), shift=round(r.uniform(0, 200), 2))
            gc[k, :] = 0
            gc[k, :len(row)] = row
    if (has("qcost") or has("qpwl")) and len(gc) == ng:
        r = R(seed, "qcost")
        gc = _padcols(gc, 14)
        q = np.zeros((ng, gc.shape[1]))
        for k in range(ng):
            if has("qpwl") and r.random() < 0.6 and gen[k, 3] > gen[k, 4] and not isl[k]:
                lo, hi = gen[k, 4], gen[k, 3]
                row = pwl_row(r, lo, hi, r.choice([3, 4]), r.uniform(-3, -0.5), scale=0.2, shift=round(r.uniform(0, 50), 2))
                q[k, :len(row)] = row
            else:
                q[k, :7] = [2, 0, 0, 3, round(r.uniform(0.001, 0.05), 5), round(r.uniform(-0.5, 1.5), 3), 0]
        gc = ppc["gencost"] = np.vstack([gc, q])
    if has("tightv"):
        r = R(seed, "tightv")
        for k in range(len(bus)):
            if r.random() < 0.5:
                bus[k, 11] = round(max(r.uniform(1.0, 1.08), 1.0), 3)
                bus[k, 12] = round(r.uniform(0.92, 0.97), 3)
    if has("tightq"):
        r = R(seed, "tightq")
        for k in range(ng):
            if not isl[k] and r.random() < 0.5 and gen[k, 3] > gen[k, 4]:
                gen[k, 3] = round(gen[k, 3] * r.uniform(0.3, 0.8), 2)
                gen[k, 4] = round(gen[k, 4] * r.uniform(0.3, 0.8), 2)
    if has("pqcap"):
        r = R(seed, "pqcap")
        for k in range(ng):
            if isl[k] or r.random() < 0.5 or gen[k, 3] <= gen[k, 4]:
                continue
            p2 = gen[k, 8]
            gen[k, 10], gen[k, 11] = 0, p2
            gen[k, 13], gen[k, 15] = gen[k, 3], round(gen[k, 3] * r.uniform(0.2, 0.6), 2)
            if r.random() < 0.6:
                gen[k, 12], gen[k, 14] = gen[k, 4], round(gen[k, 4] * r.uniform(0.2, 0.6), 2)
            else:
                gen[k, 12], gen[k, 14] = gen[k, 4], gen[k, 4]
    if has("oplim") or has("anglim"):
        from . import ref as _ref
        net = _ref.Net(ppc)
        fl, va = None, None
        try:
            va = _ref.dc_solve(net)
            if va is not None:
                fl = _ref.dc_flows(net, va)
        except Exception:
            fl = None
        if fl is not None and np.all(np.isfinite(fl)):
            if has("oplim"):
                r = R(seed, "oplim")
                for k in range(len(br)):
                    u = r.random()
                    f = round(abs(fl[k]) * r.uniform(1.05, 1.9) + r.uniform(8, 20), 2)
                    if u < 0.6:
                        br[k, 5] = f
                    elif u < 0.7:
                        br[k, 5] = 0.0
            if has("anglim"):
                r = R(seed, "anglim")
                for k in range(len(br)):
                    if r.random() < 0.4:
                        d = va[net.fb[k]] - va[net.tb[k]]
                        m = r.randrange(4)
                        lo = round(d - r.uniform(1, 6), 2)
                        hi = round(d + r.uniform(1, 6), 2)
                        br[k, 11:13] = [(lo, hi), (lo, 360), (-360, hi), (lo, 0)][m] if lo and hi else (-360, 360)
    if has("rate0"):
        br[:, 5] = 0.0
    if has("openq"):
        r = R(seed, "openq")
        for k in range(ng):
            if not isl[k] and gen[k, 10] == gen[k, 11] and r.random() < 0.5:
                j = r.randrange(3)
                if j != 0:
                    gen[k, 3] = np.inf
                if j != 1:
                    gen[k, 4] = -np.inf
    if has("openvar"):
        # capacity that only its cost bounds, written as infinity
        r = R(seed, "openvar")
        for k in range(ng):
            if gc[k, 0] == 2 and not isl[k] and gen[k, 10] == gen[k, 11] and r.random() < 0.5:
                gen[k, 8] = np.inf
                if r.random() < 0.3 and gc[k, 3] == 3 and gc[k, 4] > 0:
                    gen[k, 9] = -np.inf


def user_features(ppc, spec):
    """User constraints and costs in external column order (AC dimensions)."""
    import scipy.sparse as sp
    seed = spec.get("gen", spec.get("fseed", 0))
    feat = set(spec.get("feat", ()))
    bus, gen = ppc["bus"], ppc["gen"]
    nb, ng, base = len(bus), len(gen), ppc["baseMVA"]
    nz = 1 + R(seed, "userz").randrange(2) if "userz" in feat else 0
    nx = 2 * nb + 2 * ng + nz
    on = [k for k in range(ng) if gen[k, 7] > 0 and gen[k, 9] >= 0
          and bus[bus[:, 0] == gen[k, 0], 1][0] != 4]
    if not on:
        return
    if "userA" in feat or "userz" in feat:
        r = R(seed, "userA")
        rows, lo, up = [], [], []
        for _ in range(r.randint(1, 3)):
            row = np.zeros(nx)
            ks = r.sample(on, min(len(on), r.randint(1, 2)))
            v = 0.0
            for k in ks:
                c = r.choice([1.0, 1.0, -1.0, 2.0])
                row[2 * nb + k] = c
                v += c * gen[k, 1] / base
            m = r.randrange(3)
            w = r.uniform(0.05, 0.5) * 100.0 / base
            rows.append(row)
            lo.append(v - w if m != 0 else -np.inf)
            up.append(v + w if m != 1 else np.inf)
        for j in range(nz):
            row = np.zeros(nx)
            row[2 * nb + r.choice(on)] = 1.0
            row[2 * nb + 2 * ng + j] = -1.0
            rows.append(row)
            lo.append(-np.inf)
            up.append(0.0)
        ppc["A"] = sp.csr_matrix(np.array(rows))
        ppc["l"] = np.array(lo)
        ppc["u"] = np.array(up)
        if nz and "openvar" in feat:
            ppc["z0"] = np.zeros(nz)
            ppc["zl"] = -2.0 * np.ones(nz) * 100.0 / base
            ppc["zu"] = np.inf * np.ones(nz)
        elif nz:
            ppc["z0"] = np.zeros(nz)
            ppc["zl"] = -2.0 * np.ones(nz) * 100.0 / base
            ppc["zu"] = 50.0 * np.ones(nz) * 100.0 / base
    if feat & {"userN", "userNfull", "userz"}:
        r = R(seed, "userN")
        rows = []
        nw = r.randint(1, 3)
        for i in range(nw):
            row = np.zeros(nx)
            for k in r.sample(on, min(len(on), r.randint(1, 2))):
                row[2 * nb + k] = r.choice([1.0, -1.0, 0.5])
            if nz and (i < nz or r.random() < 0.3):
                row[:] = 0
                row[2 * nb + 2 * ng + i % nz] = 1.0
            rows.append(row)
        ppc["N"] = sp.csr_matrix(np.array(rows))
        ppc["Cw"] = np.array([round(r.uniform(1, 200), 2) for _ in range(nw)])
        h = [round(r.uniform(0, 80), 2) if "userNfull" in feat and r.random() < 0.6 else 0.0 for _ in range(nw)]
        ppc["H"] = sp.csr_matrix(np.diag(h)) if nw > 1 else sp.csr_matrix(np.array([[h[0]]]))
        if "userNfull" in feat and r.random() < 0.7:
            ppc["fparm"] = np.array([[1, round(r.uniform(-0.5, 0.5), 3), 0, round(r.uniform(0.5, 2), 2)]
                                     for _ in range(nw)])
        # keep the user cost convex and bounded: linear terms on bounded variables only


def rand_spec(r, stock_p=0.15, maxnb=14, feats=None, nfeat=None, stocks=("case6ww", "case9", "case14", "case30")):
    feats = FEATURES if feats is None else feats
    k = r.choice([0, 1, 2, 3, 4, 5, 7, 9]) if nfeat is None else nfeat
    fl = sorted(r.sample(feats, min(k, len(feats))))
    if r.random() < stock_p:
        return {"stock": r.choice(list(stocks)), "fseed": r.randrange(10**6), "feat": fl}
    nb = r.choice([3, 4, 5, 6, 7, 8, 9, 10, 12, maxnb])
    u = r.random()
    if u < 0.03:
        nb = 1 if u < 0.01 else 2
    return {"gen": r.randrange(10**9), "nb": min(nb, maxnb), "feat": fl}


def shrink_spec(spec):
    """Smaller specs, simplest first."""
    fl = spec.get("feat", [])
    if len(fl) > 1:
        yield dict(spec, feat=[])
    for f in fl:
        yield dict(spec, feat=[x for x in fl if x != f])
    if "gen" in spec:
        for n in (3, 4, 5, 6, 8):
            if n < spec["nb"]:
                yield dict(spec, nb=n)
        if spec.get("gen", 0) > 50:
            for s in range(3):
                yield dict(spec, gen=s)
    elif spec.get("stock") not in ("case9", None):
        yield dict(spec, stock="case9")


def copy_case(ppc):
    return copy.deepcopy(ppc)
