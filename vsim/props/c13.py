"""C13 conversions between external and internal order, over a history of edits."""
import copy
import random

import numpy as np
import scipy.sparse as sp

from .. import netgen
from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C

ID = "C13"
RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("one run = a seeded history of conversions to and from internal order, data and field conversions, edits in both orders, raising "
        "callbacks, allocation failures and cancellations, mirrored on a ledger that tracks rows by identity; after every step the "
        "case is compared entry by entry with the ledger; non-trivial when at least one full round trip was checked")
REAL = ["pypower (all modules, unmodified)", "numpy", "scipy.sparse"]
STUB = ["wall clock", "stdout/stderr"]
ASSUME = ["seeded sampling, not enumeration"]
PROBES = ["to-internal", "to-external", "round-trip", "second-trip", "already-internal", "already-external", "field-converted",
          "field-restored", "nested-field", "sparse-field", "data-converted", "data-restored", "internal-edit", "external-edit",
          "callback-raised", "cancelled", "memerr", "areas", "A", "N", "dcA", "offline-rows", "deprecated-form", "old-form", "callback-field"]
FEATS = ["oosgen", "oosbranch", "isolated", "scramble", "shuffle", "multigen", "parallel", "widegap", "areas", "areas", "noncontig", "mus",
         "extracols", "pvoff", "refoff", "ints"]
ORD = [["bus"], ["gen"], ["branch"], ["gen", "gen"], ["bus", "bus", "gen", "gen"], ["bus", "gen"], ["branch", "bus"], ["gen", "branch", "bus"]]
PATHS = [["u"], ["w"], ["reserves", "cost"], ["reserves", "zones"], ["reserves", "req", "deep"], ["x", "y", "z"], ["x", "q"]]


class CallbackError(Exception):
    pass


def gen(r, tier, i):
    spec = netgen.rand_spec(r, feats=sorted(set(FEATS)), nfeat=r.choice([2, 3, 4, 6]), maxnb=9, stocks=("case9", "case6ww", "case30"))
    flds = []
    for p in r.sample(PATHS, r.choice([0, 1, 2, 3])):
        flds.append({"path": p, "ord": r.choice(ORD), "dim": r.choice([0, 0, 1]), "kind": r.choice(["1d", "2d", "2d", "csr", "csr", "int"]),
                     "rest": r.choice([0, 0, 1, 2]), "w": r.choice([1, 2, 3]), "seed": r.randrange(10**6)})
    ops = []
    for _ in range(r.choice([4, 7, 11, 16])):
        o = r.choice(["e2i", "e2i", "i2e", "i2e", "edit", "edit", "edit", "field", "field", "unfield", "unfield", "data", "undata", "raise",
                      "cancel", "gencost"])
        op = {"o": o, "s": r.randrange(10**6)}
        if o in ("raise", "cancel"):
            op["dir"] = r.choice(["e2i", "i2e"])
            op["k"] = r.choice(["KeyboardInterrupt", "MemoryError", "SimCancel"])
            op["where"] = round(r.random(), 4)
        if o in ("field", "unfield") and r.random() < 0.2:
            op["old"] = True
        ops.append(op)
    if r.random() < 0.8:
        ops.insert(0, {"o": "e2i", "s": 1})
    return {"case": spec, "fields": flds, "ops": ops, "A": r.choice(["", "", "ac", "dc"]), "N": r.random() < 0.3, "Acsr": r.random() < 0.5,
            "cost2": r.random() < 0.3, "hook": r.random() < 0.25, "old": r.random() < 0.15, "faults": []}


def getp(d, path):
    for k in path:
        d = d[k]
    return d


def setp(d, path, v):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = v


def dense(a):
    return a.toarray() if sp.issparse(a) else np.asarray(a)


class Ledger:
    """What the case should hold, by plain bookkeeping over row identities."""

    def __init__(self, ppc):
        self.c = {k: dense(ppc[k]).copy() for k in ("bus", "gen", "branch", "areas", "gencost", "A", "N") if k in ppc}
        if "areas" in self.c and not len(self.c["areas"]):
            del self.c["areas"]
        self.internal = False
        self.saved = {}
        self.dirty_cost = False

    def index(self):
        c = self.c
        bt = c["bus"][:, 1]
        live = {int(b[0]) for b in c["bus"] if b[1] != 4}
        self.on = {"bus": [i for i in range(len(bt)) if bt[i] != 4],
                   "branch": [i for i, b in enumerate(c["branch"]) if b[10] != 0 and int(b[0]) in live and int(b[1]) in live]}
        num = {int(c["bus"][i, 0]): k for k, i in enumerate(self.on["bus"])}
        g = [i for i, x in enumerate(c["gen"]) if x[7] > 0 and int(x[0]) in live]
        self.on["gen"] = sorted(g, key=lambda i: (num[int(c["gen"][i, 0])], i))
        if "areas" in c:
            self.on["areas"] = [i for i, a in enumerate(c["areas"]) if int(a[1]) in live]
        self.num = num
        self.n = {k: len(c[k]) for k in ("bus", "gen", "branch")}

    def take(self, val, order, dim):
        """Index of internal positions in external data."""
        idx, b = [], 0
        for o in order:
            idx += [b + i for i in self.on[o]]
            b += self.n[o]
        idx += list(range(b, val.shape[dim]))
        return idx

    def place(self, order, nrest):
        idx, b = [], 0
        for o in order:
            idx += [b + i for i in self.on[o]]
            b += self.n[o]
        return idx + list(range(b, b + nrest))

    def conv(self, val, order, dim):
        return np.take(val, self.take(val, order, dim), axis=dim)

    def unconv(self, val, old, order, dim):
        b = sum(self.n[o] for o in order)
        bi = sum(len(self.on[o]) for o in order)
        nrest = val.shape[dim] - bi
        shape = list(val.shape)
        shape[dim] = b + nrest
        out = np.zeros(shape, np.result_type(val, old))
        src = old if dim == 0 else old.T
        dst = out if dim == 0 else out.T
        v = val if dim == 0 else val.T
        dst[:b] = src[:b]
        for k, j in enumerate(self.place(order, nrest)):
            dst[j] = v[k]
        return out

    def to_int(self, got):
        self.index()
        # units on one bus may come in any order: take the one chosen
        ids = {float(g[6]): i for i, g in enumerate(self.c["gen"])}
        order = [ids.get(float(m), -1) for m in dense(got)[:, 6]]
        nums = [self.num[int(self.c["gen"][i, 0])] for i in order] if sorted(order) == sorted(self.on["gen"]) else [1, 0]
        if nums != sorted(nums):
            return False
        self.on["gen"] = order
        self.ext = {k: v.copy() for k, v in self.c.items()}
        c = self.c
        for k in ("bus", "branch", "areas", "gen"):
            if k in c:
                c[k] = c[k][self.on[k]]
        for k, cols in (("bus", (0,)), ("gen", (0,)), ("branch", (0, 1)), ("areas", (1,))):
            if k in c:
                for col in cols:
                    c[k][:, col] = [self.num[int(x)] for x in c[k][:, col]]
        if "gencost" in c:
            two = len(c["gencost"]) == 2 * self.n["gen"]
            c["gencost"] = self.conv(c["gencost"], ["gen", "gen"] if two else ["gen"], 0)
        nb, ng = self.n["bus"], self.n["gen"]
        w = c["A"].shape[1] if "A" in c else c["N"].shape[1] if "N" in c else 0
        order = ["bus", "gen"] if w < 2 * (nb + ng) else ["bus", "bus", "gen", "gen"]
        for k in ("A", "N"):
            if k in c:
                c[k] = self.conv(c[k], order, 1)
        self.internal = True
        return True

    def to_ext(self):
        c, e = self.c, self.ext
        back = {v: k for k, v in self.num.items()}
        for k in ("bus", "gen", "branch", "areas"):
            if k in c:
                out = e[k].astype(float).copy()
                for i, j in enumerate(self.on[k]):
                    out[j] = c[k][i]
                    for col in {"bus": (0,), "gen": (0,), "branch": (0, 1), "areas": (1,)}[k]:
                        out[j, col] = back[int(c[k][i, col])]
                c[k] = out
        for k in ("gencost", "A", "N"):
            if k in c:
                c[k] = e[k].copy()          # edits to these are documented to be dropped
        self.internal = False


def check(ctx, led, fl, ppc, what):
    want = "i" if led.internal else "e"
    st = ppc.get("order", {}).get("state", "e")
    if st != want:
        ctx.bad("wrong-state", "%s: case says state %r" % (what, st))
        return
    for k in sorted(led.c):
        if k not in ppc:
            ctx.bad("data-lost", "%s: %s is gone" % (what, k))
            return
        a, b = dense(ppc[k]), led.c[k]
        if a.shape != b.shape:
            ctx.bad("wrong-shape", "%s: %s is %s instead of %s" % (what, k, a.shape, b.shape))
            return
        if not arrays_equal(a, b):
            w = np.argwhere(~((a == b) | ((a != a) & (b != b))))[0]
            ctx.bad("wrong-%s" % k, "%s: %s[%d, %d] is %r instead of %r" % (what, k, w[0], w[1], a[tuple(w)], b[tuple(w)]))
            return
    for f in fl:
        try:
            a = dense(getp(ppc, f["path"]))
        except KeyError:
            ctx.bad("field-lost", "%s: %s is gone" % (what, f["path"]))
            return
        b = f["cur"]
        if a.shape != b.shape or not arrays_equal(a, b):
            w = np.argwhere(a != b)[0].tolist() if a.shape == b.shape else [a.shape, b.shape]
            ctx.bad("wrong-field", "%s: field %s (%s, dim %d, %s) differs at %s" % (what, f["path"], f["ord"], f["dim"], f["kind"], w))
            return
    if not arrays_equal(ppc["marker"]["arr"], np.arange(5.0)) or ppc["marker"]["s"] != "keep":
        ctx.bad("user-data-changed", what)


def value(r, led, order, dim, kind, rest, w):
    n = sum(led.n[o] for o in order) + rest
    R = np.random.RandomState(r.randrange(2**31))
    v = R.randint(1, 10**6, size=n if kind == "1d" else ((n, w) if dim == 0 else (w, n)))
    if kind == "int":
        return v
    v = v + 0.25
    if kind == "csr":
        v = v * (R.rand(*v.shape) < 0.6)
    return v


def form(v, kind):
    return sp.csr_matrix(v) if kind == "csr" else v.copy()


def run(scn):
    ctx = Ctx()
    sim = Sim(seed=23)
    ppc = netgen.build(scn["case"])
    for k in ("bus", "gen", "branch", "areas"):
        if k in ppc:
            ppc[k] = np.array(ppc[k], float)
    ppc["gen"][:, 6] = 100 + np.arange(len(ppc["gen"]))     # names the rows
    r0 = random.Random("c13/%s" % scn["case"].get("gen", 5))
    R0 = np.random.RandomState(r0.randrange(2**31))
    nb, ng = len(ppc["bus"]), len(ppc["gen"])
    if scn["cost2"] and "gencost" in ppc and len(ppc["gencost"]) == ng:
        ppc["gencost"] = np.vstack([ppc["gencost"], ppc["gencost"] * 0.5])
    for k in ("A", "N", "l", "u", "H", "Cw", "fparm"):
        ppc.pop(k, None)
    if scn["A"]:
        w = (nb + ng if scn["A"] == "dc" else 2 * nb + 2 * ng) + (r0.choice([0, 1]) if nb + ng > 2 else 0)
        A = R0.randint(1, 99, (2, w)) * (R0.rand(2, w) < 0.7) * 1.0
        ppc["A"] = sp.csr_matrix(A) if scn["Acsr"] else A
        if scn["N"]:
            N = R0.randint(1, 99, (1, w)) * 1.0
            ppc["N"] = sp.csr_matrix(N) if scn["Acsr"] else N
            sim.probe("N")
        sim.probe("A" if scn["A"] == "ac" else "dcA")
    ppc["marker"] = {"arr": np.arange(5.0), "s": "keep"}
    e2i, i2e = api("ext2int"), api("int2ext")
    led = Ledger(ppc)
    led.index()
    if "areas" in led.c:
        sim.probe("areas")
    if len(led.on["bus"]) < nb or len(led.on["gen"]) < ng or len(led.on["branch"]) < len(ppc["branch"]):
        sim.probe("offline-rows")
    fl = []
    for f in scn["fields"]:
        r = random.Random(f["seed"])
        kind, dim = f["kind"], f["dim"]
        if kind == "1d":
            dim = 0
        v = value(r, led, f["ord"], dim, kind, f["rest"], f["w"])
        setp(ppc, f["path"], form(v, kind))
        fl.append(dict(f, dim=dim, cur=v, conv=False, saved=None))
        if len(f["path"]) > 1:
            sim.probe("nested-field")
        if kind == "csr":
            sim.probe("sparse-field")
    boom = {"on": False}

    def hook(x, args):
        if boom["on"]:
            raise CallbackError("stage")
        return x

    def hook_field(x, args):
        # what the optional features do: bring their own data along
        x = api("e2i_field")(x, ["hook", "data"], "gen")
        return x

    def unhook_field(x, args):
        return api("i2e_field")(x, ["hook", "data"], "gen")
    for st in ("ext2int", "int2ext"):
        ppc = api("add_userfcn")(ppc, st, hook)
    if scn["hook"]:
        v = np.arange(ng) * 10.0
        ppc["hook"] = {"data": v.copy()}
        ppc = api("add_userfcn")(ppc, "ext2int", hook_field)
        ppc = api("add_userfcn")(ppc, "int2ext", unhook_field)
        fl.append({"path": ["hook", "data"], "ord": ["gen"], "dim": 0, "kind": "1d", "rest": 0, "cur": v, "conv": False, "auto": True})
        sim.probe("callback-field")
    BUD = 300000
    trips = 0
    orig = ppc                           # the first, never to change
    orig_snap = copy.deepcopy(ppc)
    if scn["old"]:
        old_form(ctx, sim, ppc)

    def step(fn, what, faults=()):
        return sim.run(fn, faults=list(faults), budget=BUD)

    def after_int():
        for f in fl:
            if f.get("auto"):
                f["saved"], f["cur"] = f["cur"], led.conv(f["cur"], ["gen"], 0)

    def before_ext():
        for f in fl:
            if f.get("auto"):
                f["cur"] = led.unconv(f["cur"], f["saved"], ["gen"], 0)

    for n, op in enumerate(scn["ops"] + [{"o": "i2e", "s": 0}]):
        if ctx.v:
            break
        r = random.Random(op["s"])
        o = op["o"]
        what = "op %d %s" % (n, o)
        if o in ("e2i", "i2e"):
            snap = copy.deepcopy(ppc)
            if o == "i2e" and "order" not in ppc:
                continue
            kind, val = step(lambda: (e2i if o == "e2i" else i2e)(ppc), what)
            d = same(snap, ppc, "case")
            if d:
                ctx.bad("argument-changed", "%s: %s" % (what, d))
                break
            if kind == "exc":
                ctx.bad("conversion-failed", "%s: %s" % (what, excname(val)))
                break
            if o == "e2i" and not led.internal:
                if not led.to_int(val["gen"]):
                    ctx.bad("units-not-sorted", "%s: units %s are not the connected ones in bus order" % (what, dense(val["gen"])[:, [0, 6]].tolist()))
                    break
                after_int()
                sim.probe("to-internal")
            elif o == "e2i":
                sim.probe("already-internal")
            elif led.internal:
                before_ext()
                led.to_ext()
                trips += 1
                sim.probe("to-external")
                sim.probe("round-trip" if trips == 1 else "second-trip")
            else:
                sim.probe("already-external")
            for a in ("bus", "gen", "branch"):
                if np.shares_memory(val[a], ppc[a]):
                    ctx.bad("result-aliases-argument", "%s: %s" % (what, a))
            ppc = val
            check(ctx, led, fl, ppc, what)
        elif o in ("raise", "cancel"):
            d = op["dir"]
            if d == "i2e" and "order" not in ppc:
                continue
            if (d == "e2i") == led.internal:
                continue
            fn = e2i if d == "e2i" else i2e
            snap = copy.deepcopy(ppc)
            if o == "raise":
                boom["on"] = True
                kind, val = step(lambda: fn(ppc), what)
                boom["on"] = False
                if kind == "ok":
                    ctx.bad("callback-error-lost", "%s: %s returned although its callback raised" % (what, d))
                elif not isinstance(val, CallbackError):
                    ctx.bad("callback-error-lost", "%s: %s" % (what, excname(val)))
                sim.probe("callback-raised")
            else:
                kind, val = step(lambda: fn(ppc), what)
                L = sim.last_task.lines
                kind, val = step(lambda: fn(ppc), what, [{"seam": "line", "at": max(1, int(op["where"] * L)), "kind": op["k"]}])
                if kind == "exc":
                    sim.probe("memerr" if isinstance(val, MemoryError) else "cancelled")
            x = same(snap, ppc, "case")
            if x:
                ctx.bad("interrupted-conversion-changed-case", "%s of %s (%s): %s" % (what, d, op.get("k"), x))
            check(ctx, led, fl, ppc, what)
        elif o == "edit":
            k = r.choice([a for a in ("bus", "gen", "branch", "areas") if a in led.c and len(led.c[a])])
            i = r.randrange(len(led.c[k]))
            cols = {"bus": [2, 3, 7, 8, 1], "gen": [1, 2, 3, 5, 7], "branch": [2, 3, 5, 10], "areas": [0]}[k]
            col = r.choice(cols)
            v = r.choice([round(r.uniform(1, 50), 3), float(r.randrange(50))])
            if col == {"gen": 7, "branch": 10}.get(k):
                v = float(r.randrange(2))
            if k == "bus" and col == 1:
                v = led.c[k][i, 1]
                v = {1.0: 4.0, 4.0: 1.0}.get(v, v)
                if led.internal and v == 4.0:
                    continue
                # the reference areas and units of a bus may go off with it
            led.c[k][i, col] = v
            ppc[k][i, col] = v
            sim.probe("internal-edit" if led.internal else "external-edit")
        elif o == "gencost" and led.internal and "gencost" in led.c and len(led.c["gencost"]):
            i = r.randrange(len(led.c["gencost"]))
            led.c["gencost"][i, -1] += 7
            ppc["gencost"][i, -1] += 7
        elif o in ("field", "unfield") and led.internal and fl:
            f = r.choice(fl)
            if f.get("auto") or f["conv"] != (o == "unfield"):
                continue
            if f["conv"] and f["trip"] != trips:
                continue                    # left behind in an earlier conversion
            if not f["conv"] and f["cur"].shape[f["dim"]] < sum(led.n[x] for x in f["ord"]):
                continue
            order = f["ord"][0] if len(f["ord"]) == 1 and r.random() < 0.7 else f["ord"]
            path = f["path"][0] if len(f["path"]) == 1 and r.random() < 0.7 else f["path"]
            what = "%s %s as %s dim %d (%s)" % (what, f["path"], order, f["dim"], f["kind"])
            if o == "field":
                if op.get("old"):
                    fn = lambda: e2i(ppc, path, order, f["dim"])
                    sim.probe("deprecated-form")
                else:
                    fn = lambda: api("e2i_field")(ppc, path, order, f["dim"])
                kind, val = step(fn, what)
                if kind == "exc":
                    ctx.bad("field-failed", "%s: %s" % (what, excname(val)))
                    break
                ppc = val
                f["saved"], f["cur"] = f["cur"], led.conv(f["cur"], f["ord"], f["dim"])
                f["conv"], f["trip"] = True, trips
                sim.probe("field-converted")
            else:
                # values changed while in internal order land on their rows
                v = f["cur"].copy()
                if v.size and r.random() < 0.7:
                    v = v.astype(int) if r.random() < 0.3 else v
                    v.flat[r.randrange(v.size)] = 77
                f["cur"] = v
                setp(ppc, f["path"], form(v, f["kind"]))
                if op.get("old"):
                    fn = lambda: i2e(ppc, path, order, f["dim"])
                    sim.probe("deprecated-form")
                else:
                    fn = lambda: api("i2e_field")(ppc, path, order, f["dim"])
                kind, val = step(fn, what)
                if kind == "exc":
                    ctx.bad("field-failed", "%s: %s" % (what, excname(val)))
                    break
                ppc = val
                f["cur"] = led.unconv(f["cur"], f["saved"], f["ord"], f["dim"])
                f["conv"] = False
                sim.probe("field-restored")
            check(ctx, led, fl, ppc, what)
        elif o in ("data", "undata") and led.internal:
            order, dim, knd = r.choice(ORD), r.choice([0, 1]), r.choice(["1d", "2d", "csr", "int"])
            if knd == "1d":
                dim = 0                     # whatever is asked for, a vector has no other
            adim = r.choice([0, 1]) if knd == "1d" else dim
            v = value(r, led, order, dim, knd, r.choice([0, 0, 2]), 2)
            oa = order[0] if len(order) == 1 and r.random() < 0.7 else order
            ext = form(v, knd)
            want = led.conv(v, order, dim)
            if o == "data":
                kind, val = step(lambda: api("e2i_data")(ppc, ext, oa, adim), what)
                probe = "data-converted"
            else:
                w2 = want + (0 if knd == "int" else 0.5)
                old = value(r, led, order, dim, "2d" if knd == "int" else knd, v.shape[dim] - sum(led.n[x] for x in order), 2)
                olda, vala = form(old, knd), form(w2, knd)
                want = led.unconv(w2, old, order, dim)
                kind, val = step(lambda: api("i2e_data")(ppc, vala, olda, oa, adim), what)
                probe = "data-restored"
                if not arrays_equal(dense(olda), old) or not arrays_equal(dense(vala), w2):
                    ctx.bad("argument-changed", "%s changed its arguments" % what)
            what = "%s %s dim %d (%s)" % (what, oa, dim, knd)
            if kind == "exc":
                ctx.bad("data-failed", "%s: %s" % (what, excname(val)))
            elif val is None or dense(val).shape != want.shape or not arrays_equal(dense(val), want):
                ctx.bad("wrong-data", "%s: got %s instead of %s" % (what, None if val is None else dense(val).tolist(), want.tolist()))
            elif not arrays_equal(dense(ext), v):
                ctx.bad("argument-changed", "%s changed its argument" % what)
            sim.probe(probe)
            check(ctx, led, fl, ppc, what)
        sim.log(n, o, led.internal, len(ctx.v))
    return finish(sim, ctx, repr([o["o"] for o in scn["ops"]]) if trips else None)


def old_form(ctx, sim, ppc):
    """The five-matrix form: numbers only, no removal of rows."""
    import pypower.ext2int as m1
    import pypower.int2ext as m2
    for areas in (None, ppc.get("areas")):
        bus, gn, br = (np.array(ppc[k], float) for k in ("bus", "gen", "branch"))
        want = [bus.copy(), gn.copy(), br.copy()]
        if areas is not None:
            areas = np.array(areas, float)
            if areas.ndim != 2 or not len(areas):
                areas = None
                continue
            want.append(areas.copy())
        num = {int(b): k for k, b in enumerate(bus[:, 0])}
        if any(int(x) not in num for x in list(gn[:, 0]) + list(br[:, 0]) + list(br[:, 1]) + ([] if areas is None else list(areas[:, 1]))):
            continue
        kind, val = sim.run(lambda: m1.ext2int1(bus, gn, br, areas))
        if kind == "exc":
            ctx.bad("old-form-failed", "ext2int1: %s" % excname(val))
            return
        i2e, mats = val[0], list(val[1:])
        for a, b, cols in zip(mats, want, ((0,), (0,), (0, 1), (1,))):
            c = b.copy()
            for col in cols:
                c[:, col] = [num[int(x)] for x in b[:, col]]
            if not arrays_equal(a, c):
                ctx.bad("old-form-wrong", "ext2int1 numbers")
                return
        kind, val = sim.run(lambda: m2.int2ext1(i2e, mats[0], mats[1], mats[2], mats[3] if areas is not None else None))
        if kind == "exc":
            ctx.bad("old-form-failed", "int2ext1%s: %s" % (" with areas" if areas is not None else "", excname(val)))
            return
        for a, b in zip(val, want):
            if not arrays_equal(a, b):
                ctx.bad("old-form-wrong", "int2ext1 numbers")
                return
        sim.probe("old-form")


def shrinks(scn):
    ops = scn["ops"]
    for j in range(len(ops)):
        yield dict(scn, ops=ops[:j] + ops[j + 1:])
    for j in range(len(scn["fields"])):
        yield dict(scn, fields=scn["fields"][:j] + scn["fields"][j + 1:])
    for k in ("A", "N", "hook", "old", "cost2"):
        if scn.get(k):
            yield dict(scn, **{k: "" if k == "A" else False})
    for s in netgen.shrink_spec(scn["case"]):
        yield dict(scn, case=s)
