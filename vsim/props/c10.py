"""C10 save/load round trips on a simulated disk."""
import copy
import random

import numpy as np
import scipy.sparse as sp

from .. import netgen
from ..sim import Sim, SimBudget
from .common import *  # noqa: F401,F403
from . import common as C
from .c07 import arrays

ID = "C10"
RUNS = {"quick": 2400, "thorough": 30000}
RULE = ("one run = a seeded history of save, overwrite, load, solve, edit and foreign-file operations on a handful of files of a "
        "simulated disk (small buffers, short reads and writes); a dictionary of what each file must hold is the model; "
        "non-trivial when at least one load was compared with the model")
REAL = C.REAL + ["savecase/loadcase on real files in a scratch directory", "scipy.io MAT reader and writer"]
STUB = C.STUB + ["raw file layer (splits reads and writes)"]
ASSUME = C.ASSUME + ["case names are valid Python identifiers"]
PROBES = ["loaded-py", "loaded-mat", "overwritten", "user-data", "solved-saved", "solved-loaded", "foreign", "foreign-mat", "extensionless",
          "edited", "cycle", "solved-from-file"]
NAMES = ["case_a", "b", "grid2", "s", "info", "Case_X"]
EXTS = [".py", ".mat", ".py", ".mat", ""]
FEATS = [f for f in netgen.FEATURES if f not in ("isolated",)]
WIDTH = {"bus": (13, 17), "gen": (21, 25), "branch": (13, 17, 21)}
USER = ["A", "l", "u", "N", "H", "Cw", "fparm", "z0", "zl", "zu"]


# ------------------------------------------------------------------ cases
def rand_case(r, tier):
    spec = netgen.rand_spec(r, feats=FEATS, maxnb=8)
    spec["feat"] = sorted(set(spec["feat"] + r.sample(["pwl", "qcost", "pwlall", "userN", "userA", "userz", "userNfull", "polyorder", "linear", "pwl1"],
                                                      r.choice([0, 0, 1, 2]))))
    v = {"seed": r.randrange(10**6), "cols": r.choice(["", "", "opf", "flows"]), "inf": r.random() < 0.25,
         "areas": r.choice(["", "", "one", "empty", "wide", "three"]), "wide": r.choice([0, 0, 0, 2]), "mixcost": r.random() < 0.35,
         "extra": r.random() < 0.3, "v1": r.choice([0] * 20 + [1, "flows", "solved"]), "nocost": r.random() < 0.1, "version": r.random() < 0.5,
         "big": r.random() < 0.2, "dense": r.random() < 0.15, "partial": r.random() < 0.2}
    return {"case": spec, "v": {k: x for k, x in v.items() if x}}


def make(d):
    v = d["v"]
    ppc = netgen.build(d["case"])
    r = np.random.RandomState(v.get("seed", 0))
    nb, ng, nl = len(ppc["bus"]), len(ppc["gen"]), len(ppc["branch"])

    def widen(k, n):
        a = ppc[k]
        if a.shape[1] > n:
            ppc[k] = a[:, :n].copy()
        elif a.shape[1] < n:
            a = a.astype(float)
            ppc[k] = np.c_[a, np.round(r.uniform(-500, 500, (len(a), n - a.shape[1])), 6)]
    c = v.get("cols")
    widen("bus", 17 if c == "opf" else 13)
    widen("gen", 25 if c == "opf" else 21)
    widen("branch", {"opf": 21, "flows": 17}.get(c, 13))
    if v.get("big"):
        for k in ("bus", "gen", "branch"):
            ppc[k] = ppc[k].astype(float)
        ppc["bus"][:, 2] *= 1 + r.uniform(-1e-7, 1e-7, nb)
        ppc["gen"][:, 1] += r.uniform(-1, 1, ng) * 10.0 ** r.randint(-9, 9)
        ppc["branch"][:, 3] *= 1 + r.uniform(-0.3, 0.3, nl)
        ppc["bus"][:, 8] -= r.uniform(0, 360, nb)
        if r.rand() < 0.6:
            ppc["baseMVA"] = float(ppc["baseMVA"]) * (1 + r.uniform(-1e-4, 1e-4))
            for k, cs in (("bus", [2, 3, 4, 5, 7, 8, 9, 11, 12]), ("gen", [1, 2, 3, 4, 5, 6] + list(range(8, 21))),
                          ("branch", [2, 3, 4, 5, 6, 7, 8, 9, 11, 12])):
                for j in cs:
                    ppc[k][:, j] = ppc[k][:, j] * (1 + r.uniform(-1e-3, 1e-3, len(ppc[k]))) + r.choice([0, 1e-7, 1e-3]) * r.standard_normal(len(ppc[k]))
            if "gencost" in ppc:
                g = ppc["gencost"] = ppc["gencost"].astype(float)
                g[:, [1, 2]] += r.uniform(0, 1e3, (len(g), 2))
                for row in g:
                    n = int(row[3]) * (2 if row[0] == 1 else 1)
                    row[4:4 + n] *= 1 + r.uniform(-1e-3, 1e-3, n)
    if v.get("inf"):
        for k in ("bus", "gen", "branch"):
            ppc[k] = ppc[k].astype(float)
        ppc["gen"][0, 3], ppc["gen"][0, 4] = np.inf, -np.inf
        if r.rand() < 0.5 and len(ppc["branch"]):
            ppc["branch"][-1, 5] = np.inf
    a = v.get("areas")
    ppc.pop("areas", None)
    if a:
        n = {"one": 1, "empty": 0, "wide": 2, "three": 3}[a]
        b = ppc["bus"][:, 0]
        rows = [[i + 1, b[i % nb]] + ([7.0] if a == "wide" else []) for i in range(n)]
        ppc["areas"] = np.array(rows, dtype=float) if n else np.array([])
    if v.get("nocost"):
        ppc.pop("gencost", None)
    elif "gencost" in ppc and v.get("wide"):
        g = ppc["gencost"]
        ppc["gencost"] = np.c_[g, np.zeros((len(g), v["wide"]))]
    if v.get("mixcost") and "gencost" in ppc:
        g = ppc["gencost"]
        w = 4 + int(r.choice([4, 6, 8]))
        q = np.zeros((len(g), w))
        for row in q:
            pwl = r.rand() < 0.4
            n = r.randint(2, (w - 4) // 2 + 1) if pwl else r.randint(1, w - 3)
            row[:4] = [1 if pwl else 2, r.choice([0, 100]), r.choice([0, 50]), n]
            m = 2 * n if pwl else n
            row[4:4 + m] = np.sort(np.round(r.uniform(0.01, 900, m), 4))
        ppc["gencost"] = q
    if v.get("dense"):
        for k in ("A", "N", "H"):
            if k in ppc:
                ppc[k] = ppc[k].toarray()
    if v.get("partial"):
        ppc.pop(r.choice(["l", "u"]), None)
        ppc.pop(r.choice(["zl", "zu", "z0"]), None)
        if r.rand() < 0.5:
            ppc.pop("H", None)
    ppc.pop("version", None)
    if v.get("version"):
        ppc["version"] = "2"
    if v.get("extra"):
        ppc["bus_name"] = ["b%d" % k for k in range(nb)]
        ppc["notes"] = {"who": "me", "arr": np.arange(3.0)}
    if v.get("v1"):
        x = {"flows": (0, 4), "solved": (4, 6)}.get(v["v1"], (0, 0))
        ppc["gen"] = np.c_[ppc["gen"][:, :10], np.round(r.uniform(0, 9, (ng, x[0])), 4)]
        ppc["branch"] = np.c_[ppc["branch"][:, :11], np.round(r.uniform(0, 9, (nl, x[1])), 4)]
        ppc.pop("version", None)
    return ppc


# ------------------------------------------------------------------ model
def expect(ppc, ext):
    """What a file holding ppc must give back."""
    e = {"baseMVA": float(np.ravel(ppc["baseMVA"])[0])}
    for k in ("bus", "gen", "branch"):
        a = np.array(ppc[k], dtype=float)
        if ext == ".py":
            w = max([n for n in WIDTH[k] if n <= a.shape[1]] or [a.shape[1]])
            a = a[:, :w]
        e[k] = a
    for k in ("areas", "gencost"):
        if k in ppc and ppc[k] is not None and np.size(ppc[k]):
            a = np.array(ppc[k], dtype=float)
            e[k] = a[:, :2] if k == "areas" and ext == ".py" else a
    for k in USER:
        if k in ppc:
            a = ppc[k].toarray() if sp.issparse(ppc[k]) else np.asarray(ppc[k], float)
            if a.size:
                e[k] = a.copy()
    if "A" not in e:
        e.pop("l", 0), e.pop("u", 0)
    if "N" not in e:
        for k in ("H", "Cw", "fparm"):
            e.pop(k, 0)
    return e


def tol(key, col, ext):
    if ext == ".mat":
        return 0.0, 0.0
    if (key == "bus" and col >= 13) or (key == "gen" and col >= 21) or (key == "branch" and col >= 13):
        return 1e-12, 5.0001e-5
    return 5.1e-9, 0.0


def compare(exp, got, ext, user=True):
    """First difference between the model and a loaded case."""
    if not isinstance(got, dict):
        return "load gave %r instead of a case" % (got,)
    b = got.get("baseMVA")
    if b is None:
        return "baseMVA is missing"
    if np.ndim(b) != 0 or not np.isclose(float(np.ravel(b)[0]), exp["baseMVA"], rtol=6e-9 if ext == ".py" else 0, atol=0):
        return "baseMVA %r, saved %r" % (b, exp["baseMVA"])
    for k in ("bus", "gen", "branch", "areas", "gencost"):
        if k not in exp:
            if k in got and got[k] is not None and np.size(got[k]):
                return "%s appeared: %r" % (k, np.shape(got[k]))
            continue
        if k not in got or got[k] is None:
            return "%s is missing" % k
        g = np.asarray(got[k], float)
        e = exp[k]
        if g.ndim != 2:
            return "%s has shape %s" % (k, g.shape)
        if k == "gencost" and g.shape[1] != e.shape[1]:
            w = min(g.shape[1], e.shape[1])
            if g[:, w:].any() or e[:, w:].any():
                return "gencost has %d columns, saved %d" % (g.shape[1], e.shape[1])
            g, e = g[:, :w], e[:, :w]
        if g.shape != e.shape:
            return "%s has shape %s, saved %s" % (k, g.shape, e.shape)
        for c in range(e.shape[1]):
            rt, at = tol(k, c, ext)
            bad = np.flatnonzero(~((g[:, c] == e[:, c]) | (np.abs(g[:, c] - e[:, c]) <= at + rt * np.abs(e[:, c]))))
            if bad.size:
                return "%s[%d,%d] is %r, saved %r" % (k, bad[0], c, float(g[bad[0], c]), float(e[bad[0], c]))
    if user:
        for k in USER:
            if (k in exp) != (k in got and np.shape(got[k])[0] > 0):
                return "user data %s %s" % (k, "is missing" if k in exp else "appeared")
            if k in exp:
                g = got[k].toarray() if sp.issparse(got[k]) else np.asarray(got[k])
                if g.dtype == object:
                    return "user data %s came back as an object array" % k
                e = exp[k]
                if g.shape != e.shape:
                    return "user data %s has shape %s, saved %s" % (k, g.shape, e.shape)
                rt = 0.0 if ext == ".mat" else 5.1e-9
                ok = (g == e) | (np.abs(g - e) <= rt * np.abs(e))
                if not ok.all():
                    return "user data %s changed: %r, saved %r" % (k, g[~ok][0], e[~ok][0])
    if str(np.ravel(got.get("version", "?"))[0]) != "2":
        return "version is %r" % (got.get("version"),)
    return None


# ------------------------------------------------------------------ foreign files
def foreign(ppc, how, name, r):
    """A case file as a user would write it by hand (text)."""
    def m(a, cols=None):
        a = np.asarray(a, float)
        a = a[:, :cols] if cols else a
        return "array([\n" + "".join("        [%s],\n" % ", ".join(repr(float(x)) for x in row) for row in a) + "    ])" + ("" if len(a) else ".reshape(0, %d)" % a.shape[1])
    v1 = how.startswith("tuple")
    g, b = (10, 11) if v1 else (21, 13)
    t = "from numpy import array\n\n" if how != "helper" else "import numpy as np\nfrom numpy import array\nSCALE = 1.0\n\n\ndef helper(a):\n    return SCALE * np.array(a)\n\n\n"
    t += "def %s():\n" % name
    wrap = (lambda s: "helper(" + s + ")") if how == "helper" else (lambda s: s)
    if v1:
        t += "    baseMVA = %r\n" % float(ppc["baseMVA"])
        for k, c in (("bus", 13), ("gen", g), ("branch", b)):
            t += "    %s = %s\n" % (k, m(ppc[k], c))
        if how == "tuple6":
            t += "    areas = %s\n" % m([[1, ppc["bus"][0, 0]]])
            t += "    gencost = %s\n" % m(ppc["gencost"])
            t += "    return baseMVA, bus, gen, branch, areas, gencost\n"
        else:
            t += "    return baseMVA, bus, gen, branch\n"
    else:
        t += "    ppc = {'version': '2'}\n    ppc['baseMVA'] = %r\n" % float(ppc["baseMVA"])
        for k, c in (("bus", 13), ("gen", g), ("branch", b)):
            t += "    ppc['%s'] = %s\n" % (k, wrap(m(ppc[k], c)))
        if "gencost" in ppc:
            t += "    ppc['gencost'] = %s\n" % wrap(m(ppc["gencost"]))
        t += "    return ppc\n"
    return t


def foreign_model(ppc, how):
    q = {"baseMVA": float(ppc["baseMVA"]), "bus": np.array(ppc["bus"], float)[:, :13]}
    gen, br = np.array(ppc["gen"], float), np.array(ppc["branch"], float)
    if how.startswith("tuple"):
        q["gen"] = np.c_[gen[:, :10], np.zeros((len(gen), 11))]
        q["branch"] = np.c_[br[:, :11], np.tile([-360., 360.], (len(br), 1))]
        if how == "tuple6":
            q["areas"] = np.array([[1., ppc["bus"][0, 0]]])
            q["gencost"] = np.array(ppc["gencost"], float)
    else:
        q["gen"], q["branch"] = gen[:, :21], br[:, :13]
        if "gencost" in ppc:
            q["gencost"] = np.array(ppc["gencost"], float)
    return q


# ------------------------------------------------------------------ scenarios
def gen(r, tier, i):
    slots = [rand_case(r, tier) for _ in range(r.choice([1, 2, 2, 3]))]
    names = r.sample(NAMES, r.choice([1, 2, 3]))
    ops = []
    for _ in range(r.choice([3, 5, 7, 9])):
        k = r.random()
        f = r.choice(names)
        if k < 0.36:
            ops.append(["save", r.randrange(8), f, r.choice(EXTS), r.choice([0, 0, 1, 2])])
        elif k < 0.72:
            ops.append(["load", f, r.choice(EXTS), r.choice(["dict", "dict", "list", "list5", "list4"])])
        elif k < 0.80:
            ops.append(["solve", r.randrange(8), r.choice(["runpf", "rundcpf", "runopf", "rundcopf"])])
        elif k < 0.86:
            ops.append(["solvefile", f, r.choice(EXTS), r.choice(["runpf", "rundcpf", "rundcopf", "runopf"])])
        elif k < 0.91:
            ops.append(["edit", r.randrange(8), r.randrange(1000)])
        elif k < 0.96:
            ops.append(["foreign", r.randrange(8), f, r.choice(["dict", "helper", "tuple4", "tuple6", "mpc", "matrices"])])
        else:
            ops.append(["dictload", r.randrange(8)])
    if not any(o[0] == "save" for o in ops):
        ops.insert(0, ["save", 0, names[0], r.choice(EXTS), 0])
    last = [o for o in ops if o[0] == "save"][-1]
    ops.append(["load", last[2], last[3], "dict"])
    faults = []
    if r.random() < 0.5:
        faults.append({"seam": "write", "at": r.randrange(4), "count": r.choice([1, 5, 1000]), "kind": "short",
                       "frac": r.choice([0.1, 0.5, 0.9])})
    if r.random() < 0.5:
        faults.append({"seam": "read", "at": r.randrange(4), "count": r.choice([1, 5, 1000]), "kind": "short",
                       "n": r.choice([1, 7, 100])})
    return {"slots": slots, "ops": ops, "faults": faults, "chunk": r.choice([64, 512, 4096])}


def version_less(p):
    return {k: x for k, x in p.items() if k not in ("version", "om")}


def run(scn):
    ctx = Ctx()
    sim = Sim(seed=5, faults=scn["faults"], disk=True, chunk=scn["chunk"])
    disk = sim.disk
    savecase, loadcase = api("savecase"), api("loadcase")
    slots = [make(d) for d in scn["slots"]]
    flags = [dict(d["v"]) for d in scn["slots"]]
    files = {}                       # file name with extension -> (expected, ext, user?)
    compared = 0
    opt = quiet()

    def task(fn, **k):
        return sim.run(fn, budget=3000000, **k)

    def resolve(f, ext):
        """File an extension-less name designates: .mat first, then .py."""
        if ext:
            return f + ext
        return f + ".mat" if f + ".mat" in files else f + ".py"

    def shares(new, what):
        for p, a in arrays(new):
            if a.size:
                for i, o in enumerate(slots):
                    if o is not new:
                        for q, b in arrays(o):
                            if np.shares_memory(a, b):
                                ctx.bad("loads-share-data", "%s: %s shares memory with %s of an earlier case" % (what, p, q))
                                return

    for n, op in enumerate(scn["ops"]):
        if ctx.v:
            break
        k = op[0]
        if k == "save":
            s = op[1] % len(slots)
            ppc = slots[s]
            if flags[s].get("v1"):
                continue
            ext = op[3] or ".py"
            snap = copy.deepcopy(version_less(ppc))
            comment = [None, "a comment", ["line one", "line two %d" % n]][op[4]]
            kw = {} if comment is None else {"comment": comment}
            path = disk.path(op[2] + op[3])
            kind, val = task(lambda: savecase(path, ppc, **kw))
            what = "op %d save %s" % (n, op[2] + op[3])
            if kind == "exc":
                ctx.bad("save-raised", "%s: %s" % (what, excname(val)))
                break
            if val != disk.path(op[2] + ext):
                ctx.bad("save-name", "%s returned %r" % (what, val))
            d = same(snap, version_less(ppc), "case")
            if d:
                ctx.bad("save-changed-case", "%s: %s" % (what, d))
            if disk.leaked():
                ctx.bad("handle-left-open", "%s: %s" % (what, disk.leaked()))
                disk.close_all()
            if op[2] + ext in files:
                sim.probe("overwritten")
            if files.get(op[2] + ext, (0, 0, 0))[2] == "solved":
                pass
            files[op[2] + ext] = (expect(ppc, ext), ext, "solved" if "success" in ppc or "order" in ppc else "")
            if "order" in ppc:
                sim.probe("solved-saved")
            if any(u in ppc for u in USER):
                sim.probe("user-data")
        elif k == "foreign":
            s = op[1] % len(slots)
            ppc = slots[s]
            if flags[s].get("v1") or flags[s].get("inf"):
                continue
            how = op[3]
            if how == "tuple6" and "gencost" not in ppc:
                how = "tuple4"
            if how in ("mpc", "matrices"):
                import io
                from scipy.io import savemat
                q = {k: np.array(a, float) for k, a in foreign_model(ppc, "dict").items()}
                if how == "mpc":
                    q["version"] = "2"
                b = io.BytesIO()
                savemat(b, {"mpc": q} if how == "mpc" else q)
                disk.write_bytes(op[2] + ".mat", b.getvalue())
                files[op[2] + ".mat"] = (foreign_model(ppc, "dict"), ".mat", "foreign")
                sim.probe("foreign-mat")
                continue
            disk.write_bytes(op[2] + ".py", foreign(ppc, how, op[2], None).encode())
            files[op[2] + ".py"] = (foreign_model(ppc, how), ".py", "foreign")
            sim.probe("foreign")
        elif k in ("load", "solvefile"):
            f = resolve(op[1], op[2])
            path = disk.path(op[1] + op[2])
            what = "op %d %s %s" % (n, k, op[1] + op[2])
            if f not in files:
                if k == "load":
                    kind, val = task(lambda: loadcase(path))
                    want = {".py": 4, ".mat": 3, "": 2}[op[2]]
                    if kind != "ok" or val != want:
                        ctx.bad("missing-file-code", "%s of a missing file gave %s instead of code %d" %
                                (what, excname(val) if kind == "exc" else type(val), want))
                    elif not sim.err_text():
                        ctx.bad("missing-file-silent", "%s of a missing file printed nothing" % what)
                continue
            exp, ext, mode = files[f]
            if not op[2]:
                sim.probe("extensionless")
            if k == "solvefile":
                fn = api(op[3])
                ref = {a: (np.array(b, copy=True) if not np.isscalar(b) else b) for a, b in exp.items()}
                for u in ("A", "N", "H"):
                    if u in ref:
                        ref[u] = sp.csr_matrix(ref[u])
                ref["version"] = "2"
                k1, v1 = task(lambda: fn(path, opt))
                k2, v2 = task(lambda: fn(ref, opt))
                sim.log("solvefile", k1, k2)
                if k2 == "exc":
                    continue
                if k2 == "ok" and isinstance(v2, dict):
                    v1, v2 = (v1, v1["success"]) if k1 == "ok" else v1, (v2, v2["success"])
                if k1 == "exc":
                    ctx.bad("saved-case-unusable", "%s: %s raised %s, the case itself gives %r" % (what, op[3], excname(v1), bool(v2[1])))
                    break
                if bool(v1[1]) != bool(v2[1]):
                    if ext == ".mat" or mode == "foreign":
                        ctx.bad("solves-differently", "%s: success %r, the case itself %r" % (what, v1[1], v2[1]))
                    continue
                sim.probe("solved-from-file")
                if v1[1] and op[3].endswith("opf"):
                    if not np.isclose(v1[0]["f"], v2[0]["f"], rtol=1e-4 if ext == ".py" else 1e-9, atol=1e-3 if ext == ".py" else 1e-9):
                        ctx.bad("solves-differently", "%s: cost %r, the case itself %r" % (what, v1[0]["f"], v2[0]["f"]))
                elif v1[1]:
                    for a in ("bus", "gen", "branch"):
                        if not close(v1[0][a], v2[0][a], 1e-4 if ext == ".py" else 1e-9, 1e-3 if ext == ".py" else 1e-9):
                            ctx.bad("solves-differently", "%s: %s differs between the file and the case" % (what, a))
                            break
                compared += 1
                continue
            how = op[3]
            if how == "list" and not ("areas" in exp and "gencost" in exp):
                how = "dict"
            if how == "list5" and "gencost" not in exp:
                how = "dict"
            if mode == "foreign" and how != "dict":
                how = "dict"
            if how == "dict":
                kind, val = task(lambda: loadcase(path))
            elif how == "list":
                kind, val = task(lambda: loadcase(path, False))
            elif how == "list5":
                kind, val = task(lambda: loadcase(path, False, True, False))
            else:
                kind, val = task(lambda: loadcase(path, False, False, False))
            if kind == "exc":
                ctx.bad("load-raised", "%s: %s" % (what, excname(val)))
                break
            if disk.leaked():
                ctx.bad("handle-left-open", "%s: %s" % (what, disk.leaked()))
                disk.close_all()
            got, e = val, exp
            if how != "dict":
                ks = {"list": ["baseMVA", "bus", "gen", "branch", "areas", "gencost"],
                      "list5": ["baseMVA", "bus", "gen", "branch", "gencost"], "list4": ["baseMVA", "bus", "gen", "branch"]}[how]
                if not isinstance(val, (list, tuple)) or len(val) != len(ks):
                    ctx.bad("load-list", "%s as %s gave %r" % (what, how, type(val)))
                    break
                got = dict(zip(ks, val), version="2")
                e = {a: exp[a] for a in ks}
            d = compare(e, got, ext, user=(how == "dict"))
            if d:
                ctx.bad("load-differs", "%s (%s): %s" % (what, ext, d))
                break
            compared += 1
            sim.probe("loaded" + ext.replace(".", "-"))
            if mode == "solved":
                sim.probe("solved-loaded")
            if how == "dict":
                shares(val, what)
                if len(slots) < 8:
                    slots.append(val)
                    flags.append({"inf": True} if not all(np.isfinite(exp[a]).all() for a in ("bus", "gen", "branch")) else {})
                    sim.probe("cycle")
        elif k == "dictload":
            ppc = slots[op[1] % len(slots)]
            v1 = flags[op[1] % len(slots)].get("v1")
            snap = copy.deepcopy(version_less(ppc))
            kind, val = task(lambda: loadcase(ppc))
            what = "op %d loadcase(dict)" % n
            if kind == "exc":
                ctx.bad("load-raised", "%s: %s" % (what, excname(val)))
                break
            d = same(snap, version_less(ppc), "case")
            if d:
                ctx.bad("load-changed-dict", "%s: %s" % (what, d))
                break
            e = expect(ppc, ".mat")
            if v1:
                e["gen"] = np.c_[e["gen"][:, :10], np.zeros((len(e["gen"]), 11)), e["gen"][:, 10:]]
                e["branch"] = np.c_[e["branch"][:, :11], np.tile([-360., 360.], (len(e["branch"]), 1)), e["branch"][:, 11:],
                                    np.zeros((len(e["branch"]), 2 if v1 == "solved" else 0))]
            d = compare(e, val, ".mat", user=False)
            if d:
                ctx.bad("dict-load-differs", "%s: %s" % (what, d))
                break
            shares(val, what)
            compared += 1
        elif k == "edit":
            s = op[1] % len(slots)
            q = np.random.RandomState(op[2])
            ppc = slots[s]
            for a in ("bus", "gen", "branch"):
                b = ppc[a]
                if b.dtype.kind == "f" and b.flags.writeable and np.isfinite(b).all():
                    j = {"bus": 2, "gen": 1, "branch": 3}[a]
                    b[:, j] += np.round(q.uniform(0, 1, len(b)), 4) * 1e-3
            sim.probe("edited")
        elif k == "solve":
            s = op[1] % len(slots)
            if len(slots) >= 8:
                continue
            fn = api(op[2])
            ppc = slots[s]
            kind, val = task(lambda: fn(ppc, opt))
            if kind == "exc":
                continue
            res = val[0] if isinstance(val, tuple) else val
            if isinstance(res, dict):
                for a in ("bus", "gen", "branch"):
                    if np.isnan(np.asarray(res[a], float)).any():
                        break
                else:
                    slots.append(res)
                    flags.append({"inf": bool(flags[s].get("inf"))})
        sim.log("op", n, k, len(ctx.v))
    return finish(sim, ctx, repr(tuple((o[0],) + tuple(x for x in o[2:] if isinstance(x, str)) for o in scn["ops"])) if compared else None)


def shrinks(scn):
    for j, d in enumerate(scn["slots"]):
        for k in sorted(d["v"]):
            v = dict(d["v"])
            del v[k]
            yield dict(scn, slots=scn["slots"][:j] + [dict(d, v=v)] + scn["slots"][j + 1:])
        for c in netgen.shrink_spec(d["case"]):
            yield dict(scn, slots=scn["slots"][:j] + [dict(d, case=c)] + scn["slots"][j + 1:])
