"""C09 a result depends only on case and options."""
import copy

import numpy as np

from .. import netgen, ref
from ..sim import Sim, SimBudget, SimCancel
from .common import *  # noqa: F401,F403
from . import common as C
from .c04 import BASEF
from .c06 import transfer
from .c08 import strip

ID = "C09"
RUNS = {"quick": 1000, "thorough": 12000}
RULE = ("one run = a few analyses, several of them alike in size but not in values, executed in one process in a seeded history "
        "with repetitions; some executions meet solver faults, cancellations, clock jumps or a broken output stream, some change "
        "verbosity; undisturbed executions of the same analysis must return identical results; then equipment of a solved "
        "case is tripped and restored; non-trivial when some analysis was executed at least twice undisturbed")
REAL, STUB = C.REAL, C.STUB
ASSUME = C.ASSUME + ["random tie-breaking is reseeded per execution", "the re-solved case starts from the perturbed solution, so it is "
                     "compared within tolerance"]
PROBES = ["repeat", "clock-jump", "verbose", "broken-output", "cancelled", "solve-fault", "default-case", "file-case", "same-object",
          "fresh-object", "restored-pf", "restored-dc", "restored-opf", "cpf", "uopf", "alike", "kept-options", "default-options"]
TWEAKS = ["load", "imp", "cost", "lim", "status", "vset", "rb", "tap", "shift", "shunt", "pg", "ref", "order", "number", "base"]
JOBS = ["runpf", "runpf", "rundcpf", "runopf", "rundcopf", "runuopf", "runcpf", "opf", "convert"]


def gen(r, tier, i):
    alike = r.random() < 0.6
    n = r.choice([4, 5, 6]) if alike else r.choice([2, 2, 3])
    spec = netgen.rand_spec(r, feats=BASEF + ["ints"], stocks=("case6ww", "case9", "case14", "case30"), maxnb=8)
    jobs = []
    for k in range(n):
        e = r.choice(JOBS) if k == 0 or r.random() < 0.4 else jobs[0]["entry"]
        if alike:
            e = r.choice(["runpf", "runpf", "rundcpf", "rundcopf", "runopf"]) if k == 0 else jobs[0]["entry"]
        job = {"entry": e, "case": spec, "opts": {}, "tweak": None}
        if alike and k:
            job["tweak"] = {"seed": 1, "what": [r.choice(TWEAKS)]}
        elif r.random() < 0.7 and k:
            job["tweak"] = {"seed": r.randrange(10**6), "what": r.sample(TWEAKS, r.choice([1, 1, 2, 3]))}
        elif r.random() < 0.5:
            job["case"] = netgen.rand_spec(r, feats=BASEF, stocks=("case6ww", "case9"), maxnb=8)
            job["case"]["feat"] = sorted(set(job["case"]["feat"] + r.sample(netgen.OPF_FEATURES, r.choice([0, 1, 2]))))
        if r.random() < 0.08 and e != "runcpf":
            job["file"] = r.choice(["case9", "case6ww", None])
        o = job["opts"]
        if e == "runpf":
            o.update(PF_ALG=r.choice([1, 1, 2, 3, 4]), ENFORCE_Q_LIMS=r.choice([0, 0, 1, 2]))
        if e in ("runopf", "opf"):
            o.update(OPF_ALG=r.choice([0, 560, 565]), OPF_FLOW_LIM=r.choice([0, 1, 2]))
        if e == "runcpf":
            o.update(CPF_STOP_AT=r.choice(["NOSE", 0.5]), CPF_STEP=r.choice([0.3, 1.0]), CPF_PARAMETERIZATION=r.choice([1, 2, 3]))
        if e == "runuopf":
            o["PF_DC"] = r.random() < 0.5
        if r.random() < 0.2:
            o["PF_TOL"] = r.choice([1e-4, 1e-6])
        job["om"] = r.choice(["quiet"] * 5 + ["kept"] * 4 + ["none"] * 2)
        jobs.append(job)
    hist = []
    for k in range(r.choice([8, 10, 12]) if alike else r.choice([4, 5, 6, 8])):
        h = {"job": r.randrange(n), "fresh": r.random() < 0.5}
        u = r.random()
        if u < 0.15:
            h["faults"] = solve_faults(r, n=1, maxat=10)
        elif u < 0.3:
            h["faults"] = [{"seam": "line", "at": int(10 ** r.uniform(0.5, 3.6)),
                            "kind": r.choice(["SimCancel", "MemoryError", "KeyboardInterrupt"])}]
        elif u < 0.4:
            h["loud"] = r.choice([1, 2, 3])
            h["faults"] = [{"seam": "stdout", "at": r.choice([0, 1, 3, 10, 40]), "kind": r.choice(["epipe", "enospc"])}]
        elif u < 0.55:
            h["loud"] = r.choice([1, 2, 3])
            h["out"] = {k: r.choice([0, 1, 2]) for k in r.sample(["OUT_ALL_LIM", "OUT_V_LIM", "OUT_LINE_LIM", "OUT_BUS", "OUT_BRANCH",
                                                                  "OUT_GEN", "OUT_AREA_SUM"], 3)}
        elif u < 0.7:
            h["faults"] = [{"seam": "clock", "at": r.randrange(4), "kind": "jump", "amount": r.choice([-1e9, -5.0, 3600.0, 1e12])}
                           for _ in range(2)]
        hist.append(h)
    return {"jobs": jobs, "hist": hist, "x": {"seed": r.randrange(10**6), "f": 2, "p": 0.7, "g": True},
            "trip": {"seed": r.randrange(10**6), "what": r.choice(["branch", "gen", "load", "branch", "all"])} if r.random() < 0.7 else None}


def tweak(ppc, t):
    rr = np.random.RandomState(t["seed"])
    w = t["what"]
    for m in ("bus", "gen", "branch"):
        ppc[m] = ppc[m].astype(float)
    nb, ng, nl = len(ppc["bus"]), len(ppc["gen"]), len(ppc["branch"])
    u = rr.uniform(0.7, 1.2, (6, 1000))
    if "load" in w:
        ppc["bus"][:, 2:4] *= u[0, :nb, None]
    if "imp" in w:
        ppc["branch"][:, 2:4] *= u[1, :nl, None]
    if "cost" in w and "gencost" in ppc:
        ppc["gencost"] = ppc["gencost"].astype(float)
        poly = ppc["gencost"][:, 0] == 2
        ppc["gencost"][poly, 4:] *= u[2, 0]
    if "lim" in w:
        ppc["gen"][:, 8] *= np.maximum(1.0, u[3, :ng])
        ppc["branch"][:, 5] *= np.maximum(1.0, u[3, :nl])
    if "vset" in w:
        for b in set(ppc["gen"][:, 0]):
            ppc["gen"][ppc["gen"][:, 0] == b, 5] = 1.0 + 0.03 * u[4, int(b) % 7]
    if "rb" in w:
        ppc["branch"][:, [2, 4]] *= 1.3
    if "tap" in w and nl:
        ppc["branch"][int(u[5, 1] * 1000) % nl, 8] = 0.97
    if "shift" in w and nl:
        ppc["branch"][int(u[5, 2] * 1000) % nl, 9] += 2.0
    if "shunt" in w:
        ppc["bus"][:, 5] += 3.0 * u[5, 3]
        ppc["bus"][0, 4] += 1.0
    if "pg" in w:
        ppc["gen"][:, 1] *= 0.9
    if "ref" in w:
        i, k = np.flatnonzero(ppc["bus"][:, 1] == 3), np.flatnonzero(ppc["bus"][:, 1] == 2)
        if len(i) and len(k):
            ppc["bus"][i[0], 1], ppc["bus"][k[0], 1] = 2, 3
    if "order" in w:
        ppc["branch"] = ppc["branch"][::-1].copy()
    if "number" in w:
        for m, cols in (("bus", [0]), ("gen", [0]), ("branch", [0, 1])):
            ppc[m][:, cols] = ppc[m][:, cols] * 2 + 1
    if "base" in w:
        ppc["baseMVA"] = ppc["baseMVA"] * 1.1
    if "status" in w and nl > nb:
        ppc["branch"][int(u[5, 0] * 1000) % nl, 10] = 0
    return ppc


def run(scn):
    import os
    ctx = Ctx()
    sim = Sim(seed=7, faults=[])
    from .. import seams
    built = []
    for job in scn["jobs"]:
        ppc = netgen.build(job["case"])
        if job["tweak"]:
            ppc = tweak(ppc, job["tweak"])
            sim.probe("alike")
        built.append((ppc, transfer(ppc, scn["x"]), dict(job["opts"])))
    keep = copy.deepcopy(built)
    # option objects a user makes once and keeps
    kept = [api("ppoption")(VERBOSE=0, OUT_ALL=0, **job["opts"]) if job.get("om") == "kept" else None for job in scn["jobs"]]
    first = {}
    key = []
    for hi, h in enumerate(scn["hist"]):
        j = h["job"]
        job = scn["jobs"][j]
        e = job["entry"]
        ppc, tgt, oo = copy.deepcopy(keep[j]) if h["fresh"] else built[j]
        opt = quiet(**oo)
        if kept[j] is not None:
            sim.probe("kept-options")
            opt = kept[j]
            if h.get("loud"):
                opt = api("ppoption")(opt)
        rest = (opt,)
        if job.get("om") == "none":
            sim.probe("default-options")
            rest = ()
        if h.get("loud"):
            opt.update(VERBOSE=h["loud"], OUT_ALL=-1, **h.get("out", {}))
        if "file" in job:
            if job["file"] is None:
                ppc = None
                sim.probe("default-case")
            else:
                ppc = os.path.join(seams.REPO, "pypower", job["file"])
                sim.probe("file-case")
        else:
            sim.probe("fresh-object" if h["fresh"] else "same-object")
        if e == "runcpf":
            call = lambda: api("runcpf")(ppc, tgt, *rest)
        elif e == "opf":
            call = lambda: api("opf")(ppc if ppc is not None else os.path.join(seams.REPO, "pypower", "case9"), *rest)
        elif e == "convert":
            call = lambda: api("int2ext")(api("ext2int")(api("loadcase")(ppc or os.path.join(seams.REPO, "pypower", "case9"))))
        else:
            call = lambda: api(e)(ppc, *rest)
        before = dict(sim.fired)
        kind, val = sim.run(call, "h%d" % hi, faults=h.get("faults", []), budget=400000)
        struck = [f for f in sim.fired if sim.fired[f] != before.get(f, 0)]
        for f in struck:
            sim.probe({"solve": "solve-fault", "line": "cancelled", "clock": "clock-jump", "stdout": "broken-output"}[f.split(".")[0]])
        if e in ("runcpf", "runuopf"):
            sim.probe(e[3:])
        if h.get("loud"):
            sim.probe("verbose")
        if isinstance(val, SimBudget):
            return finish(sim, ctx, None)
        if any(not f.startswith("clock") for f in struck):
            continue
        out = (kind, copy.deepcopy(strip(val)) if kind == "ok" else excname(val))
        what = "%s, execution %d of the history" % (e, hi)
        if j not in first:
            first[j] = (hi, out)
        else:
            sim.probe("repeat")
            key.append(e)
            k0, o0 = first[j]
            if out[0] != o0[0]:
                ctx.bad("outcome-changed", "%s: %s; execution %d: %s" % (what, out[1] if out[0] == "exc" else "ok", k0,
                                                                        o0[1] if o0[0] == "exc" else "ok"))
            elif out[0] == "exc":
                if out[1] != o0[1]:
                    ctx.bad("outcome-changed", "%s: %s; execution %d: %s" % (what, out[1], k0, o0[1]))
            else:
                d = same(o0[1], out[1], "result")
                if d:
                    ctx.bad("result-changed", "%s differs from execution %d: %s%s" % (what, k0, d, " [clock jumped]" if struck else ""))
    if scn["trip"]:
        restore(sim, ctx, scn, keep)
    return finish(sim, ctx, repr(sorted(key)) if key else None)


def res_of(v):
    return (v[0], bool(v[1])) if isinstance(v, tuple) else (v, bool(v["success"]))


def restore(sim, ctx, scn, keep):
    job = scn["jobs"][0]
    e = job["entry"]
    if e not in ("runpf", "rundcpf", "runopf", "rundcopf") or job["opts"].get("ENFORCE_Q_LIMS"):
        return
    ppc, _, oo = copy.deepcopy(keep[0])
    opt = quiet(**oo)
    if e == "runpf":
        opt["PF_TOL"] = 1e-9
        opt["PF_MAX_IT_GS"] = 5000
        opt["PF_MAX_IT_FD"] = 200
    net = ref.Net(ppc)
    if not net.islands_ok():
        return
    rr = np.random.RandomState(scn["trip"]["seed"])
    fn = api(e)

    def go(c):
        return sim.run(lambda: fn(c, opt), budget=400000)
    k, v = go(ppc)
    if k != "ok" or not res_of(v)[1]:
        return
    r1 = res_of(v)[0]
    what = scn["trip"]["what"]
    c = copy.deepcopy(r1)
    undo = []

    def put(m, i, col, new):
        undo.append((m, i, col, c[m][i, col]))
        c[m][i, col] = new
    refb = set(ppc["bus"][i, 0] for i in net.types()[0])
    if what in ("branch", "all"):
        on = [i for i in range(len(ppc["branch"])) if ppc["branch"][i, 10] == 1]
        if on:
            put("branch", on[rr.randint(len(on))], 10, 0)
    if what in ("gen", "all"):
        on = [i for i in range(len(ppc["gen"])) if ppc["gen"][i, 7] > 0 and ppc["gen"][i, 0] not in refb]
        if on:
            put("gen", on[rr.randint(len(on))], 7, 0)
    if what in ("load", "all"):
        for i in range(len(ppc["bus"])):
            if rr.rand() < 0.5:
                put("bus", i, 2, c["bus"][i, 2] * rr.uniform(0.6, 1.1))
                put("bus", i, 3, c["bus"][i, 3] * rr.uniform(0.6, 1.1))
    mid = {}
    for m in ("bus", "gen", "branch"):
        mid[m] = c[m][:, :13].copy()
    if not undo or not ref.Net(c).islands_ok():
        return
    k, v = go(c)
    if k != "ok":
        return
    r2, ok2 = res_of(v)
    if not ok2:
        return
    c = copy.deepcopy(r2)
    for m, i, col, old in reversed(undo):
        c[m][i, col] = old
    # a tripped unit comes back at its schedule
    if e == "runpf" or e == "rundcpf":
        for i in range(len(c["gen"])):
            if ppc["gen"][i, 7] > 0 and r2["gen"][i, 7] == 0:
                c["gen"][i, 1:3] = r1["gen"][i, 1:3]
    k, v = go(c)
    if k != "ok":
        ctx.bad("restore-fails", "%s after restoring %s: %s" % (e, what, excname(v)))
        return
    r3, ok3 = res_of(v)
    opfrun = "opf" in e
    if not ok3:
        if not opfrun:
            # started from the perturbed solution, the iteration need not find its way back
            it = ref.newton(ref.Net(c), 1e-9, 10) if e == "runpf" and oo.get("PF_ALG", 1) == 1 else None
            if e == "rundcpf" or it and it[0] and it[1] + 3 <= opt["PF_MAX_IT"]:
                ctx.bad("restore-fails", "%s after restoring %s does not solve" % (e, what))
        elif e == "rundcopf" and not (set(job["case"]["feat"]) & {"hugecost", "polyorder"}):
            ctx.bad("restore-fails", "%s after restoring %s does not solve" % (e, what))
        return
    sim.probe({"runpf": "restored-pf", "rundcpf": "restored-dc"}.get(e, "restored-opf"))
    if opfrun:
        if e == "rundcopf" and abs(r3["f"] - r1["f"]) > 1e-3 * (1 + abs(r1["f"])):
            ctx.bad("restore-differs", "objective %.8g after tripping and restoring %s, %.8g before" % (r3["f"], what, r1["f"]))
        return
    lb = net.lb
    if e == "runpf" and np.max(np.abs(r3["bus"][lb, 7] - r1["bus"][lb, 7])) > 0.2:
        return      # another solution branch
    for m, cols, tol in (("bus", (7, 8), 1e-4), ("gen", (1, 2), 1e-2), ("branch", (13, 14, 15, 16), 1e-2)):
        for q in cols:
            d = np.abs(r3[m][:, q] - r1[m][:, q])
            if len(d) and np.nanmax(d) > tol * (1 + np.nanmax(np.abs(r1[m][:, q]))):
                ctx.bad("restore-differs", "%s: %s column %d off by %.3g after tripping and restoring %s" % (e, m, q, np.nanmax(d), what))
                return


def shrinks(scn):
    if scn["trip"]:
        yield dict(scn, trip=None)
        yield dict(scn, hist=[])
    hs = scn["hist"]
    for k in range(len(hs)):
        yield dict(scn, hist=hs[:k] + hs[k + 1:])
    for k in range(len(hs)):
        if hs[k].get("faults") or hs[k].get("loud"):
            yield dict(scn, hist=hs[:k] + [{"job": hs[k]["job"], "fresh": True}] + hs[k + 1:])
    for j in range(len(scn["jobs"])):
        def wj(**kw):
            jobs = copy.deepcopy(scn["jobs"])
            jobs[j].update(kw)
            return dict(scn, jobs=jobs)
        for s in netgen.shrink_spec(scn["jobs"][j]["case"]):
            yield wj(case=s)
        if scn["jobs"][j]["tweak"]:
            yield wj(tweak=None)
        if scn["jobs"][j]["opts"]:
            yield wj(opts={})
