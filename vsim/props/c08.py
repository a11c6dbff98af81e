"""C08 concurrent analyses in one process do not influence each other."""
import copy
import re

import numpy as np
import scipy.sparse as sp

from .. import netgen
from ..sim import Sim, SimBudget, SimCancel, run_threads
from .common import *  # noqa: F401,F403
from . import common as C
from .c04 import BASEF, STOCKS
from .c06 import transfer

ID = "C08"
RUNS = {"quick": 800, "thorough": 12000}
RULE = ("one run = two or three analyses on simulated threads, on shared or separate case and options, interleaved by a seeded "
        "schedule of switches at source-line granularity, some of them struck by solver faults or cancelled; each outcome and "
        "each thread's output is compared with the same analysis run alone; non-trivial when control switched at least twice")
REAL, STUB = C.REAL + ["threading.Thread"], C.STUB + ["thread scheduler"]
ASSUME = C.ASSUME + ["a switch can happen at any source line of pypower; single lines are atomic",
                     "random tie-breaking in unit decommitment is excluded from comparison where it matters"]
PROBES = ["shared-case", "shared-opts", "separate", "three", "solve-fault", "cancelled", "uopf", "cpf", "opf", "pf", "printing",
          "saved", "preempt", "convert", "reports"]
JOBS = ["runpf", "runpf", "rundcpf", "runopf", "runopf", "rundcopf", "runuopf", "runcpf", "opf", "savecase", "convert"]


def gen(r, tier, i):
    n = r.choice([2, 2, 2, 3])
    shared = r.random() < 0.6
    spec0 = netgen.rand_spec(r, feats=BASEF + ["ints"], stocks=("case6ww", "case9", "case14", "case30"), maxnb=8)
    jobs = []
    same_entry = r.choice(JOBS) if r.random() < 0.4 else None
    for k in range(n):
        e = same_entry or r.choice(JOBS)
        spec = spec0
        if not shared:
            spec = netgen.rand_spec(r, feats=BASEF + ["ints"], stocks=("case6ww", "case9", "case14"), maxnb=8)
            spec["feat"] = sorted(set(spec["feat"] + r.sample(netgen.OPF_FEATURES, r.choice([0, 1, 2]))))
        o = {}
        if e == "runpf":
            o.update(PF_ALG=r.choice([1, 1, 2, 3, 4]), ENFORCE_Q_LIMS=r.choice([0, 0, 1, 2]))
        if e in ("runopf", "opf"):
            o.update(OPF_ALG=r.choice([0, 560, 565]), OPF_FLOW_LIM=r.choice([0, 1, 2]))
        if e == "runcpf":
            o.update(CPF_STOP_AT=r.choice(["NOSE", 0.5]), CPF_STEP=r.choice([0.3, 1.0]), CPF_PARAMETERIZATION=r.choice([1, 2, 3]))
        if e == "runuopf":
            o["PF_DC"] = r.random() < 0.5
        if r.random() < 0.3:
            o.update(VERBOSE=r.choice([1, 2, 3]), OUT_ALL=r.choice([0, 1]))
        if r.random() < 0.3:
            o["PF_TOL"] = r.choice([1e-4, 1e-6])
        if r.random() < 0.2:
            o["PDIPM_MAX_IT"] = r.choice([2, 8])
        job = {"entry": e, "case": spec, "opts": o, "faults": []}
        if r.random() < 0.25:
            job["faults"] += solve_faults(r, n=1, maxat=10)
        if r.random() < 0.2:
            job["faults"].append({"seam": "line", "at": int(10 ** r.uniform(0.5, 3.6)),
                                  "kind": r.choice(["SimCancel", "MemoryError", "KeyboardInterrupt"])})
        if r.random() < 0.15:
            job["report"] = True
        jobs.append(job)
    if r.random() < 0.5:
        # preemption mode: job 0 is stopped at chosen source lines and a whole analysis runs there
        a, b = jobs[0], jobs[1]
        if r.random() < 0.7:
            b = copy.deepcopy(a)
            b["opts"] = dict(b["opts"], **{k: v for k, v in jobs[1]["opts"].items() if k in ("PF_TOL", "PDIPM_MAX_IT", "OPF_FLOW_LIM")})
            if not shared:
                b["case"] = jobs[1]["case"]
        for q in (a, b):
            q["faults"] = [f for f in q["faults"] if f["seam"] != "line"]
            q["opts"]["VERBOSE"] = 0
        k = {"runuopf": 3, "runcpf": 4, "runopf": 8, "opf": 10, "rundcopf": 16}.get(b["entry"], 50)
        return {"jobs": [a, b], "shared": shared, "sharedopts": False, "first": r.choice(["conc", "solo"]),
                "pre": [r.randrange(10**9) for _ in range(k)], "sched": [],
                "x": {"seed": r.randrange(10**6), "f": 2, "p": 0.7, "g": True}}
    scale = r.choice([3, 30, 300, 2000])
    sched = [[1 + int(r.expovariate(1.0 / scale)), r.randrange(n)] for _ in range(r.choice([5, 20, 60, 150]))]
    return {"jobs": jobs, "shared": shared, "sharedopts": r.random() < 0.6, "sched": sched,
            "first": r.choice(["conc", "conc", "solo"]), "x": {"seed": r.randrange(10**6), "f": 2, "p": 0.7, "g": True}}


def strip(v):
    """Result without elapsed time and model object."""
    if isinstance(v, tuple):
        return tuple(strip(x) for x in v)
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if k not in ("et", "om")}
    return v


TIME = re.compile(r"(?<=in |e \()-?[0-9.]+ seconds")


def run(scn):
    import importlib
    ctx = Ctx()
    sim = Sim(seed=7, faults=[], disk=True)
    mods = {e: api(e) for e in ("runpf", "rundcpf", "runopf", "rundcopf", "runuopf", "runcpf", "opf", "savecase", "ext2int",
                                "int2ext", "loadcase", "ppoption")}
    for m in ("cpf_callbacks", "cpf_corrector", "printpf", "i2e_data"):
        importlib.import_module("pypower." + m)
    shared = netgen.build(scn["jobs"][0]["case"])
    sharedt = transfer(shared, scn["x"])
    sopt = quiet(**scn["jobs"][0]["opts"])

    jobs = list(scn["jobs"])
    pre = scn.get("pre")
    points = None
    if pre:
        jobs = [jobs[0]] + [jobs[1]] * len(pre)

    def prepare(tag):
        fns = []
        sc, st, so = copy.deepcopy((shared, sharedt, sopt))
        for j, job in enumerate(jobs):
            ppc, tgt = (sc, st) if scn["shared"] else (netgen.build(job["case"]),) * 2
            if not scn["shared"]:
                tgt = transfer(ppc, scn["x"])
            opt = so if scn["sharedopts"] else quiet(**job["opts"])
            e = job["entry"]
            fname = sim.disk.path("rep%d%s.txt" % (j, tag)) if job.get("report") and e.startswith("run") else ""

            def fn(e=e, ppc=ppc, tgt=tgt, opt=opt, fname=fname, j=j):
                if e == "runcpf":
                    return mods[e](ppc, tgt, opt, fname)
                if e == "opf":
                    return mods[e](ppc, opt)
                if e == "savecase":
                    p = sim.disk.path("case%d%s.py" % (j, tag))
                    mods[e](p, copy.deepcopy(ppc))
                    return mods["loadcase"](p)
                if e == "convert":
                    c = mods["ext2int"](ppc)
                    return mods["int2ext"](c)
                return mods[e](ppc, opt, fname)
            fns.append(fn)
        return fns
    names = ["t%d" % j for j in range(len(jobs))]

    def report(j, tag):
        n = "rep%d%s.txt" % (j, tag)
        return TIME.sub("T seconds", sim.disk.read_bytes(n).decode()) if sim.disk.exists(n) else None

    if pre:
        # where job 0 executes which source line
        sim.trace = []
        fns = prepare("t")
        sim.run(fns[0], "trace", faults=jobs[0]["faults"], budget=400000)
        tr, sim.trace = sim.trace, None
        occ = {}
        for n, site in enumerate(tr):
            occ.setdefault(site, []).append(n + 1)
        sites = sorted(occ)
        points = {}
        for k, v in enumerate(pre):
            if sites:
                w = occ[sites[v % len(sites)]]
                points.setdefault((0, w[v // len(sites) % len(w)]), k + 1)
        sim.probe("preempt", len(points))

    def conc():
        fns = prepare("c")
        res, tasks = run_threads(sim, [(names[j], fns[j], jobs[j]["faults"]) for j in range(len(fns))], scn["sched"],
                                 budget=400000, points=points)
        return [(k, strip(v) if k == "ok" else v, TIME.sub("T seconds", "".join(t.out)), report(j, "c"))
                for j, ((k, v), t) in enumerate(zip(res, tasks))]

    def solo(tag="s", seed=7):
        fns = prepare(tag)
        if pre:
            fns = fns[:2]
        out = []
        old, sim.seed = sim.seed, seed
        for j, fn in enumerate(fns):
            k, v = sim.run(fn, names[j] + tag, faults=jobs[j]["faults"], budget=400000)
            out.append((k, strip(v) if k == "ok" else v, TIME.sub("T seconds", "".join(sim.last_task.out)), report(j, tag)))
        sim.seed = old
        return out if not pre else [out[0]] + [out[1]] * len(pre)
    if scn["first"] == "solo":
        s, c = solo(), conc()
    else:
        c, s = conc(), solo()
    sw = sim.switches
    if scn["shared"]:
        sim.probe("shared-case")
    else:
        sim.probe("separate")
    if scn["sharedopts"]:
        sim.probe("shared-opts")
    if len(names) == 3 and not pre:
        sim.probe("three")
    other = None
    key = []
    for j, job in enumerate(jobs):
        e = job["entry"]
        sim.probe({"runuopf": "uopf", "runcpf": "cpf", "runpf": "pf", "rundcpf": "pf", "savecase": "saved", "convert": "convert"}.get(e, "opf"))
        if job.get("report"):
            sim.probe("reports")
        (k1, v1, o1, r1), (k2, v2, o2, r2) = s[j], c[j]
        if isinstance(v1, SimBudget) or isinstance(v2, SimBudget):
            continue
        if e == "runuopf":
            if other is None:
                other = solo("x", 99)
            if other[j][0] != k1 or (k1 == "ok" and same(v1, other[j][1])):
                sim.probe("tie")
                continue
        if any(f.startswith("solve") for f in sim.fired):
            sim.probe("solve-fault")
        if any(f.startswith("line") for f in sim.fired):
            sim.probe("cancelled")
        key.append((e, k1))
        what = "%s (thread %d of %d, %d switches)" % (e, j, len(names), sw)
        if k1 != k2:
            ctx.bad("outcome", "%s: alone %s, concurrently %s" % (what, k1 if k1 == "ok" else excname(v1),
                                                                  k2 if k2 == "ok" else excname(v2)))
        elif k1 == "exc":
            if excname(v1) != excname(v2):
                ctx.bad("outcome", "%s: alone %s, concurrently %s" % (what, excname(v1), excname(v2)))
        else:
            d = same(v1, v2, "result")
            if d:
                ctx.bad("result", "%s: %s" % (what, d))
        if o1:
            sim.probe("printing")
        if o1 != o2:
            ctx.bad("output", "%s printed something else than alone (%d and %d characters)" % (what, len(o2), len(o1)))
        if r1 != r2:
            ctx.bad("report", "%s wrote another report than alone" % what)
    return finish(sim, ctx, repr((sorted(key), scn["shared"])) if sw >= 2 else None)


def shrinks(scn):
    n = len(scn["jobs"])
    if scn.get("pre") and len(scn["pre"]) > 1:
        for q in scn["pre"]:
            yield dict(scn, pre=[q])
    if n > 2:
        for k in range(n):
            jobs = scn["jobs"][:k] + scn["jobs"][k + 1:]
            yield dict(scn, jobs=jobs, sched=[[g, t % (n - 1)] for g, t in scn["sched"]])
    for j in range(n):
        if scn["jobs"][j]["faults"]:
            jobs = copy.deepcopy(scn["jobs"])
            jobs[j]["faults"] = []
            yield dict(scn, jobs=jobs)
        if scn["jobs"][j]["opts"]:
            jobs = copy.deepcopy(scn["jobs"])
            jobs[j]["opts"] = {}
            yield dict(scn, jobs=jobs)
        for s in netgen.shrink_spec(scn["jobs"][j]["case"]):
            jobs = copy.deepcopy(scn["jobs"])
            jobs[j]["case"] = s
            if scn["shared"]:
                for q in jobs:
                    q["case"] = s
            yield dict(scn, jobs=jobs)
    if scn.get("pre"):
        for q in scn["pre"]:
            if len(scn["pre"]) > 1:
                yield dict(scn, pre=[q])
        return
    sc = scn["sched"]
    m = len(sc)
    for q in (m // 2, m // 4, 1):
        if q and m > q:
            yield dict(scn, sched=sc[:m - q])
            for a in range(0, m, max(q, 1)):
                if a + 1 < m:
                    # dropping switches keeps later ones at the same distance
                    yield dict(scn, sched=sc[:a] + sc[a + q:])
