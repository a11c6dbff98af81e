"""C14 user callbacks: registration history, order, arguments, returned values, failures."""
import copy
import random
import re

import numpy as np

from .. import netgen
from ..sim import Sim
from .common import *  # noqa: F401,F403
from . import common as C
from .c04 import BASEF

ID = "C14"
RUNS = {"quick": 500, "thorough": 9000}
RULE = ("one run = a seeded history of registering and removing callbacks on a case, saving it and running analyses on it, with "
        "callbacks that log, replace what they are given, write to the report, raise at a chosen invocation, and with solver "
        "faults and cancellations; a plain list per stage is the model; non-trivial when at least one callback of an analysis ran")
REAL = C.REAL + ["report and case files in a scratch directory"]
STUB = C.STUB + ["raw file layer"]
ASSUME = C.ASSUME
PROBES = ["ran-ext2int", "ran-formulation", "ran-int2ext", "ran-printpf", "ran-savecase", "duplicate-refused", "duplicate-allowed",
          "removed", "removed-last-instance", "remove-missing", "bad-stage", "returned-new", "args-passed", "raised", "raised-in-formulation",
          "raised-in-printpf", "raised-in-savecase", "rerun-after-raise", "solver-fault", "cancelled", "uopf-repeats", "cpf-both-cases",
          "quiet-run", "chained", "effect-loads", "effect-model", "nested-run", "explicit-list"]
STAGES = ["ext2int", "formulation", "int2ext", "printpf", "savecase"]
ENTRIES = ["runpf", "rundcpf", "runopf", "rundcopf", "rundcopf", "runuopf", "runcpf"]
ARGS = [None, None, {}, [], {"a": [1, 2], "b": "x"}, [1, 2], 3.5, 0, "txt", "", ("t", 1), "arr", "arr0", True, False]
EXCS = ["CallbackError", "KeyboardInterrupt", "MemoryError", "StopIteration", "KeyError", "OSError", "ValueError"]
NF = 4


class CallbackError(Exception):
    pass


def gen(r, tier, i):
    spec = netgen.rand_spec(r, feats=BASEF, nfeat=r.choice([1, 2, 3]), maxnb=6, stocks=("case9", "case6ww"))
    spec["feat"] = sorted(set(spec["feat"] + r.sample(["dispload", "pwl", "areas"], r.choice([0, 0, 1]))))
    ops = []
    for _ in range(r.choice([3, 5, 8])):
        ops.append(add(r))
    for _ in range(r.choice([1, 2, 3, 4])):
        for _ in range(r.choice([0, 1, 2, 3])):
            ops.append(add(r) if r.random() < 0.45 else {"o": "rem", "st": r.choice(STAGES), "f": r.randrange(NF)})
        if r.random() < 0.2:
            op = {"o": "save", "n": r.choice(["a", "b"])}
        else:
            e = r.choice(ENTRIES)
            op = {"o": "run", "e": e, "out": r.choice([0, 1, 1, -1, -1]), "rep": r.choice(["", "", "log.txt"]), "solved": r.random() < 0.25,
                  "s": r.randrange(10**6), "chain": r.random() < 0.3, "it": r.random() < 0.1}
            if e == "runcpf":
                op["tgt"] = r.choice(["same", "none", "less"])
            if e in ("runopf", "rundcopf") and r.random() < 0.2:
                op["form"] = "list"
        k = r.choice(["", "", "", "raise", "raise", "raise", "solve", "line"])
        if k == "raise":
            op["f"] = {"k": k, "at": round(r.random(), 4), "kind": r.choice(EXCS)}
        elif k == "solve" and op["o"] == "run":
            op["f"] = {"k": k, "l": C.solve_faults(r)}
        elif k == "line":
            op["f"] = {"k": k, "at": round(r.random(), 4), "kind": r.choice(["KeyboardInterrupt", "MemoryError", "SimCancel"])}
        ops.append(op)
    return {"case": spec, "ops": ops, "cb": r.randrange(10**6), "faults": []}


def add(r):
    st = r.choice(STAGES) if r.random() < 0.97 else "solve"
    return {"o": "add", "st": st, "f": r.randrange(NF), "a": r.randrange(len(ARGS)), "multi": r.random() < 0.3, "pos": r.random() < 0.5}


def mkarg(k):
    a = ARGS[k]
    if isinstance(a, str) and a.startswith("arr"):
        return np.array([1.0, 2.0]) if a == "arr" else np.zeros(0)
    return copy.deepcopy(a)


class State:
    """What the callbacks of one run saw."""

    def __init__(self):
        self.reset()

    def reset(self, boom=None, exc=None):
        self.calls = []         # (stage, fid, args, tokens seen)
        self.bad = []
        self.boom, self.exc = boom, exc

    def enter(self, stage, fid, args, tok):
        self.calls.append((stage, fid, copy.deepcopy(args), tuple(tok)))
        if self.boom is not None and len(self.calls) - 1 == self.boom:
            raise self.exc
        if stage == "savecase":
            return
        if isinstance(args, dict) and args:
            args["mutated"] = 1         # a callback may scribble on its own arguments
        elif isinstance(args, list) and args:
            args.append("mutated")


def scrub(a):
    if isinstance(a, dict):
        a = {k: v for k, v in a.items() if k != "mutated"}
    elif isinstance(a, list):
        a = [v for v in a if v is not a and not (isinstance(v, str) and v == "mutated")]
    return a


def make(stage, fid, style, st, nested):
    """One user callback."""
    def fresh(d, key):
        t = tuple(d.get(key, ())) + (fid,)
        if style == "new" or stage == "savecase":
            d = dict(d)         # savecase hands out the case itself
        elif style == "deep":
            d = copy.deepcopy(d)
        d[key] = t
        return d

    def ext2int(ppc, args):
        if ppc.get("order", {}).get("state") != "i" or not arrays_equal(ppc["bus"][:, 0], np.arange(len(ppc["bus"]))):
            st.bad.append(("stage-wrong-state", "ext2int callback got a case that is not in internal order"))
        st.enter(stage, fid, args, ppc.get("tok_e", ()))
        if nested is not None:
            nested()
        ppc = fresh(ppc, "tok_e")
        if style == "scale":
            ppc["bus"][:, 2] *= 1.01
        return ppc

    def formulation(om, args):
        if om.getN("var", "Va") < 1:
            st.bad.append(("stage-wrong-state", "formulation callback got a model without the standard variables"))
        st.enter(stage, fid, args, getattr(om, "tok_f", ()))
        if style in ("new", "deep"):
            om = copy.deepcopy(om)
        om.tok_f = tuple(getattr(om, "tok_f", ())) + (fid,)
        n = len(om.tok_f)
        om.add_vars("u%d" % n, 1, np.array([0.5]), np.array([fid + 0.25]), np.array([fid + 0.25]))
        return om

    def int2ext(res, args):
        if res.get("order", {}).get("state") != "i":
            st.bad.append(("stage-wrong-state", "int2ext callback got a case that is not in internal order"))
        st.enter(stage, fid, args, res.get("tok_i", ()))
        return fresh(res, "tok_i")

    def printpf(res, fd, ppopt, args):
        if res.get("order", {}).get("state") != "e" or "OUT_ALL" not in ppopt:
            st.bad.append(("stage-wrong-state", "printpf callback got no finished result or no options"))
        st.enter(stage, fid, args, res.get("tok_p", ()))
        fd.write("<<print %d>>\n" % fid)
        return fresh(res, "tok_p")

    def savecase(ppc, fd, prefix, args):
        if prefix != "ppc":
            st.bad.append(("stage-wrong-state", "savecase callback got prefix %r" % (prefix,)))
        st.enter(stage, fid, args, ppc.get("tok_s", ()))
        fd.write("\n    # <<save %d>>\n    %s['extra%d'] = %d\n" % (fid, prefix, fid, fid))
        return fresh(ppc, "tok_s")
    f = locals()[stage]
    f.__name__ = f.__qualname__ = "cb_%s_%d" % (stage, fid)
    return f


def expected(e, regs, tgt, op):
    """The calls each part of the run makes: (prefix, repeated part, suffix)."""
    def of(reg, st):
        return [(st, f, a) for f, a in reg.get(st, [])]
    out = op["out"] != 0
    tail = (of(tgt, "printpf") if out else []) + (of(tgt, "savecase") if op["solved"] else [])
    if e in ("runpf", "rundcpf"):
        return of(regs, "ext2int") + of(regs, "int2ext"), [], tail
    if e == "runcpf":
        return of(regs, "ext2int") + of(tgt, "ext2int") + of(tgt, "int2ext"), [], tail
    grp = of(regs, "ext2int") + of(regs, "formulation") + of(regs, "int2ext")
    return grp, (grp if e == "runuopf" else []), tail


def eqarg(a, b):
    return type(a) is type(b) and same(a, b) is None


def match(ctx, calls, pre, rep, tail, done, what):
    """Does the log of calls follow the plan (a prefix of it, for a run that raised)?"""
    seq = list(pre)
    if rep:
        while len(seq) + len(tail) + len(rep) <= len(calls) or (not done and len(seq) < len(calls)):
            seq += rep
    if not (rep and not done):
        seq += tail
    if done and len(calls) != len(seq):
        ctx.bad("wrong-callbacks", "%s: called %s instead of %s" % (what, [c[:2] for c in calls], [s[:2] for s in seq]))
        return False
    if rep and not done:
        # shutdown search broken off, or a report or save callback raised
        alts = [seq]
        k = len(pre)
        while k <= len(calls):
            alts.append((list(pre) + rep * ((k - len(pre)) // len(rep))) + tail)
            k += len(rep)
        if not any(all(a[:2] == b[:2] for a, b in zip(calls, s)) and len(calls) <= len(s) for s in alts):
            ctx.bad("wrong-callbacks", "%s: called %s" % (what, [c[:2] for c in calls]))
            return False
        seq = [s for s in alts if all(a[:2] == b[:2] for a, b in zip(calls, s)) and len(calls) <= len(s)][0]
    seen = {}
    for n, (a, b) in enumerate(zip(calls, seq)):
        if a[:2] != b[:2]:
            ctx.bad("wrong-callbacks", "%s: call %d was %s instead of %s" % (what, n, a[:2], b[:2]))
            return False
        want = [] if ARGS[b[2]] is None else mkarg(b[2])
        if not eqarg(scrub(a[2]), scrub(want)):
            ctx.bad("wrong-args", "%s: %s got args %r instead of %r" % (what, a[:2], a[2], want))
            return False
    # what each returned reaches the next of its stage
    prev = None
    for a in calls:
        if prev is None or prev[0] != a[0] or len(a[3]) == 0:
            seen = tuple(a[3])
        elif a[3][:len(seen)] != seen or a[3][-1:] != (prev[1],):
            if a[3] != first.get(a[0]):
                ctx.bad("returned-value-lost", "%s: %s saw the marks %s after %s" % (what, a[:2], a[3], prev[:2]))
                return False
            seen = tuple(a[3])
        else:
            seen = tuple(a[3])
        if prev is None or prev[0] != a[0]:
            first = {a[0]: tuple(a[3])}
        prev = a
    return True


def run(scn):
    ctx = Ctx()
    sim = Sim(seed=29, disk=True, chunk=512)
    disk = sim.disk
    ppc = netgen.build(scn["case"])
    api_add, api_rem = api("add_userfcn"), api("remove_userfcn")
    r0 = random.Random(scn["cb"])
    st = State()
    small = netgen.build({"stock": "case9"}) if r0.random() < 0.15 else None

    def nested():
        api("rundcpf")(small, quiet())
        sim.probe("nested-run")
    fns = {}
    for s in STAGES + ["solve"]:
        for k in range(NF):
            style = r0.choice(["same", "new", "deep", "scale"])
            fns[s, k] = make(s if s != "solve" else "ext2int", k, style, st, nested if small is not None and r0.random() < 0.3 else None)
            fns[s, k].style = style
    reg = {}
    key = []
    total = 0
    for n, op in enumerate(scn["ops"]):
        if ctx.v:
            break
        what = "op %d %s" % (n, op["o"])
        if op["o"] == "add":
            s, f, a = op["st"], op["f"], op["a"]
            snap = copy.deepcopy(ppc)
            arg = mkarg(a)
            fn = fns[s, f]
            kw = {"allow_multiple": True} if op["multi"] else {}
            if ARGS[a] is None and op["pos"]:
                go = lambda: api_add(ppc, s, fn, **kw)
            elif op["pos"]:
                go = lambda: api_add(ppc, s, fn, arg, **kw)
            else:
                go = lambda: api_add(ppc, s, fn, args=arg, **kw)
            kind, val = sim.run(go)
            dup = any(x == f for x, _ in reg.get(s, []))
            if s == "solve" or (dup and not op["multi"]):
                sim.probe("bad-stage" if s == "solve" else "duplicate-refused")
                d = same(effective(snap), effective(ppc))
                if d:
                    ctx.bad("rejected-but-added", "%s: a %s was registered all the same (%s)" % (what, "duplicate" if dup else "callback for no stage", d))
                if kind == "ok":
                    ppc = val
                continue
            if kind == "exc":
                ctx.bad("registration-failed", "%s %s args %r: %s" % (what, s, ARGS[a], excname(val)))
                break
            if val is None or "userfcn" not in val:
                ctx.bad("registration-failed", "%s returned %r" % (what, type(val)))
                break
            ppc = val
            if dup:
                sim.probe("duplicate-allowed")
            reg.setdefault(s, []).append((f, a))
            listed(ctx, ppc, reg, fns, what)
        elif op["o"] == "rem":
            s, f = op["st"], op["f"]
            kind, val = sim.run(lambda: api_rem(ppc, s, fns[s, f]))
            idx = [k for k, x in enumerate(reg.get(s, [])) if x[0] == f]
            if idx:
                if kind == "exc":
                    ctx.bad("removal-failed", "%s: %s" % (what, excname(val)))
                    break
                ppc = val
                del reg[s][idx[-1]]
                sim.probe("removed-last-instance" if len(idx) > 1 else "removed")
            else:
                sim.probe("remove-missing")
                if kind == "ok" and val is not None:
                    ppc = val
            listed(ctx, ppc, reg, fns, what)
        else:
            ppc = once(ctx, sim, disk, scn, op, n, ppc, reg, fns, st, key)
        total += len(st.calls)
        st.reset()
        sim.log(n, op["o"], len(ctx.v))
    return finish(sim, ctx, repr(key) if key else None)


def effective(ppc):
    u = ppc.get("userfcn", {})
    return {k: v for k, v in u.items() if k in STAGES and len(v)}


def listed(ctx, ppc, reg, fns, what):
    """The case lists what is registered."""
    got = effective(ppc)
    want = {s: v for s, v in reg.items() if v}
    if sorted(got) != sorted(want):
        ctx.bad("wrong-registrations", "%s: stages %s instead of %s" % (what, sorted(got), sorted(want)))
        return
    for s in want:
        if [e["fcn"] for e in got[s]] != [fns[s, f] for f, _ in want[s]]:
            ctx.bad("wrong-registrations", "%s: %s lists %s instead of %s" % (what, s, [e["fcn"].__name__ for e in got[s]], want[s]))
            return


def once(ctx, sim, disk, scn, op, n, ppc, reg, fns, st, key):
    what = "op %d %s" % (n, op.get("e", "save"))
    f = op.get("f") or {}
    tgtreg = reg
    if op["o"] == "save":
        e = "save"
        disk.write_bytes(op["n"] + ".py", b"")
        path = disk.path(op["n"] + ".py")
        pre, rep, tail = [], [], [("savecase", k, a) for k, a in reg.get("savecase", [])]
        go = lambda: api("savecase")(path, ppc)
        args = [ppc]
    else:
        e = op["e"]
        o = api("ppoption")(VERBOSE=0, OUT_ALL=op["out"])
        if op.get("it"):
            o.update(PF_MAX_IT=1, PDIPM_MAX_IT=2)
        rep_f = disk.path(op["rep"]) if op["rep"] else ""
        sv = disk.path("solved.py") if op["solved"] else ""
        args = [ppc]
        if e == "runcpf":
            t = copy.deepcopy(ppc)
            t["bus"] = t["bus"].astype(float)
            t["bus"][:, 2:4] *= 1.3
            t["gen"] = t["gen"].astype(float)
            t["gen"][:, 1] *= 1.3
            if op["tgt"] == "none":
                t.pop("userfcn", None)
                tgtreg = {}
            elif op["tgt"] == "less" and reg.get("ext2int"):
                t = api("remove_userfcn")(t, "ext2int", fns["ext2int", reg["ext2int"][-1][0]])
                tgtreg = dict(reg, ext2int=reg["ext2int"][:-1])
            o.update(CPF_STOP_AT="NOSE", CPF_STEP=0.3)
            args.append(t)
            go = lambda: api(e)(args[0], args[1], o, rep_f, sv)
        elif op.get("form") == "list":
            # registrations given apart from the case
            u = ppc.get("userfcn", {})
            bare = {k: v for k, v in ppc.items() if k != "userfcn"}
            if op["s"] % 2 and reg.get("ext2int"):
                bare["userfcn"] = {"ext2int": [{"fcn": fns["ext2int", (reg["ext2int"][0][0] + 1) % NF]}]}   # the list given counts
            args = [bare, u]
            o["PF_DC"] = e == "rundcopf"
            rep_f = sv = ""
            op = dict(op, out=0, solved=False)
            go = lambda: api("opf")(bare, u, o)
            sim.probe("explicit-list")
        else:
            go = lambda: api(e)(ppc, o, rep_f, sv)
        pre, rep, tail = expected(e, reg, tgtreg, op)
    snap = copy.deepcopy(args)
    st.reset()
    faults = []
    boom = None
    if f.get("k") == "raise":
        m = len(pre) + len(tail)
        if m:
            boom = min(m - 1, int(f["at"] * m))
            exc = {"CallbackError": CallbackError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError,
                   "StopIteration": StopIteration, "KeyError": KeyError, "ValueError": ValueError}[f["kind"]]("from the callback")
            st.reset(boom, exc)
    elif f.get("k") == "solve":
        faults = f["l"]
    elif f.get("k") == "line":
        kind, val = sim.run(go)
        L = sim.last_task.lines
        st.reset()
        faults = [{"seam": "line", "at": max(1, int(f["at"] * L)), "kind": f["kind"]}]
    fired0 = sim.nfired
    log0 = disk.read_bytes("log.txt") if disk.exists("log.txt") else b""
    old = disk.read_bytes("solved.py") if disk.exists("solved.py") else None
    kind, val = sim.run(go, faults=faults, solve_budget=4000)
    calls = list(st.calls)
    hit = sim.nfired > fired0
    if disk.leaked():
        ctx.bad("handle-left-open", "%s: %s" % (what, disk.leaked()))
        disk.close_all()
    for c, m in st.bad:
        ctx.bad(c, "%s: %s" % (what, m))
    for a, b in zip(snap, args):
        if op["o"] == "save":
            a["version"] = b["version"]         # documented
        d = same(a, b, "case")
        if d:
            ctx.bad("case-changed", "%s %s: %s" % (what, f.get("k", ""), d))
    for c in calls:
        sim.probe("ran-" + c[0])
    if boom is not None and len(calls) > boom:
        sim.probe("raised")
        stage = calls[-1][0]
        if stage in ("formulation", "printpf", "savecase"):
            sim.probe("raised-in-" + stage)
        if kind != "exc" or val is not st.exc:
            ctx.bad("callback-error-lost", "%s: %s raised %s, the run gave %s" % (what, calls[boom][:2], type(st.exc).__name__,
                    excname(val) if kind == "exc" else "a result"))
        if len(calls) != boom + 1:
            ctx.bad("called-after-error", "%s: %s ran after %s had raised" % (what, [c[:2] for c in calls[boom + 1:]], calls[boom][:2]))
        match(ctx, calls, pre, rep, tail, False, what)
        if op["o"] == "run" and stage != "savecase" and old is not None and disk.read_bytes("solved.py") != old:
            ctx.bad("saved-after-error", "%s: solved case written although a callback raised" % what)
        sim.probe("rerun-after-raise")      # the next step runs the same case
        key.append((e, "raise", stage))
        return ppc
    if kind == "exc" and (hit or f.get("k") == "solve"):
        if f.get("k") == "line":
            sim.probe("cancelled")
        match(ctx, calls, pre, rep, tail, False, what)
        return ppc
    if kind == "exc":
        if boom is None or len(calls) <= boom:
            ctx.bad("run-failed", "%s with callbacks %s: %s" % (what, {s: [x[0] for x in v] for s, v in reg.items()}, excname(val)))
        return ppc
    if hit and f.get("k") == "solve":
        sim.probe("solver-fault")
    if f.get("k") == "line" and hit:
        return ppc
    if not match(ctx, calls, pre, rep, tail, True, what):
        return ppc
    if calls:
        key.append((e, len(calls)))
    if any(fns[c[0], c[1]].style in ("new", "deep") for c in calls):
        sim.probe("returned-new")
    if any(ARGS[a] for s in reg.values() for _, a in s):
        sim.probe("args-passed")
    if rep and len(calls) > len(pre) + len(tail):
        sim.probe("uopf-repeats")
    if op["o"] == "save":
        text = disk.read_bytes(op["n"] + ".py").decode()
        want = ["# <<save %d>>" % k for k, _ in reg.get("savecase", [])]
        if [x.strip() for x in text.split("\n") if "<<save" in x] != want:
            ctx.bad("savecase-output-lost", "%s: file lacks what the callbacks wrote" % what)
        k2, v2 = sim.run(lambda: api("loadcase")(disk.path(op["n"] + ".py")))
        if k2 == "exc":
            ctx.bad("saved-case-broken", "%s: %s" % (what, excname(v2)))
        elif any(v2.get("extra%d" % k) != k for k, _ in reg.get("savecase", [])):
            ctx.bad("savecase-output-lost", "%s: loaded case lacks what the callbacks wrote" % what)
        return ppc
    # what the stages returned reaches the result
    res = val[0] if isinstance(val, tuple) else val
    if not op["out"]:
        sim.probe("quiet-run")
    order = [k for k, _ in tgtreg.get("ext2int", [])]
    for tk, stg, rg in (("tok_e", "ext2int", tgtreg), ("tok_i", "int2ext", tgtreg)):
        want = tuple(args[-1 if e == "runcpf" else 0].get(tk, ())) + tuple(k for k, _ in rg.get(stg, []))
        if tuple(res.get(tk, ())) != want:
            ctx.bad("returned-value-lost", "%s: result carries the marks %s of stage %s instead of %s" % (what, res.get(tk), stg, want))
    if e in ("runopf", "rundcopf", "runuopf"):
        ids = [k for k, _ in reg.get("formulation", [])]
        om = res.get("om")
        if tuple(getattr(om, "tok_f", ())) != tuple(ids):
            ctx.bad("returned-value-lost", "%s: model carries the marks %s instead of %s" % (what, getattr(om, "tok_f", ()), ids))
        elif res["success"]:
            for m, k in enumerate(ids):
                x = res["var"]["val"].get("u%d" % (m + 1))
                if x is None or abs(float(np.ravel(x)[0]) - (k + 0.25)) > 1e-5:
                    ctx.bad("returned-value-lost", "%s: variable added by formulation callback %d is %r" % (what, k, x))
                sim.probe("effect-model")
    if e in ("runpf", "rundcpf", "runopf", "rundcopf"):
        b0, b1 = args[0]["bus"], res["bus"]
        live = b0[:, 1] != 4
        fac = 1.01 ** sum(fns["ext2int", k].style == "scale" for k in order)
        if not np.allclose(b1[live, 2], b0[live, 2] * fac, rtol=1e-9, atol=1e-12):
            ctx.bad("returned-value-lost", "%s: loads scaled by the ext2int callbacks did not reach the result" % what)
        if fac > 1:
            sim.probe("effect-loads")
    if e == "runcpf":
        sim.probe("cpf-both-cases")
    if op["out"]:
        if op["rep"]:
            t = disk.read_bytes("log.txt")[len(log0):].decode()
        else:
            t = sim.out_text()
        want = ["<<print %d>>" % k for k, _ in tgtreg.get("printpf", [])]
        if re.findall("<<print [0-9]+>>", t) != want:
            ctx.bad("printed-elsewhere", "%s: the printpf callbacks did not write to the report" % what)
    if "userfcn" in res:
        listed(ctx, res, tgtreg, fns, what + " result")
    elif any(tgtreg.values()) and op.get("form") != "list":
        ctx.bad("wrong-registrations", "%s: result lost the registrations" % what)
    if op["chain"] and res["success"] and e != "runcpf" and op.get("form") != "list" and np.isfinite(res["bus"]).all():
        sim.probe("chained")
        return res
    return ppc


def shrinks(scn):
    ops = scn["ops"]
    for j in range(len(ops)):
        yield dict(scn, ops=ops[:j] + ops[j + 1:])
    for j, op in enumerate(ops):
        for k in ("f", "chain", "solved", "rep", "form", "it"):
            if op.get(k):
                yield dict(scn, ops=ops[:j] + [dict(op, **{k: None if k == "f" else "" if k == "rep" else False})] + ops[j + 1:])
        if op["o"] == "add" and op["a"]:
            yield dict(scn, ops=ops[:j] + [dict(op, a=0)] + ops[j + 1:])
    for s in netgen.shrink_spec(scn["case"]):
        yield dict(scn, case=s)
