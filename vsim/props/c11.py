"""C11 disk failures and crashes while saving or loading a case."""
import copy
import random
import struct

import numpy as np

from .. import netgen
from ..sim import Sim, SimBudget, SimCrash
from .common import *  # noqa: F401,F403
from . import common as C
from . import c10

ID = "C11"
RUNS = {"quick": 1600, "thorough": 20000}
RULE = ("one run = one case and file format with a plan of disk faults, a crash or a cancellation during a save or load, or a "
        "truncation of the finished file at many points; afterwards the file is loaded on a healthy disk and compared with the "
        "complete cases that were ever saved under that name; non-trivial when a fault fired or a truncated file was loaded")
REAL, STUB = c10.REAL, c10.STUB + ["disk errors and process death at raw file operations"]
ASSUME = C.ASSUME + ["a crash keeps every byte handed to the kernel (process death, not power failure)",
                     "silent corruption inside a file is not modelled: neither format carries a checksum"]
PROBES = ["open-failed", "write-failed", "close-failed", "crashed", "cancelled-save", "cancelled-load", "read-failed", "callback-raised",
          "old-case-survived", "new-case-loaded", "unloadable-after", "cut-loaded-complete", "cut-refused", "retry-ok", "two-formats"]


class CallbackError(Exception):
    pass


def gen(r, tier, i):
    mode = r.choice(["save", "save", "save", "load", "cut", "cut"])
    ext = r.choice([".py", ".mat"])
    scn = {"mode": mode, "ext": ext, "new": c10.rand_case(r, tier), "chunk": r.choice([64, 512, 4096]), "faults": []}
    for d in (scn["new"],):
        d["v"].pop("v1", None)
    if mode == "save":
        if r.random() < 0.6:
            scn["old"] = c10.rand_case(r, tier)
            scn["old"]["v"].pop("v1", None)
        k = r.choice(["open", "write", "write", "write", "close", "line", "line", "callback", "none"])
        if k == "open":
            scn["faults"].append({"seam": "open", "at": r.choice([0, 0, 0, 1]), "kind": r.choice(["eacces", "enospc", "emfile", "eio", "crash"])})
        elif k == "write":
            f = {"seam": "write", "at": 0, "where": round(r.random(), 4),
                 "kind": r.choice(["enospc", "eio", "crash", "crash", "interrupt", "short"]),
                 "frac": r.choice([0, 0.1, 0.5, 0.9, 1.0])}
            if r.random() < 0.3 and f["kind"] in ("enospc", "eio", "short"):
                f["count"] = 1000
            scn["faults"].append(f)
        elif k == "close":
            scn["faults"].append({"seam": "close", "at": 0, "kind": "eio"})
        elif k == "line":
            scn["line"] = [round(r.random(), 4), r.choice(["KeyboardInterrupt", "MemoryError", "SimCancel", "OSError"])]
        elif k == "callback":
            scn["callback"] = True
        if r.random() < 0.2:
            scn["faults"].append({"seam": "meta", "at": 0, "kind": r.choice(["eio", "crash"])})
    elif mode == "load":
        k = r.choice(["open", "read", "read", "line", "line"])
        if r.random() < 0.35:
            scn["ext"] = ".mat"
            scn["other"] = c10.rand_case(r, tier)
            scn["other"]["v"].pop("v1", None)
        if k == "open":
            scn["faults"].append({"seam": "open", "at": r.choice([0, 0, 1]), "kind": r.choice(["eacces", "enoent", "emfile", "eio"])})
        elif k == "read":
            scn["faults"].append({"seam": "read", "at": 0, "where": round(r.random(), 4), "kind": r.choice(["eio", "eio", "short"]),
                                  "n": r.choice([1, 5, 100]), "count": r.choice([1, 1000])})
        else:
            scn["line"] = [round(r.random(), 4), r.choice(["KeyboardInterrupt", "MemoryError", "SimCancel", "OSError"])]
    else:
        scn["cuts"] = [round(r.random(), 5) for _ in range(25 if tier == "quick" else 60)]
        scn["edges"] = True
    return scn


def mat_edges(b):
    """Variable boundaries of a level 5 MAT file."""
    out, p = [], 128
    while p + 8 <= len(b):
        n = struct.unpack("<I", b[p + 4:p + 8])[0]
        out += [p, p + 8]
        p += 8 + n
    return out + [p]


def run(scn):
    ctx = Ctx()
    sim = Sim(seed=11, faults=[], disk=True, chunk=scn["chunk"])
    disk = sim.disk
    savecase, loadcase = api("savecase"), api("loadcase")
    sim.log("scn", repr(scn))
    ext, path = scn["ext"], disk.path("case_a" + scn["ext"])
    name = "case_a" + ext
    new = c10.make(scn["new"])
    allowed = {}
    fired = 0

    def load(what, faults=()):
        """('case', which) | ('error', text) | ('bad', text) on the file as it is."""
        kind, val = sim.run(lambda: loadcase(path), faults=list(faults), budget=3000000)
        if any(f["seam"] == "line" for f in faults) and kind == "exc":
            val = val.with_traceback(None)      # a cancellation can land inside the with statement's own exit
        if disk.leaked():
            ctx.bad("handle-left-open-load", "%s: %s" % (what, excname(val) if kind == "exc" else "returned"))
            disk.close_all()
        if kind == "exc":
            return "error", val
        if not isinstance(val, dict):
            if val in (1, 2, 3, 4, 5) and not isinstance(val, bool):
                return "error", "code %d" % val
            return "bad", "load returned %r" % (val,)
        ds = []
        for w, e in allowed.items():
            d = c10.compare(e, val, ext)
            if d is None:
                return "case", w
            ds.append("%s: %s" % (w, d))
        return "bad", "; ".join(ds)

    def clean_save(ppc):
        k, v = sim.run(lambda: savecase(path, ppc), faults=[], budget=3000000)
        return k == "ok"

    def boom(ppc, fd, prefix, args):
        raise CallbackError("savecase stage")

    if scn["mode"] == "save":
        if "old" in scn:
            old = c10.make(scn["old"])
            if not clean_save(old):
                return finish(sim, ctx, None)
            allowed["old"] = c10.expect(old, ext)
        allowed["new"] = c10.expect(new, ext)
        ppc = new
        if scn.get("callback"):
            api("add_userfcn")(ppc, "savecase", boom)
        snap = copy.deepcopy(c10.version_less(ppc))
        faults = list(scn["faults"])
        if scn.get("line") or any("where" in f for f in faults):
            probe = Sim(seed=11, disk=True, chunk=scn["chunk"])
            pp = probe.disk.path(name)
            probe.run(lambda: savecase(pp, copy.deepcopy(ppc)), faults=[], budget=3000000)
            nl = probe.last_task.lines
            nw = probe.last_task.counts.get("write", 0)
            probe.cleanup()
            faults = [dict(f, at=int(f["where"] * nw)) if "where" in f else f for f in faults]
        if scn.get("line"):
            faults.append({"seam": "line", "at": max(1, int(scn["line"][0] * nl)), "kind": scn["line"][1]})
        kind, val = sim.run(lambda: savecase(path, ppc), faults=faults, budget=3000000)
        fired = sim.nfired
        err = sim.err_text()
        crash = disk.dead
        if crash:
            sim.probe("crashed")
            disk.reboot()
        for f in sim.fired:
            p = {"open": "open-failed", "write": "write-failed", "close": "close-failed", "line": "cancelled-save"}.get(f.split(".")[0])
            if p and not f.endswith("short"):
                sim.probe(p)
        what = "save of %s with %s: %s" % (name, sorted(sim.fired) or ("callback" if scn.get("callback") else "no fault"),
                                           excname(val) if kind == "exc" else "returned")
        if scn.get("line") and kind == "exc":
            val = val.with_traceback(None)
        if not crash and disk.leaked():
            ctx.bad("handle-left-open-save", what)
            disk.close_all()
        if kind == "exc" and isinstance(val, CallbackError):
            sim.probe("callback-raised")
        if kind == "exc" and not fired and not isinstance(val, CallbackError) and not (scn.get("callback") and ext == ".mat"):
            ctx.bad("save-raised", what)
        d = same(snap, c10.version_less(ppc), "case")
        if d:
            ctx.bad("failed-save-changed-case", "%s: %s" % (what, d))
        del val
        st, w = load(what + "; then load")
        claimed = kind == "ok" and not err and not crash
        if st == "bad":
            ctx.bad("damaged-case-loads", "%s; loading then gave a case that is neither: %s" % (what, w))
        elif claimed and (st, w) != ("case", "new") and not (scn.get("callback")):
            ctx.bad("false-success", "%s without any error, but loading gave %s %s" % (what, st, w))
        elif kind == "ok" and any(f.split(".")[0] in ("write", "close") and not f.endswith("short") for f in sim.fired):
            ctx.bad("write-failure-swallowed", "%s although the file was opened and could not be written" % what)
        elif kind == "exc" and isinstance(w, SimBudget):
            ctx.bad("load-endless", what)
        sim.probe({"error": "unloadable-after", "case": "%s-case-%s" % (w, "survived" if w == "old" else "loaded"), "bad": "bad"}[st])
        # the case is still usable and the name can be saved again
        if not ctx.v:
            if scn.get("callback"):
                ppc.pop("userfcn", None)
            if not clean_save(ppc):
                ctx.bad("case-unusable", "%s; saving again on a healthy disk failed: %s" % (what, excname(sim_last(sim))))
            else:
                allowed = {"new": c10.expect(ppc, ext)}
                st, w = load("second save")
                if (st, w) != ("case", "new"):
                    ctx.bad("resave-broken", "%s; saved again, but loading gave %s %s" % (what, st, w))
                else:
                    sim.probe("retry-ok")
    elif scn["mode"] == "load":
        if not clean_save(new):
            return finish(sim, ctx, None)
        allowed["new"] = c10.expect(new, ext)
        if "other" in scn:      # an extension-less name means the MAT file, whatever else is there
            mat, path = path, disk.path("case_a.py")
            if not clean_save(c10.make(scn["other"])):
                return finish(sim, ctx, None)
            path = disk.path("case_a")
            sim.probe("two-formats")
        faults = list(scn["faults"])
        sim.run(lambda: loadcase(path), faults=[], budget=3000000)
        nr = sim.last_task.counts.get("read", 0)
        faults = [dict(f, at=int(f["where"] * nr)) if "where" in f else f for f in faults]
        if scn.get("line"):
            faults.append({"seam": "line", "at": max(1, int(scn["line"][0] * sim.last_task.lines)), "kind": scn["line"][1]})
        before = sim.nfired
        st, w = load("load", faults)
        fired = sim.nfired - before
        what = "load of %s with %s" % (name, sorted(sim.fired))
        for f in sim.fired:
            if f.startswith("read.eio") or f.startswith("open"):
                sim.probe("read-failed")
            if f.startswith("line"):
                sim.probe("cancelled-load")
        if st == "bad":
            ctx.bad("faulty-load-wrong-case", "%s: %s" % (what, w))
        st, w = load("second load")
        if st != "case":
            ctx.bad("load-after-fault", "%s; loading again gave %s" % (what, excname(w) if isinstance(w, BaseException) else w))
    else:
        if not clean_save(new):
            return finish(sim, ctx, None)
        allowed["new"] = c10.expect(new, ext)
        full = disk.read_bytes(name)
        n = len(full)
        cuts = sorted(set([int(c * n) for c in scn["cuts"]] + [0, n - 1, n - 2]))
        if scn.get("edges"):
            e = mat_edges(full) if ext == ".mat" else [k + 1 for k, ch in enumerate(full) if ch == 10][-12:]
            cuts = sorted(set(cuts + [x for x in e if x < n]))
        for c in cuts:
            disk.write_bytes(name, full[:c])
            st, w = load("file cut at byte %d of %d" % (c, n))
            fired += 1
            if st == "bad":
                ctx.bad("truncated-case-loads", "%s cut at byte %d of %d loaded: %s" % (name, c, n, w))
                break
            if st == "error" and isinstance(w, SimBudget):
                ctx.bad("load-endless", "cut at %d" % c)
                break
            sim.probe("cut-refused" if st == "error" else "cut-loaded-complete")
            sim.log("cut", c, st)
    sim.log("end", scn["mode"], fired, len(ctx.v))
    return finish(sim, ctx, repr((scn["mode"], ext, sorted(sim.fired))) if fired or scn.get("callback") else None)


def sim_last(sim):
    return RuntimeError(sim.events[-1] if sim.events else "?")


def shrinks(scn):
    if len(scn.get("cuts", ())) > 1 or (scn.get("cuts") and scn.get("edges")):
        yield dict(scn, cuts=[])
        for c in scn["cuts"]:
            yield dict(scn, cuts=[c], edges=False)
    if "old" in scn:
        yield {k: v for k, v in scn.items() if k != "old"}
    if "other" in scn:
        yield {k: v for k, v in scn.items() if k != "other"}
    for key in ("new", "old", "other"):
        if key in scn:
            d = scn[key]
            for k in sorted(d["v"]):
                v = dict(d["v"])
                del v[k]
                yield dict(scn, **{key: dict(d, v=v)})
            for c in netgen.shrink_spec(d["case"]):
                yield dict(scn, **{key: dict(d, case=c)})
