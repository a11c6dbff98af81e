"""C12 reports, solved-case files, standard output and exit status."""
import copy
import random
import re

import numpy as np

from .. import netgen
from ..sim import Sim, SimBudget, SimCrash
from .common import *  # noqa: F401,F403
from . import common as C
from . import c10
from .c04 import BASEF
from .c06 import transfer

ID = "C12"
RUNS = {"quick": 400, "thorough": 8000}
RULE = ("one run = a seeded history of analyses sharing report and solved-case files on a simulated disk, some through the command "
        "line programs, with disk, stream, callback and cancellation faults while output is written; every file is compared byte "
        "for byte with what the same runs print on a healthy stream; non-trivial when a report or solved case was checked")
REAL = C.REAL + ["report and case files in a scratch directory", "command line programs called in-process"]
STUB = C.STUB + ["raw file layer", "process exit (SystemExit is caught)"]
ASSUME = C.ASSUME
PROBES = ["report-appended", "report-open-failed", "report-write-failed", "report-close-failed", "crashed", "solved-saved",
          "solved-open-failed", "solved-write-failed", "stdout-failed", "callback-raised", "cancelled", "cli-pf", "cli-opf",
          "exit-zero", "exit-nonzero", "unsolved-reported", "numbers-checked"]
ENTRIES = ["runpf", "runpf", "rundcpf", "runopf", "rundcopf", "runuopf", "runcpf"]
NAMES = ["log.txt", "log.txt", "other.out"]


class CallbackError(Exception):
    pass


def gen(r, tier, i):
    cases = []
    for _ in range(r.choice([1, 2])):
        spec = netgen.rand_spec(r, feats=[f for f in BASEF if f != "isolated"], maxnb=7, stocks=("case9", "case6ww"))
        spec["feat"] = sorted(set(spec["feat"] + r.sample(["dispload", "pwl", "qcost", "areas"], r.choice([0, 0, 1]))))
        cases.append(spec)
    ops = []
    for _ in range(r.choice([2, 3, 4])):
        e = r.choice(ENTRIES)
        o = {"OUT_ALL": r.choice([-1, -1, 1, 0])}
        if r.random() < 0.4:
            o.update(OUT_AREA_SUM=r.random() < 0.5, OUT_GEN=r.random() < 0.5, OUT_ALL_LIM=r.choice([-1, 0, 1, 2]))
        if r.random() < 0.25:
            o["VERBOSE"] = r.choice([1, 2])
        if r.random() < 0.25:
            o.update(PF_MAX_IT=1, PDIPM_MAX_IT=2)
        if e == "runpf":
            o["PF_ALG"] = r.choice([1, 2, 3])
        op = {"e": e, "c": r.randrange(4), "o": o, "rep": r.choice(NAMES + [""]), "solved": r.choice(["", "", "done.py", "done.mat", "out2"])}
        if r.random() < 0.25 and e in ("runpf", "runopf", "rundcopf", "runuopf", "rundcpf"):
            op["cli"] = True
        k = r.choice(["", "", "ropen", "rwrite", "rwrite", "rclose", "sopen", "swrite", "line", "stdout", "callback"])
        if k:
            f = {"k": k, "where": round(r.random(), 4)}
            if k in ("ropen", "sopen"):
                f["kind"] = r.choice(["eacces", "enospc", "emfile", "eio"])
            elif k in ("rwrite", "swrite"):
                f["kind"] = r.choice(["enospc", "eio", "crash", "interrupt", "short"])
                f["frac"] = r.choice([0, 0.3, 0.8])
            elif k == "line":
                f["kind"] = r.choice(["KeyboardInterrupt", "MemoryError", "SimCancel"])
            elif k == "stdout":
                f["kind"] = r.choice(["epipe", "enospc"])
            op["f"] = f
        ops.append(op)
    return {"cases": cases, "ops": ops, "faults": [], "chunk": r.choice([64, 512, 4096]), "pre": r.random() < 0.4}


def numbers(ctx, text, res, success, opt, what):
    """The figures printed belong to the result."""
    if opt["OUT_ALL"] == 0:
        if text:
            ctx.bad("report-unwanted", "%s: OUT_ALL=0 printed %r" % (what, text[:60]))
        return False
    conv = "Converged in" in text
    anyout = conv or "Did not converge" in text
    if anyout and conv != bool(success):
        ctx.bad("report-wrong-status", "%s: report says %s, success is %r" % (what, "converged" if conv else "not converged", success))
    if opt["OUT_ALL"] not in (1, -1):
        return False
    if not np.isfinite(res["bus"][:, 7:9]).all() or not np.isfinite(res["branch"][:, 13:17]).all():
        return False
    if np.abs(res["bus"][:, 7]).max() > 90 or np.abs(res["bus"][:, 8]).max() > 9000 or np.abs(res["branch"][:, 13:17]).max(initial=0) > 9e5:
        return False                    # a diverged run overflows the columns
    m = re.search(r"\|     Bus Data .*?\n-----[^\n]*\n(.*?)\n {24}--", text, re.S)
    if not m and (opt["OUT_ALL"] == 1 or opt["OUT_BUS"]):
        ctx.bad("report-lacks-buses", "%s: no bus table in the report" % what)
        return False
    if m:
        rows = m.group(1).split("\n")
        bus = res["bus"]
        if len(rows) != len(bus):
            ctx.bad("report-bus-rows", "%s: %d bus rows for %d buses" % (what, len(rows), len(bus)))
            return False
        for row, b in zip(rows, bus):
            if int(row[:5]) != int(b[0]) or abs(float(row[5:12]) - b[7]) > 6e-4 or abs(float(row[12:21]) - b[8]) > 6e-4:
                ctx.bad("report-wrong-voltage", "%s: row %r for bus %d Vm %.4f Va %.4f" % (what, row[:24], b[0], b[7], b[8]))
                return False
        if more_numbers(ctx, text, res, opt, what, rows):
            return False
    m = re.search(r"\|     Branch Data .*?\n-----[^\n]*\n(.*?)\n {61}--", text, re.S)
    if not m and len(res["branch"]) and (opt["OUT_ALL"] == 1 or opt["OUT_BRANCH"]):
        ctx.bad("report-lacks-branches", "%s: no branch table in the report" % what)
        return False
    if m:
        rows = m.group(1).split("\n")
        br = res["branch"]
        if len(rows) != len(br):
            ctx.bad("report-branch-rows", "%s: %d branch rows for %d branches" % (what, len(rows), len(br)))
            return False
        for row, b in zip(rows, br):
            got = [float(row[18 + 10 * k:28 + 10 * k]) for k in range(4)] if np.abs(b[13:17]).max() < 9e5 else b[13:17]
            if int(row[4:11]) != int(b[0]) or int(row[11:18]) != int(b[1]) or np.abs(np.array(got) - b[13:17]).max() > 6e-3:
                ctx.bad("report-wrong-flow", "%s: row %r for branch %d-%d flows %s" % (what, row[:60], b[0], b[1], b[13:17]))
                return False
    if "f" in res and res["f"] is not None:
        m = re.search(r"Objective Function Value = (\S+) ", text)
        if m and abs(float(m.group(1)) - res["f"]) > 6e-3:
            ctx.bad("report-wrong-objective", "%s: printed %s, objective %r" % (what, m.group(1), res["f"]))
    return True


def tok(x):
    return 0.0 if x == "-" else float(x)


def more_numbers(ctx, text, res, opt, what, rows):
    """Generation, load and price of the bus table, generator tables, system summary and limit prices.
    True when something was wrong (or a column overflowed, and nothing can be said)."""
    bus, gen, br = res["bus"], res["gen"], res["branch"]
    if max(np.abs(bus[:, 2:6]).max(), np.abs(gen[:, 1:5][np.isfinite(gen[:, 1:5])]).max(initial=0)) > 5e4:
        return False
    opf = res.get("f") is not None
    if opf and not np.abs(bus[:, 13:15]).max() < 9e3:
        return False
    dc = bool(opt["PF_DC"]) or " rundc" in what
    on = gen[:, 7] > 0
    ld = (gen[:, 9] < 0) & (gen[:, 8] == 0)
    pg, qg = gen[:, 1], gen[:, 2] * (not dc)
    if not (np.isfinite(pg).all() and np.isfinite(qg).all()):
        return False
    n0 = len(ctx.v)
    for row, b in zip(rows, bus):
        g = on & ~ld & (gen[:, 0] == b[0])
        d = on & ld & (gen[:, 0] == b[0])
        want = [pg[g].sum(), qg[g].sum(), b[2] - pg[d].sum(), b[3] * (not dc) - qg[d].sum()]
        if opf:
            want += [b[13], b[14] if abs(b[14]) > 1e-4 else 0.0]
        t = row[22:].replace("*", " ").split()
        if len(t) != len(want):
            return True
        if any(abs(tok(x) - w) > (6e-4 if j > 3 else 6e-3) for j, (x, w) in enumerate(zip(t, want)) if np.isfinite(w)):
            ctx.bad("report-wrong-bus", "%s: row %r for bus %d, expected %s" % (what, row, b[0], ["%.3f" % w for w in want]))
            return True
    mg = re.search(r"\|     Generator Data .*?\n----[^\n]*\n(.*?)\n {21}--", text, re.S)
    if not mg and opt["OUT_ALL"] == 1 and (on & ~ld).any():
        ctx.bad("report-lacks-units", "%s: no generator table" % what)
    for title, sel, sg in (("Generator Data", on & ~ld, 1), ("Dispatchable Load Data", on & ld, -1)):
        mg = re.search(r"\|     %s .*?\n----[^\n]*\n(.*?)\n {21}--" % title, text, re.S)
        if not mg:
            if mg is None and opt["OUT_ALL"] == 1 and sel.any():
                ctx.bad("report-lacks-units", "%s: no %s table" % (what, title))
            continue
        gr = mg.group(1).split("\n")
        idx = np.flatnonzero(sel)
        if len(gr) != len(idx):
            ctx.bad("report-unit-rows", "%s: %d rows under %s for %d units" % (what, len(gr), title, len(idx)))
            continue
        for row, i in zip(gr, idx):
            t = row.split()
            if len(t) < 5:
                return True
            if int(t[0]) != i or int(t[1]) != int(gen[i, 0]) or abs(tok(t[3]) - sg * pg[i]) > 6e-3 or abs(tok(t[4]) - sg * qg[i]) > 6e-3:
                ctx.bad("report-wrong-unit", "%s: row %r for unit %d at bus %d output %.3f %.3f" % (what, row, i, gen[i, 0], pg[i], qg[i]))
                break
    if "System Summary" in text:
        want = {"Buses": len(bus), "Generators": int((~ld).sum()), "Committed Gens": int((on & ~ld).sum()),
                "Fixed": int(((bus[:, 2] != 0) | (bus[:, 3] * (not dc) != 0)).sum()), "Dispatchable": int((on & ld).sum()),
                "Branches": len(br), "Transformers": int((br[:, 8] != 0).sum()), "Areas": len(set(bus[:, 6]))}
        for k in sorted(want):
            mm = re.search(r"\n *%s +(\d+)" % k, text)
            if not mm or int(mm.group(1)) != want[k]:
                ctx.bad("report-wrong-count", "%s: summary says %s %s, case has %d" % (what, k, mm and mm.group(1), want[k]))
        for k, w in (("Generation .actual.", pg[on & ~ld].sum()), ("  Fixed  ", bus[:, 2].sum())):
            mm = re.search(r"  +%s +(-?[\d.]+)" % k, text)
            if mm and abs(float(mm.group(1)) - w) > 0.06:
                ctx.bad("report-wrong-total", "%s: summary says %s %s, results have %.3f" % (what, k.strip(), mm.group(1), w))
    if opf:
        mv = re.search(r"\|     Voltage Constraints .*?\n-----[^\n]*\n(.*?)\n\n", text + "\n\n", re.S)
        if mv and not dc and bus.shape[1] > 16:
            byno = {int(b[0]): b for b in bus}
            for row in mv.group(1).strip("\n").split("\n"):
                t = row.split()
                if len(t) == 6:
                    b = byno[int(t[0])]
                    if (t[1] != "-" and abs(float(t[1]) - b[16]) > 6e-4) or (t[5] != "-" and abs(float(t[5]) - b[15]) > 6e-4) or \
                            (t[1] == "-" and b[16] > 1e-3) or (t[5] == "-" and b[15] > 1e-3):
                        ctx.bad("report-wrong-limit-price", "%s: row %r, results have %.4f %.4f" % (what, row, b[16], b[15]))
                        break
        mb = re.search(r"\|     Branch Flow Constraints .*?\n-----[^\n]*\n(.*?)\n\n", text + "\n\n", re.S)
        if mb and br.shape[1] > 18:
            for row in mb.group(1).strip("\n").split("\n"):
                t = row.split()
                if len(t) == 8 and t[0].isdigit():
                    b = br[int(t[0])]
                    if int(t[1]) != int(b[0]) or int(t[7]) != int(b[1]) or (t[2] != "-" and abs(float(t[2]) - b[17]) > 6e-4) or \
                            (t[6] != "-" and abs(float(t[6]) - b[18]) > 6e-4) or (t[2] == "-" and b[17] > 1e-3) or (t[6] == "-" and b[18] > 1e-3):
                        ctx.bad("report-wrong-limit-price", "%s: row %r, results have %.4f %.4f" % (what, row, b[17], b[18]))
                        break
    return len(ctx.v) > n0


FLAGS = {"PF_ALG": "pf", "PF_MAX_IT": "pf", "PDIPM_MAX_IT": "opf"}


def cli_args(op, casefile, rep, solved):
    o = op["o"]
    fam = "pf" if op["e"] in ("runpf", "rundcpf") else "opf"
    a = []
    for k in sorted(o):
        if FLAGS.get(k, fam) == fam:
            a.append("--%s=%s" % (k.lower(), o[k]))
    if op["e"] == "rundcpf":
        a.append("--pf_dc=True")
    if op["e"] == "runuopf":
        a.append("-u")
    if rep:
        a += ["-o", rep]
    if solved:
        a += ["-s", solved]
    return fam, a + [casefile]


def run(scn):
    ctx = Ctx()
    sim = Sim(seed=17, disk=True, chunk=scn["chunk"])
    disk = sim.disk
    cases = [netgen.build(c) for c in scn["cases"]]
    for p in cases:
        for k in ("bus", "gen", "branch"):
            p[k] = p[k].astype(float)
        p.setdefault("version", "2")
    files = {}                          # report name -> bytes it must hold
    solvedfiles = {}
    checked = 0
    if scn.get("pre"):
        files["log.txt"] = b"earlier text\nwithout newline at the end"
        disk.write_bytes("log.txt", files["log.txt"])
    BUD = 1200000

    def boom(results, fd, ppopt, args):
        raise CallbackError("printpf stage")

    for n, op in enumerate(scn["ops"]):
        if ctx.v:
            break
        ppc = copy.deepcopy(cases[op["c"] % len(cases)])
        e = op["e"]
        if e.startswith("runu") and len(ppc["gen"]) > 5:
            e = "runopf"
        if e in ("runopf", "rundcopf", "runuopf") and "gencost" not in ppc:
            e = "runpf"
        op = dict(op, e=e)
        opt = quiet(**op["o"])
        target = transfer(ppc, {"seed": 3, "f": 1.3, "p": 0.7, "g": True}) if e == "runcpf" else None
        if e == "runcpf":
            opt.update(CPF_STEP=0.4)
        fn = api(e)
        fault = op.get("f") or {}
        if fault.get("k") == "callback" and not op.get("cli"):
            api("add_userfcn")(ppc, "printpf", boom)
            if target is not None:
                target["userfcn"] = ppc["userfcn"]
        what = "op %d %s" % (n, e)

        def call(o, *a, p=ppc, t=target):
            p, t = copy.deepcopy(p), copy.deepcopy(t)
            return fn(p, t, o, *a) if t is not None else fn(p, o, *a)

        def clean(p):
            return {k: v for k, v in p.items() if k != "userfcn"} if p is not None else None
        # what the run prints and returns when nothing is in the way
        ref = Sim(seed=17)
        cp, ct = clean(ppc), clean(target)
        k0, v0 = ref.run(lambda: call(dict(opt, VERBOSE=0), p=cp, t=ct), budget=BUD)
        text = ref.out_text()
        if k0 == "exc":
            sim.log("ref", excname(v0))
            continue
        res0, suc0 = v0 if isinstance(v0, tuple) else (v0, v0["success"])
        rep, solved = op["rep"], op["solved"]
        rp = disk.path(rep) if rep else ""
        spn = (solved if "." in solved else solved + ".py") if solved else ""
        sp_ = disk.path(solved) if solved else ""
        cli = op.get("cli") and e in ("runpf", "rundcpf", "runopf", "runuopf")
        if numbers(ctx, text, res0, suc0, opt, what):
            sim.probe("numbers-checked")
        if not suc0:
            sim.probe("unsolved-reported")
        if cli:
            # the program reads the case from a file and takes options as text
            o2 = {k: v for k, v in op["o"].items() if FLAGS.get(k, "pf" if e in ("runpf", "rundcpf") else "opf") == ("pf" if e in ("runpf", "rundcpf") else "opf")}
            o2.setdefault("VERBOSE", 0)
            s0 = Sim(seed=17, disk=True)
            k1, v1 = s0.run(lambda: api("savecase")(s0.disk.path("incase.mat"), copy.deepcopy(ppc)))
            if k1 == "exc":
                s0.cleanup()
                continue
            disk.write_bytes("incase.mat", s0.disk.read_bytes("incase.mat"))
            s0.cleanup()
            ref = Sim(seed=17)
            k0, v0 = ref.run(lambda: fn(api("loadcase")(disk.path("incase.mat")), api("ppoption")(**dict(o2, VERBOSE=0))), budget=BUD)
            text = ref.out_text()
            if k0 == "exc":
                continue
            res0, suc0 = v0 if isinstance(v0, tuple) else (v0, v0["success"])
            from pypower import main
            fam, args = cli_args(dict(op, o=o2), disk.path("incase.mat"), rp, sp_)
            prog = main.pf if fam == "pf" else main.opf
            go = lambda: prog(args)
            what += " (command line %s)" % " ".join(a.replace(disk.dir + "/", "") for a in args)
            sim.probe("cli-" + fam)
        else:
            go = lambda: call(opt, rp, sp_)
        # where the faults go: counts from a fault-free rehearsal on a scratch disk
        flt = []
        k = fault.get("k", "")
        if k in ("ropen", "rwrite", "rclose") and not rep or k in ("sopen", "swrite") and not solved or (k == "callback" and cli):
            k = ""
        if k in ("ropen", "rwrite", "rclose", "sopen", "swrite", "line", "stdout"):
            s0 = Sim(seed=17, disk=True, chunk=scn["chunk"])
            marks = []
            for x in files:
                s0.disk.write_bytes(x, files[x])
            mp = lambda p: p.replace(disk.dir, s0.disk.dir)
            if cli:
                s0.disk.write_bytes("incase.mat", disk.read_bytes("incase.mat"))
                a2 = [mp(a) for a in args]
                rehearse = lambda: prog(a2)
            else:
                rehearse = lambda: call(opt, mp(rp), mp(sp_), p=cp, t=ct)
            base0 = 1 if cli else 0
            if rep:
                both = s0.run(rehearse, budget=BUD)
                # writes before the report is closed = those of a run without a solved case
                tot = s0.last_task
                wt, lines = tot.counts.get("write", 0), tot.lines
                s1 = Sim(seed=17, disk=True, chunk=scn["chunk"])
                for x in files:
                    s1.disk.write_bytes(x, files[x])
                mp1 = lambda p: p.replace(disk.dir, s1.disk.dir)
                if cli:
                    s1.disk.write_bytes("incase.mat", disk.read_bytes("incase.mat"))
                    a3 = [mp1(a) for a in cli_args(dict(op, o=o2), disk.path("incase.mat"), rp, "")[1]]
                    s1.run(lambda: prog(a3), budget=BUD)
                else:
                    s1.run(lambda: call(opt, mp1(rp), "", p=cp, t=ct), budget=BUD)
                rw = s1.last_task.counts.get("write", 0)
                s1.cleanup()
            else:
                both = s0.run(rehearse, budget=BUD)
                tot = s0.last_task
                wt, lines, rw = tot.counts.get("write", 0), tot.lines, 0
            no, nso = tot.counts.get("open", 0), tot.counts.get("stdout", 0)
            s0.cleanup()
            w = fault["where"]
            if k == "ropen":
                flt = [{"seam": "open", "at": base0, "kind": fault["kind"]}]
            elif k == "sopen":
                flt = [{"seam": "open", "at": base0 + (1 if rep else 0), "kind": fault["kind"], "count": 9}]
            elif k == "rwrite" and rw:
                flt = [{"seam": "write", "at": int(w * rw), "kind": fault["kind"], "frac": fault["frac"]}]
            elif k == "swrite" and wt > rw:
                flt = [{"seam": "write", "at": rw + int(w * (wt - rw)), "kind": fault["kind"], "frac": fault["frac"]}]
            elif k == "rclose":
                flt = [{"seam": "close", "at": 0, "kind": "eio"}]
            elif k == "line":
                flt = [{"seam": "line", "at": max(1, int(lines * (0.3 + 0.7 * w))), "kind": fault["kind"]}]
            elif k == "stdout" and nso:
                flt = [{"seam": "stdout", "at": int(w * nso), "kind": fault["kind"]}]
        kind, val = sim.run(go, faults=flt, budget=BUD)
        err, out = sim.err_text(), sim.out_text()
        hit = bool(flt) and any(f.startswith(flt[0]["seam"]) for f in sim.fired)
        fk = flt[0]["kind"] if hit else ""
        sim.fired_all = getattr(sim, "fired_all", {})
        for f, c in sim.fired.items():
            sim.fired_all[f] = sim.fired_all.get(f, 0) + c
        sim.fired = {}
        crash = disk.dead
        if crash:
            disk.reboot()
            sim.probe("crashed")
        ok = kind == "ok" or (cli and isinstance(val, SystemExit))
        code = None
        if cli and isinstance(val, SystemExit):
            code = 0 if val.code is None else val.code
        elif cli:
            code = 0 if kind == "ok" else 1
        what += " with %s: %s" % (flt[0] if hit else ("raising callback" if k == "callback" else "no fault"),
                                  excname(val) if kind == "exc" else "returned")
        isexit = cli and isinstance(val, SystemExit)
        # handles
        if kind == "exc" and (k == "line" or crash):
            val = val.with_traceback(None)
        if not crash and disk.leaked():
            ctx.bad("handle-left-open", "%s: %s" % (what, disk.leaked()))
            disk.close_all()
        if isinstance(val, SimBudget):
            break
        # exit status
        if cli:
            if (code == 0) != (bool(suc0) and (not kind == "exc" or isexit)):
                ctx.bad("exit-status", "%s: exit status %r, analysis success %r" % (what, code, suc0))
            sim.probe("exit-zero" if code == 0 else "exit-nonzero")
        cb = k == "callback"
        if cb and opt["OUT_ALL"] == 0:
            cb = False
        # outcome
        opened_ok = True
        if not hit and not cb:
            if not ok:
                ctx.bad("raised", what)
                break
        if cb:
            if kind == "ok":
                # the callback only runs when printing something
                pass
            elif not isinstance(val, CallbackError):
                ctx.bad("callback-error-lost", what)
            else:
                sim.probe("callback-raised")
        if hit and k in ("ropen",):
            opened_ok = False
            sim.probe("report-open-failed")
            if not ok:
                ctx.bad("report-open-fatal", what)
            elif rep not in err:
                ctx.bad("report-open-silent", "%s; error stream: %r" % (what, err[:80]))
        if hit and k == "sopen":
            sim.probe("solved-open-failed")
            if not ok and not spn.endswith(".mat"):
                ctx.bad("solved-open-fatal", what)
            elif ok and not err:
                ctx.bad("solved-open-silent", what)
        if hit and k in ("rwrite", "swrite", "rclose", "stdout") and fk != "short":
            sim.probe({"rwrite": "report-write-failed", "swrite": "solved-write-failed", "rclose": "report-close-failed", "stdout": "stdout-failed"}[k])
            if ok:
                ctx.bad("output-failure-swallowed", what)
        if hit and k == "line":
            sim.probe("cancelled")
        # results
        if kind == "ok" and not cli:
            r1, s1_ = val if isinstance(val, tuple) else (val, val["success"])
            if bool(s1_) != bool(suc0):
                ctx.bad("success-changed", "%s: success %r, without output %r" % (what, s1_, suc0))
            for a in ("bus", "gen", "branch"):
                if not arrays_equal(r1[a], res0[a]):
                    ctx.bad("results-changed", "%s: %s differs from a run without output" % (what, a))
                    break
        # report file
        done = ok and opened_ok
        if rep:
            old = files.get(rep, b"")
            now = disk.read_bytes(rep) if disk.exists(rep) else b""
            full = old + text.encode()
            if done:
                if now != full:
                    i = next((j for j in range(min(len(now), len(full))) if now[j] != full[j]), min(len(now), len(full)))
                    ctx.bad("report-differs", "%s: report file has %d bytes instead of %d, first difference at %d (old part %d): %r instead of %r"
                            % (what, len(now), len(full), i, len(old), now[i:i + 40], full[i:i + 40]))
                else:
                    sim.probe("report-appended")
                    checked += 1
            elif not opened_ok:
                if now != old:
                    ctx.bad("report-touched", "%s: the file that could not be opened changed" % what)
            else:
                full2 = full + (b"" if not cb else now[len(full):])
                if now[:len(old)] != old:
                    ctx.bad("earlier-reports-damaged", "%s: the first %d bytes changed" % (what, len(old)))
                elif not full2.startswith(now) and not full.startswith(now):
                    ctx.bad("report-garbled", "%s: partial report is not a prefix of the report" % what)
                elif k == "swrite" and now != full:
                    ctx.bad("report-incomplete", "%s: the report was written before but is incomplete" % what)
                checked += 1
            files[rep] = now
            if ok and not op["o"].get("VERBOSE") and out:
                ctx.bad("report-on-screen", "%s: printed to the screen although a report file was given: %r" % (what, out[:60]))
        elif ok and not op["o"].get("VERBOSE") and out != text:
            ctx.bad("screen-differs", "%s: printed text differs from a plain run" % what)
        # solved case
        if solved and ok and not (hit and k == "sopen"):
            if not disk.exists(spn):
                ctx.bad("solved-missing", "%s: %s was not written" % (what, spn))
            else:
                k2, v2 = Sim(seed=1).run(lambda: api("loadcase")(disk.path(spn)), budget=BUD)
                d = excname(v2) if k2 == "exc" else c10.compare(c10.expect(res0, spn[-4:] if spn.endswith(".mat") else ".py"), v2,
                                                              ".mat" if spn.endswith(".mat") else ".py", user=False)
                if d and all(np.isfinite(res0[a]).all() for a in ("bus", "gen", "branch")):
                    ctx.bad("solved-differs", "%s: %s: %s" % (what, spn, d))
                else:
                    sim.probe("solved-saved")
                    checked += 1
        elif not solved:
            extra = [x for x in ("done.py", "done.mat", "out2.py", "out2") if disk.exists(x) and x not in solvedfiles]
            if extra:
                ctx.bad("solved-unasked", "%s: wrote %s" % (what, extra))
        for x in ("done.py", "done.mat", "out2.py"):
            if disk.exists(x):
                solvedfiles[x] = 1
        sim.log("op", n, e, k, kind, code, len(files.get(rep, b"")))
    sim.fired = getattr(sim, "fired_all", {})
    return finish(sim, ctx, repr([(o["e"], o.get("f", {}).get("k"), bool(o.get("cli"))) for o in scn["ops"]]) if checked else None)


def shrinks(scn):
    for j, op in enumerate(scn["ops"]):
        for k in ("f", "cli"):
            if op.get(k):
                yield dict(scn, ops=scn["ops"][:j] + [{a: b for a, b in op.items() if a != k}] + scn["ops"][j + 1:])
        for k in ("rep", "solved"):
            if op.get(k):
                yield dict(scn, ops=scn["ops"][:j] + [dict(op, **{k: ""})] + scn["ops"][j + 1:])
        for k in sorted(op["o"]):
            if k != "OUT_ALL":
                yield dict(scn, ops=scn["ops"][:j] + [dict(op, o={a: b for a, b in op["o"].items() if a != k})] + scn["ops"][j + 1:])
    if scn.get("pre"):
        yield dict(scn, pre=False)
    for j, c in enumerate(scn["cases"]):
        for s in netgen.shrink_spec(c):
            yield dict(scn, cases=scn["cases"][:j] + [s] + scn["cases"][j + 1:])
