"""Batch runner: seeds -> scenarios -> forked runs -> shrink -> replay -> evidence."""
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 150          # wall seconds for one forked run (harness guard only)


def load(pid):
    return importlib.import_module("vsim.props." + pid.lower())


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            d = json.loads(ln)
            if d["property"] == pid:
                out[d["signature"]] = d
    return out


class HarnessTimeout(Exception):
    pass


def exec_scn(mod, scn):
    """Run a scenario in this process. Returns a plain dict."""
    from . import seams
    seams.install()
    res = mod.run(scn)
    res.setdefault("violations", [])
    for k in ("digest", "nlog", "fired", "probes", "key", "simtime", "switches"):
        res.setdefault(k, {} if k in ("fired", "probes") else 0)
    return res


def forked(mod, scn, timeout=RUN_TIMEOUT):
    """Run a scenario in a forked child; the parent never runs code under test."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)      # panics of native code; verdicts travel by pipe
            try:
                res = exec_scn(mod, scn)
            except BaseException:
                res = {"harness_error": traceback.format_exc()}
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as fd:
                fd.write(struct.pack("<Q", len(data)))
                fd.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    t0 = time.monotonic()
    killed = False
    while True:
        left = timeout - (time.monotonic() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            ch = os.read(r, 1 << 20)
            if not ch:
                break
            buf += ch
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if killed:
        return {"harness_error": "run exceeded %d s of wall time: %s" % (timeout, json.dumps(scn)[:600]), "timeout": True}
    if len(buf) < 8:
        return {"harness_error": "run died without a result (status %r): %s" % (st, json.dumps(scn)[:600])}
    return pickle.loads(bytes(buf[8:]))


def scn_for(mod, seed, tier, i):
    r = random.Random("%s|%s|%s|%d" % (mod.ID, seed, tier, i))
    return mod.gen(r, tier, i)


def viol_sigs(res):
    return [v[0] for v in res.get("violations", ())]


# --------------------------------------------------------------- worker
def worker_main(pid, seed, tier, wid, nw, n, deadline, out_fd):
    """Runs indices i = wid mod nw; one JSON line per run on out_fd."""
    from . import seams
    seams.import_pypower()
    mod = load(pid)
    if hasattr(mod, "warm"):
        mod.warm()
    out = os.fdopen(out_fd, "w")
    t_end = time.monotonic() + deadline
    for i in range(wid, n, nw):
        if time.monotonic() > t_end:
            out.write(json.dumps({"i": i, "stop": "deadline"}) + "\n")
            break
        scn = scn_for(mod, seed, tier, i)
        res = forked(mod, scn)
        rec = {"i": i}
        for k in ("violations", "digest", "nlog", "fired", "probes", "key", "simtime",
                  "switches", "harness_error", "sample", "paths"):
            if k in res:
                rec[k] = res[k]
        if res.get("violations") or i < 3:
            rec["scn"] = scn
        out.write(json.dumps(rec, default=str) + "\n")
        out.flush()
    out.close()


def spawn_worker(pid, seed, tier, wid, nw, n, deadline, hashseed="0"):
    r, w = os.pipe()
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED=str(hashseed),
               PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.Popen([sys.executable, "-m", "vsim.runner", "worker", pid, str(seed), tier,
                          str(wid), str(nw), str(n), str(deadline), str(w)],
                         cwd=HERE, env=env, pass_fds=(w,), stdin=subprocess.DEVNULL)
    os.close(w)
    return p, r


def run_batch(pid, seed, tier, n, nw, deadline, stop_on_violation=True, hashseed="0", known_sigs=()):
    ws = [spawn_worker(pid, seed, tier, k, nw, n, deadline, hashseed) for k in range(nw)]
    bufs = {r: b"" for _, r in ws}
    recs = []
    stop = False
    t_end = time.monotonic() + deadline + RUN_TIMEOUT + 60
    while bufs:
        rd, _, _ = select.select(list(bufs), [], [], 5.0)
        if time.monotonic() > t_end:
            break
        for r in rd:
            ch = os.read(r, 1 << 16)
            if not ch:
                if bufs[r].strip():
                    recs.append({"harness_error": "truncated worker output"})
                del bufs[r]
                os.close(r)
                continue
            bufs[r] += ch
            while b"\n" in bufs[r]:
                ln, bufs[r] = bufs[r].split(b"\n", 1)
                rec = json.loads(ln)
                recs.append(rec)
                if stop_on_violation and any(v[0] not in known_sigs for v in rec.get("violations", ())):
                    stop = True
        if stop:
            break
    for p, r in ws:
        if p.poll() is None:
            if stop or bufs:
                p.kill()
        p.wait()
        if not stop and p.returncode not in (0, None):
            recs.append({"harness_error": "worker exited with %r" % p.returncode})
    for r in list(bufs):
        os.close(r)
    return recs


# --------------------------------------------------------------- shrinking
def generic_shrinks(scn):
    from . import netgen
    for key in ("faults", "ops", "mods", "schedule"):
        lst = scn.get(key)
        if isinstance(lst, list) and lst:
            n = len(lst)
            if n > 3:
                yield dict(scn, **{key: lst[:n // 2]})
                yield dict(scn, **{key: lst[n // 2:]})
            if n <= 60:
                for k in range(n):
                    yield dict(scn, **{key: lst[:k] + lst[k + 1:]})
    for key in ("case", "case2"):
        if isinstance(scn.get(key), dict):
            for c in netgen.shrink_spec(scn[key]):
                yield dict(scn, **{key: c})
    if isinstance(scn.get("opts"), dict):
        for k in list(scn["opts"]):
            o = dict(scn["opts"])
            del o[k]
            yield dict(scn, opts=o)


def shrink(mod, scn, sig, budget_s=60, log=None):
    t_end = time.monotonic() + budget_s
    tries = 0
    cur = scn
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        gens = [generic_shrinks(cur)]
        if hasattr(mod, "shrinks"):
            gens.insert(0, mod.shrinks(cur))
        for g in gens:
            for cand in g:
                if time.monotonic() > t_end:
                    break
                tries += 1
                try:
                    res = forked(mod, cand, timeout=60)
                except Exception:
                    continue
                if "harness_error" in res:
                    continue
                if sig in viol_sigs(res):
                    cur = cand
                    progress = True
                    break
            if progress:
                break
    return cur, tries


# --------------------------------------------------------------- replay
def replay_fresh(path):
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-m", "vsim.runner", "replay", path], cwd=HERE, env=env,
                       capture_output=True, text=True, timeout=RUN_TIMEOUT + 60)
    return p.returncode, p.stdout


def do_replay(path, quiet=False):
    d = json.load(open(path))
    from . import seams
    seams.import_pypower()
    mod = load(d["property"])
    res = forked(mod, d["scenario"])
    if "harness_error" in res:
        print("HARNESS-ERROR", res["harness_error"])
        return 2
    sigs = viol_sigs(res)
    for v in res["violations"]:
        print("  [%s] %s" % (v[0], v[1]))
    if d["signature"] in sigs:
        same = res.get("digest") == d.get("digest")
        print("REPRODUCED property=%s class=%s digest=%s%s" % (d["property"], d["signature"], res.get("digest"),
                                                                "" if same else " (log digest differs)"))
        return 1
    print("NOT-REPRODUCED property=%s" % d["property"])
    return 0


# --------------------------------------------------------------- check
def check(pid, seed, tier, nw=None, n=None, deadline=None, verbose=False):
    t0 = time.monotonic()
    mod = load(pid)
    nw = nw or int(os.environ.get("VSIM_WORKERS", "8"))
    n = n or mod.RUNS[tier]
    deadline = deadline or (420 if tier == "quick" else 3000)
    kf = known(pid)
    print("seed=%d property=%s tier=%s runs=%d" % (seed, pid, tier, n))
    sys.stdout.flush()
    recs = run_batch(pid, seed, tier, n, nw, deadline, known_sigs=set(kf))
    wall = time.monotonic() - t0
    good = [r for r in recs if "digest" in r and "harness_error" not in r]
    errs = [r for r in recs if "harness_error" in r]
    stopped = [r for r in recs if "stop" in r]
    fired, probes, keys = {}, {}, set()
    simtime = 0.0
    switches = 0
    nontriv = set()
    kinds = {}
    for r in good:
        for k, v in (r.get("fired") or {}).items():
            fired[k] = fired.get(k, 0) + v
        for k, v in (r.get("probes") or {}).items():
            probes[k] = probes.get(k, 0) + v
        keys.add(r.get("digest"))
        if r.get("key"):
            nontriv.add(r["digest"])
            kinds[r["key"]] = kinds.get(r["key"], 0) + 1
        simtime += float(r.get("simtime") or 0)
        switches += int(r.get("switches") or 0)
    viol = [(r["i"], v, r["scn"]) for r in good for v in r.get("violations", ())]
    new = [x for x in viol if x[1][0] not in kf]
    seen_known = {}
    for x in viol:
        if x[1][0] in kf:
            seen_known.setdefault(x[1][0], x[1][1])
    # directed confirmation of listed findings
    if kf:
        from . import seams
        seams.import_pypower()
        for sig, d in kf.items():
            if sig not in seen_known and "scenario" in d:
                res = forked(mod, d["scenario"])
                for v in res.get("violations", ()):
                    if v[0] == sig:
                        seen_known[sig] = v[1]
                    elif v[0] not in kf:
                        new.append((-1, v, d["scenario"]))
    for sig in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[sig]["what"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(good),
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": [r["scn"] for r in sorted(good, key=lambda r: r["i"]) if "scn" in r][:3],
            "runs_per_hour": int(len(good) / max(wall, 1e-9) * 3600),
            "simulated_seconds": round(simtime, 3),
            "faults_fired": dict(sorted(fired.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_event_logs": len(keys),
            "thread_switches": switches,
            "run_kinds": dict(sorted(kinds.items())),
            "components_real": mod.REAL,
            "components_stub": mod.STUB,
            "workers": nw,
            "stopped_by_deadline": bool(stopped),
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if os.environ.get("VSIM_SCAN"):           # mutation campaigns: verdict only, nothing written
        print("\n".join("VIOLATION property=%s %s" % (pid, x[1][0]) for x in new[:1]) or ("scan errors " + str(errs[:1]) if errs else "scan quiet"))
        return 1 if new else 2 if errs else 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", pid + ".json")

    def put():
        ev["wall_s"] = round(time.monotonic() - t0, 2)
        with open(evp + ".tmp", "w") as fd:
            json.dump(ev, fd, indent=1, default=str)
        os.replace(evp + ".tmp", evp)
    put()
    if new:
        new.sort(key=lambda x: (x[0], x[1][0]))
        from . import seams
        seams.import_pypower()
        for i, v, scn in new[:1]:
            sig = v[0]
            print("run %d violates: [%s] %s" % (i, sig, v[1]))
            sys.stdout.flush()
            small, tries = shrink(mod, scn, sig, budget_s=60)
            res = forked(mod, small)
            if sig not in viol_sigs(res):
                small = scn
                res = forked(mod, small)
            msg = next((w[1] for w in res.get("violations", ()) if w[0] == sig), v[1])
            rp = os.path.join(HERE, "replays")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, "%s-%d-%d.json" % (pid, seed, i))
            with open(path, "w") as fd:
                json.dump({"property": pid, "seed": seed, "tier": tier, "run": i, "signature": sig,
                           "message": msg, "scenario": small, "digest": res.get("digest"),
                           "events": res.get("events", [])[:200], "shrink_tries": tries}, fd, indent=1, default=str)
            rc, out = replay_fresh(path)
            print("minimised after %d attempts: %s" % (tries, json.dumps(small, default=str)[:1500]))
            print("  " + msg)
            print("replay in a fresh process: %s" % ("reproduced" if rc == 1 else "NOT reproduced"))
            if rc != 1:
                print(out)
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        for r in errs[:3]:
            print("HARNESS-ERROR:", r["harness_error"])
        return 2
    need = n if not stopped else max(1, int(0.25 * n))
    if len(good) < need:
        print("HARNESS-ERROR: only %d of %d runs completed" % (len(good), n))
        return 2
    dead = [p for p in getattr(mod, "PROBES", ()) if not probes.get(p)]
    if dead:
        print("note: probes never hit: %s" % dead)
    print("ok property=%s runs=%d nontrivial=%d faults=%d wall=%.1fs" %
          (pid, len(good), len(nontriv), sum(fired.values()), wall))
    return 0


def determinism(pid, seed, n, tier="quick"):
    """Each run executed under several worker counts and hash seeds; logs diffed."""
    a = {r["i"]: (r.get("digest"), json.dumps(r.get("violations"))) for r in
         run_batch(pid, seed, tier, n, 8, 3000, False, "0") if "i" in r and "stop" not in r}
    b = {r["i"]: (r.get("digest"), json.dumps(r.get("violations"))) for r in
         run_batch(pid, seed, tier, n, 5, 3000, False, "1234") if "i" in r and "stop" not in r}
    c = {r["i"]: (r.get("digest"), json.dumps(r.get("violations"))) for r in
         run_batch(pid, seed, tier, n, 3, 3000, False, "77") if "i" in r and "stop" not in r}
    bad = [i for i in a if a[i] != b.get(i) or a[i] != c.get(i)]
    print("determinism %s: %d runs x 3, %d diverged %s" % (pid, len(a), len(bad), bad[:10]))
    return 0 if not bad and len(a) == len(b) == len(c) else 1


if __name__ == "__main__":
    if sys.argv[1] == "worker":
        pid, seed, tier, wid, nw, n, dl, fd = sys.argv[2:10]
        worker_main(pid, int(seed), tier, int(wid), int(nw), int(n), float(dl), int(fd))
    elif sys.argv[1] == "replay":
        sys.exit(do_replay(sys.argv[2]))
