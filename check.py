#!/opt/venv/bin/python
"""check.py PROPERTY            run the check (VERIF_SEED, VERIF_TIER)
check.py --replay FILE        replay a recorded violation exactly
check.py --determinism ID N   run N runs three times and compare event logs
check.py --one ID INDEX       run a single index verbosely"""
import json
import os
import sys

os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
from vsim import runner  # noqa: E402


def main(a):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        rc = runner.do_replay(a[1])
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (d["property"], a[1]))
        return rc
    if a[0] == "--determinism":
        return runner.determinism(a[1], seed, int(a[2]))
    if a[0] == "--one":
        from vsim import seams
        seams.import_pypower()
        mod = runner.load(a[1])
        scn = runner.scn_for(mod, seed, tier, int(a[2]))
        print(json.dumps(scn, indent=1, default=str))
        r = runner.forked(mod, scn)
        print(r.get("harness_error") or json.dumps(r, indent=1, default=str))
        return 0
    for x in a[1:]:
        if x.startswith("--tier="):
            tier = x[7:]
    n = next((int(x[4:]) for x in a[1:] if x.startswith("--n=")), None)
    return runner.check(a[0], seed, tier, n=n)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
