"""plant.py ID PROP demo.py 'needs' 'breaks'  -- uses current diff in /repo as the bug; verifies and reverts."""
import sys, os, subprocess, json, shutil
bid, prop, demo, needs, breaks = sys.argv[1:6]
d = "/verif/seeded/" + bid
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no diff"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
shutil.copy(demo, d + "/demo.py")
open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def demo_rc():
    p = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    return p.returncode, (p.stdout + p.stderr)[-300:]
r1 = demo_rc()
t = subprocess.run(["bash", "/verif/tools/basetest.sh"], capture_output=True, text=True).stdout.strip().splitlines()[-1]
c = subprocess.run(["/opt/venv/bin/python", "check.py", prop], cwd="/verif", capture_output=True, text=True)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
r0 = demo_rc()
print("patched demo rc", r1); print("tests:", t); print("clean demo rc", r0)
print("check rc", c.returncode, [l[:200] for l in c.stdout.splitlines() if "violates" in l or "VIOL" in l or l.startswith("ok")])
ok = r1[0] != 0 and r0[0] == 0 and "passed 1008" in t
print("KEEP" if ok else "REJECT")
if not ok:
    shutil.rmtree(d)
