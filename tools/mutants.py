#!/opt/venv/bin/python
"""Automatic mutation campaign (development tool, not a check).

mutants.py FILE,FILE.. ID[,ID..] [--k=40] [--seed=1] [--frac=0.25] [--jobs=7]
Applies single-token mutations to a private copy of /repo, runs the named checks with a fraction of their quick
budget; survivors are run through the repository's tests (a private bind mount over /repo) and printed when these pass too.
"""
import ast, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import threading

args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = dict(a[2:].split("=") for a in sys.argv[1:] if a.startswith("--"))
SRC = opt.get("src", "/tmp/rw")
FILES, IDS = args[0].split(","), args[1].split(",")
K, SEED, FRAC, JOBS = int(opt.get("k", 40)), int(opt.get("seed", 1)), float(opt.get("frac", 0.25)), int(opt.get("jobs", 7))
WORK = "/tmp/mt"
sys.path.insert(0, "/verif")
SWAPS = ["PF PT", "QF QT", "QMAX QMIN", "PMAX PMIN", "F_BUS T_BUS", "VMAX VMIN", "PD QD", "GS BS", "PG QG", "vstack hstack", "real imag",
         "MU_PMAX MU_PMIN", "MU_QMAX MU_QMIN", "MU_SF MU_ST", "MU_VMAX MU_VMIN", "LAM_P LAM_Q", "VM VA", "ANGMIN ANGMAX", "PV PQ", "max min",
         "zeros ones", "BR_R BR_X", "RATE_A RATE_B", "cos sin", "any all", "ref pv", "pv pq", "lam mu", "xmin xmax", "nb ng", "nl nb", "l u", "GEN_BUS BUS_I",
         "Va Vm", "Pg Qg", "PMUMAX PMUMIN", "QMINF QMINT", "QMAXF QMAXT", "VF VT", "i1 iN"]
SW = {}
for s in SWAPS:
    a, b = s.split()
    SW.setdefault(a, []).append(b)
    SW.setdefault(b, []).append(a)


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in src.encode().split(b"\n"):
        off.append(off[-1] + len(l) + 1)
    bs = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: bs[slice(*pos(n))].decode()
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                infn.add(m)
    def rep(n, new, kind):
        a, b = pos(n)
        out.append((n.lineno, kind, a, b, new))
    for n in ast.walk(tree):
        if n not in infn or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = txt(n.left), txt(n.comparators[0])
            m = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
                 ast.In: ["not in"], ast.NotIn: ["in"]}[type(n.ops[0])]
            for o in m:
                rep(n, f"{l} {o} {r}", "cmp")
        elif isinstance(n, ast.BinOp):
            l, r = txt(n.left), txt(n.right)
            m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&"}.get(type(n.op))
            if m and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                rep(n, f"({l}) {m} ({r})", "bin")
                if m in "-+*/":
                    rep(n, f"({l})", "drop")
        elif isinstance(n, ast.BoolOp):
            m = "or" if isinstance(n.op, ast.And) else "and"
            rep(n, f" {m} ".join("(" + txt(v) + ")" for v in n.values), "bool")
            rep(n, "(" + txt(n.values[0]) + ")", "boolfirst")
            rep(n, "(" + txt(n.values[-1]) + ")", "boollast")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            rep(n, "(" + txt(n.operand) + ")", "un")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            rep(n, str(n.value + 1), "const")
            if n.value:
                rep(n, str(n.value - 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            rep(n, repr(n.value * 10), "const")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SW:
            for b in SW[n.id]:
                if re.search(r"\b%s\b" % b, src):
                    rep(n, b, "swap")
        elif isinstance(n, ast.Attribute) and n.attr in ("real", "imag") and isinstance(n.ctx, ast.Load):
            rep(n, txt(n.value) + "." + ("imag" if n.attr == "real" else "real"), "swap")
        elif isinstance(n, ast.Call):
            f = txt(n.func)
            if f.endswith(".copy") and not n.args:
                rep(n, f[:-5], "nocopy")
            elif f in ("deepcopy", "copy", "conj", "abs", "sort", "unique", "array", "sqrt", "exp", "r_", "real", "diag") and n.args:
                rep(n, "(" + txt(n.args[0]) + ")", "nocall")
        elif isinstance(n, (ast.If, ast.While)) :
            rep(n.test, "True" if isinstance(n, ast.If) else txt(n.test), "iftrue")
            if isinstance(n, ast.If):
                rep(n.test, "False", "iffalse")
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            tg = n.targets[0] if isinstance(n, ast.Assign) else None
            if not isinstance(tg, (ast.Name, ast.Tuple)):
                rep(n, "pass", "delete")
        if isinstance(n, (ast.Continue, ast.Break)):
            rep(n, "pass", "delete")
    res = []
    for ln, kind, a, b, new in out:
        nb = bs[:a] + new.encode() + bs[b:]
        if nb == bs:
            continue
        try:
            compile(nb, path, "exec")
        except SyntaxError:
            continue
        res.append((ln, kind, bs[a:b].decode(), new, nb))
    return res


def trivial(line):
    return any(w in line for w in ("verbose", "stderr", "stdout", "print(", "write(", "logger"))


allm = []
for f in FILES:
    p = f"{SRC}/pypower/{f}.py"
    L = open(p).read().split("\n")
    for m in sites(p):
        if not trivial(L[m[0] - 1]):
            allm.append((f,) + m)
rng = random.Random(SEED)
rng.shuffle(allm)
sel, seen = [], {}
for m in allm:                         # at most 2 per source line
    if seen.get((m[0], m[1]), 0) < int(opt.get("perline", 1)):
        seen[m[0], m[1]] = seen.get((m[0], m[1]), 0) + 1
        sel.append(m)
if "only" in opt:
    sel = [m for m in sel if any(a <= m[1] <= b for a, b in [map(int, opt["only"].split("-"))])]
sel = sel[:K]
print(len(allm), "mutants of", FILES, "running", len(sel), "against", IDS, flush=True)
import importlib
runs = {i: importlib.import_module("vsim.props." + i.lower()).RUNS["quick"] for i in IDS}
slots = list(range(JOBS))
lock = threading.Lock()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
cnt = {}


def run(m):
    f, ln, kind, old, new, nb = m
    with lock:
        s = slots.pop()
    try:
        d = f"{WORK}/{os.getpid()}_{s}"
        subprocess.run(["rm", "-rf", d])
        subprocess.run(["cp", "-a", SRC, d])
        with open(f"{d}/pypower/{f}.py", "wb") as fo:
            fo.write(nb)
        for i in IDS:
            n = max(20, int(runs[i] * FRAC))
            env = dict(os.environ, VSIM_REPO=d, VSIM_WORKERS="1", VSIM_SCAN="1")
            try:
                r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", i, f"--n={n}"], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return "timeout " + i
            if "VIOLATION" in r.stdout:
                return "killed " + i
            if r.returncode != 0:
                return f"exit{r.returncode} " + i + " " + (r.stderr or r.stdout)[-200:].replace("\n", " | ")
        o = f"{d}.json"
        subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {d} /repo && bash /opt/vp/test.sh {o} >/dev/null 2>&1"])
        try:
            ok = set(json.load(open(o))["passed"])
        except Exception:
            return "tests"
        return "tests" if stable - ok else "SURVIVED"
    finally:
        with lock:
            slots.append(s)


def go(m):
    v = run(m)
    f, ln, kind, old, new, nb = m
    with lock:
        cnt[v.split()[0]] = cnt.get(v.split()[0], 0) + 1
        if not v.startswith(("killed", "tests")):
            print(f"{v}  {f}:{ln} [{kind}] {old[:90]!r} -> {new[:90]!r}", flush=True)


with ThreadPoolExecutor(JOBS) as ex:
    list(ex.map(go, sel))
print("TOTAL", cnt)
subprocess.run(f"rm -rf {WORK}/{os.getpid()}_*", shell=True)
