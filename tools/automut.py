"""automut.py PID N [seed] : random mutants of the functions of a property, run through its check"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, "/verif")
pid, N = sys.argv[1], int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
extra = sys.argv[4].split(",") if len(sys.argv) > 4 else []
props = {json.loads(l)["id"]: json.loads(l) for l in open("/verif/properties.jsonl")}
from props import spec
P = spec.PROPS[pid]
SRC = "/repo/src/py_eddy_tracker/"
targets = set()
for a, b in P["mech"]:
    f, q = b.split(":")
    targets.add((f.replace("src/py_eddy_tracker/", ""), q))
for c in P["contracts"]:
    m, n = c.split(".")
    k = getattr(__import__("props." + m, fromlist=[n]), n)
    mod, q = k.fn.split(":")
    targets.add((mod.replace(".", "/") + ".py", q))
for e in extra:
    f, q = e.split(":"); targets.add((f, q))

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "//", ast.FloorDiv: "%", ast.BitAnd: "|", ast.BitOr: "&"}


def find(tree, q):
    cur = tree
    for p in q.split("."):
        cur = next(n for n in cur.body if getattr(n, "name", None) == p)
    return cur


def muts(src, fn):
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    P_ = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[P_(n)[0]:P_(n)[1]].decode()
    out = []

    def rep(n, new, what):
        s, e = P_(n)
        out.append((s, e, new, f"L{n.lineno} {what}: {seg(n)[:70]!r} -> {new[:70]!r}"))
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or "logger" in seg(n) or "print" in seg(n)) or isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                for m in ast.walk(d): skip.add(id(m))
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and "\n" not in seg(n):
            rep(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})" if not isinstance(n.left, ast.BinOp) else f"(({seg(n.left)}) {BIN[type(n.op)]} {seg(n.right)})", "bin")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join("(" + seg(v) + ")" for v in n.values) + ")", "bool")
            rep(n, "(" + seg(n.values[0]) + ")", "dropbool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            rep(n, str(n.value + 1), "const")
            if n.value not in (0, 1): rep(n, str(n.value / 2) if isinstance(n.value, float) else str(n.value - 1), "const")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            rep(n, f"({seg(n.operand)})", "not")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            rep(n, "pass", "drop")
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                rep(n.test, "True", "iftrue")
            rep(n.test, "False", "iffalse")
        elif isinstance(n, ast.Continue):
            rep(n, "break", "cont")
        elif isinstance(n, ast.Break):
            rep(n, "pass", "brk")
        elif isinstance(n, ast.Slice):
            if n.lower is not None: rep(n, ":" + (seg(n.upper) if n.upper else ""), "slice")
            if n.upper is not None: rep(n, (seg(n.lower) if n.lower else "") + ":", "slice")
        elif isinstance(n, ast.IfExp):
            rep(n, f"({seg(n.body)})", "ifexp"); rep(n, f"({seg(n.orelse)})", "ifexp")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a = [seg(x) for x in n.args]
            if "\n" not in seg(n) and a[0] != a[1]:
                kw = [seg(k) if False else f"{k.arg}={seg(k.value)}" for k in n.keywords if k.arg]
                if all(k.arg for k in n.keywords):
                    rep(n, f"{seg(n.func)}({', '.join([a[1], a[0]] + a[2:] + kw)})", "swapargs")
    return out


allm = []
for f, q in sorted(targets):
    try:
        src = open(SRC + f).read()
        fn = find(ast.parse(src), q)
    except Exception as e:
        print("skip", f, q, repr(e)); continue
    ms = muts(src, fn)
    random.Random(f"{seed}{f}{q}").shuffle(ms)
    allm.append([(f, q, m) for m in ms])
# round robin over functions
pick = []
while len(pick) < N and any(allm):
    for l in allm:
        if l and len(pick) < N:
            pick.append(l.pop())
log = open(f"/tmp/mut/{pid}_{seed}.log", "a")
for f, q, (s, e, new, what) in pick:
    b = open(SRC + f, "rb").read()
    m = b[:s] + new.encode() + b[e:]
    try:
        ast.parse(m)
    except SyntaxError:
        continue
    tmp = tempfile.mkdtemp(prefix="am_")
    os.makedirs(tmp + "/repo")
    subprocess.run(f"cp -a /repo/src {tmp}/repo/src; cp -a /repo/.git {tmp}/repo/.git; find {tmp}/repo/src -name __pycache__ -prune -exec rm -rf {{}} +", shell=True)
    open(tmp + "/repo/src/py_eddy_tracker/" + f, "wb").write(m)
    t = time.time()
    try:
        r = subprocess.run(["python3-vt", "-m", "vc.check", pid], cwd="/tmp/mut/verif", capture_output=True, text=True, timeout=1200, env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_EVIDENCE=tmp))
        rc = r.returncode
        det = [l for l in r.stdout.splitlines() if "violated" in l or "not proved" in l][:1]
        vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        nf = " NOINPUT" if vio and all("no-failing" in v for v in vio) else ""
    except subprocess.TimeoutExpired:
        rc, det, nf = "TIMEOUT", [], ""
    line = f"{'SURVIVED' if rc == 0 else 'killed' if rc == 1 else 'RC' + str(rc)}{nf} {pid} {f}:{q} {what} [{time.time()-t:.0f}s] {det[0][:120] if det else ''}"
    print(line, flush=True); log.write(line + "\n"); log.flush()
    shutil.rmtree(tmp, ignore_errors=True)
