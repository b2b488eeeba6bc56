"""mutate.py FILE [START [STOP]]: mutants of one file of /repo that no check reports (a development aid, no check uses it)"""
import ast, json, os, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*", ast.MatMult: "*"}
SWAP = {"min": "max", "max": "min", "all": "any", "any": "all", "argmin": "argmax", "maximum": "minimum", "minimum": "maximum", "append": None, "zeros": "ones", "ones": "zeros", "logical_and": "logical_or", "vstack": "hstack", "hstack": "vstack", "round": "floor", "floor": "ceil", "insert": None}


def mutants(src):
    t = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []

    def rep(n, new, what):
        a, e = pos(n)
        m = (b[:a] + new.encode() + b[e:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            return
        out.append((n.lineno, what, m))

    docs = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            docs.add(n.body[0].value)
    skip = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.Raise,)):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "warn_once", "warn"):
            skip.update(ast.walk(n))
        if isinstance(n, ast.arg) and n.annotation:
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns:
            skip.update(ast.walk(n.returns))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(n))
    for n in ast.walk(t):
        if n in docs or n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, f"{seg(n.left)} {o} {seg(n.comparators[0])}", f"{seg(n)} -> {o}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", f"{seg(n)} -> {BIN[type(n.op)]}")
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [f"({seg(v)})" for j, v in enumerate(n.values) if j != i]
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", f"{seg(n)} without {i}")
            rep(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({seg(v)})" for v in n.values) + ")", f"{seg(n)} swapped")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, f"({seg(n.operand)})", f"{seg(n)} without it")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), f"{v} -> {not v}")
            elif isinstance(v, (int, float)):
                rep(n, f"({v} + 1)", f"{v} + 1")
                if v:
                    rep(n, f"({v} - 1)", f"{v} - 1")
            elif v is None:
                pass
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n, ast.While):
            rep(n.test, f"(True or {seg(n.test)})" if False else "True", f"if {seg(n.test)} -> True")
            rep(n.test, "False", f"if {seg(n.test)} -> False")
        elif isinstance(n, ast.IfExp):
            rep(n, f"({seg(n.body)})", f"{seg(n)} always")
            rep(n, f"({seg(n.orelse)})", f"{seg(n)} never")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass", f"without {seg(n)}")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            if isinstance(n, ast.AugAssign):
                rep(n, "pass", f"without {seg(n)}")
                if isinstance(n.op, ast.Add):
                    rep(n, f"{seg(n.target)} -= {seg(n.value)}", f"{seg(n)} -=")
            elif isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                rep(n, "pass", f"without {seg(n)}")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "deepcopy", "abs", "flatten", "astype", "reshape", "clip") and isinstance(f.value, ast.Name) is False or isinstance(f, ast.Attribute) and f.attr == "copy":
                rep(n, f"({seg(f.value)})", f"{seg(n)} without .{f.attr}()")
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if SWAP.get(nm):
                new = (seg(f.value) + "." if isinstance(f, ast.Attribute) else "") + SWAP[nm]
                rep(f, new, f"{seg(n)} -> {SWAP[nm]}")
            if nm in ("deepcopy", "int", "abs", "copy", "sorted", "set", "tuple", "list", "reversed") and len(n.args) == 1 and not n.keywords:
                rep(n, f"({seg(n.args[0])})", f"{seg(n)} without {nm}")
            for k in n.keywords:
                if k.arg in ("axis",) and isinstance(k.value, ast.Constant):
                    rep(k.value, str(1 - k.value.value) if k.value.value in (0, 1) else "0", f"{seg(n)} other axis")
        elif isinstance(n, ast.Continue):
            rep(n, "break", "continue -> break")
        elif isinstance(n, ast.Break):
            rep(n, "continue", "break -> continue")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            pass
    seen, r = set(), []
    for m in sorted(out, key=lambda x: x[0]):
        if m[2] not in seen and m[2] != src:
            seen.add(m[2])
            r.append(m)
    return r


def checks_for(f):
    r = []
    for l in open(f"{ROOT}/properties.jsonl"):
        d = json.loads(l)
        if any(f in x for x in d["anchors"]["files"]):
            r.append(d["id"])
    return r


FIRST = []


def run(i, f, m, ids):
    d = f"/tmp/mut/{os.path.basename(f)}-{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(REPO + "/norfair", d + "/norfair")
    for x in os.listdir(REPO):
        if x not in ("norfair", ".git") and not os.path.exists(d + "/" + x):
            os.symlink(REPO + "/" + x, d + "/" + x)
    open(f"{d}/{f}", "w").write(m[2])
    got, notes = None, []
    for c in FIRST + [x for x in ids if x not in FIRST]:
        try:
            r = subprocess.run([ROOT + "/check", c, "quick", "--budget", "150"], capture_output=True, text=True, timeout=400, cwd=d, env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS=os.environ.get("VERIF_JOBS", "2"), VERIF_OUT=d))
        except subprocess.TimeoutExpired:
            notes.append(f"{c} timeout")
            continue
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            got = c
            break
        if r.returncode:
            notes.append(f"{c} rc={r.returncode} {(r.stdout + r.stderr)[-200:]}")
        notes += [f"{c} {l[:160]}" for l in r.stdout.splitlines() if l.startswith("note")][:2]
    shutil.rmtree(d, ignore_errors=True)
    if got:
        if got in FIRST:
            FIRST.remove(got)
        FIRST.insert(0, got)
        del FIRST[4:]
    return got, notes


def main():
    f = sys.argv[1]
    src = open(f"{REPO}/{f}").read()
    ms = mutants(src)
    a = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    e = int(sys.argv[3]) if len(sys.argv) > 3 else len(ms)
    ids = checks_for(f)
    print(f, len(ms), "mutants; checks", ids, flush=True)
    if os.environ.get("LIST"):
        for i, m in enumerate(ms):
            print(i, m[0], m[1])
        return
    t0 = time.time()
    with ThreadPoolExecutor(int(os.environ.get("WORKERS", "5"))) as ex:
        for i, (m, r) in enumerate(zip(ms[a:e], ex.map(lambda k: run(k, f, ms[k], ids), range(a, e)))):
            got, notes = r
            if not got or os.environ.get("ALL"):
                print(f"{a + i} L{m[0]} {' '.join(m[1].split())}: {got or 'SURVIVES'} {notes[:4]}", flush=True)
    print("done", e - a, f"{time.time() - t0:.0f} s", flush=True)


main()
