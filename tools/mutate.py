#!/opt/venv/bin/python
"""Mutation campaign against the checks (development aid; no check uses it).

mutate.py gen OUT.json                 enumerate AST mutants of /repo/pyproximal
mutate.py tests IN.json OUT.json N     run the test suite on N random mutants (8 copies), keep survivors
mutate.py cover OUT.json               obligations and the functions they encode
mutate.py check SURV.json COVER.json OUT.json   run the obligations which encode the mutated function
"""
import ast, json, os, random, shutil, subprocess, sys, time
import multiprocessing as mp

SKIP = ("version.py", "_Simplex_cuda.py", "typing.py", "backend.py", "__init__.py")


def muts(path, rel):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    bsrc = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: bsrc[slice(*pos(n))].decode()
    out = []

    def add(n, new, op, fn):
        a, b = pos(n)
        if bsrc[a:b].decode() != new:
            out.append(dict(file=rel, a=a, b=b, new=new, old=bsrc[a:b].decode(), op=op, func=fn, line=n.lineno))

    SW = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
    CM = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}

    def walk(n, fn, infn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = f"{fn}.{n.name}" if fn else n.name
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            if n.name.startswith("__repr") or n.name == "_backtracking_":
                pass
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + n.args.kw_defaults:
                    if d is not None:
                        walk(d, q, True)
            for c in body:
                walk(c, q, infn or isinstance(n, ast.FunctionDef))
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.JoinedStr, ast.Assert)):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                walk(n.value, fn, infn)
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "TypeVar", "jit", "warn"):
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "show":
            return
        if infn:
            if isinstance(n, ast.BinOp) and type(n.op) in SW:
                l, r = seg(n.left), seg(n.right)
                a, b = pos(n)
                mid = bsrc[pos(n.left)[1]:pos(n.right)[0]].decode()
                sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(n.op)]
                if mid.count(sym) == 1:
                    add(n, l + mid.replace(sym, SW[type(n.op)]) + r, "binop", fn)
                add(n, "(" + l + ")", "dropr", fn)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CM:
                add(n, seg(n.left) + " " + CM[type(n.ops[0])] + " " + seg(n.comparators[0]), "cmp", fn)
            if isinstance(n, ast.BoolOp):
                k = " and " if isinstance(n.op, ast.Or) else " or "
                add(n, "(" + k.join(seg(v) for v in n.values) + ")", "bool", fn)
                for v in n.values:
                    add(n, "(" + seg(v) + ")", "boolpart", fn)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                add(n, "(" + seg(n.operand) + ")", "unary", fn)
            if isinstance(n, ast.Constant):
                v = n.value
                if v is True or v is False:
                    add(n, str(not v), "const", fn)
                elif v is None:
                    pass
                elif isinstance(v, int):
                    add(n, str(v + 1), "const", fn)
                    if v > 0:
                        add(n, str(v - 1), "const", fn)
                elif isinstance(v, float):
                    add(n, repr(v * 2 if v else 1.0), "const", fn)
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "conj", "ravel", "T") and not n.args:
                    add(n, seg(n.func.value), "drop" + n.func.attr, fn)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("matvec", "rmatvec", "prox", "proxdual"):
                    o = {"matvec": "rmatvec", "rmatvec": "matvec", "prox": "proxdual", "proxdual": "prox"}[n.func.attr]
                    add(n.func, seg(n.func.value) + "." + o, "method", fn)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("maximum", "minimum", "abs", "real", "sign") and len(n.args):
                    o = {"maximum": "minimum", "minimum": "maximum", "abs": "real", "real": "abs", "sign": "abs"}[n.func.attr]
                    add(n.func, seg(n.func.value) + "." + o, "npfun", fn)
                for k in n.keywords:
                    if k.arg:
                        a, b = pos(k)
                        e = b
                        while chr(bsrc[e]) in " \n,":
                            if chr(bsrc[e]) == ",":
                                e += 1
                                break
                            e += 1
                        out.append(dict(file=rel, a=a, b=e, new="", old=bsrc[a:e].decode(), op="dropkw", func=fn, line=k.value.lineno))
                if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                    add(n.args[0], seg(n.args[1]), "argrep", fn)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name):
                add(n.slice, "0", "index0", fn)
            if isinstance(n, (ast.AugAssign, ast.Assign)):
                add(n, "pass", "delstmt", fn)
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                o = "-=" if isinstance(n.op, ast.Add) else "+="
                add(n, seg(n.target) + " " + o + " " + seg(n.value), "aug", fn)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) is False and isinstance(n.value, ast.BinOp) and isinstance(n.targets[0], ast.Name) \
                    and any(isinstance(m, ast.Name) and m.id == n.targets[0].id for m in ast.walk(n.value)):
                pass
            if isinstance(n, ast.If):
                add(n.test, "True", "iftrue", fn)
                add(n.test, "False", "iffalse", fn)
            if isinstance(n, ast.IfExp):
                add(n, "(" + seg(n.body) + ")", "ifexp", fn)
                add(n, "(" + seg(n.orelse) + ")", "ifexp", fn)
            if isinstance(n, ast.Break):
                add(n, "pass", "break", fn)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                SWN = {"x": "y", "y": "x", "z": "x", "xold": "x", "yold": "y", "xhat": "x", "gammaf": "gammag", "proxf": "proxg", "proxg": "proxf", "tau": "mu", "mu": "tau", "sigma": "tau"}
                if n.id in SWN and SWN[n.id] in src:
                    add(n, SWN[n.id], "name", fn)
        for c in ast.iter_child_nodes(n):
            walk(c, fn, infn)

    walk(tree, "", False)
    ok, seen = [], set()
    for m in out:
        new = bsrc[:m["a"]] + m["new"].encode() + bsrc[m["b"]:]
        if new in seen or new == bsrc:
            continue
        seen.add(new)
        try:
            t2 = ast.parse(new)
        except SyntaxError:
            continue
        if ast.dump(t2) == ast.dump(tree):
            continue
        ok.append(m)
    return ok


def gen(out):
    r = []
    for d, _, fs in os.walk("/repo/pyproximal"):
        for f in sorted(fs):
            if f.endswith(".py") and f not in SKIP:
                p = os.path.join(d, f)
                r += muts(p, os.path.relpath(p, "/repo"))
    json.dump(r, open(out, "w"))
    print(len(r), "mutants")


def clone(w):
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "docs", "examples", "tutorials", ".git"))


def apply(w, m):
    p = f"{w}/{m['file']}"
    s = open(f"/repo/{m['file']}", "rb").read()
    assert s[m["a"]:m["b"]].decode() == m["old"]
    open(p, "wb").write(s[:m["a"]] + m["new"].encode() + s[m["b"]:])
    return p


def undo(w, m):
    shutil.copyfile(f"/repo/{m['file']}", f"{w}/{m['file']}")


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")


def tworker(k, q, res):
    w = f"/tmp/mw_{k}"
    clone(w)
    env = dict(ENV, PYTHONPATH=w, NUMBA_CACHE_DIR=f"/tmp/mw_numba_{k}")
    while True:
        m = q.get()
        if m is None:
            break
        apply(w, m)
        try:
            rc = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--tb=no", "pytests"],
                                cwd=w, env=env, capture_output=True, timeout=150).returncode
        except subprocess.TimeoutExpired:
            rc = -1
        undo(w, m)
        res.put((m, rc))
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(f"/tmp/mw_numba_{k}", ignore_errors=True)


def tests(inp, out, n):
    ms = json.load(open(inp))
    random.Random(int(os.environ.get("MUTSEED", "7"))).shuffle(ms)
    ms = ms[:n]
    q, res = mp.Queue(), mp.Queue()
    J = int(os.environ.get("J", "8"))
    for m in ms:
        q.put(m)
    for _ in range(J):
        q.put(None)
    ps = [mp.Process(target=tworker, args=(k, q, res)) for k in range(J)]
    [p.start() for p in ps]
    surv = []
    for i in range(len(ms)):
        m, rc = res.get()
        if rc == 0:
            surv.append(m)
        if i % 20 == 0:
            print(i, len(surv), flush=True)
            json.dump(surv, open(out, "w"))
    json.dump(surv, open(out, "w"))
    print("survivors", len(surv), "of", len(ms))


COV = """
import sys, json, os, time
sys.path.insert(0, "/verif")
import check
from symx import harness
obs = [o for o in check.load_props(None) if o.tier == "quick"]
res = check.run_all(obs, 1, "quick", 1e6, int(os.environ.get("J", "8")))
json.dump([dict(prop=r["prop"], name=r["name"], functions=list(r["functions"]), wall=r.get("wall", 0), viol=len(r["violations"]), inc=len(r["inconclusive"])) for r in res], open(sys.argv[1], "w"))
"""

CHK = """
import sys, json, os
sys.path.insert(0, "/verif")
import check
m = json.load(open(sys.argv[1]))
from symx import harness
obs = {(o.prop, o.name): o for o in check.load_props(None)}
t0 = check.time.time()
todo = [obs[tuple(k)] for k in m["obs"]]
from symx import loader
try:
    loader.registry(); loader.real_module()
except Exception as e:
    print("RES", json.dumps(dict(err=str(e)))); sys.exit()
done = 0; inc = 0
while todo:
    b, todo = todo[:6], todo[6:]
    for r in check.run_all(b, 1, "quick", 1e6, 1):
        done += 1; inc += len(r["inconclusive"])
        if r["violations"]:
            v = r["violations"][0]
            print("RES", json.dumps(dict(caught=[r["prop"], r["name"], v["label"], v["detail"]], done=done, t=check.time.time() - t0))); sys.exit()
    if check.time.time() - t0 > float(os.environ.get("MAXT", "900")):
        break
print("RES", json.dumps(dict(caught=None, done=done, left=len(todo), inc=inc, t=check.time.time() - t0)))
"""


def cworker(k, q, res, cov):
    w = f"/tmp/mc_{k}"
    clone(w)
    while True:
        m = q.get()
        if m is None:
            break
        apply(w, m)
        f = os.path.relpath(m["file"], "pyproximal")
        top = m["func"]
        def rel(c):
            for g in c["functions"]:
                if g.split(":")[0].endswith(f) and (g.split(":")[-1].split("@")[0] == top or top.startswith(g.split(":")[-1] + ".") or g.split(":")[-1].startswith(top + ".")):
                    return True
            return False
        ob = sorted([c for c in cov if rel(c)], key=lambda c: c["wall"] or 0)
        # quick first, but spread over properties
        m2 = dict(m, obs=[(c["prop"], c["name"]) for c in ob])
        p = f"/tmp/mc_{k}.json"
        json.dump(m2, open(p, "w"))
        env = dict(ENV, VERIF_REPO=w, PYTHONPATH=w, NUMBA_CACHE_DIR=f"/tmp/mc_numba_{k}")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-c", CHK, p], cwd="/verif", env=env, capture_output=True, text=True, timeout=1800)
            l = [l for l in r.stdout.splitlines() if l.startswith("RES ")]
            d = json.loads(l[-1][4:]) if l else dict(err=(r.stdout + r.stderr)[-500:])
        except subprocess.TimeoutExpired:
            d = dict(err="timeout")
        undo(w, m)
        res.put((m, len(ob), d))
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(f"/tmp/mc_numba_{k}", ignore_errors=True)


def check_(surv, cover, out):
    ms, cov = json.load(open(surv)), json.load(open(cover))
    if os.environ.get("LIM"):
        ms = ms[:int(os.environ["LIM"])]
    q, res = mp.Queue(), mp.Queue()
    J = int(os.environ.get("J", "8"))
    for m in ms:
        q.put(m)
    for _ in range(J):
        q.put(None)
    ps = [mp.Process(target=cworker, args=(k, q, res, cov)) for k in range(J)]
    [p.start() for p in ps]
    rs, c = [], 0
    for i in range(len(ms)):
        m, n, d = res.get()
        rs.append(dict(m, nob=n, res=d))
        c += bool(d.get("caught"))
        if not d.get("caught"):
            print(f"MISS {m['file']}:{m['line']} {m['func']} [{m['op']}] {m['old'][:70]!r} -> {m['new'][:70]!r} nob={n} {str(d)[:150]}", flush=True)
        if i % 10 == 0:
            print("#", i, c, flush=True)
        json.dump(rs, open(out, "w"))
    print("caught", c, "of", len(ms))


a = sys.argv
if a[1] == "gen":
    gen(a[2])
elif a[1] == "tests":
    tests(a[2], a[3], int(a[4]))
elif a[1] == "cover":
    subprocess.run(["/opt/venv/bin/python", "-c", COV, a[2]], cwd="/verif", env=ENV)
elif a[1] == "check":
    check_(a[2], a[3], a[4])
