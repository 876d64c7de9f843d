#!/opt/venv/bin/python
"""plant.py ID [--check] : make and test a planted bug from /tmp/bugs/ID.py
(variables: prop, file, subs=[(old,new),...], needs, breaks, demo) in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
i = sys.argv[1]
ns = {}
exec(open(f"/tmp/bugs/{i}.py").read(), ns)
W = f"/tmp/plant_{i}"
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "docs", "examples", "tutorials"))
files = ns["files"] if "files" in ns else {ns["file"]: ns["subs"]}
try:
    for f, subs in files.items():
        p = f"{W}/pyproximal/{f}"
        s = open(p).read()
        for old, new in subs:
            assert s.count(old) == 1, (f, s.count(old), old)
            s = s.replace(old, new)
        open(p, "w").write(s)
    diff = subprocess.run(["git", "diff", "--", "pyproximal"], cwd=W, capture_output=True, text=True).stdout
    for f in files:
        bl = subprocess.run(["git", "blame", "-s", "HEAD", "--", f"pyproximal/{f}"], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
        import re
        base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo", capture_output=True, text=True).stdout[:7]
        d1 = subprocess.run(["git", "diff", "-U0", "--", f"pyproximal/{f}"], cwd=W, capture_output=True, text=True).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d1, re.M):
            for k in range(int(m[1]), int(m[1]) + int(m[2] or 1)):
                if not bl[k - 1].lstrip("^").startswith(base[:7]):
                    print("NOT ORIGINAL:", bl[k - 1])
    out = f"/verif/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(ns["demo"].lstrip())
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$(mktemp -d)\ntrap \'rm -rf "$NUMBA_CACHE_DIR"\' EXIT\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(out + "/meta.json", "w"), indent=1)
    env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
    a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", out + "/demo.sh"], cwd=W, env=env, capture_output=True, text=True)
    print("demo clean rc", a.returncode, a.stderr[-300:] if a.returncode else "")
    print("demo patched rc", b.returncode, (b.stdout + b.stderr).strip()[-200:])
    rep = f"/tmp/rep_{i}.xml"
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", "--tb=line",
                        "pytests"], cwd=W, env=env, capture_output=True, text=True)
    print("tests:", t.stdout.strip().splitlines()[-1])
    if t.returncode: print(t.stdout[-800:])
    if "--check" in sys.argv or True:
        c = subprocess.run(["/opt/venv/bin/python", "check.py", ns["prop"]], cwd="/verif",
                           env=dict(env, VERIF_REPO=W, VERIF_NOEVID="1"), capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print("check rc", c.returncode, v[:2], c.stdout.strip().splitlines()[-1][-160:])
finally:
    shutil.rmtree(W, ignore_errors=True)
