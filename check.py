#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--list] [--replay FILE]"""

import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("NUMBA_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/numba_cache_verif")


def load_props(prop):
    from symx import harness

    for f in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
        name = os.path.basename(f)[:-3]
        if name.startswith("_"):
            continue
        with open(f) as fh:
            if prop is not None and f'"{prop}"' not in fh.read():
                continue
        importlib.import_module("props." + name)
    return [o for o in harness.OBLIGATIONS if prop is None or o.prop == prop]


def _worker(conn, o, seed, tier):
    sys.setrecursionlimit(20000)
    for k, v in o.env.items():
        os.environ[k] = v
    try:
        from symx.harness import run_obligation

        r = run_obligation(o, seed, tier)
    except BaseException as e:  # engine failure: inconclusive, never a verdict
        import traceback

        r = dict(prop=o.prop, name=o.name, bounds=o.bounds, paths=0, transitions=0, obligations=1,
                 discharged=0, trivially=0, queries=0, solver_s=0, validated=0, mismatched=0,
                 violations=[], samples=[], functions=[], tolerated=0,
                 inconclusive=[("<engine>", f"{type(e).__name__}: {e} " + traceback.format_exc()[-600:])])
    conn.send(r)
    conn.close()


def run_all(obs, seed, tier, budget, jobs):
    from symx import loader

    loader.registry()
    loader.real_module()
    ctx = mp.get_context("fork")
    todo = list(obs)[::-1]
    running = []
    results = []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            o = todo.pop()
            left = budget - (time.time() - t0)
            if left < 5:
                results.append(_skipped(o, "property time budget exhausted"))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(b, o, seed, tier), daemon=True)
            p.start()
            b.close()
            mult = 1 if tier == "quick" else 4
            running.append((p, a, o, time.time(), min(o.max_time * mult * 2 + 30, left + 10)))
        time.sleep(0.02)
        nxt = []
        for p, a, o, t, lim in running:
            if a.poll():
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(_skipped(o, "worker died"))
                p.join(1)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                results.append(_skipped(o, "worker died"))
            elif time.time() - t > lim:
                p.kill()
                results.append(_skipped(o, "hard time limit"))
            else:
                nxt.append((p, a, o, t, lim))
        running = nxt
    return results


def _skipped(o, why):
    return dict(prop=o.prop, name=o.name, bounds=o.bounds, paths=0, transitions=0, obligations=1,
                discharged=0, trivially=0, queries=0, solver_s=0, validated=0, mismatched=0,
                violations=[], samples=[], functions=[], tolerated=0, wall=0,
                inconclusive=[("<run>", why)])


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                out.append(json.loads(line[6:]))
    return out


ASSUME = [
    "machine floats are modelled as exact reals; literals stand for the nearest short decimal/fraction",
    "array sizes, iteration counts and history lengths are the concrete bounds listed per obligation; nothing is claimed beyond them",
    "numpy/scipy/pylops/numba are replaced by stand-ins: exact elementwise/linear-algebra semantics; iterative linear solvers, bisection, SVD by their contract (exact solution)",
    "paths are complete: every feasible branch decision of the executed code within the bounds is explored (solver-decided)",
]


def replay_file(path):
    from symx import harness

    d = json.load(open(path))
    obs = load_props(d["property"])
    o = next(x for x in obs if x.name == d["obligation"])
    for k, v in o.env.items():
        os.environ[k] = v
    r = harness.Runner(o)
    table = {k: [(a, b) for a, b in v] for k, v in d["table"].items()}
    if d["label"] == "the call returns":
        ok = r.returns(d["values"], table, d.get("seed", 0))
        print({True: "ok   returned", False: "FAIL no result within 20 s of processor time", None: "undecided"}[ok])
        return int(ok is False)
    h, st, exc = r.replay(d["values"], table, d.get("seed", 0))
    print("status:", st, exc)
    for lab, ok, det in h.results:
        print("ok  " if ok else "FAIL", lab, det)
    return 1 if st == "exception" or any(not x[1] for x in h.results) else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", default=None)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    obs = load_props(a.prop)
    if a.tier == "quick":
        obs = [o for o in obs if o.tier == "quick"]
    if a.only:
        obs = [o for o in obs if a.only in o.name]
    if a.list:
        for o in obs:
            print(o.prop, o.tier, o.name)
        return 0
    if not obs:
        print("no obligations for", a.prop)
        return 2
    budget = a.budget or (600.0 if a.tier == "quick" else float(os.environ.get("VERIF_BUDGET", "840")))
    t0 = time.time()
    try:
        results = run_all(obs, a.seed, a.tier, budget, a.jobs)
    except Exception as e:
        import traceback

        traceback.print_exc()
        print(f"ERROR property={a.prop} the current source could not be loaded: {e}")
        return 2
    wall = time.time() - t0
    known = [k for k in load_known() if k.get("property") == a.prop]
    viol = []
    knownhit = []
    for r in results:
        for v in r["violations"]:
            k = next((k for k in known if k["obligation"] == r["name"] and k["label"] in v["label"]), None)
            if k:
                knownhit.append((k, r, v))
            else:
                viol.append((r, v))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tot = {k: sum(r.get(k, 0) for r in results) for k in
           ("paths", "transitions", "obligations", "discharged", "trivially", "tolerated", "queries",
            "validated", "mismatched", "unknown", "cvc5")}
    solver_s = round(sum(r["solver_s"] for r in results), 2)
    funcs = sorted({f for r in results for f in r["functions"]})
    inc = [(r["name"], lab, why) for r in results for lab, why in r["inconclusive"]]
    reported = []
    for i, (r, v) in enumerate(viol):
        path = os.path.join(HERE, "evidence", f"replay_{a.prop}_{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, obligation=r["name"], label=v["label"], detail=v["detail"],
                           values=v["values"], table=v["table"], seed=v["seed"]), f, indent=1)
        if i < 12:
            print(f"VIOLATION property={a.prop} replay={path}")
            print(f"   obligation: {r['name']} | claim: {v['label']} | {v['detail']}")
            print("   input: " + ", ".join(f"{k}={float(x):.6g}" for k, x in list(v["values"].items())[:16]))
        reported.append(dict(obligation=r["name"], label=v["label"], detail=v["detail"], replay=path))
    seen = set()
    for k, r, v in knownhit:
        if id(k) not in seen:
            seen.add(id(k))
            print(f"KNOWN-FINDING: property={a.prop} {k['what']} [{r['name']} / {v['label']}]")
    for name, lab, why in inc[:40]:
        print(f"INCONCLUSIVE property={a.prop} obligation={name} claim={lab}: {why[:300]}")
    full = [r for r in results if not r["inconclusive"] and not r["violations"]]
    if a.v:
        for r in sorted(results, key=lambda r: -r.get("wall", 0)):
            print(f"  {r['name']}: paths={r['paths']} claims={r['discharged']}/{r['obligations']} "
                  f"triv={r['trivially']} tol={r['tolerated']} q={r['queries']} val={r['validated']} mis={r['mismatched']} "
                  f"wall={r.get('wall')} inc={len(r['inconclusive'])} viol={len(r['violations'])}")
            if r.get("stack"):
                print("      ", r["stack"].replace("\n", "\n       "))
    print(f"property={a.prop} tier={a.tier} obligations={len(results)} fully_decided={len(full)} "
          f"paths={tot['paths']} claims={tot['obligations']} discharged={tot['discharged']} "
          f"queries={tot['queries']} solver_s={solver_s} validated={tot['validated']} "
          f"violations={len(viol)} known={len(seen)} inconclusive={len(inc)} wall={wall:.1f}s")
    if not a.only:
        from symx import loader

        ev = dict(
            property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed,
            level="model_checking",
            coverage=dict(
                states=tot["paths"], transitions=tot["transitions"],
                traces_validated_against_impl=tot["validated"],
                samples=[dict(obligation=r["name"], input=s) for r in results for s in r["samples"]][:12]
                or [dict(obligation=r["name"], bounds=r["bounds"]) for r in results][:3],
                obligations=tot["obligations"], discharged=tot["discharged"],
                discharged_by_normal_form=tot["trivially"], discharged_within_tolerance=tot["tolerated"],
                queries=tot["queries"], solver_s=solver_s, solver="z3 (nlsat/QF_NRA), cvc5 fallback",
                cvc5_queries=tot["cvc5"],
                functions=funcs,
                harnesses=[dict(name=r["name"], bounds=r["bounds"], paths=r["paths"],
                                claims=r["obligations"], discharged=r["discharged"],
                                validated=r["validated"], wall_s=r.get("wall")) for r in results],
                encoded_sources=[dict(file=f, sha1=s) for f, s in loader.source_files()
                                 if any(g.startswith(f) for g in funcs)],
                inconclusive=[dict(obligation=n, claim=l, why=w[:300]) for n, l, w in inc],
                known_findings=[k["what"] for k, _, _ in knownhit],
            ),
            wall_s=round(wall, 2), assumptions=ASSUME, violations=reported,
        )
        with open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if viol:
        return 1
    if not any(r["discharged"] for r in results):
        print(f"ERROR property={a.prop} nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
