"""C12, C13, C14, C16, C17: long runs of every solver whose iteration has no branch, for arbitrary
functionals; C19: the same runs with and without logging and callbacks. More iterations than the
case-splitting obligations can afford: restarts, per-iteration parameters, thinned-out logging."""

import contextlib
import io

from symx.harness import ob

from ._solvers import SOLVERS

NAMES = {"C12", "C13", "C14", "C16", "C17", "C19"}
N = 23  # logging prints the first and last ten iterations and every (niter//10)-th


def tup(r):
    return r if isinstance(r, tuple) else (r,)


def depth(name):
    """iterations of the long run; 0: the iteration branches on its data or its terms grow too fast"""
    if any(w in name for w in ("backtracking", "line search", "Anderson", "Adaptive", "ADMML2", "no prox", "igenvalues")):
        return 0
    if "Generalized" in name and "fista" in name or name.startswith("options: TwIST") or "Generalized" in name and "three terms" in name:
        return 0
    if "fista" in name and "relaxed" in name:
        return 0
    if name.startswith("TwIST"):
        return 6
    return 12 if "three terms" in name or "four terms" in name else N


def run(h, name, s, n, **kw):
    seen = []
    if "PPXA" in name or "Consensus" in name:
        kw["tol"] = None
    if kw.get("callback", True):
        kw["callback"] = lambda *a: seen.append([h.arr(list(h.flat(v))) for v in a])
    with contextlib.redirect_stdout(io.StringIO()) as buf:
        res = tup(s.call(niter=n, **kw))
    return res, seen, buf.getvalue()


def _deep(h, name, n):
    s = SOLVERS[name]["make"](h)
    it = s.ref(n)
    res, seen, _ = run(h, name, s, n)
    h.claim(len(seen) == len(it), "one callback per iteration")
    for k in range(min(len(it), len(seen))):
        h.eq(seen[k][0], it[k][0], f"iterate {k + 1}")
    want = s.final(it)
    h.claim(len(res) == len(want), "number of outputs")
    for j, (r, w) in enumerate(zip(res, want)):
        h.eq(r, w, f"output {j} after {n} iterations")
        h.observe(f"out{j}", r)


def _log(h, name, n):
    runs = []
    for kw in (dict(), dict(show=True), dict(callback=None), dict(callback=None, show=True)):
        res, seen, out = run(h, name, SOLVERS[name]["make"](h), n, **kw)
        what = ", ".join(f"{k}={v}" for k, v in kw.items()) or "plain"
        h.claim((len(out) > 0) == bool(kw.get("show")), "printed output: " + what)
        runs.append((what, res, seen))
    _, res0, seen0 = runs[0]
    h.claim(len(seen0) == n, "one callback per iteration")
    for what, res, seen in runs[1:]:
        h.claim(len(res) == len(res0), "number of outputs: " + what)
        for j, (a, b) in enumerate(zip(res, res0)):
            h.eq(a, b, f"output {j}: {what}")
        if seen:
            h.claim(len(seen) == n, "one callback per iteration: " + what)
            for k in range(min(n, len(seen))):
                for a, b in zip(seen[k], seen0[k]):
                    h.eq(a, b, f"iterate {k + 1}: {what}")
    m = n // 2 + 1
    res, seen, _ = run(h, name, SOLVERS[name]["make"](h), m)
    if "per iteration" not in name:
        for k in range(m):
            h.eq(seen[k][0], seen0[k][0], f"iterate {k + 1} of a run of {m}")
    h.observe("x", res0[0])


for _n, _d in SOLVERS.items():
    k = depth(_n)
    if not k:
        continue
    b = f"{_d['bounds']}; {k} iterations; arbitrary functionals, starts, steps and options"
    ob(_d["prop"], "long run " + _n, bounds=b, tol=_d["tol"], validate=_d["validate"])(lambda h, n=_n, k=k: _deep(h, n, k))
    if _d["show"] and not _n.startswith("options") and k == N:
        ob("C19", "long run " + _n, bounds=b, tol=_d["tol"], validate=_d["validate"])(lambda h, n=_n, k=k: _log(h, n, k))
