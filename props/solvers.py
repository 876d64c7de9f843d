"""C12, C13, C14, C16, C17: solver iterates equal the documented recurrences, for arbitrary
(uninterpreted) functionals, and C19: callbacks, iteration limits, tolerances, logging."""

from symx.harness import ob

from ._common import F_, G_, P_, PD_, absprox, rdot, total
from ._solvers import SOLVERS, lin, mtv, mv

NAMES = {"C12", "C13", "C14", "C15", "C16", "C17"}


def tup(r):
    return r if isinstance(r, tuple) else (r,)


def _cbargs(s, it):
    # ncb: number of callback arguments; 1: x only; 2: optional callbackz; 3: callbacky; -1: x of (x, z); -2: both
    return it[:1] if s.ncb in (1, 2, 3, -1) else it


def _recurrence(h, name):
    d = SOLVERS[name]
    s = d["make"](h)
    n = d["niter"]
    seen = []
    it = s.ref(n)
    res = tup(s.call(niter=n, callback=lambda *a: seen.append([list(h.flat(v)) for v in a])))
    want = s.final(it)
    h.claim(len(res) == len(want), "number of outputs")
    for j, (r, w) in enumerate(zip(res, want)):
        h.eq(r, w, f"output {j} after {n} iterations")
        h.observe(f"out{j}", r)
    h.claim(len(seen) == len(it), "one callback per iteration")
    for k in range(min(len(it), len(seen))):
        args = _cbargs(s, it[k])
        h.claim(len(seen[k]) == len(args), "callback arguments")
        for j, (r, w) in enumerate(zip(seen[k], args)):
            h.eq(h.arr(r), w, f"iterate {k + 1}, callback argument {j}")


for _n, _d in SOLVERS.items():
    for P in (_d["prop"],) + tuple(_d["also"]):
        ob(P, _n, bounds=f"{_d['bounds']}; {_d['niter']} iterations; arbitrary functionals, starts, steps and options",
           tol=_d["tol"], validate=_d["validate"], tier="thorough" if _d["slow"] else "quick")(lambda h, n=_n: _recurrence(h, n))
