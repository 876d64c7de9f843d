"""C19: callbacks, iteration limits, tolerances and logging of every solver, for arbitrary
functionals: no reference recurrence is used except where a tolerance stops the run."""

import contextlib
import io

from symx.harness import ob

from ._common import F_, G_, P_, PD_, absprox, rdot, total
from ._solvers import SOLVERS, absbil, lin, mtv, mv

P = "C19"


def tup(r):
    return list(r) if isinstance(r, tuple) else [r]


def run(h, name, n, cb="one", **kw):
    """a fresh run; returns (outputs, callback argument lists)"""
    d = SOLVERS[name]
    s = d["make"](h)
    seen = []
    if cb is not None:
        kw["callback"] = lambda *a: seen.append([h.arr(list(h.flat(v))) for v in a])
    if cb == "two":
        kw["callbackz" if s.ncb == 2 else "callbacky"] = True
    with contextlib.redirect_stdout(io.StringIO()) as buf:
        res = tup(s.call(niter=n, **kw))
    return s, res, seen, buf.getvalue()


def same(h, a, b, what):
    h.claim(len(a) == len(b), what + ": number of values")
    for j, (x, y) in enumerate(zip(a, b)):
        h.eq(x, y, f"{what} [{j}]")


def _history(h, name, show=True):
    """one callback per iteration, with the iterate the run would return if it stopped there"""
    d = SOLVERS[name]
    N = d["niter"]
    if name.startswith("Anderson"):
        d["make"](h).ref(N)  # its assumptions keep the Gram matrices definite
    s, res, seen, _ = run(h, name, N)
    tolstop = name.startswith("AdaptivePrimalDual")
    if not tolstop:
        h.claim(len(seen) == N, "one callback per iteration")
    h.observe("x", res[0])
    for n in range(0 if d["n0"] else 1, N):
        _, r, c, _ = run(h, name, n)
        k = min(n, len(seen))
        h.claim(len(c) == k, f"{n} iterations requested")
        for i in range(min(len(c), k)):
            same(h, c[i], seen[i], f"iterate {i + 1} does not depend on the number of iterations")
        if c:
            same(h, c[-1], r[: len(c[-1])], f"last callback is the result after {n} iterations")
        elif n == 0 and s.arrays and s.ncb == 1 and name.startswith(("Prox", "Gen", "Acc", "ADMM", "HQS", "Prim", "Linear", "PlugAnd")):
            h.eq(r[0], s.arrays[0], "no iteration returns the start")
    if seen:
        same(h, seen[-1], res[: len(seen[-1])], "last callback is the result")
    if s.ncb in (2, 3):
        _, r2, c2, _ = run(h, name, N, cb="two")
        same(h, r2, res, "result with the two-argument callback")
        h.claim(len(c2) == N, "one two-argument callback per iteration")
        for i, a in enumerate(c2):
            h.claim(len(a) == 2, "both variables are passed")
            same(h, a[:1], seen[i][:1], f"first variable of iteration {i + 1}")
        if c2:
            same(h, c2[-1], res[:2], "last two-argument callback is the result")
    _, r3, _, out3 = run(h, name, N, cb=None)
    same(h, r3, res, "result without a callback")
    h.claim(out3 == "", "nothing is printed")
    if show:
        _, r4, c4, out = run(h, name, N, show=True)
        same(h, r4, res, "result with logging")
        h.claim(len(out) > 0, "logging prints")
        h.claim(len(c4) == len(seen), "callbacks with logging")
        for i, a in enumerate(c4[: len(seen)]):
            same(h, a, seen[i], f"iterate {i + 1} with logging")


for _n, _d in SOLVERS.items():
    if not _d["hist"]:
        continue
    ob(P, "history " + _n, bounds=f"{_d['bounds']}; 0..{_d['niter']} iterations; arbitrary functionals, starts, steps, options",
       tol=_d["tol"], validate=_d["validate"], tier="thorough" if _d["slow"] else "quick",
       max_time=90)(lambda h, n=_n: _history(h, n))


# ------------------------------------------------------------------ tolerances
def _stops(h, N, call, ref, crit, label="", two=False):
    """ref(N): the full list of iterates; crit(k): the documented criterion holds at iterate k"""
    full = ref(N)
    stop = N
    for k in range(N):
        if crit(k, full):
            stop = k + 1
            break
    for show in (False, True):
        seen = []
        with contextlib.redirect_stdout(io.StringIO()):
            res = tup(call(N, show, lambda *a: seen.append(a[0].copy())))
        h.claim(len(seen) == stop, f"number of iterations{' with logging' if show else ''}")
        h.eq(res[0], full[stop - 1], f"result{' with logging' if show else ''}")
    h.observe("x", res[0])
    # without a tolerance all iterations are made
    seen = []
    res = tup(call(N, False, lambda *a: seen.append(a[0].copy()), notol=True))
    h.claim(len(seen) == N, "no tolerance: all iterations")
    h.eq(res[0], full[-1], "no tolerance: result")


def _objcrit(h, obj, tol, vanish=None):
    """relative change of the objective between consecutive iterates below tol
    (vanish: iterations at which the objective is 0)"""
    def crit(k, full):
        if k == 0:
            return False
        new, old = obj(k, full[k]), obj(k - 1, full[k - 1])
        if vanish is not None:
            for j, v in ((k, new), (k - 1, old)):
                if j in vanish:
                    h.assume(v >= 0)
                    h.assume(v <= 0)
                else:
                    h.assume(h.Or(v > 0, v < 0))
            if k - 1 in vanish:
                return k in vanish
        h.assume(h.Or(old > 0, old < 0))
        return abs(1 - new / old) < tol

    return crit


def _tolpp(h, N, vanish=None):
    s = SOLVERS["ProximalPoint"]["make"](h)
    tol = h.real("tol", pos=True, hi=1)
    h.assume(tol < 1)
    _stops(h, N, lambda n, show, cb, notol=False: s.call(niter=n, callback=cb, show=show, tol=None if notol else tol),
           lambda n: [t[0] for t in s.ref(n)], _objcrit(h, lambda k, x: F_(h, "f", x), tol, vanish))


def _tolpg(h, N, name, multi=False, vanish=None):
    s = SOLVERS[name]["make"](h)
    tol = h.real("tol", pos=True, hi=1)
    h.assume(tol < 1)
    eps = (lambda k: h.vec("eps", N, pos=True)[k]) if multi else (lambda k: h.real("eps", pos=True))
    _stops(h, N, lambda n, show, cb, notol=False: s.call(niter=n, callback=cb, show=show, tol=None if notol else tol),
           lambda n: [t[0] for t in s.ref(n)],
           _objcrit(h, lambda k, x: F_(h, "f", x) + eps(k) * F_(h, "g", x), tol, vanish))


ob(P, "tolerance ProximalPoint", bounds="n=2, 3 iterations, arbitrary functional")(lambda h: _tolpp(h, 3))
for _n in ("ProximalGradient acceleration=None", "ProximalGradient acceleration='fista'",
           "ProximalGradient acceleration='vandenberghe' relaxed", "ProximalGradient complex",
           "AcceleratedProximalGradient fista"):
    ob(P, "tolerance " + _n, bounds="3 iterations, arbitrary functionals, start, step, weights")(lambda h, n=_n: _tolpg(h, 3, n))
for _v in ((0, 1), (0,), (1,), (1, 2)):
    _t = f"zero objective at {' and '.join(str(i + 1) for i in _v)}"
    ob(P, f"tolerance ProximalPoint {_t}", bounds="n=2, 3 iterations, arbitrary functional")(lambda h, v=_v: _tolpp(h, 3, v))
    for _n in ("ProximalGradient acceleration=None", "AcceleratedProximalGradient fista"):
        ob(P, f"tolerance {_n} {_t}", bounds="3 iterations, arbitrary functionals")(lambda h, v=_v, n=_n: _tolpg(h, 3, n, vanish=v))
ob(P, "tolerance ProximalGradient fista epsg per iteration", bounds="n=2, 3 iterations")(
    lambda h: _tolpg(h, 3, "ProximalGradient fista epsg per iteration", True))
for _n in (2, 3):
    ob(P, f"tolerance ProximalGradient backtracking {_n} iterations", bounds=f"n=1, {_n} iterations, 1 trial", max_time=60 if _n == 2 else 200,
       tier="quick" if _n == 2 else "thorough")(
        lambda h, n=_n: _tolpg(h, n, "ProximalGradient backtracking one trial"))
ob(P, "tolerance Anderson", validate=False, bounds="n=1, 3 iterations, history 1")(
    lambda h: _tolpg(h, 3, "Anderson two iterations history 1"))
ob(P, "tolerance Anderson safeguarded", validate=False, tier="thorough", max_time=200, bounds="n=1, 3 iterations, history 1")(
    lambda h: _tolpg(h, 3, "Anderson safeguarded history 1"))


def _tolbreg(h, N, name, by):
    """Bregman iterations stop on a small update or a small data term"""
    s = SOLVERS[name]["make"](h)
    x0 = s.arrays[0]
    tolx, tolf = h.real("tx", pos=True), h.real("tolf")
    full = [t[0] for t in s.ref(N)]  # assumes f >= tolf throughout
    stop = N
    if by == "x":
        for k in range(N):
            old = full[k - 1] if k else x0
            if h.norm(h.arr([a - b for a, b in zip(h.flat(full[k]), h.flat(old))])) < tolx:
                stop = k + 1
                break
        kw = dict(tolx=tolx, tolf=tolf)
    else:
        tf = h.real("tf")
        for k in range(N):
            if F_(h, "f", full[k]) < tf:
                stop = k + 1
                break
        kw = dict(tolx=0, tolf=tf)
    for show in (False, True):
        seen = []
        with contextlib.redirect_stdout(io.StringIO()):
            res = tup(s.call(niter=N, show=show, callback=lambda *a: seen.append(a[0].copy()), **kw))
        h.claim(len(seen) == stop, f"number of iterations, logging {show}")
        h.eq(res[0], full[stop - 1], f"result, logging {show}")
    h.observe("x", res[0])


for _n in ("Bregman cold ProximalGradient", "Bregman warm ADMM"):
    for _b in ("x", "f"):
        ob(P, f"tolerance {_n} {_b}", bounds="n=2, 3 iterations, arbitrary functionals")(lambda h, n=_n, b=_b: _tolbreg(h, 3, n, b))


def _tolmax(h, N, name, start):
    """the largest change of an entry falls below the tolerance"""
    s = SOLVERS[name]["make"](h)
    tol = h.real("tol", pos=True)

    def crit(k, full):
        old = full[k - 1] if k else start(h)
        return all(bool(abs(a - b) < tol) for a, b in zip(h.flat(full[k]), h.flat(old)))

    _stops(h, N, lambda n, show, cb, notol=False: s.call(niter=n, callback=cb, show=show, tol=None if notol else tol),
           lambda n: [t[0] for t in s.ref(n)], crit)


def _wstart(h):
    w0 = h.real("w0", pos=True)
    x = [h.vec(f"x0{i}_", 1) for i in range(2)]
    return [w0 * x[0][0] + (1 - w0) * x[1][0]]


ob(P, "tolerance PPXA", bounds="n=1, 3 iterations, two terms")(
    lambda h: _tolmax(h, 3, "PPXA two terms", lambda h: h.vec("x0", 1)))
ob(P, "tolerance PPXA list of starts", bounds="n=1, 3 iterations, two terms")(
    lambda h: _tolmax(h, 3, "PPXA list of starts weights list", _wstart))
ob(P, "tolerance PPXA n=2", bounds="n=2, 2 iterations, two terms")(
    lambda h: _tolmax(h, 2, "PPXA n=2", lambda h: _wstart2(h)))
ob(P, "tolerance ConsensusADMM", bounds="n=1, 3 iterations, two terms")(
    lambda h: _tolmax(h, 3, "ConsensusADMM two terms", lambda h: h.vec("x0", 1)))
ob(P, "tolerance ConsensusADMM n=2", bounds="n=2, 2 iterations, two terms")(
    lambda h: _tolmax(h, 2, "ConsensusADMM n=2", lambda h: h.vec("x0", 2)))


def _wstart2(h):
    w0 = h.real("w0", pos=True)
    x = [h.vec(f"x0{i}_", 2) for i in range(2)]
    return [w0 * x[0][i] + (1 - w0) * x[1][i] for i in range(2)]
