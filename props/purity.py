"""C08: no call modifies the caller's arrays, and repeating a call repeats its result, for
every operator (also composed around functionals that return their very input), every
projection and every solver."""

import contextlib
import io

from symx.harness import ob

from . import _solvers
from ._common import absprox, ufx
from ._solvers import SOLVERS
from ._zoo import ZOO

P = "C08"


def tup(r):
    return list(r) if isinstance(r, tuple) else [r]


def keep(h, a):
    return h.arr(list(h.flat(a)))


def other(h, x):
    """a concrete input of the same shape and type"""
    n = len(h.flat(x))
    v = [h.num(e) for e in (0.75, -1.25, 2.5, 0.375)[:n]]
    if x.dtype.kind == "c":
        v = [e + complex(0, 1) * h.num(0.5) for e in v]
    return h.arr(v).reshape(x.shape)


def _zoo(h, name, what):
    z = ZOO[name]
    f, arrs = z["make"](h)
    x = z["x"](h, "a")
    tau = h.real("tau", pos=True) if name not in BISECT else h.real("tau", lo=0.8, hi=1.25)
    tol = z.get("tol", 0)
    snap = h.snapshot(x, *arrs)
    y = other(h, x)
    snapy = h.snapshot(y)
    if what in ("prox", "proxdual"):
        call = lambda v, t: getattr(f, what)(v, t)
    elif what == "call":
        call = lambda v, t: h.arr([f(v)])
    else:
        call = lambda v, t: f.grad(v)
    r = call(x, tau)
    k = keep(h, r)
    h.unchanged(snap, "after the first call: array")
    call(y, h.num(2) if what == "proxdual" else h.num(1))
    h.unchanged(snap, "after another call: array")
    h.unchanged(snapy, "input of the other call")
    h.eq(keep(h, r), k, "earlier result is kept")
    r2 = call(x, tau)
    h.unchanged(snap, "after repeating: array")
    h.eq(r2, k, "repeated call", tol=tol)


BISECT = {"L1Ball", "Simplex", "Simplex dims"}
HEAVY = {"L21 groups", "L21_plus_L1", "L10Ball", "QuadraticEnvelopeCardIndicator", "L2Convolve dims", "Intersection"}
for _n, _z in ZOO.items():
    for _w in ("prox", "proxdual"):
        ob(P, f"{_w} {_n}", bounds="input, parameters and step arbitrary; three calls", tol=max(_z.get("tol", 1e-6), 1e-6),
           tier="thorough" if (_z.get("slow") or _n in HEAVY) and _w == "proxdual" else "quick",
           lazy_abs=_n.startswith(("Sum", "Generic", "aliasing")))(
            lambda h, n=_n, w=_w: _zoo(h, n, w))


def _value(h, name):
    z = ZOO[name]
    f, arrs = z["make"](h)
    x = z["x"](h, "a")
    snap = h.snapshot(x, *arrs)
    v = f(x)
    h.unchanged(snap, "value: array")
    w = f(x)
    h.unchanged(snap, "value again: array")
    if isinstance(v, bool) or isinstance(w, bool):
        h.claim(bool(v) == bool(w), "same value")
    elif v is not None:
        h.eq(w, v, "same value")
    if getattr(f, "hasgrad", False):
        h.assume(h.Or(*[e != 0 for e in h.flat(x)]) if name == "Euclidean" else True)
        g = f.grad(x)
        k = keep(h, g)
        h.unchanged(snap, "gradient: array")
        y = other(h, x)
        f.grad(y)
        h.eq(keep(h, g), k, "earlier gradient is kept")
        h.eq(f.grad(x), k, "same gradient")
        h.unchanged(snap, "gradient again: array")


NOVALUE = {"chain", "adjoint"}
for _n, _z in ZOO.items():
    if _n in NOVALUE or _n.startswith("GenericIntersectionProx"):
        continue
    ob(P, f"value and gradient {_n}", bounds="input and parameters arbitrary", tol=max(_z.get("tol", 1e-6), 1e-6))(
        lambda h, n=_n: _value(h, n))


# ------------------------------------------------------------------ projections called directly
def _projs(h):
    p = h.mod.projection
    I = lambda v: v
    return {
        "BoxProj": (lambda lo, up: p.BoxProj(lo, up), [h.const([-1.0, 0.0]), h.const([1.0, 2.0])], 2),
        "HyperPlaneBoxProj": (lambda c: p.HyperPlaneBoxProj(c, h.num(1), 0, 1, xtol=1e-12), [h.const([1.0, 1.0])], 2),
        "SimplexProj": (lambda: p.SimplexProj(2, h.num(1), xtol=1e-12), [], 2),
        "L0BallProj": (lambda: p.L0BallProj(1), [], 2),
        "L1BallProj": (lambda: p.L1BallProj(2, h.num(1), xtol=1e-12), [], 2),
        "EuclideanBallProj": (lambda c: p.EuclideanBallProj(c, h.num(1)), [h.const([0.5, 0.0])], 2),
        "HalfSpaceProj": (lambda w: p.HalfSpaceProj(w, h.num(1)), [h.const([1.0, 2.0])], 2),
        "AffineSetProj": (lambda b: p.AffineSetProj(h.identity_op(2), b, niter=20), [h.const([1.0, 2.0])], 2),
        "GenericIntersectionProj": (lambda: p.GenericIntersectionProj([I, p.BoxProj(0, 1)], niter=2, tol=0), [], 2),
        "GenericIntersectionProj three": (lambda: p.GenericIntersectionProj([I, p.BoxProj(0, 1), I], niter=2, tol=0), [], 2),
    }


PROJ = ["BoxProj", "HyperPlaneBoxProj", "SimplexProj", "L0BallProj", "L1BallProj", "EuclideanBallProj", "HalfSpaceProj",
        "AffineSetProj", "GenericIntersectionProj", "GenericIntersectionProj three"]


def _proj(h, name):
    mk, arrs, n = _projs(h)[name]
    f = mk(*arrs)
    x = h.vec("x", n, lo=-2, hi=2)
    snap = h.snapshot(x, *arrs)
    r = f(x)
    k = keep(h, r)
    h.unchanged(snap, "projection: array")
    y = other(h, x)
    sy = h.snapshot(y)
    f(y)
    h.unchanged(sy, "input of the other call")
    h.eq(keep(h, r), k, "earlier result is kept")
    h.eq(f(x), k, "repeated call", tol=1e-6)
    h.unchanged(snap, "projection again: array")


for _n in PROJ:
    ob(P, "projection " + _n, bounds="n=2, all inputs in [-2,2]^2", tol=1e-5, lazy_abs=_n.startswith("Generic"))(lambda h, n=_n: _proj(h, n))


# ------------------------------------------------------------------ solvers
def _run(h, s, n, **kw):
    seen = []
    with contextlib.redirect_stdout(io.StringIO()):
        r = tup(s.call(niter=n, callback=lambda *a: seen.append([keep(h, v) for v in a]), **kw))
    return r, seen


def _same(h, a, b, what):
    h.claim(len(a) == len(b), what + ": length")
    for i, (u, v) in enumerate(zip(a, b)):
        h.eq(u, v, f"{what} [{i}]")


def _solver(h, name):
    d = SOLVERS[name]
    n = d["niter"]
    if name.startswith("Anderson"):
        d["make"](h).ref(n)
    s = d["make"](h)
    snap = h.snapshot(*s.arrays)
    r1, c1 = _run(h, s, n)
    k1 = [keep(h, v) for v in r1]
    h.unchanged(snap, "after a run: array")
    if "bilinear term" in name:
        return  # the user's bilinear object holds the current factors by design
    r2, c2 = _run(h, s, n)
    h.unchanged(snap, "after a second run: array")
    _same(h, r2, k1, "second run with the same objects")
    _same(h, [keep(h, v) for v in r1], k1, "result of the first run is kept")
    h.claim(len(c1) == len(c2), "same number of callbacks")
    for a, b in zip(c1, c2):
        _same(h, b, a, "callbacks of the second run")
    h.observe("x", r1[0])


# PALM-type solvers hand the user's bilinear object new factors (documented), so a second
# run with the same object is covered by C16's start obligations
for _n, _d in SOLVERS.items():
    if not _d["hist"]:
        continue
    ob(P, "solver " + _n, bounds=f"{_d['bounds']}; {_d['niter']} iterations, two runs; arbitrary functionals", tol=_d["tol"],
       validate=_d["validate"], tier="thorough" if _d["slow"] else "quick", max_time=90)(lambda h, n=_n: _solver(h, n))


def _identity(h, name, copies):
    """make the solver configuration with prox operators and gradients that return their
    input (copies: a copy of it)"""
    def ap(h_, nm, n=None, grad=False, boolean=False, alias=False):
        class Alias(h.mod.ProxOperator):
            def __init__(self):
                super().__init__(None, grad)

            def __call__(self, x):
                return h.uf(nm + ".f", [x])

            def prox(self, x, tau, **kw):
                return x.copy() if copies else x

            def proxdual(self, x, tau, **kw):
                return x.copy() if copies else x

        if grad:
            Alias.grad = lambda self, x: x.copy() if copies else x
        return Alias()

    old = _solvers.absprox
    _solvers.absprox = ap
    try:
        return SOLVERS[name]["make"](h)
    finally:
        _solvers.absprox = old


def _aliasing(h, name):
    """functionals that return their very input (zero functional: prox is the identity, and
    1/2||x||^2: gradient is the identity) give what copying ones give"""
    n = SOLVERS[name]["niter"]
    s0 = _identity(h, name, True)
    r0, c0 = _run(h, s0, n)
    k0 = [keep(h, v) for v in r0]
    s = _identity(h, name, False)
    snap = h.snapshot(*s.arrays)
    r, c = _run(h, s, n)
    h.unchanged(snap, "with aliasing functionals: array")
    _same(h, r, k0, "result with aliasing functionals")
    h.claim(len(c) == len(c0), "number of callbacks")
    for a, b in zip(c, c0):
        _same(h, a, b, "callbacks with aliasing functionals")
    h.observe("x", r[0])


for _n, _d in SOLVERS.items():
    if not _d["hist"]:
        continue
    if _n.startswith(("Anderson", "PALM", "iPALM", "TwIST")):
        continue
    ob(P, "aliasing functionals " + _n, bounds=f"{_d['bounds']}; {_d['niter']} iterations", tol=_d["tol"],
       validate=_d["validate"], tier="thorough" if _d["slow"] else "quick")(lambda h, n=_n: _aliasing(h, n))
