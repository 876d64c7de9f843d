"""C10: steps and parameters outside the documented range are rejected, all others accepted."""

import warnings

from symx.harness import ob

from ._common import absprox, ufx
from ._zoo import ZOO

P = "C10"


# ------------------------------------------------------------------ steps
def _nonlinear(h):
    class My(h.mod.Nonlinear):
        def fun(self, x):
            return h.uf("f", [x])

        def grad(self, x):
            return h.uf("g", [x], 2)

        def optimize(self):
            return h.uf("opt", [self.y, self.tau], 2)

    return My(h.const([0.0, 0.0]), niter=1)


M22 = lambda h: h.vec("x", (2, 2)).ravel()
EXTRA = {
    "ETP": (lambda h: h.mod.ETP(h.num(1), h.num(1)), lambda h: h.vec("x", 2)),
    "Geman": (lambda h: h.mod.Geman(h.num(1), h.num(1)), lambda h: h.vec("x", 2)),
    "Nuclear": (lambda h: h.mod.Nuclear((2, 2)), M22),
    "NuclearBall": (lambda h: h.mod.NuclearBall((2, 2), h.num(1)), M22),
    "SingularValuePenalty": (lambda h: h.mod.SingularValuePenalty((2, 2), h.mod.SCAD(h.num(1), h.num(3.7))), M22),
    "QuadraticEnvelopeRankL2": (lambda h: h.mod.QuadraticEnvelopeRankL2((2, 2), 1, h.const([[1.0, 0.0], [0.0, 1.0]])), M22),
    "TV": (lambda h: h.mod.TV((2, 2), niter=2), M22),
    "Nonlinear": (_nonlinear, lambda h: h.vec("x", 2)),
    "L1 schedule": (lambda h: h.mod.L1(sigma=lambda k: h.num(1)), lambda h: h.vec("x", 2)),
    "L0 schedule": (lambda h: h.mod.L0(sigma=lambda k: h.num(1)), lambda h: h.vec("x", 2)),
}


def _both(h, name):
    if name in ZOO:
        return ZOO[name]["make"](h)[0], ZOO[name]["x"](h, "")
    return EXTRA[name][0](h), EXTRA[name][1](h)


def _reject(h, name, what, keyword=False, element=None):
    f, x = _both(h, name)
    n = len(h.flat(x))
    if element is None:
        tau = h.real("tau", hi=0)
    else:
        tau = h.vec("tau", n)
        h.assume(tau[min(element, n - 1)] <= 0)
    snap = h.snapshot(x)
    fn = getattr(f, what)
    call = (lambda: fn(x, tau=tau)) if keyword else (lambda: fn(x, tau))
    h.claim(h.raises(ValueError, call), f"{what} rejects the step")
    h.unchanged(snap, "input")


for _n in list(ZOO) + list(EXTRA):
    for _w in ("prox", "proxdual"):
        ob(P, f"{_w} rejects {_n}", bounds="every step <= 0, every input")(lambda h, n=_n, w=_w: _reject(h, n, w))
        ob(P, f"{_w} rejects by keyword {_n}", bounds="every step <= 0, every input")(lambda h, n=_n, w=_w: _reject(h, n, w, True))
        for _e in (0, 1):
            ob(P, f"{_w} rejects array {_n} element {_e + 1}",
               bounds="arrays of steps as long as the input, any of whose elements is <= 0")(
                lambda h, n=_n, w=_w, e=_e: _reject(h, n, w, element=e))

NOACCEPT = {"Nuclear", "NuclearBall", "SingularValuePenalty", "QuadraticEnvelopeRankL2", "TV", "ETP", "Geman"}
HARD = {"Log", "Log1"}  # closed forms with logarithms of the step: one fixed input


def _accept(h, name, what):
    f, x = _both(h, name)
    n = len(h.flat(x))
    x = h.const([0.5, -0.25, 1.5, 0.75][:n]).reshape(x.shape)
    tau = h.real("tau", pos=True) if "Simplex" not in name and name not in ("L1Ball", "Intersection") else h.real("tau", lo=0.5, hi=2)
    fn = getattr(f, what)
    ok = True
    try:
        fn(x, tau)
        fn(x, tau=tau)
    except (ValueError, IndexError, TypeError):
        ok = False
    h.claim(ok, f"{what} accepts the step")


for _n in list(ZOO) + list(EXTRA):
    if _n in NOACCEPT or "three" in _n:
        continue
    for _w in ("prox", "proxdual"):
        ob(P, f"{_w} accepts {_n}", bounds="every step > 0 (iterative bisections: 0.5 <= step <= 2), one input",
           tier="thorough" if _n in ("L10Ball", "L2Convolve dims", "Intersection") or ZOO.get(_n, {}).get("slow") else "quick")(
            lambda h, n=_n, w=_w: _accept(h, n, w))


def _denoise(h):
    """the denoiser of a plug-and-play run is never called with a nonpositive step"""
    seen = []

    def den(x, t):
        seen.append(t)
        return ufx(h, "den", [x, t], x).reshape(x.shape)

    tau = h.real("tau")
    x0 = h.vec("x0", 2)

    class Id(h.mod.ProxOperator):
        def __init__(self):
            super().__init__(None, False)

        def __call__(self, x):
            return h.num(0)

        def prox(self, x, t):
            return x

    bad = h.raises(ValueError, lambda: h.mod.optimization.pnp.PlugAndPlay(Id(), den, (2, 1), x0, tau=tau, niter=1))
    if tau <= 0:
        h.claim(bad, "step rejected")
        h.claim(not seen, "denoiser not called")
    else:
        h.claim(not bad and len(seen) == 1, "step accepted")


ob(P, "plug-and-play denoiser", bounds="every step")(_denoise)


# ------------------------------------------------------------------ parameters of penalties
def _iff(h, name, make, bad, good):
    """make() raises ValueError when `bad`, never when `good` (both conditions of the inputs)"""
    raised = h.raises(ValueError, make)
    if raised:
        h.claim(h.Not(good), name + ": documented value rejected")
    else:
        h.claim(h.Not(bad), name + ": excluded value accepted")


def _scad(h):
    s, a = h.real("s"), h.real("a")
    _iff(h, "SCAD", lambda: h.mod.SCAD(s, a), h.Or(s <= 0, a <= 2), h.And(s > 0, a > 2))
    r = h.raises(ValueError, lambda: h.mod.SCAD(s))
    h.claim(r if s <= 0 else not r, "default second threshold")


def _log(h):
    s, g = h.real("s"), h.real("g")
    _iff(h, "Log", lambda: h.mod.Log(s, g), h.Or(s < 0, g < 0), h.And(s > 0, g > 0))


def _log1(h):
    s, g = h.real("s", pos=True), h.real("g")
    _iff(h, "Log1", lambda: h.mod.Log1(s, g), g < 0, g > 0)


def _etp(h):
    s, g = h.real("s"), h.real("g")
    _iff(h, "ETP", lambda: h.mod.ETP(s, g), h.Or(s < 0, g <= 0), h.And(s > 0, g > 0))


def _geman(h):
    s, g = h.real("s"), h.real("g")
    _iff(h, "Geman", lambda: h.mod.Geman(s, g), h.Or(s < 0, g <= 0), h.And(s > 0, g > 0))


for _n, _f in dict(SCAD=_scad, Log=_log, Log1=_log1, ETP=_etp, Geman=_geman).items():
    ob(P, "parameters " + _n, bounds="all real parameters (boundary values only where documented as strict)")(_f)


# ------------------------------------------------------------------ weights
def _weights(h, m, k):
    """k weights for m functionals: accepted exactly when k = m and they sum to one"""
    w = h.vec("w", k, nz=True)
    s = w[0]
    for e in list(h.flat(w))[1:]:
        s = s + e
    fs, gs = [absprox(h, "f", grad=True)], [absprox(h, f"g{i}") for i in range(m)]
    x0 = h.vec("x0", 1)
    call = lambda: h.mod.optimization.primal.GeneralizedProximalGradient(fs, gs, x0, tau=h.num(1), weights=w, niter=1)
    raised = h.raises(ValueError, call)
    if k != m:
        h.claim(raised, "wrong number of weights")
    elif raised:
        h.claim(h.Not(s == 1), "weights summing to one rejected")
    else:
        h.claim(h.And(s > 0.999, s < 1.001), "weights not summing to one accepted")


for _m, _k in ((1, 1), (2, 2), (3, 3), (2, 1), (2, 3), (3, 2)):
    ob(P, f"GeneralizedProximalGradient {_k} weights for {_m}", bounds="all weights (sums within 1e-3 of one may go either way)")(
        lambda h, m=_m, k=_k: _weights(h, m, k))


# ------------------------------------------------------------------ shapes and options
def _stack(h, kind):
    fs = [absprox(h, "f", grad=True), absprox(h, "g", grad=True)]
    if kind == "nn":
        f = h.mod.VStack(fs, nn=[1, 2])
    else:
        f = h.mod.VStack(fs, restr=[h.restriction(3, [2]), h.restriction(3, [1, 0])])
    t = h.real("t", pos=True)
    for n in (1, 2, 3, 4, 6):
        x = h.vec(f"x{n}_", n)
        for nm, call in (("value", lambda: f(x)), ("prox", lambda: f.prox(x, t)), ("proxdual", lambda: f.proxdual(x, t)),
                         ("gradient", lambda: f.grad(x))):
            h.claim(h.raises(ValueError, call) == (n != 3), f"{nm} of {n} elements")


for _k in ("nn", "restr"):
    ob(P, f"VStack {_k} input size", bounds="inputs of 1-6 elements for a stack of 3")(lambda h, k=_k: _stack(h, k))


def _options(h):
    m, pri, t = h.mod, h.mod.optimization.primal, h.num(1)
    f, g = absprox(h, "f", grad=True), absprox(h, "g")
    x0 = h.vec("x0", 2)
    M = h.linop(h.const([[1.0, 2.0]]))
    ops = {
        "VStack without sizes": (ValueError, lambda: m.VStack([f, g])),
        "Quadratic with a wide operator": (ValueError, lambda: m.Quadratic(Op=M, b=x0)),
        "Simplex with three dimensions": (ValueError, lambda: m.Simplex(8, 1.0, dims=(2, 2, 2))),
        "Simplex engine": (KeyError, lambda: m.Simplex(2, 1.0, engine="nump")),
        "L2 solver": (ValueError, lambda: m.L2(Op=h.linop(h.const([[1.0, 2.0]]), explicit=False), b=h.vec("b", 1), solver="cgl")),
        "empty Sum": ((ValueError, ZeroDivisionError), lambda: m.Sum([])),
        "empty intersection": (ValueError, lambda: m.projection.GenericIntersectionProj([])),
        "empty intersection functional": (ValueError, lambda: m.GenericIntersectionProx([])),
        "acceleration name": (NotImplementedError, lambda: pri.ProximalGradient(f, g, x0, tau=t, niter=1, acceleration="fist")),
        "acceleration name, general": (NotImplementedError, lambda: pri.GeneralizedProximalGradient([f], [g], x0, tau=t, niter=1, acceleration="nesterov")),
        "scaling by an int": (NotImplementedError, lambda: f.postcomposition(2)),
        "precomposition with an int": (NotImplementedError, lambda: f.precomposition(2, 1.0)),
        "precomposition with a list": (NotImplementedError, lambda: f.precomposition(2.0, [1.0, 2.0])),
        "addition of a list": (NotImplementedError, lambda: f.affine_addition([1.0, 2.0])),
        "value of the base class": (NotImplementedError, lambda: m.ProxOperator()(x0)),
    }
    for s in ("ADMM", "HQS"):
        ops[f"{s} without start"] = (ValueError, lambda s=s: getattr(pri, s)(f, g, tau=t, niter=1, x0=None, z0=None))
    for k, v in dict(both=(None, None), first=(None, x0)).items():
        ops[f"LinearizedADMM start {k}"] = (ValueError, lambda v=v: pri.LinearizedADMM(f, g, h.identity_op(2), x0=v[0], z0=v[1], tau=t, mu=t, niter=1))
        ops[f"ADMML2 start {k}"] = (ValueError, lambda v=v: pri.ADMML2(g, h.identity_op(2), x0, h.identity_op(2), x0=v[0], z0=v[1], tau=t, niter=1))
    for nm, (exc, call) in ops.items():
        h.claim(h.raises(exc, call), nm + " rejected")


ob(P, "options", bounds="one excluded value of every checked option")(_options)


def _accepted(h):
    m, pri, t = h.mod, h.mod.optimization.primal, h.num(1)
    f, g = absprox(h, "f", grad=True), absprox(h, "g")
    x0 = h.vec("x0", 2)
    ops = {
        "Simplex two dimensions": lambda: m.Simplex(4, 1.0, dims=(2, 2)),
        "Quadratic square": lambda: m.Quadratic(Op=h.linop(h.const([[1.0, 0.0], [0.0, 2.0]]))),
        "intersection": lambda: m.GenericIntersectionProx([lambda v: v]),
        "sum": lambda: m.Sum([f]),
    }
    for s in ("legacy", "cg", "cgls"):
        ops["L2 solver " + s] = lambda s=s: m.L2(Op=h.linop(h.const([[1.0, 2.0]]), explicit=False), b=h.vec("b", 1), solver=s)
    for a in (None, "None", "vandenberghe", "fista"):
        ops[f"acceleration {a}"] = lambda a=a: pri.ProximalGradient(f, g, x0, tau=t, niter=1, acceleration=a)
        ops[f"acceleration {a}, general"] = lambda a=a: pri.GeneralizedProximalGradient([f], [g], x0, tau=t, niter=1, acceleration=a)
    for s in ("ADMM", "HQS"):
        for k, v in dict(x0=(x0, None), z0=(None, x0), both=(x0, x0)).items():
            ops[f"{s} start {k}"] = lambda s=s, v=v: getattr(pri, s)(f, g, x0=v[0], z0=v[1], tau=t, niter=1)
    for nm, call in ops.items():
        ok = not h.raises((ValueError, NotImplementedError, KeyError), call)
        h.claim(ok, nm + " accepted")


ob(P, "documented options", bounds="every documented value of the checked options")(_accepted)


def _bilinear(h):
    X, Y = h.vec("X", (2, 1)), h.vec("Y", (1, 2))
    d = h.vec("d", 4)
    B = h.mod.utils.bilinear.LowRankFactorizedMatrix
    with_op = B(X.copy(), Y.copy(), d, Op=h.identity_op(4))
    plain = B(X.copy(), Y.copy(), d)
    for nm, arg in (("lx", X.ravel()), ("ly", Y.ravel())):
        h.claim(h.raises(ValueError, lambda: getattr(with_op, nm)(arg)), f"{nm} with an operator")
        h.claim(not h.raises(ValueError, lambda: getattr(plain, nm)(arg)), f"{nm} without an operator")


ob(P, "bilinear Lipschitz constants", bounds="2x2 factorised matrix")(_bilinear)


def _deprecated(h):
    """renamed classes still work and warn"""
    for mk, new in ((lambda: h.mod.L01Ball(2, 1), lambda: h.mod.L10Ball(2, 1)),):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            f = mk()
        h.claim(any(issubclass(v.category, (DeprecationWarning, FutureWarning)) for v in w), "warning")
        x = h.const([1.0, 0.5, -2.0, 0.25])
        h.eq(f.prox(x, h.num(1)), new().prox(x, h.num(1)), "same operator")


ob(P, "renamed classes", bounds="one input")(_deprecated)
