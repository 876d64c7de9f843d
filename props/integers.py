"""Integer-typed input arrays: the value, proximal point, dual proximal point and gradient are
those of the same array of floating-point numbers (C01-C07, C11, C21: 'the unique minimiser'
and so on do not depend on the number type the point is stored in; results are not rounded to
integers, in particular)."""

from symx.harness import ob

from ._zoo import ZOO

CONVEX = ("L1", "Euclidean", "L21", "Huber", "Quadratic", "L2", "HuberCircular", "L21_plus_L1")
NONCONVEX = ("L0", "SCAD", "Log", "Log1", "RelaxedMumfordShah", "QuadraticEnvelopeCard",
             "QuadraticEnvelopeCardIndicator")
SETS = ("Box", "HalfSpace", "EuclideanBall", "AffineSet", "L0Ball", "L10Ball", "L1Ball", "Simplex", "Intersection",
        "GenericIntersectionProx", "Hankel")
CALC = ("Orthogonal", "VStack", "affine", "postcomposition", "precomposition", "chain", "adjoint")


def _prop(name):
    w = name.split()[0]
    return ("C01" if w in CONVEX or w.startswith("L2Conv") else "C02" if w in NONCONVEX else "C03" if w in SETS
            else "C06" if w in CALC else None)


def _same(h, f, x, xi, tol, tau, dual, hasvalue=True):
    if hasvalue:
        v, w = f(x), f(xi)
        if isinstance(v, bool) or isinstance(w, bool):
            h.claim(bool(v) == bool(w), "value for integers")
        elif v is not None:
            h.eq(w, v, "value for integers", tol=tol)
    h.eq(f.prox(xi, tau), f.prox(x, tau), "proximal point for integers", tol=tol)
    if dual:
        h.eq(f.proxdual(xi, tau), f.proxdual(x, tau), "dual proximal point for integers", tol=tol)
    if getattr(f, "hasgrad", False):
        h.eq(f.grad(xi), f.grad(x), "gradient for integers", tol=tol)


VALUES = [(2, -3, 1, 0), (-1, 1, 4, -2)]


def _ints(h, name, vals):
    z = ZOO[name]
    f, _ = z["make"](h)
    x0 = z["x"](h, "a")
    n = len(h.flat(x0))
    xi = h.ints(list(vals[:n])).reshape(x0.shape)
    x = h.const([float(v) for v in vals[:n]]).reshape(x0.shape)
    tau = h.real("tau", lo=0.1, hi=5) if name != "Simplex" else h.num(1)
    _same(h, f, x, xi, z.get("tol", 0), tau, False, not name.startswith(("chain", "adjoint", "GenericIntersectionProx")))


for _n, _z in ZOO.items():
    _p = _prop(_n)
    if _p is None or "complex" in _n:
        continue
    for _i, _v in enumerate(VALUES):
        ob(_p, f"integer input {_i} {_n}", bounds="two fixed integer points; parameters arbitrary, step in [.1, 5]",
           tol=max(_z.get("tol", 1e-6), 1e-6), tier="quick" if _i == 0 else "thorough")(
            lambda h, n=_n, v=_v: _ints(h, n, v))


for _c in ("ETP", "Geman", "Huber", "SCAD", "QuadraticEnvelopeCard"):
    @ob("C02" if _c != "Huber" else "C01", f"integer input value and gradient {_c}", tol=1e-6,
        bounds="three fixed integers, fixed parameters, any step in [.1, 2] for the rational proximal operators")
    def _(h, c=_c):
        p = h.mod
        f = {"ETP": lambda: p.ETP(0.7, 0.9), "Geman": lambda: p.Geman(0.7, 0.9), "Huber": lambda: p.Huber(h.num(1.5)),
             "SCAD": lambda: p.SCAD(h.num(0.75), h.num(2.5)), "QuadraticEnvelopeCard": lambda: p.QuadraticEnvelopeCard(h.num(0.5))}[c]()
        xi, x = h.ints([2, -3, 1]), h.const([2.0, -3.0, 1.0])
        h.eq(f(xi), f(x), "value for integers")
        if c in ("ETP", "Geman"):
            h.eq(f.elementwise(xi), f.elementwise(x), "value of each component")
            return
        t = h.real("t", lo=0.1, hi=2)
        h.assume(t != 1.5)
        h.eq(f.prox(xi, t), f.prox(x, t), "proximal point for integers")
        h.eq(f.grad(xi), f.grad(x), "gradient for integers")


@ob("C06", "integer input stacked gradient", bounds="three fixed integers, any data")
def _(h):
    b = h.vec("b", 2)
    f = h.mod.VStack([h.mod.L2(b=b), h.mod.L2(sigma=h.real("sig", pos=True))],
                     restr=[h.restriction(3, [0, 2]), h.restriction(3, [1])])
    h.eq(f.grad(h.ints([2, -3, 1])), f.grad(h.const([2.0, -3.0, 1.0])), "gradient for integers")


def _proj(h, kind):
    P = h.mod.projection
    xi, x = h.ints([3, -4, 1, 0]), h.const([3.0, -4.0, 1.0, 0.0])
    r = h.real("r", lo=0.25, hi=3)
    if kind == "IntersectionProj":
        f = P.IntersectionProj(2, 2, r, niter=1)
    elif kind == "EuclideanBallProj":
        f = P.EuclideanBallProj(h.arr([r] * 4), r)
    elif kind == "BoxProj":
        f = P.BoxProj(-r, r)
    elif kind == "HalfSpaceProj":
        f = P.HalfSpaceProj(h.arr([r, h.num(1), h.num(2), h.num(0)]), r - 2)
    elif kind == "GenericIntersectionProj":
        f = P.GenericIntersectionProj([lambda v: v * r, lambda v: v - r], niter=2, tol=0.0)
    elif kind == "GenericIntersectionProj three":
        f = P.GenericIntersectionProj([lambda v: v * r, lambda v: v - r, lambda v: v / 2], niter=2, tol=0.0)
    elif kind == "HankelProj":
        f = lambda v: P.HankelProj()(v.reshape(2, 2))
    h.eq(f(xi), f(x), "projection of integers", tol=1e-9)


for _k in ("IntersectionProj", "EuclideanBallProj", "BoxProj", "HalfSpaceProj", "GenericIntersectionProj",
           "GenericIntersectionProj three", "HankelProj"):
    ob("C18" if _k.startswith("Generic") else "C03", f"integer input {_k}", bounds="four fixed integers, one parameter in [.25, 3]", tol=1e-6)(
        lambda h, k=_k: _proj(h, k))


def _tv(h, dims):
    n = 1
    for d in dims or (3,):
        n *= d
    v = [2, -3, 1, 0, 4, -1][:n]
    xi, x = h.ints(v), h.const([float(e) for e in v])
    f = h.mod.TV(dims, sigma=h.real("sig", lo=0.1, hi=3), niter=1 if len(dims) == 1 else 0, rtol=0.0)
    t = h.real("tau", lo=0.1, hi=3)
    h.eq(f(xi), f(x), "value for integers")
    h.eq(f.prox(xi, t), f.prox(x, t), "proximal point for integers", tol=1e-6)


for _d in ((3,), (2, 2)):
    ob("C21", f"integer signals {_d}", bounds="one fixed integer signal, one or two iterations; weight and step in [.1, 3]", tol=1e-5)(
        lambda h, d=_d: _tv(h, d))
