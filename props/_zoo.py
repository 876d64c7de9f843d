"""One configuration (or several) of every operator of the library, used by the properties
that quantify over all of them (Moreau decomposition, no mutation, step validation)."""


from ._common import tight


def _polar2(h, name):
    r = h.real(name + "r", nonneg=True)
    c, s = h.unit2(name + "d")
    return h.arr([r * c, r * s])


def v2(h, t):
    return h.vec("x" + t, 2)


def cx1(h, t):
    r = h.real("x" + t + "r", nonneg=True)
    c, s = h.unit2("x" + t + "d")
    return h.arr([r * c + complex(0, 1) * (r * s)])


ZOO = {}


def zoo(name, x=v2, **kw):
    def deco(fn):
        ZOO[name] = dict(make=fn, x=x, **kw)
        return fn

    return deco


def sig(h):
    return h.real("sig", pos=True)


@zoo("L1", convex=True)
def _(h):
    return h.mod.L1(sigma=sig(h)), []


@zoo("L1 g", convex=True)
def _(h):
    g = h.vec("g", 2)
    return h.mod.L1(sigma=sig(h), g=g), [g]


@zoo("L1 complex", x=cx1)
def _(h):
    return h.mod.L1(sigma=sig(h)), []


@zoo("L1 complex g", x=lambda h, t: h.vec("x" + t, 1, cplx=True))
def _(h):
    g = h.vec("g", 1, cplx=True)
    return h.mod.L1(sigma=sig(h), g=g), [g]


@zoo("L0")
def _(h):
    return h.mod.L0(sigma=sig(h)), []


@zoo("Euclidean", x=lambda h, t: _polar2(h, "x" + t), convex=True)
def _(h):
    return h.mod.Euclidean(sigma=sig(h)), []


@zoo("L21", x=lambda h, t: _polar2(h, "x" + t), convex=True)
def _(h):
    return h.mod.L21(2, sigma=sig(h)), []


@zoo("L21 groups", x=lambda h, t: h.vec("x" + t, 4), slow=True)
def _(h):
    return h.mod.L21(2, sigma=sig(h)), []


@zoo("L21_plus_L1", x=lambda h, t: h.vec("x" + t, (2, 1)), slow=True)
def _(h):
    return h.mod.L21_plus_L1(sigma=sig(h), rho=h.num(0.5)), []


@zoo("Huber", x=lambda h, t: h.vec("x" + t, 1), convex=True)
def _(h):
    return h.mod.Huber(h.real("al", pos=True)), []


@zoo("HuberCircular", x=lambda h, t: _polar2(h, "x" + t), convex=True)
def _(h):
    return h.mod.HuberCircular(h.real("al", pos=True)), []


@zoo("Quadratic", convex=True)
def _(h):
    b = h.vec("b", 2)
    M = h.arr([[h.real("a", nonneg=True), 0], [0, h.real("d", nonneg=True)]])
    return h.mod.Quadratic(Op=h.linop(M), b=b, c=h.real("c")), [b]


@zoo("Quadratic iterative", tol=2e-4)
def _(h):
    b = h.vec("b", 2)
    M = h.arr([[h.real("a", nonneg=True), 0], [0, h.real("d", nonneg=True)]])
    x0 = h.vec("x0", 2)
    return h.mod.Quadratic(Op=h.linop(M, explicit=False), b=b, x0=x0, niter=200), [b, x0]


@zoo("Quadratic linear")
def _(h):
    b = h.vec("b", 2)
    return h.mod.Quadratic(b=b, c=h.real("c")), [b]


@zoo("Quadratic constant")
def _(h):
    return h.mod.Quadratic(c=h.real("c")), []


@zoo("L2", convex=True)
def _(h):
    return h.mod.L2(sigma=sig(h)), []


@zoo("L2 b q", convex=True)
def _(h):
    b, q = h.vec("b", 2), h.vec("q", 2)
    return h.mod.L2(b=b, q=q, sigma=sig(h), alpha=h.real("al")), [b, q]


@zoo("L2 q")
def _(h):
    q = h.vec("q", 2)
    return h.mod.L2(q=q, sigma=sig(h), alpha=h.real("al")), [q]


def _l2op(h, explicit, q=True, alias=False, **kw):
    b = h.vec("b", 2 if alias else 1)
    qv = h.vec("q", 2) if q else None
    x0 = h.vec("x0", 2)
    if alias:
        Op, M = h.identity_op(2), None
    else:
        M = h.vec("M", (1, 2))
        Op = h.linop(M, explicit=explicit)
    f = h.mod.L2(Op=Op, b=b, q=qv, sigma=h.num(1), alpha=h.real("al"), niter=200, x0=x0, **kw, **tight(dict(kw, explicit=explicit)))
    return f, [b, x0] + ([qv] if q else [])


for _n, _k in {
    "L2 explicit": dict(explicit=True),
    "L2 explicit numpy": dict(explicit=True, densesolver="numpy"),
    "L2 factorize": dict(explicit=True, densesolver="factorize"),
    "L2 explicit cgls": dict(explicit=True, solver="cgls"),
    "L2 legacy": dict(explicit=False),
    "L2 legacy identity": dict(explicit=False, alias=True),
    "L2 cg": dict(explicit=False, solver="cg", warm=False),
    "L2 cgls": dict(explicit=False, solver="cgls"),
    "L2 cgls identity": dict(explicit=False, solver="cgls", alias=True, warm=False),
}.items():
    zoo(_n, tol=1e-6 if _k["explicit"] else 2e-4)(lambda h, k=_k: _l2op(h, **k))


@zoo("L2Convolve", x=lambda h, t: h.vec("x" + t, 2), tol=1e-5)
def _(h):
    hh, b = h.vec("h", 2, pos=True), h.vec("b", 2)
    h.assume(hh[0] > hh[1])
    return h.mod.L2Convolve(hh, b, nfft=2, sigma=h.num(1)), [hh, b]


@zoo("L2Convolve dims", x=lambda h, t: h.vec("x" + t, 4), tol=1e-5)
def _(h):
    hh, b = h.vec("h", 2, pos=True), h.vec("b", (2, 2))
    h.assume(hh[0] > hh[1])
    return h.mod.L2Convolve(hh, b, nfft=2, sigma=h.num(1), dims=(2, 2), dir=0), [hh, b]


@zoo("Box", convex=True)
def _(h):
    lo, up = h.vec("lo", 2), h.vec("up", 2)
    h.assume(h.And(lo[0] <= up[0], lo[1] <= up[1]))
    return h.mod.Box(lo, up), [lo, up]


@zoo("HalfSpace")
def _(h):
    w = h.vec("w", 2)
    h.assume(h.sqsum(w) > 0)
    return h.mod.HalfSpace(w, h.real("b")), [w]


@zoo("EuclideanBall", x=lambda h, t: h.vec("x" + t, 2))
def _(h):
    c = h.vec("c", 2)
    return h.mod.EuclideanBall(c, h.real("r", pos=True)), [c]


@zoo("AffineSet", tol=2e-4)
def _(h):
    b = h.vec("b", 1)
    return h.mod.AffineSet(h.linop(h.const([[1.0, 2.0]])), b, niter=200), [b]


@zoo("AffineSet identity", tol=2e-4)
def _(h):
    b = h.vec("b", 2)
    return h.mod.AffineSet(h.identity_op(2), b, niter=200), [b]


@zoo("L0Ball", x=lambda h, t: h.vec("x" + t, 3))
def _(h):
    return h.mod.L0Ball(1), []


@zoo("L10Ball", x=lambda h, t: h.vec("x" + t, 4), slow=True)
def _(h):
    return h.mod.L10Ball(2, 1), []


@zoo("L1Ball", x=lambda h, t: h.vec("x" + t, 2, lo=0, hi=2), tol=1e-5)
def _(h):
    return h.mod.L1Ball(2, h.real("r", lo=0.1, hi=2), xtol=1e-12), []


@zoo("Simplex", x=lambda h, t: h.vec("x" + t, 2, lo=-2, hi=2), tol=1e-5)
def _(h):
    return h.mod.Simplex(2, h.real("r", lo=0.1, hi=2), xtol=1e-12), []


@zoo("Simplex dims", x=lambda h, t: h.vec("x" + t, 2, lo=-2, hi=2), tol=1e-5)
def _(h):
    return h.mod.Simplex(2, h.real("r", lo=0.1, hi=2), dims=(2, 1), axis=0, xtol=1e-12), []


@zoo("Intersection", x=lambda h, t: h.vec("x" + t, 2, lo=-3, hi=3), tol=1e-5)
def _(h):
    S = h.arr([[h.num(0), h.num(1)], [h.num(1), h.num(0)]])
    return h.mod.Intersection(2, 1, S, niter=3), [S]


@zoo("GenericIntersectionProx two", tol=1e-5)
def _(h):
    ps = [lambda x: h.np.maximum(x, 0), lambda x: x]
    return h.mod.GenericIntersectionProx(ps, niter=2, tol=0), []


@zoo("GenericIntersectionProx three", tol=1e-5)
def _(h):
    ps = [lambda x: h.np.maximum(x, 0), lambda x: x, lambda x: x]
    return h.mod.GenericIntersectionProx(ps, niter=2, tol=0), []


@zoo("GenericIntersectionProx one")
def _(h):
    return h.mod.GenericIntersectionProx([lambda x: h.np.maximum(x, 0)]), []


@zoo("Hankel", x=lambda h, t: h.vec("x" + t, 4))
def _(h):
    return h.mod.Hankel((2, 2)), []


@zoo("SCAD", x=lambda h, t: h.vec("x" + t, 1))
def _(h):
    return h.mod.SCAD(sig(h), h.num(3.7)), []


@zoo("Log", x=lambda h, t: h.vec("x" + t, 1), slow=True)
def _(h):
    return h.mod.Log(h.num(1), h.num(2)), []


@zoo("Log1", x=lambda h, t: h.vec("x" + t, 1), slow=True)
def _(h):
    return h.mod.Log1(h.num(1), h.num(0.5)), []


@zoo("RelaxedMumfordShah", x=lambda h, t: h.vec("x" + t, 1))
def _(h):
    return h.mod.RelaxedMumfordShah(h.num(1), h.num(2)), []


@zoo("QuadraticEnvelopeCard", x=lambda h, t: h.vec("x" + t, 1))
def _(h):
    return h.mod.QuadraticEnvelopeCard(h.num(0.5)), []


@zoo("QuadraticEnvelopeCardIndicator", slow=True)
def _(h):
    return h.mod.QuadraticEnvelopeCardIndicator(1), []


@zoo("Orthogonal identity")
def _(h):
    from ._common import absprox

    b = h.vec("b", 2)
    return h.mod.Orthogonal(absprox(h, "f"), h.identity_op(2), b=b), [b]


@zoo("Orthogonal partial")
def _(h):
    from ._common import absprox

    b = h.vec("b", 1)
    return h.mod.Orthogonal(absprox(h, "f"), h.linop(h.const([[3.0, 4.0]])), partial=True, b=b, alpha=25.0), [b]


@zoo("VStack nn", x=lambda h, t: h.vec("x" + t, 3))
def _(h):
    from ._common import absprox

    return h.mod.VStack([absprox(h, "f", grad=True), absprox(h, "g", grad=True)], nn=[1, 2]), []


@zoo("VStack restr", x=lambda h, t: h.vec("x" + t, 3))
def _(h):
    from ._common import absprox

    return h.mod.VStack([absprox(h, "f", grad=True), absprox(h, "g", grad=True)],
                        restr=[h.restriction(3, [2]), h.restriction(3, [1, 0])]), []


@zoo("Sum two", x=lambda h, t: h.vec("x" + t, 1))
def _(h):
    from ._common import absprox

    return h.mod.Sum([absprox(h, "f"), absprox(h, "g")], niter=2, tol=0), []


@zoo("Sum three", x=lambda h, t: h.vec("x" + t, 1))
def _(h):
    from ._common import absprox

    w = h.arr([h.num(0.25), h.num(0.25), h.num(0.5)])
    return h.mod.Sum([absprox(h, "f"), absprox(h, "g"), absprox(h, "k")], weights=w, niter=2, tol=0), [w]


@zoo("Sum one")
def _(h):
    from ._common import absprox

    return h.mod.Sum([absprox(h, "f")]), []


@zoo("affine addition")
def _(h):
    from ._common import absprox

    v = h.vec("v", 2)
    return absprox(h, "f", grad=True) + v, [v]


@zoo("postcomposition")
def _(h):
    from ._common import absprox

    return 2.0 * absprox(h, "f", grad=True), []


@zoo("precomposition")
def _(h):
    from ._common import absprox

    b = h.vec("b", 2)
    return absprox(h, "f", grad=True).precomposition(2.0, b), [b]


@zoo("chain")
def _(h):
    from ._common import absprox

    return absprox(h, "f") * absprox(h, "g"), []


@zoo("adjoint")
def _(h):
    from ._common import absprox

    return absprox(h, "f").H, []


# identity-like members whose prox returns its very input
@zoo("aliasing affine addition")
def _(h):
    from ._common import absprox

    v = h.vec("v", 2)
    return absprox(h, "f", alias=True) + v, [v]


@zoo("aliasing Sum three", x=lambda h, t: h.vec("x" + t, 1))
def _(h):
    from ._common import absprox

    w = h.arr([h.num(1), h.num(1), h.num(2)])
    return h.mod.Sum([absprox(h, k, alias=True) for k in "fgk"], weights=w, niter=2, tol=0), [w]


@zoo("aliasing Sum two", x=lambda h, t: h.vec("x" + t, 1))
def _(h):
    from ._common import absprox

    return h.mod.Sum([absprox(h, k, alias=True) for k in "fg"], niter=2, tol=0), []


@zoo("aliasing VStack")
def _(h):
    from ._common import absprox

    return h.mod.VStack([absprox(h, k, alias=True) for k in "fg"], nn=[1, 1]), []


@zoo("aliasing Orthogonal")
def _(h):
    from ._common import absprox

    b = h.vec("b", 2)
    return h.mod.Orthogonal(absprox(h, "f", alias=True), h.identity_op(2), b=b), [b]
