"""C07 gradients are derivatives of the values, C22 diagnostic utilities."""

from symx.harness import ob

from ._common import F_, G_, P_, absprox, iscx, rdot, total
from ._zoo import _polar2

G, U = "C07", "C22"
J = complex(0, 1)


def _dirder2(h, f, x, d):
    """derivative along d of a polynomial of degree <= 2 (exact central difference)"""
    return (f(x + d) - f(x - d)) / 2


def _dirder4(h, f, x, d):
    """derivative along d of a polynomial of degree <= 4 (exact five point stencil)"""
    return (8 * (f(x + d) - f(x - d)) - (f(x + 2 * d) - f(x - 2 * d))) / 12


def _check(h, f, x, d, order=2, label="gradient"):
    g = f.grad(x.copy())
    h.observe("g", g)
    gf = h.flat(g)
    if len(gf) != len(h.flat(x)):
        h.claim(False, label + ": wrong size")
        return
    dd = _dirder2(h, f, x, d) if order == 2 else _dirder4(h, f, x, d)
    h.eq(rdot(gf, h.flat(d)), dd, label)


# ---------------------------------------------------------------- L2
def _l2(h, op, b, q, cplx, explicit=True, m=2, n=2):
    kw = {}
    sig, al = h.real("sig", pos=True), h.real("al")
    if op == "matrix":
        M = h.vec("M", (m, n), cplx=cplx)
        kw["Op"] = h.linop(M, explicit=explicit)
    elif op == "identity":
        kw["Op"] = h.identity_op(n)
        m = n
    else:
        m = n
    if b:
        kw["b"] = h.vec("b", m, cplx=cplx)
    if q:
        kw["q"] = h.vec("q", n)
        kw["alpha"] = al
    f = h.mod.L2(sigma=sig, **kw)
    x, d = h.vec("x", n, cplx=cplx), h.vec("d", n, cplx=cplx)
    h.claim(f.hasgrad, "gradient offered")
    _check(h, f, x, d)


for _nm, _a in {
    "L2": dict(op=None, b=False, q=False, cplx=False),
    "L2 q": dict(op=None, b=False, q=True, cplx=False),
    "L2 b": dict(op=None, b=True, q=False, cplx=False),
    "L2 b q": dict(op=None, b=True, q=True, cplx=False),
    "L2 b complex": dict(op=None, b=True, q=False, cplx=True),
    "L2 Op 2x2 q": dict(op="matrix", b=True, q=True, cplx=False),
    "L2 Op 1x2 implicit": dict(op="matrix", b=True, q=False, cplx=False, explicit=False, m=1),
    "L2 Op 2x1 complex": dict(op="matrix", b=True, q=False, cplx=True, n=1),
    "L2 Op 1x2 complex": dict(op="matrix", b=True, q=False, cplx=True, m=1),
    "L2 Op identity q": dict(op="identity", b=True, q=True, cplx=False),
}.items():
    ob(G, _nm, bounds="sizes as named; all x, directions, operators, data, parameters")(lambda h, a=_a: _l2(h, **a))


@ob(G, "L2 without q in the gradient", bounds="n=2, qgrad=False: gradient of the quadratic part only, value keeps q")
def _(h):
    q, b, x, d = (h.vec(k, 2) for k in "qbxd")
    sig, al = h.real("sig", pos=True), h.real("al")
    f = h.mod.L2(b=b, q=q, sigma=sig, alpha=al, qgrad=False)
    ref = h.mod.L2(b=b, sigma=sig)
    h.eq(f.grad(x.copy()), ref.grad(x.copy()), "gradient")
    h.eq(f(x), ref(x) + al * h.dot(q, x), "value")


@ob(G, "L2 gradient after prox calls", bounds="1x2 operator; the gradient does not depend on the history")
def _(h):
    M, b, x, d = h.vec("M", (1, 2)), h.vec("b", 1), h.vec("x", 2), h.vec("d", 2)
    f = h.mod.L2(Op=h.linop(M), b=b, sigma=h.real("sig", pos=True))
    g0 = f.grad(x.copy())
    f.prox(d.copy(), h.real("tau", pos=True))
    h.eq(f.grad(x.copy()), g0, "history")
    _check(h, f, x, d)


# ---------------------------------------------------------------- Quadratic
@ob(G, "Quadratic", bounds="n=2 symmetric operator (explicit and implicit), with and without b, c")
def _(h):
    a, b_, c_ = h.real("a"), h.real("bb"), h.real("cc")
    M = h.arr([[a, b_], [b_, c_]])
    b, c = h.vec("b", 2), h.real("c")
    x, d = h.vec("x", 2), h.vec("d", 2)
    for ex in (True, False):
        _check(h, h.mod.Quadratic(Op=h.linop(M, explicit=ex), b=b, c=c), x, d, label=f"gradient explicit={ex}")
    h.claim(h.mod.Quadratic(Op=h.linop(M), b=b, c=c).hasgrad, "gradient offered")
    _check(h, h.mod.Quadratic(Op=h.linop(M)), x, d, label="gradient without b")
    _check(h, h.mod.Quadratic(b=b, c=c), x, d, label="gradient linear")


@ob(G, "Quadratic constant", bounds="n=2, neither operator nor b: zero gradient")
def _(h):
    g = h.mod.Quadratic(c=h.real("c")).grad(h.vec("x", 2))
    h.eq(list(h.flat(g)) * (2 if len(h.flat(g)) == 1 else 1), [0, 0], "zero")


# ---------------------------------------------------------------- convolution
def _conv(h, dims):
    """value and gradient of the convolution misfit for any signal, filter and data (nfft >= n)"""
    hh = h.vec("h", 2)
    sig = h.real("sig", pos=True)
    if dims is None:
        f = h.mod.L2Convolve(hh, h.vec("b", 4), nfft=4, sigma=sig)
        n = 4
    else:
        n = 4
        f = h.mod.L2Convolve(hh, h.vec("b", (2, 2)), nfft=2, sigma=sig, dims=(2, 2), dir=dims)
    x, d = h.vec("x", n), h.vec("d", n)
    h.claim(f.hasgrad, "gradient offered")
    g = f.grad(x.copy())
    h.eq([v.imag if iscx(v) else 0 for v in h.flat(g)], [0] * n, "real")
    gr = [v.real if iscx(v) else v for v in h.flat(g)]
    h.observe("g", gr)
    h.eq(rdot(gr, h.flat(d)), _dirder2(h, f, x, d), "gradient")


for _d in (None, 0, 1):
    ob(G, f"L2Convolve dims={_d}", bounds="4 samples or 2x2 grid along either axis, filter length 2", tol=1e-5)(lambda h, d=_d: _conv(h, d))


@ob(G, "L2Convolve kernel per line", bounds="2x2 grid with one 2-sample kernel per line along either axis: all x, kernels, data", tol=1e-5)
def _(h):
    K, b, sig = h.vec("h", (2, 2)), h.vec("b", (2, 2)), h.real("sig", pos=True)
    x, d = h.vec("x", 4), h.vec("d", 4)
    for ax in (0, 1):
        f = h.mod.L2Convolve(K.copy(), b.copy(), nfft=2, sigma=sig, dims=(2, 2), dir=ax)
        g = [v.real if iscx(v) else v for v in h.flat(f.grad(x.copy()))]
        h.eq(rdot(g, h.flat(d)), _dirder2(h, f, x, d), f"gradient dir={ax}")


@ob(G, "L2Convolve short signal", bounds="2 samples, nfft=4 (zero padded): all x, h, b", tol=1e-5)
def _(h):
    hh, b, sig = h.vec("h", 2), h.vec("b", 2), h.real("sig", pos=True)
    f = h.mod.L2Convolve(hh, b, nfft=4, sigma=sig)
    x, d = h.vec("x", 2), h.vec("d", 2)
    g = [v.real if iscx(v) else v for v in h.flat(f.grad(x.copy()))]
    h.eq(rdot(g, h.flat(d)), _dirder2(h, f, x, d), "gradient")


# ---------------------------------------------------------------- Euclidean norm
@ob(G, "Euclidean", bounds="n=2; all x != 0, test points, sigma: supporting hyperplane of a differentiable point")
def _(h):
    sig = h.real("sig", pos=True)
    r = h.real("r", pos=True)
    c, s = h.unit2("u")
    x, z = h.arr([r * c, r * s]), h.vec("z", 2)
    f = h.mod.Euclidean(sigma=sig)
    g = f.grad(x.copy())
    h.observe("g", g)
    h.le(f(x) + rdot(h.flat(g), [a - b for a, b in zip(z, x)]), sig * h.normvar(z, "nz"), "gradient")
    h.claim(f.hasgrad, "gradient offered")


# ---------------------------------------------------------------- compositions of concrete functionals
@ob(G, "composed quadratics", bounds="n=2: s*(L2+v), precomposition, VStack of them; all parameters")
def _(h):
    b, v, x, d = (h.vec(k, 2) for k in "bvxd")
    s, a, c = h.real("s", pos=True), h.real("a", nz=True), h.real("c")
    f = h.mod.L2(b=b)
    for nm, g in {"sum": f + v, "scaled": s * f, "both": s * (f + v), "shifted": (f + v).precomposition(a, c),
                  "array shift": f.precomposition(a, v), "difference": f - v}.items():
        _check(h, g, x, d, label=nm)
    g = h.mod.VStack([s * h.mod.L2(), h.mod.L2(b=b[:1])], nn=[1, 1])
    _check(h, g, x, d, label="stack")
    g = h.mod.VStack([s * h.mod.L2(), h.mod.L2(b=b[:1])], restr=[h.restriction(2, [1]), h.restriction(2, [0])])
    _check(h, g, x, d, label="stack by index")


# ---------------------------------------------------------------- default gradient
@ob(G, "default gradient is that of the Moreau envelope", bounds="n=2; uninterpreted prox; all x, envelope parameter")
def _(h):
    f = absprox(h, "f")
    x = h.vec("x", 2)
    h.eq(f.grad(x.copy()), [a - b for a, b in zip(x, P_(h, "f", x, 1.0))], "unit parameter")
    s = h.real("s", pos=True)

    class E(h.mod.ProxOperator):
        def __init__(self):
            super().__init__(None, False, sigmame=s)

        def prox(self, x, tau):
            return h.uf("f.prox", [x, tau], 2)

    h.eq(E().grad(x.copy()), [(a - b) / s for a, b in zip(x, P_(h, "f", x, s))], "given parameter")


@ob(G, "default gradient of the l1 norm", bounds="n=1; derivative of the Huber function")
def _(h):
    x, sig = h.real("x"), h.real("sig", pos=True)
    g = h.mod.L1(sigma=sig).grad(h.arr([x]))[0]
    want = x if abs(x) <= sig else (sig if x > 0 else -sig)
    h.eq(g, want, "gradient")


# ---------------------------------------------------------------- low rank factorisation
def _lr(h, n, k, m, op, cplx=False, explicit=True):
    X, Y = h.vec("X", (n, k), cplx=cplx), h.vec("Y", (k, m), cplx=cplx)
    Op = None
    p = n * m
    if op == "row":
        Op = h.linop(h.vec("A", (1, n * m), cplx=cplx), explicit=explicit)
        p = 1
    elif op == "identity":
        Op = h.identity_op(n * m)
    d = h.vec("d", p, cplx=cplx)
    X2, Y2 = h.vec("U", (n, k), cplx=cplx), h.vec("V", (k, m), cplx=cplx)
    H = h.sub("utils.bilinear").LowRankFactorizedMatrix(X2.copy(), Y2.copy(), d, Op) if Op is not None else \
        h.sub("utils.bilinear").LowRankFactorizedMatrix(X2.copy(), Y2.copy(), d)
    x, y = X.ravel(), Y.ravel()
    # value against its definition
    prod = [total(X[i, t] * Y[t, j] for t in range(k)) for i in range(n) for j in range(m)]
    if op == "row":
        A = h.vec("A", (1, n * m), cplx=cplx)
        prod = [total(A[0, t] * prod[t] for t in range(n * m))]
    val = h.sqsum([a - b for a, b in zip(d, prod)]) / 2
    h.eq(H(x.copy(), y.copy()), val, "value")
    h.eq(H(h.arr(list(x) + list(y))), val, "value of the stacked vector")
    h.eq(H.x.ravel(), X2.ravel(), "value keeps the stored x")
    h.eq(H.y.ravel(), Y2.ravel(), "value keeps the stored y")
    # partial gradients use the stored other block
    dx, dy = h.vec("dx", n * k, cplx=cplx), h.vec("dy", k * m, cplx=cplx)
    gx = H.gradx(x.copy())
    h.observe("gx", gx)
    h.eq(rdot(h.flat(gx), h.flat(dx)), _dirder2(h, lambda t: H(t, Y2.ravel()), x, dx), "gradx")
    gy = H.grady(y.copy())
    h.eq(rdot(h.flat(gy), h.flat(dy)), _dirder2(h, lambda t: H(X2.ravel(), t), y, dy), "grady")
    # after updating both blocks the stacked gradient is that of the joint value
    xy = h.arr(list(x) + list(y))
    H.updatexy(xy)
    g = H.grad(xy)
    dd = h.arr(list(dx) + list(dy))
    h.eq(rdot(h.flat(g), h.flat(dd)), _dirder4(h, H, xy, dd), "grad of the stacked vector")


for _nm, _a in {
    "2x1 1x1": dict(n=2, k=1, m=1, op=None),
    "1x2 2x1": dict(n=1, k=2, m=1, op=None),
    "1x1 1x2": dict(n=1, k=1, m=2, op=None),
    "2x1 1x1 row operator": dict(n=2, k=1, m=1, op="row"),
    "1x1 1x2 implicit row operator": dict(n=1, k=1, m=2, op="row", explicit=False),
    "1x1 1x2 identity operator": dict(n=1, k=1, m=2, op="identity"),
    "1x1 1x1 complex": dict(n=1, k=1, m=1, op=None, cplx=True),
    "1x1 1x1 complex operator": dict(n=1, k=1, m=1, op="row", cplx=True),
}.items():
    ob(G, f"low rank {_nm}", bounds="sizes as named; all factors, stored factors, data, operators, directions")(lambda h, a=_a: _lr(h, **a))
ob(G, "low rank 2x2 2x2", tier="thorough", bounds="n=k=m=2", max_time=120)(lambda h: _lr(h, 2, 2, 2, None))
ob(G, "low rank 2x1 1x2 complex", tier="thorough", bounds="n=m=2,k=1 complex", max_time=120)(lambda h: _lr(h, 2, 1, 2, None, cplx=True))


# ================================================================ C22
def _quadop(h, n, cplx, offs, base=None):
    """F(x) = sum w_i |x_i|^2 / 2 + Re<b, x> with gradient w x + b + offset"""
    w, b = h.vec("w", n), h.vec("b", n, cplx=cplx)
    Base = h.mod.ProxOperator

    class Q(Base):
        def __init__(self):
            super().__init__(None, True)

        def __call__(self, x):
            return total(w[i] * h.sqsum([x[i]]) / 2 + rdot([b[i]], [x[i]]) for i in range(n))

        def grad(self, x):
            return w * x + b + offs

    return Q(), w, b


def _gradtest(h, cplx, given, right, n=2):
    delta = h.real("delta", lo=0.25, hi=1)
    atol, rtol = h.real("atol", lo=0.125, hi=4), h.real("rtol", lo=0, hi=1)
    offs = h.vec("e", n, cplx=cplx)
    f, w, b = _quadop(h, n, cplx, offs)
    with h.randomness():
        if given:
            x = h.vec("x", n, cplx=cplx)
            x0 = x.copy()
        else:
            x = None
        parts = []
        if given:
            for i in range(n):
                g = w[i] * x0[i] + b[i] + offs[i]
                for c in ((lambda v: v.real), (lambda v: v.imag)) if cplx else ((lambda v: v),):
                    err = abs(delta * w[i] / 2 - c(offs[i]))
                    parts.append((err, atol, atol + rtol * abs(c(g))))
        else:
            # without a given point only the absolute tolerance is used
            h.assume(rtol <= 0)
            for i in range(n):
                for c in ((lambda v: v.real), (lambda v: v.imag)) if cplx else ((lambda v: v),):
                    err = abs(delta * w[i] / 2 - c(offs[i]))
                    parts.append((err, atol, atol))
        if right:
            h.assume(h.And(*[e <= a for e, a, _ in parts]))
        else:
            h.assume(h.And(*[e > m + 1e-6 for e, _, m in parts]))
        kw = dict(delta=delta, rtol=rtol, atol=atol, complexflag=cplx)
        if given:
            kw["x"] = x
        mod = h.sub("utils.gradtest")
        if right:
            h.claim(mod.gradtest_proximal(f, n, **kw), "correct gradient accepted")
        else:
            h.claim(h.raises(AssertionError, lambda: mod.gradtest_proximal(f, n, **kw)), "wrong gradient raises")
            h.claim(not mod.gradtest_proximal(f, n, raiseerror=False, **kw), "wrong gradient reported")
        if given:
            h.eq(x, x0, "input unchanged")


for _c in (False, True):
    for _g in (False, True):
        for _r in (False, True):
            ob(U, f"gradtest_proximal {'complex' if _c else 'real'} {'given' if _g else 'random'} x, {'right' if _r else 'wrong'} gradient",
               bounds="n=1..2; every quadratic, point, perturbation size, error and tolerance; any random choice")(
                lambda h, c=_c, g=_g, r=_r: _gradtest(h, c, g, r, 1 if c else 2))


def _bilop(h, cplx, offx, offy):
    """H(x, y) = w1 x0 y0 + w2 x1 y0 + ... (real) or Re(conj(w) x y)"""
    w = h.vec("w", 2, cplx=cplx)
    Base = h.sub("utils.bilinear").BilinearOperator

    class B(Base):
        def __init__(self, x, y):
            self.x, self.y, self.sizex, self.sizey = x, y, 2, 1

        def __call__(self, x, y=None):
            return rdot([1], [w[0] * x[0] * y[0] + w[1] * x[1] * y[0]]) if not cplx else \
                (w[0] * x[0] * y[0] + w[1] * x[1] * y[0]).real

        def gradx(self, x):
            c = (lambda v: v.conjugate()) if cplx else (lambda v: v)
            return h.arr([c(w[0] * self.y[0]) + offx[0], c(w[1] * self.y[0]) + offx[1]])

        def grady(self, y):
            c = (lambda v: v.conjugate()) if cplx else (lambda v: v)
            return h.arr([c(w[0] * self.x[0] + w[1] * self.x[1]) + offy[0]])

        def grad(self, z):
            return None

        def lx(self, x):
            return 1

        def ly(self, y):
            return 1

    return B


def _gradbil(h, cplx, right, how="both"):
    delta = h.real("delta", lo=0.25, hi=1)
    atol, rtol = h.real("atol", lo=0.125, hi=4), h.num(0)
    offx, offy = h.vec("ex", 2, cplx=cplx), h.vec("ey", 1, cplx=cplx)
    x, y = h.vec("x", 2, cplx=cplx), h.vec("y", 1, cplx=cplx)
    Bc = _bilop(h, cplx, offx, offy)
    parts = []
    for e in list(offx) + list(offy):
        parts += [abs(e.real), abs(e.imag)] if cplx else [abs(e)]
    if right:
        h.assume(h.And(*[e <= atol for e in parts]))
    else:
        h.assume(h.And(*[e > atol + 1e-6 for e in parts]))
    f = Bc(x.copy(), y.copy())
    mod = h.sub("utils.gradtest")
    kw = dict(delta=delta, rtol=rtol, atol=atol, complexflag=cplx)
    with h.randomness():
        if right:
            h.claim(mod.gradtest_bilinear(f, **kw), "correct gradients accepted")
        elif how == "raise":
            h.claim(h.raises(AssertionError, lambda: mod.gradtest_bilinear(f, **kw)), "wrong gradients raise")
        else:
            h.claim(not mod.gradtest_bilinear(f, raiseerror=False, **kw), "wrong gradients reported")
    h.eq(f.x, x, "stored x unchanged")
    h.eq(f.y, y, "stored y unchanged")


for _c in (False, True):
    for _r, _w in ((False, "raise"), (False, "report"), (True, "")):
        ob(U, f"gradtest_bilinear {'complex' if _c else 'real'} {'right' if _r else 'wrong'} gradients {_w}".strip(),
           bounds="sizes 2 and 1; every bilinear form, point, perturbation, error and tolerance; any random choice")(
            lambda h, c=_c, r=_r, w=_w: _gradbil(h, c, r, w))


@ob(U, "gradtest_bilinear finds an error in one block only", bounds="wrong in y only: fails exactly when y is drawn")
def _(h):
    delta, atol = h.real("delta", lo=0.25, hi=1), h.num(0.125)
    x, y = h.vec("x", 2), h.vec("y", 1)
    e = h.real("e", lo=1, hi=3)
    zero = h.const([0.0, 0.0])
    for wrong_y in (True, False):
        Bc = _bilop(h, False, zero if wrong_y else h.arr([e, e]), h.arr([e]) if wrong_y else zero[:1])
        f = Bc(x.copy(), y.copy())
        seen = []
        old = Bc.__call__

        def rec(self, u, v=None):
            seen.append([list(h.flat(u)), list(h.flat(v))])
            return old(self, u, v)

        Bc.__call__ = rec
        with h.randomness():
            r = h.sub("utils.gradtest").gradtest_bilinear(f, delta=delta, rtol=0.0, atol=atol, raiseerror=False)
        moved_y = total(abs(a - b) for a, b in zip(seen[0][1], seen[1][1]))
        hit = (moved_y > 0) if wrong_y else (moved_y <= 0)
        h.claim((not r) if hit else r, "verdict follows the tested component")


# ---------------------------------------------------------------- moreau
def _moreau(h, holds):
    tol, tau = h.real("tol", lo=0.125, hi=2), h.real("tau", pos=True)
    x, e = h.vec("x", 2, lo=-2, hi=2), h.vec("e", 2, lo=-9, hi=9)

    class O(h.mod.ProxOperator):
        def prox(self, x, tau):
            return h.uf("pr", [x, tau], 2)

        def proxdual(self, v, t):
            p = h.uf("pr", [[a / t for a in v], 1 / t], 2)
            return h.arr([a - t * b + c * t for a, b, c in zip(v, p, e)])

    f = O()
    if holds:
        h.assume(h.And(*[abs(v) <= tol for v in e]))
    else:
        # numpy's allclose adds 1e-5 relative to the reconstruction
        h.assume(h.Or(*[abs(v) > tol + 2e-5 * (2 + 9) for v in e]))
    m = h.sub("utils.moreau").moreau
    x0 = x.copy()
    if holds:
        h.claim(m(f, x, tau, tol=tol), "decomposition accepted")
        h.claim(m(f, x, tau, tol=tol, raiseerror=False), "decomposition accepted quietly")
    else:
        h.claim(h.raises(ValueError, lambda: m(f, x, tau, tol=tol)), "violation raises")
        h.claim(not m(f, x, tau, tol=tol, raiseerror=False), "violation reported")
    h.eq(x, x0, "input unchanged")


for _h in (True, False):
    ob(U, f"moreau {'holds' if _h else 'fails'}", bounds="n=2; arbitrary prox and any error of the dual; all x, tau, tol")(
        lambda h, k=_h: _moreau(h, k))


@ob(U, "moreau on library operators", bounds="n=2: L1, L2, Euclidean, Box; all x, tau, parameters")
def _(h):
    x, tau = h.vec("x", 1), h.real("tau", pos=True)
    s = h.real("s", pos=True)
    for f in (h.mod.L1(sigma=s), h.mod.L2(sigma=s), h.mod.Euclidean(sigma=s), h.mod.Box(-s, s)):
        h.claim(h.sub("utils.moreau").moreau(f, x.copy(), tau), f"{type(f).__name__}")
