"""C01: proximal operators of convex functions return the minimiser."""

from symx.harness import ob

from ._common import absl, absub, rdot, subgrad, tight, total


# ---------------------------------------------------------------- L1
def _l1(h, n, cplx, g):
    sig = h.real("sig", pos=True)
    tau = h.real("tau", pos=True)
    x = h.vec("x", n, cplx=cplx)
    gg = h.vec("g", n, cplx=cplx) if g else None
    f = h.mod.L1(sigma=sig, g=gg) if g else h.mod.L1(sigma=sig)
    p = f.prox(x.copy(), tau)
    z = h.vec("z", n, cplx=cplx)
    pp, zz = (p - gg, z - gg) if g else (p, z)
    h.observe("p", p)
    subgrad(h, x, p, tau, sig * total(absl(h, pp)), z, sig * total(absub(h, zz, "az")))
    h.eq(f(x), sig * total(absl(h, x - gg if g else x)), "value")


for _n, _c, _g in [(2, False, False), (2, False, True), (1, True, False), (1, True, True)]:
    ob("C01", f"L1 n={_n} {'complex' if _c else 'real'}{' g' if _g else ''}",
       bounds=f"n={_n}; all x, z, sigma>0, tau>0" + (", g" if _g else ""))(
        lambda h, n=_n, c=_c, g=_g: _l1(h, n, c, g))


def polar(h, name, m=2):
    """an arbitrary vector of length m written as radius times a direction"""
    r = h.real(name + "r", nonneg=True)
    if m == 1:
        return [r * h.real(name + "s")], r
    c, s = h.unit2(name + "d")
    out = [r * c, r * s]
    return out, r


@ob("C01", "L21 ndim=2 n=4", bounds="two groups of two; all x, sigma, tau")
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    (a0, a1), ra = polar(h, "a")
    (b0, b1), rb = polar(h, "b")
    x = h.arr([a0, b0, a1, b1])
    f = h.mod.L21(2, sigma=sig)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    h.eq(f(x), sig * (ra + rb), "value")
    z = h.vec("z", 2)
    nz = h.normvar(z, "nz")
    for i in range(2):
        pg = [p[i], p[i + 2]]
        xg = [x[i], x[i + 2]]
        subgrad(h, xg, pg, tau, sig * h.norm(pg), z, sig * nz)


# ---------------------------------------------------------------- L1, other shapes
@ob("C01", "L1 per-row sigma", bounds="2x1 array, one sigma per row")
def _(h):
    s0, s1 = h.real("s0", pos=True), h.real("s1", pos=True)
    tau = h.real("tau", pos=True)
    x = h.vec("x", (2, 1))
    sig = h.arr([[s0], [s1]])
    f = h.mod.L1(sigma=lambda k: sig)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    z = h.real("z")
    az = h.absvar(z, "az")
    for i, s in ((0, s0), (1, s1)):
        subgrad(h, [x[i, 0]], [p[i, 0]], tau, s * abs(p[i, 0]), [z], s * az)


# ---------------------------------------------------------------- Euclidean
@ob("C01", "Euclidean n=2", bounds="n=2; all x, sigma, tau")
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    x, r = polar(h, "x")
    x = h.arr(x)
    f = h.mod.Euclidean(sigma=sig)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    z = h.vec("z", 2)
    subgrad(h, x, p, tau, sig * h.norm(p), z, sig * h.normvar(z, "nz"))
    h.eq(f(x), sig * r, "value")


@ob("C01", "Euclidean n=1", bounds="n=1; all x including 0")
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    x, z = h.vec("x", 1), h.vec("z", 1)
    f = h.mod.Euclidean(sigma=sig)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    subgrad(h, x, p, tau, sig * abs(p[0]), z, sig * h.absvar(z[0], "az"))
    h.eq(f(x), sig * abs(x[0]), "value")


# ---------------------------------------------------------------- Huber
@ob("C01", "Huber n=1", bounds="n=1; all x, alpha, tau")
def _(h):
    al, tau = h.real("al", pos=True), h.real("tau", pos=True)
    x, z = h.vec("x", 1), h.vec("z", 1)
    f = h.mod.Huber(al)

    def H(v):
        a = abs(v)
        return a - al / 2 if a > al else a * a / (2 * al)

    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    h.eq(f(x), H(x[0]), "value")
    subgrad(h, x, p, tau, H(p[0]), z, H(z[0]))


@ob("C01", "Huber n=3", bounds="n=3, value additive and prox elementwise")
def _(h):
    al, tau = h.real("al", pos=True), h.real("tau", pos=True)
    x = h.vec("x", 2)
    f = h.mod.Huber(al)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    q = [h.mod.Huber(al).prox(x[i:i + 1].copy(), tau)[0] for i in range(2)]
    h.eq(p, q, "elementwise")
    h.eq(f(x), total(h.mod.Huber(al)(x[i:i + 1].copy()) for i in range(2)), "value additive")


@ob("C01", "HuberCircular n=2", bounds="n=2; all x, alpha, tau")
def _(h):
    al, tau = h.real("al", pos=True), h.real("tau", pos=True)
    x, r = polar(h, "x")
    x = h.arr(x)
    f = h.mod.HuberCircular(al)

    def H(a):
        return a - al / 2 if a > al else a * a / (2 * al)

    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    h.eq(f(x), H(r), "value")
    z = h.vec("z", 2)
    # z enters through any upper bound of its norm: H is increasing
    subgrad(h, x, p, tau, H(h.norm(p)), z, H(h.normvar(z, "nz")))


# ---------------------------------------------------------------- L21 + L1
def _l21l1(h, case):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    rho = h.real("rho", lo=0, hi=1)
    h.assume(rho > 0)
    h.assume(rho < 1)
    t = sig * rho * tau
    if case == "both":
        # both entries above the threshold: x = t*(1,1) + r*(c,s)
        r = h.real("r", pos=True)
        c, s = h.unit2("d")
        h.assume(c > 0)
        h.assume(s > 0)
        x = h.arr([[t + r * c], [t + r * s]])
    elif case == "one":
        w = h.real("w", lo=-1, hi=1)
        x = h.arr([[t + h.real("r", pos=True)], [t * w]])
    else:
        w, v = h.real("w", lo=-1, hi=1), h.real("v", lo=-1, hi=1)
        x = h.arr([[t * v], [t * w]])
    f = h.mod.L21_plus_L1(sigma=sig, rho=rho)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    h.finite(p, "prox is finite")
    z = h.vec("z", (2, 1))
    F = lambda a, nrm: sig * (rho * (a[0] + a[1]) + (1 - rho) * nrm)
    h.eq(f(x), F(absl(h, x), h.norm(x)), "value")
    subgrad(h, x, p, tau, F(absl(h, p), h.norm(p)), z, F(absub(h, z, "az"), h.normvar(z, "nz")))


for _c in ("both", "one", "none"):
    ob("C01", f"L21_plus_L1 2x1 {_c}", bounds="one column of two, entries above/below the l1 threshold as named; all sigma, tau, 0<rho<1")(
        lambda h, c=_c: _l21l1(h, c))


@ob("C01", "L21_plus_L1 odd", bounds="2x1, fixed rho: prox(-x) flips the sign entry by entry")
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    x = h.vec("x", (2, 1), pos=True)
    rho = h.num(0.5)
    p = h.mod.L21_plus_L1(sigma=sig, rho=rho).prox(x.copy(), tau)
    q = h.mod.L21_plus_L1(sigma=sig, rho=rho).prox(h.arr([[-x[0, 0]], [x[1, 0]]]), tau)
    h.eq(q, [-p[0, 0], p[1, 0]], "sign flip")


@ob("C01", "L21_plus_L1 rho=1", bounds="rho=1 (pure L1), 2x1; all x, sigma, tau")
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    x = h.vec("x", (2, 1), nz=True)
    f = h.mod.L21_plus_L1(sigma=sig, rho=1.0)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    h.finite(p, "prox is finite")
    z = h.real("z")
    az = h.absvar(z, "az")
    for i in range(2):
        subgrad(h, [x[i, 0]], [p[i, 0]], tau, sig * abs(p[i, 0]), [z], sig * az)


@ob("C01", "L21_plus_L1 columns independent", bounds="2x2; prox of a matrix acts column by column")
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    x = h.vec("x", (2, 2), pos=True)
    rho = h.num(0.5)
    f = h.mod.L21_plus_L1(sigma=sig, rho=rho)
    p = f.prox(x.copy(), tau)
    for j in range(2):
        q = h.mod.L21_plus_L1(sigma=sig, rho=rho).prox(x[:, j:j + 1].copy(), tau)
        h.eq(p[:, j], q[:, 0], "column")
    q = h.mod.L21_plus_L1(sigma=sig, rho=rho).prox(x.T.copy(), tau, axis=1)
    h.eq(q.T, p, "axis=1")


# ---------------------------------------------------------------- L2
def _opt_l2(h, x, p, tau, sig, M, b, q, al, label="stationarity"):
    """p - x + tau*(sig*M^H(Mp-b) + al*q) = 0 componentwise (M None: identity, b None: 0)"""
    n = len(h.flat(x))
    px, xx = h.flat(p), h.flat(x)
    if M is None:
        g = [px[i] - (b[i] if b is not None else 0) for i in range(n)]
    else:
        r = [total(M[k][i] * px[i] for i in range(n)) - b[k] for k in range(len(M))]
        g = [total(cj(M[k][i]) * r[k] for k in range(len(M))) for i in range(n)]
    h.eq([px[i] - xx[i] + tau * (sig * g[i] + (al * q[i] if q is not None else 0)) for i in range(n)],
         [0] * n, label)


def cj(v):
    from ._common import iscx

    return v.conjugate() if iscx(v) else v


def _l2value(h, x, sig, M, b, q, al):
    xx = h.flat(x)
    n = len(xx)
    if M is None:
        r = [xx[i] - (b[i] if b is not None else 0) for i in range(n)]
    else:
        r = [total(M[k][i] * xx[i] for i in range(n)) - b[k] for k in range(len(M))]
    return sig / 2 * h.sqsum(r) + (al * h.dot(q, x) if q is not None else 0)


for _b, _q in [(False, False), (True, False), (False, True), (True, True)]:
    def _f(h, wb=_b, wq=_q):
        sig, tau, al = h.real("sig", pos=True), h.real("tau", pos=True), h.real("al")
        x = h.vec("x", 2)
        b = h.vec("b", 2) if wb else None
        q = h.vec("q", 2) if wq else None
        f = h.mod.L2(b=b, q=q, sigma=sig, alpha=al)
        h.eq(f(x.copy()), _l2value(h, x, sig, None, b, q, al), "value")
        p = f.prox(x.copy(), tau)
        h.observe("p", p)
        _opt_l2(h, x, p, tau, sig, None, b, q, al)

    ob("C01", f"L2 no operator b={_b} q={_q}", bounds="n=2; all x, b, q, sigma, alpha, tau")(_f)


def _l2op(h, m, n, explicit, q, cplx=False, calls=1, alias=False, **kw):
    sig, tau, al = h.real("sig", pos=True), h.real("tau", pos=True), h.real("al")
    if alias:
        M = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        Op = h.identity_op(n)
    else:
        M = h.vec("M", (m, n), cplx=cplx)
        Op = h.linop(M, explicit=explicit)
        M = [list(r) for r in M]
    b = h.vec("b", m, cplx=cplx)
    qv = h.vec("q", n) if q else None
    f = h.mod.L2(Op=Op, b=b, q=qv, sigma=sig, alpha=al, niter=200, **kw, **tight(dict(kw, explicit=explicit)))
    for k in range(calls):
        x = h.vec(f"x{k}_", n, cplx=cplx)
        t = tau if k == 0 else h.real(f"tau{k}", pos=True)
        if k == 0 and not cplx:
            h.eq(f(x.copy()), _l2value(h, x, sig, M, b, qv, al), "value")
        p = f.prox(x.copy(), t)
        h.observe(f"p{k}", p)
        _opt_l2(h, x, p, t, sig, M, b, qv, al, f"stationarity call {k}")


for _nm, _a in {
    "explicit solve 2x2": dict(m=2, n=2, explicit=True, q=False),
    "explicit solve 1x2 q": dict(m=1, n=2, explicit=True, q=True),
    "explicit solve 2x1 complex": dict(m=2, n=1, explicit=True, q=False, cplx=True),
    "explicit numpy 1x2 q": dict(m=1, n=2, explicit=True, q=True, densesolver="numpy"),
    "explicit scipy 1x2": dict(m=1, n=2, explicit=True, q=False, densesolver="scipy"),
    "explicit factorize 1x2 q two calls": dict(m=1, n=2, explicit=True, q=True, calls=2, densesolver="factorize"),
    "explicit factorize 2x1 three calls": dict(m=2, n=1, explicit=True, q=False, calls=3, densesolver="factorize"),
    "explicit cgls 1x2 q": dict(m=1, n=2, explicit=True, q=True, solver="cgls"),
    "legacy 1x2 q two calls": dict(m=1, n=2, explicit=False, q=True, calls=2),
    "legacy 2x1 cold": dict(m=2, n=1, explicit=False, q=False, calls=2, warm=False),
    "legacy identity operator": dict(m=2, n=2, explicit=False, q=True, calls=2, alias=True),
    "cg 1x2 q two calls": dict(m=1, n=2, explicit=False, q=True, calls=2, solver="cg"),
    "cgls 1x2 q two calls": dict(m=1, n=2, explicit=False, q=True, calls=2, solver="cgls"),
    "cgls 2x1": dict(m=2, n=1, explicit=False, q=False, solver="cgls", warm=False),
}.items():
    ob("C01", f"L2 {_nm}", tol=2e-4 if not _a["explicit"] else 1e-6,
       bounds="sizes as named; all matrices, data, sigma, alpha, tau; inner linear solver exact")(
        lambda h, a=_a: _l2op(h, **a))


@ob("C01", "L2Convolve 1d", bounds="n=2, filter length 2, nfft=4; all x, h, b, sigma, tau", tol=1e-5)
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    x = h.vec("x", 4)
    hh = h.vec("h", 2)
    b = h.vec("b", 4)
    f = h.mod.L2Convolve(hh, b, nfft=4, sigma=sig)
    # circular convolution, period nfft
    def conv(v):
        return [hh[0] * v[i] + hh[1] * v[(i - 1) % 4] for i in range(4)]

    def corr(v):
        return [hh[0] * v[i] + hh[1] * v[(i + 1) % 4] for i in range(4)]

    r = [a - c for a, c in zip(conv(x), h.flat(b))]
    h.eq(f(x), sig / 2 * h.sqsum(r), "value")
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    pf = h.flat(p)
    h.eq([_imz(v) for v in pf], [0] * 4, "real result")
    pf = [_rez(v) for v in pf]
    r = [a - c for a, c in zip(conv(pf), h.flat(b))]
    g = corr(r)
    h.eq([pf[i] - x[i] + tau * sig * g[i] for i in range(4)], [0] * 4, "stationarity")


def _rez(v):
    from ._common import iscx

    return v.real if iscx(v) else v


def _imz(v):
    from ._common import iscx

    return v.imag if iscx(v) else 0


@ob("C01", "L2Convolve dims", bounds="2x2 grid, filter (h0>h1>0) along either axis; matches the 1d operator", tol=1e-5)
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    hh = h.vec("h", 2, pos=True)
    h.assume(hh[0] > hh[1])
    x = h.vec("x", (2, 2))
    b = h.vec("b", (2, 2))
    ref = [h.mod.L2Convolve(hh, b[i].copy(), nfft=2, sigma=sig) for i in range(2)]
    refx = [ref[i].prox(x[i].copy(), tau) for i in range(2)]
    for d in (0, 1, -1):
        xx = x if d else x.T
        bb = b if d else b.T
        f = h.mod.L2Convolve(hh, bb.copy(), nfft=2, sigma=sig, dims=(2, 2), dir=d)
        p = f.prox(xx.ravel().copy(), tau).reshape(2, 2)
        p = p if d else p.T
        for i in range(2):
            h.eq([_rez(v) for v in h.flat(p[i])], [_rez(v) for v in h.flat(refx[i])], f"dir={d} row {i}")
        h.eq(f(xx.ravel().copy()), total(ref[i](x[i].copy()) for i in range(2)), f"value dir={d}")


def _convnd(h, dims, d, nd=False):
    """every line along the direction is treated as by the 1-D operator; a kernel with the
    dimensions of the data has one kernel per line"""
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    ax = len(dims) - 1 if d is None else d % len(dims)
    x, b = h.vec("x", dims), h.vec("b", dims)
    if nd:
        K = h.vec("h", tuple(2 if i == ax else m for i, m in enumerate(dims)), pos=True)
    else:
        K = h.vec("h", 2, pos=True)
        h.assume(K[0] > K[1])
    f = h.mod.L2Convolve(K.copy(), b.copy(), nfft=dims[ax], sigma=sig, dims=dims, **({} if d is None else dict(dir=d)))
    p = f.prox(x.ravel().copy(), tau).reshape(dims)
    val = 0
    for i in h_ndidx(tuple(m for j, m in enumerate(dims) if j != ax)):
        sl = i[:ax] + (slice(None),) + i[ax:]
        k = K[sl] if nd else K
        if nd:
            h.assume(k[0] > k[1])
        r = h.mod.L2Convolve(k.copy(), b[sl].copy(), nfft=dims[ax], sigma=sig)
        h.eq([_rez(v) for v in h.flat(p[sl])], [_rez(v) for v in h.flat(r.prox(x[sl].copy(), tau))], f"line {i}", tol=1e-5)
        val = val + r(x[sl].copy())
    h.eq(f(x.ravel().copy()), val, "value", tol=1e-5)


def h_ndidx(s):
    import itertools

    return list(itertools.product(*[range(m) for m in s]))


for _d, _r, _n in [((2, 2), 0, True), ((2, 2), 1, True), ((2, 3, 2), 0, False), ((3, 2, 2), 1, False), ((2, 2, 2), 1, True), ((3, 2, 2), -1, False), ((2, 3, 2), None, False)]:
    ob("C01", f"L2Convolve {_d} dir={_r}{' kernel per line' if _n else ''}", tol=1e-5,
       bounds="2-sample kernels (h0>h1>0) along the direction; all data, sigma, tau; matches the 1d operator")(
        lambda h, d=_d, r=_r, n=_n: _convnd(h, d, r, n))


# ---------------------------------------------------------------- Quadratic
@ob("C01", "Quadratic", bounds="n=2 explicit and implicit PSD operator, b, c", tol=2e-4)
def _(h):
    tau = h.real("tau", pos=True)
    a, b_, d = h.real("a", nonneg=True), h.real("bb"), h.real("d", nonneg=True)
    h.assume(a * d >= b_ * b_)
    M = h.arr([[a, b_], [b_, d]])
    b = h.vec("b", 2)
    c = h.real("c")
    x = h.vec("x", 2)
    for explicit in (True, False):
        f = h.mod.Quadratic(Op=h.linop(M, explicit=explicit), b=b, c=c, niter=200)
        h.eq(f(x.copy()), (a * x[0] * x[0] + 2 * b_ * x[0] * x[1] + d * x[1] * x[1]) / 2 + h.dot(b, x) + c, "value")
        for k in range(2):
            p = f.prox(x.copy(), tau)
            h.observe("p", p)
            h.eq([p[0] - x[0] + tau * (a * p[0] + b_ * p[1] + b[0]),
                  p[1] - x[1] + tau * (b_ * p[0] + d * p[1] + b[1])], [0, 0], f"stationarity {explicit} {k}")


@ob("C01", "Quadratic linear", bounds="n=2 without operator, with and without b")
def _(h):
    tau, c = h.real("tau", pos=True), h.real("c")
    b, x = h.vec("b", 2), h.vec("x", 2)
    f = h.mod.Quadratic(b=b, c=c)
    h.eq(f(x), h.dot(b, x) + c, "value")
    h.eq(f.prox(x.copy(), tau), [x[i] - tau * b[i] for i in range(2)], "prox")
    f = h.mod.Quadratic(c=c)
    h.eq(f(x), c, "value const")
    h.eq(f.prox(x.copy(), tau), x, "prox const")


@ob("C01", "Quadratic operator without b", bounds="n=2, operator only", tol=2e-4)
def _(h):
    tau = h.real("tau", pos=True)
    a, b_, d = h.real("a", nonneg=True), h.real("bb"), h.real("d", nonneg=True)
    h.assume(a * d >= b_ * b_)
    M = h.arr([[a, b_], [b_, d]])
    x = h.vec("x", 2)
    f = h.mod.Quadratic(Op=h.linop(M))
    p = f.prox(x.copy(), tau)
    h.eq([p[0] - x[0] + tau * (a * p[0] + b_ * p[1]), p[1] - x[1] + tau * (b_ * p[0] + d * p[1])], [0, 0], "stationarity")


# ---------------------------------------------------------------- omitted coefficients
def _same(h, f, g, x, label, dual=True):
    tau = h.real("tau", pos=True)
    h.eq(f(x.copy()), g(x.copy()), label + ": value")
    h.eq(f.prox(x.copy(), tau), g.prox(x.copy(), tau), label + ": prox")
    if dual:
        h.eq(f.proxdual(x.copy(), tau), g.proxdual(x.copy(), tau), label + ": dual prox")


def _omitted(h, nm):
    m, one = h.mod, h.num(1)
    if nm in ("Euclidean", "L21"):
        c, s = h.unit2("d")
        r = h.real("r", nonneg=True)
        x = h.arr([r * c, r * s])
    else:
        x, b, q = h.vec("x", 2), h.vec("b", 2), h.vec("q", 2)
    A = h.linop(h.arr([[1, 2], [0, 1]]))
    f, g = {
        "L1": lambda: (m.L1(), m.L1(sigma=one)),
        "L2": lambda: (m.L2(), m.L2(sigma=one)),
        "L2 with data": lambda: (m.L2(b=b), m.L2(b=b, sigma=one)),
        "L2 with linear term": lambda: (m.L2(b=b, q=q), m.L2(b=b, q=q, sigma=one, alpha=one)),
        "L2 with operator": lambda: (m.L2(Op=A, b=b, q=q), m.L2(Op=A, b=b, q=q, sigma=one, alpha=one)),
        "Euclidean": lambda: (m.Euclidean(), m.Euclidean(sigma=one)),
        "L21": lambda: (m.L21(2), m.L21(2, sigma=one)),
        "L21_plus_L1": lambda: (m.L21_plus_L1(), m.L21_plus_L1(sigma=one, rho=h.num(0.8))),
    }[nm]()
    if nm == "L21_plus_L1":
        x = h.arr([[x[0]], [x[1]]])
    _same(h, f, g, x, nm, dual=nm not in ("L2 with operator", "L21_plus_L1"))


for _n in ("L1", "L2", "L2 with data", "L2 with linear term", "L2 with operator", "Euclidean", "L21", "L21_plus_L1"):
    ob("C01", f"omitted weights are one: {_n}", bounds="n=2; all x, data, tau", tol=1e-6)(lambda h, n=_n: _omitted(h, n))
