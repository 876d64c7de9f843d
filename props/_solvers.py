"""One or more configurations of every solver: how to call the real code, and the documented
recurrence written out independently.  Used by the properties about solver iterations
(C12-C14, C16), callbacks and stopping (C19) and caller data (C08)."""

from ._common import F_, G_, P_, PD_, absprox, total

SOLVERS = {}


class S:
    """call(niter, callback, show) -> result;  ref(niter) -> [iterate tuples];
    final(iterates) -> what the solver must return;  arrays: the caller's arrays"""

    def __init__(self, call, ref, arrays, ncb=1, final=None):
        self.call, self.ref, self.arrays, self.ncb = call, ref, arrays, ncb
        self.final = final or (lambda it: it[-1])


def solver(name, prop, niter=3, validate=True, slow=False, n0=True, tol=1e-6, bounds="n=2", show=True, also=(), hist=True):
    def deco(fn):
        SOLVERS[name] = dict(make=fn, prop=prop, also=also, niter=niter, slow=slow, n0=n0, tol=tol, bounds=bounds, show=show, validate=validate, hist=hist)
        return fn

    return deco


def A1(h, *v):
    return h.arr(list(v))


def lin(h, *terms):
    """sum of coefficient * vector, elementwise"""
    cs, vs = [t[0] for t in terms], [h.flat(t[1]) for t in terms]
    return h.arr([total(c * v[i] for c, v in zip(cs, vs)) for i in range(len(vs[0]))])


def mv(h, M, x):
    r, c = M.shape
    return h.arr([total(M[i, j] * x[j] for j in range(c)) for i in range(r)])


def mtv(h, M, y):
    r, c = M.shape
    cj = (lambda v: v.conjugate()) if M.dtype.kind == "c" else (lambda v: v)
    return h.arr([total(cj(M[i, j]) * y[i] for i in range(r)) for j in range(c)])


# =============================================================== proximal point / gradient
def _pp(h):
    f = absprox(h, "f")
    x0, tau = h.vec("x0", 2), h.real("tau", pos=True)

    def ref(n):
        out, x = [], x0
        for _ in range(n):
            x = P_(h, "f", x, tau)
            out.append((x,))
        return out

    return S(lambda **k: h.mod.optimization.primal.ProximalPoint(f, x0, tau, **k), ref, [x0])


solver("ProximalPoint", "C12")(_pp)


def omegas(h, acc, n):
    t = 1
    out = []
    for k in range(n):
        if acc == "vandenberghe":
            out.append(h.num(k) / (k + 3))
        elif acc == "fista":
            told, t = t, (1 + h.sqrt(1 + 4 * t * t)) / 2
            out.append((told - 1) / t)
        else:
            out.append(0)
    return out


def _pg(h, acc=None, eta=False, multi=False, wrapper=False, cplx=False, eps="sym"):
    f, g = absprox(h, "f", grad=True), absprox(h, "g")
    x0, tau = h.vec("x0", 1 if cplx else 2, cplx=cplx), h.real("tau", pos=True)
    et = h.real("eta", pos=True, hi=1) if eta else 1
    if eta:
        h.assume(et < 1)
    arrays = [x0]

    def epsg(n):
        if multi:
            return h.vec("eps", n, pos=True)
        return h.real("eps", pos=True)

    def ref(n):
        e = epsg(n)
        om = omegas(h, acc, n)
        x = y = x0
        out = []
        for k in range(n):
            ek = e[k] if multi else e
            p = P_(h, "g", lin(h, (1, y), (-tau, G_(h, "f", y))), ek * tau)
            xn = lin(h, (1 - et, y), (et, p))
            y = lin(h, (1 + om[k], xn), (-om[k], x))
            x = xn
            out.append((x,))
        return out

    def call(niter, **k):
        kw = dict(epsg=epsg(niter), tau=tau, niter=niter, **k)
        if wrapper:
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if acc != "vandenberghe":
                    kw["acceleration"] = acc
                return h.mod.optimization.primal.AcceleratedProximalGradient(f, g, x0, **kw)
        if acc is not None:
            kw["acceleration"] = acc
        if eta:
            kw["eta"] = et
        return h.mod.optimization.primal.ProximalGradient(f, g, x0, **kw)

    return S(call, ref, arrays)


for _acc in (None, "None", "vandenberghe", "fista"):
    for _eta in (False, True):
        solver(f"ProximalGradient acceleration={_acc!r}{' relaxed' if _eta else ''}", "C12")(
            lambda h, a=_acc, e=_eta: _pg(h, a, e))
solver("ProximalGradient fista epsg per iteration", "C12")(lambda h: _pg(h, "fista", multi=True))
solver("ProximalGradient complex", "C12")(lambda h: _pg(h, "vandenberghe", cplx=True))
solver("AcceleratedProximalGradient vandenberghe", "C12")(lambda h: _pg(h, "vandenberghe", wrapper=True))
solver("AcceleratedProximalGradient fista", "C12")(lambda h: _pg(h, "fista", wrapper=True))


def _gpg(h, m, acc=None, weights=True, eta=False, multi=False, nf=2):
    fs = [absprox(h, f"f{i}", grad=True) for i in range(nf)]
    gs = [absprox(h, f"g{i}") for i in range(m)]
    x0, tau = h.vec("x0", 2), h.real("tau", pos=True)
    et = h.real("eta", pos=True, hi=1) if eta else 1
    arrays = [x0]
    if weights:
        ws = [h.real(f"w{i}", pos=True) for i in range(m - 1)]
        last = 1 - total(ws)
        h.assume(last > 0)
        w = h.arr(ws + [last])
        arrays.append(w)
    else:
        w = h.arr([h.num(1) / m] * m)
    e = h.vec("eps", m, pos=True) if multi else h.real("eps", pos=True)
    if multi:
        arrays.append(e)

    def ref(n):
        om = omegas(h, acc, n)
        x = y = x0
        zs = [x0] * m
        out = []
        for k in range(n):
            gr = lin(h, *[(1, G_(h, f"f{i}", x)) for i in range(nf)])
            zn = []
            for j in range(m):
                p = P_(h, f"g{j}", lin(h, (2, y), (-1, zs[j]), (-tau, gr)), tau * (e[j] if multi else e) / w[j])
                zn.append(lin(h, (1, zs[j]), (et, p), (-et, y)))
            zs = zn
            xn = lin(h, *[(w[j], zs[j]) for j in range(m)])
            y = lin(h, (1 + om[k], xn), (-om[k], x))
            x = xn
            out.append((x,))
        return out

    def call(niter, **k):
        if weights:
            k["weights"] = w
        if eta:
            k["eta"] = et
        return h.mod.optimization.primal.GeneralizedProximalGradient(
            fs, gs, x0, tau, epsg=e, niter=niter, acceleration=acc, **k)

    return S(call, ref, arrays)


solver("GeneralizedProximalGradient two terms", "C12", niter=2)(lambda h: _gpg(h, 2))
solver("GeneralizedProximalGradient three terms default weights", "C12", niter=2)(lambda h: _gpg(h, 3, weights=False))
solver("GeneralizedProximalGradient relaxed epsg per term", "C12", niter=2)(lambda h: _gpg(h, 2, eta=True, multi=True))
solver("GeneralizedProximalGradient one term", "C12")(lambda h: _gpg(h, 1, weights=False, nf=1))
solver("GeneralizedProximalGradient vandenberghe", "C12")(lambda h: _gpg(h, 2, acc="vandenberghe", nf=1))
solver("GeneralizedProximalGradient fista", "C12")(lambda h: _gpg(h, 2, acc="fista", nf=1))


# =============================================================== splitting
def _hqs(h, gfirst, start, multi=False, n=2):
    f, g = absprox(h, "f"), absprox(h, "g")
    x0 = h.vec("x0", n) if start in ("x", "xz") else None
    z0 = h.vec("z0", n) if start in ("z", "xz") else None

    def taus(n):
        return h.vec("tau", n, pos=True) if multi else h.real("tau", pos=True)

    def ref(n):
        t = taus(n)
        x, z = (x0 if x0 is not None else z0), (z0 if z0 is not None else x0)
        out = []
        for k in range(n):
            tk = t[k] if multi else t
            if gfirst:
                z = P_(h, "g", x, tk)
                x = P_(h, "f", z, tk)
            else:
                x = P_(h, "f", z, tk)
                z = P_(h, "g", x, tk)
            out.append((x, z))
        return out

    return S(lambda niter, **k: h.mod.optimization.primal.HQS(
        f, g, x0, taus(niter), niter=niter, z0=z0, gfirst=gfirst, **k),
        ref, [a for a in (x0, z0) if a is not None], ncb=2)


for _g in (True, False):
    for _s in ("x", "z", "xz"):
        solver(f"HQS gfirst={_g} start={_s}", "C13")(lambda h, g=_g, s=_s: _hqs(h, g, s))
solver("HQS tau per iteration", "C13")(lambda h: _hqs(h, True, "x", multi=True))
solver("HQS f first tau per iteration", "C13")(lambda h: _hqs(h, False, "xz", multi=True))


def _admm(h, gfirst, start, pnp=False):
    f, g = absprox(h, "f"), absprox(h, "g")
    x0 = h.vec("x0", 2) if start in ("x", "xz") else None
    z0 = h.vec("z0", 2) if start in ("z", "xz") else None
    tau = h.real("tau", pos=True)

    def ref(n):
        x, z = (x0 if x0 is not None else z0), (z0 if z0 is not None else x0)
        u = h.arr([h.num(0)] * 2)
        out = []
        for k in range(n):
            if gfirst:
                z = P_(h, "g", lin(h, (1, x), (1, u)), tau)
                x = P_(h, "f", lin(h, (1, z), (-1, u)), tau)
            else:
                x = P_(h, "f", lin(h, (1, z), (-1, u)), tau)
                z = P_(h, "g", lin(h, (1, x), (1, u)), tau)
            u = lin(h, (1, u), (1, x), (-1, z))
            out.append((x, z))
        return out

    if pnp:
        def den(v, t):
            h.claim(tuple(v.shape) == (2, 1), "denoiser gets the given dimensions")
            return h.uf("g.prox", [v, t], 2).reshape((2, 1))

        def call(niter, **k):
            if start != "x":
                k["z0"] = z0
            if gfirst:
                k["gfirst"] = True
            return h.mod.optimization.pnp.PlugAndPlay(f, den, (2, 1), x0, tau=tau, niter=niter, **k)
    else:
        def call(niter, **k):
            return h.mod.optimization.primal.ADMM(f, g, x0, tau, niter=niter, z0=z0, gfirst=gfirst, **k)
    return S(call, ref, [a for a in (x0, z0) if a is not None], ncb=2)


for _g in (True, False):
    for _s in ("x", "z", "xz"):
        solver(f"ADMM gfirst={_g} start={_s}", "C13")(lambda h, g=_g, s=_s: _admm(h, g, s))
solver("PlugAndPlay ADMM", "C13")(lambda h: _admm(h, False, "x", pnp=True))
solver("PlugAndPlay ADMM gfirst", "C13")(lambda h: _admm(h, True, "xz", pnp=True))


def _pnp_pg(h):
    f = absprox(h, "f", grad=True)
    x0, tau = h.vec("x0", 2), h.real("tau", pos=True)

    def ref(n):
        x, out = x0, []
        for _ in range(n):
            x = P_(h, "g", lin(h, (1, x), (-tau, G_(h, "f", x))), tau)
            out.append((x,))
        return out

    def call(niter, **k):
        return h.mod.optimization.pnp.PlugAndPlay(
            f, lambda v, t: h.uf("g.prox", [v, t], 2).reshape((1, 2)), (1, 2), x0,
            solver=h.mod.optimization.primal.ProximalGradient, tau=tau, niter=niter, **k)

    return S(call, ref, [x0])


solver("PlugAndPlay ProximalGradient", "C13")(_pnp_pg)


def _admml2(h, gfirst, withz, shape=(1, 1)):
    g = absprox(h, "g")
    r, c = shape
    M, K = h.vec("M", (1, c)), h.vec("K", (r, c))
    if c == 1:
        h.assume(K[0, 0] > 0)
    b, x0, tau = h.vec("b", 1), h.vec("x0", c), h.real("tau", pos=True)
    z0 = h.vec("z0", r) if withz else None
    Op, A = h.linop(M), h.linop(K)

    def solve(z, u):
        # (M'M + K'K/tau) x = M'b + K'(z-u)/tau   (c == 1)
        den = M[0, 0] * M[0, 0] + total(K[i, 0] * K[i, 0] for i in range(r)) / tau
        num = M[0, 0] * b[0] + total(K[i, 0] * (z[i] - u[i]) for i in range(r)) / tau
        return h.arr([num / den])

    def ref(n):
        x = x0
        z = z0 if withz else mv(h, K, x)
        u = h.arr([h.num(0)] * r)
        out = []
        for _ in range(n):
            if gfirst:
                z = P_(h, "g", lin(h, (1, mv(h, K, x)), (1, u)), tau)
                x = solve(z, u)
            else:
                x = solve(z, u)
                z = P_(h, "g", lin(h, (1, mv(h, K, x)), (1, u)), tau)
            u = lin(h, (1, u), (1, mv(h, K, x)), (-1, z))
            out.append((x, z))
        return out

    return S(lambda niter, **k: h.mod.optimization.primal.ADMML2(
        g, Op, b, A, x0, tau, niter=niter, z0=z0, gfirst=gfirst, atol=1e-14, btol=1e-14, **k),
        ref, [x0, b] + ([z0] if withz else []), ncb=-1)


for _g in (True, False):
    for _z in (True, False):
        solver(f"ADMML2 gfirst={_g} z0={'given' if _z else 'none'}", "C13", niter=2, tol=1e-5,
               bounds="scalar model, one datum, operator 1x1")(lambda h, g=_g, z=_z: _admml2(h, g, z))
solver("ADMML2 two-row operator", "C13", niter=2, tol=1e-5, bounds="scalar model, one datum, 2x1 operator")(
    lambda h: _admml2(h, False, False, (2, 1)))
solver("ADMML2 gfirst two-row operator", "C13", niter=2, tol=1e-5, bounds="scalar model, one datum, 2x1 operator")(
    lambda h: _admml2(h, True, True, (2, 1)))


def _ladmm(h, withz, shape=(3, 2), cplx=False, alias=False):
    f, g = absprox(h, "f"), absprox(h, "g")
    r, c = shape
    if alias:
        A, K = h.identity_op(2), h.const([[1.0, 0.0], [0.0, 1.0]])
    else:
        K = h.vec("K", (r, c), cplx=cplx)
        A = h.linop(K, explicit=False)
    x0, tau, mu = h.vec("x0", c, cplx=cplx), h.real("tau", pos=True), h.real("mu", pos=True)
    z0 = h.vec("z0", r, cplx=cplx) if withz else None

    def ref(n):
        x = x0
        z = z0 if withz else mv(h, K, x)
        u = h.arr([h.num(0)] * r)
        out = []
        for _ in range(n):
            d = mtv(h, K, lin(h, (1, mv(h, K, x)), (-1, z), (1, u)))
            x = P_(h, "f", lin(h, (1, x), (-mu / tau, d)), mu)
            z = P_(h, "g", lin(h, (1, mv(h, K, x)), (1, u)), tau)
            u = lin(h, (1, u), (1, mv(h, K, x)), (-1, z))
            out.append((x, z))
        return out

    return S(lambda niter, **k: h.mod.optimization.primal.LinearizedADMM(
        f, g, A, x0, tau, mu, niter=niter, z0=z0, **k), ref, [x0] + ([z0] if withz else []), ncb=-1)


solver("LinearizedADMM tall", "C13", niter=2, bounds="3x2 operator")(lambda h: _ladmm(h, False))
solver("LinearizedADMM tall z0", "C13", niter=2, bounds="3x2 operator")(lambda h: _ladmm(h, True))
solver("LinearizedADMM wide", "C13", niter=2, bounds="1x2 operator")(lambda h: _ladmm(h, False, (1, 2)))
solver("LinearizedADMM identity", "C13", niter=3)(lambda h: _ladmm(h, True, (2, 2), alias=True))
solver("LinearizedADMM complex", "C13", niter=2, bounds="complex 1x1 operator")(lambda h: _ladmm(h, True, (1, 1), cplx=True))


def _twist(h, mode, shape=(1, 2), cost=False, cplx=False):
    g = absprox(h, "g")
    r, c = shape
    if mode == "auto":
        # one dominant diagonal entry
        d0, d1 = h.real("d0", lo=0.25, hi=3), h.real("d1", lo=0.25, hi=3)
        h.assume(d0 > d1)
        K = h.arr([[d0, 0], [0, -d1]])
        r = c = 2
    else:
        K = h.vec("K", (r, c), cplx=cplx)
    A = h.linop(K, explicit=False)
    b, x0 = h.vec("b", r, cplx=cplx), h.vec("x0", c, cplx=cplx)
    kw = {}
    if mode == "given":
        al, be = h.real("al", pos=True), h.real("be", pos=True)
        kw = dict(alpha=al, beta=be)
    else:
        if mode == "auto":
            lmin, lmax = d1 * d1, h.max(1, d0 * d0)
        else:
            lmin, l1 = h.real("lmin", nonneg=True), h.real("lmax", pos=True)
            h.assume(lmin <= l1)
            kw = dict(eigs=(l1, lmin))
            lmax = h.max(1, l1)
        k = lmin / lmax
        rho = (1 - h.sqrt(k)) / (1 + h.sqrt(k))
        al = 1 + rho * rho
        be = 2 * al / (lmax + lmin)
        if mode == "eigs alpha":
            al = h.real("al", pos=True)
            kw["alpha"] = al
            be = 2 * al / (lmax + lmin)
        if mode == "eigs beta":
            be = h.real("be", pos=True)
            kw["beta"] = be

    def step(x):
        r_ = lin(h, (1, b), (-1, mv(h, K, x)))
        return P_(h, "g", lin(h, (1, x), (1, mtv(h, K, r_))), 1)

    def ref(n):
        xold, x = x0, step(x0)
        out = []
        for _ in range(n):
            xn = lin(h, (1 - al, xold), (al - be, x), (be, step(x)))
            xold, x = x, xn
            out.append((x,))
        return out

    def final(it):
        if not cost:
            return it[-1]
        j = []
        for (x,) in it:
            res = lin(h, (1, b), (-1, mv(h, K, x)))
            j.append(h.sqsum(res) / 2 + F_(h, "g", x))
        return (it[-1][0], h.arr(j))

    def call(niter, **k):
        if cost:
            k["returncost"] = True
        return h.mod.optimization.primal.TwIST(g, A, b, x0, niter=niter, **kw, **k)

    return S(call, ref, [x0, b], final=final)


solver("TwIST given weights", "C13", bounds="1x2 operator", n0=False)(lambda h: _twist(h, "given"))
solver("TwIST given weights tall complex", "C13", niter=2, bounds="complex 2x1 operator", n0=False)(
    lambda h: _twist(h, "given", (2, 1), cplx=True))
solver("TwIST cost", "C13", niter=2, bounds="1x2 operator", n0=False)(lambda h: _twist(h, "given", cost=True))
solver("TwIST eigenvalues", "C13", niter=1, bounds="1x2 operator", n0=False)(lambda h: _twist(h, "eigs"))
solver("TwIST eigenvalues and alpha", "C13", niter=1, bounds="1x2 operator", n0=False)(lambda h: _twist(h, "eigs alpha"))
solver("TwIST eigenvalues and beta", "C13", niter=1, bounds="1x2 operator", n0=False)(lambda h: _twist(h, "eigs beta"))
solver("TwIST estimated eigenvalues", "C13", niter=1, tol=1e-5, bounds="2x2 diagonal operator", n0=False)(
    lambda h: _twist(h, "auto"))


def _dr(h, gfirst, eta):
    f, g = absprox(h, "f"), absprox(h, "g")
    x0, tau = h.vec("x0", 2), h.real("tau", pos=True)
    et = h.real("eta", pos=True, hi=2) if eta else 1
    a, b = ("g", "f") if gfirst else ("f", "g")

    def ref(n):
        y, out = x0, []
        for _ in range(n):
            x = P_(h, a, y, tau)
            p = P_(h, b, lin(h, (2, x), (-1, y)), tau)
            y = lin(h, (1, y), (et, p), (-et, x))
            out.append((x, y))
        return out

    def call(niter, **k):
        if eta:
            k["eta"] = et
        return h.mod.optimization.primal.DouglasRachfordSplitting(f, g, x0, tau, niter=niter, gfirst=gfirst, **k)

    return S(call, ref, [x0], ncb=3)


for _g in (True, False):
    for _e in (True, False):
        solver(f"DouglasRachford gfirst={_g}{' relaxed' if _e else ''}", "C13", n0=False)(
            lambda h, g=_g, e=_e: _dr(h, g, e))


def _ppxa(h, m, start="one", weights=None, eta=False, n=2, tol=0):
    fs = [absprox(h, f"f{i}") for i in range(m)]
    tau = h.real("tau", pos=True)
    et = h.real("eta", pos=True, hi=2) if eta else 1
    if start == "one":
        x0 = h.vec("x0", n)
        ys = [x0] * m
        arrays = [x0]
    elif start == "2d":
        x0 = h.vec("x0", (m, n))
        ys = [x0[i] for i in range(m)]
        arrays = [x0]
    else:
        x0 = [h.vec(f"x0{i}_", n) for i in range(m)]
        ys = list(x0)
        arrays = list(x0)
    ys = [h.arr(list(h.flat(y))) for y in ys]
    if weights is None:
        w = [h.num(1) / m] * m
        kw = {}
    else:
        ws = [h.real(f"w{i}", pos=True) for i in range(m - 1)]
        h.assume(1 - total(ws) > 0)
        w = ws + [1 - total(ws)]
        wa = h.arr(w) if weights == "array" else list(w)
        kw = dict(weights=wa)
        if weights == "array":
            arrays.append(wa)

    def ref(k):
        y = list(ys)
        x = lin(h, *[(w[i], y[i]) for i in range(m)])
        out = []
        for _ in range(k):
            p = [P_(h, f"f{i}", y[i], tau / w[i]) for i in range(m)]
            pn = lin(h, *[(w[i], p[i]) for i in range(m)])
            y = [lin(h, (1, y[i]), (2 * et, pn), (-et, x), (-et, p[i])) for i in range(m)]
            x = lin(h, (1 - et, x), (et, pn))
            out.append((x,))
        return out

    def call(niter, **k):
        k.setdefault("tol", tol)
        if eta:
            k["eta"] = et
        return h.mod.optimization.primal.PPXA(fs, x0, tau, niter=niter, **kw, **k)

    return S(call, ref, arrays)


solver("PPXA two terms", "C13", niter=2, bounds="n=1")(lambda h: _ppxa(h, 2, n=1))
solver("PPXA three terms relaxed weights array", "C13", niter=2, bounds="n=1")(
    lambda h: _ppxa(h, 3, weights="array", eta=True, n=1))
solver("PPXA list of starts weights list", "C13", niter=2, bounds="n=1")(
    lambda h: _ppxa(h, 2, start="list", weights="list", n=1))
solver("PPXA matrix of starts", "C13", niter=2, bounds="n=1")(
    lambda h: _ppxa(h, 2, start="2d", weights="array", n=1))
solver("PPXA n=2", "C13", niter=1, bounds="n=2")(lambda h: _ppxa(h, 2, start="list", weights="array", eta=True))


def _cadmm(h, m, n, tol=0):
    fs = [absprox(h, f"f{i}") for i in range(m)]
    x0, tau = h.vec("x0", n), h.real("tau", pos=True)

    def ref(k):
        xb = x0
        y = [h.arr([h.num(0)] * n)] * m
        out = []
        for _ in range(k):
            x = [P_(h, f"f{i}", lin(h, (1, xb), (-1, y[i])), tau) for i in range(m)]
            xb = lin(h, *[(h.num(1) / m, v) for v in x])
            y = [lin(h, (1, y[i]), (1, x[i]), (-1, xb)) for i in range(m)]
            out.append((xb,))
        return out

    def call(niter, **k):
        k.setdefault("tol", tol)
        return h.mod.optimization.primal.ConsensusADMM(fs, x0, tau, niter=niter, **k)

    return S(call, ref, [x0])


solver("ConsensusADMM two terms", "C13", niter=3, bounds="n=1")(lambda h: _cadmm(h, 2, 1))
solver("ConsensusADMM three terms", "C13", niter=2, bounds="n=1")(lambda h: _cadmm(h, 3, 1))
solver("ConsensusADMM n=2", "C13", niter=1, bounds="n=2")(lambda h: _cadmm(h, 2, 2))


# =============================================================== primal-dual
def _pd(h, gfirst, shape=(3, 2), y0=False, z=False, theta=False, multi=False, alias=False, cplx=False, th0=False):
    f, g = absprox(h, "f"), absprox(h, "g")
    r, c = shape
    if alias:
        A, K = h.identity_op(2), h.const([[1.0, 0.0], [0.0, 1.0]])
    else:
        K = h.vec("K", (r, c), cplx=cplx)
        A = h.linop(K, explicit=False)
    x0 = h.vec("x0", c, cplx=cplx)
    yv = h.vec("y0", r, cplx=cplx) if y0 else None
    zv = h.vec("z", c, cplx=cplx) if z else None
    th = h.real("theta", lo=0, hi=1) if theta else 1
    mt, mm = (multi, multi) if isinstance(multi, bool) else ("t" in multi, "m" in multi)

    def steps(n):
        return (h.vec("taus", n, pos=True) if mt else h.real("tau", pos=True),
                h.vec("mus", n, pos=True) if mm else h.real("mu", pos=True))

    def ref(n):
        tau, mu = steps(n)
        x = xh = x0
        y = yv if y0 else h.arr([h.num(0)] * r)
        out = []
        for k in range(n):
            t, m = tau[k] if mt else tau, mu[k] if mm else mu
            if gfirst:
                y = PD_(h, "g", lin(h, (1, y), (m, mv(h, K, xh))), m)
            d = mtv(h, K, y)
            if z:
                d = lin(h, (1, d), (1, zv))
            xn = P_(h, "f", lin(h, (1, x), (-t, d)), t)
            xh = lin(h, (1 + th, xn), (-th, x))
            x = xn
            if not gfirst:
                y = PD_(h, "g", lin(h, (1, y), (m, mv(h, K, xh))), m)
            out.append((x, y))
        return out

    def call(niter, **k):
        tau, mu = steps(niter)
        k.setdefault("returny", True)
        if theta:
            k["theta"] = th
        return h.mod.optimization.primaldual.PrimalDual(
            f, g, A, x0, tau, mu, y0=yv, z=zv, niter=niter, gfirst=gfirst, **k)

    return S(call, ref, [a for a in (x0, yv, zv) if a is not None], ncb=3)


for _g in (True, False):
    solver(f"PrimalDual gfirst={_g}", "C14", niter=2, bounds="3x2 operator")(lambda h, g=_g: _pd(h, g))
    solver(f"PrimalDual gfirst={_g} all options", "C14", niter=2, bounds="1x2 operator")(
        lambda h, g=_g: _pd(h, g, (1, 2), y0=True, z=True, theta=True))
    solver(f"PrimalDual gfirst={_g} steps per iteration", "C14", niter=3, bounds="2x1 operator")(
        lambda h, g=_g: _pd(h, g, (2, 1), multi=True, y0=True))
    solver(f"PrimalDual gfirst={_g} identity", "C14", niter=3)(
        lambda h, g=_g: _pd(h, g, (2, 2), alias=True, y0=True, z=True, theta=True))
    solver(f"PrimalDual gfirst={_g} complex", "C14", niter=2, bounds="complex 1x1 operator")(
        lambda h, g=_g: _pd(h, g, (1, 1), cplx=True, y0=True, z=True))


# =============================================================== bilinear (PALM)
def absbil(h, x, y, name="H"):
    """arbitrary coupling function; its partial gradients use the stored other block"""
    Base = h.sub("utils.bilinear").BilinearOperator

    class B(Base):
        def __init__(self):
            super().__init__()
            self.x, self.y, self.sizex, self.sizey = x, y, x.size, y.size

        def __call__(self, x, y=None):
            if y is None:
                x, y = x[: self.sizex], x[self.sizex:]
            return h.uf(name + ".f", [x, y])

        def gradx(self, x):
            return h.uf(name + ".gx", [x, self.y], x.size)

        def grady(self, y):
            return h.uf(name + ".gy", [self.x, y], y.size)

        def grad(self, z):
            return h.uf(name + ".g", [z, self.x, self.y], z.size)

        def lx(self, x):
            v = h.uf(name + ".lx", [x])
            return v * v + 1

        def ly(self, y):
            v = h.uf(name + ".ly", [y])
            return v * v + 1

    return B()


def _palm(h, inertial, f=True, g=True, other=False, nx=2, ny=1):
    x0, y0 = h.vec("x0", nx), h.vec("y0", ny)
    H = absbil(h, h.vec("hx", nx) if other else x0.copy(), h.vec("hy", ny) if other else y0.copy())
    pf, pg = absprox(h, "f") if f else None, absprox(h, "g") if g else None
    gf, gg = h.real("gammaf", pos=True), h.real("gammag", pos=True)
    a = (h.real("a0", lo=0, hi=1), h.real("a1", lo=0, hi=1)) if inertial else (0, 0)

    def L(n_, v):
        w = h.uf(n_, [v])
        return w * w + 1

    def ref(n):
        x, y, xo, yo = x0, y0, x0, y0
        out = []
        for _ in range(n):
            z = lin(h, (1 + a[0], x), (-a[0], xo))
            ck = gf * L("H.ly", y)
            xn = lin(h, (1, z), (-1 / ck, h.uf("H.gx", [z, y], nx)))
            if f:
                xn = P_(h, "f", xn, 1 / ck)
            xo, x = x, xn
            z = lin(h, (1 + a[1], y), (-a[1], yo))
            dk = gg * L("H.lx", x)
            yn = lin(h, (1, z), (-1 / dk, h.uf("H.gy", [x, z], ny)))
            if g:
                yn = P_(h, "g", yn, 1 / dk)
            yo, y = y, yn
            out.append((x, y))
        return out

    def call(niter, **k):
        if inertial:
            k["a"] = a
        fn = h.mod.optimization.palm.iPALM if inertial else h.mod.optimization.palm.PALM
        return fn(H, pf, pg, x0, y0, gammaf=gf, gammag=gg, niter=niter, **k)

    return S(call, ref, [x0, y0], ncb=-2)


for _i in (False, True):
    nm = "iPALM" if _i else "PALM"
    solver(f"{nm}", "C16", niter=2, bounds="blocks of size 2 and 1")(lambda h, i=_i: _palm(h, i))
    solver(f"{nm} no proxf", "C16", niter=2, bounds="blocks of size 2 and 1")(lambda h, i=_i: _palm(h, i, f=False))
    solver(f"{nm} no proxg", "C16", niter=2, bounds="blocks of size 2 and 1")(lambda h, i=_i: _palm(h, i, g=False))
    solver(f"{nm} no prox", "C16", niter=2, bounds="blocks of size 2 and 1")(lambda h, i=_i: _palm(h, i, f=False, g=False))
    solver(f"{nm} factors stored in H differ", "C16", niter=2, bounds="blocks of size 2 and 1")(
        lambda h, i=_i: _palm(h, i, other=True))


# =============================================================== Anderson acceleration
def _anderson(h, n, nhist, multi=False, safeguard=False):
    f, g = absprox(h, "f", grad=True), absprox(h, "g")
    x0, tau = h.vec("x0", n), h.real("tau", pos=True)
    er = h.real("epsr", pos=True, lo=0.125, hi=1)

    def epsg(k):
        return h.vec("eps", k, pos=True) if multi else h.real("eps", pos=True)

    def ref(k):
        e = epsg(k)
        y = lin(h, (1, x0), (-tau, G_(h, "f", x0)))
        x = P_(h, "g", y, (e[0] if multi else e) * tau)
        G = [y]
        R = [lin(h, (1, y), (-1, x0))]
        out = []
        pf = F_(h, "f", x)
        for it in range(k):
            et = (e[it] if multi else e) * tau
            gk = lin(h, (1, x), (-tau, G_(h, "f", x)))
            rk = lin(h, (1, gk), (-1, y))
            G, R = ([gk] + G)[:nhist], ([rk] + R)[:nhist]
            m = len(R)
            ge = [[h.dot(R[i], R[j]) for j in range(m)] for i in range(m)]
            fro = total(ge[i][i] for i in range(m))
            h.assume(fro > 0)
            for i in range(m):
                ge[i][i] = ge[i][i] + er * fro
            inv = h.pinv(h.arr(ge))
            a = [total(inv[i, j] for j in range(m)) for i in range(m)]
            s = total(a)
            h.assume(s > 0)  # the Gram matrix is positive definite
            yt = lin(h, *[(a[i] / s, G[i]) for i in range(m)])
            if not safeguard:
                y, x = yt, P_(h, "g", yt, et)
            else:
                xt = P_(h, "g", yt, et)
                gr = G_(h, "f", x)
                pt = F_(h, "f", xt)
                if pt <= pf - tau * h.sqsum(gr) / 2:
                    y, x, pf = yt, xt, pt
                else:
                    y, x = gk, P_(h, "g", gk, et)
                    pf = F_(h, "f", x)
            out.append((x,))
        return out

    def call(niter, **k):
        if safeguard:
            k["safeguard"] = True
        return h.mod.optimization.primal.AndersonProximalGradient(
            f, g, x0, epsg=epsg(niter), tau=tau, niter=niter, nhistory=nhist, epsr=er, **k)

    return S(call, ref, [x0])


solver("Anderson one iteration n=2", "C12", niter=1, n0=False, validate=False, bounds="n=2, history 2")(lambda h: _anderson(h, 2, 5))
solver("Anderson two iterations history 2", "C12", niter=2, n0=False, validate=False, bounds="n=1, history 2")(lambda h: _anderson(h, 1, 2, multi=True))
solver("Anderson two iterations history 1", "C12", niter=2, n0=False, validate=False, bounds="n=1, history 1")(lambda h: _anderson(h, 1, 1))
solver("Anderson two iterations history 3", "C12", niter=2, n0=False, validate=False, bounds="n=1, history 3")(lambda h: _anderson(h, 1, 3))
solver("Anderson safeguarded history 1", "C12", niter=2, n0=False, validate=False, bounds="n=1, history 1")(lambda h: _anderson(h, 1, 1, safeguard=True))
solver("Anderson safeguarded", "C12", niter=2, n0=False, validate=False, bounds="n=1, history 2")(lambda h: _anderson(h, 1, 2, safeguard=True))


# =============================================================== line search
def backtrack(h, pf, x, gr, prox, cond, tau, beta, n, plan=None):
    """documented line search: the first step of the geometric sequence meeting the bound
    (plan: the functionals are assumed to be such that this is trial number plan)"""
    for i in range(n):
        z = prox(lin(h, (1, x), (-tau, gr)), tau)
        c = cond(z, tau)
        if plan is not None:
            h.assume(c if i == plan else h.Not(c))
            c = i == plan
        if c:
            return z, tau, True
        tau = beta * tau
    return z, tau, False


def descent(h, fz, fx, gr, x, z, tau):
    d = lin(h, (1, z), (-1, x))
    from ._common import rdot

    return fz <= fx + rdot(h.flat(gr), h.flat(d)) + h.sqsum(d) / (2 * tau)


def _pgbt(h, acc=None, eta=False, given=True, n=1, nb=2, cplx=False, multi=False, plan=None):
    f, g = absprox(h, "f", grad=True), absprox(h, "g")
    x0 = h.vec("x0", n, cplx=cplx)
    tau0 = h.real("tau", pos=True) if given else 1
    beta = h.real("beta", lo=0.1, hi=0.9) if plan is None else h.num(0.5)
    epsg = (lambda k: h.vec("epss", k, pos=True)) if multi else (lambda k: h.real("eps", pos=True))
    et = h.real("eta", lo=0.1, hi=0.9) if eta else 1

    def ref(k):
        om = omegas(h, acc, k)
        x = y = x0
        tau = tau0
        out = []
        for i in range(k):
            eps = epsg(k)[i] if multi else epsg(k)
            gr = G_(h, "f", y)
            z, tau, _ = backtrack(
                h, "f", y, gr, lambda v, t: P_(h, "g", v, eps * t),
                lambda z, t: descent(h, F_(h, "f", z), F_(h, "f", y), gr, y, z, t), tau, beta, nb, plan and plan[i])
            xn = lin(h, (1 - et, y), (et, z))
            y = lin(h, (1 + om[i], xn), (-om[i], x))
            x = xn
            out.append((x,))
        return out

    def call(niter, **k):
        if given:
            k.update(tau=tau0, backtracking=True)
        if eta:
            k["eta"] = et
        return h.mod.optimization.primal.ProximalGradient(
            f, g, x0, epsg=epsg(niter), beta=beta, niterback=nb, niter=niter, acceleration=acc, **k)

    return S(call, ref, [x0])


solver("ProximalGradient backtracking weights per iteration", "C15", niter=2, bounds="n=1, 2 trials", also=("C12",))(
    lambda h: _pgbt(h, multi=True))
for _a in (None, "vandenberghe", "fista"):
    solver(f"ProximalGradient backtracking acceleration={_a!r}", "C15", niter=2, bounds="n=1, 2 trials")(
        lambda h, a=_a: _pgbt(h, a))
solver("ProximalGradient backtracking default step", "C15", niter=2, bounds="n=1, 2 trials")(lambda h: _pgbt(h, given=False))
solver("ProximalGradient backtracking relaxed", "C15", niter=2, bounds="n=1, 2 trials")(lambda h: _pgbt(h, "fista", eta=True))
solver("ProximalGradient backtracking complex", "C15", niter=1, bounds="complex n=1, 2 trials")(lambda h: _pgbt(h, cplx=True))
solver("ProximalGradient backtracking one trial", "C15", niter=2, bounds="n=1, 1 trial")(lambda h: _pgbt(h, nb=1))
solver("ProximalGradient backtracking n=2", "C15", niter=1, bounds="n=2, 3 trials")(lambda h: _pgbt(h, n=2, nb=3))


for _a in (None, "vandenberghe", "fista"):
    for _pl in ([0, 3, 0, 12] if _a == "fista" else [0, 3, 0, 12, 1, 0], [9, 0, 2]):
        solver(f"ProximalGradient backtracking trials {_pl} acceleration={_a!r}", "C15", niter=len(_pl), also=("C12",), hist=False, n0=False,
               bounds=f"n=2, at most 12 trials, backtracking factor 1/2, {len(_pl)} iterations accepting trials {_pl} (12: none)")(
            lambda h, a=_a, p=_pl: _pgbt(h, a, n=2, multi=True, nb=12, plan=p))


def _pgbil(h, acc):
    x0 = h.vec("x0", 3)
    H = absbil(h, x0[:2].copy(), x0[2:].copy())
    g = absprox(h, "g")
    tau = h.real("tau", pos=True)

    def ref(n):
        om = omegas(h, acc, n)
        x = y = st = x0
        out = []
        for k in range(n):
            gr = h.uf("H.g", [y, h.arr([st[0], st[1]]), h.arr([st[2]])], 3)
            xn = P_(h, "g", lin(h, (1, y), (-tau, gr)), tau)
            st = xn
            y = lin(h, (1 + om[k], xn), (-om[k], x))
            x = xn
            out.append((x,))
        return out

    return S(lambda niter, **k: h.mod.optimization.primal.ProximalGradient(
        H, g, x0, tau=tau, niter=niter, acceleration=acc, **k), ref, [x0])


solver("ProximalGradient bilinear term", "C12", niter=2, bounds="blocks of size 2 and 1")(lambda h: _pgbil(h, None))
solver("ProximalGradient bilinear term fista", "C12", niter=3, bounds="blocks of size 2 and 1")(lambda h: _pgbil(h, "fista"))


def _palmbt(h, inertial, fb, gb, f=True, g=True, nb=2, plan=None):
    nx = ny = 1 if plan is None else 2
    x0, y0 = h.vec("x0", nx), h.vec("y0", ny)
    H = absbil(h, x0.copy(), y0.copy())
    pf, pg = absprox(h, "f") if f else None, absprox(h, "g") if g else None
    gf = None if fb else h.real("gammaf", pos=True)
    gg = None if gb else h.real("gammag", pos=True)
    a = (h.real("a0", lo=0, hi=1), h.real("a1", lo=0, hi=1)) if inertial else (0, 0)
    beta = h.real("beta", lo=0.1, hi=0.9) if plan is None else h.num(0.5)

    def L(n_, v):
        w = h.uf(n_, [v])
        return w * w + 1

    def ref(n):
        x, y, xo, yo = x0, y0, x0, y0
        tf = tg = 1
        out = []
        pr = lambda k, on: (lambda v, t: P_(h, k, v, t) if on else v)
        for k in range(n):
            pl = plan and plan[k]
            z = lin(h, (1 + a[0], x), (-a[0], xo))
            gr = h.uf("H.gx", [z, y], nx)
            if fb:
                xn, tf, _ok = backtrack(h, "", z, gr, pr("f", f), lambda v, t: descent(
                    h, h.uf("H.f", [v, y]), h.uf("H.f", [z, y]), gr, z, v, t), tf, beta, nb, pl and pl[0])
            else:
                ck = gf * L("H.ly", y)
                xn = pr("f", f)(lin(h, (1, z), (-1 / ck, gr)), 1 / ck)
            xo, x = x, xn
            z = lin(h, (1 + a[1], y), (-a[1], yo))
            gr = h.uf("H.gy", [x, z], ny)
            if gb:
                yn, tg, _ok = backtrack(h, "", z, gr, pr("g", g), lambda v, t: descent(
                    h, h.uf("H.f", [x, v]), h.uf("H.f", [x, z]), gr, z, v, t), tg, beta, nb, pl and pl[1])
            else:
                dk = gg * L("H.lx", x)
                yn = pr("g", g)(lin(h, (1, z), (-1 / dk, gr)), 1 / dk)
            yo, y = y, yn
            out.append((x, y))
        return out

    def call(niter, **k):
        if inertial:
            k["a"] = a
        fn = h.mod.optimization.palm.iPALM if inertial else h.mod.optimization.palm.PALM
        return fn(H, pf, pg, x0, y0, gammaf=gf, gammag=gg, beta=beta, niterback=nb, niter=niter, **k)

    return S(call, ref, [x0, y0], ncb=-2)


for _i in (False, True):
    nm = "iPALM" if _i else "PALM"
    for _fb, _gb, _nm in ((True, False, "first block"), (False, True, "second block")):
        solver(f"{nm} line search {_nm}", "C16", niter=2, bounds="blocks of size 1, 2 trials", also=("C15",))(
            lambda h, i=_i, fb=_fb, gb=_gb: _palmbt(h, i, fb, gb))
        solver(f"{nm} line search {_nm} no prox", "C16", niter=1, bounds="blocks of size 1, 2 trials", also=("C15",))(
            lambda h, i=_i, fb=_fb, gb=_gb: _palmbt(h, i, fb, gb, f=False, g=False))
    for _pl in ([(0, 3), (2, 0), (0, 12), (1, 1)], [(9, 11), (0, 0)]):
        solver(f"{nm} line search trials {_pl}", "C16", niter=len(_pl), also=("C15",), hist=False, n0=False,
               bounds=f"blocks of size 2, at most 12 trials, backtracking factor 1/2, {len(_pl)} iterations accepting trials {_pl} (12: none)")(
            lambda h, i=_i, p=_pl: _palmbt(h, i, True, True, nb=12, plan=p))
    solver(f"{nm} line search both", "C16", niter=1, bounds="blocks of size 1, 2 trials")(
        lambda h, i=_i: _palmbt(h, i, True, True))


# =============================================================== adaptive primal-dual
def _apd(h, shape=(1, 1), z=False, alias=False, defaults=False, tol="sym", plan=None):
    f, g = absprox(h, "f"), absprox(h, "g")
    r, c = shape
    if alias:
        A, K = h.identity_op(c), h.const([[1.0 if i == j else 0.0 for j in range(c)] for i in range(c)])
        r = c
    else:
        K = h.vec("K", (r, c))
        A = h.linop(K, explicit=False)
    x0, tau0, mu0 = h.vec("x0", c), h.real("tau", pos=True), h.real("mu", pos=True)
    zv = h.vec("z", c) if z else None
    if defaults:
        al0, eta, s, de = h.num(0.5), h.num(0.95), 1, h.num(1.5)
        kw = {}
    elif plan is not None:
        al0, eta, s, de = h.num(0.5), h.num(0.75), h.num(0.5), h.num(1.25)
        kw = dict(alpha=al0, eta=eta, s=s, delta=de)
    else:
        al0, eta = h.real("alpha", lo=0.1, hi=0.9), h.real("eta", lo=0.1, hi=0.9)
        s, de = h.real("s", lo=0.5, hi=2), h.real("delta", lo=1, hi=3)
        kw = dict(alpha=al0, eta=eta, s=s, delta=de)

    def tl(k):
        return 0 if tol is None else h.real("tol", lo=0.01, hi=1)

    def ref(n):
        x, y = x0, h.arr([h.num(0)] * r)
        tau, mu, al = tau0, mu0, al0
        t_ = tl(n)
        steps = [(tau, mu, al)]
        out = []
        for k in range(n):
            d = mtv(h, K, y)
            aty = d
            if z:
                d = lin(h, (1, d), (1, zv))
            xn = P_(h, "f", lin(h, (1, x), (-tau, d)), tau)
            ax, axn = mv(h, K, x), mv(h, K, xn)
            yn = PD_(h, "g", lin(h, (1, y), (2 * mu, axn), (-mu, ax)), mu)
            # primal residual: (x - xn)/tau - A'y + A'yn is a subgradient of f + z'x + y'Ax
            p = h.norm(lin(h, (1 / tau, x), (-1 / tau, xn), (-1, aty), (1, mtv(h, K, yn))))
            dd = h.norm(lin(h, (1 / mu, y), (-1 / mu, yn), (-1, ax), (1, axn)))
            if plan is not None:
                h.assume({"up": p > s * dd * de, "down": p < s * dd / de,
                          "none": h.And(p <= s * dd * de, p >= s * dd / de)}[plan[k]])
            if plan[k] == "up" if plan is not None else p > s * dd * de:
                tau, mu, al = tau / (1 - al), mu * (1 - al), al * eta
            elif plan[k] == "down" if plan is not None else p < s * dd / de:
                tau, mu, al = tau * (1 - al), mu / (1 - al), al * eta
            steps.append((tau, mu, al))
            x, y = xn, yn
            out.append((x, steps[:]))
            if p <= t_ or dd <= t_:
                break
        return out

    def final(it):
        if not it:
            return (x0, h.arr([tau0]), h.arr([mu0]), h.arr([al0]))
        x, st = it[-1]
        return (x,) + tuple(h.arr([w[i] for w in st]) for i in range(3))

    def call(niter, **k):
        k.setdefault("tol", tl(niter))
        x, st = h.mod.optimization.primaldual.AdaptivePrimalDual(
            f, g, A, x0, tau0, mu0, z=zv, niter=niter, **kw, **k)
        return (x,) + tuple(st)

    return S(call, ref, [a for a in (x0, zv) if a is not None], final=final)


solver("AdaptivePrimalDual", "C14", also=("C19",), niter=2, bounds="1x1 operator")(lambda h: _apd(h))
solver("AdaptivePrimalDual z defaults", "C14", also=("C19",), niter=1, bounds="1x1 operator")(lambda h: _apd(h, z=True, defaults=True))
solver("AdaptivePrimalDual tall z", "C14", niter=1, bounds="2x1 operator")(lambda h: _apd(h, (2, 1), z=True, tol=None))
solver("AdaptivePrimalDual wide z", "C14", niter=1, bounds="1x2 operator")(lambda h: _apd(h, (1, 2), z=True, tol=None))
for _pl in ("up up up up up down none up".split(), "down down none down up down".split(), "none up down up down none down down".split()):
    solver(f"AdaptivePrimalDual rebalancing {' '.join(_pl)}", "C14", also=("C19",), niter=len(_pl), hist=False, n0=False,
           bounds=f"identity operator on 2 entries, {len(_pl)} iterations")(
        lambda h, p=_pl: _apd(h, (2, 2), z=True, alias=True, tol=None, plan=p))
solver("AdaptivePrimalDual identity z", "C14", niter=2)(lambda h: _apd(h, (1, 1), z=True, alias=True, tol=None))


# =============================================================== Bregman iterations
def _breg(h, inner="pg", warm=False, A=False, inn=1, alpha="sym"):
    """x = argmin f + alpha g - alpha q'x by an inner solver with abstract f and g;
    q <- q - grad f(x) / alpha"""
    n = 2
    f, g = absprox(h, "f", grad=True), absprox(h, "g")
    x0 = h.vec("x0", n)
    al = h.num(1) if alpha is None else h.real("alpha", pos=True)
    tau = h.real("tau", pos=True)
    tolf = h.real("tolf")
    pri = h.mod.optimization.primal
    kw = {} if alpha is None else dict(alpha=al)
    M = None
    if A:
        M = h.vec("A", (1, n))
        kw["A"] = h.linop(M, explicit=False)
        mu = h.real("mu", pos=True)
    if inner == "pg":
        # the package's own solver, in the documented calling convention
        solver_, kws = pri.ProximalGradient, dict(tau=tau, niter=inn)
    elif inner == "admm":
        solver_, kws = pri.ADMM, dict(tau=tau, niter=inn)
    else:
        solver_, kws = pri.LinearizedADMM, dict(tau=tau, mu=mu, niter=inn)

    def tilt(x, t, q):
        """prox of t * (f - alpha q')"""
        return P_(h, "f", lin(h, (1, x), (t * al, q)), t)

    def sub(xs, q):
        x = xs
        if inner == "pg":
            for _ in range(inn):
                gr = lin(h, (1, G_(h, "f", x)), (-al, q))
                x = P_(h, "g", lin(h, (1, x), (-tau, gr)), al * tau)
            return x
        if inner == "admm":
            u, z = [h.num(0)] * n, x
            for _ in range(inn):
                x = tilt(lin(h, (1, z), (-1, u)), tau, q)
                z = P_(h, "g", lin(h, (1, x), (1, u)), al * tau)
                u = lin(h, (1, u), (1, x), (-1, z))
            return x
        Ax = mv(h, M, x)
        z, u = Ax, h.arr([h.num(0)])
        for _ in range(inn):
            r = lin(h, (1, Ax), (-1, z), (1, u))
            x = tilt(lin(h, (1, x), (-mu / tau, mtv(h, M, r))), mu, q)
            Ax = mv(h, M, x)
            z = P_(h, "g", lin(h, (1, Ax), (1, u)), al * tau)
            u = lin(h, (1, u), (1, Ax), (-1, z))
        return x

    def ref(n_):
        x, q, out = x0, h.arr([h.num(0)] * n), []
        for _ in range(n_):
            x = sub(x if warm else x0, q)
            q = lin(h, (1, q), (-1 / al, G_(h, "f", x)))
            h.assume(F_(h, "f", x) >= tolf)
            out.append((x,))
        return out

    def call(niter, **k):
        cb = k.pop("callback", None)
        k.setdefault("tolx", 0)
        k.setdefault("tolf", tolf)
        ref(niter)
        return h.mod.optimization.bregman.Bregman(
            f, g, x0, solver_, niterouter=niter, warm=warm, bregcallback=cb, **kw, **kws, **k)

    return S(call, ref, [x0])


for _w in (False, True):
    _t = "warm" if _w else "cold"
    solver(f"Bregman {_t} ProximalGradient", "C17")(lambda h, w=_w: _breg(h, warm=w))
    solver(f"Bregman {_t} ADMM", "C17")(lambda h, w=_w: _breg(h, "admm", warm=w))
    solver(f"Bregman {_t} LinearizedADMM", "C17", bounds="n=2, 1x2 operator", niter=2)(lambda h, w=_w: _breg(h, "ladmm", warm=w, A=True))
solver("Bregman default alpha", "C17", niter=2)(lambda h: _breg(h, alpha=None))
solver("Bregman two inner iterations", "C17", niter=2)(lambda h: _breg(h, inn=2))
for _w in (False, True):
    solver(f"Bregman {'warm' if _w else 'cold'} LinearizedADMM two inner iterations", "C17", bounds="n=2, 1x2 operator", niter=2)(
        lambda h, w=_w: _breg(h, "ladmm", warm=w, A=True, inn=2))
solver("Bregman ADMM two inner iterations", "C17", niter=2)(lambda h: _breg(h, "admm", inn=2, warm=True))


# =============================================================== combinations of options, longer runs
def combo(name, prop, niter, bounds, **kw):
    return solver("options: " + name, prop, niter=niter, bounds=bounds, hist=False, **kw)


def _on(*flags):
    return " ".join(n for n, v in flags if v) or "plain"


B_ = (False, True)
for _a in (None, "vandenberghe", "fista"):
    for _e in B_:
        for _m in B_:
            combo(f"ProximalGradient {_a} {_on(('relaxed', _e), ('weights per iteration', _m))}", "C12", 3 if _a == "fista" else 6, "n=2")(
                lambda h, a=_a, e=_e, m=_m: _pg(h, a, e, m))
            for _w in B_:
                combo(f"GeneralizedProximalGradient {_a} {_on(('relaxed', _e), ('epsg per term', _m), ('weights', _w))}", "C12", 4, "n=2, two terms")(
                    lambda h, a=_a, e=_e, m=_m, w=_w: _gpg(h, 2, a, w, e, m))
for _a in ("vandenberghe", "fista"):
    combo(f"AcceleratedProximalGradient {_a} weights per iteration", "C12", 3 if _a == "fista" else 5, "n=2")(lambda h, a=_a: _pg(h, a, multi=True, wrapper=True))
combo("ProximalPoint", "C12", 8, "n=2")(_pp)
combo("GeneralizedProximalGradient three terms", "C12", 4, "n=2")(lambda h: _gpg(h, 3, "fista", True, True, True, nf=3))
for _g in B_:
    for _s in ("x", "z", "xz"):
        combo(f"HQS gfirst={_g} start={_s} tau per iteration", "C13", 5, "n=3")(lambda h, g=_g, s=_s: _hqs(h, g, s, True, n=3))
        combo(f"ADMM gfirst={_g} start={_s}", "C13", 6, "n=2")(lambda h, g=_g, s=_s: _admm(h, g, s))
    for _z in B_:
        combo(f"ADMML2 gfirst={_g} {_on(('z0', _z))}", "C13", 4, "one unknown, 1x1 operator", tol=1e-5)(lambda h, g=_g, z=_z: _admml2(h, g, z))
        combo(f"ADMML2 two rows gfirst={_g} {_on(('z0', _z))}", "C13", 2, "one unknown, 2x1 operator", tol=1e-5)(
            lambda h, g=_g, z=_z: _admml2(h, g, z, (2, 1)))
    for _e in B_:
        combo(f"DouglasRachford gfirst={_g} {_on(('relaxed', _e))}", "C13", 6, "n=2")(lambda h, g=_g, e=_e: _dr(h, g, e))
    for _y in B_:
        for _z in B_:
            for _t in B_:
                for _m in ("", "t", "m", "tm"):
                    combo(f"PrimalDual gfirst={_g} {_on(('y0', _y), ('z', _z), ('theta', _t), ('tau per iteration', 't' in _m), ('mu per iteration', 'm' in _m))}",
                          "C14", 4, "2x1 operator")(
                        lambda h, g=_g, y=_y, z=_z, t=_t, m=_m: _pd(h, g, (2, 1), y, z, t, m))
for _z in B_:
    combo(f"LinearizedADMM {_on(('z0', _z))}", "C13", 4, "2x1 operator")(lambda h, z=_z: _ladmm(h, z, (2, 1)))
for _s in ("one", "2d", "list"):
    for _w in (None, "array", "list"):
        for _e in B_:
            combo(f"PPXA start={_s} weights={_w} {_on(('relaxed', _e))}", "C13", 3, "n=2, two terms")(
                lambda h, s=_s, w=_w, e=_e: _ppxa(h, 2, s, w, e, tol=None))
combo("PPXA four terms", "C13", 3, "n=1")(lambda h: _ppxa(h, 4, "list", "array", True, n=1, tol=None))
combo("ConsensusADMM", "C13", 5, "n=2, two terms")(lambda h: _cadmm(h, 2, 2, tol=None))
combo("ConsensusADMM four terms", "C13", 3, "n=1")(lambda h: _cadmm(h, 4, 1, tol=None))
combo("TwIST", "C13", 5, "1x2 operator")(lambda h: _twist(h, "given", cost=True))
for _i in B_:
    combo(f"{'iPALM' if _i else 'PALM'}", "C16", 4, "blocks of size 2 and 1")(lambda h, i=_i: _palm(h, i))
