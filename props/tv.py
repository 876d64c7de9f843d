"""C21: total variation."""

from fractions import Fraction as Fr

from symx.harness import ob

from ._common import iscx, total

P = "C21"


# ---------------------------------------------------------------- value
def _idx(dims):
    out = [()]
    for d in dims:
        out = [i + (k,) for i in out for k in range(d)]
    return out


def _grads(h, v, dims):
    """forward differences per pixel (zero at the far edge), dict index -> list over dimensions"""
    idx = _idx(dims)
    val = dict(zip(idx, v))
    g = {}
    for i in idx:
        g[i] = []
        for a in range(len(dims)):
            j = i[:a] + (i[a] + 1,) + i[a + 1:]
            g[i].append(val[j] - val[i] if j in val else h.num(0))
    return g


def _tvval(h, v, dims):
    g = _grads(h, v, dims)
    acc = h.num(0)
    for i in _idx(dims):
        acc = acc + h.norm(g[i])
    return acc


def _value(h, dims, none=False, cplx=False):
    n = 1
    for d in dims:
        n *= d
    x = h.vec("x", n, cplx=cplx)
    if len(dims) == 4:  # three free voxels
        x = h.arr([x[i] if i in (0, 1, 4) else h.num(3 * i) for i in range(n)])
    sg = h.real("sg", pos=True)
    f = h.mod.TV(None if none else dims, sigma=sg)
    sn = h.snapshot(x)
    v = f(x)
    h.observe("v", v)
    h.eq(v, sg * _tvval(h, h.flat(x), dims), "sum of gradient magnitudes times sigma", tol=1e-9)
    h.unchanged(sn, "input unchanged")
    c = h.real("c")
    h.eq(f(h.arr([e + c for e in h.flat(x)])), v, "value ignores constants", tol=1e-7)


for _d in [(2,), (3,), (4,), (2, 2), (2, 3), (3, 2), (2, 2, 2), (2, 2, 2, 2)]:
    ob(P, f"TV value {_d}", bounds=f"all signals of shape {_d}, all sigma")(lambda h, d=_d: _value(h, d))
for _d in [(3,), (2, 2)]:
    ob(P, f"TV value {_d} complex", bounds=f"all complex signals of shape {_d}, all sigma")(lambda h, d=_d: _value(h, d, cplx=True))
ob(P, "TV value dims=None", bounds="3 samples, dims=None")(lambda h: _value(h, (3,), none=True))


# ---------------------------------------------------------------- prox: reference iterations
def _fgp(h, x, dims, gam, niter, trule, rtol=None, div=False):
    """Beck-Teboulle dual fast gradient projection for min 1/2||z-x||^2 + gam TV(z)"""
    idx = _idx(dims)
    nd = len(dims)
    x = dict(zip(idx, x))
    L = 4 * nd
    p = {i: [h.num(0)] * nd for i in idx}
    r = {i: [h.num(0)] * nd for i in idx}
    told = Fr(1)
    prev = h.num(0)
    sols = []
    for it in range(niter + 1):
        # sol = x + gam * D^T r
        sol = {}
        for i in idx:
            acc = h.num(0)
            for a in range(nd):
                if i[a] < dims[a] - 1:
                    acc = acc - r[i][a]
                if i[a] > 0:
                    acc = acc + r[i[:a] + (i[a] - 1,) + i[a + 1:]][a]
            sol[i] = x[i] + gam * acc
        sv = [sol[i] for i in idx]
        sols.append(sv)
        if rtol is not None:
            o = h.sqsum([x[i] - sol[i] for i in idx]) / 2 + gam * _tvval(h, sv, dims)
            if o > 1e-10 and abs(o - prev) < rtol * o:
                break
            prev = o
        if it == niter:
            break
        g = _grads(h, sv, dims)
        q = {}
        for i in idx:
            e = [r[i][a] - g[i][a] / (L * gam) for a in range(nd)]
            m2 = h.sqsum(e)
            if m2 <= 1:
                q[i] = e
            else:
                w = h.sqrt(m2)
                q[i] = [v / w for v in e]
        if trule == "half":
            t = told + Fr(1, 2)
        else:
            t = (1 + h.sqrt(1 + 4 * told * told)) / 2
        b = h.num((told - 1) / t)
        r = {i: [q[i][a] + b * (q[i][a] - p[i][a]) for a in range(nd)] for i in idx}
        p, told = q, t
    return sols[-1]


DIRS = [(Fr(3, 5), Fr(4, 5)), (Fr(5, 13), Fr(-12, 13)), (Fr(-8, 17), Fr(15, 17)), (Fr(-4, 5), Fr(-3, 5))]


def _polar(h, dims, d):
    """images with fixed gradient directions (rational norms) and symbolic magnitudes"""
    a, rho, e = h.num(0), h.real("rho", nonneg=True, hi=40), h.real("e", lo=-40, hi=40)
    c, s = DIRS[d]
    X = {(0, 0): a, (1, 0): a + rho * h.num(c), (0, 1): a + rho * h.num(s)}
    if dims == (2, 2):
        X[(1, 1)] = X[(1, 0)] + e
    else:
        k = h.real("k", nonneg=True, hi=40)
        c, s = DIRS[(d + 1) % len(DIRS)]
        if dims == (2, 3):
            X[(1, 1)] = X[(0, 1)] + k * h.num(c)
            X[(0, 2)] = X[(0, 1)] + k * h.num(s)
            X[(1, 2)] = X[(1, 1)] + h.num(20)
        else:
            X[(2, 0)] = X[(1, 0)] + k * h.num(c)
            X[(1, 1)] = X[(1, 0)] + k * h.num(s)
            X[(2, 1)] = X[(1, 1)] + h.num(20)
    return h.arr([X[i] for i in _idx(dims)])


DIRN = {2: (Fr(3, 5), Fr(-4, 5)), 3: (Fr(2, 7), Fr(3, 7), Fr(6, 7)), 4: (Fr(2, 9), Fr(4, 9), Fr(5, 9), Fr(6, 9))}


def _single(h, dims):
    """one symbolic magnitude; the gradient of the first pixel has a fixed direction, the
    other pixels are zero"""
    rho = h.real("rho", nonneg=True, hi=60)
    nd = len(dims)
    X = {i: h.num(0) for i in _idx(dims)}
    for a in range(nd):
        X[tuple(1 if b == a else 0 for b in range(nd))] = rho * h.num(DIRN[nd][a])
    return h.arr([X[i] for i in _idx(dims)])


def _lines(h, dims, ax):
    """one jump along an axis, the same everywhere"""
    e = h.real("e", lo=-40, hi=40)
    return h.arr([e if i[ax] else h.num(0) for i in _idx(dims)])


def _iters(h, dims, niter, sgv=None, bounds=None, rtol=0, dr=None, ax=None):
    n = 1
    for d in dims:
        n *= d
    x = _lines(h, dims, ax) if ax is not None else h.vec("x", n) if sgv is None or len(dims) == 1 else _polar(h, dims, dr) if dr is not None else _single(h, dims)
    gam = h.num(sgv) if sgv is not None else None
    if gam is None:
        sg, tau = h.real("sg", lo=0.05, hi=5), h.real("tau", lo=0.05, hi=5)
    else:
        sg, tau = h.num(Fr(1, 2)), gam * 2

    # the value only enters the stopping test, which rtol=0 disables
    class Flat(h.mod.TV):
        def __call__(self, x):
            return h.num(1000)

    f = (h.mod.TV if rtol else Flat)(dims, sigma=sg, niter=niter, rtol=rtol)
    sn = h.snapshot(x)
    refs = [_fgp(h, h.flat(x), dims, sg * tau, niter, "half", rtol or None)]
    y = f.prox(x, tau)
    h.observe("y", y)
    h.claim(tuple(y.shape) == (n,), "flat result")
    if niter < 2:
        h.eq(y, refs[0], "documented dual iterations", tol=1e-7)
    else:
        # the extrapolation sequence may be (k+1)/2 or Beck-Teboulle's: both are admissible
        if not h.sym:
            import numpy as np

            if not np.allclose(np.asarray(y), refs[0], rtol=1e-6, atol=1e-8):
                refs[0] = _fgp(h, h.flat(x), dims, sg * tau, niter, "fista", rtol or None)
        h.eq(y, refs[0], "documented dual iterations", tol=1e-7)
    h.eq(total(h.flat(y)), total(h.flat(x)), "mean is preserved", tol=1e-7)
    h.unchanged(sn, "input unchanged")


for _d, _n in [((2,), 0), ((2,), 1), ((2,), 2), ((3,), 1), ((3,), 2), ((2, 2), 0)]:
    ob(P, f"TV prox {_d} niter={_n}", bounds=f"all signals of shape {_d}, sigma, tau in [.05, 5], {_n} inner iterations",
       lazy_abs=True, max_time=100, tol=1e-7)(lambda h, d=_d, n=_n: _iters(h, d, n))
for _d, _n in [((2,), 3), ((4,), 1)]:
    ob(P, f"TV prox {_d} niter={_n} unit step", bounds=f"all signals of shape {_d}, sigma=1/2, tau=2, {_n} inner iterations",
       lazy_abs=True, max_time=100, tol=1e-7)(lambda h, d=_d, n=_n: _iters(h, d, n, 1))
for _d in [(2, 2), (2, 3), (3, 2)]:
    for _r in range(4):
        ob(P, f"TV prox {_d} niter=1 direction {_r}", lazy_abs=True, max_time=100, tol=1e-7,
           bounds=f"images of shape {_d} with first-pixel gradient direction {tuple(map(str, DIRS[_r]))}, all magnitudes <= 40, sigma=1/2, tau={4 if _r % 2 else 1}")(
            lambda h, d=_d, r=_r: _iters(h, d, 1, 2 if r % 2 else Fr(1, 2), dr=r))
for _d, _n in [((2, 2), 2), ((2, 2), 3), ((3, 2), 2), ((2, 2, 2), 1), ((2, 2, 3), 1), ((2, 2, 2), 2), ((2, 2, 2, 2), 1)]:
    _th = _n == 3 or (_n == 2 and _d != (2, 2))
    ob(P, f"TV prox {_d} niter={_n} one magnitude", lazy_abs=True, max_time=400 if _th else 100, tol=1e-7,
       tier="thorough" if _th else "quick",
       bounds=f"images of shape {_d} zero but for the neighbours of the first pixel, symbolic magnitude <= 60, sigma=1/2, tau=3/2")(
        lambda h, d=_d, n=_n: _iters(h, d, n, Fr(3, 4)))


for _d, _n in [(d, n) for d in ((2,), (2, 2), (2, 2, 2), (2, 2, 2, 2)) for n in (4, 8)]:
    for _a in range(len(_d)):
        ob(P, f"TV prox {_d} niter={_n} jump along axis {_a}", lazy_abs=True, max_time=100, tol=1e-7, tier="thorough" if _n == 8 and len(_d) > 2 else "quick",
           bounds=f"shape {_d}, one jump |e| <= 40 along axis {_a}, sigma=1/2, tau=3, {_n} inner iterations")(
            lambda h, d=_d, n=_n, a=_a: _iters(h, d, n, Fr(3, 2), ax=a))

# ---------------------------------------------------------------- invariances
def _const(h, dims, niter):
    """constant signals are fixed points, for any number of iterations"""
    n = 1
    for d in dims:
        n *= d
    c, sg, tau = h.real("c"), h.real("sg", pos=True), h.real("tau", pos=True)
    f = h.mod.TV(dims, sigma=sg, niter=niter)
    h.eq(f.prox(h.arr([c] * n), tau), [c] * n, "constant signals are unchanged", tol=1e-9)
    h.eq(f(h.arr([c] * n)), 0, "value of a constant", tol=1e-9)
    h.eq(f.proxdual(h.arr([c] * n), h.num(1)), [0] * n, "dual prox of a constant", tol=1e-9)


for _d in [(2,), (3,), (2, 2), (3, 2), (2, 2, 2), (2, 2, 2, 2)]:
    ob(P, f"TV constant {_d}", lazy_abs=True, bounds=f"all constants of shape {_d}, sigma, tau; 10 iterations")(
        lambda h, d=_d: _const(h, d, 10))


def _product(h, niter, none=False):
    """only sigma*tau matters (stopping test included); constants pass through"""
    d = [h.real("x0", lo=-4, hi=4), h.real("x1", lo=-4, hi=4)]
    sg, tau = h.num(Fr(1, 4)), h.num(2)
    x = h.arr(d)
    a = h.mod.TV(None if none else (2,), sigma=sg, niter=niter, rtol=0.05).prox(x, tau)
    b = h.mod.TV((2,), sigma=h.num(1), niter=niter, rtol=0.05).prox(x, sg * tau)
    h.observe("a", a)
    h.eq(a, b, "prox depends on sigma*tau", tol=1e-7)


ob(P, "TV sigma*tau", lazy_abs=True, tol=1e-7, bounds="2 samples in [-4, 4], sigma*tau=1/2, 3 iterations, rtol=.05", max_time=100)(
    lambda h: _product(h, 3))
ob(P, "TV dims=None prox", lazy_abs=True, tol=1e-7, bounds="2 samples in [-4, 4], 1 iteration")(lambda h: _product(h, 1, True))


def _stop(h, dims, niter):
    """stopping test: relative change of 1/2||x-z||^2 + tau*f(z) below rtol"""
    n = dims[0]
    d = h.real("d", lo=-6, hi=6)
    x = h.arr([h.num(0), d] + [d] * (n - 2))
    sg, tau = h.num(Fr(1, 4)), h.num(2)
    ref = _fgp(h, h.flat(x), dims, sg * tau, niter, "half", Fr(1, 20))
    y = h.mod.TV(dims, sigma=sg, niter=niter, rtol=0.05).prox(x, tau)
    h.observe("y", y)
    h.eq(y, ref, "stops at the documented tolerance", tol=1e-6)


ob(P, "TV stopping (2,)", tol=1e-6, bounds="one jump |d| <= 6, sigma=1/4, tau=2, rtol=.05, 3 iterations", max_time=100)(
    lambda h: _stop(h, (2,), 3))


def _solution(h, niter, tolr):
    """2 samples: the iterates approach the exact prox x -+ min(gamma, |d|/2) sign(d)"""
    x0, d = h.real("x0"), h.real("d", lo=-8, hi=8)
    sg, tau = h.num(Fr(1, 2)), h.num(2)
    y = h.mod.TV((2,), sigma=sg, niter=niter, rtol=0).prox(h.arr([x0, x0 + d]), tau)
    g = h.num(1)
    e = d / 2 if abs(d) <= 2 * g else (g if d > 0 else -g)
    h.le(abs(y[0] - (x0 + e)), tolr, "first sample near the exact prox", tol=1e-9)
    h.le(abs(y[1] - (x0 + d - e)), tolr, "second sample near the exact prox", tol=1e-9)


ob(P, "TV near the exact prox", bounds="2 samples, |jump| <= 8, sigma*tau=1, 6 iterations: within 0.2", max_time=100)(
    lambda h: _solution(h, 6, Fr(1, 5)))
ob(P, "TV close to the exact prox", tier="thorough", bounds="2 samples, |jump| <= 8, sigma*tau=1, 10 iterations: within .05", max_time=300)(
    lambda h: _solution(h, 10, Fr(1, 20)))


def _phase(h, n, niter):
    """complex signals: a common phase and constant pass through"""
    c, s = h.unit2("u")
    v = h.vec("v", n, lo=-6, hi=6)
    k = h.real("k")
    u = c + complex(0, 1) * s
    sg, tau = h.num(Fr(1, 2)), h.num(2)

    class Flat(h.mod.TV):
        def __call__(self, x):
            return h.num(1000)

    f = Flat((n,), sigma=sg, niter=niter, rtol=0)
    a = f.prox(h.arr([u * (v[i] + k) for i in range(n)]), tau)
    b = f.prox(v, tau)
    w = [u * (b[i] + k) for i in range(n)]
    h.eq([e.real for e in h.flat(a)], [e.real for e in w], "common phase and constant pass through (real part)", tol=1e-7)
    h.eq([e.imag for e in h.flat(a)], [e.imag for e in w], "common phase and constant pass through (imaginary part)", tol=1e-7)


for _n, _k in [(2, 1), (2, 2), (3, 1)]:
    ob(P, f"TV complex n={_n} niter={_k}", bounds=f"{_n} complex samples of a common phase plus a constant, {_k} iterations", tol=1e-7,
       lazy_abs=True, max_time=100)(lambda h, n=_n, k=_k: _phase(h, n, k))
