"""C17: SR3 and segmentation (Bregman iterations are in _solvers.py)."""

from symx.harness import ob

from ._common import total
from ._solvers import lin, mtv, mv

P = "C17"


# ------------------------------------------------------------------ SR3
def _ls(h, K, L, kappa, d, v):
    """argmin 1/2|Kx-d|^2 + kappa/2|Lx-v|^2 for one or two unknowns"""
    n = K.shape[1]
    N = [[total(K[i, a] * K[i, b] for i in range(K.shape[0])) + kappa * total(L[i, a] * L[i, b] for i in range(L.shape[0]))
          for b in range(n)] for a in range(n)]
    r = [total(K[i, a] * d[i] for i in range(K.shape[0])) + kappa * total(L[i, a] * v[i] for i in range(L.shape[0])) for a in range(n)]
    if n == 1:
        h.assume(N[0][0] > 0)
        return h.arr([r[0] / N[0][0]])
    det = N[0][0] * N[1][1] - N[0][1] * N[1][0]
    h.assume(det > 0)
    return h.arr([(N[1][1] * r[0] - N[0][1] * r[1]) / det, (N[0][0] * r[1] - N[1][0] * r[0]) / det])


def _shrink(h, t, lam):
    out = []
    for e in h.flat(t):
        out.append(e - lam if e > lam else (e + lam if e < -lam else h.num(0)))
    return h.arr(out)


def _sr3ref(h, K, L, d, kappa, eps, n, x0=None, lsq=None):
    v = h.arr([h.num(0)] * L.shape[0])
    w, th, x = v, 1, x0
    out = []
    for _ in range(n):
        x = lsq(x, v) if lsq else _ls(h, K, L, kappa, d, v)
        out.append(x)
        wo, w = w, _shrink(h, mv(h, L, x), eps / kappa)
        nw = h.norm(w)
        if h.norm(h.arr([a - b for a, b in zip(h.flat(v), h.flat(w))])) / (nw if nw > 1 else 1) < 1e-6:
            break
        th = 2 / (1 + h.sqrt(1 + 4 / th**2))
        v = lin(h, (1, w), (1 - th, w), (th - 1, wo))
    return out


def _pars(h, m, n, p, const=None, free=True):
    k = h.real("k", pos=True) if free else h.num(1.5)
    eps = h.real("eps", pos=True) if free else h.num(0.5)
    if const:
        K, L = h.const(const[0]), h.const(const[1])
    else:
        K, L = h.vec("K", (m, n)), h.vec("L", (p, n))
    return K, L, k * k, eps, h.vec("d", K.shape[0])


def _sr3(h, m, n, p, outer, const=None, x0=False, free=True, again=False, **kw):
    K, L, kappa, eps, d = _pars(h, m, n, p, const, free)
    ref = _sr3ref(h, K, L, d, kappa, eps, outer)
    xs = h.vec("x0", K.shape[1]) if x0 else None
    snap = h.snapshot(d, K, L, *([xs] if x0 else []))
    call = lambda: h.mod.optimization.sr3.SR3(h.linop(K, explicit=False), h.linop(L, explicit=False), d, kappa, eps,
                                              x0=xs, iter_lim_outer=outer, **kw)
    x = call()
    h.unchanged(snap, "caller's array")
    h.eq(x, ref[-1], f"iterate {outer}", tol=1e-5)
    if again:
        h.eq(call(), ref[-1], "second call", tol=1e-5)
        h.unchanged(snap, "caller's array after a second call")
    h.observe("x", x)


ob(P, "SR3 plain least squares", bounds="1 unknown, 2x1 operator, 1x1 regulariser, 1 outer iteration", tol=2e-4)(
    lambda h: _sr3(h, 2, 1, 1, 1, adaptive=False, iter_lim_inner=50))
ob(P, "SR3 plain two iterations", bounds="fixed 1x1 operators, 2 outer iterations", tol=2e-4)(
    lambda h: _sr3(h, 1, 1, 1, 2, const=([[2.0]], [[1.0]]), adaptive=False, x0=True, iter_lim_inner=50))
ob(P, "SR3 plain three iterations", bounds="fixed 1x1 operators, 3 outer iterations", tol=2e-4, tier="thorough")(
    lambda h: _sr3(h, 1, 1, 1, 3, const=([[2.0]], [[1.0]]), adaptive=False, iter_lim_inner=50))
ob(P, "SR3 plain three iterations fixed weights", bounds="fixed 1x1 operators, kappa, eps, 3 outer iterations, all data", tol=2e-4)(
    lambda h: _sr3(h, 1, 1, 1, 3, const=([[2.0]], [[1.0]]), adaptive=False, free=False, iter_lim_inner=50))
ob(P, "SR3 plain n=2", bounds="2x2 operator, 1x2 regulariser, 1 outer iteration", tol=2e-4)(
    lambda h: _sr3(h, 2, 2, 1, 1, adaptive=False, iter_lim_inner=200))
ob(P, "SR3 plain n=2 two iterations", bounds="fixed 2x2 operators, 2 outer iterations, all data and parameters", tol=2e-4, tier="thorough")(
    lambda h: _sr3(h, 2, 2, 2, 2, const=([[1.0, 0.5], [0.0, 2.0]], [[1.0, 0.0], [0.0, 1.0]]), adaptive=False, iter_lim_inner=200))
ob(P, "SR3 adaptive one unknown", bounds="1x1 operators, 1 outer iteration", tol=2e-4)(
    lambda h: _sr3(h, 1, 1, 1, 1, iter_lim_inner=1, x0=True))
ob(P, "SR3 adaptive one unknown default start", bounds="fixed 1x1 operators and weights, 1 inner and 2 outer iterations, all data", tol=2e-4, tier="thorough")(
    lambda h: _sr3(h, 1, 1, 1, 2, const=([[2.0]], [[1.0]]), free=False, iter_lim_inner=1))


def _krylov(h, const, outer=1, x0=True):
    """one inner iteration of the adaptive variant is the exact line search along the gradient
    (eps so large that the shrinkage is zero)"""
    K, L = h.const(const[0]), h.const(const[1])
    n = K.shape[1]
    kappa, eps = h.num(2.25), h.num(1000)
    d = h.const([0.5, -1.25]) if x0 else h.vec("d", K.shape[0], lo=-3, hi=3)
    xs = h.vec("x0", n, lo=-3, hi=3) if x0 else h.arr([h.num(0)] * n)

    def step(x, v):
        r = [a - b for a, b in zip(h.flat(d), h.flat(mv(h, K, x)))]
        q = [a - b for a, b in zip(h.flat(v), h.flat(mv(h, L, x)))]
        g = lin(h, (1, mtv(h, K, h.arr(r))), (kappa, mtv(h, L, h.arr(q))))
        den = h.sqsum(mv(h, K, g)) + kappa * h.sqsum(mv(h, L, g))
        h.assume(den > 0.0001)
        return lin(h, (1, x), (h.sqsum(g) / den, g))

    ref = _sr3ref(h, K, L, d, kappa, eps, outer, xs, step)
    x = h.mod.optimization.sr3.SR3(h.linop(K, explicit=False), h.linop(L, explicit=False), d, kappa, eps,
                                   x0=xs if x0 else None, iter_lim_outer=outer, iter_lim_inner=1)
    h.eq(x, ref[-1], "x after one inner iteration", tol=1e-5)
    h.observe("x", x)


ob(P, "SR3 adaptive first Krylov step", bounds="fixed 2x2 operators and data, all starts", tol=2e-4, tier="thorough")(
    lambda h: _krylov(h, ([[1.0, 0.5], [0.0, 2.0]], [[1.0, 0.0], [0.0, 1.0]])))
ob(P, "SR3 adaptive first Krylov step default start", bounds="fixed 2x2 operator, 1x2 regulariser", tol=2e-4)(
    lambda h: _krylov(h, ([[1.0, 0.5], [0.0, 2.0]], [[1.0, -1.0]]), x0=False))


def _sr3exact(h, x0):
    """the inner problem is solved after fewer steps than allowed: operators equal to the
    identity make every right-hand side an eigenvector"""
    n = 2
    k, eps = 1, h.real("eps", pos=True)
    I = [[1.0, 0.0], [0.0, 1.0]]
    K = h.const(I)
    d, t = h.vec("d", n), h.real("t", lo=-1, hi=1)
    kappa = h.num(k)
    lo = h.identity_op(n)
    xs = h.arr([t * d[0] / 2, t * d[1] / 2]) if x0 else None
    x = h.mod.optimization.sr3.SR3(lo, lo, d, kappa, eps, x0=xs, iter_lim_outer=1, iter_lim_inner=2)
    h.eq(x, _ls(h, K, K, kappa, d, h.arr([h.num(0)] * n)), "least squares solution", tol=1e-5)
    h.observe("x", x)


def _twosteps(h, const, d, inner, eps, outer=1, n=2):
    """as many inner iterations as unknowns: each outer iteration solves its least squares problem"""
    K, L = h.const(const[0]), h.const(const[1])
    s = h.real("s", lo=0.2, hi=20)
    dd = h.arr([s * h.num(v) for v in d])
    kappa = h.num(1)
    ref = _sr3ref(h, K, L, dd, kappa, eps * s, outer)
    x = h.mod.optimization.sr3.SR3(h.linop(K, explicit=False), h.linop(L, explicit=False), dd, kappa, eps * s,
                                   iter_lim_outer=outer, iter_lim_inner=inner)
    h.eq(x, ref[-1], "least squares solution", tol=1e-5)
    h.observe("x", x)


for _d in ([3.0, 1.0], [-1.0, 2.0]):
    for _i in (2, 20):
        ob(P, f"SR3 adaptive full Krylov space data={_d} inner={_i}", tol=2e-4,
           bounds="fixed diagonal 2x2 operator, identity regulariser, data and weight scaled by s in [.2, 20]")(
            lambda h, d=_d, i=_i: _twosteps(h, ([[1.0, 0.0], [0.0, 2.0]], [[1.0, 0.0], [0.0, 1.0]]), d, i, h.num(1000)))
ob("C08", "SR3 plain twice", bounds="fixed 1x1 operators, 1 outer iteration, two calls", tol=2e-4)(
    lambda h: _sr3(h, 1, 1, 1, 1, const=([[2.0]], [[1.0]]), adaptive=False, x0=True, again=True, iter_lim_inner=50))
ob("C08", "SR3 adaptive twice", bounds="fixed 1x1 operators, 1 outer iteration, two calls", tol=2e-4)(
    lambda h: _sr3(h, 1, 1, 1, 1, const=([[2.0]], [[1.0]]), x0=True, again=True, iter_lim_inner=1))

for _x in (False, True):
    ob(P, f"SR3 adaptive exact inner solution x0={_x}", bounds="n=2 identity operators, 2 inner iterations, any data (also zero)", tol=2e-4)(
        lambda h, x=_x: _sr3exact(h, x))


# ------------------------------------------------------------------ segmentation
def _simp2(h, a, b):
    """projection of (a, b) on the unit simplex"""
    t = (a - b + 1) / 2
    t = h.num(0) if t <= 0 else (h.num(1) if t >= 1 else t)
    return t, 1 - t


def _clip(h, v, r):
    return r if v > r else (-r if v < -r else v)


def _segment(h, dims, niter, x0=False, z=False, cls=False, interior=(), fixed=True, small=True):
    """two classes, two pixels that differ along the last axis"""
    npx = 2
    if fixed:
        y, cl = h.const([0.25, 1.5]), h.const([0.0, 1.0])
    else:
        y, cl = h.vec("y", npx), h.vec("c", 2)
    alpha = h.real("alpha", pos=True) if niter == 1 else h.num(0.1)
    sigma = h.num(0.7) if fixed and not cls else h.real("sigma", pos=True)
    cs = h.vec("cs", 2, pos=True) if cls else None
    zv = h.arr(list(h.flat(h.vec("z", npx, lo=-3, hi=3))) + [h.num(0)] * npx) if z else None
    xs = h.arr([h.num(0)] * (2 * npx))
    if x0:
        pr = list(h.flat(h.vec("x0", npx, lo=0, hi=1)))
        xs = h.arr(pr + [1 - v for v in pr])
    if fixed:
        h.assume(h.And(sigma < 4, alpha < 4))
    if cls:
        h.assume(h.And(cs[0] > 0.2, cs[1] > 0.2))
    mu = h.num(1) / (4 * len(dims))
    g = [[sigma / 2 * (y[p] - cl[c]) ** 2 / (cs[c] if cls else 1) + (zv[c * npx + p] if z else 0)
          for p in range(npx)] for c in range(2)]
    x = [[xs[c * npx + p] for p in range(npx)] for c in range(2)]
    bar, dual = x, [h.num(0), h.num(0)]
    its = []
    for it in range(niter):
        dual = [_clip(h, dual[c] + mu * (bar[c][1] - bar[c][0]), alpha / 2) for c in range(2)]
        u = [[x[c][0] + dual[c] - g[c][0], x[c][1] - dual[c] - g[c][1]] for c in range(2)]
        for p in range(npx):
            if small:  # the bracket of the simplex multiplier need not grow (C03 covers the rest)
                a, b = u[0][p], u[1][p]
                h.assume(h.And(a >= -1, a <= 1, b >= -1, b <= 1, a + b >= -1))
            if p in interior:  # probabilities not clipped, the likelier class given
                t = (u[0][p] - u[1][p]) * (1 - 2 * interior[p])
                h.assume(h.And(t > 0, t < 1))
        new = [_simp2(h, u[0][p], u[1][p]) for p in range(npx)]
        xn = [[new[p][c] for p in range(npx)] for c in range(2)]
        bar = [[2 * a - b for a, b in zip(xn[c], x[c])] for c in range(2)]
        x = xn
        its.append(x)
    seen = []
    snap = h.snapshot(y, cl, *[a for a, c in ((xs, x0), (zv, z), (cs, cls)) if c])
    kw = {}
    if cls:
        kw["clsigmas"] = cs
    if z:
        kw["z"] = zv
    if x0:
        kw["x0"] = xs
    r, lab = h.mod.optimization.segmentation.Segment(
        y.reshape(dims), cl, sigma, alpha, niter=niter, callback=lambda v: seen.append(list(h.flat(v))), **kw)
    h.unchanged(snap, "caller's array")
    h.claim(tuple(r.shape) == (npx, 2), "one row of probabilities per pixel")
    h.claim(tuple(lab.shape) == tuple(dims), "labels have the shape of the image")
    want = [x[c][p] for p in range(npx) for c in range(2)]
    h.eq(r, h.arr(want), f"probabilities after {niter} iterations")
    h.observe("x", r)
    labs = [int(v) for v in h.flat(lab)]
    for p in range(npx):
        for c in range(2):
            h.le(r[p, c], r[p, labs[p]], "label of the most probable class", tol=1e-7)
    h.claim(len(seen) == niter, "one callback per iteration")
    if seen:
        h.eq(h.arr(seen[-1]), h.arr([r[p, c] for c in range(2) for p in range(npx)]), "last callback is the result")
    for k in range(min(niter - 1, len(seen))):
        h.eq(h.arr(seen[k]), h.arr([its[k][c][p] for c in range(2) for p in range(npx)]), f"iterate {k + 1}")


def _seg(name, bounds, dims, niter, tier="quick", prop=P, **kw):
    ob(prop, "Segment " + name, bounds=f"{'x'.join(map(str, dims))} image, 2 classes, {niter} iteration(s), {bounds}", tol=1e-5,
       tier=tier, max_time=100 if niter > 1 else 60)(lambda h: _segment(h, dims, niter, **kw))


B = {0: 0, 1: 1}
_seg("2-D data term", "all images, centres, weights; pixel 2 not clipped", (1, 2), 1, fixed=False, interior={1: 0})
_seg("2-D data term pixel 2", "all images, centres, weights; pixel 1 not clipped", (1, 2), 1, fixed=False, interior={0: 0})
_seg("2-D start", "fixed image, all starts; probabilities not clipped", (1, 2), 1, x0=True, interior=B)
_seg("2-D start clipped", "fixed image, all starts; pixel 2 not clipped", (1, 2), 1, x0=True, interior={1: 1})
_seg("2-D z", "fixed image, all additional vectors; pixel 2 not clipped", (1, 2), 1, z=True, interior={1: 1})
_seg("2-D class deviations", "fixed image, all deviations", (1, 2), 1, cls=True)
_seg("2-D two iterations", "fixed image, all additional vectors; probabilities not clipped", (1, 2), 2, z=True, interior=B)
_seg("2-D three iterations", "fixed image; probabilities not clipped", (1, 2), 3, "thorough", z=True, interior=B)
_seg("2x1", "fixed image, all starts; probabilities not clipped", (2, 1), 1, x0=True, interior=B)
_seg("3-D", "fixed image, all starts; probabilities not clipped", (1, 1, 2), 1, x0=True, interior=B)
_seg("3-D two iterations", "fixed image; probabilities not clipped", (1, 1, 2), 2, "thorough", z=True, interior=B)
_seg("2-D everything", "all images and weights", (1, 2), 1, "thorough", fixed=False)
_seg("2-D start everything", "fixed image, all starts and additional vectors", (1, 2), 1, "thorough", x0=True, z=True, small=False)
_seg("2-D two iterations everything", "fixed image, all additional vectors", (1, 2), 2, "thorough", z=True)
_seg("start", "fixed image, all starts", (1, 2), 1, prop="C08", x0=True, interior=B)
_seg("additional vector", "fixed image, all additional vectors", (1, 2), 1, prop="C08", z=True, interior=B)
_seg("class deviations", "fixed image, all deviations", (1, 2), 1, prop="C08", cls=True, interior=B)
