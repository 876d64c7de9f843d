"""Larger arrays (C01, C02, C03, C06, C11, C21): all entries but one are fixed numbers, the
remaining one and a parameter are arbitrary. The obligations with every entry arbitrary stay small;
these look for behaviour that depends on the number of entries, groups, rows or blocks."""

from symx.harness import ob

from ._common import total
from .tv import _tvval

NAMES = {"C01", "C02", "C03", "C04", "C06", "C21"}


def fixed(n, k=7):
    """n distinct numbers of either sign"""
    out = []
    for i in range(n):
        k = (k * 37 + 11) % 101
        out.append((k - 50) / 16 + 0.001 * i)
    return out


def wide(h, n, pos, lo=-4, hi=4, scale=1.0):
    v = [h.num(e * scale) for e in fixed(n)]
    v[pos % n] = h.real("a", lo=lo, hi=hi)
    return v


# ------------------------------------------------------------------ separable functionals
SEP = {
    "L1": ("C01", lambda h, p: lambda n: h.mod.L1(sigma=p)),
    "L1 g": ("C01", lambda h, p: lambda n: h.mod.L1(sigma=p, g=h.arr([h.num(0.25)] * n))),
    "L2": ("C01", lambda h, p: lambda n: h.mod.L2(sigma=p, b=h.arr([h.num(0.5)] * n))),
    "Huber": ("C01", lambda h, p: lambda n: h.mod.Huber(alpha=p)),
    "L0": ("C02", lambda h, p: lambda n: h.mod.L0(sigma=p)),
    "SCAD": ("C02", lambda h, p: lambda n: h.mod.SCAD(p, h.num(3.7))),
    "QuadraticEnvelopeCard": ("C02", lambda h, p: lambda n: h.mod.QuadraticEnvelopeCard(p)),
    "Box": ("C03", lambda h, p: lambda n: h.mod.Box(-p, p)),
}


def _sep(h, name, n, pos):
    mk = SEP[name][1](h, h.num(0.75))
    x = wide(h, n, pos)
    t = h.num(0.5)
    f, f1 = mk(n), mk(1)
    want = [f1.prox(h.arr([e]), t)[0] for e in x]
    h.eq(f.prox(h.arr(x), t), h.arr(want), "proximal point entry by entry")
    h.eq(f.proxdual(h.arr(x), t), h.arr([f1.proxdual(h.arr([e]), t)[0] for e in x]), "dual proximal point entry by entry")
    v = f(h.arr(x))
    vs = [f1(h.arr([e])) for e in x]
    if name == "Box":
        h.claim(bool(v) == all(bool(e) for e in vs), "member exactly when every entry is")
    else:
        h.eq(v, total(vs), "value is the sum over the entries", tol=1e-9)


for _n, (_p, _) in SEP.items():
    ob(_p, f"larger arrays {_n}", bounds="70 entries, one arbitrary in [-4, 4]", tol=1e-9)(lambda h, n=_n: _sep(h, n, 70, 66))


# ------------------------------------------------------------------ groups
def _groups(h, name, nd, ng, pos):
    """L21 and L21_plus_L1 act on the columns of the nd x ng array"""
    p = h.num(0.75)
    mk = (lambda: h.mod.L21(ndim=nd, sigma=p)) if name == "L21" else (lambda: h.mod.L21_plus_L1(sigma=p, rho=h.num(0.25)))
    x = wide(h, nd * ng, pos)
    t = h.num(0.5)
    f = mk()
    r = f.prox(h.arr(x), t)
    d = f.proxdual(h.arr(x), t)
    vs = []
    for j in range(ng):
        g = h.arr([x[i * ng + j] for i in range(nd)])
        h.eq(h.arr([r[i * ng + j] for i in range(nd)]), mk().prox(g.copy(), t), f"group {j}")
        h.eq(h.arr([d[i * ng + j] for i in range(nd)]), mk().proxdual(g.copy(), t), f"dual, group {j}")
        vs.append(mk()(g))
    h.eq(f(h.arr(x)), total(vs), "value is the sum over the groups", tol=1e-9)


for _nd, _ng in ((2, 12), (3, 8), (5, 4)):
    ob("C01", f"larger arrays L21 {_nd}x{_ng}", bounds=f"{_ng} groups of {_nd}, one arbitrary entry", tol=1e-7)(
        lambda h, a=_nd, b=_ng: _groups(h, "L21", a, b, a * b - 2))


def _euclid(h, n):
    x = wide(h, n, n - 2)
    s, t = h.num(1.25), h.real("t", lo=0.1, hi=9)
    f = h.mod.Euclidean(sigma=s)
    nr = h.norm(x)
    h.eq(f(h.arr(x)), s * nr, "value")
    want = [e * (1 - t * s / nr) for e in x] if nr > t * s else [h.num(0)] * n
    h.eq(f.prox(h.arr(x), t), h.arr(want), "proximal point", tol=1e-7)


ob("C01", "larger arrays Euclidean", bounds="12 entries, one arbitrary; any step", tol=1e-7)(lambda h: _euclid(h, 12))


# ------------------------------------------------------------------ sets
def _top(h, keys, k):
    """indices of the k largest keys"""
    idx = list(range(len(keys)))
    out = []
    for _ in range(k):
        b = idx[0]
        for i in idx[1:]:
            if keys[i] > keys[b]:
                b = i
        out.append(b)
        idx.remove(b)
    return set(out)


def _l0(h, n, k, pos):
    x = wide(h, n, pos)
    ab = [abs(e) for e in x]
    for i, e in enumerate(ab):
        if i != pos % n:
            h.assume(abs(e - ab[pos % n]) > 1e-6)
    keep = _top(h, ab, k)
    want = h.arr([x[i] if i in keep else h.num(0) for i in range(n)])
    h.eq(h.mod.projection.L0BallProj(k)(h.arr(x)), want, "largest entries kept")
    h.eq(h.mod.L0Ball(k).prox(h.arr(x), h.num(2)), want, "proximal operator")
    h.claim(h.mod.L0Ball(k)(want), "member")
    h.claim(not h.mod.L0Ball(k - 1)(want), "one entry too many")


def _l10(h, m, n, k, pos):
    x = wide(h, m * n, pos)
    c = [total(x[i * n + j] * x[i * n + j] for i in range(m)) for j in range(n)]
    for j in range(n):
        if j != pos % (m * n) % n:
            h.assume(abs(c[j] - c[pos % (m * n) % n]) > 1e-6)
    keep = _top(h, c, k)
    want = [x[i * n + j] if j in keep else h.num(0) for i in range(m) for j in range(n)]
    h.eq(h.mod.projection.L10BallProj(k)(h.arr(x).reshape(m, n)), h.arr(want).reshape(m, n), "largest columns kept")
    h.eq(h.mod.L10Ball(m, k).prox(h.arr(x), h.num(2)), h.arr(want), "proximal operator")


ob("C03", "larger arrays L0Ball", bounds="9 entries, one arbitrary, radius 4")(lambda h: _l0(h, 9, 4, 5))
ob("C03", "larger arrays L10Ball", bounds="3x6 array, one arbitrary entry, radius 3")(lambda h: _l10(h, 3, 6, 3, 8))


def _half(h, n):
    x = wide(h, n, 3)
    w = [e + 0.2 for e in fixed(n, 23)]
    b = h.real("b", lo=-20, hi=20)
    s = total(wi * xi for wi, xi in zip(w, x))
    w2 = sum(e * e for e in w)
    want = x if s <= b else [xi - wi * (s - b) / w2 for wi, xi in zip(w, x)]
    h.eq(h.mod.projection.HalfSpaceProj(h.const(w), b)(h.arr(x)), h.arr(want), "projection", tol=1e-8)
    h.eq(h.mod.HalfSpace(h.const(w), b).prox(h.arr(x), h.num(3)), h.arr(want), "proximal operator", tol=1e-8)


def _ball(h, n):
    x = wide(h, n, 3)
    c = fixed(n, 23)
    r = h.real("r", lo=0.5, hi=9)
    d = [xi - ci for xi, ci in zip(x, c)]
    nr = h.norm(d)
    want = x if nr <= r else [ci + di * r / nr for ci, di in zip(c, d)]
    h.eq(h.mod.projection.EuclideanBallProj(h.const(c), r)(h.arr(x)), h.arr(want), "projection", tol=1e-7)


def _hankel(h, m, n, pos):
    x = wide(h, m * n, pos)
    want = []
    for i in range(m):
        for j in range(n):
            d = [x[k * n + (i + j - k)] for k in range(m) if 0 <= i + j - k < n]
            want.append(total(d) / len(d))
    h.eq(h.mod.projection.HankelProj()(h.arr(x).reshape(m, n)), h.arr(want).reshape(m, n), "means of the anti-diagonals", tol=1e-9)
    h.eq(h.mod.Hankel((m, n)).prox(h.arr(x), h.num(2)), h.arr(want), "proximal operator", tol=1e-9)
    h.claim(h.mod.Hankel((m, n))(h.arr(want)), "member")


ob("C03", "larger arrays HalfSpace", bounds="12 entries, one arbitrary, any offset in [-20, 20]", tol=1e-8)(lambda h: _half(h, 12))
ob("C03", "larger arrays EuclideanBall", bounds="12 entries, one arbitrary, any radius in [.5, 9]", tol=1e-7)(lambda h: _ball(h, 12))
for _m, _n in ((4, 6), (6, 4), (5, 5), (1, 7), (7, 1), (8, 3)):
    ob("C03", f"larger arrays Hankel {_m}x{_n}", bounds="one arbitrary entry", tol=1e-9)(lambda h, m=_m, n=_n: _hankel(h, m, n, m * n // 2))


def _affine(h, explicit):
    """three equations in five unknowns"""
    M = [fixed(5, 3 + i) for i in range(3)]
    x = wide(h, 5, 2)
    b = h.arr([h.real("b", lo=-3, hi=3), h.num(1), h.num(-0.5)])
    p = h.mod.projection.AffineSetProj(h.linop(h.const(M), explicit=explicit), b, 60)(h.arr(x))
    h.eq(h.const(M) @ p, b, "equations", tol=1e-4)
    # x - p is a combination of the rows: orthogonal to two vectors spanning the null space
    import numpy

    N = numpy.linalg.svd(numpy.array(M))[2][3:]
    for v in N:
        h.eq(total(float(vi) * (xi - pi) for vi, xi, pi in zip(v, x, h.flat(p))), h.num(0), "orthogonal to the null space", tol=1e-4)


ob("C03", "larger arrays AffineSet", bounds="fixed 3x5 operator, one arbitrary entry, one arbitrary right-hand side", tol=1e-4, validate=False)(lambda h: _affine(h, True))


def _simplex(h, dims, axis, pos, engine="numpy", xtol=1e-10, radius=1.5, scale=0.4):
    """rows / columns are projected one by one (optimality conditions of every group)"""
    m, n = dims
    last = axis in (1, -1)
    g = n if last else m
    x = wide(h, m * n, pos, lo=-1, hi=1, scale=scale)
    f = h.mod.Simplex(g, radius, xtol=xtol, ftol=xtol, dims=dims, axis=axis, engine=engine)
    r = f.prox(h.arr(x), h.num(2))
    h.claim(r.shape == (m * n,), "flat output")
    tol = 4 * g * xtol + 1e-9
    for k in range(m if last else n):
        at = [k * n + i if last else i * n + k for i in range(g)]
        got, xs = [r[i] for i in at], [x[i] for i in at]
        h.claim(abs(total(got) - radius) <= tol, f"sum of group {k}")
        on = [i for i in range(g) if got[i] > 0]
        h.claim(bool(on), f"group {k} nonzero")
        d = xs[on[0]] - got[on[0]]
        for i in range(g):
            if i in on:
                h.claim(abs(xs[i] - got[i] - d) <= 1e-9, f"common shift {k},{i}")
            else:
                h.claim(got[i] == 0, f"zero {k},{i}")
                h.claim(xs[i] <= d + 1e-9, f"below the shift {k},{i}")


for _d, _a in (((4, 3), -1), ((4, 3), 0), ((3, 4), 1), ((3, 4), 0), ((70, 2), 1), ((2, 70), 0), ((1, 5), 1), ((5, 1), 0)):
    ob("C03", f"larger arrays Simplex {_d} axis={_a}", bounds="one arbitrary entry in [-1, 1], radius 1.5", tol=1e-6)(
        lambda h, d=_d, a=_a: _simplex(h, d, a, min(7, d[0] * d[1] - 1) if d[0] * d[1] < 100 else 133))
for _e in ("numba", "cuda"):
    for _d, _a in (((3, 4), 1), ((4, 3), 0), ((20, 2), 1), ((2, 20), 0)):
        ob("C03", f"larger arrays Simplex {_e} {_d} axis={_a}", bounds="one arbitrary entry in [-1, 1], radius 1.5, accuracy .05", tol=1e-6)(
            lambda h, e=_e, d=_d, a=_a: _simplex(h, d, a, d[0] * d[1] - 3, engine=e, xtol=0.05))


def _l1(h, n, pos):
    """outside the ball: absolute values all reduced by the same amount, or zeroed"""
    x = wide(h, n, pos)
    r = 3.0
    p = h.mod.L1Ball(n, r, xtol=1e-10).prox(h.arr(x), h.num(2))
    ab = [abs(e) for e in x]
    h.claim(abs(total(abs(e) for e in p) - r) <= 1e-7, "on the sphere")
    on = [i for i in range(n) if p[i] != 0]
    d = ab[on[0]] - abs(p[on[0]])
    for i in range(n):
        if i in on:
            h.claim(p[i] * x[i] > 0, f"sign {i}")
            h.claim(abs(ab[i] - abs(p[i]) - d) <= 1e-9, f"common reduction {i}")
        else:
            h.claim(ab[i] <= d + 1e-9, f"zeroed {i}")


ob("C03", "larger arrays L1Ball", bounds="9 entries, one arbitrary in [-4, 4], radius 3", tol=1e-6)(lambda h: _l1(h, 9, 5))


def _plane(h, n, pos):
    """optimality: x - p = lam c on the free entries, outward at the bounds"""
    x = wide(h, n, pos, scale=0.5)
    c = [e + (0.3 if e > 0 else -0.3) for e in fixed(n, 23)]
    lo, up = [-0.5 - 0.1 * i for i in range(n)], [0.4 + 0.1 * i for i in range(n)]
    p = h.mod.projection.HyperPlaneBoxProj(h.const(c), 0.7, lower=h.const(lo), upper=h.const(up), xtol=1e-11)(h.arr(x))
    h.claim(abs(total(ci * pi for ci, pi in zip(c, p)) - 0.7) <= 1e-7, "hyperplane")
    fr = [i for i in range(n) if h.And(p[i] > lo[i], p[i] < up[i])]
    h.claim(bool(fr), "an entry off its bounds")
    lam = (x[fr[0]] - p[fr[0]]) / c[fr[0]]
    for i in range(n):
        d = x[i] - lam * c[i]
        h.claim(abs(p[i] - h.max(lo[i], h.min(up[i], d))) <= 1e-6, f"clipped shift {i}")


ob("C03", "larger arrays HyperPlaneBox", bounds="7 entries with different bounds and coefficients, one arbitrary in [-4, 4]", tol=1e-6)(lambda h: _plane(h, 7, 5))


# ------------------------------------------------------------------ blocks
def _vstack(h, restr):
    """five blocks of different lengths"""
    x = wide(h, 12, 7)
    t = h.num(0.5)
    fs = [h.mod.L1(sigma=h.num(0.5)), h.mod.L2(sigma=h.num(2)), h.mod.Box(h.num(-1), h.num(1)), h.mod.L0(sigma=h.num(0.5)), h.mod.L1(sigma=h.num(1.5))]
    nn = [3, 1, 4, 2, 2]
    if restr:
        perm = [5, 0, 7, 2, 11, 1, 3, 8, 4, 6, 10, 9]
    else:
        perm = list(range(12))
    cut, k = [], 0
    for n in nn:
        cut.append(sorted(perm[k:k + n]) if restr else perm[k:k + n])
        k += n
    f = h.mod.VStack(fs, restr=[h.restriction(12, c) for c in cut]) if restr else h.mod.VStack(fs, nn=nn)
    want = [None] * 12
    for g, c in zip(fs, cut):
        for i, v in zip(c, h.flat(g.prox(h.arr([x[i] for i in c]), t))):
            want[i] = v
    h.eq(f.prox(h.arr(x), t), h.arr(want), "block by block")


for _r in (False, True):
    ob("C06", f"larger arrays VStack {'index sets' if _r else 'blocks'}", bounds="12 entries in five blocks, one arbitrary")(lambda h, r=_r: _vstack(h, r))


# ------------------------------------------------------------------ total variation
def _tv(h, dims):
    n = 1
    for d in dims:
        n *= d
    x = wide(h, n, n // 2 + 1)
    s = h.num(0.75)
    h.eq(h.mod.TV(dims, sigma=s)(h.arr(x)), s * _tvval(h, x, dims), "value", tol=1e-8)


for _d in ((24,), (4, 5), (5, 4), (3, 4, 2), (2, 3, 2, 3)):
    ob("C21", f"larger arrays TV value {_d}", bounds="one arbitrary sample", tol=1e-8)(lambda h, d=_d: _tv(h, d))
