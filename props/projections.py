"""C03 projections, C04 indicators."""

import itertools

from symx.harness import ob

from ._common import nearest, rdot, total, absub

P, I = "C03", "C04"


def member(h, f, p, inner=None, label="projection is a member"):
    """f(p) up to rounding: concretely a point moved by 1e-9 towards the inside counts"""
    r = f(p.copy())
    if not h.sym and not r and inner is not None:
        r = f(inner(p))
    h.claim(r, label)


# ---------------------------------------------------------------- box
def _box(h, kind):
    x = h.vec("x", 2)
    z = h.vec("z", 2)
    if kind == "scalar":
        lo, up = h.real("lo"), h.real("up")
        h.assume(lo <= up)
        b = h.mod.projection.BoxProj(lo, up)
        f = h.mod.Box(lo, up)
        lov, upv = [lo, lo], [up, up]
    elif kind == "array":
        lo, up = h.vec("lo", 2), h.vec("up", 2)
        h.assume(h.And(lo[0] <= up[0], lo[1] <= up[1]))
        b = h.mod.projection.BoxProj(lo, up)
        f = h.mod.Box(lo, up)
        lov, upv = lo, up
    elif kind == "lower array":
        lo = h.vec("lo", 2)
        b, f = h.mod.projection.BoxProj(lower=lo), h.mod.Box(lower=lo)
        lov, upv = lo, None
    elif kind == "upper array":
        up = h.vec("up", 2)
        b, f = h.mod.projection.BoxProj(upper=up), h.mod.Box(upper=up)
        lov, upv = None, up
    elif kind == "lower array, upper scalar":
        lo, up = h.vec("lo", 2), h.real("up")
        h.assume(h.And(lo[0] <= up, lo[1] <= up))
        b, f = h.mod.projection.BoxProj(lo, up), h.mod.Box(lo, up)
        lov, upv = lo, [up, up]
    elif kind == "lower scalar, upper array":
        lo, up = h.real("lo"), h.vec("up", 2)
        h.assume(h.And(lo <= up[0], lo <= up[1]))
        b, f = h.mod.projection.BoxProj(lo, up), h.mod.Box(lo, up)
        lov, upv = [lo, lo], up
    elif kind == "lower":
        lo = h.real("lo")
        b = h.mod.projection.BoxProj(lower=lo)
        f = h.mod.Box(lower=lo)
        lov, upv = [lo, lo], None
    else:
        up = h.real("up")
        b = h.mod.projection.BoxProj(upper=up)
        f = h.mod.Box(upper=up)
        lov, upv = None, [up, up]
    ins = []
    for i in range(2):
        for v in (z,):
            if lov is not None:
                ins.append(z[i] >= lov[i])
            if upv is not None:
                ins.append(z[i] <= upv[i])
    inside = h.And(*ins)
    t1, t2 = h.real("t1", pos=True), h.real("t2", pos=True)
    p = b(x.copy())
    h.observe("p", p)
    h.eq(f.prox(x.copy(), t1), p, "prox is the projection")
    h.eq(f.prox(x.copy(), t2), p, "prox is the projection (other step)")
    h.claim(f(p), "projection is a member")
    r = f(z)
    h.claim(r if inside else not r, "indicator")
    if inside:
        nearest(h, x, p, z)
        h.eq(b(z.copy()), z, "members unchanged")


for _k in ("scalar", "array", "lower", "upper", "lower array", "upper array", "lower array, upper scalar", "lower scalar, upper array"):
    for _p in (P, I):
        ob(_p, f"Box {_k}", bounds="n=2; all x, z, bounds, steps")(lambda h, k=_k: _box(h, k))


# ---------------------------------------------------------------- halfspace
def _half(h):
    n = 2
    w, x, z = h.vec("w", n), h.vec("x", n), h.vec("z", n)
    b = h.real("b")
    h.assume(h.sqsum(w) > 0)
    pr = h.mod.projection.HalfSpaceProj(w, b)
    f = h.mod.HalfSpace(w, b)
    p = pr(x.copy())
    h.observe("p", p)
    h.le(h.dot(w, p), b, "projection satisfies the constraint")
    for t in ("t1", "t2"):
        h.eq(f.prox(x.copy(), h.real(t, pos=True)), p, f"prox is the projection {t}")
    if h.sym:
        h.claim(f(p), "projection is a member")
    inside = h.dot(w, z) <= b
    r = f(z)
    h.claim(r if inside else not r, "indicator")
    if inside:
        nearest(h, x, p, z)
        h.eq(pr(z.copy()), z, "members unchanged")


for _p in (P, I):
    ob(_p, "HalfSpace n=2", bounds="n=2; all x, z, w!=0, b, steps")(_half)


# ---------------------------------------------------------------- Euclidean ball
def _eball(h, n, kind, zero=False):
    r = h.num(0) if zero else h.real("r", pos=True)
    if n == 1:
        d = [h.real("d")]
        rho = abs(d[0])
    else:
        c, s = h.unit2("u")
        rho = h.real("rho", nonneg=True)
        d = [rho * c, rho * s]
    cen = h.vec("c", n) if kind == "array" else h.real("c")
    cv = [cen[i] if kind == "array" else cen for i in range(n)]
    x = h.arr([d[i] + cv[i] for i in range(n)])
    pr = h.mod.projection.EuclideanBallProj(cen, r)
    f = h.mod.EuclideanBall(cen, r)
    p = pr(x.copy())
    h.observe("p", p)
    q = [p[i] - cv[i] for i in range(n)]
    h.le(h.sqsum(q), r * r, "projection inside the ball")
    h.eq(p, x if rho <= r else [cv[i] + d[i] * r / rho for i in range(n)], "radial projection")
    for t in ("t1", "t2"):
        h.eq(f.prox(x.copy(), h.real(t, pos=True)), p, f"prox is the projection {t}")
    if h.sym:
        h.claim(f(p), "projection is a member")
    if rho > r * (1 + 1e-9):
        h.claim(not f(x), "outside")
    elif rho < r * (1 - 1e-9):
        h.claim(f(x), "inside")
    z = h.vec("z", n)
    h.assume(h.sqsum([z[i] - cv[i] for i in range(n)]) <= r * r)
    nearest(h, x, p, z)


for _p in (P, I):
    for _n, _k in [(1, "scalar"), (2, "array"), (2, "scalar")]:
        ob(_p, f"EuclideanBall n={_n} {_k} centre", bounds=f"n={_n}; all x, centre, radius>0, z, steps")(
            lambda h, n=_n, k=_k: _eball(h, n, k))
        ob(_p, f"EuclideanBall n={_n} {_k} centre radius=0", bounds=f"n={_n}; all x (also the centre), z, steps")(
            lambda h, n=_n, k=_k: _eball(h, n, k, True))


# ---------------------------------------------------------------- affine set
def _affine(h, m, n, explicit):
    M = h.vec("M", (m, n))
    x, xs = h.vec("x", n), h.vec("s", n)
    if m == 1:
        h.assume(h.sqsum(M) > 0.01)
    b = M @ xs
    Op = h.linop(M, explicit=explicit)
    pr = h.mod.projection.AffineSetProj(Op, b, 200)
    f = h.mod.AffineSet(Op, b, 200)
    p = pr(x.copy())
    h.observe("p", p)
    h.eq(M @ p, b, "projection satisfies the equations")
    # any member is s + (null space); for one row the null space is (-M01, M00)
    k = h.real("k")
    z = h.arr([xs[0] - k * M[0, 1], xs[1] + k * M[0, 0]])
    h.eq(rdot([x[i] - p[i] for i in range(n)], [z[i] - p[i] for i in range(n)]), 0, "nearest", tol=1e-4)
    for t in ("t1", "t2"):
        h.eq(f.prox(x.copy(), h.real(t, pos=True)), p, f"prox is the projection {t}")
    h.claim(f(z), "member accepted")
    res = h.dot(M[0], x) - b[0]
    if abs(res) > 1e-2 * (1 + abs(b[0])):
        h.claim(not f(x), "non-member rejected")


for _p in (P, I):
    for _e in (True, False):
        ob(_p, f"AffineSet 1x2 explicit={_e}", bounds="one equation in two unknowns; all coefficients, right-hand sides, x, members z", tol=1e-4)(
            lambda h, e=_e: _affine(h, 1, 2, e))


# ---------------------------------------------------------------- Hankel
def _hankel(h, m, n):
    X = h.vec("x", (m, n))
    pr = h.mod.projection.HankelProj()
    p = pr(X.copy())
    h.observe("p", p)
    u = h.vec("u", m + n - 1)
    H = h.arr([[u[i + j] for j in range(n)] for i in range(m)])
    for i in range(m - 1):
        for j in range(1, n):
            h.eq(p[i, j], p[i + 1, j - 1], f"anti-diagonal {i}{j}")
    nearest(h, X, p, H)
    h.eq(pr(H.copy()), H, "members unchanged")
    f = h.mod.Hankel((m, n))
    h.claim(f(H.ravel()), "member accepted")
    if m > 1 and n > 1:
        d = h.real("d")
        if abs(d) > 0.01:
            h.assume(abs(u[1]) <= 10)
            W = H.copy()
            W[0, 1] = W[0, 1] + d
            h.claim(not f(W.ravel()), "non-member rejected")
    for t in ("t1", "t2"):
        h.eq(f.prox(X.ravel().copy(), h.real(t, pos=True)), p.ravel(), f"prox is the projection {t}")


for _p in (P, I):
    for _m, _n in [(2, 2), (3, 2), (2, 3), (3, 3), (1, 3)]:
        if (_m, _n) in ((3, 3),) and _p == I:
            continue
        ob(_p, f"Hankel {_m}x{_n}", bounds=f"{_m}x{_n}; all X, all Hankel matrices", tol=1e-5)(
            lambda h, m=_m, n=_n: _hankel(h, m, n))


# ---------------------------------------------------------------- L0 balls
def _l0ball(h, n, k, cplx=False):
    x = h.vec("x", n, cplx=cplx)
    pr = h.mod.projection.L0BallProj(k)
    f = h.mod.L0Ball(k)
    p = pr(x.copy())
    h.observe("p", p)
    nz = 0
    for i in range(n):
        a2 = h.sqsum([h.flat(p)[i]])
        nz = nz + (a2 > 0) * 1
    h.le(nz, k, "at most radius nonzeros")
    # distance: the energy removed is minimal over all supports of size k
    d = h.sqsum([a - b for a, b in zip(h.flat(x), h.flat(p))])
    for S in itertools.combinations(range(n), n - k):
        h.le(d, h.sqsum([h.flat(x)[i] for i in S]), f"nearest w.r.t. dropping {S}")
    if not cplx:
        for i in range(n):
            h.claim(h.Or(h.same(p[i], 0), h.same(p[i], x[i])), f"entry {i} kept or zeroed")
    for t in ("t1", "t2"):
        h.eq(f.prox(x.copy(), h.real(t, pos=True)), p, f"prox is the projection {t}")
    h.claim(f(p), "projection is a member")
    cnt = total((h.sqsum([v]) > 0) * 1 for v in h.flat(x))
    r = f(x)
    h.claim(r if cnt <= k else not r, "indicator")
    if cnt <= k:
        h.eq(p, x, "members unchanged")


for _p in (P, I):
    for _n, _k, _c in [(2, 1, False), (3, 1, False), (3, 2, False), (2, 0, False), (2, 2, False), (2, 1, True)]:
        ob(_p, f"L0Ball n={_n} radius={_k}{' complex' if _c else ''}", bounds=f"n={_n}, radius={_k}; all x")(
            lambda h, n=_n, k=_k, c=_c: _l0ball(h, n, k, c))


def _l10ball(h, m, n, k):
    """columns in polar form, so that their Euclidean lengths are the symbols len_j"""
    cols = [h.real(f"len{j}", nonneg=True) for j in range(n)]
    if m == 1:
        X = h.arr([[h.real(f"x{j}") for j in range(n)]])
        cols = [abs(X[0, j]) for j in range(n)]
    elif m == 2:
        d = [h.unit2(f"u{j}") for j in range(n)]
        X = h.arr([[cols[j] * d[j][i] for j in range(n)] for i in range(2)])
    else:
        # multiples of (1, 2, -2) of length 3 and (4, -4, 7) of length 9
        e = [(1, 2, -2), (4, -4, 7)]
        X = h.arr([[cols[j] * e[j % 2][i] for j in range(n)] for i in range(3)])
        cols = [(3, 9)[j % 2] * cols[j] for j in range(n)]
    pr = h.mod.projection.L10BallProj(k)
    f = h.mod.L10Ball(m, k)
    p = pr(X.copy())
    h.observe("p", p)
    zero = []
    for j in range(n):
        z = h.And(*[p[i, j] == 0 for i in range(m)])
        same = h.And(*[p[i, j] == X[i, j] for i in range(m)])
        h.claim(h.Or(z, same), f"column {j} kept or zeroed")
        zero.append(bool(z))
    h.le(n - sum(zero), k, "at most radius nonzero columns")
    for j in range(n):
        for l in range(n):
            if zero[j] and not zero[l]:
                h.le(cols[j], cols[l], f"shortest columns dropped {j}{l}", tol=1e-9)
    # never drops more than needed
    h.claim(h.Or(sum(1 for z in zero if not z) == k, *[cols[j] == 0 for j in range(n) if zero[j]])
            if k < n else True, "keeps as many as allowed")
    for t in ("t1", "t2"):
        h.eq(f.prox(X.ravel().copy(), h.real(t, pos=True)), p.ravel(), f"prox is the projection {t}")
    h.claim(f(p.ravel().copy()), "projection is a member")
    cnt = total((c > 0) * 1 for c in cols)
    r = f(X.ravel().copy())
    h.claim(r if cnt <= k else not r, "indicator")


for _p in (P, I):
    for _m, _n, _k in [(2, 2, 1), (1, 3, 1), (1, 2, 0), (1, 3, 2), (2, 3, 1), (2, 3, 2), (3, 2, 1), (3, 2, 2), (3, 1, 0)]:
        ob(_p, f"L10Ball {_m}x{_n} radius={_k}", max_time=200 if _n == 3 else 100, tier="thorough" if (_m, _n) == (2, 3) else "quick",
           bounds=f"{_m}x{_n}, radius={_k}; all X" + (" with columns along two fixed directions" if _m == 3 else ""))(
            lambda h, m=_m, n=_n, k=_k: _l10ball(h, m, n, k))


# ---------------------------------------------------------------- hyperplane-box, simplex
def _hyperbox(h, n, kind):
    x = h.vec("x", n, lo=-2, hi=2)
    z = h.vec("z", n)
    kw = dict(xtol=1e-12)
    if kind == "ones":
        c = h.const([1.0] * n)
        lo, up = h.num(0), None
        pr_kw = dict(lower=0)
        s = h.real("s", lo=0.1, hi=2)
    elif kind == "box":
        c = h.const([1.0, 2.0][:n])
        lo, up = h.num(-1), h.num(1)
        pr_kw = dict(lower=-1, upper=1)
        s = h.real("s", lo=-2.5, hi=2.5)
    elif kind == "coeffs":
        c = h.arr([h.num(1), h.real("c1", lo=0.5, hi=2)])
        lo, up = h.num(0), None
        pr_kw = dict(lower=0)
        s = h.real("s", lo=0.1, hi=2)
    else:
        c = h.const([1.0, -1.0])
        lo, up = h.num(-1), h.num(2)
        pr_kw = dict(lower=-1, upper=2)
        s = h.real("s", lo=-2.5, hi=2.5)
    pr = h.mod.projection.HyperPlaneBoxProj(c, s, **pr_kw, **kw)
    p = pr(x.copy())
    h.observe("p", p)
    h.eq(h.dot(c, p), s, "hyperplane", tol=1e-6)
    for i in range(n):
        h.le(lo, p[i], f"lower {i}")
        if up is not None:
            h.le(p[i], up, f"upper {i}")
        h.assume(z[i] >= lo)
        if up is not None:
            h.assume(z[i] <= up)
    h.assume(h.dot(c, z) == s) if h.sym else h.assume(abs(h.dot(c, z) - s) < 1e-7)
    nearest(h, x, p, z, tol=1e-6)


for _n, _k in [(2, "ones"), (3, "ones"), (2, "box"), (2, "coeffs"), (2, "mixed signs")]:
    ob(P, f"HyperPlaneBox n={_n} {_k}", bounds=f"n={_n}; |x|<=2, all right-hand sides in range, all members z", tol=1e-6, max_time=120)(
        lambda h, n=_n, k=_k: _hyperbox(h, n, k))


@ob(P, "HyperPlaneBox shape", bounds="2x1 and 1x2 inputs keep their shape", tol=1e-6)
def _(h):
    x = h.vec("x", (2, 1), lo=-1, hi=1)
    c = h.const([[1.0], [1.0]])
    pr = h.mod.projection.HyperPlaneBoxProj(c, 1.0, lower=0, xtol=1e-12)
    p = pr(x.copy())
    h.claim(p.shape == (2, 1), "shape")
    q = h.mod.projection.SimplexProj(2, 1.0, xtol=1e-12)(x.ravel().copy())
    h.eq(p.ravel(), q, "same as the flat projection", tol=1e-6)


def _exact_simplex2(h, x, r):
    """projection on {z>=0, z0+z1=r}"""
    a = (x[0] - x[1] + r) / 2
    if a <= 0:
        return [0, r]
    if a >= r:
        return [r, 0]
    return [a, r - a]


@ob(P, "Simplex tolerance", bounds="n=2; any xtol in [1e-6, .2]: result within 2 xtol of the exact projection", tol=1e-7)
def _(h):
    x = h.vec("x", 2, lo=-1, hi=1)
    xtol = h.real("xtol", lo=1e-6, hi=0.2)
    r = h.real("r", lo=0.1, hi=1)
    e = _exact_simplex2(h, x, r)
    for f in (h.mod.projection.SimplexProj(2, r, 100, xtol), ):
        p = f(x.copy())
        for i in range(2):
            h.le(abs(p[i] - e[i]), xtol, f"entry {i}", tol=1e-7)


def _forward(h, nm):
    x = h.vec("x", 2, lo=-1, hi=1)
    h.assume(x[0] >= 0)
    r = h.real("r", lo=0.1, hi=1)
    t = h.real("t", pos=True)
    mk = {"SimplexProj": lambda: h.mod.projection.SimplexProj(2, r, xtol=1e-11),
          "Simplex": lambda: (lambda v: h.mod.Simplex(2, r, xtol=1e-11).prox(v, t)),
          "Simplex dims": lambda: (lambda v: h.mod.Simplex(2, r, dims=(1, 2), xtol=1e-11).prox(v, t)),
          "L1BallProj": lambda: h.mod.projection.L1BallProj(2, r, xtol=1e-11),
          "L1Ball": lambda: (lambda v: h.mod.L1Ball(2, r, xtol=1e-11).prox(v, t))}[nm]()
    if nm.startswith("L1"):
        h.assume(x[1] >= 0)
        e = _exact_simplex2(h, x, r) if x[0] + x[1] > r else list(x)
    else:
        e = _exact_simplex2(h, x, r)
    h.eq(mk(x.copy()), e, nm, tol=1e-9)


for _nm in ("SimplexProj", "Simplex", "Simplex dims", "L1BallProj", "L1Ball"):
    ob(P, f"{_nm} forwards its tolerance", bounds="n=2, xtol=1e-11, x0>=0", tol=1e-9)(lambda h, nm=_nm: _forward(h, nm))


def _simplex(h, engine, dims, axis, mit=60):
    n = 2
    t1, t2 = h.real("t1", pos=True), h.real("t2", pos=True)
    r = h.num(1)
    kw = dict(engine=engine)
    if dims:
        kw.update(dims=dims, axis=axis)
    f = h.mod.Simplex(n, 1.0, xtol=1e-12, **kw)
    shape = dims or (n,)
    x = h.vec("x", shape, lo=-1, hi=1)
    p = f.prox(x.ravel().copy(), t1)
    h.observe("p", p)
    h.claim(p.ndim == 1, "flat output")
    pr = p.reshape(shape)
    rows = [(x, pr)] if not dims else [
        ((x[i], pr[i]) if axis in (1, -1) else (x[:, i], pr[:, i])) for i in range(shape[1 - axis % 2])]
    for k, (xr, prr) in enumerate(rows):
        h.eq(prr, _exact_simplex2(h, xr, r), f"row {k}", tol=1e-6)
    h.eq(f.prox(x.ravel().copy(), t2), p, "step ignored", tol=1e-6)
    h.claim(f(p.copy(), 1e-6), "projection is a member")


for _p in (P, I):
    for _d, _a in [(None, -1), ((2, 2), -1), ((2, 2), 0), ((1, 2), 1), ((2, 1), 0)]:
        ob(_p, f"Simplex numpy dims={_d} axis={_a}", bounds="groups of two; |x|<=1, radius 1", tol=1e-6, max_time=100)(
            lambda h, d=_d, a=_a: _simplex(h, "numpy", d, a))


def _bisected(h, engine, dims, axis, maxit):
    """the in-library bisection: the multiplier is within xtol (or the remaining
    bracket) of the exact one, or the constraint holds within ftol"""
    x = h.vec("x", 2, lo=-1, hi=1)
    xtol, ftol = h.num(0.2), h.num(0.01)
    kw = dict(dims=dims, axis=axis) if dims else {}
    f = h.mod.Simplex(2, 1.0, engine=engine, maxiter=maxit, xtol=0.2, ftol=0.01, **kw)
    p = f.prox(x.copy(), h.real("t", pos=True))
    h.observe("p", p)
    e = _exact_simplex2(h, x, h.num(1))
    w = h.max(xtol, h.num(2) / 2 ** maxit)
    s = p[0] + p[1] - 1
    for i in range(2):
        h.claim(h.Or(abs(p[i] - e[i]) <= w + 1e-7, abs(s) <= ftol + 1e-7), f"accuracy {i}")
        h.le(0, p[i], f"nonnegative {i}")
    # a clipped shift of the input
    h.claim(h.Or(p[0] == 0, p[1] == 0, abs((x[0] - p[0]) - (x[1] - p[1])) <= 1e-7), "common shift")


for _e, _d, _a in [("numba", None, -1), ("numba", (1, 2), 1), ("numba", (2, 1), 0), ("cuda", (1, 2), 1), ("cuda", (2, 1), 0)]:
    ob(P, f"Simplex {_e} dims={_d} axis={_a} bisection", bounds="n=2; |x|<=1, radius 1, xtol=.2, ftol=.01, up to 6 bisections", tol=1e-6, max_time=150, max_paths=6000)(
        lambda h, e=_e, d=_d, a=_a: _bisected(h, e, d, a, 6))
ob(P, "Simplex numba two bisections", bounds="n=2, maxiter=2", tol=1e-6, max_time=100)(
    lambda h: _bisected(h, "numba", None, -1, 2))
ob(P, "Simplex cuda two bisections", bounds="n=2, maxiter=2", tol=1e-6, max_time=100)(
    lambda h: _bisected(h, "cuda", (1, 2), 1, 2))


@ob(P, "Simplex cuda rows", bounds="3 groups of 1 over several blocks: every row is written", tol=1e-6)
def _(h):
    x = h.vec("x", (3, 1), lo=-1, hi=1)
    h.assume(x[0, 0] == 0.3)
    f = h.mod.Simplex(1, 1.0, engine="cuda", dims=(3, 1), axis=1, maxiter=3, xtol=0.5, ftol=0.01)
    f.num_threads_per_blocks = 2
    p = f.prox(x.ravel().copy(), 1.0)
    for i in range(3):
        h.le(abs(p[i] - 1), 0.51, f"row {i}")


@ob(I, "Simplex indicator", bounds="n=2; all x, radius")
def _(h):
    x = h.vec("x", 2)
    r = h.real("r", pos=True)
    f = h.mod.Simplex(2, r)
    s = x[0] + x[1] - r
    res = f(x)
    res4 = f(x, 1e-4)
    neg = h.Or(x[0] < 0, x[1] < 0)
    if neg:
        h.claim(not res, "negative entries rejected")
    elif abs(s) <= 1e-8 * 0.9:
        h.claim(res, "member accepted")
    elif abs(s) > 1e-8 * 1.1 + 1e-12:
        h.claim(not res, "wrong sum rejected")
    if not neg and abs(s) <= 0.9e-4:
        h.claim(res4, "tolerance honoured")
    elif abs(s) >= 1.1e-4:
        h.claim(not res4, "tolerance honoured (outside)")


def _simplexdims(h, axis, low):
    x = h.vec("x", (2, 2), lo=-3, hi=3)
    r = h.real("r", pos=True)
    f = h.mod.Simplex(2, r, dims=(2, 2), axis=axis)
    rows = [x[0], x[1]] if axis == 1 else [x[:, 0], x[:, 1]]
    for i in range(2):
        if not low:
            h.assume(rows[i][0] + rows[i][1] >= r)
    res = f(x.copy(), 1e-4)
    bad = h.Or(*[h.Or(q[0] < 0, q[1] < 0, abs(q[0] + q[1] - r) > 1.1e-4) for q in rows])
    good = h.And(*[h.And(q[0] >= 0, q[1] >= 0, abs(q[0] + q[1] - r) <= 0.9e-4) for q in rows])
    if bad:
        h.claim(not res, "non-member rejected")
    elif good:
        h.claim(res, "member accepted")


for _a in (0, 1):
    ob(I, f"Simplex indicator dims axis={_a}", bounds="2x2, row sums at least the radius")(
        lambda h, a=_a: _simplexdims(h, a, False))
    ob(I, f"Simplex indicator dims axis={_a} low sums", bounds="2x2, any row sums")(
        lambda h, a=_a: _simplexdims(h, a, True))


@ob(I, "Simplex without call", bounds="call=False evaluates to False")
def _(h):
    h.claim(not h.mod.Simplex(2, 1.0, call=False)(h.vec("x", 2)), "disabled evaluation")


# ---------------------------------------------------------------- L1 ball
def _l1ball(h, cplx):
    t1, t2 = h.real("t1", pos=True), h.real("t2", pos=True)
    r = h.real("r", lo=0.1, hi=2)
    if cplx:
        c, s = h.unit2("u")
        a, b = h.real("a", lo=0, hi=2), h.real("b", lo=0, hi=2)
        x = h.arr([a * c + complex(0, 1) * (a * s), b * c + complex(0, 1) * (-b * s)])
        ph = [(c, s), (c, -s)]
    else:
        x = h.vec("x", 2, lo=-2, hi=2)
        h.assume(h.And(x[0] >= 0, x[1] <= 0))
        a, b = abs(x[0]), abs(x[1])
    f = h.mod.L1Ball(2, r, xtol=1e-12)
    p = f.prox(x.copy(), t1)
    h.observe("p", p)
    m = [a, b] if a + b <= r else _exact_simplex2(h, [a, b], r)
    if cplx:
        for i in range(2):
            v = h.flat(p)[i]
            h.eq([v.real, v.imag], [m[i] * ph[i][0], m[i] * ph[i][1]], f"entry {i}", tol=1e-6)
    else:
        for i in range(2):
            h.eq(p[i], m[i] if x[i] >= 0 else -m[i], f"entry {i}", tol=1e-6)
    h.eq(f.prox(x.copy(), t2), p, "step ignored", tol=1e-6)
    h.eq(h.mod.projection.L1BallProj(2, r, xtol=1e-12)(x.copy()), p, "projection", tol=1e-6)
    h.claim(f(p), "projection is a member")
    res = f(x)
    if a + b <= r:
        h.claim(res, "member accepted")
    elif a + b > r + 2e-4:
        h.claim(not res, "non-member rejected")


for _p in (P, I):
    ob(_p, "L1Ball n=2", bounds="n=2, 0<=x0<=2, -2<=x1<=0, radius in [.1,2]", tol=1e-6, max_time=100)(lambda h: _l1ball(h, False))
    ob(_p, "L1Ball n=2 complex", bounds="n=2 complex, magnitudes<=2, conjugate phases", tol=1e-6, max_time=100)(
        lambda h: _l1ball(h, True))


# ---------------------------------------------------------------- pairwise distances
def _inter2(h, n, arrsig):
    x = h.vec("x", (2, n), lo=-3, hi=3)
    sg = h.real("sg", lo=0.05, hi=3)
    S = h.arr([[h.num(0), sg], [h.num(9), h.num(0)]]) if arrsig else sg
    t = h.real("t", pos=True)
    f = h.mod.Intersection(2, n, S, niter=4)
    p = f.prox(x.ravel().copy(), t)
    h.observe("p", p)
    q = p.reshape(2, n)
    for j in range(n):
        a, b = x[0, j], x[1, j]
        d = (a - b)
        if abs(d) <= sg:
            e = [a, b]
        else:
            k = (abs(d) - sg) / 2
            e = [a - k, b + k] if d > 0 else [a + k, b - k]
        h.eq([q[0, j], q[1, j]], e, f"projection {j}", tol=1e-5)
    h.eq(h.mod.projection.IntersectionProj(2, n, S, niter=4)(x.ravel().copy()), p, "projection class")
    h.claim(f(p.copy(), 1e-5), "projection is a member")
    res = f(x.ravel().copy())
    mx = h.And(*[abs(x[0, j] - x[1, j]) <= sg for j in range(n)])
    if mx:
        h.claim(res, "member accepted")
    elif h.Or(*[abs(x[0, j] - x[1, j]) > sg + 1e-6 for j in range(n)]):
        h.claim(not res, "non-member rejected")


for _p in (P, I):
    for _n, _s in [(1, False), (1, True), (2, False)]:
        if _n == 2 and _p == I:
            continue
        ob(_p, f"Intersection k=2 n={_n} array={_s}", bounds=f"two signals of length {_n}; |x|<=3, sigma in [.05,3]", tol=1e-5, max_time=120)(
            lambda h, n=_n, s=_s: _inter2(h, n, s))


def _inter3(h, niter, zero=False):
    """three signals: stated by the dual of Dykstra's scheme (projection certificate)"""
    x = h.vec("x", (3, 1), lo=-3, hi=3)
    s01, s02, s12 = (h.real(k, lo=0.05, hi=3) for k in ("s01", "s02", "s12"))
    S = h.arr([[0, s01, s02], [s01, 0, s12], [s02, s12, 0]])
    p = h.mod.projection.IntersectionProj(3, 1, S, niter=niter, tol=1e-12)(x.ravel().copy())
    h.observe("p", p)
    h.claim(True, "ran")
    # independent sweep
    y = [x[0, 0], x[1, 0], x[2, 0]]
    q = {}
    for _ in range(niter):
        for (i, j), s in zip(((0, 1), (0, 2), (1, 2)), (s01, s02, s12)):
            o = q.get((i, j), 0)
            w = y[j] - y[i] + o
            k = h.max(0, abs(w) - s)
            k = k if w >= 0 else -k
            y[i] = y[i] + (k - o) / 2
            y[j] = y[j] - (k - o) / 2
            q[(i, j)] = k
    h.eq(p, y, "sweep", tol=1e-5)
    h.eq(total(p), x[0, 0] + x[1, 0] + x[2, 0], "mean kept")


for _it, _t in [(1, "thorough"), (2, "thorough")]:
    ob(P, f"Intersection k=3 sweeps={_it}", bounds=f"three scalars, {_it} sweep(s)", tol=1e-5, max_time=200, tier=_t)(
        lambda h, k=_it: _inter3(h, k))


@ob(I, "Intersection without call", bounds="call=False evaluates to False")
def _(h):
    h.claim(not h.mod.Intersection(2, 1, 1.0, call=False)(h.vec("x", 2)), "disabled evaluation")


@ob(I, "Intersection indicator n=2", bounds="three signals of length 2, tolerance argument", max_time=100)
def _(h):
    x = h.vec("x", (3, 2))
    S = h.arr([[0, 1, 2], [1, 0, 3], [2, 3, 0]])
    f = h.mod.Intersection(3, 2, S)
    r = f(x.ravel().copy(), 0.5)
    ok = h.And(*[abs(x[i, c] - x[j, c]) <= S[i, j] + 0.5 for c in range(2) for i, j in ((0, 1), (0, 2), (1, 2))])
    h.claim(r if ok else not r, "indicator")
