"""C16: the low-rank bilinear misfit (block Lipschitz constants, products) and PALM run on it."""

from symx.harness import ob

from ._common import rdot, total
from .gradients import _lr
from ._solvers import lin

P = "C16"

for _nm, _a in {
    "2x1 1x1": dict(n=2, k=1, m=1, op=None),
    "1x2 2x1": dict(n=1, k=2, m=1, op=None),
    "1x1 1x2 row operator": dict(n=1, k=1, m=2, op="row"),
    "1x1 1x1 complex operator": dict(n=1, k=1, m=1, op="row", cplx=True),
}.items():
    ob(P, f"low rank value and gradients {_nm}", bounds="sizes as named; all factors, data, operators, directions")(
        lambda h, a=_a: _lr(h, **a))


def _lip(h, n, k, m, which, cplx=False):
    X, Y = h.vec("X", (n, k), cplx=cplx), h.vec("Y", (k, m), cplx=cplx)
    d = h.vec("d", n * m, cplx=cplx)
    H = h.sub("utils.bilinear").LowRankFactorizedMatrix(X.copy(), Y.copy(), d)
    if which == "lx":
        # gradient in y for stored X changes by at most lx(X) times the change of y
        a, b = h.vec("a", k * m, cplx=cplx), h.vec("b", k * m, cplx=cplx)
        g1, g2, L = H.grady(a.copy()), H.grady(b.copy()), H.lx(X.ravel())
    else:
        a, b = h.vec("a", n * k, cplx=cplx), h.vec("b", n * k, cplx=cplx)
        g1, g2, L = H.gradx(a.copy()), H.gradx(b.copy()), H.ly(Y.ravel())
    h.observe("L", L)
    h.claim(L >= 0, "constant is non-negative")
    h.le(h.sqsum(g1 - g2), L * L * h.sqsum(a - b), "gradient change bounded by the constant")
    # and it is the documented one: the Frobenius norm of the Gram matrix
    M = X if which == "lx" else Y.T
    r, c = M.shape
    cj = (lambda v: v.conjugate()) if cplx else (lambda v: v)
    gram = [total(cj(M[t, i]) * M[t, j] for t in range(r)) for i in range(c) for j in range(c)]
    h.eq(L * L, h.sqsum(gram), "documented constant")


def _lipdoc(h, n, k, m, which):
    X, Y = h.vec(f"X{k}", (n, k), cplx=True), h.vec(f"Y{k}", (k, m), cplx=True)
    H = h.sub("utils.bilinear").LowRankFactorizedMatrix(X.copy(), Y.copy(), h.vec(f"d{k}", n * m, cplx=True))
    L, M = (H.lx(X.ravel()), X) if which == "lx" else (H.ly(Y.ravel()), Y.T)
    r, c = M.shape
    gram = [total(M[t, i].conjugate() * M[t, j] for t in range(r)) for i in range(c) for j in range(c)]
    h.claim(L >= 0, "constant is non-negative")
    h.eq(L * L, h.sqsum(gram), "documented constant")


for _w in ("lx", "ly"):
    for _nm, _a in {
        "2x1 1x1": (2, 1, 1), "1x2 2x1": (1, 2, 1), "1x1 1x2": (1, 1, 2), "2x1 1x2": (2, 1, 2)}.items():
        ob(P, f"low rank {_w} {_nm}", bounds="sizes as named; all factors, data and pairs of points", max_time=40)(
            lambda h, a=_a, w=_w: _lip(h, *a, w))
    ob(P, f"low rank {_w} complex", bounds="n=k=m=1 complex")(lambda h, w=_w: _lip(h, 1, 1, 1, w, True))
    ob(P, f"low rank {_w} complex factors", bounds="n=m=2, k=1 and n=m=1, k=2 complex", max_time=60)(lambda h, w=_w: [_lipdoc(h, *a, w) for a in ((2, 1, 2), (1, 2, 1))])
    ob(P, f"low rank {_w} 2x2 2x1", tier="thorough", max_time=120, bounds="n=k=2,m=1")(lambda h, w=_w: _lip(h, 2, 2, 1, w))


@ob(P, "low rank products", bounds="n=2,k=1,m=1; n=m=1")
def _(h):
    B = h.sub("utils.bilinear").LowRankFactorizedMatrix
    X, Y, d = h.vec("X", (2, 1)), h.vec("Y", (1, 1)), h.vec("d", 2)
    H = B(X.copy(), Y.copy(), d)
    x, y = h.vec("x", 2), h.vec("y", 1)
    h.eq(H.matvec(x), [x[0] * Y[0, 0], x[1] * Y[0, 0]], "product with a left factor")
    h.eq(H.matvec(y), [X[0, 0] * y[0], X[1, 0] * y[0]], "product with a right factor")
    Hs = B(Y.copy(), Y.copy(), h.vec("e", 1))
    h.claim(h.raises(NotImplementedError, Hs.matvec, y), "ambiguous product is refused")
    A = h.linop(h.vec("A", (1, 2)))
    Ho = B(X.copy(), Y.copy(), h.vec("e", 1), A)
    h.claim(h.raises(ValueError, Ho.lx, x), "no constant with an operator")
    h.claim(h.raises(ValueError, Ho.ly, y), "no constant with an operator")


def _run(h, inertial, n, k, m, it):
    """PALM on the misfit itself against the block updates written with matrices"""
    X, Y, d = h.vec("X", (n, k)), h.vec("Y", (k, m)), h.vec("d", n * m)
    B = h.sub("utils.bilinear").LowRankFactorizedMatrix
    H = B(X.copy(), Y.copy(), d)
    gf, gg = h.real("gf", pos=True), h.real("gg", pos=True)
    a = (h.real("a0", lo=0, hi=1), h.real("a1", lo=0, hi=1)) if inertial else (0, 0)
    fn = h.mod.optimization.palm.iPALM if inertial else h.mod.optimization.palm.PALM
    kw = dict(a=a) if inertial else {}
    x, y = fn(H, None, None, X.ravel(), Y.ravel(), gammaf=gf, gammag=gg, niter=it, **kw)

    def gradx(x, y):
        r = [[total(x[i * k + t] * y[t * m + j] for t in range(k)) - d[i * m + j] for j in range(m)] for i in range(n)]
        return h.arr([total(r[i][j] * y[t * m + j] for j in range(m)) for i in range(n) for t in range(k)])

    def grady(x, y):
        r = [[total(x[i * k + t] * y[t * m + j] for t in range(k)) - d[i * m + j] for j in range(m)] for i in range(n)]
        return h.arr([total(x[i * k + t] * r[i][j] for i in range(n)) for t in range(k) for j in range(m)])

    def gram(v, r, c, left):
        M = [[v[i * c + j] for j in range(c)] for i in range(r)]
        q = c if left else r
        G = [(total(M[t][i] * M[t][j] for t in range(r)) if left else total(M[i][t] * M[j][t] for t in range(c)))
             for i in range(q) for j in range(q)]
        return h.norm(G)

    xs = xo = h.arr(list(X.ravel()))
    ys = yo = h.arr(list(Y.ravel()))
    for _ in range(it):
        L = gram(ys, k, m, False)
        h.assume(L > 0)
        z = lin(h, (1 + a[0], xs), (-a[0], xo))
        xo, xs = xs, lin(h, (1, z), (-1 / (gf * L), gradx(z, ys)))
        L = gram(xs, n, k, True)
        h.assume(L > 0)
        z = lin(h, (1 + a[1], ys), (-a[1], yo))
        yo, ys = ys, lin(h, (1, z), (-1 / (gg * L), grady(xs, z)))
    h.eq(x, xs, "left factor")
    h.eq(y, ys, "right factor")


for _i in (False, True):
    ob(P, f"{'iPALM' if _i else 'PALM'} on the low-rank misfit", bounds="n=2,k=m=1, one iteration")(
        lambda h, i=_i: _run(h, i, 2, 1, 1, 1))
