"""C05 Moreau decomposition and dual proxes, C06 operator calculus."""

from symx.harness import ob

from ._common import F_, G_, P_, absl, absprox, absub, rdot, total
from ._zoo import ZOO

M5, K6 = "C05", "C06"


# ---------------------------------------------------------------- Moreau, every operator
def _moreau(h, z):
    f, _ = z["make"](h)
    tau = h.real("tau", pos=True)
    x = z["x"](h, "")
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    f2, _ = z["make"](h)
    d = f2.proxdual(x.copy() / tau, 1 / tau)
    h.observe("d", d)
    pf, df, xf = h.flat(p), h.flat(d), h.flat(x)
    h.eq([a + tau * b for a, b in zip(pf, df)], xf, "prox + tau*dual == x", tol=z.get("tol", 0) if not h.sym else 0)


for _n, _z in ZOO.items():
    ob(M5, f"Moreau {_n}", bounds="n=1..4; all x, tau, parameters", tol=_z.get("tol", 1e-6), max_time=60,
       tier="thorough" if _z.get("slow") else "quick")(lambda h, z=_z: _moreau(h, z))


# ---------------------------------------------------------------- defaults on arbitrary operators
@ob(M5, "default dual of an arbitrary prox", bounds="n=2; uninterpreted prox; all x, tau")
def _(h):
    f = absprox(h, "f")
    x, tau = h.vec("x", 2), h.real("tau", pos=True)
    d = f.proxdual(x.copy(), tau)
    p = P_(h, "f", [v / tau for v in x], 1 / tau)
    h.eq(d, [a - tau * b for a, b in zip(x, p)], "definition")
    p = f.prox(x.copy(), tau)
    d = f.proxdual(x / tau, 1 / tau)
    h.eq(p + tau * d, x, "decomposition")


@ob(M5, "default dual, array step", bounds="n=2; uninterpreted prox; one step per entry")
def _(h):
    f = absprox(h, "f")
    x, tau = h.vec("x", 2), h.vec("tau", 2, pos=True)
    d = f.proxdual(x.copy(), tau)
    p = h.uf("f.prox", [x / tau, 1.0 / tau], 2)
    h.eq(d, [x[i] - tau[i] * p[i] for i in range(2)], "definition")


@ob(M5, "default prox of an operator with only a dual", bounds="n=2; uninterpreted dual prox; all x, tau; kwargs forwarded")
def _(h):
    class OnlyDual(h.mod.ProxOperator):
        def __call__(self, x):
            return 0

        def proxdual(self, x, tau, **kw):
            self.kw = kw
            return h.uf("dual", [x, tau], 2)

    f = OnlyDual()
    x, tau = h.vec("x", 2), h.real("tau", pos=True)
    p = f.prox(x.copy(), tau)
    d = h.uf("dual", [[v / tau for v in x], 1 / tau], 2)
    h.eq(p, [a - tau * b for a, b in zip(x, d)], "definition")
    h.eq(p + tau * f.proxdual(x / tau, 1 / tau), x, "decomposition")
    f.prox(x.copy(), tau, flag=3)
    h.claim(f.kw.get("flag") == 3, "keyword arguments forwarded")


@ob(M5, "adjoint swaps prox and dual prox", bounds="n=2; uninterpreted prox; all x, tau")
def _(h):
    f = absprox(h, "f")
    x, tau = h.vec("x", 2), h.real("tau", pos=True)
    g = f.H
    h.eq(g.prox(x.copy(), tau), f.proxdual(x.copy(), tau), "prox of the adjoint")
    h.eq(g.proxdual(x.copy(), tau), f.prox(x.copy(), tau), "dual prox of the adjoint")
    h.eq(g.H.prox(x.copy(), tau), f.prox(x.copy(), tau), "twice")

    class Both(h.mod.ProxOperator):
        def prox(self, x, tau):
            return h.uf("P", [x, tau], 2)

        def proxdual(self, x, tau):
            return h.uf("D", [x, tau], 2)

    k = Both().H
    h.eq(k.prox(x, tau), h.uf("D", [x, tau], 2), "hand-written dual used")
    h.eq(k.proxdual(x, tau), h.uf("P", [x, tau], 2), "hand-written prox used")


# ---------------------------------------------------------------- dual = prox of the conjugate
def _conj(h, name, F):
    """q = prox_{s f*}(y)  <=>  q is a subgradient of f at w=(y-q)/s"""
    z = ZOO[name]
    f, _ = z["make"](h)
    s = h.real("tau", pos=True)
    y = z["x"](h, "")
    q = f.proxdual(y.copy(), s)
    h.observe("q", q)
    yf, qf = h.flat(y), h.flat(q)
    w = [(a - b) / s for a, b in zip(yf, qf)]
    v = h.vec("v", len(yf))
    vf = h.flat(v)
    lhs = F(h, f, w, None) + rdot(qf, [a - b for a, b in zip(vf, w)])
    h.le(lhs, F(h, f, vf, "u"), "dual prox is the prox of the conjugate")


def _Fl1(h, f, w, u):
    a = absl(h, h.arr(w)) if u is None else absub(h, w, u)
    return h.real("sig", pos=True) * total(a)


def _Fnorm(h, f, w, u):
    n = h.norm(w) if u is None else h.normvar(w, u)
    return h.real("sig", pos=True) * n


def _Fhuber(h, f, w, u):
    al = h.real("al", pos=True)
    a = h.norm(w) if u is None else h.normvar(w, u)
    return a - al / 2 if a > al else a * a / (2 * al)


def _Fhuber1(h, f, w, u):
    al = h.real("al", pos=True)
    a = abs(w[0])
    return a - al / 2 if a > al else a * a / (2 * al)


def _Fl2(h, f, w, u):
    return h.real("sig", pos=True) / 2 * h.sqsum(w)


def _Fl2bq(h, f, w, u):
    b, q = h.vec("b", 2), h.vec("q", 2)
    return h.real("sig", pos=True) / 2 * h.sqsum([a - c for a, c in zip(w, b)]) + h.real("al") * h.dot(q, w)


def _Fl1g(h, f, w, u):
    g = h.vec("g", 2)
    return _Fl1(h, f, [a - c for a, c in zip(w, g)], u)


def _Fquad(h, f, w, u):
    b = h.vec("b", 2)
    return (h.real("a", nonneg=True) * w[0] * w[0] + h.real("d", nonneg=True) * w[1] * w[1]) / 2 + h.dot(b, w)


# symbolic re-reads of a name must give the same value: harness inputs are memoised by name
for _n, _F in {"L1": _Fl1, "L1 g": _Fl1g, "Euclidean": _Fnorm, "L21": _Fnorm, "HuberCircular": _Fhuber,
               "Huber": _Fhuber1, "L2": _Fl2, "L2 b q": _Fl2bq, "Quadratic": _Fquad}.items():
    ob(M5, f"conjugate {_n}", bounds="n=1..2; all y, s, test points, parameters", max_time=90)(
        lambda h, n=_n, F=_F: _conj(h, n, F))


@ob(M5, "conjugate Box", bounds="n=2; all bounds, y, s, test points of the box")
def _(h):
    z = ZOO["Box"]
    f, (lo, up) = z["make"](h)
    s, y = h.real("tau", pos=True), h.vec("x", 2)
    q = f.proxdual(y.copy(), s)
    w = [(a - b) / s for a, b in zip(h.flat(y), h.flat(q))]
    v = h.vec("v", 2)
    h.assume(h.And(*[h.And(v[i] >= lo[i], v[i] <= up[i]) for i in range(2)]))
    for i in range(2):
        h.le(lo[i], w[i], "feasible")
        h.le(w[i], up[i], "feasible")
    h.le(rdot(h.flat(q), [a - b for a, b in zip(v, w)]), 0, "normal cone")


# ================================================================ C06
def _same(h, g, x, tau, val, prx, grad=None):
    h.eq(g(x.copy()), val, "value")
    p = g.prox(x.copy(), tau)
    h.observe("p", p)
    h.eq(p, prx, "prox")
    if grad is not None:
        h.claim(g.hasgrad, "gradient offered")
        h.eq(g.grad(x.copy()), grad, "gradient")


@ob(K6, "affine addition", bounds="n=2; uninterpreted functional; all x, v, tau")
def _(h):
    f = absprox(h, "f", grad=True)
    x, v, tau = h.vec("x", 2), h.vec("v", 2), h.real("tau", pos=True)
    for g in (f + v, f.affine_addition(v)):
        _same(h, g, x, tau, F_(h, "f", x) + h.dot(v, x),
              P_(h, "f", [x[i] - tau * v[i] for i in range(2)], tau),
              [a + b for a, b in zip(G_(h, "f", x), v)])
    g = f - v
    _same(h, g, x, tau, F_(h, "f", x) - h.dot(v, x),
          P_(h, "f", [x[i] + tau * v[i] for i in range(2)], tau),
          [a - b for a, b in zip(G_(h, "f", x), v)])
    h.claim(not (absprox(h, "k") + v).hasgrad, "no gradient without gradient")


@ob(K6, "postcomposition", bounds="n=2; uninterpreted functional; all x, tau, sigma>0")
def _(h):
    f = absprox(h, "f", grad=True)
    x, tau = h.vec("x", 2), h.real("tau", pos=True)
    s = h.real("s", pos=True)
    for g, c in ((s * f, s), (f.postcomposition(s), s), (2.0 * f, 2), (0.5 * (2.0 * f), 1)):
        _same(h, g, x, tau, c * F_(h, "f", x), P_(h, "f", x, c * tau), [c * a for a in G_(h, "f", x)])


@ob(K6, "postcomposition integer factor", bounds="n=2; uninterpreted functional; 2*f, 3*f")
def _(h):
    f = absprox(h, "f", grad=True)
    x, tau = h.vec("x", 2), h.real("tau", pos=True)
    for c in (1, 2, 3):
        _same(h, c * f, x, tau, c * F_(h, "f", x), P_(h, "f", x, c * tau), [c * a for a in G_(h, "f", x)])


def _prec(h, kind):
    f = absprox(h, "f", grad=True)
    x, tau = h.vec("x", 2), h.real("tau", pos=True)
    a = h.real("a", nz=True)
    b = h.vec("b", 2) if kind == "array" else h.real("b")
    bb = list(b) if kind == "array" else [b, b]
    g = f.precomposition(a, b)
    y = [a * x[i] + bb[i] for i in range(2)]
    p = P_(h, "f", y, a * a * tau)
    _same(h, g, x, tau, F_(h, "f", y), [(p[i] - bb[i]) / a for i in range(2)], [a * v for v in G_(h, "f", y)])


for _k in ("array", "scalar"):
    ob(K6, f"precomposition {_k}", bounds="n=2; uninterpreted functional; all x, tau, a!=0, b")(lambda h, k=_k: _prec(h, k))


@ob(K6, "composition of compositions", bounds="n=2; uninterpreted functional; s*(f+v), (s*f)+v, precomposition of both")
def _(h):
    f = absprox(h, "f", grad=True)
    x, v, tau = h.vec("x", 2), h.vec("v", 2), h.real("tau", pos=True)
    s, a, b = h.real("s", pos=True), h.real("a", nz=True), h.real("b")
    g = s * (f + v)
    _same(h, g, x, tau, s * F_(h, "f", x) + s * h.dot(v, x),
          P_(h, "f", [x[i] - s * tau * v[i] for i in range(2)], s * tau),
          [s * p + s * q for p, q in zip(G_(h, "f", x), v)])
    g = (s * f) + v
    _same(h, g, x, tau, s * F_(h, "f", x) + h.dot(v, x),
          P_(h, "f", [x[i] - tau * v[i] for i in range(2)], s * tau),
          [s * p + q for p, q in zip(G_(h, "f", x), v)])
    g = ((s * f) + v).precomposition(a, b)
    y = [a * x[i] + b for i in range(2)]
    p = P_(h, "f", [y[i] - a * a * tau * v[i] for i in range(2)], s * a * a * tau)
    _same(h, g, x, tau, s * F_(h, "f", y) + h.dot(v, y), [(p[i] - b) / a for i in range(2)],
          [a * (s * c + d) for c, d in zip(G_(h, "f", y), v)])


@ob(K6, "chain", bounds="n=2; uninterpreted functionals; all x, tau")
def _(h):
    f, g = absprox(h, "f"), absprox(h, "g")
    x, tau = h.vec("x", 2), h.real("tau", pos=True)
    want = P_(h, "g", P_(h, "f", x, tau), tau)
    h.eq(f.chain(g).prox(x.copy(), tau), want, "chain")
    k = f * g  # g.__rmul__(f)
    h.eq(k.prox(x.copy(), tau), P_(h, "f", P_(h, "g", x, tau), tau), "product: first the right factor then the left")


@ob(K6, "concrete compositions attain the minimum", bounds="n=1, s*|.|+v., all parameters and test points")
def _(h):
    s, v, tau, a, b = h.real("s", pos=True), h.vec("v", 1), h.real("tau", pos=True), h.real("a", nz=True), h.real("b")
    x, z = h.vec("x", 1), h.real("z")
    f = ((s * h.mod.L1()) + v).precomposition(a, b)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    y = a * p[0] + b
    yz = a * z + b
    lhs = tau * (s * abs(y) + v[0] * y) + (x[0] - p[0]) * (z - p[0])
    h.le(lhs, tau * (s * h.absvar(yz, "az") + v[0] * yz), "prox is the minimiser")


# ---------------------------------------------------------------- VStack
@ob(K6, "VStack nn", bounds="blocks of sizes 1,2,1; uninterpreted functionals; all x, tau")
def _(h):
    fs = [absprox(h, k, grad=True) for k in "abc"]
    x, tau = h.vec("x", 4), h.real("tau", pos=True)
    g = h.mod.VStack(fs, nn=[1, 2, 1])
    parts = [x[:1], x[1:3], x[3:]]
    cat = lambda it: [v for w in it for v in h.flat(w)]
    _same(h, g, x, tau, total(F_(h, k, p) for k, p in zip("abc", parts)),
          cat(P_(h, k, p, tau) for k, p in zip("abc", parts)),
          cat(G_(h, k, p) for k, p in zip("abc", parts)))
    h.claim(not h.mod.VStack([absprox(h, "u"), absprox(h, "v")], nn=[1, 1]).hasgrad, "no gradient without gradient")
    bad = h.vec("bad", 3)
    for fn in (lambda: g(bad), lambda: g.prox(bad, tau), lambda: g.grad(bad)):
        h.claim(h.raises(ValueError, fn), "wrong size rejected")


@ob(K6, "VStack single block and many blocks", bounds="one block of 2; four blocks of 1")
def _(h):
    x, tau = h.vec("x", 2), h.real("tau", pos=True)
    g = h.mod.VStack([absprox(h, "a", grad=True)], nn=[2])
    _same(h, g, x, tau, F_(h, "a", x), P_(h, "a", x, tau), G_(h, "a", x))
    y = h.vec("y", 4)
    g = h.mod.VStack([absprox(h, k, grad=True) for k in "abab"], nn=[1] * 4)
    cat = lambda it: [v for w in it for v in h.flat(w)]
    _same(h, g, y, tau, total(F_(h, k, [v]) for k, v in zip("abab", y)),
          cat(P_(h, k, [v], tau) for k, v in zip("abab", y)),
          cat(G_(h, k, [v]) for k, v in zip("abab", y)))


@ob(K6, "VStack restr", bounds="index sets {3,0},{1},{2}; uninterpreted functionals; all x, tau")
def _(h):
    fs = [absprox(h, k, grad=True) for k in "abc"]
    x, tau = h.vec("x", 4), h.real("tau", pos=True)
    idx = [[3, 0], [1], [2]]
    g = h.mod.VStack(fs, restr=[h.restriction(4, i) for i in idx])
    parts = [[x[i] for i in ii] for ii in idx]

    def scat(vals):
        out = [None] * 4
        for ii, vv in zip(idx, vals):
            for i, v in zip(ii, h.flat(vv)):
                out[i] = v
        return out

    _same(h, g, x, tau, total(F_(h, k, p) for k, p in zip("abc", parts)),
          scat(P_(h, k, p, tau) for k, p in zip("abc", parts)),
          scat(G_(h, k, p) for k, p in zip("abc", parts)))
    h.claim(h.raises(ValueError, lambda: h.mod.VStack(fs)), "needs blocks or index sets")


# ---------------------------------------------------------------- Orthogonal
def _rot(h):
    c, s = h.unit2("q")
    return [[c, -s], [s, c]]


def _mv(M, x):
    return [total(M[i][j] * x[j] for j in range(len(x))) for i in range(len(M))]


def _mtv(M, y):
    return [total(M[i][j] * y[i] for i in range(len(y))) for j in range(len(M[0]))]


def _orth(h, withb, mode):
    """full: Q rotation; perm: permutation with sign; ident: operator returning its input"""
    tau = h.real("tau", pos=True)
    x = h.vec("x", 2)
    b = h.vec("b", 2) if withb else None
    f = absprox(h, "f")
    if mode == "rot":
        M = _rot(h)
        Q = h.linop(h.arr(M))
    elif mode == "perm":
        M = [[0, -1], [1, 0]]
        Q = h.linop(h.const([[0.0, -1.0], [1.0, 0.0]]))
    else:
        M = [[1, 0], [0, 1]]
        Q = h.identity_op(2)
    g = h.mod.Orthogonal(f, Q, b=b) if withb else h.mod.Orthogonal(f, Q)
    bb = list(b) if withb else [0, 0]
    y = [u + v for u, v in zip(_mv(M, x), bb)]
    p = P_(h, "f", y, tau)
    _same(h, g, x, tau, F_(h, "f", y), _mtv(M, [p[i] - bb[i] for i in range(2)]))
    # the partial path with alpha=1 is the same operator
    g = h.mod.Orthogonal(f, Q, partial=True, b=b, alpha=1.0)
    _same(h, g, x, tau, F_(h, "f", y), _mtv(M, [p[i] - bb[i] for i in range(2)]))


for _m in ("rot", "perm", "ident"):
    for _b in (False, True):
        ob(K6, f"Orthogonal {_m} b={_b}", bounds="2x2 orthogonal operator (rotation by any angle, signed permutation, identity); uninterpreted functional")(
            lambda h, m=_m, b=_b: _orth(h, b, m))


def _semi(h, withb, n):
    """row of squared norm alpha: Q Q^T = alpha I; the prox is optimal for f(Qx+b) whenever
    the inner prox is optimal for f: q = x + Q^T w with alpha-scaled inner step"""
    tau = h.real("tau", pos=True)
    r = h.real("r", pos=True)
    c, s = h.unit2("q")
    M = [[r * c, r * s]] if n == 2 else [[r * c, r * s, 0], [-r * s, r * c, 0]]
    al = r * r
    x = h.vec("x", n)
    b = h.vec("b", len(M)) if withb else None
    f = absprox(h, "f")
    g = h.mod.Orthogonal(f, h.linop(h.arr(M)), partial=True, b=b, alpha=al)
    bb = list(b) if withb else [0] * len(M)
    y = [u + v for u, v in zip(_mv(M, x), bb)]
    p = P_(h, "f", y, al * tau)
    want = [x[j] + _mtv(M, [p[i] - y[i] for i in range(len(M))])[j] / al for j in range(n)]
    _same(h, g, x, tau, F_(h, "f", y), want)
    # optimality transfer: Q z + b == p at the returned point
    z = g.prox(x.copy(), tau)
    h.eq([u + v for u, v in zip(_mv(M, h.flat(z)), bb)], p, "image of the prox is the inner prox")


for _n in (2, 3):
    for _b in (False, True):
        ob(K6, f"Orthogonal partial {_n - 1}x{_n} b={_b}", bounds="semi-orthogonal operator with any alpha and angle; uninterpreted functional")(
            lambda h, n=_n, b=_b: _semi(h, b, n))


@ob(K6, "argument types", bounds="rejection of unsupported operands")
def _(h):
    f = absprox(h, "f")
    h.claim(h.raises(NotImplementedError, lambda: f + 2.0), "scalar addition rejected")
    h.claim(h.raises(NotImplementedError, lambda: f.postcomposition("a")), "string factor rejected")
    h.claim(h.raises(NotImplementedError, lambda: f.precomposition(1, h.vec("b", 2))), "non-float scale rejected")
    h.claim(h.raises(NotImplementedError, lambda: f.precomposition(1.0, "a")), "bad shift rejected")
