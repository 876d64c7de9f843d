"""C11: functionals of the singular values.

A matrix is given by an arbitrary singular value decomposition: X = U diag(s) V^H with U, V
products of plane rotations with symbolic angles (and reflections / phases), s symbolic."""

from symx.harness import ob

from ._common import absprox, iscx, total

P = "C11"


def _rot(h, n, name, refl=False, planes=None):
    """orthogonal matrix: rotations in the listed planes (symbolic angle), list of rows"""
    M = [[h.num(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for k, pl in enumerate(planes if planes is not None else ([(0, 1)] if n > 1 else [])):
        i, j = pl[:2]
        c, s = (h.num(pl[2]), h.num(pl[3])) if len(pl) > 2 else h.unit2(f"{name}{k}")
        N = [list(r) for r in M]
        for r in range(n):
            N[r][i] = M[r][i] * c + M[r][j] * s
            N[r][j] = M[r][j] * c - M[r][i] * s
        M = N
    if refl:
        for r in range(n):
            M[r][0] = -M[r][0]
    return M


def _mm(A, B):
    return [[total(a[k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for a in A]


def _T(A):
    return [list(r) for r in zip(*A)]


class Spec:
    """X = U diag(s) V^T of shape (m, n); U m x m, V n x n"""

    def __init__(self, h, m, n, s, phase=None, refl=False, deep=False, name=""):
        self.h, self.m, self.n, self.k = h, m, n, min(m, n)
        from fractions import Fraction as Fr

        def pl(d, tag):
            if d == 2:
                return [(0, 1)]
            if d == 3:
                a = [(0, 1)]
                return a + ([(1, 2)] if deep else [(1, 2, Fr(3, 5), Fr(4, 5))])
            return []

        self.U = _rot(h, m, name + "u", refl, pl(m, "u"))
        self.V = _rot(h, n, name + "v", False, pl(n, "v"))
        self.ph = phase  # unit complex factor of the first row
        self.s = s
        self.X = self.mat(s)

    def mat(self, s):
        h = self.h
        S = [[s[i] if i == j else h.num(0) for j in range(self.n)] for i in range(self.m)]
        M = _mm(_mm(self.U, S), _T(self.V))
        if self.ph is not None:
            c, t = self.ph
            M[0] = [c * e + complex(0, 1) * (t * e) for e in M[0]]
        return M

    def flat(self, s=None):
        return [e for r in (self.X if s is None else self.mat(s)) for e in r]

    def register(self, scale=None):
        h = self.h
        U = [list(r) for r in self.U]
        if self.ph is not None:
            c, t = self.ph
            U[0] = [c * e + complex(0, 1) * (t * e) for e in U[0]]
        sc = (lambda v: v) if scale is None else (lambda v: v / scale)
        X = h.arr([[sc(e) for e in r] for r in self.X])
        h.svd(X, h.arr(U), h.arr([sc(e) for e in self.s]), h.arr(_T(self.V)))

    def core(self, y):
        """U^H Y V as list of rows"""
        y = self.h.flat(y)
        Y = [y[i * self.n:(i + 1) * self.n] for i in range(self.m)]
        if self.ph is not None:
            c, t = self.ph
            Y[0] = [(c - complex(0, 1) * t) * e for e in Y[0]]
        return _mm(_mm(_T(self.U), Y), self.V)


def _svals(h, k, gap=None, hi=None, name="s", lo=0):
    """s1 >= s2 >= ... >= 0 (at least gap apart and positive when given)"""
    out = []
    for i in range(k):
        out.append(h.real(f"{name}{i}", lo=lo, hi=hi))
    for a, b in zip(out, out[1:]):
        h.assume(a >= b + (gap or 0))
    if gap:
        h.assume(out[-1] >= gap)
    return out


SHAPES = [(2, 2), (2, 3), (3, 2), (1, 2), (2, 1), (1, 1)]


def _soft(h, s, t):
    return s - t if s > t else h.num(0)


def _eqm(h, y, ref, label, tol=0):
    h.eq(h.flat(y), ref, label, tol=tol)


# ---------------------------------------------------------------- nuclear norm
def _nuclear(h, m, n, kind, cplx=False, deep=False):
    k = min(m, n)
    s = _svals(h, k, gap=None if kind == "scalar" else 0.01)
    ph = h.unit2("p") if cplx else None
    X = Spec(h, m, n, s, phase=ph, refl=(m, n) == (2, 2), deep=deep)
    X.register()
    if kind == "scalar":
        sg = h.real("sg", pos=True)
        w = [sg] * k
    elif kind == "one":
        v = h.real("sg", pos=True)
        sg = h.arr([v])
        w = [v] * k
    else:
        sg = h.vec("sg", k + (1 if kind == "long" else 0), pos=True)
        w = [sg[i] for i in range(k)]
    f = h.mod.Nuclear((m, n), sg)
    x = h.arr(X.flat())
    ssg = h.snapshot(*( [x] if kind == "scalar" else [x, sg]))
    h.eq(f(x), total(a * b for a, b in zip(w, s)), "value is the weighted sum of singular values")
    tau = h.real("tau", pos=True)
    th = [_soft(h, a, tau * b) for a, b in zip(s, w)]
    y = f.prox(x, tau)
    h.observe("y", y)
    h.claim(tuple(y.shape) == (m * n,), "flat result")
    _eqm(h, y, X.flat(th), "singular values are soft-thresholded")
    h.unchanged(ssg, "inputs unchanged")


for _s in SHAPES:
    ob(P, f"Nuclear {_s} scalar weight", bounds=f"all {_s} matrices by SVD, all sigma, tau", validate=2)(
        lambda h, s=_s: _nuclear(h, *s, "scalar"))
for _s in [(2, 2), (2, 3), (3, 2), (2, 1)]:
    for _k in ("array", "long"):
        ob(P, f"Nuclear {_s} weights {_k}", bounds=f"all {_s} matrices with distinct singular values (gap .01), all weights, tau",
           validate=2)(lambda h, s=_s, k=_k: _nuclear(h, *s, k))
ob(P, "Nuclear (2, 2) one weight", bounds="array of one weight")(lambda h: _nuclear(h, 2, 2, "one"))
ob(P, "Nuclear (2, 2) complex", bounds="complex 2x2: first row with an arbitrary phase")(lambda h: _nuclear(h, 2, 2, "scalar", True))
ob(P, "Nuclear (2, 3) complex weights", bounds="complex 2x3: first row with an arbitrary phase")(
    lambda h: _nuclear(h, 2, 3, "array", True))
ob(P, "Nuclear (2, 3) two rotations", tier="thorough", bounds="2x3, two symbolic rotations on the right")(
    lambda h: _nuclear(h, 2, 3, "scalar", deep=True))
ob(P, "Nuclear (3, 3)", tier="thorough", bounds="3x3, one symbolic rotation per side")(lambda h: _nuclear(h, 3, 3, "scalar"))
ob(P, "Nuclear (3, 3) weights", tier="thorough", bounds="3x3, one symbolic rotation per side")(lambda h: _nuclear(h, 3, 3, "array"))


def _nucdual(h, m, n, arr):
    """proxdual by Moreau: singular values are clipped at sigma"""
    k = min(m, n)
    s = _svals(h, k, gap=0.01 if arr else None)
    X = Spec(h, m, n, s)
    tau = h.real("tau", pos=True)
    X.register(scale=tau)
    X.register()
    sg = h.vec("sg", k, pos=True) if arr else h.real("sg", pos=True)
    w = [sg[i] for i in range(k)] if arr else [sg] * k
    f = h.mod.Nuclear((m, n), sg)
    y = f.proxdual(h.arr(X.flat()), tau)
    h.observe("y", y)
    _eqm(h, y, X.flat([a if a <= b else b for a, b in zip(s, w)]), "dual prox clips the singular values")


for _s in [(2, 2), (2, 3), (3, 2)]:
    for _a in (False, True):
        ob(P, f"Nuclear proxdual {_s} {'weights' if _a else 'scalar'}", bounds=f"all {_s} matrices by SVD, all weights, tau")(
            lambda h, s=_s, a=_a: _nucdual(h, *s, a))


# ---------------------------------------------------------------- nuclear ball
def _simp(h, s, r):
    """projection of s >= 0 (descending) on the l1 ball of radius r"""
    if total(s) <= r:
        return list(s)
    if len(s) == 1:
        return [r]
    if s[0] - s[1] >= r:
        return [r, h.num(0)]
    t = (s[0] + s[1] - r) / 2
    return [s[0] - t, s[1] - t]


def _ball(h, m, n, proj):
    k = min(m, n)
    s = _svals(h, k, hi=3)
    X = Spec(h, m, n, s)
    X.register()
    r = h.real("r", lo=0.25, hi=2)
    tau = h.real("tau", pos=True)
    ref = _simp(h, s, r)
    x = h.arr(X.flat())
    sn = h.snapshot(x)
    if proj:
        y = h.mod.projection.NuclearBallProj(k, r, 100, 1e-12)(x.reshape(m, n))
        h.claim(tuple(y.shape) == (m, n), "shape")
    else:
        f = h.mod.NuclearBall((m, n), r, maxiter=100, xtol=1e-12)
        y = f.prox(x, tau)
        h.claim(tuple(y.shape) == (m * n,), "flat result")
        h.eq(f.proxdual(x, 1.0), [a - b for a, b in zip(X.flat(), h.flat(y))], "Moreau dual", tol=1e-6)
        t = h.real("tol", lo=1e-6, hi=0.5)
        v, v5 = f(x, t), f(x)
        g = total(s) - r
        if g <= t - 1e-8:
            h.claim(v, "within the tolerance: member")
        elif g >= t + 1e-8:
            h.claim(not v, "outside the tolerance: no member")
        if g <= 0:
            h.claim(v5, "member accepted")
        elif g > 1e-4:
            h.claim(not v5, "non-member rejected")
    h.observe("y", y)
    _eqm(h, y, X.flat(ref), "singular values are projected on the l1 ball", tol=1e-6)
    h.unchanged(sn, "inputs unchanged")


for _s in [(2, 2), (2, 3), (3, 2), (1, 2), (2, 1)]:
    for _p in (False, True):
        ob(P, f"{'NuclearBallProj' if _p else 'NuclearBall'} {_s}", tol=1e-6, max_time=100,
           bounds=f"{_s} by SVD, singular values <= 3, radius in [.25, 2], xtol 1e-12")(lambda h, s=_s, p=_p: _ball(h, *s, p))


# ---------------------------------------------------------------- singular value penalties
def _svp(h, m, n, cplx=False):
    k = min(m, n)
    s = _svals(h, k, gap=0.01)
    X = Spec(h, m, n, s, phase=h.unit2("p") if cplx else None)
    X.register()
    g = absprox(h, "g")
    f = h.mod.SingularValuePenalty((m, n), g)
    x = h.arr(X.flat())
    sn = h.snapshot(x)
    tau = h.real("tau", pos=True)
    S = h.arr(s)
    if not cplx:
        h.eq(f(x), h.uf("g.f", [S]), "value is the penalty of the singular values", tol=1e-6)
    y = f.prox(x, tau)
    h.observe("y", y)
    _eqm(h, y, X.flat(h.flat(h.uf("g.prox", [S, tau], k))), "singular values are replaced by their prox", tol=1e-6)
    h.unchanged(sn, "inputs unchanged")


for _s in SHAPES:
    ob(P, f"SingularValuePenalty {_s}", bounds=f"{_s} by SVD (gap .01), arbitrary penalty, tau")(lambda h, s=_s: _svp(h, *s))
ob(P, "SingularValuePenalty (2, 2) complex", bounds="complex 2x2, arbitrary penalty")(lambda h: _svp(h, 2, 2, True))
ob(P, "SingularValuePenalty (3, 3)", tier="thorough", bounds="3x3, one symbolic rotation per side, arbitrary penalty")(lambda h: _svp(h, 3, 3))


def _svpcon(h, m, n, pen):
    """concrete penalties: the lifted functional and prox against the vector formulas"""
    k = min(m, n)
    s = _svals(h, k, gap=0.01)
    X = Spec(h, m, n, s)
    X.register()
    tau = h.real("tau", pos=True)
    if pen == "L1":
        sg = h.real("sg", pos=True)
        g, val, pr = h.mod.L1(sg), total(sg * a for a in s), [_soft(h, a, tau * sg) for a in s]
    elif pen == "L2":
        sg = h.real("sg", pos=True)
        g, val, pr = h.mod.L2(sigma=sg), sg / 2 * total(a * a for a in s), [a / (1 + tau * sg) for a in s]
    else:
        mu = h.real("mu", pos=True)
        h.assume(tau < 1)
        rt = h.sqrt(2 * mu)
        g = h.mod.QuadraticEnvelopeCard(mu)
        val, pr = h.num(0), []
        for a in s:
            if a >= rt:
                pr.append(a)
                val = val + mu
            else:
                d = rt - a
                val = val + mu - d * d / 2
                pr.append((a - tau * rt) / (1 - tau) if a > tau * rt else h.num(0))
    f = h.mod.SingularValuePenalty((m, n), g)
    x = h.arr(X.flat())
    h.eq(f(x), val, "value")
    y = f.prox(x, tau)
    h.observe("y", y)
    _eqm(h, y, X.flat(pr), "prox")


for _s in [(2, 2), (3, 2), (2, 3), (1, 2)]:
    for _pn in ("L1", "L2", "QuadraticEnvelopeCard"):
        ob(P, f"SingularValuePenalty {_pn} {_s}", bounds=f"{_s} by SVD (gap .01), all parameters")(
            lambda h, s=_s, p=_pn: _svpcon(h, *s, p))


# ---------------------------------------------------------------- rank envelope
def _rank(h, m, n, r0, hi=None, gap=0.01):
    """argmin R_r0(Z) + 1/2||Z-M||^2 + 1/(2 tau)||Z-X||^2: with Y=(M+rho X)/(1+rho) the result
    has the singular vectors of Y and values argmin q(z) + (1+rho)/2 ||z-y||^2"""
    k = min(m, n)
    y = _svals(h, k, gap=gap, hi=hi)
    Y = Spec(h, m, n, y)
    Y.register()
    tau = h.real("tau", pos=True)
    rho = 1 / tau
    M = h.vec("M", m * n)
    Pm = [((1 + rho) * a - M[i]) / rho for i, a in enumerate(Y.flat())]
    f = h.mod.QuadraticEnvelopeRankL2((m, n), r0, M.reshape(m, n))
    x = h.arr(Pm)
    sn = h.snapshot(x, M)
    out = f.prox(x, tau)
    h.observe("y", out)
    h.claim(tuple(out.shape) == (m * n,), "flat result")
    D = Y.core(out)
    d = [D[i][i] for i in range(k)]
    for i in range(m):
        for j in range(n):
            if i != j:
                h.eq(D[i][j], 0, "singular vectors of the data are kept", tol=1e-6)
    h.unchanged(sn, "inputs unchanged")
    if k <= r0:
        h.eq(d, y, "rank below r0: weighted mean of M and X", tol=1e-6)
        return
    return h, d, y, rho


def _rank21(h, m, n):
    r = _rank(h, m, n, 1)
    h, d, y, rho = r
    z = [h.real("z0", nonneg=True), h.real("z1", nonneg=True)]
    for i in range(2):
        h.le(0, d[i], "singular values are not negative", tol=1e-6)

    # a*b + (1+rho)/2 ||.-y||^2 is convex for rho >= 0: first order conditions over the quadrant
    a, b = d
    ga = b + (1 + rho) * (a - y[0])
    gb = a + (1 + rho) * (b - y[1])
    h.le(0, ga * (z[0] - a) + gb * (z[1] - b), "minimiser of the rank-envelope objective", tol=1e-6)


for _s in [(2, 2), (2, 3), (3, 2)]:
    ob(P, f"QuadraticEnvelopeRankL2 {_s} r0=1", bounds=f"{_s} by SVD of the mean (gap .01), all M, tau", max_time=100, tol=1e-6)(
        lambda h, s=_s: _rank21(h, *s))
for _s, _r in [((2, 2), 2), ((2, 2), 3), ((1, 2), 1), ((2, 1), 1), ((2, 1), 2), ((1, 2), 3), ((2, 3), 2), ((2, 3), 4)]:
    ob(P, f"QuadraticEnvelopeRankL2 {_s} r0={_r}", bounds=f"{_s} by SVD of the mean, all M, tau", tol=1e-6)(
        lambda h, s=_s, r=_r: _rank(h, *s, r))


def _rank3(h, r0, m=3, n=3):
    """3 singular values: first-order conditions with q(z) = max over k of the envelope pieces"""
    r = _rank(h, m, n, r0, hi=4)
    h, d, y, rho = r
    z = [h.real(f"z{i}", nonneg=True) for i in range(3)]
    for i in range(3):
        h.le(0, d[i], "singular values are not negative", tol=1e-6)
        if i:
            h.le(d[i], d[i - 1], "order of the singular values", tol=1e-6)
    if r0 == 1:
        g = [total(d[j] for j in range(3) if j != i) + (1 + rho) * (d[i] - y[i]) for i in range(3)]
        h.le(0, total(g[i] * (z[i] - d[i]) for i in range(3)), "minimiser", tol=1e-6)


ob(P, "QuadraticEnvelopeRankL2 (3, 3) r0=1", bounds="3x3, y <= 4, all tau, M", max_time=300, tol=1e-6)(
    lambda h: _rank3(h, 1))


def _rankval(h, m, n, known):
    k = min(m, n)
    s = _svals(h, k, gap=0.01)
    X = Spec(h, m, n, s)
    X.register()
    D = h.vec("D", m * n) if known else h.arr([h.num(0)] * (m * n))
    M = h.arr([a - b for a, b in zip(X.flat(), D)]).reshape(m, n)
    f = h.mod.QuadraticEnvelopeRankL2((m, n), 1, M)
    env = s[0] * s[1] if k > 1 else h.num(0)
    h.eq(f(h.arr(X.flat())), env + h.sqsum(D) / 2, "value of the documented penalty", tol=1e-6)


for _s in [(2, 2), (2, 3), (3, 2), (1, 2)]:
    ob(P, f"QuadraticEnvelopeRankL2 envelope value {_s}", bounds=f"{_s} by SVD (gap .01), M = X", tol=1e-6)(
        lambda h, s=_s: _rankval(h, *s, False))
ob(P, "QuadraticEnvelopeRankL2 misfit value", bounds="2x2 by SVD, all M", tol=1e-6)(lambda h: _rankval(h, 2, 2, True))
