"""C20: solutions are fixed points, unchanged states are solutions, and unaccelerated iterations
never move away from a solution.

No recurrence is written down here: functionals are abstract convex functions known only through
one point (x*, s) of their subdifferential graph (prox_t(x* + t s) = x*, everything else is
uninterpreted, monotone where stated), or concrete ones with explicit optimality conditions."""

from fractions import Fraction as Fr

from symx.harness import ob

from ._common import total, ufx, iscx
from ._solvers import mv, mtv, lin

P = "C20"


def _same(h, a, b):
    """identical terms (symbolically) / equal numbers (concretely)"""
    a, b = h.flat(a), h.flat(b)
    if len(a) != len(b):
        return False
    for u, v in zip(a, b):
        if h.sym:
            from symx import core

            d = core.ssub(u, v)
            parts = [d.re, d.im] if core._iscomplex(d) else [d]
            for q in parts:
                q = core.lift(q)
                if not q.n.is_zero():
                    return False
        elif abs(u - v) > 1e-7 * (1 + abs(v)):
            return False
    return True


def graph(h, name, xs, s=None, grad=None, mono=False, value=False):
    """convex functional with s in its subdifferential at xs (grad: its gradient there);
    mono: prox evaluations elsewhere satisfy the monotonicity inequality with that point"""
    Base = h.mod.ProxOperator

    class G(Base):
        def __init__(self):
            super().__init__(None, grad is not None)

        def __call__(self, x):
            return h.uf(name + ".f", [x])

        def prox(self, v, tau, **kw):
            if _same(h, v, [a + tau * b for a, b in zip(xs, s)]):
                return h.arr(list(xs)).reshape(v.shape)
            p = ufx(h, name + ".prox", [v, tau], v)
            if mono:
                g = total((p[i] - xs[i]) * ((h.flat(v)[i] - p[i]) / tau - s[i]) for i in range(len(xs)))
                h.assume(g >= (0 if h.sym else -1e-9))
            return p.reshape(v.shape)

    if grad is not None:
        def gr(self, x):
            if _same(h, x, xs):
                return h.arr(list(grad)).reshape(x.shape)
            g = ufx(h, name + ".grad", [x], x)
            if mono:
                # convex with gradient Lipschitz constant L (cocoercivity)
                L = mono
                d = total((g[i] - grad[i]) * (h.flat(x)[i] - xs[i]) for i in range(len(xs)))
                q = total((g[i] - grad[i]) * (g[i] - grad[i]) for i in range(len(xs)))
                h.assume(L * d >= q - (0 if h.sym else 1e-9))
            return g.reshape(x.shape)
        G.grad = gr
    return G()


def _neg(v, c=1):
    return [-e * c for e in v]


# =========================================================== solutions are left unchanged
FIX = {}


def fix(name, **kw):
    def deco(fn):
        FIX[name] = (fn, kw)
        return fn
    return deco


def _pg(h, acc=None, eta=1, niter=3, multi=False, back=False):
    xs, s = h.vec("xs", 2), h.vec("s", 2)
    eps = h.real("eps", pos=True)
    tau = h.real("tau", pos=True)
    f = graph(h, "f", xs, grad=_neg(s, eps))
    g = graph(h, "g", xs, s)
    kw = dict(acceleration=acc) if acc else {}
    if eta != 1:
        kw["eta"] = h.real("eta", lo=0, hi=1)
        h.assume(kw["eta"] > 0)
    e = h.arr([eps] * niter) if multi else eps
    return h.mod.optimization.primal.ProximalGradient(f, g, xs.copy(), epsg=e, tau=tau, niter=niter, **kw), xs


fix("ProximalGradient")(lambda h: _pg(h))
fix("ProximalGradient vandenberghe")(lambda h: _pg(h, "vandenberghe"))
fix("ProximalGradient fista")(lambda h: _pg(h, "fista"))
fix("ProximalGradient relaxed")(lambda h: _pg(h, eta=0))
fix("ProximalGradient relaxed fista")(lambda h: _pg(h, "fista", eta=0))
fix("ProximalGradient weights per iteration")(lambda h: _pg(h, multi=True))


@fix("ProximalPoint")
def _(h):
    xs = h.vec("xs", 2)
    f = graph(h, "f", xs, [h.num(0)] * 2)
    return h.mod.optimization.primal.ProximalPoint(f, xs.copy(), h.real("tau", pos=True), niter=3), xs


@fix("AndersonProximalGradient common minimiser")
def _(h):
    # the auxiliary start is the gradient step, whose residual vanishes only for s = 0
    xs = h.vec("xs", 2)
    eps, tau = h.real("eps", pos=True), h.real("tau", pos=True)
    f = graph(h, "f", xs, grad=[h.num(0)] * 2)
    g = graph(h, "g", xs, [h.num(0)] * 2)
    return h.mod.optimization.primal.AndersonProximalGradient(f, g, xs.copy(), epsg=eps, tau=tau, niter=2, nhistory=2), xs


def _gpg(h, acc=None, w=None, eta=1, nf=1):
    m = 2
    xs, s = h.vec("xs", 2), h.vec("s", 2)
    tau = h.real("tau", pos=True)
    eps = h.vec("eps", m, pos=True)
    ws = [Fr(1, 4), Fr(3, 4)] if w else [Fr(1, 2)] * 2
    if nf == 1:
        fs = [graph(h, "f", xs, grad=_neg(s))]
    else:
        d = h.vec("d", 2)
        fs = [graph(h, "f0", xs, grad=[-a - b for a, b in zip(s, d)]), graph(h, "f1", xs, grad=list(d))]
    gs = [graph(h, f"g{i}", xs, [h.num(ws[i]) * a / eps[i] for a in s]) for i in range(m)]
    kw = {}
    if w:
        kw["weights"] = h.arr([h.num(a) for a in ws])
    if eta != 1:
        kw["eta"] = h.real("eta", pos=True, hi=1)
    if acc:
        kw["acceleration"] = acc
    x = h.mod.optimization.primal.GeneralizedProximalGradient(fs, gs, xs.copy(), tau=tau, epsg=eps, niter=3, **kw)
    return x, xs


fix("GeneralizedProximalGradient")(lambda h: _gpg(h))
fix("GeneralizedProximalGradient weights")(lambda h: _gpg(h, w=True))
fix("GeneralizedProximalGradient vandenberghe")(lambda h: _gpg(h, "vandenberghe", True))
fix("GeneralizedProximalGradient fista two gradients")(lambda h: _gpg(h, "fista", True, nf=2))
fix("GeneralizedProximalGradient relaxed")(lambda h: _gpg(h, None, True, eta=0, nf=2))


def _dr(h, gfirst, eta):
    xs, s = h.vec("xs", 2), h.vec("s", 2)
    tau = h.real("tau", pos=True)
    f, g = graph(h, "f", xs, list(s)), graph(h, "g", xs, _neg(s))
    sg = -1 if gfirst else 1
    y0 = h.arr([a + sg * tau * b for a, b in zip(xs, s)])
    kw = dict(eta=h.real("eta", pos=True)) if eta else {}
    x, y = h.mod.optimization.primal.DouglasRachfordSplitting(f, g, y0.copy(), tau, niter=3, gfirst=gfirst, **kw)
    return [*h.flat(x), *h.flat(y)], [*xs, *y0]


for _g in (True, False):
    for _e in (False, True):
        fix(f"DouglasRachford gfirst={_g}{' relaxed' if _e else ''}")(lambda h, g=_g, e=_e: _dr(h, g, e))


def _two(h, fn, gfirst, z0):
    """HQS, ADMM from a common minimiser of both terms"""
    xs = h.vec("xs", 2)
    tau = h.real("tau", pos=True)
    f, g = graph(h, "f", xs, [h.num(0)] * 2), graph(h, "g", xs, [h.num(0)] * 2)
    kw = dict(z0=xs.copy()) if z0 else {}
    x, z = getattr(h.mod.optimization.primal, fn)(f, g, xs.copy(), tau, niter=3, gfirst=gfirst, **kw)
    return [*h.flat(x), *h.flat(z)], [*xs, *xs]


for _f in ("HQS", "ADMM"):
    for _g in (True, False):
        for _z in (False, True):
            fix(f"{_f} common minimiser gfirst={_g}{' z0' if _z else ''}")(lambda h, f=_f, g=_g, z=_z: _two(h, f, g, z))


def _ladmm(h, z0):
    xs = h.vec("xs", 2)
    M = h.vec("M", (2, 2))
    tau, mu = h.real("tau", pos=True), h.real("mu", pos=True)
    zs = mv(h, M, xs)
    f, g = graph(h, "f", xs, [h.num(0)] * 2), graph(h, "g", h.flat(zs), [h.num(0)] * 2)
    kw = dict(z0=zs.copy()) if z0 else {}
    x, z = h.mod.optimization.primal.LinearizedADMM(f, g, h.linop(M), xs.copy(), tau, mu, niter=3, **kw)
    return [*h.flat(x), *h.flat(z)], [*xs, *h.flat(zs)]


fix("LinearizedADMM common minimiser")(lambda h: _ladmm(h, False))
fix("LinearizedADMM common minimiser z0")(lambda h: _ladmm(h, True))


@fix("TwIST")
def _(h):
    xs, s = h.vec("xs", 2), h.vec("s", 2)
    M = h.arr([[h.num(Fr(1, 2)), h.num(0)], [h.num(Fr(1, 4)), h.num(1)]])
    # A^T(A x* - b) = -s
    Mi = [[h.num(2), h.num(Fr(-1, 2))], [h.num(0), h.num(1)]]  # inverse transpose
    r = [total(Mi[i][j] * s[j] for j in range(2)) for i in range(2)]
    Ax = mv(h, M, xs)
    b = h.arr([Ax[i] + r[i] for i in range(2)])
    g = graph(h, "g", xs, list(s))
    al, be = h.real("al", pos=True), h.real("be", pos=True)
    return h.mod.optimization.primal.TwIST(g, h.linop(M), b, xs.copy(), alpha=al, beta=be, niter=3), xs


def _ppxa(h, m, weights, eta):
    xs = h.vec("xs", 2)
    tau = h.real("tau", pos=True)
    ws = {2: [Fr(1, 4), Fr(3, 4)], 3: [Fr(1, 2), Fr(1, 4), Fr(1, 4)]}[m] if weights else [Fr(1, m)] * m
    ss = [h.vec(f"s{i}", 2) for i in range(m - 1)]
    ss.append([-total(s[j] for s in ss) for j in range(2)])
    fs = [graph(h, f"f{i}", xs, list(ss[i])) for i in range(m)]
    y0 = [h.arr([a + tau / h.num(ws[i]) * b for a, b in zip(xs, ss[i])]) for i in range(m)]
    kw = {}
    if weights:
        kw["weights"] = h.arr([h.num(w) for w in ws])
    if eta:
        kw["eta"] = h.real("eta", pos=True, hi=2)
    return h.mod.optimization.primal.PPXA(fs, y0, tau, niter=3, tol=None, **kw), xs


for _m in (2, 3):
    for _w in (False, True):
        fix(f"PPXA {_m} terms{' weights' if _w else ''}")(lambda h, m=_m, w=_w: _ppxa(h, m, w, w))


@fix("ConsensusADMM common minimiser")
def _(h):
    xs = h.vec("xs", 2)
    fs = [graph(h, f"f{i}", xs, [h.num(0)] * 2) for i in range(3)]
    return h.mod.optimization.primal.ConsensusADMM(fs, xs.copy(), h.real("tau", pos=True), niter=3, tol=None), xs


def _pd(h, gfirst, steps, withz, theta, cplx=False):
    xs, ys = h.vec("xs", 2), h.vec("ys", 2)
    M = h.vec("M", (2, 2))
    Ax, Ay = mv(h, M, xs), mtv(h, M, ys)
    z = h.vec("z", 2) if withz else None
    f = graph(h, "f", xs, [-Ay[i] - (z[i] if withz else 0) for i in range(2)])
    g = graph(h, "g", h.flat(Ax), list(ys))
    if steps:
        tau, mu = h.vec("tau", 3, pos=True), h.vec("mu", 3, pos=True)
    else:
        tau, mu = h.num(Fr(1, 3)), h.num(Fr(3, 4))
        if not h.sym:
            tau, mu = float(tau), float(mu)
        tau, mu = h.real("tau", pos=True), h.real("mu", pos=True)
    kw = dict(z=z) if withz else {}
    if theta:
        kw["theta"] = h.real("theta", lo=0, hi=1)
    x, y = h.mod.optimization.primaldual.PrimalDual(f, g, h.linop(M), xs.copy(), tau, mu, y0=ys.copy(), niter=3,
                                                     gfirst=gfirst, returny=True, **kw)
    return [*h.flat(x), *h.flat(y)], [*xs, *ys]


for _g in (True, False):
    for _nm, _a in {"": (False, False, False), " steps": (True, False, False), " z": (False, True, False),
                    " theta": (False, False, True), " all": (True, True, True)}.items():
        fix(f"PrimalDual gfirst={_g}{_nm}")(lambda h, g=_g, a=_a: _pd(h, g, *a))


@fix("AdaptivePrimalDual zero dual")
def _(h):
    xs = h.vec("xs", 2)
    M = h.vec("M", (2, 2))
    z = h.vec("z", 2)
    f = graph(h, "f", xs, _neg(z))
    g = graph(h, "g", h.flat(mv(h, M, xs)), [h.num(0)] * 2)
    x, st = h.mod.optimization.primaldual.AdaptivePrimalDual(f, g, h.linop(M), xs.copy(), h.real("tau", pos=True),
                                                              h.real("mu", pos=True), z=z, niter=3)
    return x, xs


def _palm(h, inertial, gam):
    """stationary point of 1/2||xy - d||^2 + f(x) + g(y), scalar factors"""
    x, y, r = h.real("x"), h.real("y"), h.real("r")
    B = h.sub("utils.bilinear").LowRankFactorizedMatrix
    h.assume(h.And(x * x > 0.01, y * y > 0.01))
    # residual x*y - d = r
    H = B(h.arr([[x]]), h.arr([[y]]), h.arr([x * y - r]))
    f, g = graph(h, "f", [x], [-r * y]), graph(h, "g", [y], [-r * x])
    kw = dict(gammaf=h.real("gf", pos=True), gammag=h.real("gg", pos=True)) if gam else {}
    fn = h.mod.optimization.palm.iPALM if inertial else h.mod.optimization.palm.PALM
    if inertial:
        kw["a"] = (h.real("a0", lo=0, hi=1), h.real("a1", lo=0, hi=1))
    u, v = fn(H, f, g, h.arr([x]), h.arr([y]), niter=2, **kw)
    return [*h.flat(u), *h.flat(v)], [x, y]


fix("PALM stationary point")(lambda h: _palm(h, False, True))
fix("iPALM stationary point")(lambda h: _palm(h, True, True))
fix("PALM stationary point default steps")(lambda h: _palm(h, False, False))


def _runfix(h, fn):
    got, want = fn(h)
    h.observe("x", got)
    h.eq(got, want, "a solution is left unchanged", tol=1e-7)


for _nm, (_f, _kw) in FIX.items():
    ob(P, f"fixed: {_nm}", bounds="n=2 (PALM: scalars); any convex functionals with the solution in their subdifferential graphs, all steps, weights, relaxations; 3 iterations",
       tol=1e-7)(lambda h, f=_f: _runfix(h, f))


# =========================================================== never away from a solution
def _closer(h, a, b, label="distance to the solution does not grow"):
    h.le(a, b, label, tol=1e-7)


def _fejer_pp(h, n):
    xs, x0 = h.vec("xs", n), h.vec("x0", n)
    f = graph(h, "f", xs, [h.num(0)] * n, mono=True)
    x = h.mod.optimization.primal.ProximalPoint(f, x0.copy(), h.real("tau", pos=True), niter=1)
    _closer(h, h.sqsum([x[i] - xs[i] for i in range(n)]), h.sqsum([x0[i] - xs[i] for i in range(n)]))


def _fejer_pg(h, n, kind):
    xs, s, x0 = h.vec("xs", n), h.vec("s", n), h.vec("x0", n)
    L, tau, eps = h.num(2), h.real("tau", pos=True, hi=1), h.real("eps", pos=True)
    f = graph(h, "f", xs, grad=_neg(s, eps), mono=L)
    g = graph(h, "g", xs, s, mono=True)
    if kind == "gpg":
        x = h.mod.optimization.primal.GeneralizedProximalGradient([f], [g], x0.copy(), tau=tau, epsg=eps, niter=1)
    else:
        kw = dict(eta=h.real("eta", pos=True, hi=1)) if kind == "relaxed" else {}
        x = h.mod.optimization.primal.ProximalGradient(f, g, x0.copy(), epsg=eps, tau=tau, niter=1, **kw)
    _closer(h, h.sqsum([x[i] - xs[i] for i in range(n)]), h.sqsum([x0[i] - xs[i] for i in range(n)]))


def _fejer_dr(h, n, gfirst, eta):
    xs, s, y0 = h.vec("xs", n), h.vec("s", n), h.vec("y0", n)
    tau = h.real("tau", pos=True)
    f, g = graph(h, "f", xs, list(s), mono=True), graph(h, "g", xs, _neg(s), mono=True)
    sg = -1 if gfirst else 1
    ys = [a + sg * tau * b for a, b in zip(xs, s)]
    kw = dict(eta=h.real("eta", pos=True, hi=2)) if eta else {}
    x, y = h.mod.optimization.primal.DouglasRachfordSplitting(f, g, y0.copy(), tau, niter=1, gfirst=gfirst, **kw)
    _closer(h, h.sqsum([y[i] - ys[i] for i in range(n)]), h.sqsum([y0[i] - ys[i] for i in range(n)]))


def _fejer_admm(h, gfirst):
    """from u = 0: |w1-w*|^2 + |u1-u*|^2 <= |w0-w*|^2 + |u*|^2 with u* = tau s, w the block
    updated last"""
    xs, s, x0, z0 = h.real("xs"), h.real("s"), h.real("x0"), h.real("z0")
    tau = h.real("tau", pos=True)
    f, g = graph(h, "f", [xs], [-s], mono=True), graph(h, "g", [xs], [s], mono=True)
    x, z = h.mod.optimization.primal.ADMM(f, g, h.arr([x0]), tau, z0=h.arr([z0]), niter=1, gfirst=gfirst)
    x, z = h.flat(x)[0], h.flat(z)[0]
    u1, us = x - z, tau * s
    w0, w1 = (x0, x) if gfirst else (z0, z)
    _closer(h, (w1 - xs) ** 2 + (u1 - us) ** 2, (w0 - xs) ** 2 + us ** 2)


def _fejer_admm2(h, gfirst):
    xs, s, x0, z0, b = h.real("xs"), h.real("s"), h.real("x0"), h.real("z0"), h.num(0)
    a, c = h.num(2), h.num(Fr(3, 2))
    tau = h.num(Fr(1, 4))
    # a(a xs - b) + c s = 0
    b = (a * a * xs + c * s) / a
    g = graph(h, "g", [c * xs], [s], mono=True)
    x, z = h.mod.optimization.primal.ADMML2(g, h.linop(h.arr([[a]])), h.arr([b]), h.linop(h.arr([[c]])), h.arr([x0]), tau,
                                             z0=h.arr([z0]), niter=1, gfirst=gfirst)
    x, z = h.flat(x)[0], h.flat(z)[0]
    u1, us = c * x - z, tau * s
    w0, w1 = (c * x0, c * x) if gfirst else (z0, z)
    h.le((w1 - c * xs) ** 2 + (u1 - us) ** 2, (w0 - c * xs) ** 2 + us ** 2, "distance to the solution does not grow", tol=2e-4)


def _fejer_ladmm(h, m):
    xs, s, x0, z0 = h.real("xs"), h.real("s"), h.real("x0"), h.real("z0")
    a, tau, mu = h.num(2), h.num(Fr(3, 2)), h.num(m)
    f, g = graph(h, "f", [xs], [-a * s], mono=True), graph(h, "g", [a * xs], [s], mono=True)
    x, z = h.mod.optimization.primal.LinearizedADMM(f, g, h.linop(h.arr([[a]])), h.arr([x0]), tau, mu, z0=h.arr([z0]), niter=1)
    x, z = h.flat(x)[0], h.flat(z)[0]
    u1, us = a * x - z, tau * s

    def dist(x, z, u):
        return (1 / mu - a * a / tau) * (x - xs) ** 2 + ((z - a * xs) ** 2 + (u - us) ** 2) / tau

    _closer(h, dist(x, z, u1), dist(x0, z0, h.num(0)))


def _fejer_pd(h, gfirst, steps=False):
    xs, ys, x0, y0 = h.real("xs"), h.real("ys"), h.real("x0"), h.real("y0")
    a, tau, mu = h.real("a"), h.real("tau", pos=True), h.real("mu", pos=True)
    h.assume(tau * mu * a * a <= 1)
    f, g = graph(h, "f", [xs], [-a * ys], mono=True), graph(h, "g", [a * xs], [ys], mono=True)
    it = []
    k = 2 if gfirst else 1
    h.mod.optimization.primaldual.PrimalDual(f, g, h.linop(h.arr([[a]])), h.arr([x0]), tau, mu, y0=h.arr([y0]), niter=k,
                                             gfirst=gfirst, callback=lambda x, y: it.append((h.flat(x)[0], h.flat(y)[0])), callbacky=True)

    def dist(x, y, sg):
        return (x - xs) ** 2 / tau + sg * 2 * a * (x - xs) * (y - ys) + (y - ys) ** 2 / mu

    if gfirst:  # (x_k, y_{k+1})
        _closer(h, dist(it[0][0], it[1][1], -1), dist(x0, it[0][1], -1))
    else:
        _closer(h, dist(*it[0], -1), dist(x0, y0, -1))


FEJ = {
    "ProximalPoint n=1": lambda h: _fejer_pp(h, 1), "ProximalPoint n=2": lambda h: _fejer_pp(h, 2),
    "ProximalGradient n=1": lambda h: _fejer_pg(h, 1, ""),
    "ProximalGradient relaxed": lambda h: _fejer_pg(h, 1, "relaxed"), "GeneralizedProximalGradient": lambda h: _fejer_pg(h, 1, "gpg"),
    "DouglasRachford f first": lambda h: _fejer_dr(h, 1, False, True), "DouglasRachford g first": lambda h: _fejer_dr(h, 1, True, True),
    "ADMM f first": lambda h: _fejer_admm(h, False), "ADMM g first": lambda h: _fejer_admm(h, True),
    "ADMML2 f first": lambda h: _fejer_admm2(h, False), "ADMML2 g first": lambda h: _fejer_admm2(h, True),
    "LinearizedADMM largest step": lambda h: _fejer_ladmm(h, Fr(3, 8)),
    "PrimalDual f first": lambda h: _fejer_pd(h, False), "PrimalDual g first": lambda h: _fejer_pd(h, True),
}
for _nm, _f in FEJ.items():
    ob(P, f"approach: {_nm}", max_time=100, tol=2e-4 if "L2" in _nm else 1e-7,
       bounds="n=1 unless named; any convex functionals (gradient 2-Lipschitz), any start, all admissible steps; one iteration")(_f)


# =========================================================== unchanged states are solutions
SG = Fr(1, 2)


def _prob(h, c=1):
    """min 1/2||A x - b||^2 + sigma ||c x||_1, n = 2: functional pieces and its optimality test"""
    A = h.arr([[h.num(1), h.num(Fr(1, 2))], [h.num(0), h.num(1)]])
    b = h.vec("b", 2)
    f = h.mod.L2(Op=h.linop(A), b=b)
    g = h.mod.L1(sigma=float(SG))

    def kkt(x, z=None, s=None):
        x = h.flat(x)
        z = [c * e for e in x] if z is None else h.flat(z)
        if s is None:
            r = mtv(h, A, h.arr([a - d for a, d in zip(mv(h, A, x), b)]))
            s = [-e / c for e in r]
        for i in range(len(x)):
            sub(h, z[i], s[i], h.num(SG), i)

    return A, b, f, g, kkt


def sub(h, z, s, w, i, tol=2e-6):
    """s in the subdifferential of w|.| at z"""
    if z > (0 if h.sym else 1e-9):
        h.eq(s, w, f"optimality condition {i} (positive)", tol=tol)
    elif z < (0 if h.sym else -1e-9):
        h.eq(s, -w, f"optimality condition {i} (negative)", tol=tol)
    else:
        h.le(s, w, f"optimality condition {i} (zero, above)", tol=tol)
        h.le(-w, s, f"optimality condition {i} (zero, below)", tol=tol)


def _stay(h, new, old):
    for a, b in zip(h.flat(new), h.flat(old)):
        h.assume(a == b if h.sym else abs(a - b) <= 1e-9)


OPT = {}


def _o_pg(h, **kw):
    A, b, f, g, kkt = _prob(h)
    x0, tau = h.vec("x0", 2), h.real("tau", pos=True)
    eps = Fr(1)
    x = h.mod.optimization.primal.ProximalGradient(f, g, x0.copy(), epsg=1.0, tau=tau, niter=1, **kw)
    _stay(h, x, x0)
    kkt(x0)


def _o_eps(h):
    """regularisation weight 3: the weighted problem is the one solved"""
    A, b, f, _, kkt = _prob(h)
    g = h.mod.L1(sigma=float(SG / 4))
    x0, tau = h.vec("x0", 2), h.real("tau", pos=True)
    x = h.mod.optimization.primal.ProximalGradient(f, g, x0.copy(), epsg=4.0, tau=tau, niter=1)
    _stay(h, x, x0)
    kkt(x0)


OPT["ProximalGradient"] = _o_pg
OPT["ProximalGradient fista"] = lambda h: _o_pg(h, acceleration="fista")
OPT["ProximalGradient vandenberghe"] = lambda h: _o_pg(h, acceleration="vandenberghe")
OPT["ProximalGradient relaxed"] = lambda h: _o_pg(h, eta=0.5)
OPT["ProximalGradient weight"] = _o_eps


def _o_gpg(h, w=False):
    """two gradient terms; one regulariser"""
    A, b, f, g, kkt = _prob(h)
    x0, tau = h.vec("x0", 2), h.real("tau", pos=True)
    f2 = h.mod.L2(sigma=1.0, b=h.arr([h.num(0)] * 2))
    x = h.mod.optimization.primal.GeneralizedProximalGradient([f, f2], [g], x0.copy(), tau=tau, niter=1, **(dict(eta=0.5) if w else {}))
    _stay(h, x, x0)
    r = mtv(h, A, h.arr([a - d for a, d in zip(mv(h, A, x0), b)]))
    for i in range(2):
        sub(h, x0[i], -r[i] - x0[i], h.num(SG), i)


OPT["GeneralizedProximalGradient"] = _o_gpg
OPT["GeneralizedProximalGradient relaxed"] = lambda h: _o_gpg(h, True)


def _o_dr(h, gfirst, eta):
    A, b, f, g, kkt = _prob(h)
    y0 = h.vec("y0", 2)
    tau = h.num(Fr(3, 4))
    x, y = h.mod.optimization.primal.DouglasRachfordSplitting(f, g, y0.copy(), tau, niter=1, gfirst=gfirst, **eta)
    _stay(h, y, y0)
    kkt(x)


def _o_hqs(h, gfirst):
    A, b, f, g, kkt = _prob(h)
    x0 = h.vec("x0", 2)
    tau = h.num(Fr(3, 4))
    x, z = h.mod.optimization.primal.HQS(f, g, x0.copy(), tau, niter=1, gfirst=gfirst, z0=x0.copy())
    _stay(h, x if gfirst else z, x0)
    r = mtv(h, A, h.arr([a - d for a, d in zip(mv(h, A, x), b)]))
    for i in range(2):
        h.eq(r[i] + (x[i] - z[i]) / tau, 0, f"data block is optimal {i}", tol=2e-6)
        sub(h, z[i], (x[i] - z[i]) / tau, h.num(SG), i)


def _o_admm(h, gfirst):
    A, b, f, g, kkt = _prob(h)
    x0, z0 = h.vec("x0", 2), h.vec("z0", 2)
    tau = h.num(Fr(3, 4))
    it = []
    x, z = h.mod.optimization.primal.ADMM(f, g, x0.copy(), tau, z0=z0.copy(), niter=2, gfirst=gfirst,
                                          callback=lambda x, z: it.append((x.copy(), z.copy())), callbackz=True)
    _stay(h, x, z)
    _stay(h, (x, z)[not gfirst], it[0][not gfirst])
    kkt(x)


def _o_admml2(h, gfirst):
    A, b, f, g, kkt = _prob(h, c=h.num(Fr(3, 2)))
    C = h.arr([[h.num(Fr(3, 2)), h.num(0)], [h.num(0), h.num(Fr(3, 2))]])
    x0, z0 = h.vec("x0", 2), h.vec("z0", 2)
    fn = h.mod.optimization.primal.ADMML2
    run = lambda n: fn(g, h.linop(A), b, h.linop(C), x0.copy(), h.num(Fr(1, 4)), z0=z0.copy(), niter=n, gfirst=gfirst)
    (x1, z1), (x, z) = run(1), run(2)
    Cx = mv(h, C, x)
    if h.sym:
        _stay(h, Cx, z)
        _stay(h, x if gfirst else z, x1 if gfirst else z1)
    else:  # inner solver of limited accuracy
        h.assume(max(abs(Cx[i] - z[i]) for i in range(2)) < 1e-7)
        h.assume(max(abs((x if gfirst else z)[i] - (x1 if gfirst else z1)[i]) for i in range(2)) < 1e-7)
    kkt(x, z)


def _o_ladmm(h):
    a, c = h.num(Fr(3, 4)), h.num(Fr(3, 2))
    b, x0, z0 = h.real("b", lo=-4, hi=4), h.real("x0", lo=-4, hi=4), h.real("z0", lo=-4, hi=4)
    f, g = h.mod.L2(Op=h.linop(h.arr([[a]])), b=h.arr([b])), h.mod.L1(sigma=float(SG))
    fn = h.mod.optimization.primal.LinearizedADMM
    run = lambda n: fn(f, g, h.linop(h.arr([[c]])), h.arr([x0]), h.num(Fr(1, 2)), h.num(Fr(1, 8)), z0=h.arr([z0]), niter=n)
    (x1, z1), (x, z) = run(2), run(3)  # the dual variable starts at zero: it needs iterations to become anything else
    _stay(h, x, x1)
    _stay(h, z, z1)
    _stay(h, [c * x[0]], z)
    _stay(h, [c * x[0]], z)
    r = a * x[0] - b
    sub(h, z[0], -a * r / c, h.num(SG), 0)


def _o_twist(h):
    A, b, f, g, kkt = _prob(h)
    x0 = h.vec("x0", 2)
    x = h.mod.optimization.primal.TwIST(g, h.linop(A), b, x0.copy(), alpha=1.5, beta=0.75, niter=1)
    _stay(h, x, x0)
    x1 = h.mod.optimization.primal.TwIST(g, h.linop(A), b, x0.copy(), alpha=1.5, beta=0.75, niter=2)
    _stay(h, x1, x0)
    kkt(x0)


def _o_pd(h, gfirst, theta):
    """min 1/2||x - b||^2 + sigma||C x||_1"""
    C = h.arr([[h.num(1), h.num(-1)], [h.num(0), h.num(Fr(1, 2))]])
    b, x0, y0 = h.vec("b", 2), h.vec("x0", 2), h.vec("y0", 2)
    f, g = h.mod.L2(b=b), h.mod.L1(sigma=float(SG))
    x, y = h.mod.optimization.primaldual.PrimalDual(f, g, h.linop(C), x0.copy(), h.num(Fr(1, 2)), h.num(Fr(2, 3)), y0=y0.copy(),
                                                     theta=theta, niter=1, gfirst=gfirst, returny=True)
    _stay(h, x, x0)
    _stay(h, y, y0)
    Cx, Cy = mv(h, C, x0), mtv(h, C, y0)
    for i in range(2):
        h.eq(x0[i] - b[i] + Cy[i], 0, f"primal optimality {i}", tol=2e-6)
        sub(h, Cx[i], y0[i], h.num(SG), i)


def _o_palm(h, inertial):
    """min 1/2(xy - d)^2 + sigma|x| + sigma|y|"""
    x0, y0, d = h.real("x0", lo=-3, hi=3), h.real("y0", lo=-3, hi=3), h.real("d", lo=-5, hi=5)
    h.assume(h.And(x0 * x0 > 0.04, y0 * y0 > 0.04))
    B = h.sub("utils.bilinear").LowRankFactorizedMatrix
    H = B(h.arr([[x0]]), h.arr([[y0]]), h.arr([d]))
    f, g = h.mod.L1(sigma=float(SG)), h.mod.L1(sigma=float(SG))
    fn = h.mod.optimization.palm.iPALM if inertial else h.mod.optimization.palm.PALM
    x, y = fn(H, f, g, h.arr([x0]), h.arr([y0]), gammaf=2.0, gammag=1.5, niter=1)
    _stay(h, x, [x0])
    _stay(h, y, [y0])
    r = x0 * y0 - d
    sub(h, x0, -r * y0, h.num(SG), 0)
    sub(h, y0, -r * x0, h.num(SG), 1)


for _g in (True, False):
    OPT[f"DouglasRachford gfirst={_g}"] = lambda h, g=_g: _o_dr(h, g, {})
    OPT[f"DouglasRachford relaxed gfirst={_g}"] = lambda h, g=_g: _o_dr(h, g, dict(eta=0.5))
    OPT[f"HQS gfirst={_g}"] = lambda h, g=_g: _o_hqs(h, g)
    OPT[f"ADMM gfirst={_g}"] = lambda h, g=_g: _o_admm(h, g)
    OPT[f"ADMML2 gfirst={_g}"] = lambda h, g=_g: _o_admml2(h, g)
    for _t in (1.0, 0.5):
        OPT[f"PrimalDual gfirst={_g} theta={_t}"] = lambda h, g=_g, t=_t: _o_pd(h, g, t)
OPT["LinearizedADMM"] = _o_ladmm
OPT["TwIST"] = _o_twist
OPT["PALM"] = lambda h: _o_palm(h, False)
OPT["iPALM"] = lambda h: _o_palm(h, True)

for _nm, _f in OPT.items():
    ob(P, f"optimal: {_nm}", max_time=100, tol=2e-4 if "ADMML2" in _nm else 1e-6,
       bounds="1/2||Ax-b||^2 + sigma||Cx||_1 with fixed 2x2 A, C and sigma=1/2 (PALM: scalar factors), all data and states")(_f)
