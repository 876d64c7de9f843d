"""C02: proximal operators of nonconvex penalties attain the global minimum."""

from symx.harness import ob

from ._common import absub, total

PROP = "C02"


def obj(f, tau, z, x):
    return tau * f(z) + (z - x) * (z - x) / 2


def separable(h, mk, n, x, tau):
    """value additive over the entries, prox entry by entry"""
    f = mk()
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    h.eq(p, [mk().prox(x[i:i + 1].copy(), tau)[0] for i in range(n)], "prox is elementwise")
    h.eq(f(x.copy()), total(mk()(x[i:i + 1].copy()) for i in range(n)), "value is additive")
    h.eq(mk().prox(-x, tau), -p, "prox is odd")


# ---------------------------------------------------------------- L0
@ob(PROP, "L0 n=2", bounds="n=2; all x, sigma, tau: documented hard threshold, entries kept exactly")
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    x = h.vec("x", 2)
    f = h.mod.L0(sigma=sig)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    t = sig * tau
    for i in range(2):
        h.claim(h.Implies(abs(x[i]) > t, h.same(p[i], x[i])), f"kept {i}")
        h.claim(h.Implies(abs(x[i]) <= t, h.same(p[i], 0)), f"zeroed {i}")
    h.eq(f(x), (x[0] != 0) * 1 + (x[1] != 0) * 1, "value")


@ob(PROP, "L0 complex", bounds="n=1 complex")
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    x = h.vec("x", 1, cplx=True)
    p = h.mod.L0(sigma=sig).prox(x.copy(), tau)
    h.observe("p", p)
    if h.sqsum(x) > (sig * tau) ** 2:
        h.eq(p, x, "kept")
    else:
        h.eq(p, [0], "zeroed")


# ---------------------------------------------------------------- SCAD
def _scadval(a, sig, s):
    v = abs(s)
    if v <= sig:
        return sig * v
    if v <= a * sig:
        return (2 * a * sig * v - v * v - sig * sig) / (2 * (a - 1))
    return (a + 1) * sig * sig / 2


@ob(PROP, "SCAD n=1", bounds="n=1; all x, z, sigma, a>2, tau<a-1 (documented formula range)", max_time=120)
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    a = h.real("a")
    h.assume(a > 2)
    h.assume(tau < a - 1)
    x = h.vec("x", 1)
    f = h.mod.SCAD(sigma=sig, a=a)
    h.eq(f(x.copy()), _scadval(a, sig, x[0]), "value")
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    z = h.real("z")
    F = lambda s: _scadval(a, sig, s)
    h.le(obj(F, tau, p[0], x[0]), obj(F, tau, z, x[0]), "global minimiser")


@ob(PROP, "SCAD n=2", bounds="n=2, a=3.7: elementwise")
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    h.assume(tau < 2)
    separable(h, lambda: h.mod.SCAD(sigma=sig), 2, h.vec("x", 2), tau)


# ---------------------------------------------------------------- Log
@ob(PROP, "Log n=1", bounds="n=1; all x, sigma>0, gamma>0, tau", max_time=90)
def _(h):
    sig, tau, ga = h.real("sig", pos=True), h.real("tau", pos=True), h.real("ga", pos=True)
    r = h.real("r", nonneg=True)
    sg = h.real("sg")
    neg = sg < 0
    x = h.arr([-r if neg else r])
    f = h.mod.Log(sigma=sig, gamma=ga)
    lg = h.log(ga + 1)
    F = lambda v: sig / lg * h.log(ga * v + 1)
    h.eq(f(x.copy()), F(r), "value")
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    q = -p[0] if neg else p[0]
    h.le(0, q, "sign kept")
    # candidates: zero, and the larger root of z*gamma... = 0, a local minimum; the
    # smaller root is a local maximum (the derivative times (gamma z+1) is a convex parabola)
    k = tau * sig / lg
    disc = (ga * r - 1) ** 2 - 4 * ga * (k * ga - r)
    if disc < 0:
        h.eq(q, 0, "no stationary point")
        return
    root = (ga * r - 1 + h.sqrt(disc)) / (2 * ga)
    if root <= 0:
        h.eq(q, 0, "no positive stationary point")
        return
    h.claim(h.Or(h.same(q, 0), h.same(q, root)), "a candidate")
    h.le(obj(F, tau, q, r), r * r / 2, "not worse than zero")
    h.le(obj(F, tau, q, r), obj(F, tau, root, r), "not worse than the stationary point")


@ob(PROP, "Log n=2", bounds="n=2, sigma=1, gamma=2: elementwise, odd", max_time=90)
def _(h):
    tau = h.real("tau", pos=True)
    separable(h, lambda: h.mod.Log(sigma=1, gamma=2), 2, h.vec("x", 2), tau)


# ---------------------------------------------------------------- Log1
@ob(PROP, "Log1 n=1", bounds="n=1; all x, sigma, 0<=delta<=sqrt(2 tau sigma): documented thresholding")
def _(h):
    sig, tau, de = h.real("sig", pos=True), h.real("tau", pos=True), h.real("de", nonneg=True)
    h.assume(de * de <= 2 * tau * sig)
    x = h.vec("x", 1)
    p = h.mod.Log1(sigma=sig, delta=de).prox(x.copy(), tau)
    h.observe("p", p)
    a = abs(x[0])
    if (a + de) ** 2 <= 2 * tau * sig:
        h.eq(p, [0], "zeroed")
        return
    m = (a - de + h.sqrt((a + de) ** 2 - 2 * tau * sig)) / 2
    h.eq(p, [m if x[0] > 0 else -m], "documented formula")


@ob(PROP, "Log1 complex", bounds="n=1 complex, x = r*(c+is): same thresholding of the magnitude, phase kept", tol=1e-5)
def _(h):
    sig, tau, de = h.real("sig", pos=True), h.real("tau", pos=True), h.real("de", nonneg=True)
    h.assume(de * de < 2 * tau * sig)
    r = h.real("r", pos=True)
    c, s = h.unit2("d")
    x = h.arr([complex(0, 1) * (r * s) + r * c])
    p = h.mod.Log1(sigma=sig, delta=de).prox(x.copy(), tau)
    h.observe("p", p)
    if (r + de) ** 2 <= 2 * tau * sig:
        h.eq(p, [0], "zeroed")
        return
    m = (r - de + h.sqrt((r + de) ** 2 - 2 * tau * sig)) / 2
    h.eq([h.flat(p)[0].real, h.flat(p)[0].imag], [m * c, m * s], "documented formula on the magnitude")


@ob(PROP, "Log1 value", bounds="n=2, sigma=1")
def _(h):
    de = h.real("de", pos=True)
    x = h.vec("x", 2, nz=True)
    h.eq(h.mod.Log1(sigma=1.0, delta=de)(x), h.log(abs(x[0]) + de) + h.log(abs(x[1]) + de), "value")


@ob(PROP, "Log1 value sigma", bounds="n=1, any sigma")
def _(h):
    de, sig = h.real("de", pos=True), h.real("sig", pos=True)
    x = h.vec("x", 1, nz=True)
    h.eq(h.mod.Log1(sigma=sig, delta=de)(x), sig * h.log(abs(x[0]) + de), "value is scaled by sigma")


# ---------------------------------------------------------------- Geman
@ob(PROP, "Geman value", bounds="n=2; all x, sigma, gamma")
def _(h):
    sig, ga = h.real("sig", pos=True), h.real("ga", pos=True)
    x = h.vec("x", 2)
    f = h.mod.Geman(sigma=sig, gamma=ga)
    h.eq(f(x), total(sig * abs(v) / (abs(v) + ga) for v in h.flat(x)), "value")


def _geman(h, sign, gamma):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    ga = h.num(gamma) if gamma else h.real("ga", pos=True)
    r = h.real("r", nonneg=True)
    x = h.arr([sign * r])
    f = h.mod.Geman(sigma=sig, gamma=ga)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    q = sign * p[0]
    h.le(0, q, "sign kept")
    F = lambda v: sig * v / (v + ga)
    if q == 0:
        # zero is optimal: no z >= 0 does better
        z = h.real("z", nonneg=True)
        h.le(r * r / 2, obj(F, tau, z, r), "zero is a global minimiser")
    else:
        h.eq(tau * sig * ga + (q - r) * (q + ga) ** 2, 0, "stationary")
        h.le(2 * tau * sig * ga, (q + ga) ** 3, "local minimum")
        h.le(obj(F, tau, q, r), r * r / 2, "not worse than zero")


for _s, _g in [(1, 1), (-1, 1), (1, 2)]:
    ob(PROP, f"Geman n=1 sign={_s} gamma={_g}", bounds=f"n=1; all |x|, sigma, tau; gamma={_g}", max_time=100, tol=1e-5)(
        lambda h, s=_s, g=_g: _geman(h, s, g))


# ---------------------------------------------------------------- ETP
def _etp(h, sign, gamma):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    r = h.real("r", nonneg=True)
    x = h.arr([sign * r])
    f = h.mod.ETP(sigma=sig, gamma=h.num(gamma))
    den = 1 - h.exp(h.num(-gamma))
    F = lambda v: sig / den * (1 - h.exp(-gamma * abs(v)))
    h.eq(f(x.copy()), F(r), "value")
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    q = sign * p[0]
    k = tau * sig / den
    # candidates: zero and the larger root of r = z + k gamma exp(-gamma z)
    t = k * gamma * gamma * h.exp(-gamma * r)
    if t > h.exp(h.num(-1)):
        h.eq(q, 0, "no stationary point")
        return
    s = r + h.lambertw(-t) / gamma
    h.claim(h.Or(h.same(q, 0), h.same(q, s)), "a candidate")
    h.le(obj(F, tau, q, r), r * r / 2, "not worse than zero")
    h.le(obj(F, tau, q, r), obj(F, tau, s, r), "not worse than the stationary point")


for _s, _g in [(1, 1), (1, 2)]:
    ob(PROP, f"ETP n=1 sign={_s} gamma={_g}", bounds=f"n=1; all |x|, sigma, tau; gamma={_g}", max_time=100, tol=1e-5)(
        lambda h, s=_s, g=_g: _etp(h, s, g))


@ob(PROP, "ETP odd", bounds="n=2, gamma=1: prox is odd and elementwise", tol=1e-5)
def _(h):
    sig, tau = h.real("sig", pos=True), h.real("tau", pos=True)
    r = h.real("r", pos=True)
    f = h.mod.ETP(sigma=sig)
    p = f.prox(h.arr([r]), tau)
    q = f.prox(h.arr([-r, 0]), tau)
    h.observe("q", q)
    h.eq(q, [-p[0], 0], "odd")


# ---------------------------------------------------------------- relaxed Mumford-Shah
@ob(PROP, "RelaxedMumfordShah n=1", bounds="n=1; all x, z, sigma, kappa, tau")
def _(h):
    sig, ka, tau = h.real("sig", pos=True), h.real("ka", pos=True), h.real("tau", pos=True)
    x = h.vec("x", 1)
    f = h.mod.RelaxedMumfordShah(sigma=sig, kappa=ka)
    F = lambda v: h.min(sig * v * v, ka)
    h.eq(f(x.copy()), F(x[0]), "value")
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    z = h.real("z")
    h.le(obj(F, tau, p[0], x[0]), obj(F, tau, z, x[0]), "global minimiser")


@ob(PROP, "RelaxedMumfordShah elementwise", bounds="n=2: prox entry by entry as documented; value of the whole vector as documented")
def _(h):
    sig, ka, tau = h.real("sig", pos=True), h.real("ka", pos=True), h.real("tau", pos=True)
    x = h.vec("x", 2)
    mk = lambda: h.mod.RelaxedMumfordShah(sigma=sig, kappa=ka)
    p = mk().prox(x.copy(), tau)
    h.observe("p", p)
    h.eq(p, [mk().prox(x[i:i + 1].copy(), tau)[0] for i in range(2)], "prox is elementwise")
    h.eq(mk()(x.copy()), h.min(sig * h.sqsum(x), ka), "value")


# ---------------------------------------------------------------- quadratic envelopes
def _qec2(h, lo, hi):
    s, tau = h.real("s", pos=True), h.real("tau", pos=True)
    mu = s * s / 2
    if lo == 0:
        h.assume(tau < 1)
    elif hi:
        h.assume(tau == 1)
    else:
        h.assume(tau > 1)
    x = h.vec("x", 1)
    f = h.mod.QuadraticEnvelopeCard(mu=mu)

    def F(v):
        w = h.max(0, s - abs(v))
        return mu - w * w / 2

    h.eq(f(x.copy()), F(x[0]), "value")
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    z = h.real("z")
    h.le(obj(F, tau, p[0], x[0]), obj(F, tau, z, x[0]), "global minimiser")


for _nm, _lo, _hi in [("tau<1", 0, 1), ("tau=1", 1, 2), ("tau>1", 1, None)]:
    ob(PROP, f"QuadraticEnvelopeCard {_nm}", bounds=f"n=1; all x, z, mu=s^2/2, {_nm}", max_time=100)(
        lambda h, a=_lo, b=_hi: _qec2(h, a, b))


@ob(PROP, "QuadraticEnvelopeCard n=2", bounds="n=2, mu=1/2: elementwise")
def _(h):
    tau = h.real("tau", pos=True)
    h.assume(tau < 1)
    separable(h, lambda: h.mod.QuadraticEnvelopeCard(mu=0.5), 2, h.vec("x", 2), tau)


def _qeci(h, n, r0, tau_case):
    """prox of the envelope: y = (x-(1-tau)p)/tau is a subgradient at p of
    phi = Q + 1/2|.|^2, whose conjugate is half the energy of the r0 largest entries;
    by Fenchel: phi(p) + phi*(y) = <p, y>"""
    tau = h.real("tau", pos=True)
    h.assume(tau < 1 if tau_case == "<1" else tau >= 1)
    # decreasing magnitudes, signs arbitrary by oddness (checked separately)
    d = [h.real(f"d{i}", nonneg=True) for i in range(n)]
    x = [None] * n
    acc = 0
    for i in range(n - 1, -1, -1):
        acc = acc + d[i]
        x[i] = acc
    if tau_case != "<1":
        h.assume(d[r0 - 1] > 0)
    x = h.arr(x)
    f = h.mod.QuadraticEnvelopeCardIndicator(r0)
    p = f.prox(x.copy(), tau)
    h.observe("p", p)
    if tau_case != "<1":
        h.eq(p, [x[i] if i < r0 else 0 for i in range(n)], "keeps the r0 largest entries")
        return
    Q = f(p.copy())
    y = [(x[i] - (1 - tau) * p[i]) / tau for i in range(n)]
    for i in range(n - 1):
        h.le(p[i + 1], p[i], "order kept")
        h.le(y[i + 1], y[i], "order of the subgradient")
    h.le(0, p[n - 1], "sign kept")
    h.le(0, y[n - 1], "sign of the subgradient")
    top = total(y[i] * y[i] for i in range(r0)) / 2
    h.eq(Q + h.sqsum(p) / 2 + top, total(a * b for a, b in zip(p, y)), "Fenchel equality")


for _n, _r, _t in [(2, 1, "<1"), (3, 1, "<1"), (3, 2, "<1"), (2, 1, ">=1"), (3, 2, ">=1")]:
    ob(PROP, f"QuadraticEnvelopeCardIndicator n={_n} r0={_r} tau{_t}",
       bounds=f"n={_n}, r0={_r}; all nonnegative sorted x, tau{_t}", max_time=150)(
        lambda h, n=_n, r=_r, t=_t: _qeci(h, n, r, t))


@ob(PROP, "QuadraticEnvelopeCardIndicator symmetry", bounds="n=2, r0=1: sign flips and permutations commute with prox")
def _(h):
    tau = h.real("tau", pos=True)
    h.assume(tau < 1)
    a, b = h.real("a", pos=True), h.real("b", pos=True)
    h.assume(a > b)
    f = h.mod.QuadraticEnvelopeCardIndicator(1)
    p = f.prox(h.arr([a, b]), tau)
    h.observe("p", p)
    h.eq(f.prox(h.arr([b, -a]), tau), [p[1], -p[0]], "symmetry")
    h.eq(f(h.arr([b, -a])), f(h.arr([a, b])), "value symmetry")


@ob(PROP, "QuadraticEnvelopeCardIndicator value", bounds="n=3, r0=2; all sorted nonnegative x: value equals the supremum over y of <x,y>-|top(y)|^2/2-|x|^2/2", max_time=100)
def _(h):
    n, r0 = 3, 2
    d = [h.real(f"d{i}", nonneg=True) for i in range(n)]
    x = [d[0] + d[1] + d[2], d[1] + d[2], d[2]]
    y = [h.real(f"y{i}", nonneg=True) for i in range(n)]
    h.assume(h.And(y[0] >= y[1], y[1] >= y[2]))
    f = h.mod.QuadraticEnvelopeCardIndicator(r0)
    v = f(h.arr(x))
    h.observe("v", [v])
    h.le(h.dot(x, y) - (y[0] * y[0] + y[1] * y[1]) / 2 - h.sqsum(x) / 2, v, "upper bound of the affine minorants")


@ob(PROP, "QuadraticEnvelopeCardIndicator small input", bounds="n<=r0: value 0, prox is the identity")
def _(h):
    tau = h.real("tau", pos=True)
    x = h.vec("x", 2)
    f = h.mod.QuadraticEnvelopeCardIndicator(2)
    h.eq(f(x), 0, "value")
    h.eq(f.prox(x.copy(), tau), x, "identity")


# ---------------------------------------------------------------- omitted coefficients
@ob("C02", "omitted weights are one", bounds="L0, relaxed Mumford-Shah; n=2, all x, tau", tol=1e-6)
def _(h):
    x, tau, one = h.vec("x", 2), h.real("tau", pos=True), h.num(1)
    for nm, f, g in (("L0", h.mod.L0(), h.mod.L0(sigma=one)),
                     ("RelaxedMumfordShah", h.mod.RelaxedMumfordShah(), h.mod.RelaxedMumfordShah(sigma=one, kappa=one))):
        h.eq(f(x.copy()), g(x.copy()), nm + ": value")
        h.eq(f.prox(x.copy(), tau), g.prox(x.copy(), tau), nm + ": prox")
