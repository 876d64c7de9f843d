"""C09: schedules, caches, counters and warm starts over call histories."""

from symx.harness import ob

from ._common import tight, total, ufx

P = "C09"


def keep(h, a):
    return h.arr(list(h.flat(a)))


# ------------------------------------------------------------------ schedules
# name: (operator from a schedule or a constant, parameter values, inputs, value depends on it)
def _sched(h, mk, vals, xs, value, dual=True, tol=0):
    """the k-th prox uses schedule(k) (k = 1, 2, ...), the value the current element; a second
    operator of the same class and rejected calls elsewhere change nothing"""
    taus = [h.real(f"tau{i}", pos=True) for i in range(3)]
    f, other = mk(lambda k: vals[k]), mk(lambda k: vals[k])
    if value:
        h.eq(h.arr([f(xs[0])]), h.arr([mk(vals[0])(xs[0])]), "value before any call")
    h.eq(f.prox(xs[0], taus[0]), mk(vals[1]).prox(xs[0], taus[0]), "first prox")
    other.prox(xs[1], h.num(1))
    if value:
        h.eq(h.arr([f(xs[1])]), h.arr([mk(vals[1])(xs[1])]), "value after one call")
        f(xs[0])
    h.eq(f.prox(xs[1], taus[1]), mk(vals[2]).prox(xs[1], taus[1]), "second prox")
    if dual:
        d = f.proxdual(xs[0], taus[2])
        h.eq(d, mk(vals[3]).proxdual(xs[0], taus[2]), "third evaluation, through the dual")
    else:
        h.eq(f.prox(xs[0], taus[2]), mk(vals[3]).prox(xs[0], taus[2]), "third prox")
    h.observe("d", keep(h, f.prox(xs[0], h.num(1))))


def _sv(h, n=5):
    return [h.real(f"s{i}", pos=True) for i in range(n)]


def _x(h, n, cplx=False):
    return [h.vec("x", n, cplx=cplx), h.const([1.5, -0.5, 0.25, 2.0][:n])]


ob(P, "schedule L1", bounds="n=1, 3 evaluations, any schedule and steps")(
    lambda h: _sched(h, lambda s: h.mod.L1(sigma=s), _sv(h), _x(h, 1), True, dual=False))
ob(P, "schedule L1 n=2", bounds="n=2, 3 evaluations, fixed second input")(
    lambda h: _sched(h, lambda s: h.mod.L1(sigma=s), _sv(h), _x(h, 2), True, dual=False))
ob(P, "schedule L1 g", bounds="n=1, 3 evaluations (one through the dual)")(
    lambda h: _sched(h, lambda s, g=h.vec("g", 1): h.mod.L1(sigma=s, g=g), _sv(h), _x(h, 1), True))
ob(P, "schedule L0", bounds="n=1, 3 evaluations (one through the dual)")(
    lambda h: _sched(h, lambda s: h.mod.L0(sigma=s), _sv(h), _x(h, 1), True))
ob(P, "schedule RelaxedMumfordShah sigma", bounds="n=1, 3 evaluations (one through the dual)")(
    lambda h: _sched(h, lambda s: h.mod.RelaxedMumfordShah(sigma=s, kappa=h.num(0.5)), _sv(h), _x(h, 1), True))
ob(P, "schedule RelaxedMumfordShah kappa", bounds="n=1, 3 evaluations (one through the dual)")(
    lambda h: _sched(h, lambda s: h.mod.RelaxedMumfordShah(sigma=h.num(0.5), kappa=s), _sv(h), _x(h, 1), True))


def _rms(h):
    """both parameters scheduled: they advance together"""
    s, k = _sv(h), [h.real(f"k{i}", pos=True) for i in range(5)]
    x = _x(h, 1)
    f = h.mod.RelaxedMumfordShah(sigma=lambda i: s[i], kappa=lambda i: k[i])
    for i in (1, 2):
        t = h.real(f"tau{i}", pos=True)
        h.eq(f.prox(x[0], t), h.mod.RelaxedMumfordShah(s[i], k[i]).prox(x[0], t), f"evaluation {i}")
        h.eq(f(x[1]), h.mod.RelaxedMumfordShah(s[i], k[i])(x[1]), f"value after {i}")


ob(P, "schedule RelaxedMumfordShah both", bounds="n=1, 2 evaluations")(_rms)
for _n, _s in (("L0Ball", [2, 1, 2, 0, 1]), ("L0Ball increasing", [0, 1, 2, 3, 3])):
    ob(P, "schedule " + _n, bounds="n=3, 3 evaluations, radii " + str(_s[:4]))(
        lambda h, s=_s: _sched(h, lambda r: h.mod.L0Ball(r), s, _x(h, 3), True, dual=False))
for _n, _s in (("L10Ball", [2, 1, 2, 0, 1]), ("L10Ball increasing", [0, 1, 2, 1, 1])):
    ob(P, "schedule " + _n, bounds="2x2 groups, 3 evaluations, radii " + str(_s[:4]))(
        lambda h, s=_s: _sched(h, lambda r: h.mod.L10Ball(2, r), s, [h.vec("x", 4), h.const([1.5, -0.5, 0.25, 2.0])], True, dual=False))


def _schedTV(h):
    """the number of inner iterations of the k-th prox is schedule(k)"""
    vals = [0, 2, 1, 0, 1]
    x = h.vec("x", 2, lo=-2, hi=2)
    mk = lambda n: h.mod.TV((2,), sigma=h.num(0.5), niter=n, rtol=0)
    f, other = mk(lambda k: vals[k]), mk(lambda k: vals[k])
    y = h.const([0.5, -1.0])
    h.eq(f.prox(y, h.num(1)), mk(vals[1]).prox(y, h.num(1)), "first prox")
    other.prox(y, h.num(1))
    f(y)
    h.eq(f.prox(x, h.num(1)), mk(vals[2]).prox(x, h.num(1)), "second prox")
    h.eq(f.prox(y, h.num(2)), mk(vals[3]).prox(y, h.num(2)), "third prox")


ob(P, "schedule TV iterations", bounds="n=2, schedule 2, 1, 0 inner iterations")(_schedTV)


# ------------------------------------------------------------------ L2: caches and warm starts
def _l2(h, M, explicit, niter=300, x0=None, **kw):
    # positive definite by construction: one row plus the identity of the proximal term
    b, q = h.vec("b", 1), h.vec("q", 2)
    sg, al = h.real("sig", pos=True), h.real("al")
    f = h.mod.L2(Op=h.linop(M, explicit=explicit), b=b, q=q, sigma=sg, alpha=al, niter=niter, x0=x0, **kw, **tight(dict(kw, explicit=explicit)))

    def residual(p, x, t):
        r = M[0, 0] * p[0] + M[0, 1] * p[1] - b[0]
        return h.arr([p[i] - x[i] + t * (sg * M[0, i] * r + al * q[i]) for i in range(2)])

    return f, residual


def _cache(h, explicit, order, **kw):
    M = h.const([[1.0, 2.0]]) if not explicit else h.arr([[h.num(1), h.real("m")]])
    f, residual = _l2(h, M, explicit, **kw)
    ts = [h.real("t0", pos=True), h.real("t1", pos=True)]
    for k, (i, j) in enumerate(order):
        x = h.vec(f"x{j}", 2)
        p = f.prox(x, ts[i])
        h.eq(residual(p, x, ts[i]), h.arr([h.num(0)] * 2), f"call {k + 1} is the proximal point of its own arguments")
    h.observe("p", p)


ORDERS = {"t0 t1 t0": ((0, 0), (1, 1), (0, 2)), "t0 t0 t1": ((0, 0), (0, 1), (1, 0)), "t0 t1 t1": ((0, 0), (1, 0), (1, 1))}
for _on, _o in ORDERS.items():
    for _n, _k in {
        "L2 factorize": dict(explicit=True, densesolver="factorize"),
        "L2 explicit": dict(explicit=True),
        "L2 explicit numpy": dict(explicit=True, densesolver="numpy"),
        "L2 explicit cgls": dict(explicit=True, solver="cgls"),
        "L2 legacy": dict(explicit=False),
        "L2 cg": dict(explicit=False, solver="cg"),
        "L2 cgls": dict(explicit=False, solver="cgls"),
        "L2 cold cg": dict(explicit=False, solver="cg", warm=False),
    }.items():
        ob(P, f"cache {_n} steps {_on}", bounds="1x2 operator, 3 calls, any data, inputs and (equal or different) steps",
           tol=1e-6 if _k["explicit"] else 2e-4, validate=_k["explicit"])(lambda h, k=_k, o=_o: _cache(h, order=o, **k))


def _warm(h, solver, warm, start):
    """with no inner iteration allowed the second call returns its starting guess: the last
    result when warm, else the user's guess (or zero)"""
    M = h.const([[1.0, 2.0]])
    x0 = h.vec("x0", 2) if start else None
    sched = [7, 300, 0, 300, 0]
    f, residual = _l2(h, M, False, niter=lambda k: sched[k], x0=x0, solver=solver, warm=warm)
    t = h.real("t", pos=True)
    x, y = h.vec("x", 2), h.vec("y", 2)
    snap = h.snapshot(*([x0] if start else []))
    cold = x0 if start else h.arr([h.num(0)] * 2)
    p1 = keep(h, f.prox(x, t))
    h.eq(residual(p1, x, t), h.arr([h.num(0)] * 2), "first call")
    h.eq(f.prox(y, t), p1 if warm else cold, "guess of the second call")
    p3 = keep(h, f.prox(y, 2 * t))
    h.eq(residual(p3, y, 2 * t), h.arr([h.num(0)] * 2), "third call")
    h.eq(f.prox(x, t), p3 if warm else cold, "guess of the fourth call")
    h.unchanged(snap, "user's starting guess")


for _s in ("legacy", "cg", "cgls"):
    for _w in (True, False):
        for _x0 in (True, False):
            ob(P, f"warm start L2 {_s} warm={_w} x0={'given' if _x0 else 'none'}", validate=False, tol=2e-4,
               bounds="1x2 operator, 4 calls with iteration schedule (many, 0, many, 0)")(
                lambda h, s=_s, w=_w, x=_x0: _warm(h, s, w, x))


def _quad(h, explicit, warm):
    """repeated calls with different steps; iterative solves"""
    M = h.const([[2.0, 0.5], [0.5, 1.0]])
    b, x0 = h.vec("b", 2), h.vec("x0", 2)
    f = h.mod.Quadratic(Op=h.linop(M, explicit=explicit), b=b, c=h.num(0), niter=300, x0=x0, warm=warm)
    snap = h.snapshot(x0, b)
    for k, (t, j) in enumerate(((h.num(0.5), 0), (h.num(2), 1), (h.num(0.5), 2))):
        x = h.vec(f"x{j}_", 2)
        p = f.prox(x, t)
        r = h.arr([p[i] - x[i] + t * (M[i, 0] * p[0] + M[i, 1] * p[1] + b[i]) for i in range(2)])
        h.eq(r, h.arr([h.num(0)] * 2), f"call {k + 1}")
    h.unchanged(snap, "user's array")


for _e in (True, False):
    for _w in (True, False):
        ob(P, f"cache Quadratic explicit={_e} warm={_w}", bounds="fixed 2x2 operator, 3 calls, fixed steps", tol=1e-6 if _e else 2e-4,
           validate=_e)(lambda h, e=_e, w=_w: _quad(h, e, w))


def _quadwarm(h, warm):
    M = h.const([[2.0, 0.5], [0.5, 1.0]])
    x0, b = h.vec("x0", 2), h.vec("b", 2)
    f = h.mod.Quadratic(Op=h.linop(M, explicit=False), b=b, niter=0, x0=x0, warm=warm)
    x = h.vec("x", 2)
    h.eq(f.prox(x, h.num(1)), x0, "no inner iteration returns the guess")
    f.niter = 300
    p = keep(h, f.prox(x, h.num(1)))
    f.niter = 0
    h.eq(f.prox(x, h.num(2)), p if warm else x0, "guess of the third call")


for _w in (True, False):
    ob(P, f"warm start Quadratic warm={_w}", validate=False, tol=2e-4, bounds="fixed 2x2 operator, 3 calls")(lambda h, w=_w: _quadwarm(h, w))


# ------------------------------------------------------------------ limited inner iterations
def _limited(h, kind):
    """niter=1: the inner solver does one step from the user's starting guess"""
    t = h.real("t", lo=0.1, hi=5)
    x, x0 = h.vec("x", 2, lo=-3, hi=3), h.vec("x0", 2, lo=-3, hi=3)
    one = h.num(1)
    if kind == "affine":
        M = h.const([[1.0, 2.0], [0.5, -1.0]])
        b = h.vec("b", 2, lo=-3, hi=3)
        N = [[total(M[i, k] * M[j, k] for k in range(2)) for j in range(2)] for i in range(2)]
        y = [total(M[i, k] * x[k] for k in range(2)) - b[i] for i in range(2)]
        v = _cgstep(h, N, y, [h.num(0)] * 2)
        ref = [x[k] - total(M[i, k] * v[i] for i in range(2)) for k in range(2)]
        f, g = h.mod.projection.AffineSetProj(h.linop(M, explicit=False), b, 1), h.mod.AffineSet(h.linop(M, explicit=False), b, 1)
        out = [f(x.copy()), g.prox(x.copy(), t)]
    elif kind == "quadratic":
        M = h.const([[2.0, 0.5], [0.5, 1.0]])
        b = h.vec("b", 2, lo=-3, hi=3)
        N = [[(one if i == j else 0) + t * M[i, j] for j in range(2)] for i in range(2)]
        ref = _gradstep(h, N, [x[i] - t * b[i] for i in range(2)], h.flat(x0))
        f = h.mod.Quadratic(Op=h.linop(M, explicit=False), b=b, niter=1, x0=x0, warm=False)
        out = [h.mod.Quadratic(Op=h.linop(M, explicit=False), b=b, niter=1, x0=x0).prox(x.copy(), t),
               f.prox(x.copy(), t), f.prox(x.copy(), t)]
    else:
        M = h.const([[1.0, 2.0]])
        b, sig = h.vec("b", 1, lo=-3, hi=3), h.real("sig", lo=0.1, hi=4)
        N = [[(one if i == j else 0) + t * sig * M[0, i] * M[0, j] for j in range(2)] for i in range(2)]
        y = [x[i] + t * sig * M[0, i] * b[0] for i in range(2)]
        if kind == "cg":
            ref = _cgstep(h, N, y, h.flat(x0))
        else:
            ref = _gradstep(h, N, y, h.flat(x0))
        out = []
        for nit in (1, lambda k: 1):
            f = h.mod.L2(Op=h.linop(M, explicit=False), b=b, sigma=sig, niter=nit, x0=x0.copy(), warm=False,
                         **({} if kind == "legacy" else dict(solver=kind)))
            out += [f.prox(x.copy(), t), f.prox(x.copy(), t)]
    for o in out:
        h.eq(o, ref, "one inner iteration", tol=1e-5)


def _cgstep(h, N, y, x0):
    r = [y[i] - total(N[i][j] * x0[j] for j in range(2)) for i in range(2)]
    q = [total(N[i][j] * r[j] for j in range(2)) for i in range(2)]
    d = total(a * b for a, b in zip(r, q))
    h.assume(h.sqsum(r) > 0.01)
    return [x0[i] + h.sqsum(r) / d * r[i] for i in range(2)]


def _gradstep(h, N, y, x0):
    r = [y[i] - total(N[i][j] * x0[j] for j in range(2)) for i in range(2)]
    g = [total(N[j][i] * r[j] for j in range(2)) for i in range(2)]
    q = [total(N[i][j] * g[j] for j in range(2)) for i in range(2)]
    h.assume(h.sqsum(g) > 0.01)
    return [x0[i] + h.sqsum(g) / h.sqsum(q) * g[i] for i in range(2)]


@ob(P, "affine projections have no memory", bounds="two equations, one inner iteration, fixed points, right-hand side [b, 1] with b in [-3, 3]", tol=2e-4)
def _(h):
    # an earlier call does not serve as a starting guess of the inner solver
    M = h.const([[1.0, 2.0], [0.5, -1.0]])
    b = h.arr([h.real("b", lo=-3, hi=3), h.num(1)])
    x, y = h.const([2.0, 0.5]), h.const([1.0, -2.0])
    mk = (lambda: h.mod.projection.AffineSetProj(h.linop(M, explicit=False), b, 1),
          lambda: (lambda f: lambda v: f.prox(v, h.num(1)))(h.mod.AffineSet(h.linop(M, explicit=False), b, 1)))
    for m in mk:
        f = m()
        first = keep(h, f(x))
        f(y)
        h.eq(f(x), first, "same point after another call")
        h.eq(m()(x), first, "same point from a fresh projection")


for _k in ("legacy", "cg", "quadratic", "affine"):
    ob(P, f"one inner iteration {_k}", bounds="2 unknowns, fixed operator, any data, input, starting guess in [-3, 3], step", tol=2e-4)(
        lambda h, k=_k: _limited(h, k))


# ------------------------------------------------------------------ nonlinear functionals
def _nl(h, warm):
    """the user's optimiser sees the current input, step and starting guess; the augmented
    value and gradient belong to that input and step"""
    seen = []

    class My(h.mod.Nonlinear):
        def fun(self, x):
            return h.uf("f", [x])

        def grad(self, x):
            return h.uf("g", [x], 2)

        def optimize(self):
            v = h.const([0.5, 2.0])
            fg = self._fungradprox(v, self.tau)
            seen.append((keep(h, self.y), self.tau, keep(h, self.x0), self._funprox(v, self.tau),
                         self._gradprox(v, self.tau), fg[0], fg[1], v))
            return h.uf("opt", [self.y, self.tau, self.x0], 2)

    x0 = h.vec("x0", 2)
    f = My(x0, niter=5, warm=warm)
    snap = h.snapshot(x0)
    guess = x0
    for k in range(3):
        x, t = h.vec(f"x{k}_", 2), h.real(f"t{k}", pos=True)
        sx = h.snapshot(x)
        p = f.prox(x, t)
        h.eq(p, h.uf("opt", [x, t, guess], 2), f"result of call {k + 1}")
        h.claim(len(seen) == k + 1, "one optimisation per call")
        y, tau, g0, fv, gv, fv2, gv2, v = seen[k]
        h.eq(y, x, "input of the augmented problem")
        h.eq(tau, t, "step of the augmented problem")
        h.eq(g0, guess, "starting guess")
        d = [v[i] - x[i] for i in range(2)]
        want = h.uf("f", [v]) + (d[0] * d[0] + d[1] * d[1]) / (2 * t)
        h.eq(fv, want, "augmented value")
        h.eq(fv2, want, "augmented value (with gradient)")
        g = h.uf("g", [v], 2)
        wg = h.arr([g[i] + d[i] / t for i in range(2)])
        h.eq(gv, wg, "augmented gradient")
        h.eq(gv2, wg, "augmented gradient (with value)")
        h.eq(f(x), h.uf("f", [x]), "value is the function")
        h.eq(f.grad(x), h.uf("g", [x], 2), "gradient is the user's")
        h.unchanged(sx, "input")
        if warm:
            guess = keep(h, p)
    h.unchanged(snap, "user's starting guess")


for _w in (True, False):
    ob(P, f"Nonlinear warm={_w}", bounds="n=2, 3 calls, arbitrary function, gradient and optimiser")(lambda h, w=_w: _nl(h, w))


# ------------------------------------------------------------------ composed operators keep the history of their parts
def _nested(h, wrap, unwrap):
    """a scheduled L1 inside a composition: its k-th evaluation is the composition's k-th"""
    s = _sv(h)
    f = wrap(h.mod.L1(sigma=lambda k: s[k]))
    for k in (1, 2, 3):
        t = h.real(f"t{k}", pos=True)
        x = h.vec("x", 1) if k != 2 else h.const([-1.5])
        h.eq(f.prox(x, t), wrap(h.mod.L1(sigma=s[k])).prox(x, t), f"evaluation {k}")


for _n, _f in {
    "scaled": lambda h: (lambda f: 2.0 * f),
    "shifted": lambda h: (lambda f: f + h.vec("v", 1)),
    "precomposed": lambda h: (lambda f: f.precomposition(2.0, h.vec("v", 1))),
    "stacked": lambda h: (lambda f: h.mod.VStack([f], nn=[1])),
    "orthogonal": lambda h: (lambda f: h.mod.Orthogonal(f, h.identity_op(1))),
}.items():
    ob(P, f"schedule inside {_n}", bounds="n=1, 3 evaluations")(lambda h, m=_f: _nested(h, m(h), None))


def _solverhist(h, name):
    """a scheduled regulariser inside a solver: iteration k uses schedule(k)"""
    s = _sv(h)
    x0, tau = h.vec("x0", 1), h.real("tau", pos=True)
    pri = h.mod.optimization.primal
    L1 = h.mod.L1
    if name == "ProximalPoint":
        r = pri.ProximalPoint(L1(sigma=lambda k: s[k]), x0, tau, niter=3)
        x = x0
        for k in (1, 2, 3):
            x = L1(sigma=s[k]).prox(x, tau)
        h.eq(r, x, "three iterations")
    else:
        b = h.vec("b", 1)
        f = h.mod.L2(b=b)
        r = pri.ProximalGradient(f, L1(sigma=lambda k: s[k]), x0, tau=tau, niter=2)
        x = x0
        for k in (1, 2):
            x = L1(sigma=s[k]).prox(x - tau * (x - b), tau)
        h.eq(r, x, "two iterations")


for _n in ("ProximalPoint", "ProximalGradient"):
    ob(P, f"schedule inside {_n}", bounds="n=1, 2-3 iterations")(lambda h, n=_n: _solverhist(h, n))


# ------------------------------------------------------------------ long histories
def _long(h, mk, vals, x, value=True):
    """14 evaluations, prox and dual prox in turn, with the value looked at now and then"""
    f, other = mk(lambda k: vals[k]), mk(lambda k: vals[k])
    t = h.num(1)
    for k in range(1, 15):
        g = mk(vals[k])
        if k % 3 == 2:
            h.eq(f.proxdual(x, t), g.proxdual(x, t), f"evaluation {k}, through the dual")
        else:
            h.eq(f.prox(x, t), g.prox(x, t), f"evaluation {k}")
        if k % 4 == 1:
            other.prox(x, t)
        if value and k % 5 in (0, 1):
            h.eq(h.arr([f(x)]), h.arr([g(x)]), f"value after {k} evaluations")


def _lv(h, n="s"):
    return [h.real(f"{n}{i}", lo=0.1, hi=1.5) for i in range(16)]


_LX = [2.0, -3.0]
_RAD = [2, 1, 2, 0, 1, 2, 2, 1, 0, 1, 2, 1, 0, 2, 1, 2]
for _n, _f in {
    "L1": lambda h: _long(h, lambda s, g=h.vec("g", 2, lo=-0.25, hi=0.25): h.mod.L1(sigma=s, g=g), _lv(h), h.const(_LX)),
    "L0": lambda h: _long(h, lambda s: h.mod.L0(sigma=s), [h.num(0.01 if r else 1) for r in _RAD], h.arr([h.real("x0", lo=2, hi=3), h.num(0.25)])),
    "L0Ball": lambda h: _long(h, lambda s: h.mod.L0Ball(s), _RAD, h.arr([h.real("x0", lo=2, hi=3), h.num(1)])),
    "L10Ball": lambda h: _long(h, lambda s: h.mod.L10Ball(2, s), _RAD, h.arr([h.real("x0", lo=2, hi=3), h.num(1), h.num(0.5), h.num(1)])),
    "RelaxedMumfordShah": lambda h: _long(h, lambda s: h.mod.RelaxedMumfordShah(sigma=s, kappa=h.num(40)), _lv(h), h.const(_LX)),
}.items():
    ob(P, "long schedule " + _n, bounds="14 evaluations, any schedule in [0.1, 1.5] (radii and L0: fixed)")(_f)


def _longcache(h, **kw):
    """12 calls; steps repeat, alternate and come back"""
    f, residual = _l2(h, h.const([[1.0, 2.0]]), True, **kw)
    ts = [h.num(v) for v in (0.5, 2)] + [h.real("t", lo=3, hi=5)]
    x = h.vec("x", 2)
    for k, i in enumerate((0, 0, 1, 0, 2, 2, 1, 1, 2, 0, 0, 2)):
        h.eq(residual(f.prox(x, ts[i]), x, ts[i]), h.arr([h.num(0)] * 2), f"call {k + 1}")


for _n, _k in {"factorize": dict(densesolver="factorize"), "default": dict(), "numpy": dict(densesolver="numpy")}.items():
    ob(P, f"long cache L2 {_n}", bounds="1x2 operator, 12 calls with three steps, any data, input and third step in [3, 5]", tol=1e-6)(
        lambda h, k=_k: _longcache(h, **k))
