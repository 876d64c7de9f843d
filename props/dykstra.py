"""C18: sums of functionals and intersections of sets."""

from symx import harness

from ._common import F_, P_, absprox, total, ufx
from ._solvers import lin

P = "C18"


def ob(prop, name, **kw):
    return harness.ob(prop, name, lazy_abs=True, **kw)


def absproj(h, name, log=None):
    def pr(x):
        if log is not None:
            log.append(name)
        return ufx(h, name + ".proj", [x], x).reshape(x.shape)

    return pr


def two(h, x0, s1, s2, n):
    """sequential scheme; per iteration (x, settling measure)"""
    x = x0
    p = q = h.arr([h.num(0)] * len(h.flat(x0)))
    out = []
    for _ in range(n):
        xo = x
        y = s1(lin(h, (1, x), (1, p)))
        p = lin(h, (1, x), (1, p), (-1, y))
        x = s2(lin(h, (1, y), (1, q)))
        q = lin(h, (1, y), (1, q), (-1, x))
        out.append((x, [(x, xo), (y, xo)]))
    return out


def cyclic(h, x0, steps, n):
    """u_0 = last u_m;  u_i = P_i(u_{i-1} + z_i);  z_i += u_{i-1} - u_i"""
    u = x0
    z = [h.arr([h.num(0)] * len(h.flat(x0))) for _ in steps]
    out = []
    for _ in range(n):
        uo, us = u, []
        for i, s in enumerate(steps):
            prev, u = u, s(lin(h, (1, u), (1, z[i])))
            z[i] = lin(h, (1, z[i]), (1, prev), (-1, u))
            us.append(u)
        out.append((u, [(uo, u)] + [(v, u) for v in us[:-1]]))
    return out


def parallel(h, x0, proxes, w, n):
    z = [x0 for _ in proxes]
    xo = x0
    out = []
    for _ in range(n):
        ps = [p(v) for p, v in zip(proxes, z)]
        x = lin(h, *[(wi, p) for wi, p in zip(w, ps)])
        z = [lin(h, (1, v), (1, x), (-1, p)) for v, p in zip(z, ps)]
        out.append((x, [(x, xo)] + [(p, x) for p in ps]))
        xo = x
    return out


def stopped(h, ref, tol):
    """iterate at which the documented criterion stops"""
    for k, (x, pairs) in enumerate(ref):
        if h.And(*[abs(a - b) < tol for u, v in pairs for a, b in zip(h.flat(u), h.flat(v))]):
            return k + 1
    return len(ref)


# ------------------------------------------------------------------ projections
def _projref(h, m, par, x0, n):
    st = [lambda v, i=i: ufx(h, f"p{i}.proj", [v], v) for i in range(m)]
    if m == 2 and not par:
        return two(h, x0, st[0], st[1], n)
    return cyclic(h, x0, st, n)


def _proj(h, m, par, dim, niter, functional):
    log = []
    ps = [absproj(h, f"p{i}", log) for i in range(m)]
    x0 = h.vec("x0", dim)
    snap = h.snapshot(x0)
    kw = dict(niter=niter, tol=0, use_parallel=par)
    if functional:
        r = h.mod.GenericIntersectionProx(ps, **kw).prox(x0, h.real("tau", pos=True))
    else:
        r = h.mod.projection.GenericIntersectionProj(ps, **kw)(x0)
    h.unchanged(snap, "input")
    if m == 1:
        want = ufx(h, "p0.proj", [x0], x0)
        h.claim(len(log) == 1, "one projection")
    else:
        ref = _projref(h, m, par, x0, niter)
        want = ref[-1][0] if niter else x0
        h.claim(log == [f"p{i}" for _ in range(niter) for i in range(m)], "projections evaluated in order, once per iteration")
    h.eq(r, want, f"iterate {niter}")
    h.observe("x", r)


for _m, _par in ((1, False), (1, True), (2, False), (2, True), (3, False), (3, True), (4, False)):
    for _it in ((1,) if _m == 1 else (0, 1, 2, 3)):
        for _fn in (False, True):
            ob(P, f"{'GenericIntersectionProx' if _fn else 'GenericIntersectionProj'} {_m} sets{' parallel' if _par else ''} niter={_it}",
               bounds=f"arbitrary projections, n=2, {_it} iterations, no tolerance")(
                lambda h, m=_m, p=_par, i=_it, f=_fn: _proj(h, m, p, 2, i, f))


def _projstop(h, m, par, niter, dim=1):
    """the run ends at the first iteration whose inner results agree within the tolerance"""
    log = []
    ps = [absproj(h, f"p{i}", log) for i in range(m)]
    x0, tol = h.vec("x0", dim), h.real("tol", pos=True)
    ref = _projref(h, m, par, x0, niter)
    k = stopped(h, ref, tol)
    r = h.mod.projection.GenericIntersectionProj(ps, niter=niter, tol=tol, use_parallel=par)(x0)
    h.claim(len(log) == k * m, "iterations until the tolerance is met")
    h.eq(r, ref[k - 1][0], "iterate at the stop")


for _m, _par in ((2, False), (2, True), (3, False)):
    for _it in (2, 3):
        ob(P, f"GenericIntersectionProj stop {_m} sets{' parallel' if _par else ''} niter={_it}",
           bounds=f"arbitrary projections, n=1, any tolerance, at most {_it} iterations")(
            lambda h, m=_m, p=_par, i=_it: _projstop(h, m, p, i))
    ob(P, f"GenericIntersectionProj stop {_m} sets{' parallel' if _par else ''} n=2",
       bounds="arbitrary projections, n=2, any tolerance, at most 2 iterations", tier="quick")(
        lambda h, m=_m, p=_par: _projstop(h, m, p, 2, 2))


def _indicator(h, m):
    """inside exactly when every projection moves the point by less than ten tolerances"""
    ps = [absproj(h, f"p{i}") for i in range(m)]
    x, tol = h.vec("x", 2), h.real("tol", pos=True)
    r = h.mod.GenericIntersectionProx(ps, niter=3, tol=tol)(x)
    near = h.And(*[abs(a - b) < 10 * tol for i in range(m)
                   for a, b in zip(h.flat(x), h.flat(ufx(h, f"p{i}.proj", [x], x)))])
    if r:
        h.claim(near, "inside")
    else:
        h.claim(h.Not(near), "outside")


for _m in (1, 2, 3):
    for _p in (P, "C04"):
        ob(_p, f"GenericIntersectionProx indicator {_m} sets", bounds="arbitrary projections, any point and tolerance")(
            lambda h, m=_m: _indicator(h, m))


# ------------------------------------------------------------------ sums
def _sumref(h, m, par, x0, tau, w, original, n):
    if m == 2 and not par:
        return two(h, x0, lambda v: P_(h, "f0", v, tau), lambda v: P_(h, "f1", v, tau), n)
    ts = [tau if original else tau / wi for wi in w]
    return parallel(h, x0, [lambda v, i=i: P_(h, f"f{i}", v, ts[i]) for i in range(m)], w, n)


def _w(h, m, weights, scaled=False):
    """weights summing to one: given (array or list) or the default; scaled: any positive weights, used in proportion"""
    if weights is None:
        return [h.num(1) / m] * m, {}
    if weights == "fixed":
        w = h.const([0.5] + [0.5 / (m - 1)] * (m - 1))
        return list(h.flat(w)), dict(weights=w)
    w = h.vec("w", m, pos=True)
    if scaled:
        tot = total(h.flat(w))
        return [v / tot for v in h.flat(w)], dict(weights=w if weights == "array" else list(h.flat(w)))
    h.assume(total(h.flat(w)) == 1)
    return list(h.flat(w)), dict(weights=w if weights == "array" else list(h.flat(w)))


def _sum(h, m, par, weights, original, niter, dim, tolsym=False, scaled=False):
    fs = [absprox(h, f"f{i}") for i in range(m)]
    x0, tau = h.vec("x0", dim), h.real("tau", pos=True)
    w, kw = _w(h, m, weights, scaled)
    tol = h.real("tol", pos=True) if tolsym else 0
    snap = h.snapshot(x0)
    if m > 1:
        ref = _sumref(h, m, par, x0, tau, w, original, niter)
        k = stopped(h, ref, tol) if tolsym else niter
    f = h.mod.Sum(fs, niter=niter, tol=tol, use_parallel=par, use_original_tau=original, **kw)
    r = f.prox(x0, tau)
    h.unchanged(snap, "input")
    if m == 1:
        h.eq(r, P_(h, "f0", x0, tau), "exact proximal point of the single term")
        h.claim(len(fs[0].calls) == 1, "one evaluation")
    else:
        for i in range(m):
            h.claim(len(fs[i].calls) == k, f"evaluations of term {i + 1}")
        h.eq(r, ref[k - 1][0] if k else x0, f"iterate {k}")
    h.observe("x", r)


for _it in (1, 2):
    ob(P, f"Sum one niter={_it}", bounds="arbitrary functional, n=2")(lambda h, i=_it: _sum(h, 1, False, None, False, i, 2))
for _it in (0, 1, 2, 3):
    for _o in (False, True):
        ob(P, f"Sum two niter={_it} original_tau={_o}", bounds=f"arbitrary functionals, n=2, {_it} iterations")(
            lambda h, i=_it, o=_o: _sum(h, 2, False, "array" if o else None, o, i, 2))
for _m, _par in ((2, True), (3, False), (3, True), (4, False)):
    for _wt in (None, "array", "list"):
        for _o in (False, True):
            for _it in (1, 2, 3):
                ob(P, f"Sum {_m} parallel={_par} weights={_wt} original_tau={_o} niter={_it}",
                   tier="quick",
                   bounds=f"arbitrary functionals, n=2, {_it} iterations, any weights summing to one")(
                    lambda h, m=_m, p=_par, w=_wt, o=_o, i=_it: _sum(h, m, p, w, o, i, 2))
for _m, _par in ((2, True), (3, False)):
    for _wt in ("array", "list"):
        ob(P, f"Sum {_m} parallel={_par} weights in proportion ({_wt})", bounds="arbitrary functionals, n=2, 2 iterations, original tau, any positive weights")(
            lambda h, m=_m, p=_par, w=_wt: _sum(h, m, p, w, True, 2, 2, scaled=True))
for _m, _par, _it in ((2, False, 2), (2, False, 3), (2, True, 2), (3, False, 2)):
    ob(P, f"Sum stop {_m}{' parallel' if _par else ''} niter={_it}", bounds=f"arbitrary functionals, n=1, any tolerance, at most {_it} iterations")(
        lambda h, m=_m, p=_par, i=_it: _sum(h, m, p, None, False, i, 1, True))
ob(P, "Sum stop 2 n=2", bounds="arbitrary functionals, n=2, any tolerance, at most 2 iterations")(
    lambda h: _sum(h, 2, False, None, False, 2, 2, True))


# ------------------------------------------------------------------ values
def _value(h, kinds):
    """r: real value, t / u: feasible (python / numpy bool), f / g: infeasible"""
    x = h.vec("x", 2)
    seen = []

    class My(h.mod.ProxOperator):
        def __init__(self, i, k):
            super().__init__(None, False)
            self.i, self.k = i, k

        def __call__(self, z):
            seen.append(self.i)
            h.eq(z, x, "functional evaluated at the input")
            if self.k == "r":
                return h.uf(f"v{self.i}", [z])
            v = self.k in "tu"
            return v if self.k in "tf" else _npbool(v)

        def prox(self, z, tau):
            return z

    f = h.mod.Sum([My(i, k) for i, k in enumerate(kinds)])
    r = f(x)
    if "f" in kinds or "g" in kinds:
        h.claim(r is False or _isfalse(r), "infeasible")
    elif "r" not in kinds:
        h.claim(_istrue(r), "feasible")
    else:
        h.eq(r, total(h.uf(f"v{i}", [x]) for i, k in enumerate(kinds) if k == "r"), "sum of the values")
        h.claim(not isinstance(r, bool), "a number")


def _npbool(v):
    import numpy

    return numpy.bool_(v)


def _isfalse(v):
    import numpy

    return isinstance(v, (bool, numpy.bool_)) and not v


def _istrue(v):
    import numpy

    return isinstance(v, (bool, numpy.bool_)) and bool(v)


for _k in ("r", "t", "f", "rr", "rt", "tr", "rf", "fr", "tt", "tf", "ft", "rrr", "rtr", "ru", "gr", "uu", "ug", "rrtf", "rrtt"):
    ob(P, f"Sum value {_k}", bounds="arbitrary values; r real, t/u feasible, f/g infeasible terms")(lambda h, k=_k: _value(h, k))


# ------------------------------------------------------------------ settled runs solve the stated problem
def _clip(h, v, lo, up):
    return h.max(lo, h.min(up, v))


def _soft(h, v, t):
    return v - t if v > t else (v + t if v < -t else h.num(0))


def _settled(h, order, niter):
    """1-D |.| plus a box: a run that stopped by tolerance is near clip(soft(x))"""
    sg, lo, up = h.real("sig", pos=True), h.real("lo"), h.real("up")
    h.assume(lo <= up)
    fs = [h.mod.L1(sigma=sg), h.mod.Box(h.arr([lo]), h.arr([up]))]
    x, tau, tol = h.vec("x", 1), h.real("tau", pos=True), h.real("tol", pos=True)
    log = []

    def logged(f):
        class L(h.mod.ProxOperator):
            def __init__(self):
                super().__init__(None, False)

            def __call__(self, z):
                return f(z)

            def prox(self, z, t):
                log.append(1)
                return f.prox(z, t)

        return L()

    r = h.mod.Sum([logged(fs[i]) for i in order], niter=niter, tol=tol).prox(x, tau)
    if len(log) < 2 * niter:
        e = r[0] - _clip(h, _soft(h, x[0], tau * sg), lo, up)
        h.le(e * e, 4 * tau * sg * tol, "squared distance from the proximal point of the sum")


for _o in ((0, 1), (1, 0)):
    ob(P, f"Sum settled order={_o}", bounds="1-D absolute value plus box, at most 3 iterations, any data, step and tolerance", tol=1e-6)(
        lambda h, o=_o: _settled(h, o, 3))


def _exact(h, m, par):
    """intervals: the projection on their intersection is reached once settled"""
    lo, up = [h.real(f"l{i}") for i in range(m)], [h.real(f"u{i}") for i in range(m)]
    L, U = lo[0], up[0]
    for a, b in zip(lo[1:], up[1:]):
        L, U = h.max(L, a), h.min(U, b)
    h.assume(L <= U)
    ps = [h.mod.projection.BoxProj(h.arr([a]), h.arr([b])) for a, b in zip(lo, up)]
    x = h.vec("x", 1)
    r = h.mod.projection.GenericIntersectionProj(ps, niter=3, tol=1e-9, use_parallel=par)(x)
    h.eq(r, h.arr([_clip(h, x[0], L, U)]), "projection on the intersection of intervals", tol=1e-6)


for _m, _par in ((2, False), (2, True)):
    ob(P, f"intervals {_m}{' parallel' if _par else ''}", bounds=f"{_m} intervals with a common point, 3 iterations", tol=1e-6)(
        lambda h, m=_m, p=_par: _exact(h, m, p))


# ------------------------------------------------------------------ long runs
for _m, _par in ((2, False), (2, True), (3, False), (3, True)):
    for _fn in (False, True):
        ob(P, f"long run {'GenericIntersectionProx' if _fn else 'GenericIntersectionProj'} {_m} sets{' parallel' if _par else ''}",
           bounds="arbitrary projections, n=2, 23 iterations, no tolerance")(
            lambda h, m=_m, p=_par, f=_fn: _proj(h, m, p, 2, 23, f))
ob(P, "long run Sum two", bounds="arbitrary functionals, n=2, 23 iterations")(lambda h: _sum(h, 2, False, None, False, 23, 2))
for _m, _wt, _o, _it in ((2, None, False, 23), (3, None, True, 23), (3, "fixed", False, 23), (3, "fixed", True, 23), (2, "array", False, 4)):
    ob(P, f"long run Sum {_m} parallel weights={_wt} original_tau={_o}", bounds=f"arbitrary functionals, n=2, {_it} iterations, any weights summing to one")(
        lambda h, m=_m, w=_wt, o=_o, i=_it: _sum(h, m, True, w, o, i, 2))
