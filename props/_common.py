"""Shared pieces of the property scripts (run symbolically and concretely)."""

import itertools


def rdot(a, b):
    """real inner product of two (possibly complex) collections"""
    acc = 0
    for x, y in zip(a, b):
        xr, xi = (x.real, x.imag) if iscx(x) else (x, 0)
        yr, yi = (y.real, y.imag) if iscx(y) else (y, 0)
        acc = acc + xr * yr
        if iscx(x) and iscx(y):
            acc = acc + xi * yi
    return acc


def iscx(x):
    from symx import core

    return core._iscomplex(x)


def subgrad(h, x, p, tau, Fp, z, Fz, label="prox is the minimiser", tol=0):
    """p = argmin tau*F + 1/2||.-x||^2 for convex F  <=>  for all z
    tau*F(z) >= tau*F(p) + <x-p, z-p>"""
    x, p, z = h.flat(x), h.flat(p), h.flat(z)
    if len(p) != len(x):
        h.claim(False, label + ": wrong size")
        return
    lhs = tau * Fp + rdot([a - b for a, b in zip(x, p)], [a - b for a, b in zip(z, p)])
    h.le(lhs, tau * Fz, label, tol=tol)


def nearest(h, x, p, z, label="projection is the nearest point", tol=0):
    """variational inequality <x-p, z-p> <= 0 for a point z of a convex set"""
    x, p, z = h.flat(x), h.flat(p), h.flat(z)
    if len(p) != len(x):
        h.claim(False, label + ": wrong size")
        return
    h.le(rdot([a - b for a, b in zip(x, p)], [a - b for a, b in zip(z, p)]), 0, label, tol=tol)


def absub(h, z, name):
    """upper bounds of |z_i| (exact magnitudes concretely)"""
    out = []
    for i, e in enumerate(h.flat(z)):
        out.append(h.normvar([e], f"{name}{i}") if iscx(e) else h.absvar(e, f"{name}{i}"))
    return out


def absl(h, z):
    """exact |z_i|"""
    return [h.norm([e]) if iscx(e) else abs(e) for e in h.flat(z)]


def total(it):
    acc = 0
    for e in it:
        acc = acc + e
    return acc


# ---------------------------------------------------------------- abstract functionals
def ufx(h, name, args, x):
    """uninterpreted array-valued function shaped like x (complex for complex x)"""
    n = len(h.flat(x))
    dt = getattr(x, "dtype", None)
    if (dt is not None and dt.kind == "c") or any(iscx(e) for e in h.flat(x)):
        o = h.uf(name, args, 2 * n)
        return h.arr([o[2 * i] + complex(0, 1) * o[2 * i + 1] for i in range(n)])
    return h.uf(name, args, n)


def absprox(h, name, n=None, grad=False, boolean=False, alias=False):
    """an arbitrary functional: value, prox and gradient are uninterpreted functions of all
    their arguments (alias: the prox is the identity and returns its very input)"""
    Base = h.mod.ProxOperator

    class Abstract(Base):
        def __init__(self):
            super().__init__(None, grad)
            self.calls = []

        def __call__(self, x):
            self.calls.append(("call", x))
            return h.uf(name + ".f", [x])

        def prox(self, x, tau, **kw):
            self.calls.append(("prox", x, tau))
            if alias:
                return x
            return ufx(h, name + ".prox", [x, tau], x).reshape(x.shape)

    if grad:
        def g(self, x):
            return ufx(h, name + ".grad", [x], x).reshape(x.shape)
        Abstract.grad = g
    return Abstract()


def P_(h, name, x, tau, n=None):
    """the value of the abstract prox, for reference recurrences"""
    return ufx(h, name + ".prox", [x, tau], x)


def PD_(h, name, x, tau):
    """Moreau dual of the abstract prox"""
    y = P_(h, name, h.arr([v / tau for v in h.flat(x)]), 1 / tau)
    return h.arr([a - tau * b for a, b in zip(h.flat(x), h.flat(y))])


def G_(h, name, x):
    return ufx(h, name + ".grad", [x], x)


def F_(h, name, x):
    return h.uf(name + ".f", [x])


def tight(kw):
    """options of the inner linear solver (replays on the real code need accurate solves)"""
    if kw.get("explicit"):
        return {}
    if kw.get("solver", "legacy") == "legacy":
        return dict(kwargs_solver=dict(atol=1e-15, btol=1e-15))
    return dict(kwargs_solver=dict(tol=1e-24))
