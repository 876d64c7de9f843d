"""Stand-ins for the packages around pyproximal (contracts, not models of code).

Every stub is exact where the real routine is exact up to rounding; iterative
routines are replaced by the solution of the problem they converge to.
"""

import inspect
import math
import types
from fractions import Fraction

import numpy as rnp

from . import arr, core, trans
from .arr import NP, SymArray, asarray
from .core import SymReal, Unsupported, is_sym, lift, sadd, sdiv, smul, ssub


def _raise(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


class StubModule(types.ModuleType):
    def __init__(self, name, real=None, **kw):
        super().__init__(name)
        self.__dict__.update(kw)
        self.__dict__["_real"] = real
        self.__path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = self.__dict__.get("_real")
        if real is not None and hasattr(real, name):
            v = getattr(real, name)
            if isinstance(v, (type, types.ModuleType)):
                if isinstance(v, types.ModuleType):
                    return v
                return type(name, (_Unsup,), {"_n": f"{self.__name__}.{name}"})
            if not callable(v):
                return v
        if real is not None and not hasattr(real, name):
            raise AttributeError(name)
        return _raise(f"{self.__name__}.{name}")


class _Unsup:
    _n = "?"

    def __init__(self, *a, **k):
        raise Unsupported(self._n)


# --------------------------------------------------------------- operators
class SymLinOp:
    """matrix-backed linear operator with the pylops interface"""

    __array_ufunc__ = None
    __array_priority__ = 5000

    def __init__(self, M, explicit=True, dtype=rnp.dtype("float64"), dims=None, dimsd=None,
                 alias=False):
        self.M = asarray(M) if not isinstance(M, SymArray) else M
        self.shape = self.M.shape
        self.explicit = explicit
        self.dtype = dtype
        self.dims = dims if dims is not None else (self.shape[1],)
        self.dimsd = dimsd if dimsd is not None else (self.shape[0],)
        self._alias = alias  # behaves like pylops.Identity: returns its input

    @property
    def A(self):
        if not self.explicit:
            raise AttributeError("A")
        return self.M

    def todense(self, *a, **k):
        return self.M.copy()

    def _mv(self, M, x):
        return arr.matmul(M, x)

    def matvec(self, x):
        if x.shape[0] != self.shape[1] or x.ndim > 2:
            raise ValueError("dimension mismatch")
        if self._alias:
            return x
        return self._mv(self.M, x)

    def rmatvec(self, x):
        if x.shape[0] != self.shape[0] or x.ndim > 2:
            raise ValueError("dimension mismatch")
        if self._alias:
            return x
        return self._mv(arr.conj(self.M).T, x)

    def dot(self, x):
        if isinstance(x, SymLinOp):
            return SymLinOp(arr.matmul(self.M, x.M), explicit=False, dtype=self.dtype,
                            dims=x.dims, dimsd=self.dimsd)
        if isinstance(x, (int, float, Fraction, SymReal, complex)) or is_sym(x) or rnp.ndim(x) == 0:
            return SymLinOp(self.M * x, explicit=False, dtype=self.dtype, dims=self.dims,
                            dimsd=self.dimsd)
        if not isinstance(x, rnp.ndarray):
            raise Unsupported("operator product")
        if x.ndim == 1:
            return self.matvec(x)
        if x.shape == tuple(self.dims):
            return self.matvec(x.ravel()).reshape(self.dimsd)
        if x.ndim == 2 and x.shape[0] == self.shape[1]:
            return self._mv(self.M, x)
        raise ValueError("dimension mismatch")

    __matmul__ = dot
    __mul__ = dot
    __call__ = dot

    def __rmul__(self, x):
        if isinstance(x, rnp.ndarray) and x.ndim:
            raise Unsupported("array * operator")
        return self.dot(x)

    def __add__(self, o):
        return SymLinOp(self.M + o.M, explicit=False, dtype=self.dtype, dims=self.dims,
                        dimsd=self.dimsd)

    def __sub__(self, o):
        return SymLinOp(self.M - o.M, explicit=False, dtype=self.dtype)

    def __neg__(self):
        return SymLinOp(-self.M, explicit=False, dtype=self.dtype)

    @property
    def H(self):
        return SymLinOp(arr.conj(self.M).T, explicit=self.explicit, dtype=self.dtype,
                        dims=self.dimsd, dimsd=self.dims, alias=self._alias)

    def adjoint(self):
        return self.H

    @property
    def T(self):
        return SymLinOp(self.M.T, explicit=self.explicit, dtype=self.dtype,
                        dims=self.dimsd, dimsd=self.dims, alias=self._alias)

    def div(self, y, niter=100, densesolver=None):
        return _solve_sq(self, y)

    __truediv__ = div

    def eigs(self, neigs=None, symmetric=False, niter=None, which="LM", **k):
        """contract: extreme eigenvalue(s) of a diagonal operator"""
        M = self.M
        n = M.shape[0]
        for i in range(n):
            for j in range(M.shape[1]):
                if i != j and not lift(M[i, j]).n.is_zero():
                    raise Unsupported("eigs of a non diagonal operator")
        d = arr.array([M[i, i] for i in range(n)])
        o = arr.argsort(arr.absolute(d))
        if which == "LM":
            o = o[::-1]
        return d[o[: (neigs or n)]]

    def __deepcopy__(self, memo):
        return self

    def __len__(self):
        raise TypeError


def _solve_sq(Op, y):
    cx = core.ctx()
    cx.linsolves.append((Op, y))
    r = arr._solve(Op.M, y)
    return r


def MatrixMult(A, otherdims=None, dtype="float64", **k):
    if otherdims is not None:
        raise Unsupported("otherdims")
    return SymLinOp(asarray(A), explicit=True)


def Identity(N, M=None, dtype="float64", inplace=True, **k):
    return SymLinOp(arr.eye(int(N), None if M is None else int(M)), explicit=False, alias=inplace)


def Diagonal(d, **k):
    return SymLinOp(arr.diag(asarray(d)), explicit=False)


class Restriction(SymLinOp):
    def __init__(self, N, iava, **k):
        iava = rnp.asarray(iava)
        M = arr.zeros((iava.size, int(N)))
        for r, c in enumerate(iava.ravel()):
            M[r, int(c)] = 1
        super().__init__(M, explicit=False)
        self.iava = iava


def FirstDerivative(dims, axis=-1, sampling=1.0, kind="centered", edge=False, order=3,
                    dtype="float64", **k):
    if kind != "forward" or edge:
        raise Unsupported("derivative kind")
    if isinstance(dims, (int, rnp.integer)):
        dims = (int(dims),)
    dims = tuple(int(d) for d in dims)
    return SymLinOp(_deriv(dims, axis % len(dims), sampling), explicit=False, dims=dims, dimsd=dims)


def _deriv(dims, axis, sampling):
    N = int(rnp.prod(dims))
    ind = rnp.arange(N).reshape(dims)
    D = arr.zeros((N, N))
    n = dims[axis]
    h = sdiv(1, sampling)
    for k in rnp.ndindex(*dims):
        if k[axis] < n - 1:
            k2 = list(k)
            k2[axis] += 1
            i = ind[k]
            D[i, ind[tuple(k2)]] = h
            D[i, i] = core.sneg(h)
    return D


def Gradient(dims, sampling=1, edge=False, kind="centered", dtype="float64", **k):
    if kind != "forward" or edge:
        raise Unsupported("gradient kind")
    dims = tuple(int(d) for d in dims)
    samp = [sampling] * len(dims) if rnp.ndim(sampling) == 0 else list(sampling)
    M = arr.concatenate([_deriv(dims, a, samp[a]) for a in range(len(dims))], axis=0)
    return SymLinOp(M, explicit=False, dims=dims, dimsd=(len(dims),) + dims)


def BlockDiag(ops, **k):
    m = sum(o.shape[0] for o in ops)
    n = sum(o.shape[1] for o in ops)
    M = arr.zeros((m, n))
    i = j = 0
    for o in ops:
        M[i:i + o.shape[0], j:j + o.shape[1]] = o.M
        i += o.shape[0]
        j += o.shape[1]
    return SymLinOp(M, explicit=False)


def VStackOp(ops, **k):
    return SymLinOp(arr.concatenate([o.M for o in ops], axis=0), explicit=False)


def _normal(Op, y, damp=None):
    """least squares solution (full column rank, or square nonsingular)"""
    M = Op.M if isinstance(Op, SymLinOp) else asarray(Op)
    if M.shape[0] == M.shape[1]:
        return arr._solve(M, y)
    Mh = arr.conj(M).T
    return arr._solve(arr.matmul(Mh, M), arr.matmul(Mh, y))


def _wrapop(Op):
    return Op


def _start(n, x0):
    """what an iterative solver returns when no iteration is allowed"""
    return arr.zeros(n) if x0 is None else asarray(x0).ravel().copy()


def _cols(Op):
    return Op.shape[1]


def _onestep(Op, y, x0, spd):
    """first iterate of CG (spd) or of CGLS / LSQR, for operators where one step is not exact"""
    M = Op.M if isinstance(Op, SymLinOp) else asarray(Op)
    x = _start(M.shape[1], x0)
    r = y - arr.matmul(M, x)
    g = r if spd else arr.matmul(arr.conj(M).T, r)
    q = arr.matmul(M, g)
    gg = core.lift(0)
    for e in g.ravel().tolist():
        gg = gg + (e.real * e.real + e.imag * e.imag if core._iscomplex(e) else e * e)
    dd = core.lift(0)
    for a, b in zip((g if spd else q).ravel().tolist(), q.ravel().tolist()):
        if core._iscomplex(a) or core._iscomplex(b):
            a, b = core.tocomplex(a), core.tocomplex(b)
            dd = dd + (a.re * b.re + a.im * b.im)
        else:
            dd = dd + a * b
    if bool(core.seq(gg, 0)):
        return x
    return x + (gg / dd) * g


def sp_lsqr(A, b, damp=0.0, atol=1e-6, btol=1e-6, conlim=1e8, iter_lim=None, show=False,
            calc_var=False, x0=None):
    core.ctx().record("lsqr", iter_lim=iter_lim, x0=x0)
    if iter_lim == 0:
        return (_start(_cols(A), x0), 7, 0)
    if iter_lim == 1:
        return (_onestep(A, b.ravel(), x0, False), 7, 1)
    return (_normal(A, b.ravel()), 1, iter_lim)


def sp_cg(A, b, x0=None, rtol=1e-5, atol=0.0, maxiter=None, M=None, callback=None, **k):
    core.ctx().record("cg", niter=maxiter, x0=x0)
    if maxiter == 0:
        return (_start(_cols(A), x0), 1)
    if maxiter == 1:
        return (_onestep(A, b, x0, True), 1)
    return (_normal(A, b), 0)


def po_cg(Op, y, x0=None, niter=10, tol=1e-4, rtol=0.0, show=False, **k):
    core.ctx().record("pcg", niter=niter, x0=x0)
    if niter == 0:
        return (_start(_cols(Op), x0), 0, None)
    if niter == 1:
        return (_onestep(Op, y, x0, True), 1, None)
    return (_normal(Op, y), niter, None)


def po_cgls(Op, y, x0=None, niter=10, damp=0.0, tol=1e-4, show=False, **k):
    core.ctx().record("cgls", niter=niter, x0=x0)
    if niter == 0:
        return (_start(_cols(Op), x0), 1, 0, None, None, None)
    if niter == 1:
        return (_onestep(Op, y, x0, False), 1, 1, None, None, None)
    return (_normal(Op, y), 1, niter, None, None, None)


def po_lsqr(Op, y, x0=None, damp=0.0, niter=10, show=False, **k):
    core.ctx().record("plsqr", niter=niter, x0=x0)
    if niter == 0:
        return (_start(_cols(Op), x0), 1, 0)
    if niter == 1:
        return (_onestep(Op, y, x0, False), 1, 1)
    return (_normal(Op, y), 1, niter)


def regularized_inversion(Op, y, Regs, x0=None, Weight=None, dataregs=None, epsRs=None,
                          engine="scipy", show=False, **k):
    core.ctx().record("reginv", x0=x0, engine=engine, kw=dict(k))
    if Weight is not None:
        raise Unsupported("Weight")
    if k.get("niter") == 0:
        return (_start(_cols(Op), x0), 1, 0, 0, 0)
    rows = [Op.M]
    rhs = [y.ravel()]
    for i, R in enumerate(Regs or []):
        e = 1 if epsRs is None else epsRs[i]
        rows.append(R.M * e)
        d = dataregs[i] if dataregs is not None else arr.zeros(R.shape[0])
        rhs.append(d.ravel() * e)
    M = arr.concatenate(rows, axis=0)
    r = arr.concatenate(rhs)
    Mh = arr.conj(M).T
    return (arr._solve(arr.matmul(Mh, M), arr.matmul(Mh, r)), 1, 0, 0, 0)


class _Cho:
    def __init__(self, A):
        self.A = A


def cho_factor(A, lower=False, overwrite_a=False, check_finite=True):
    core.ctx().record("cho_factor")
    return (_Cho(asarray(A).copy()), lower)


def cho_solve(cl, b, overwrite_b=False, check_finite=True):
    return arr._solve(cl[0].A, b)


def sp_solve(A, b, **k):
    return arr._solve(asarray(A), b)


def hankel(c, r=None):
    c = rnp.asarray(c).ravel()
    r = rnp.zeros_like(c) if r is None else rnp.asarray(r).ravel()
    v = rnp.concatenate((c, r[1:]))
    i = rnp.arange(len(c))[:, None] + rnp.arange(len(r))[None, :]
    return v[i]


def toeplitz(c, r=None):
    raise Unsupported("toeplitz")


def bisect(f, a, b, args=(), xtol=2e-12, rtol=8.9e-16, maxiter=100, full_output=False, disp=True):
    """contract: an exact root of f in [a, b]; needs a sign change"""
    cx = core.ctx()
    fa = f(a, *args)
    if bool(core.seq(fa, 0)):
        return a
    fb = f(b, *args)
    if bool(core.seq(fb, 0)):
        return b
    if bool(core.sgt(smul(fa, fb), 0)):
        raise ValueError("f(a) and f(b) must have different signs")
    if lift(xtol).is_const() and lift(xtol).const_value() <= 0:
        raise ValueError("xtol too small")
    w = core.ssub(b, a)
    if isinstance(maxiter, int) and bool(core.sgt(w, smul(xtol, 2 ** min(maxiter, 200)))):
        raise RuntimeError(f"Failed to converge after {maxiter} iterations.")
    root = cx.var(cx.fresh_id("root"))
    cx.assume(core.sge(root, a))
    cx.assume(core.sle(root, b))
    cx.assume(core.seq(f(root, *args), 0))
    xt = lift(xtol)
    if xt.is_const() and xt.const_value() <= Fraction(1, 10**9):
        return root
    # only an interval of width xtol around the root is promised
    mu = cx.var(cx.fresh_id("bis"))
    cx.assume(core.sge(mu, a))
    cx.assume(core.sle(mu, b))
    cx.assume(core.sle(core.ssub(mu, root), xt))
    cx.assume(core.sle(core.ssub(root, mu), xt))
    return mu


def lambertw(z, k=0, tol=1e-8):
    if k != 0:
        raise Unsupported("lambertw branch")
    r = arr._map(lambda v: core.sfun("lambertw", v), z)
    return arr._wrap(r)


# --------------------------------------------------------------- cuda
class _Dim3:
    x = 0
    y = 0
    z = 0


class _Cuda(types.ModuleType):
    def __init__(self):
        super().__init__("numba.cuda")
        self.threadIdx = _Dim3()
        self.blockIdx = _Dim3()
        self.blockDim = _Dim3()
        self.gridDim = _Dim3()

    def jit(self, *a, device=False, **k):
        def deco(fn):
            if device:
                return fn
            return _Kernel(fn, self)

        if a and callable(a[0]):
            return deco(a[0])
        return deco

    def grid(self, n):
        return self.threadIdx.x + self.blockIdx.x * self.blockDim.x

    def gridsize(self, n):
        return self.blockDim.x * self.gridDim.x


class _Kernel:
    def __init__(self, fn, cuda):
        self.fn = fn
        self.cuda = cuda

    def __getitem__(self, cfg):
        blocks, threads = int(cfg[0]), int(cfg[1])

        def launch(*args):
            c = self.cuda
            c.blockDim.x = threads
            c.gridDim.x = blocks
            for b in range(blocks):
                for t in range(threads):
                    c.blockIdx.x = b
                    c.threadIdx.x = t
                    self.fn(*args)

        return launch


CUDA = _Cuda()


def _jit(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda fn: fn


# --------------------------------------------------------------- math
def _m1(name, f):
    real = getattr(math, name)

    def g(x, *a):
        if is_sym(x) or isinstance(x, SymArray):
            return f(x, *a)
        if isinstance(x, (int, float)) and name == "sqrt" and not a and x >= 0 and math.isfinite(x):
            return f(x)
        return real(x, *a)

    return g


def _finite(v):
    return not core._nonfinite(v)


def _math():
    m = StubModule("math", math)
    m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith("__")})

    def ms(x):
        if bool(core.slt(x, 0)):
            raise ValueError("math domain error")
        return core.ssqrt(x)

    m.sqrt = _m1("sqrt", ms)
    m.fabs = _m1("fabs", core.sabs)
    m.pow = _m1("pow", core.spow)
    m.exp = _m1("exp", lambda v: core.sfun("exp", v))
    m.log = _m1("log", lambda v: core.sfun("log", v))
    m.isfinite = _m1("isfinite", lambda v: True)
    m.isnan = _m1("isnan", lambda v: False)
    m.isinf = _m1("isinf", lambda v: False)
    m.floor = _m1("floor", arr._floor)
    m.ceil = _m1("ceil", lambda v: math.ceil(v.const_value()) if v.is_const() else _raise("ceil")())
    m.hypot = lambda a, b: core.ssqrt(sadd(smul(a, a), smul(b, b))) if is_sym(a) or is_sym(b) else math.hypot(a, b)
    m.copysign = lambda a, b: smul(core.sabs(a), 1 if bool(core.sge(b, 0)) else -1) if is_sym(a) or is_sym(b) else math.copysign(a, b)
    m.prod = lambda it, start=1: _mprod(it, start)
    m.fsum = lambda it: sum(it)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
        core.sle(core.sabs(ssub(a, b)), core.smax(smul(rel_tol, core.smax(core.sabs(a), core.sabs(b))), abs_tol)))
    return m


def _mprod(it, start):
    for v in it:
        start = start * v
    return start


def _source_fn(module, name):
    """symbolic copy of a small pure helper of pylops (from its source)"""
    import importlib
    import textwrap

    mod = importlib.import_module(module)
    src = textwrap.dedent(inspect.getsource(getattr(mod, name)))
    src = "from __future__ import annotations\n" + src
    from . import loader

    g = {"np": NP, "__name__": module, "__builtins__": loader.BUILTINS,
         "get_array_module": lambda *a: NP}
    exec(compile(src, f"<{module}.{name}>", "exec"), g)
    return g[name]


def build():
    import importlib

    def real(n):
        try:
            return importlib.import_module(n)
        except Exception:
            return None

    S = {}
    S["numpy"] = NP
    S["numpy.linalg"] = arr.LA
    S["numpy.fft"] = arr.FFT
    S["math"] = _math()
    S["scipy"] = StubModule("scipy", real("scipy"))
    S["scipy.optimize"] = StubModule("scipy.optimize", real("scipy.optimize"), bisect=bisect,
                                     brentq=bisect, brenth=bisect, ridder=bisect)
    S["scipy.linalg"] = StubModule("scipy.linalg", real("scipy.linalg"), cho_factor=cho_factor,
                                   cho_solve=cho_solve, hankel=hankel, solve=sp_solve,
                                   svd=arr._svd, inv=arr._inv_, norm=arr._norm,
                                   eigvalsh=arr._eigvalsh, pinv=arr._pinv)
    S["scipy.sparse"] = StubModule("scipy.sparse", real("scipy.sparse"))
    S["scipy.sparse.linalg"] = StubModule("scipy.sparse.linalg", real("scipy.sparse.linalg"),
                                          lsqr=sp_lsqr, cg=sp_cg)
    S["scipy.special"] = StubModule("scipy.special", real("scipy.special"), lambertw=lambertw)
    S["scipy.fft"] = arr.FFT
    for k in ("optimize", "linalg", "sparse", "special"):
        setattr(S["scipy"], k, S["scipy." + k])
    S["scipy.sparse"].linalg = S["scipy.sparse.linalg"]
    S["scipy"].fft = arr.FFT
    rp = real("pylops")
    S["pylops"] = StubModule("pylops", rp, MatrixMult=MatrixMult, Identity=Identity,
                             Diagonal=Diagonal, FirstDerivative=FirstDerivative,
                             Gradient=Gradient, BlockDiag=BlockDiag, VStack=VStackOp,
                             Restriction=Restriction, LinearOperator=SymLinOp)
    S["pylops.linearoperator"] = StubModule("pylops.linearoperator", None, LinearOperator=SymLinOp)
    S["pylops.optimization"] = StubModule("pylops.optimization", None)
    S["pylops.optimization.basic"] = StubModule(
        "pylops.optimization.basic", real("pylops.optimization.basic"), cg=po_cg, cgls=po_cgls,
        lsqr=po_lsqr)
    S["pylops.optimization.leastsquares"] = StubModule(
        "pylops.optimization.leastsquares", real("pylops.optimization.leastsquares"),
        regularized_inversion=regularized_inversion)
    S["pylops.optimization.cls_sparsity"] = StubModule(
        "pylops.optimization.cls_sparsity", real("pylops.optimization.cls_sparsity"),
        _softthreshold=_source_fn("pylops.optimization.cls_sparsity", "_softthreshold"),
        _hardthreshold=_source_fn("pylops.optimization.cls_sparsity", "_hardthreshold"))
    S["pylops"].optimization = S["pylops.optimization"]
    for k in ("basic", "leastsquares", "cls_sparsity"):
        setattr(S["pylops.optimization"], k, S["pylops.optimization." + k])
    rb = real("pylops.utils.backend")
    S["pylops.utils.backend"] = StubModule(
        "pylops.utils.backend", rb,
        get_array_module=lambda *a: NP, get_module=lambda *a: NP,
        get_module_name=lambda *a: "numpy", to_numpy=lambda x: x,
        to_cupy_conditional=lambda x, y: y,
        get_normalize_axis_index=lambda: _nai, get_fftw_func=None)
    S["numba"] = StubModule("numba", real("numba"), jit=_jit, njit=_jit, prange=range, cuda=CUDA)
    S["numba.cuda"] = CUDA
    return S


def _nai(axis, ndim):
    if not -ndim <= axis < ndim:
        raise rnp.exceptions.AxisError(axis, ndim)
    return axis % ndim
