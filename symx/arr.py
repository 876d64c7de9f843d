"""SymArray (object arrays that pass for float arrays) and the numpy stand-in."""

import math
import types
from fractions import Fraction

import numpy as rnp

from . import core
from .core import (SymAngle, SymBool, SymComplex, SymImagAngle, SymReal,
                   Unsupported, is_sym, lift, sabs, sadd, scmp, sdiv, smax, smin,
                   smul, sneg, spow, ssign, ssqrt, ssub, truth)

F8 = rnp.dtype("float64")
C16 = rnp.dtype("complex128")
B1 = rnp.dtype("bool")
I8 = rnp.dtype("int64")
I8S = rnp.dtype("longlong")  # element type of integer-typed symbolic arrays (compares equal to I8)


def _isobj(a):
    return isinstance(a, rnp.ndarray) and rnp.ndarray.dtype.__get__(a) == object


class SymArray(rnp.ndarray):
    __array_priority__ = 1000

    def __new__(cls, data, sd=F8):
        a = rnp.empty(shape(data), dtype=object) if not isinstance(data, rnp.ndarray) else None
        if a is None:
            a = data if _isobj(data) else data.astype(object)
        else:
            a[...] = data
        v = a.view(cls)
        v._sd = sd
        return v

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self._sd = getattr(obj, "_sd", F8)

    @property
    def dtype(self):
        return self._sd

    def raw(self):
        return self.view(rnp.ndarray)

    # -- indexing
    def __getitem__(self, idx):
        r = rnp.ndarray.__getitem__(self, _idx(idx))
        return r

    def __setitem__(self, idx, val):
        idx = _idx(idx)
        if self._sd == F8:
            if isinstance(val, SymComplex) or isinstance(val, (complex, rnp.complexfloating)):
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            if isinstance(val, rnp.ndarray) and _cplx(val):
                val = real(val)
        if isinstance(val, (list, tuple)):
            val = array(val)
        if self._sd.kind == "i" and not _intlike(val):
            val = _map(_trunc, val)
        if isinstance(val, SymArray):
            val = val.raw()
        rnp.ndarray.__setitem__(self.raw(), idx, val)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def copy(self, order="C"):
        return SymArray(self.raw().copy(), self._sd)

    def astype(self, dt, *a, **k):
        dt = _dt(dt)
        if dt.kind == "c":
            return SymArray(self.raw().copy(), C16)
        if dt.kind == "f":
            if self._sd.kind == "i":
                return SymArray(self.raw().copy(), F8)
            if self._sd == C16:
                return real(self).copy()
            if self._sd == B1:
                return SymArray(_map(lambda v: SymReal.const(int(truth(v))), self), F8)
            return self.copy()
        if dt.kind == "b":
            return _tobool(self)
        if dt.kind in "iu":
            return _map(lambda v: int(v), self).astype(dt)
        raise Unsupported(f"astype {dt}")

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return ufunc_impl(ufunc.__name__, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        mod = getattr(func, "__module__", "") or ""
        ns = NP
        if mod.startswith("numpy.linalg"):
            ns = NP.linalg
        elif mod.startswith("numpy.fft"):
            ns = NP.fft
        f = ns.__dict__.get(func.__name__)
        if f is None:
            raise Unsupported(f"numpy function {func.__name__}")
        return f(*args, **kwargs)

    # -- methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return sum_(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **k):
        return prod(self, axis=axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return mean(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return max_(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return min_(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return any_(self, axis=axis)

    def all(self, axis=None, out=None, keepdims=False):
        return all_(self, axis=axis)

    def dot(self, o):
        return dot(self, o)

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis=axis)

    def argmax(self, axis=None, **k):
        return argmax(self, axis=axis)

    def argmin(self, axis=None, **k):
        return argmin(self, axis=axis)

    def argsort(self, axis=-1, kind=None, **k):
        return argsort(self, axis=axis)

    def sort(self, axis=-1, kind=None, **k):
        self[...] = sort(self, axis=axis)

    def conj(self):
        return conj(self)

    conjugate = conj

    @property
    def real(self):
        return real(self)

    @real.setter
    def real(self, v):
        self[...] = v if self._sd != C16 else add(multiply(imag(self), 1j), v)

    @property
    def imag(self):
        return imag(self)

    def clip(self, min=None, max=None, **k):
        return clip(self, min, max)

    def nonzero(self):
        return nonzero(self)

    def std(self, axis=None, **k):
        raise Unsupported("std")

    def round(self, *a, **k):
        raise Unsupported("round")

    def trace(self, *a, **k):
        return sum_(rnp.diagonal(self.raw()))

    def take(self, ind, axis=None, **k):
        return take(self, ind, axis)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return truth(self.raw().ravel()[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.raw().ravel()[0])

    def __format__(self, spec):
        return "sym"

    def __str__(self):
        return "symarray"

    def __repr__(self):
        return f"SymArray({self.raw().tolist()!r})"

    def __abs__(self):
        return absolute(self)

    def __contains__(self, v):
        return bool(any_(equal(self, v)))


def _arr_op(fn, s, arr, swap):
    f = (lambda v: fn(v, s)) if swap else (lambda v: fn(s, v))
    r = _map(f, arr)
    isb = fn in (core.slt, core.sle, core.sgt, core.sge, core.seq, core.sne)
    if isb:
        return _boolres(r)
    return _wrap(r, _iscp(arr) or isinstance(s, (SymComplex, SymImagAngle)))


core._arr_hook = _arr_op


def _idx(i):
    if isinstance(i, tuple):
        return tuple(_idx(j) for j in i)
    if isinstance(i, SymArray):
        if i._sd == B1:
            return _tobool(i)
        return rnp.array([int(v) for v in i.raw().ravel()], dtype=int).reshape(i.shape)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SymReal):
        return i.__index__()
    if isinstance(i, list) and i and any(isinstance(v, SymBool) for v in i):
        return [bool(v) for v in i]
    if _isobj(i):
        return _idx(SymArray(i, B1 if i.size and all(isinstance(v, (bool, SymBool, rnp.bool_)) for v in i.ravel()) else F8))
    return i


def _tobool(a):
    out = rnp.empty(a.shape, dtype=bool)
    src = a.raw() if isinstance(a, SymArray) else rnp.asarray(a)
    for k in rnp.ndindex(a.shape):
        out[k] = truth(src[k])
    return out


def _map(f, *arrs):
    """elementwise python map -> raw object ndarray (scalar if all 0-d scalars)"""
    raws = [_raw(a) for a in arrs]
    bs = rnp.broadcast(*raws) if len(raws) > 1 else None
    shape = bs.shape if bs is not None else raws[0].shape
    out = rnp.empty(shape, dtype=object)
    if len(raws) == 1:
        src = raws[0]
        for k in rnp.ndindex(shape):
            out[k] = f(src[k])
    else:
        raws = [rnp.broadcast_to(r, shape) for r in raws]
        for k in rnp.ndindex(shape):
            out[k] = f(*[r[k] for r in raws])
    return out


def _raw(a):
    if isinstance(a, SymArray):
        return a.raw()
    if isinstance(a, rnp.ndarray):
        return a if _isobj(a) else a.astype(object)
    if isinstance(a, (list, tuple)):
        return _raw(array(a))
    o = rnp.empty((), dtype=object)
    o[()] = a
    return o


def _iscp(a):
    if isinstance(a, SymArray):
        return a._sd == C16
    if isinstance(a, rnp.ndarray):
        if _isobj(a):
            return any(isinstance(v, (SymComplex, complex, SymImagAngle)) for v in a.ravel())
        return a.dtype.kind == "c"
    return isinstance(a, (SymComplex, complex, rnp.complexfloating, SymImagAngle))


_cplx = _iscp


def _intlike(a):
    """machine integers or integer-typed symbolic arrays"""
    if isinstance(a, rnp.ndarray):
        return a.dtype.kind in "iub"
    return isinstance(a, (int, rnp.integer, bool, rnp.bool_))


_INTOPS = {"add", "subtract", "multiply", "negative", "positive", "absolute", "abs", "square", "maximum", "minimum",
           "sign", "fmax", "fmin", "conjugate", "conj"}


def _trunc(v):
    """conversion to an integer type: towards zero (a value that is not known is left undetermined within one unit)"""
    if isinstance(v, (SymComplex, complex, rnp.complexfloating)):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
    if not is_sym(v):
        return lift(int(v))
    if isinstance(v, SymBool):
        return v
    if v.is_const():
        return lift(math.trunc(v.const_value()))
    cx = core.ctx()
    w = cx.var(cx.fresh_id("trunc"))
    if bool(core.sge(v, 0)):
        cx.assume(core.s_and(core.sge(w, 0), core.s_and(core.sle(w, v), core.sgt(sadd(w, 1), v))))
    else:
        cx.assume(core.s_and(core.sle(w, 0), core.s_and(core.sge(w, v), core.slt(ssub(w, 1), v))))
    return w


def _wrap(r, cplx=False):
    if r.shape == ():
        return r[()]
    return SymArray(r, C16 if cplx else F8)


def _boolres(r):
    if r.shape == ():
        return r[()]
    if all(isinstance(v, (bool, rnp.bool_)) for v in r.ravel()):
        return r.astype(bool)
    return SymArray(r, B1)


def _dt(dt):
    if dt is None:
        return F8
    if dt is float or getattr(dt, "_is_float_shim", False):
        return F8
    if getattr(dt, "_is_int_shim", False):
        return I8
    return rnp.dtype(dt)


def anysym(*args):
    for a in args:
        if is_sym(a) or isinstance(a, SymArray):
            return True
        if isinstance(a, (list, tuple)) and anysym(*a):
            return True
        if _isobj(a):
            return True
    return False


# ---------------------------------------------------------------- ufuncs
def _real(v):
    if isinstance(v, SymComplex):
        return v.re
    if isinstance(v, (complex, rnp.complexfloating)):
        return v.real
    return v


def _imag(v):
    if isinstance(v, SymComplex):
        return v.im
    if isinstance(v, (complex, rnp.complexfloating)):
        return v.imag
    return SymReal.const(0)


def _conj(v):
    if isinstance(v, SymComplex):
        return v.conj()
    if isinstance(v, (complex, rnp.complexfloating)):
        return v.conjugate()
    return v


def _exp(v):
    if isinstance(v, SymImagAngle):
        return core.unit_phase(v.z, v.s)
    if isinstance(v, SymComplex):
        if isinstance(v.re, SymReal) and v.re.is_const() and v.re.n.is_zero():
            if isinstance(v.im, SymReal) and v.im.is_const() and v.im.n.is_zero():
                return SymComplex(SymReal.const(1), SymReal.const(0))
        raise Unsupported("complex exp")
    return core.sfun("exp", v)


def _isnan(v):
    if isinstance(v, SymComplex):
        return _isnan(v.re) or _isnan(v.im)
    return isinstance(v, (float, rnp.floating)) and math.isnan(v)


def _isinf(v):
    if isinstance(v, SymComplex):
        return _isinf(v.re) or _isinf(v.im)
    return isinstance(v, (float, rnp.floating)) and math.isinf(v)


def _lnot(v):
    return core.s_not(v) if isinstance(v, (SymBool, bool, rnp.bool_)) else core.seq(v, 0)


def _inv(v):
    if isinstance(v, (SymBool, bool, rnp.bool_)):
        return core.s_not(v)
    return ~v


def _floor(v):
    if isinstance(v, SymReal) and v.is_const():
        return SymReal.const(math.floor(v.const_value()))
    if is_sym(v):
        raise Unsupported("floor")
    return math.floor(v)


def _fmax(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return smax(a, b)


def _fmin(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return smin(a, b)


def _heaviside(a, b):
    s = core.ssign_int(a)
    return b if s == 0 else SymReal.const(int(s > 0))


_SC = {
    "add": (sadd, 2, 0), "subtract": (ssub, 2, 0), "multiply": (smul, 2, 0),
    "divide": (sdiv, 2, 0), "true_divide": (sdiv, 2, 0), "power": (spow, 2, 0),
    "float_power": (spow, 2, 0),
    "negative": (sneg, 1, 0), "positive": (lambda v: v, 1, 0),
    "absolute": (sabs, 1, -1), "fabs": (sabs, 1, -1), "abs": (sabs, 1, -1),
    "sqrt": (ssqrt, 1, 0), "square": (lambda v: smul(v, v), 1, 0),
    "cbrt": (lambda v: smul(ssign(v), core.scbrt(sabs(v))), 1, 0),
    "maximum": (smax, 2, 0), "minimum": (smin, 2, 0),
    "fmax": (_fmax, 2, 0), "fmin": (_fmin, 2, 0),
    "sign": (ssign, 1, 0), "conjugate": (_conj, 1, 0), "conj": (_conj, 1, 0),
    "reciprocal": (lambda v: sdiv(1, v), 1, 0),
    "hypot": (lambda a, b: ssqrt(sadd(smul(a, a), smul(b, b))), 2, 0),
    "exp": (_exp, 1, 0), "log": (lambda v: core.sfun("log", v), 1, 0),
    "log1p": (lambda v: core.sfun("log", sadd(1, v)), 1, 0),
    "expm1": (lambda v: ssub(_exp(v), 1), 1, 0),
    "cos": (lambda v: core.sfun("cos", v), 1, 0),
    "sin": (lambda v: core.sfun("sin", v), 1, 0),
    "arccos": (lambda v: core.sfun("arccos", v), 1, 0),
    "copysign": (lambda a, b: smul(sabs(a), 1 if bool(core.sge(b, 0)) else -1), 2, 0),
    "heaviside": (_heaviside, 2, 0),
    "floor": (_floor, 1, 0),
    "less": (core.slt, 2, 1), "less_equal": (core.sle, 2, 1),
    "greater": (core.sgt, 2, 1), "greater_equal": (core.sge, 2, 1),
    "equal": (core.seq, 2, 1), "not_equal": (core.sne, 2, 1),
    "logical_and": (core.s_and, 2, 1), "logical_or": (core.s_or, 2, 1),
    "bitwise_and": (core.s_and, 2, 1), "bitwise_or": (core.s_or, 2, 1),
    "logical_not": (_lnot, 1, 1), "invert": (_inv, 1, 1), "bitwise_not": (_inv, 1, 1),
    "logical_xor": (lambda a, b: bool(a) != bool(b), 2, 1),
    "bitwise_xor": (lambda a, b: bool(a) != bool(b), 2, 1),
    "isnan": (_isnan, 1, 1), "isinf": (_isinf, 1, 1),
    "isfinite": (lambda v: not (_isnan(v) or _isinf(v)), 1, 1),
}


def ufunc_impl(name, method, inputs, out, kw):
    where_ = kw.get("where", True)
    if method == "__call__":
        if name == "matmul":
            r = matmul(*inputs)
        elif name == "floor_divide" or name == "remainder":
            raise Unsupported(name)
        elif name not in _SC:
            raise Unsupported(f"ufunc {name}")
        else:
            f, nin, kind = _SC[name]
            if where_ is not True:
                base = out[0] if out else zeros(rnp.broadcast(*[_raw(i) for i in inputs]).shape)
                w = _tobool(where_) if isinstance(where_, SymArray) else rnp.asarray(where_)
                bc = rnp.broadcast(_raw(base), w, *[_raw(i) for i in inputs]).shape
                rr = rnp.broadcast_to(_raw(base), bc).copy()
                ins = [rnp.broadcast_to(_raw(i), bc) for i in inputs]
                wb = rnp.broadcast_to(w, bc)
                for k in rnp.ndindex(bc):
                    if wb[k]:
                        rr[k] = f(*[i[k] for i in ins])
                r = _boolres(rr) if kind == 1 else _wrap(rr, any(_iscp(i) for i in inputs))
            else:
                m = _map(f, *inputs)
                if kind == 1:
                    r = _boolres(m)
                elif kind == -1:
                    r = _wrap(m, False)
                else:
                    cp = any(_iscp(i) for i in inputs)
                    r = _wrap(m, cp)
                    if name == "exp" and any(
                        isinstance(v, SymImagAngle) for i in inputs for v in _raw(i).ravel()
                    ):
                        if isinstance(r, SymArray):
                            r._sd = C16
                    if name in _INTOPS and isinstance(r, SymArray) and all(_intlike(i) for i in inputs) \
                            and any(isinstance(i, SymArray) and i._sd.char == "q" for i in inputs):
                        r._sd = I8S
                if name in ("absolute", "abs") and isinstance(inputs[0], SymArray) \
                        and isinstance(r, SymArray) and inputs[0]._sd.char == "q":
                    r._sd = I8S
    elif method == "reduce":
        r = _reduce(name, inputs[0], kw.get("axis", 0), kw.get("keepdims", False),
                    kw.get("initial"))
    elif method == "accumulate":
        r = _accum(_SC[name][0], inputs[0], kw.get("axis", 0))
    elif method == "outer":
        a, b = [_raw(i) for i in inputs]
        r = ufunc_impl(name, "__call__",
                       (SymArray(a.reshape(a.shape + (1,) * b.ndim)), SymArray(b)), None, {})
    elif method == "at":
        a, idx = inputs[0], _idx(inputs[1])
        f = _SC[name][0]
        b = inputs[2] if len(inputs) > 2 else None
        braw = rnp.broadcast_to(_raw(b), shape(idx)) if b is not None else None
        for j, i in enumerate(rnp.asarray(idx).ravel()):
            a[i] = f(a[i], braw.ravel()[j]) if b is not None else f(a[i])
        return None
    else:
        raise Unsupported(f"ufunc method {method}")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, SymArray):
            if isinstance(o, rnp.ndarray) and not anysym(r):
                o[...] = r
                return o
            raise Unsupported("symbolic result written into a machine array")
        if o._sd.kind == "i" and not _intlike(r):
            raise TypeError(f"Cannot cast ufunc '{name}' output from dtype('float64') to dtype('int64') "
                            "with casting rule 'same_kind'")
        if o._sd == F8 and _iscp(r):
            raise TypeError(f"Cannot cast ufunc '{name}' output from complex128 to float64")
        if shape(r) != o.shape:
            r = rnp.broadcast_to(_raw(r), o.shape)
        o[...] = r
        return o
    return r


def _call(name):
    def f(*args, out=None, **kw):
        if not anysym(*args) and out is None:
            if name in ("sqrt", "exp", "log", "divide", "true_divide", "log1p", "arccos", "cos", "power") or any(
                isinstance(a, (float, Fraction, rnp.floating, complex)) for a in args
            ):
                pass
            else:
                conc = [rnp.asarray(a) if isinstance(a, (list, tuple)) else a for a in args]
                if all(isinstance(a, (int, bool, rnp.bool_, rnp.integer)) or
                       (isinstance(a, rnp.ndarray) and a.dtype.kind in "iub") for a in conc):
                    return getattr(rnp, name)(*args, **kw)
        args = [array(a) if isinstance(a, (list, tuple)) else a for a in args]
        kw.pop("dtype", None)
        return ufunc_impl(name, "__call__", tuple(args),
                          (out,) if out is not None and not isinstance(out, tuple) else out, kw)

    f.__name__ = name

    def reduce(a, axis=0, keepdims=False, initial=None, **k):
        return _reduce(name, a, axis, keepdims, initial)

    f.reduce = reduce
    f.accumulate = lambda a, axis=0: _accum(_SC[name][0], a, axis)
    f.outer = lambda a, b: ufunc_impl(name, "outer", (asarray(a), asarray(b)), None, {})
    f.at = lambda a, i, b=None: ufunc_impl(name, "at", (a, i, b), None, {})
    return f


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, rnp.integer)):
        axis = (axis,)
    out = []
    for a in axis:
        if not -nd <= a < nd:
            raise rnp.exceptions.AxisError(a, nd)
        out.append(int(a) % nd)
    return tuple(out)


def _reduce(name, a, axis=0, keepdims=False, initial=None):
    f = {"add": sadd, "multiply": smul, "maximum": smax, "minimum": smin}.get(name)
    if name in ("logical_and",):
        return all_(a, axis)
    if name in ("logical_or",):
        return any_(a, axis)
    if f is None:
        f = _SC[name][0]
    ident = {"add": 0, "multiply": 1}.get(name) if initial is None else initial
    return _red(f, a, axis, keepdims, ident)


def _red(f, a, axis=None, keepdims=False, ident=None):
    src = _raw(a)
    cp = _iscp(a)
    if src.shape == ():
        return src[()]
    ax = _axes(axis, src.ndim)
    rest = [i for i in range(src.ndim) if i not in ax]
    t = src.transpose(rest + list(ax)).reshape([src.shape[i] for i in rest] + [-1])
    out = rnp.empty(t.shape[:-1], dtype=object)
    for k in rnp.ndindex(out.shape):
        row = t[k]
        if len(row) == 0:
            if ident is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            out[k] = lift(ident)
            continue
        acc = row[0] if not isinstance(row[0], (SymBool, bool, rnp.bool_)) else lift(row[0])
        if ident not in (None, 0, 1):
            acc = f(ident, acc)
        for v in row[1:]:
            acc = f(acc, v)
        out[k] = acc
    if keepdims:
        out = out.reshape([1 if i in ax else src.shape[i] for i in range(src.ndim)])
    if out.shape == ():
        return out[()]
    return SymArray(out, C16 if cp else F8)


def _accum(f, a, axis=None):
    src = _raw(a)
    cp = _iscp(a)
    if axis is None:
        src = src.ravel()
        axis = 0
    out = src.copy()
    t = rnp.moveaxis(out, axis, 0)
    for i in range(1, t.shape[0]):
        for k in rnp.ndindex(t.shape[1:]):
            t[(i,) + k] = f(t[(i - 1,) + k], t[(i,) + k])
    return SymArray(out, C16 if cp else F8)


# ------------------------------------------------------------ np functions
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    if not anysym(a):
        r = rnp.sum(a, axis=axis, keepdims=keepdims)
        return _exactify(r)
    if isinstance(a, (list, tuple)):
        a = array(a)
    if is_sym(a):
        return a if not isinstance(a, SymBool) else int(a)
    if isinstance(a, SymArray) and a._sd == B1:
        a = _tobool(a)
        return rnp.sum(a, axis=axis)
    return _red(sadd, a, axis, keepdims, 0)


def _exactify(r):
    return r


def prod(a, axis=None, **k):
    if not anysym(a):
        return rnp.prod(a, axis=axis)
    return _red(smul, asarray(a), axis, False, 1)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarray(a)
    if not isinstance(a, SymArray):
        a = SymArray(a)
    ax = _axes(axis, a.ndim)
    n = 1
    for i in ax:
        n *= a.shape[i]
    return true_divide(sum_(a, axis=axis, keepdims=keepdims), n)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    a = asarray(a)
    w = asarray(weights)
    if a.ndim != w.ndim:
        shp = [1] * a.ndim
        shp[axis] = -1
        w = w.reshape(shp)
    return true_divide(sum_(multiply(a, w), axis=axis), sum_(w))


def max_(a, axis=None, out=None, keepdims=False, initial=None, **k):
    if not anysym(a):
        return rnp.max(a, axis=axis)
    return _red(smax, asarray(a), axis, keepdims, initial)


def min_(a, axis=None, out=None, keepdims=False, initial=None, **k):
    if not anysym(a):
        return rnp.min(a, axis=axis)
    return _red(smin, asarray(a), axis, keepdims, initial)


def any_(a, axis=None, out=None, keepdims=False, **k):
    if not anysym(a):
        return rnp.any(a, axis=axis)
    if is_sym(a):
        return bool(a)
    src = _raw(a)
    if axis is not None:
        return rnp.any(_tobool(a), axis=axis)
    return any(truth(v) for v in src.ravel())


def all_(a, axis=None, out=None, keepdims=False, **k):
    if not anysym(a):
        return rnp.all(a, axis=axis)
    if is_sym(a):
        return bool(a)
    src = _raw(a)
    if axis is not None:
        return rnp.all(_tobool(a), axis=axis)
    return all(truth(v) for v in src.ravel())


def cumsum(a, axis=None, dtype=None, out=None):
    if not anysym(a):
        return rnp.cumsum(a, axis=axis)
    return _accum(sadd, asarray(a), axis)


def cumprod(a, axis=None, dtype=None, out=None):
    return _accum(smul, asarray(a), axis) if anysym(a) else rnp.cumprod(a, axis=axis)


def _argext(a, axis, better):
    src = _raw(a)
    if axis is None:
        src = src.ravel()
        axis = 0
    t = rnp.moveaxis(src, axis, -1)
    out = rnp.empty(t.shape[:-1], dtype=int)
    for k in rnp.ndindex(out.shape):
        row = t[k]
        b = 0
        for i in range(1, len(row)):
            if _isnan(row[b]):
                break
            if _isnan(row[i]) or truth(better(row[i], row[b])):
                b = i
        out[k] = b
    return out if out.shape else int(out[()])


def argmax(a, axis=None, out=None, **k):
    if not anysym(a):
        return rnp.argmax(a, axis=axis)
    if isinstance(a, SymArray) and a._sd == B1:
        return rnp.argmax(_tobool(a), axis=axis)
    return _argext(asarray(a), axis, core.sgt)


def argmin(a, axis=None, out=None, **k):
    if not anysym(a):
        return rnp.argmin(a, axis=axis)
    return _argext(asarray(a), axis, core.slt)


def _order(row):
    order = []
    for i in range(len(row)):
        j = len(order)
        while j > 0 and not _isnan(row[i]) and (
            _isnan(row[order[j - 1]]) or truth(core.slt(row[i], row[order[j - 1]]))
        ):
            j -= 1
        order.insert(j, i)
    return order


def argsort(a, axis=-1, kind=None, order=None, **k):
    if not anysym(a):
        return rnp.argsort(a, axis=axis, kind="stable")
    src = _raw(asarray(a))
    if axis is None:
        src = src.ravel()
        axis = 0
    t = rnp.moveaxis(src, axis, -1)
    out = rnp.empty(t.shape, dtype=int)
    for kk in rnp.ndindex(t.shape[:-1]):
        out[kk] = _order(t[kk])
    return rnp.moveaxis(out, -1, axis)


def argpartition(a, kth, axis=-1, **k):
    return argsort(a, axis)


def sort(a, axis=-1, kind=None, order=None, **k):
    if not anysym(a):
        return rnp.sort(a, axis=axis)
    a = asarray(a)
    src = _raw(a)
    if axis is None:
        src = src.ravel()
        axis = 0
    ind = argsort(a, axis)
    return SymArray(rnp.take_along_axis(src, ind, axis), a._sd)


def partition(a, kth, axis=-1, **k):
    return sort(a, axis)


def zeros(shape, dtype=None, order="C", **k):
    return full(shape, 0, _dt(dtype))


def ones(shape, dtype=None, order="C", **k):
    return full(shape, 1, _dt(dtype))


def empty(shape, dtype=None, order="C", **k):
    dt = _dt(dtype)
    if dt.char == "q":
        return full(shape, 0, dt)
    if dt.kind in "iub":
        return rnp.zeros(shape, dtype=dt)
    shape = _shape(shape)
    out = rnp.empty(shape, dtype=object)
    cx = core.ctx()
    base = cx.fresh_id("uninit")
    for i, k in enumerate(rnp.ndindex(out.shape)):
        out[k] = cx.var(f"{base}_{i}")
    return SymArray(out, C16 if dt.kind == "c" else F8)


def _shape(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(int(s) for s in shape)
    if isinstance(shape, rnp.ndarray):
        return tuple(int(s) for s in shape.ravel()) if shape.ndim else (int(shape),)
    return (int(shape),)


def full(shape, fill, dtype=None, **k):
    if dtype is None:
        if isinstance(fill, (bool, rnp.bool_)):
            dt = B1
        elif isinstance(fill, (int, rnp.integer)):
            dt = I8
        else:
            dt = C16 if _iscp(fill) else F8
    else:
        dt = _dt(dtype)
    if dt.char == "q":
        return SymArray(_map(_trunc, full(shape, fill, F8)), I8S)
    if dt.kind in "iub":
        return rnp.full(_shape(shape), int(fill) if dt.kind != "b" else bool(fill), dtype=dt)
    out = rnp.empty(_shape(shape), dtype=object)
    if isinstance(fill, rnp.ndarray):
        out[...] = _raw(fill)
    elif isinstance(fill, (list, tuple)):
        out[...] = _raw(array(fill))
    else:
        v = fill if (core._nonfinite(fill) or _iscp(fill)) else lift(fill)
        for k_ in rnp.ndindex(out.shape):
            out[k_] = v
    return SymArray(out, C16 if dt.kind == "c" else F8)


def _likedt(a, dtype):
    if dtype is not None:
        return _dt(dtype)
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(a, rnp.ndarray):
        return a.dtype
    return F8 if not isinstance(a, (int, rnp.integer)) else I8


def zeros_like(a, dtype=None, shape=None, **k):
    return zeros(_shape_of(a) if shape is None else shape, _likedt(a, dtype))


def ones_like(a, dtype=None, shape=None, **k):
    return ones(_shape_of(a) if shape is None else shape, _likedt(a, dtype))


def empty_like(a, dtype=None, shape=None, **k):
    return empty(_shape_of(a) if shape is None else shape, _likedt(a, dtype))


def full_like(a, fill, dtype=None, **k):
    return full(_shape_of(a), fill, _likedt(a, dtype))


def eye(n, m=None, k=0, dtype=None, **kw):
    dt = _dt(dtype)
    e = rnp.eye(int(n), None if m is None else int(m), k)
    if dt.kind in "iub":
        return e.astype(dt)
    return SymArray(_map(lift, e), C16 if dt.kind == "c" else F8)


def identity(n, dtype=None, **k):
    return eye(n, dtype=dtype)


def arange(*a, dtype=None, **k):
    a = [int(v) if isinstance(v, SymReal) and v.is_integer() else v for v in a]
    r = rnp.arange(*a, **k)
    if dtype is not None and _dt(dtype).kind in "iu":
        return r.astype(_dt(dtype))
    if r.dtype.kind == "f" or (dtype is not None and _dt(dtype).kind == "f"):
        return SymArray(_map(lift, r))
    return r


def linspace(a, b, n=50, **k):
    n = int(n)
    if n == 1:
        return array([a])
    return SymArray(_raw(array([sadd(a, sdiv(smul(ssub(b, a), i), n - 1)) for i in range(n)])))


def _flatten_seq(o):
    """nested sequence of scalars/arrays -> raw object ndarray"""
    if isinstance(o, rnp.ndarray):
        return _raw(o)
    if isinstance(o, (list, tuple)):
        parts = [_flatten_seq(v) for v in o]
        if not parts:
            return rnp.empty((0,), dtype=object)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        out = rnp.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if sh else p[()]
        return out
    r = rnp.empty((), dtype=object)
    r[()] = o
    return r


def _build(o, dtype=None, copy=True):
    if isinstance(o, SymArray):
        if dtype is not None:
            dt = _dt(dtype)
            if dt.kind in "iub":
                return o.astype(dt)
            if (dt.kind == "c") != (o._sd == C16) or o._sd.kind == "i":
                return o.astype(dt)
        return o.copy() if copy else o
    if isinstance(o, rnp.ndarray) and not _isobj(o):
        dt = o.dtype if dtype is None else _dt(dtype)
        if dt.kind in "fc":
            return SymArray(_map(lambda v: _num(v), o), C16 if dt.kind == "c" else F8)
        return rnp.array(o, dtype=dt) if copy else rnp.asarray(o, dtype=dt)
    if isinstance(o, (types.GeneratorType, range, map, zip)):
        o = list(o)
    raw = _flatten_seq(o)
    flat = list(raw.ravel())
    dt = None if dtype is None else _dt(dtype)
    if dt is None:
        if isinstance(o, (list, tuple)) and o and all(isinstance(v, SymArray) and v._sd.char == "q" for v in o):
            return SymArray(raw, I8S)
        if flat and all(isinstance(v, (bool, rnp.bool_, SymBool)) for v in flat):
            if any(isinstance(v, SymBool) for v in flat):
                return SymArray(raw, B1)
            return raw.astype(bool)
        if flat and all(isinstance(v, (int, rnp.integer)) for v in flat):
            return raw.astype(int)
        if flat and not all(
            isinstance(v, (int, float, complex, rnp.number, Fraction, SymReal, SymComplex, SymBool, SymAngle, SymImagAngle))
            for v in flat
        ):
            return rnp.array(o)  # strings and other objects
        dt = C16 if any(_iscp(v) for v in flat) else F8
    if dt.kind in "iu":
        return _map(lambda v: int(v), raw).astype(dt)
    if dt.kind == "b":
        return _tobool(SymArray(raw, B1))
    out = _map(_num, raw)
    return SymArray(out, C16 if dt.kind == "c" else F8)


def _num(v):
    if is_sym(v) or isinstance(v, SymImagAngle):
        if isinstance(v, SymBool):
            return lift(v)
        return v
    if isinstance(v, (complex, rnp.complexfloating)):
        return core.tocomplex(v)
    if core._nonfinite(v):
        return float(v)
    return lift(v)


def array(o, dtype=None, copy=True, ndmin=0, **k):
    r = _build(o, dtype, True)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(o, dtype=None, **k):
    return _build(o, dtype, False)


def copy_(a, order="C", **k):
    return _build(a, None, True)


def atleast_1d(*a):
    r = [asarray(v).reshape(-1) if ndim(v) == 0 else asarray(v) for v in a]
    return r[0] if len(r) == 1 else r


def atleast_2d(*a):
    r = []
    for v in a:
        v = asarray(v)
        r.append(v.reshape(1, -1) if v.ndim < 2 else v)
    return r[0] if len(r) == 1 else r


def _cat(fn):
    def f(arrs, *a, **k):
        k.pop("dtype", None)
        arrs = [asarray(v) for v in arrs]
        if not any(isinstance(v, SymArray) for v in arrs):
            return fn(arrs, *a, **k)
        cp = any(_iscp(v) for v in arrs)
        if all(_intlike(v) for v in arrs) and any(isinstance(v, SymArray) and v._sd.char == "q" for v in arrs):
            return SymArray(fn([_raw(v) for v in arrs], *a, **k), I8S)
        return SymArray(fn([_raw(v) for v in arrs], *a, **k), C16 if cp else F8)

    return f


stack = _cat(rnp.stack)
vstack = _cat(rnp.vstack)
hstack = _cat(rnp.hstack)
concatenate = _cat(rnp.concatenate)
column_stack = _cat(rnp.column_stack)
dstack = _cat(rnp.dstack)


def _structural(name):
    fn = getattr(rnp, name)

    def f(a, *args, **k):
        if not anysym(a):
            if isinstance(a, rnp.ndarray) or isinstance(a, (list, tuple)):
                return fn(a, *args, **k)
            return fn(a, *args, **k)
        a = asarray(a)
        r = fn(a.raw(), *[_idx(v) for v in args], **{kk: _idx(v) for kk, v in k.items()})
        if isinstance(r, (list, tuple)):
            return type(r)(SymArray(v, a._sd) for v in r)
        if not isinstance(r, rnp.ndarray):
            return r
        return SymArray(r, a._sd)

    f.__name__ = name
    return f


def outer(a, b, out=None):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return multiply(a[:, None], b[None, :])


def dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return multiply(a, b)
    if not anysym(a, b):
        return rnp.dot(a, b)
    if b.ndim == 1 or a.ndim == 1 or (a.ndim == 2 and b.ndim == 2):
        return matmul(a, b)
    raise Unsupported("dot")


def vdot(a, b):
    return dot(conj(asarray(a).ravel()), asarray(b).ravel())


def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    return dot(a, b.T)


def matmul(a, b, out=None, **k):
    a, b = asarray(a), asarray(b)
    cp = _iscp(a) or _iscp(b)
    ra, rb = _raw(a), _raw(b)
    if ra.ndim == 0 or rb.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    sa = ra[None, :] if ra.ndim == 1 else ra
    sb = rb[:, None] if rb.ndim == 1 else rb
    if sa.shape[-1] != sb.shape[-2]:
        raise ValueError(
            "matmul: Input operand 1 has a mismatch in its core dimension 0")
    if sa.ndim > 2 or sb.ndim > 2:
        bshape = rnp.broadcast_shapes(sa.shape[:-2], sb.shape[:-2])
        sa = rnp.broadcast_to(sa, bshape + sa.shape[-2:])
        sb = rnp.broadcast_to(sb, bshape + sb.shape[-2:])
        out_ = rnp.empty(bshape + (sa.shape[-2], sb.shape[-1]), dtype=object)
        for kk in rnp.ndindex(bshape):
            out_[kk] = _mm(sa[kk], sb[kk])
    else:
        out_ = _mm(sa, sb)
    if ra.ndim == 1:
        out_ = out_[..., 0, :]
    if rb.ndim == 1:
        out_ = out_[..., 0]
    if shape(out_) == ():
        return out_[()] if isinstance(out_, rnp.ndarray) else out_
    return SymArray(out_, C16 if cp else F8)


def _mm(a, b):
    out = rnp.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            acc = SymReal.const(0)
            for l in range(a.shape[1]):
                acc = sadd(acc, smul(a[i, l], b[l, j]))
            out[i, j] = acc
    return out


def einsum(spec, *ops, **k):
    ops = [asarray(o) for o in ops]
    if not anysym(*ops):
        return rnp.einsum(spec, *ops)
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, outs = spec.split("->")
    else:
        ins = spec
        al = "".join(sorted(set(ins.replace(",", ""))))
        outs = "".join(c for c in al if ins.count(c) == 1)
    ins = ins.split(",")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    dim = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dim[c] = n
    raws = [_raw(o) for o in ops]
    inner_ = [c for c in dim if c not in outs]
    out = rnp.empty([dim[c] for c in outs], dtype=object)
    for kk in rnp.ndindex(out.shape):
        env = dict(zip(outs, kk))
        acc = SymReal.const(0)
        for jj in rnp.ndindex(*[dim[c] for c in inner_]):
            env.update(zip(inner_, jj))
            t = SymReal.const(1)
            for s, r in zip(ins, raws):
                t = smul(t, r[tuple(env[c] for c in s)])
            acc = sadd(acc, t)
        out[kk] = acc
    return _wrap(out, any(_iscp(o) for o in ops))


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    al = "abcdefghijklmnopqrstuvwxyz"
    sa = list(al[: a.ndim])
    sb = list(al[a.ndim: a.ndim + b.ndim])
    for i, j in zip(ax, bx):
        sb[j] = sa[i]
    outs = [c for i, c in enumerate(sa) if i not in [q % a.ndim for q in ax]] + \
        [c for j, c in enumerate(sb) if j not in [q % b.ndim for q in bx]]
    return einsum("".join(sa) + "," + "".join(sb) + "->" + "".join(outs), a, b)


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    if isinstance(c, (SymBool, bool, rnp.bool_)) and not anysym(a, b) and \
            not isinstance(a, rnp.ndarray):
        return a if truth(c) else b
    if not anysym(c, a, b):
        return rnp.where(c, a, b)
    a = array(a) if isinstance(a, (list, tuple)) else a
    b = array(b) if isinstance(b, (list, tuple)) else b
    m = _map(lambda cc, x, y: x if truth(cc) else y, c, a, b)
    if m.shape == ():
        return m[()]
    return SymArray(_map(_num, m), C16 if (_iscp(a) or _iscp(b)) else F8)


def select(conds, choices, default=0):
    out = default
    for c, v in reversed(list(zip(conds, choices))):
        out = where(c, v, out)
    return out


def nonzero(a):
    if not anysym(a):
        return rnp.nonzero(a)
    return rnp.nonzero(_tobool(asarray(a)))


def flatnonzero(a):
    return nonzero(asarray(a).ravel())[0]


def count_nonzero(a, axis=None, **k):
    if not anysym(a):
        return rnp.count_nonzero(a, axis=axis)
    return rnp.count_nonzero(_tobool(asarray(a)), axis=axis)


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    if a_min is None:
        a_min = min
    if a_max is None:
        a_max = max
    r = a
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if isinstance(v, SymComplex):
            return SymComplex(f(v.re), f(v.im))
        if _isnan(v):
            return lift(nan)
        if _isinf(v):
            return lift(1.797e308 if v > 0 else -1.797e308)
        return v

    r = _map(f, asarray(a) if not is_sym(a) else a)
    res = _wrap(r, _iscp(a))
    if not copy and isinstance(a, rnp.ndarray):
        a[...] = res
        return a
    return res


def real(a):
    if not isinstance(a, rnp.ndarray):
        return _real(a)
    if not isinstance(a, SymArray):
        return rnp.real(a)
    if a._sd != C16:
        return a
    return _wrap(_map(_real, a), False)


def imag(a):
    if not isinstance(a, rnp.ndarray):
        return _imag(a)
    if not isinstance(a, SymArray):
        return rnp.imag(a)
    return SymArray(_map(_imag, a), F8)


def conj(a, *args, **k):
    if not isinstance(a, rnp.ndarray):
        return _conj(a)
    if not isinstance(a, SymArray):
        return rnp.conj(a)
    return SymArray(_map(_conj, a), a._sd)


def angle(a, deg=False):
    if not anysym(a):
        a = asarray(a)
    r = _map(lambda v: SymAngle(v), a)
    if r.shape == ():
        return r[()]
    return SymArray(r, F8)


def iscomplexobj(a):
    if isinstance(a, SymArray):
        return a._sd == C16
    if isinstance(a, SymReal):
        return False
    if isinstance(a, SymComplex):
        return True
    return rnp.iscomplexobj(a)


def isrealobj(a):
    return not iscomplexobj(a)


def iscomplex(a):
    if not anysym(a):
        return rnp.iscomplex(a)
    return not_equal(imag(a), 0)


def isreal(a):
    return logical_not(iscomplex(a))


def isscalar(a):
    return is_sym(a) or rnp.isscalar(a)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(all_(isclose(a, b, rtol, atol, equal_nan)))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return less_equal(absolute(subtract(a, b)), add(atol, multiply(rtol, absolute(b))))


def array_equal(a, b, equal_nan=False):
    if shape(a) != shape(b):
        return False
    return bool(all_(equal(a, b)))


def bincount(x, weights=None, minlength=0):
    x = rnp.asarray(x)
    if weights is None:
        return rnp.bincount(x, minlength=minlength)
    n = max(int(x.max()) + 1, minlength)
    out = rnp.empty(n, dtype=object)
    for i in range(n):
        out[i] = SymReal.const(0)
    for i, w in zip(x.ravel(), _raw(weights).ravel()):
        out[i] = sadd(out[i], w)
    return SymArray(out)


def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    if not anysym(a):
        return rnp.diff(a, n=n, axis=axis)
    for _ in range(n):
        t = rnp.moveaxis(a, axis, 0)
        r = subtract(t[1:], t[:-1])
        a = SymArray(rnp.moveaxis(_raw(r), 0, axis))
    return a


def ediff1d(a, **k):
    return diff(asarray(a).ravel())


def take(a, ind, axis=None, **k):
    a = asarray(a)
    r = rnp.take(_raw(a), rnp.asarray(_idx(list(ind) if isinstance(ind, range) else ind)), axis=axis)
    if not anysym(a):
        return r
    return SymArray(r, a._sd) if isinstance(r, rnp.ndarray) else r


def put_along_axis(a, ind, vals, axis):
    rnp.put_along_axis(a.raw(), ind, _raw(vals), axis)


def fill_diagonal(a, v, **k):
    for i in range(min(a.shape)):
        a[i, i] = v


def copyto(dst, src, **k):
    dst[...] = src


def diag(v, k=0):
    v = asarray(v)
    if not anysym(v):
        return rnp.diag(v, k)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        out = zeros((n, n), v.dtype)
        for i in range(v.shape[0]):
            out[i + max(-k, 0), i + max(k, 0)] = v[i]
        return out
    return SymArray(rnp.diag(v.raw(), k), v._sd)


def trace(a, **k):
    return sum_(diag(a))


def full_print(*a, **k):
    pass


def ndim(a):
    return len(shape(a))


def shape(a):
    if isinstance(a, rnp.ndarray):
        return a.shape
    if is_sym(a):
        return ()
    return asarray(a).shape if anysym(a) else rnp.shape(a)


_shape_of = shape


def size(a, axis=None):
    if is_sym(a):
        return 1
    if isinstance(a, (list, tuple)):
        a = asarray(a)
    return rnp.size(_raw(a), axis)


def result_type(*a):
    dts = []
    for v in a:
        if isinstance(v, SymArray):
            dts.append(v._sd)
        elif isinstance(v, SymReal):
            dts.append(F8)
        elif isinstance(v, SymComplex):
            dts.append(C16)
        else:
            dts.append(_dt(v) if isinstance(v, type) else v)
    return rnp.result_type(*dts)


def trapz(*a, **k):
    raise Unsupported("trapz")


def ptp(a, axis=None, **k):
    return subtract(max_(a, axis), min_(a, axis))


def median(a, axis=None, **k):
    a = asarray(a)
    if axis is not None:
        raise Unsupported("median axis")
    s = sort(a.ravel())
    n = s.size
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def searchsorted(a, v, side="left", **k):
    a = asarray(a)
    if not anysym(a, v):
        return rnp.searchsorted(a, v, side)
    if ndim(v):
        return rnp.array([searchsorted(a, u, side) for u in v])
    n = 0
    for u in a:
        if truth(core.slt(u, v) if side == "left" else core.sle(u, v)):
            n += 1
        else:
            break
    return n


def apply_along_axis(f, axis, a, *args, **k):
    a = asarray(a)
    t = rnp.moveaxis(a.raw(), axis, -1)
    outs = [f(SymArray(t[kk], a._sd), *args, **k) for kk in rnp.ndindex(t.shape[:-1])]
    if ndim(outs[0]) == 0:
        return asarray(outs).reshape(t.shape[:-1])
    r = stack(outs).reshape(t.shape[:-1] + outs[0].shape)
    return SymArray(rnp.moveaxis(_raw(r), -1, axis), r._sd)


def vectorize(f, *a, **k):
    def g(*args):
        return _wrap(_map(f, *args))

    return g


def unique(a, **k):
    if not anysym(a):
        return rnp.unique(a, **k)
    raise Unsupported("unique")


def insert(a, i, v, axis=None):
    if not anysym(a, v):
        return rnp.insert(a, i, v, axis)
    a = asarray(a)
    return SymArray(rnp.insert(a.raw(), i, _raw(v), axis), a._sd)


def append(a, v, axis=None):
    a, v = asarray(a), asarray(v)
    if axis is None:
        return concatenate([a.ravel(), v.ravel()])
    return concatenate([a, v], axis=axis)


def triu(a, k=0):
    a = asarray(a)
    return multiply(a, rnp.triu(rnp.ones(a.shape, dtype=int), k))


def tril(a, k=0):
    a = asarray(a)
    return multiply(a, rnp.tril(rnp.ones(a.shape, dtype=int), k))


def meshgrid(*a, **k):
    return rnp.meshgrid(*a, **k)


# ------------------------------------------------------------ linalg
def _lapack_solve(A, B):
    """exact Gaussian elimination on raw object matrices (A square)"""
    n = A.shape[0]
    M = [[lift(A[i, j]) if not _iscp(A[i, j]) else A[i, j] for j in range(n)] +
         [B[i, j] for j in range(B.shape[1])] for i in range(n)]
    for c in range(n):
        piv = None
        # prefer constant pivots, then syntactically nonzero ones
        for r in range(c, n):
            v = M[r][c]
            if isinstance(v, SymReal) and v.is_const() and not v.n.is_zero():
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                v = M[r][c]
                if isinstance(v, SymReal) and v.is_const():
                    continue
                if truth(core.sne(v, 0)):
                    piv = r
                    break
        if piv is None:
            raise rnp.linalg.LinAlgError("Singular matrix")
        M[c], M[piv] = M[piv], M[c]
        pv = M[c][c]
        M[c] = [sdiv(v, pv) for v in M[c]]
        for r in range(n):
            if r != c:
                fct = M[r][c]
                if isinstance(fct, SymReal) and fct.is_const() and fct.n.is_zero():
                    continue
                M[r] = [ssub(v, smul(fct, w)) for v, w in zip(M[r], M[c])]
    out = rnp.empty(B.shape, dtype=object)
    for i in range(n):
        for j in range(B.shape[1]):
            out[i, j] = M[i][n + j]
    return out


class _LA(types.SimpleNamespace):
    def __getattr__(self, name):
        v = getattr(rnp.linalg, name)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                if anysym(*a):
                    raise Unsupported(f"linalg.{name}")
                return v(*a, **k)
            return f
        return v


def _norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if not isinstance(x, SymArray):
        x = SymArray(x)
    if axis is None and (ord is None or (ord == 2 and x.ndim == 1) or
                         (ord == "fro" and x.ndim == 2)):
        v = absolute(x) if x._sd == C16 and False else x
        acc = SymReal.const(0)
        for e in v.raw().ravel():
            if _iscp(e):
                e = core.tocomplex(e)
                acc = sadd(acc, sadd(smul(e.re, e.re), smul(e.im, e.im)))
            else:
                acc = sadd(acc, smul(e, e))
        r = ssqrt(acc, nonneg=True)
        return r if not keepdims else asarray(r).reshape((1,) * x.ndim)
    if axis is None and x.ndim == 2:
        if ord == "nuc":
            s = NP.linalg.svd(x, compute_uv=False)
            return sum_(s)
        if ord == 1:
            return max_(sum_(absolute(x), axis=0))
        if ord == rnp.inf:
            return max_(sum_(absolute(x), axis=1))
        if ord == 2:
            return max_(NP.linalg.svd(x, compute_uv=False))
        raise Unsupported("matrix norm")
    if axis is not None and not isinstance(axis, (int, rnp.integer)):
        if isinstance(axis, tuple) and len(axis) == 1:
            axis = axis[0]
        elif ord in (None, "fro"):
            return sqrt(sum_(square(absolute(x)), axis=axis, keepdims=keepdims))
        else:
            raise Unsupported("matrix norm axes")
    if axis is None and x.ndim > 2:
        raise ValueError("Improper number of dimensions to norm.")
    if axis is None:
        axis = 0
    if ord is None or ord == 2:
        sq = _wrap(_map(lambda e: smul(e, e) if not _iscp(e) else
                        sadd(smul(_real(e), _real(e)), smul(_imag(e), _imag(e))), x))
        return sqrt(sum_(sq, axis=axis, keepdims=keepdims))
    if ord == 1:
        return sum_(absolute(x), axis=axis, keepdims=keepdims)
    if ord == rnp.inf:
        return max_(absolute(x), axis=axis, keepdims=keepdims)
    if ord == 0:
        nz = _tobool(asarray(not_equal(x, 0)) if not isinstance(not_equal(x, 0), SymArray) else not_equal(x, 0))
        r = rnp.sum(nz, axis=axis, keepdims=keepdims)
        return array(r).astype(float) * 1 if ndim(r) == 0 and False else (
            SymReal.const(int(r)) if ndim(r) == 0 else SymArray(_map(lift, r)))
    raise Unsupported(f"norm ord {ord}")


def _solve(A, B):
    A, B = asarray(A), asarray(B)
    if core.ctx().abstract_inv:
        return matmul(_pinv(A), B)
    b2 = _raw(B).reshape(-1, 1) if B.ndim == 1 else _raw(B)
    r = _lapack_solve(_raw(A), b2)
    return SymArray(r.reshape(B.shape), C16 if _iscp(A) or _iscp(B) else F8)


def _inv_(A):
    A = asarray(A)
    if core.ctx().abstract_inv:
        return _pinv(A)
    return _solve(A, eye(A.shape[0]))


def _pinv(A, *a, **k):
    """contract used: pinv == inv for the (nonsingular) matrices met here; with
    abstract_inv the inverse is an uninterpreted function of the matrix entries"""
    cx = core.ctx()
    if cx.abstract_inv:
        A = asarray(A)
        flat = list(_raw(A).ravel())
        for e in flat:
            if core._nonfinite(e) or _iscp(asarray(e)):
                raise Unsupported("inverse of these entries")
        outs = [cx.uf(f"pinv[{i}]", flat) for i in range(len(flat))]
        return SymArray(rnp.array(outs, dtype=object).reshape(A.shape), F8)
    R = _raw(asarray(A))
    if all(not core._nonfinite(e) and not _iscp(e) and core.lift(e).n.is_zero() for e in R.ravel()):
        return asarray(A).T.copy()
    return _inv_(A)


def _det(A):
    A = _raw(asarray(A))
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    acc = SymReal.const(0)
    for j in range(n):
        sub = rnp.delete(rnp.delete(A, 0, 0), j, 1)
        t = smul(A[0, j], _det(sub))
        acc = sadd(acc, t if j % 2 == 0 else sneg(t))
    return acc


def _eq_mat(A, B):
    if A.shape != B.shape:
        return False
    for k in rnp.ndindex(A.shape):
        d = ssub(A[k], B[k])
        if _iscp(d):
            d = core.tocomplex(d)
            if not (isinstance(d.re, SymReal) and d.re.n.is_zero() and d.im.n.is_zero()):
                return False
            continue
        if not (isinstance(d, SymReal) and d.n.is_zero()):
            return False
    return True


def _svd(X, full_matrices=True, compute_uv=True, **k):
    """contract stub: decompositions registered by the harness, else 1-column
    or diagonal closed forms"""
    X = asarray(X)
    R = _raw(X)
    for (M, U, S, Vh) in core.ctx().svds:
        if _eq_mat(R, _raw(M)):
            if not compute_uv:
                return S.copy()
            kk = len(S)
            if full_matrices:
                if U.shape[1] != U.shape[0] or Vh.shape[0] != Vh.shape[1]:
                    raise Unsupported("full svd")
                return U.copy(), S.copy(), Vh.copy()
            return U[:, :kk].copy(), S.copy(), Vh[:kk].copy()
        if _eq_mat(R, _raw(M).T):
            kk = len(S)
            if not compute_uv:
                return S.copy()
            if full_matrices:
                if U.shape[1] != U.shape[0] or Vh.shape[0] != Vh.shape[1]:
                    raise Unsupported("full svd")
                return Vh.T.copy(), S.copy(), U.T.copy()
            return Vh[:kk].T.copy(), S.copy(), U[:, :kk].T.copy()
        if _eq_mat(R, rnp.vectorize(_conj, otypes=[object])(_raw(M)).T):
            kk = len(S)
            if not compute_uv:
                return S.copy()
            if not full_matrices:
                return conj(Vh[:kk]).T.copy(), S.copy(), conj(U[:, :kk]).T.copy()
    raise Unsupported("svd of an unregistered matrix")


def _eigvalsh(X, *a, **k):
    X = asarray(X)
    R = _raw(X)
    for (M, U, S, Vh) in core.ctx().svds:
        m = _raw(M)
        for G in (_mm(m.T, m), _mm(m, m.T)):
            if _eq_mat(R, G):
                n = R.shape[0]
                ev = [smul(s, s) for s in _raw(S)][::-1]
                z = [SymReal.const(0)] * (n - len(ev))
                ev = ev[len(ev) - n:] if len(ev) > n else ev
                return array(z + list(ev))
    if R.shape == (1, 1):
        return array([R[0, 0]])
    if R.shape == (2, 2):
        a_, b_, d_ = R[0, 0], R[1, 0], R[1, 1]
        t = ssqrt(sadd(spow(ssub(a_, d_), 2), smul(4, smul(b_, b_))))
        h = sadd(a_, d_)
        return array([sdiv(ssub(h, t), 2), sdiv(sadd(h, t), 2)])
    raise Unsupported("eigvalsh")


LA = _LA(norm=_norm, solve=_solve, inv=_inv_, pinv=_pinv, det=_det, svd=_svd,
         eigvalsh=_eigvalsh, LinAlgError=rnp.linalg.LinAlgError,
         svdvals=lambda X: _svd(X, compute_uv=False),
         matrix_rank=None)


# ------------------------------------------------------------ fft
def _root(n, k):
    """exp(-2 pi i k/n), exact for n in 1,2,3,4,6,8,12"""
    k %= n
    q = Fraction(k, n)
    tab = {Fraction(0): (1, 0), Fraction(1, 4): (0, -1), Fraction(1, 2): (-1, 0),
           Fraction(3, 4): (0, 1)}
    if q in tab:
        c, s = tab[q]
        return SymComplex(SymReal.const(c), SymReal.const(s))
    if n in (3, 6, 12):
        h = SymReal.const(Fraction(1, 2))
        r3 = smul(ssqrt(3), h)
        a = {Fraction(1, 6): (h, r3), Fraction(1, 3): (sneg(h), r3),
             Fraction(2, 3): (sneg(h), sneg(r3)), Fraction(5, 6): (h, sneg(r3)),
             Fraction(1, 12): (r3, h), Fraction(5, 12): (sneg(r3), h),
             Fraction(7, 12): (sneg(r3), sneg(h)), Fraction(11, 12): (r3, sneg(h))}
        c, s = a[q]
        return SymComplex(c, sneg(s))
    if n == 8:
        r2 = sdiv(ssqrt(2), 2)
        sgn = {1: (1, 1), 3: (-1, 1), 5: (-1, -1), 7: (1, -1)}[k]
        return SymComplex(smul(r2, sgn[0]), sneg(smul(r2, sgn[1])))
    raise Unsupported("fft length")


def _dft(x, n, axis, inverse):
    x = asarray(x)
    r = rnp.moveaxis(_raw(x), axis, -1)
    m = r.shape[-1]
    n = m if n is None else int(n)
    if n > m:
        pad = rnp.empty(r.shape[:-1] + (n - m,), dtype=object)
        pad[...] = SymReal.const(0)
        r = rnp.concatenate([r, pad], axis=-1)
    else:
        r = r[..., :n]
    out = rnp.empty(r.shape, dtype=object)
    W = [_root(n, k) for k in range(n)]
    if inverse:
        W = [w.conj() for w in W]
    for kk in rnp.ndindex(r.shape[:-1]):
        for q in range(n):
            acc = core.tocomplex(0)
            for j in range(n):
                acc = sadd(acc, smul(W[(q * j) % n], r[kk + (j,)]))
            out[kk + (q,)] = sdiv(acc, n) if inverse else core.tocomplex(acc)
    return SymArray(rnp.moveaxis(out, -1, axis), C16)


def _rfft(x, n=None, axis=-1, **k):
    r = _dft(x, n, axis, False)
    m = r.shape[axis]
    return r.take(list(range(m // 2 + 1)), axis)


def _irfft(x, n=None, axis=-1, **k):
    x = asarray(x)
    r = rnp.moveaxis(_raw(x), axis, -1)
    m = r.shape[-1]
    n = 2 * (m - 1) if n is None else int(n)
    fullr = rnp.empty(r.shape[:-1] + (n,), dtype=object)
    for j in range(n):
        if j < m and j <= n // 2:
            fullr[..., j] = r[..., j]
        else:
            fullr[..., j] = _map(_conj, r[..., n - j])
    out = _dft(SymArray(rnp.moveaxis(fullr, -1, axis), C16), n, axis, True)
    return real(out)


class _FFT(types.SimpleNamespace):
    def __getattr__(self, name):
        def f(*a, **k):
            raise Unsupported(f"fft.{name}")
        return f


FFT = _FFT(
    fft=lambda x, n=None, axis=-1, **k: _dft(x, n, axis, False),
    ifft=lambda x, n=None, axis=-1, **k: _dft(x, n, axis, True),
    rfft=_rfft, irfft=_irfft,
)


class _Random(types.SimpleNamespace):
    """np.random: values are symbolic choices made by the harness context"""

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        cx = core.ctx()
        if size is not None:
            raise Unsupported("randint size")
        name = cx.fresh_id("randint")
        v = cx.var(name)
        for c in range(int(low), int(high) - 1):
            if truth(core.sle(v, c)):
                return c
        return int(high) - 1

    def normal(self, loc=0.0, scale=1.0, size=None):
        cx = core.ctx()
        name = cx.fresh_id("normal")
        out = rnp.empty(_shape(size) if size is not None else (), dtype=object)
        for i, k in enumerate(rnp.ndindex(out.shape)):
            out[k] = cx.var(f"{name}_{i}")
        return _wrap(out)

    def __getattr__(self, name):
        def f(*a, **k):
            raise Unsupported(f"random.{name}")
        return f


class _NPModule(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(rnp, name)
        if isinstance(v, (type, types.ModuleType)) or not callable(v):
            return v

        def f(*a, **k):
            if anysym(*a) or anysym(*k.values()):
                raise Unsupported(f"numpy.{name}")
            return v(*a, **k)

        return f


NP = _NPModule("numpy")
for _n in _SC:
    setattr(NP, _n, _call(_n))
NP.__dict__["bitwise_not"] = NP.invert
for _n in ("add", "subtract", "multiply", "true_divide", "maximum", "minimum", "absolute",
           "sqrt", "square", "less_equal", "equal", "not_equal", "logical_not"):
    globals()[_n] = getattr(NP, _n)
for _n, _f in dict(
    sum=sum_, prod=prod, mean=mean, average=average, max=max_, min=min_, amax=max_, amin=min_,
    any=any_, all=all_, cumsum=cumsum, cumprod=cumprod, argmax=argmax, argmin=argmin,
    argsort=argsort, argpartition=argpartition, sort=sort, partition=partition, zeros=zeros,
    ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like,
    empty_like=empty_like, full_like=full_like, eye=eye, identity=identity, arange=arange,
    linspace=linspace, array=array, asarray=asarray, asanyarray=asarray,
    ascontiguousarray=asarray, copy=copy_, atleast_1d=atleast_1d, atleast_2d=atleast_2d,
    stack=stack, vstack=vstack, hstack=hstack, concatenate=concatenate,
    column_stack=column_stack, dstack=dstack, outer=outer, dot=dot, vdot=vdot, inner=inner,
    matmul=matmul, einsum=einsum, tensordot=tensordot, where=where, select=select,
    nonzero=nonzero, flatnonzero=flatnonzero, count_nonzero=count_nonzero, clip=clip,
    nan_to_num=nan_to_num, real=real, imag=imag, conj=conj, conjugate=conj, angle=angle,
    iscomplexobj=iscomplexobj, isrealobj=isrealobj, iscomplex=iscomplex, isreal=isreal,
    isscalar=isscalar, allclose=allclose, isclose=isclose, array_equal=array_equal,
    bincount=bincount, diff=diff, ediff1d=ediff1d, take=take, fill_diagonal=fill_diagonal,
    put_along_axis=put_along_axis, copyto=copyto, diag=diag, trace=trace, ndim=ndim,
    shape=shape, size=size, result_type=result_type, ptp=ptp, median=median,
    searchsorted=searchsorted, apply_along_axis=apply_along_axis, vectorize=vectorize,
    unique=unique, insert=insert, append=append, triu=triu, tril=tril, meshgrid=meshgrid,
    linalg=LA, fft=FFT, random=_Random(), ndarray=rnp.ndarray,
    concat=concatenate, float_=rnp.float64,
).items():
    setattr(NP, _n, _f)
for _n in ("reshape", "ravel", "transpose", "moveaxis", "swapaxes", "expand_dims", "squeeze",
           "flip", "fliplr", "flipud", "roll", "repeat", "tile", "split", "array_split",
           "broadcast_to", "delete", "rot90", "pad", "diagonal", "take_along_axis",
           "resize", "triu_indices_from", "hsplit", "vsplit", "permute_dims"):
    setattr(NP, _n, _structural(_n))
