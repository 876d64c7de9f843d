"""Polymorphic harness: the same property script runs symbolically on the
stand-in-loaded source and concretely on the installed pyproximal."""

import contextlib
import hashlib
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as rnp

from . import core, loader
from .arr import NP, SymArray, _raw
from .core import (ALL, Budget, Context, PathAbort, S_EQ, S_GE, S_GT, S_LE, S_LT, S_NE,
                   SymBool, SymComplex, SymReal, Unsupported, f_and, f_leaf, f_not, f_or,
                   lift, sadd, sdiv, smul, ssub)
from .poly import Poly

TOL = 1e-6


class Skip(BaseException):
    """concrete run leaves the assumed domain (rounding) or a bound of the harness"""


def _flat(v):
    if isinstance(v, rnp.ndarray):
        return list(_raw(v).ravel()) if isinstance(v, SymArray) else list(v.ravel())
    if isinstance(v, (list, tuple)):
        out = []
        for w in v:
            out.extend(_flat(w))
        return out
    return [v]


def _scalar_arg(a):
    """a scalar step that was cast to complex counts as the real number it is"""
    if not isinstance(a, (rnp.ndarray, list, tuple)) or isinstance(a, rnp.ndarray) and a.ndim == 0:
        e = _flat(a)[0]
        if core._iscomplex(e):
            z = core.lift(e.imag) if core.is_sym(e.imag) else e.imag
            if (z.is_const() and z.const_value() == 0) if core.is_sym(z) else z == 0:
                return e.real
    return a


def _shape(v):
    return tuple(v.shape) if isinstance(v, rnp.ndarray) else None


class Base:
    sym = False

    # spec level helpers usable in both modes -------------------------------
    def sqsum(self, v):
        acc = 0
        for e in _flat(v):
            if core._iscomplex(e):
                acc = acc + (e.real * e.real + e.imag * e.imag)
            else:
                acc = acc + e * e
        return acc

    def dot(self, a, b):
        acc = 0
        for x, y in zip(_flat(a), _flat(b)):
            acc = acc + x * y
        return acc

    def sum(self, v):
        acc = 0
        for e in _flat(v):
            acc = acc + e
        return acc

    def norm(self, v):
        return self.sqrt(self.sqsum(v))

    def l1(self, v):
        acc = 0
        for e in _flat(v):
            acc = acc + abs(e)
        return acc

    def flat(self, v):
        return _flat(v)

    def eq(self, a, b, label, tol=0):
        sa, sb = _shape(a), _shape(b)
        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            if len(fb) == 1:
                fb = fb * len(fa)
            elif len(fa) == 1:
                fa = fa * len(fb)
            else:
                self.claim(False, f"{label}: size {len(fa)} != {len(fb)}")
                return
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = label if len(fa) == 1 else f"{label}[{i}]"
            if core._iscomplex(x) or core._iscomplex(y):
                self._eq1(_re(x), _re(y), lab + ".re", tol)
                self._eq1(_im(x), _im(y), lab + ".im", tol)
            else:
                self._eq1(x, y, lab, tol)

    def snapshot(self, *arrs):
        return [[list(_flat(a)), a] for a in arrs]

    def unchanged(self, snaps, label):
        for j, (old, a) in enumerate(snaps):
            new = _flat(a)
            self.eq(list(new), list(old), f"{label} #{j} modified")

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False


def _re(v):
    return v.real if core._iscomplex(v) else v


def _im(v):
    return v.imag if core._iscomplex(v) else 0


# ------------------------------------------------------------------ symbolic
class SymH(Base):
    sym = True
    np = NP

    def __init__(self, cx):
        self.cx = cx
        self.mod = loader.symbolic_module()
        self.inf = float("inf")

    def sub(self, name):
        """a submodule of pyproximal"""
        return loader.registry().load("pyproximal." + name)

    # --- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, neg=False, nz=False):
        sign = "+" if pos else "0+" if nonneg else "-" if neg else "!0" if nz else None
        v = self.cx.var(name, sign)
        if lo is not None:
            self.cx.assume(core.sge(v, lo))
        if hi is not None:
            self.cx.assume(core.sle(v, hi))
        return v

    def vec(self, name, shape, cplx=False, lo=None, hi=None, pos=False, nonneg=False, nz=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = rnp.empty(shape, dtype=object)
        for i, k in enumerate(rnp.ndindex(*shape)):
            if cplx:
                out[k] = SymComplex(self.real(f"{name}{i}r", lo, hi), self.real(f"{name}{i}i", lo, hi))
            else:
                out[k] = self.real(f"{name}{i}", lo, hi, pos=pos, nonneg=nonneg, nz=nz)
        return SymArray(out, rnp.dtype("complex128") if cplx else rnp.dtype("float64"))

    def const(self, a):
        return NP.array(a, dtype=complex if rnp.iscomplexobj(a) else float)

    def ints(self, a):
        """an integer-typed array"""
        return SymArray(NP.array(a, dtype=float).raw().copy(), rnp.dtype("longlong"))

    def arr(self, elems):
        return NP.array(elems, dtype=complex if any(core._iscomplex(e) for e in _flat(elems)) else float)

    def num(self, x):
        """exact scalar parameter"""
        return lift(Fraction(str(x)) if isinstance(x, float) else x)

    def absvar(self, z, name):
        """an arbitrary upper bound of |z|"""
        v = self.cx.var(name, "0+")
        self.cx.assume(core.sge(v, z))
        self.cx.assume(core.sge(v, core.sneg(z)))
        return v

    def normvar(self, z, name):
        """an arbitrary upper bound of ||z||"""
        v = self.cx.var(name, "0+")
        self.cx.assume(core.sge(smul(v, v), self.sqsum(z)))
        return v

    def unit2(self, name):
        """(c, s) with c*c + s*s == 1"""
        from . import poly as P

        c = self.cx.var(name + "c")
        self.cx.assume(core.sge(c, -1))
        self.cx.assume(core.sle(c, 1))
        key = ("unit", name)
        a = self.cx.table.get(key)
        if a is None:
            a = self.cx.table.new(key, name + "s", "var", None)
            ca = c.n
            a.deps = ca.atoms()
            rule = Poly.const(1) - ca * ca
            raw = Poly({((a.idx, 2),): Fraction(1)}) - rule
            P.set_rule(a, 2, rule)
            a.defs = [f_leaf(raw, S_EQ)]
        return c, SymReal.of_atom(a)

    def sqrt(self, v):
        return core.ssqrt(v)

    def max(self, a, b):
        return core.smax(a, b)

    def min(self, a, b):
        return core.smin(a, b)

    def exp(self, v):
        return core.sfun("exp", v)

    def log(self, v):
        return core.sfun("log", v)

    def lambertw(self, v):
        return core.sfun("lambertw", v)

    def same(self, a, b):
        """a == b as a condition; up to the tolerance on the real code"""
        return a == b

    def assume(self, cond):
        self.cx.assume(cond.f if isinstance(cond, SymBool) else cond)

    def And(self, *a):
        r = True
        for x in a:
            r = core.s_and(r, x)
        return r

    def Or(self, *a):
        r = False
        for x in a:
            r = core.s_or(r, x)
        return r

    def Not(self, a):
        return core.s_not(a)

    def Implies(self, a, b):
        return core.s_or(core.s_not(a), b)

    def linop(self, M, explicit=True, alias=False):
        from .stubs import SymLinOp

        return SymLinOp(M, explicit=explicit, alias=alias)

    def identity_op(self, n):
        from .stubs import Identity

        return Identity(n)

    def restriction(self, n, iava):
        from .stubs import Restriction

        return Restriction(n, iava)

    def pinv(self, M):
        """inverses are uninterpreted functions from here on (same in code and reference)"""
        self.cx.abstract_inv = True
        return NP.linalg.pinv(M)

    def svd(self, X, U, S, Vh):
        self.cx.svds.append((X, U, S, Vh))

    @contextlib.contextmanager
    def randomness(self):
        yield

    def uf(self, name, args, nout=None, sign=None):
        """uninterpreted function with nout outputs (scalar if nout is None)"""
        flat = []
        for a in args:
            a = _scalar_arg(a)
            cp = getattr(getattr(a, "dtype", None), "kind", "f") == "c"
            for e in _flat(a):
                if core._iscomplex(e):
                    flat += [e.real, e.imag]
                else:
                    flat += [e, 0] if cp else [e]
        for e in flat:
            if core._nonfinite(e):
                raise Unsupported("nonfinite argument of an abstract function")
        n = 1 if nout is None else nout
        outs = [self.cx.uf(f"{name}[{i}]", flat, sign) for i in range(n)]
        self.cx.uflog.append((name, flat, outs))
        return outs[0] if nout is None else SymArray(_raw(outs))

    # --- outputs
    def observe(self, name, v):
        self.cx.obs.append((name, _flat(v)))

    def claim(self, cond, label):
        f = cond.f if isinstance(cond, SymBool) else bool(cond)
        self.cx.claims.append((label, f, None, None))

    def _eq1(self, a, b, label, tol=0):
        if core._nonfinite(a) or core._nonfinite(b):
            ok = core._nonfinite(a) and core._nonfinite(b) and a == b
            self.cx.claims.append((label, ok, None, None))
            return
        d = ssub(a, b)
        if tol:
            f = f_and(d.sign_formula(S_EQ) if False else _le(d, tol), _le(core.sneg(d), tol))
        else:
            f = d.sign_formula(S_EQ)
        self.cx.claims.append((label, f, "eq", d))

    def le(self, a, b, label, tol=0):
        if core._nonfinite(a) or core._nonfinite(b):
            self.cx.claims.append((label, core.sle(a, b) is True, None, None))
            return
        d = ssub(a, b)
        self.cx.claims.append((label, _le(d, tol), "le", d))

    def finite(self, v, label):
        for e in _flat(v):
            if core._iscomplex(e):
                bad = core._nonfinite(e.real) or core._nonfinite(e.imag)
            else:
                bad = core._nonfinite(e)
            if bad:
                self.cx.claims.append((label, False, None, None))
                return


def _le(d, tol):
    return ssub(d, tol).sign_formula(S_LE)


# ------------------------------------------------------------------ concrete
class ConH(Base):
    sym = False
    np = rnp

    def __init__(self, values, uftable=None, seed=0):
        self.values = values
        self.table = uftable or {}
        self.mod = loader.real_module()
        self.inf = float("inf")
        self.results = []  # (label, ok, detail)
        self.obs = []
        self.seed = seed
        self.used = {}

    def sub(self, name):
        import importlib

        return importlib.import_module("pyproximal." + name)

    def _val(self, name, pos, nonneg, neg, nz, lo, hi):
        if name in self.values:
            v = float(self.values[name])
        else:
            h = int(hashlib.md5(f"{name}{self.seed}".encode()).hexdigest()[:8], 16) / 0xFFFFFFFF
            a = -2.0 if lo is None else float(lo)
            b = 2.0 if hi is None else float(hi)
            v = a + (b - a) * h
            if pos or nonneg:
                v = abs(v) + 0.05
            if neg:
                v = -abs(v) - 0.05
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, neg=False, nz=False):
        v = self._val(name, pos, nonneg, neg, nz, lo, hi)
        if lo is not None and v < lo - 1e-9 or hi is not None and v > hi + 1e-9:
            raise Skip(name)
        if pos and v <= 0 or nonneg and v < 0:
            raise Skip(name)
        return v

    def vec(self, name, shape, cplx=False, lo=None, hi=None, pos=False, nonneg=False, nz=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = rnp.empty(shape, dtype=complex if cplx else float)
        for i, k in enumerate(rnp.ndindex(*shape)):
            if cplx:
                out[k] = complex(self.real(f"{name}{i}r", lo, hi), self.real(f"{name}{i}i", lo, hi))
            else:
                out[k] = self.real(f"{name}{i}", lo, hi, pos=pos, nonneg=nonneg, nz=nz)
        return out

    def const(self, a):
        return rnp.array(a, dtype=complex if rnp.iscomplexobj(a) else float)

    def ints(self, a):
        return rnp.array(a, dtype="int64")

    def arr(self, elems):
        a = rnp.array(elems)
        return a if a.dtype.kind == "c" else a.astype(float)

    def num(self, x):
        return float(x)

    def absvar(self, z, name):
        return abs(z)

    def normvar(self, z, name):
        return float(rnp.sqrt(self.sqsum(z)))

    def unit2(self, name):
        c = self.values.get(name + "c")
        s = self.values.get(name + "s")
        if c is None:
            th = self._val(name + "t", False, False, False, False, -3, 3)
            return math.cos(th), math.sin(th)
        c = float(c)
        s = float(s) if s is not None else math.sqrt(max(0.0, 1 - c * c))
        r = math.hypot(c, s)
        return c / r, s / r

    def sqrt(self, v):
        return float(rnp.sqrt(v))

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def exp(self, v):
        return math.exp(v)

    def log(self, v):
        return math.log(v)

    def lambertw(self, v):
        import scipy.special

        return float(scipy.special.lambertw(v).real)

    def same(self, a, b):
        return bool(abs(a - b) <= max(1e-9, self.tolerance) * (1 + abs(a) + abs(b)))

    def assume(self, cond):
        if not cond:
            raise Skip("assumption")

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def linop(self, M, explicit=True, alias=False):
        import pylops

        M = rnp.asarray(M)
        if alias:
            return pylops.Identity(M.shape[0], dtype=M.dtype)
        Op = pylops.MatrixMult(M.copy(), dtype=M.dtype)
        if not explicit:
            Op.explicit = False
        return Op

    def identity_op(self, n):
        import pylops

        return pylops.Identity(n)

    def restriction(self, n, iava):
        import pylops

        return pylops.Restriction(n, iava)

    def pinv(self, M):
        return rnp.linalg.pinv(M)

    def svd(self, X, U, S, Vh):
        pass

    @contextlib.contextmanager
    def randomness(self):
        """numpy.random answers with the values chosen by the solver (same names as the stand-in)"""
        count = {}

        def nm(base):
            k = count.get(base, 0)
            count[base] = k + 1
            return f"{base}!{k}"

        def randint(low, high=None, size=None, dtype=None):
            if high is None:
                low, high = 0, low
            v = self._val(nm("randint"), False, False, False, False, low, high - 1)
            return int(min(max(low, math.ceil(v - 1e-9)), high - 1))

        def normal(loc=0.0, scale=1.0, size=None):
            base = nm("normal")
            out = rnp.empty(() if size is None else size)
            for i, k in enumerate(rnp.ndindex(out.shape)):
                out[k] = self._val(f"{base}_{i}", False, False, False, False, None, None)
            return out

        old = rnp.random.randint, rnp.random.normal
        rnp.random.randint, rnp.random.normal = randint, normal
        try:
            yield
        finally:
            rnp.random.randint, rnp.random.normal = old

    def uf(self, name, args, nout=None, sign=None):
        flat = []
        for a in args:
            a = _scalar_arg(a)
            for e in _flat(a):
                if isinstance(e, (complex, rnp.complexfloating)):
                    flat += [float(e.real), float(e.imag)]
                else:
                    flat.append(float(e))
        n = 1 if nout is None else nout
        for av, ov in self.table.get(name, ()):
            if len(av) == len(flat) and all(
                abs(p - q) <= 1e-7 * (1 + abs(p)) for p, q in zip(av, flat)
            ):
                out = list(ov)
                break
        else:
            rng = random.Random(hashlib.md5(f"{name}{self.seed}".encode()).hexdigest())
            out = []
            for _ in range(n):
                w = [rng.uniform(-1, 1) for _ in flat]
                u = [rng.uniform(-1, 1) for _ in flat]
                s = sum(p * q for p, q in zip(w, flat))
                t = sum(p * q for p, q in zip(u, flat))
                out.append(rng.uniform(-1, 1) + 0.6 * s + 0.4 * math.sin(t) )
            if sign in ("+", "0+"):
                out = [abs(o) + 0.01 for o in out]
        if nout is None:
            return float(out[0])
        return rnp.array(out, dtype=float)

    def observe(self, name, v):
        self.obs.append((name, _flat(v)))

    def claim(self, cond, label):
        self.results.append((label, bool(cond), repr(cond)))

    def _eq1(self, a, b, label, tol=0):
        a, b = float(a), float(b)
        if math.isinf(a) or math.isinf(b):
            ok = a == b
        elif math.isnan(a) or math.isnan(b):
            ok = False
        else:
            ok = abs(a - b) <= max(float(tol) * 1.01, self.tolerance * (1 + abs(a) + abs(b)))
        self.results.append((label, ok, f"{a!r} vs {b!r}"))

    def le(self, a, b, label, tol=0):
        a, b = float(a), float(b)
        ok = a <= b + max(float(tol) * 1.01, self.tolerance * (1 + abs(a) + abs(b)))
        if math.isnan(a) or math.isnan(b):
            ok = False
        self.results.append((label, ok, f"{a!r} <= {b!r}"))

    def finite(self, v, label):
        ok = bool(rnp.all(rnp.isfinite(rnp.asarray(_flat(v)))))
        self.results.append((label, ok, "finite"))

    tolerance = TOL


# ------------------------------------------------------------------ registry
class Obligation:
    def __init__(self, prop, name, fn, tier="quick", weight=1.0, tol=TOL, bounds="", env=None,
                 max_paths=4000, max_time=60.0, claim_ms=8000, feas_ms=400, validate=True, lazy_abs=False):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.tier = tier
        self.tol = tol
        self.bounds = bounds
        self.env = env or {}
        self.max_paths = max_paths
        self.max_time = max_time
        self.claim_ms = claim_ms
        self.feas_ms = feas_ms
        self.validate = validate
        self.lazy_abs = lazy_abs


OBLIGATIONS = []


def ob(prop, name, **kw):
    def deco(fn):
        OBLIGATIONS.append(Obligation(prop, name, fn, **kw))
        return fn

    return deco


# ------------------------------------------------------------------ running
def _eval_sym(v, env):
    """SymReal -> float under env (atom idx -> number)"""
    if isinstance(v, SymReal):
        n = v.n.evalf(env)
        d = 1.0
        for f, e in v.d:
            d *= f.evalf(env) ** e
        return n / d
    if isinstance(v, SymComplex):
        return complex(_eval_sym(v.re, env), _eval_sym(v.im, env))
    if isinstance(v, SymBool):
        return None
    if isinstance(v, (bool, rnp.bool_)):
        return float(v)
    if isinstance(v, Fraction):
        return float(v)
    return v


def _sgn(v, eps=1e-9):
    if abs(v) <= eps:
        return S_EQ
    return S_GT if v > 0 else S_LT


def _fsat(f, env):
    if isinstance(f, bool):
        return f
    if f[0] == "s":
        return bool(_sgn(f[1].evalf(env)) & f[2])
    if f[0] == "and":
        return all(_fsat(g, env) for g in f[1])
    if f[0] == "or":
        return any(_fsat(g, env) for g in f[1])
    return False


class Runner:
    def __init__(self, o, seed=1, tier="quick"):
        self.o = o
        self.seed = seed
        self.tier = tier
        mt = o.max_time if tier == "quick" else o.max_time * 4
        self.cx = Context(max_paths=o.max_paths if tier == "quick" else o.max_paths * 5,
                          max_time=mt, feas_ms=o.feas_ms,
                          claim_ms=o.claim_ms if tier == "quick" else o.claim_ms * 4)
        self.cx.lazy_abs = o.lazy_abs
        self.functions = set()
        self.res = dict(prop=o.prop, name=o.name, bounds=o.bounds, paths=0, transitions=0,
                        obligations=0, discharged=0, trivially=0, queries=0, solver_s=0.0, validated=0,
                        mismatched=0, inconclusive=[], violations=[], samples=[], tolerated=0,
                        functions=[])

    def _profiled(self, fn):
        files = loader.REPO + "/pyproximal"
        seen = self.functions

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(files):
                    seen.add(f"{os.path.relpath(co.co_filename, loader.REPO)}:{co.co_qualname}")

        sys.setprofile(prof)
        try:
            return fn()
        finally:
            sys.setprofile(None)

    def run(self):
        """explore under a soft alarm so that partial results survive a stuck step"""
        import signal

        def onalarm(*a):
            raise Budget("obligation time limit")

        lim = (self.o.max_time if self.tier == "quick" else self.o.max_time * 4) * 1.6 + 10
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, lim)
        t0 = time.time()
        try:
            return self._run(t0)
        except Budget as e:
            self.res["inconclusive"].append(("<run>", f"{e}"))
            self.res["stack"] = traceback.format_exc()[-700:]
            self._hang()
            return self._finish(t0)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def _run(self, t0):
        cx = self.cx
        o = self.o
        work = [[]]
        n = 0
        # breadth over shallow prefixes first keeps partial runs informative
        probes = self.searches = 0
        while work:
            prefix = work.pop()
            cx.start(prefix)
            n += 1
            if n > cx.max_paths or time.time() > cx.deadline:
                self.res["inconclusive"].append(("<paths>", "path or time budget exhausted"))
                break
            h = SymH(cx)
            status, err = "leaf", None
            try:
                if n <= 6:
                    self._profiled(lambda: o.fn(h))
                else:
                    o.fn(h)
            except PathAbort:
                status = "cut"
            except Budget as e:
                status, err = "budget", e
            except Unsupported as e:
                status, err = "unsupported", e
            except RecursionError as e:
                status, err = "unsupported", e
            except Exception as e:
                status, err = "exception", e
                tb = traceback.format_exc()
            work.extend(cx.pending)
            if status == "cut":
                continue
            self.res["paths"] += 1
            if status in ("budget", "unsupported"):
                self.res["inconclusive"].append(("<path>", f"{status}: {err}"))
                if status == "unsupported" and o.validate and probes < 4 and not self.res["violations"]:
                    probes += 1
                    self._probe()
                if "obligation time limit" in str(err):
                    self._hang()
                if status == "budget" and time.time() > cx.deadline:
                    break
                if len(self.res["inconclusive"]) > 30:
                    break
                continue
            if status == "exception":
                self._exception(err, tb)
            else:
                self._leaf(h)
            if len(self.res["violations"]) >= 3:
                break
        return self._finish(t0)

    def _finish(self, t0):
        r = self.res
        if not r["violations"] and (os.environ.get("SYMX_SEARCH") or any("budget" in str(i[1]) for i in r["inconclusive"])):
            self.searches = min(self.searches, 2)
            try:
                self._search("<undecided>")
            except Exception:
                pass
        if not r["paths"] and not r["inconclusive"]:
            r["inconclusive"].append(("<paths>", "no feasible path: the obligation is vacuous"))
        s = self.cx.stats
        r["transitions"] = s.transitions
        r["queries"] = s.queries
        r["solver_s"] = round(s.solver_s, 3)
        r["unknown"] = s.unknown
        r["cvc5"] = s.cvc5
        r["functions"] = sorted(self.functions)
        r["wall"] = round(time.time() - t0, 2)
        return r

    # --- models
    def _facts(self):
        return [("s", p, s) for p, s in self.cx.facts.items()] + list(self.cx.extra)

    def _pathmodel(self, extra=(), interior=False, ms=1500, box=6):
        """model of the whole path (+ extra formulas); None if not found"""
        cx = self.cx
        groups = self._groups(self._facts() + list(extra))
        if any(f is False for fs, _ in groups for f in fs):
            return "unsat"
        model = {}
        for fs, atoms in groups:
            tries = []
            boxf = []
            for v in sorted(atoms):
                a = cx.table.atoms[v]
                if a.kind == "var" and box:
                    ap = Poly.atom(a)
                    boxf.append(f_leaf(ap - Poly.const(box), S_LE))
                    boxf.append(f_leaf(ap + Poly.const(box), S_GE))
            if interior:
                ifs = []
                for f in fs + [("s", Poly.atom(cx.table.atoms[v]), core._SIGNTXT[cx.table.atoms[v].sign])
                               for v in atoms if cx.table.atoms[v].sign]:
                    if f[0] == "s" and f[2] in (S_GT, S_GE):
                        ifs.append(f_leaf(f[1] - Poly.const(Fraction(1, 32)), S_GE))
                    elif f[0] == "s" and f[2] in (S_LT, S_LE):
                        ifs.append(f_leaf(f[1] + Poly.const(Fraction(1, 32)), S_LE))
                    else:
                        ifs.append(f)
                tries.append(ifs + boxf)
                if interior == "only":
                    pass
            if interior != "only":
                tries.append(fs + boxf)
                tries.append(fs)
            ok = False
            for t in tries:
                r, m = cx.solve(t, atoms, ms, want_model=True)
                if r == "sat" and m is not None:
                    model.update(m)
                    ok = True
                    break
                if r == "unsat" and t is fs:
                    return "unsat"
            if not ok:
                return "unsat" if r == "unsat" and interior != "only" else None
        return model

    def _groups(self, fs):
        cx = self.cx
        groups = []
        for f in fs:
            if isinstance(f, bool):
                if f:
                    continue
                return [([False], set())]
            at = set()
            for p in core.f_polys(f):
                at |= p.atoms()
            at = cx.closure_atoms(at)
            merged = [f], set(at)
            rest = []
            for gf, ga in groups:
                if ga & merged[1]:
                    merged = merged[0] + gf, merged[1] | ga
                else:
                    rest.append((gf, ga))
            rest.append(merged)
            groups = rest
        return groups

    def _concrete(self, model, seed=0):
        """(values, uf table, env) for a concrete run"""
        cx = self.cx
        values = {}
        for v, val in model.items():
            a = cx.table.atoms[v]
            if a.kind == "var":
                values[a.name] = float(val)
        env = {v: float(x) for v, x in model.items()}
        con = ConH(values, seed=seed)
        # default values of the remaining variables, in atom order
        for a in cx.table.atoms:
            if a.idx in env:
                continue
            if a.kind == "var":
                if a.key[0] == "unit":
                    c = env.get(a.idx - 1)
                    env[a.idx] = math.sqrt(max(0.0, 1 - c * c)) if c is not None else 0.0
                    values[a.name] = env[a.idx]
                    continue
                pos = a.sign in ("+", "0+")
                env[a.idx] = con._val(a.name, pos, False, a.sign == "-", False, None, None)
                values[a.name] = env[a.idx]
            else:
                try:
                    env[a.idx] = self._eval_atom(a, env)
                except Exception:
                    env[a.idx] = 0.37 + 0.11 * (a.idx % 7)
        table = {}
        for name, args, outs in cx.uflog:
            try:
                av = [float(_eval_sym(x, env)) for x in args]
                ov = [float(_eval_sym(x, env)) for x in outs]
            except Exception:
                continue
            table.setdefault(name, []).append((av, ov))
        return values, table, env

    def _true_point(self, values, env):
        """inputs near the model whose true transcendental values follow this path"""
        rng = random.Random(self.seed)
        facts = [(p, s) for p, s in self.cx.facts.items()]
        extra = list(self.cx.extra)
        for k in range(40):
            e = {}
            vals = dict(values)
            try:
                for a in self.cx.table.atoms:
                    if a.kind == "var":
                        v = env[a.idx]
                        if k and a.key[0] != "unit":
                            w = abs(v) * 2 ** rng.uniform(-2, 2) * (1 if v >= 0 else -1)
                            v = w if rng.random() < 0.6 else v
                        e[a.idx] = v
                        vals[a.name] = v
                    else:
                        try:
                            e[a.idx] = self._eval_atom(a, e)
                        except KeyError:
                            e[a.idx] = env[a.idx]
                ok = all(_sgn(p.evalf(e)) & s for p, s in facts) and all(_fsat(f, e) for f in extra)
            except (ValueError, OverflowError, ZeroDivisionError):
                continue
            if ok:
                return vals, e
        return None

    def _alg_conflict(self, m, env):
        """the solver's value of an exp/log/... atom is not the true one"""
        for v in m:
            a = self.cx.table.atoms[v]
            if a.kind == "alg" and isinstance(a.data, tuple) and a.data[0] != "const":
                try:
                    t = self._eval_atom(a, env)
                except Exception:
                    return True
                if abs(t - env[v]) > 1e-7 * (1 + abs(t)):
                    return True
        return False

    def _eval_atom(self, a, env):
        if a.kind == "sqrt" and a.key[0] in ("sqrt", "csqrt"):
            return math.sqrt(max(0.0, a.data.evalf(env)))
        if a.key[0] == "cbrt":
            return max(0.0, a.data.evalf(env)) ** (1 / 3)
        if a.kind == "alg":
            k = a.data[0]
            if k == "const":
                return a.data[1]
            if k == "exp":
                return math.exp(a.data[1].evalf(env))
            if k == "log":
                return math.log(_eval_sym(a.data[1], env))
            if k == "cos3":
                return math.cos(math.acos(_eval_sym(a.data[1], env)) / 3)
            if k == "lambertw":
                import scipy.special

                return float(scipy.special.lambertw(_eval_sym(a.data[1], env)).real)
        raise KeyError

    def replay(self, values, table, seed=0, slack=1):
        h = ConH(values, table, seed)
        h.tolerance = self.o.tol * slack
        exc = None
        try:
            with rnp.errstate(all="ignore"):
                import warnings

                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.o.fn(h)
        except Skip as e:
            return h, "skip", None
        except Exception as e:
            return h, "exception", e
        return h, "ok", None

    def _uf_conflicts(self, env):
        """congruence constraints violated by the model"""
        cx = self.cx
        out = []
        by = {}
        for name, args, outs in cx.uflog:
            try:
                av = [_eval_sym(x, env) for x in args]
                ov = [_eval_sym(x, env) for x in outs]
            except Exception:
                continue
            for av2, ov2, args2, outs2 in by.get(name, ()):
                if len(av) == len(av2) and all(abs(p - q) < 1e-7 * (1 + abs(p)) for p, q in zip(av, av2)):
                    if any(abs(p - q) > 1e-7 * (1 + abs(p)) for p, q in zip(ov, ov2)):
                        diff = f_or(*[ssub(x, y).sign_formula(S_NE) for x, y in zip(args, args2)])
                        same = f_and(*[ssub(x, y).sign_formula(S_EQ) for x, y in zip(outs, outs2)])
                        out.append(f_or(diff, same))
            by.setdefault(name, []).append((av, ov, args, outs))
        return out

    # --- leaves
    def _exception(self, err, tb):
        m = self._pathmodel(interior=True)
        if m == "unsat":
            return
        label = f"unexpected {type(err).__name__}"
        self.res["obligations"] += 1
        if m is None:
            self.res["inconclusive"].append((label, f"no model; {err}"))
            return
        values, table, env = self._concrete(m)
        h, st, exc = self.replay(values, table)
        if st == "exception" and (type(exc).__name__ == type(err).__name__ or self._fromrepo(exc)):
            self._violation(label, f"{type(exc).__name__}: {exc}", values, table)
        elif st == "ok" and any(not ok for _, ok, _ in h.results):
            lab, ok, det = next(r for r in h.results if not r[1])
            self._violation(lab, det, values, table)
        elif not self._search(label, type(err).__name__):
            self.res["inconclusive"].append(
                (label, f"not reproduced ({st}): {err}: " + tb.strip().splitlines()[-3][:200]))

    @staticmethod
    def _fromrepo(exc):
        """raised below a library frame, not by the harness"""
        fr = [f.filename for f in traceback.extract_tb(exc.__traceback__)]
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        return any(f.startswith(loader.REPO + "/") for f in fr) and not fr[-1].startswith(here + "/")

    def _violation(self, label, detail, values, table, seed=0):
        self.res["violations"].append(
            dict(label=label, detail=str(detail)[:400], values=values, table=table, seed=seed))

    def _leaf(self, h):
        cx = self.cx
        r = self.res
        bad = False
        for label, f, kind, d in list(cx.claims):
            r["obligations"] += 1
            if f is True:
                r["discharged"] += 1
                r["trivially"] += 1
                continue
            ok = self._claim(label, f, kind, d)
            if ok is False:
                bad = True
                if len(r["violations"]) >= 3:
                    return
        # translation validation on a solver-chosen point of this path
        lim = 10 if self.tier == "quick" else 60
        if self.o.validate and not bad and r["validated"] + r["mismatched"] < lim \
                and time.time() < cx.deadline:
            self._validate()

    def _claim(self, label, f, kind, d):
        cx = self.cx
        r = self.res
        neg = f_not(f)
        extra = []
        for rnd in range(5):
            cs, atoms = cx.slice(core.f_polys(neg) + [p for g in extra for p in core.f_polys(g)])
            res = None
            small, sat_ = cx.slice0(core.f_polys(neg) + [p for g in extra for p in core.f_polys(g)])
            if len(small) < len(cs):
                res, m = cx.solve(small + [neg] + extra, sat_, cx.claim_ms // 4)
            if res != "unsat":
                res, m = cx.solve(cs + [neg] + extra, atoms, cx.claim_ms, want_model=False)
            if res == "unsat":
                r["discharged"] += 1
                return True
            if res == "unknown":
                if kind is not None:
                    fm = self._margin(kind, d, Fraction(1, 1000))
                    bx = self._box(atoms, 50)
                    res2, _ = cx.solve(cs + [fm] + extra + bx, atoms, cx.claim_ms)
                    if res2 == "unsat":
                        r["discharged"] += 1
                        r["tolerated"] += 1
                        return True
                # try to settle it with a concrete witness anyway
                w = self._try_witness(label, neg, kind, d, extra)
                if w is True:
                    return False
                if w == "infeasible":
                    r["discharged"] += 1
                    return True
                if isinstance(w, list):
                    extra += w
                    continue
                if self._search(label):
                    return False
                r["inconclusive"].append((label, "solver unknown"))
                return None
            # sat: find a replayable model
            w = self._try_witness(label, neg, kind, d, extra)
            if w is True:
                return False
            if isinstance(w, list):  # congruence refinement
                extra += w
                continue
            if w in ("unsat", "infeasible"):
                r["discharged"] += 1
                r["tolerated"] += w == "unsat"
                return True
            if self._search(label):
                return False
            r["inconclusive"].append((label, "counterexample not reproduced on the real code"))
            return None
        r["inconclusive"].append((label, "congruence refinement did not converge"))
        return None

    def _box(self, atoms, b):
        out = []
        for v in atoms:
            a = self.cx.table.atoms[v]
            if a.kind == "var":
                ap = Poly.atom(a)
                out.append(f_leaf(ap - Poly.const(b), S_LE))
                out.append(f_leaf(ap + Poly.const(b), S_GE))
        return out

    def _margin(self, kind, d, m):
        if kind == "eq":
            return f_or(ssub(d, m).sign_formula(S_GT), sadd(d, m).sign_formula(S_LT))
        return ssub(d, m).sign_formula(S_GT)

    def _try_witness(self, label, neg, kind, d, extra):
        """True: reproduced; list: congruence constraints; 'unsat': within tolerance; None"""
        tries = []
        if kind is not None:
            tries.append((self._margin(kind, d, Fraction(1, 10)), 4, True))
            tries.append((self._margin(kind, d, Fraction(1, 100)), 20, False))
            tries.append((self._margin(kind, d, max(Fraction(1, 1000), Fraction(self.o.tol).limit_denominator(10**9) * 50)), None, False))
        else:
            tries.append((neg, 4, True))
        tries.append((neg, 6, False))
        allunsat = kind is not None
        for i, (f, box, interior) in enumerate(tries):
            m = self._pathmodel([f] + list(extra), interior="only" if interior else False, box=box,
                                ms=self.cx.claim_ms // 2)
            if m is None:
                if not interior:
                    allunsat = False
                continue
            if m == "unsat":
                if i == len(tries) - 1:
                    return "infeasible"  # the whole path with the negated claim is unsat
                if kind is not None and i == 2 and allunsat:
                    return "unsat"
                continue
            if not interior:
                allunsat = False
            for seed in (0, 1):
                values, table, env = self._concrete(m, seed)
                conf = self._uf_conflicts(env)
                if conf:
                    return conf
                h, st, exc = self.replay(values, table, seed)
                if st == "ok":
                    fails = [x for x in h.results if not x[1]]
                    if fails:
                        lab = next((x for x in fails if x[0] == label), fails[0])
                        self._violation(lab[0], lab[2], values, table, seed)
                        return True
                elif st == "exception":
                    self._violation(f"unexpected {type(exc).__name__}", exc, values, table, seed)
                    return True
        return None

    def _hang(self, cpu=20):
        """the encoding of this path never came to an end: run the real code at the solver's model
        of the path condition in a child process; not returning within `cpu` seconds of processor
        time (replays take milliseconds) is a violation"""
        if not self.o.validate or self.res["violations"]:
            return
        try:
            m = self._pathmodel(ms=3000)
            if not isinstance(m, dict):
                return
            values, table, env = self._concrete(m)
        except Exception:
            return
        if self.returns(values, table, 0, cpu) is False:
            self._violation("the call returns", f"no result after {cpu} s of processor time", values, table)

    def returns(self, values, table, seed, cpu=20):
        """False if the replay does not end within cpu seconds of processor time, None if unknown"""
        import resource
        import signal

        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGXCPU, signal.SIG_DFL)
                t = resource.getrusage(resource.RUSAGE_SELF)
                c = int(t.ru_utime + t.ru_stime) + 1 + cpu
                resource.setrlimit(resource.RLIMIT_CPU, (c, c + 2))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                self.replay(values, table, seed)
                code = 0
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        t0 = time.time()
        while time.time() - t0 < 8 * cpu:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
                    return False if os.WTERMSIG(st) == signal.SIGXCPU else None
                return True
            time.sleep(0.05)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return None

    def _search(self, label, exception=None):
        """the solver refuses the claim but its own point does not reproduce (abstract values of
        transcendental or algebraic atoms): look for a point nearby; only a clear failure counts"""
        if not (self.o.validate or exception) or self.searches >= 3:
            return False
        self.searches += 1
        base = {}
        m = None if label == "<undecided>" and time.time() > self.cx.deadline + 20 else self._pathmodel(interior=False, ms=1000)
        if isinstance(m, dict):
            base, _, _ = self._concrete(m)
        rng, t0 = random.Random(label), time.time()
        for k in range(300):
            if time.time() - t0 > 5:
                break
            keep = rng.choice((0, 0, 0.3, 0.7, 0.9))
            vals = {n: v for n, v in base.items() if rng.random() < keep}
            h, st, exc = self.replay(vals, {}, k + 2, slack=20)
            if exception:
                if st == "exception" and type(exc).__name__ == exception:
                    self._violation(label, exc, dict(h.used), {}, k + 2)
                    return True
            elif st == "ok" and any(not x[1] for x in h.results):
                f = next(x for x in h.results if not x[1])
                self._violation(f[0], f[2], dict(h.used), {}, k + 2)
                return True
        return False

    def _probe(self):
        """a path the encoding cannot follow to its end: run the real code at the
        solver's model of the path condition so far; only a clear failure counts"""
        try:
            m = self._pathmodel(interior="only", ms=1500)
            if not isinstance(m, dict):
                return
            values, table, env = self._concrete(m)
            if self._uf_conflicts(env):
                return
            if self._alg_conflict(m, env):
                fixed = self._true_point(values, env)
                if fixed is None:
                    return
                values, env = fixed
        except Exception:
            return
        h, st, exc = self.replay(values, table, slack=20)
        if st == "exception":
            self._violation(f"unexpected {type(exc).__name__}", exc, values, table)
        elif st == "ok":
            fails = [x for x in h.results if not x[1]]
            if fails:
                self._violation(fails[0][0], fails[0][2], values, table)

    def _validate(self):
        cx = self.cx
        m = self._pathmodel(interior=True, ms=800)
        if m is None or m == "unsat":
            return
        mi = self._pathmodel(interior="only", ms=800)
        interior = isinstance(mi, dict)
        if interior:
            m = mi
        values, table, env = self._concrete(m)
        if self._uf_conflicts(env):
            return
        if self._alg_conflict(m, env):
            fixed = self._true_point(values, env)
            if fixed is None:
                return
            values, env = fixed
            interior = True
        h, st, exc = self.replay(values, table)
        r = self.res
        if st == "skip":
            return
        if st == "exception":
            if interior:
                self._violation(f"unexpected {type(exc).__name__}", exc, values, table)
            else:
                r["mismatched"] += 1
            return
        fails = [x for x in h.results if not x[1]]
        same = True
        worst = None
        so = cx.obs
        if len(so) != len(h.obs):
            same = False
            worst = "different number of observations"
        else:
            for (n1, a), (n2, b) in zip(so, h.obs):
                if n1 != n2 or len(a) != len(b):
                    same = False
                    worst = f"{n1}/{n2}"
                    break
                for p, q in zip(a, b):
                    try:
                        pv = _eval_sym(p, env)
                        if pv is None:
                            continue
                        if isinstance(pv, float) and math.isnan(pv) and q != q:
                            continue
                        if abs(pv - q) > max(1e-5, 10 * self.o.tol) * (1 + abs(pv) + abs(q)) and pv != q:
                            same = False
                            worst = f"{n1}: symbolic {pv} real {q}"
                    except (ZeroDivisionError, OverflowError, KeyError):
                        pass
        if same:
            r["validated"] += 1
            if fails and interior:
                # the real code breaks the claim at a point the encoding accepts
                # although both computed the same outputs: rounding, not decided here
                r["inconclusive"].append((fails[0][0], f"real run fails a discharged claim: {fails[0][2]}"))
            elif len(r["samples"]) < 2:
                r["samples"].append({k: round(v, 6) for k, v in list(h.used.items())[:12]})
        elif interior and not fails:
            r["mismatched"] += 1
            r["inconclusive"].append(("<encoding>", f"real run differs from the encoding: {worst}"))
        elif interior and fails:
            # no solver counterexample behind it: only a clear failure counts
            h, st, exc = self.replay(values, table, slack=20)
            fails = [x for x in h.results if not x[1]]
            if st == "ok" and fails:
                self._violation(fails[0][0], fails[0][2], values, table)
            else:
                r["mismatched"] += 1
                r["inconclusive"].append(("<encoding>", f"real run differs from the encoding: {worst}"))
        else:
            r["mismatched"] += 1


def run_obligation(o, seed=1, tier="quick"):
    from . import core as c

    return Runner(o, seed, tier).run()
