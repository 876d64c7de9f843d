"""Executes /repo's current pyproximal source against the symbolic stand-ins."""

import builtins
import importlib
import ast
import os
import sys
import types
from fractions import Fraction

import numpy as rnp

from . import core
from .core import SymReal, is_sym

REPO = os.environ.get("VERIF_REPO", "/repo")


class _FloatMeta(type):
    _is_float_shim = True

    def __instancecheck__(cls, o):
        return isinstance(o, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        from .arr import SymArray

        if isinstance(x, SymReal):
            return x
        if isinstance(x, core.SymBool):
            return core.lift(x)
        if isinstance(x, core.SymComplex):
            return x.real  # numpy scalars: ComplexWarning, imaginary part discarded
        if isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return cls(x.raw().ravel()[0])
        if isinstance(x, Fraction):
            return core.lift(x)
        return float(x)

    def __hash__(cls):
        return hash(float)

    def __eq__(cls, o):
        return o is cls or o is float


class FloatShim(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    _is_int_shim = True

    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        from .arr import SymArray

        if isinstance(x, SymArray) and x.size == 1:
            x = x.raw().ravel()[0]
        return int(x, *a)

    def __hash__(cls):
        return hash(int)

    def __eq__(cls, o):
        return o is cls or o is int


class IntShim(metaclass=_IntMeta):
    pass


def _round(x, n=None):
    if is_sym(x):
        raise core.Unsupported("round")
    return builtins.round(x) if n is None else builtins.round(x, n)


def _max(*a, **k):
    vs = a
    if len(a) == 1 and not k:
        vs = list(a[0])
        a = (vs,)
    if not k and len(vs) > 1 and any(core._lazy(v) for v in vs):
        m = vs[0]
        for v in vs[1:]:
            m = core.smax(m, v)
        return m
    return builtins.max(*a, **k)


BUILTINS = dict(builtins.__dict__)
BUILTINS["max"] = _max
BUILTINS["float"] = FloatShim
BUILTINS["round"] = _round
# int stays the builtin (concrete loop counts, isinstance checks); int(sym)
# works through SymReal.__int__ / SymBool.__int__


def _symmod(a, b):
    """a % b; symbolic numbers are printed as some machine number"""
    if isinstance(a, str):
        cx = core.Context.cur
        old, cx.allow_float = cx.allow_float, True
        try:
            return a % b  # numpy complex scalars print their real part
        finally:
            cx.allow_float = old
    return a % b


class _Mod(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(
                ast.Call(ast.Name("__symmod__", ast.Load()), [n.left, n.right], []), n)
        return n


class Registry:
    def __init__(self):
        BUILTINS["__symmod__"] = _symmod
        self.mods = {}
        self.stubs = {}
        from . import stubs

        self.b = dict(BUILTINS)
        self.b["__import__"] = self._import
        BUILTINS["__import__"] = self._import
        self.stubs = stubs.build()

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
        rel = os.path.join(REPO, *name.split("."))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, "__init__.py")):
            path, pkg = os.path.join(rel, "__init__.py"), True
        elif os.path.exists(rel + ".py"):
            path, pkg = rel + ".py", False
        else:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [rel]
        m.__dict__["__builtins__"] = self.b
        self.mods[name] = m
        with open(path) as f:
            src = f.read()
        try:
            tree = ast.fix_missing_locations(_Mod().visit(ast.parse(src, path)))
            exec(compile(tree, path, "exec"), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            base = pkg.split(".")
            if level > 1:
                base = base[: -(level - 1)]
            name = ".".join(base + ([name] if name else []))
        root = name.split(".")[0]
        if root == "pyproximal":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(f"{name}.{f}")
                        except ModuleNotFoundError:
                            pass
                    if f == "*" and hasattr(m, "__path__"):
                        pass
                return m
            return self.load(root)
        if name in self.stubs:
            m = self.stubs[name]
            if fromlist:
                for f in fromlist:
                    if f"{name}.{f}" in self.stubs:
                        try:
                            setattr(m, f, self.stubs[f"{name}.{f}"])
                        except Exception:
                            pass
                return m
            return self.stubs.get(root, m)
        if fromlist:
            m = importlib.import_module(name)
            for f in fromlist:
                if f"{name}.{f}" in self.stubs:
                    return _Proxy(m, {g: self.stubs[f"{name}.{g}"] for g in fromlist
                                      if f"{name}.{g}" in self.stubs})
            return m
        importlib.import_module(name)
        if root in self.stubs:
            return self.stubs[root]
        return sys.modules[root]


class _Proxy(types.ModuleType):
    def __init__(self, m, over):
        super().__init__(m.__name__)
        self._m = m
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._m, n)


_REG = None


def registry():
    global _REG
    if _REG is None:
        _REG = Registry()
        _REG.load("pyproximal")
    return _REG


def symbolic_module():
    return registry().mods["pyproximal"]


def real_module():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pyproximal

    _run_kernels_in_python(pyproximal)
    return pyproximal


def _run_kernels_in_python(pkg):
    """there is no GPU: execute the source of the CUDA kernels as plain Python"""
    S = sys.modules.get("pyproximal.proximal.Simplex")
    path = os.path.join(REPO, "pyproximal", "proximal", "_Simplex_cuda.py")
    if S is None or getattr(S, "_kernels_in_python", False) or not os.path.exists(path):
        return
    from . import stubs

    m = types.ModuleType("_kernels")
    b = dict(builtins.__dict__)

    def imp(name, g=None, loc=None, fromlist=(), level=0):
        if name == "numba":
            n = types.ModuleType("numba")
            n.cuda = stubs.CUDA
            return n
        return builtins.__import__(name, g, loc, fromlist, level)

    b["__import__"] = imp
    m.__dict__["__builtins__"] = b
    with open(path) as f:
        src = f.read()
    exec(compile(src, path, "exec"), m.__dict__)
    for k, v in m.__dict__.items():
        if isinstance(v, stubs._Kernel) and hasattr(S, k):
            setattr(S, k, v)
    S._kernels_in_python = True


def source_files():
    """(relative path, sha1) of the sources executed symbolically"""
    import hashlib

    out = []
    for name, m in sorted(registry().mods.items()):
        p = m.__file__
        with open(p, "rb") as f:
            out.append((os.path.relpath(p, REPO), hashlib.sha1(f.read()).hexdigest()))
    return out
