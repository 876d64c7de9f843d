"""Symbolic scalars, path exploration and the solver back end."""

import math
import os
import pickle
import select
import signal
import sys
import time
from fractions import Fraction

_PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _PYVENV not in sys.path:
    sys.path.append(_PYVENV)

import numpy as rnp  # the real numpy
import z3

from . import poly as P
from .poly import Poly


class Unsupported(Exception):
    """the engine has no encoding for something the code did"""


class PathAbort(BaseException):
    """the current path is infeasible or was cut by an assumption"""


class Budget(BaseException):
    """path/time budget of the obligation exhausted"""


NEG, ZER, POS = "-", "0", "+"
ALL = frozenset("-0+")
S_LT, S_EQ, S_GT = frozenset("-"), frozenset("0"), frozenset("+")
S_LE, S_GE, S_NE = frozenset("-0"), frozenset("0+"), frozenset("-+")
_FLIP = {"-": "+", "0": "0", "+": "-"}


def flip(s):
    return frozenset(_FLIP[c] for c in s)


_SIGNTXT = {"+": S_GT, "0+": S_GE, "-": S_LT, "0-": S_LE, "!0": S_NE, None: ALL}


def _mul_signs(a, b):
    out = set()
    for x in a:
        for y in b:
            if x == "0" or y == "0":
                out.add("0")
            else:
                out.add("+" if x == y else "-")
    return frozenset(out)


_ADD = {
    ("-", "-"): "-", ("0", "0"): "0", ("+", "+"): "+",
    ("0", "-"): "-", ("-", "0"): "-", ("0", "+"): "+", ("+", "0"): "+",
    ("-", "+"): "-0+", ("+", "-"): "-0+",
}


def _add_signs(a, b):
    out = set()
    for x in a:
        for y in b:
            out.update(_ADD[(x, y)])
    return frozenset(out)


# ---------------------------------------------------------------- formulas
def f_leaf(p, signs):
    """p (Poly) has its sign in `signs`"""
    if p.is_const():
        c = p.const_value()
        s = "0" if c == 0 else ("+" if c > 0 else "-")
        return s in signs
    if not signs:
        return False
    if signs == ALL:
        return True
    u, q = p.monic()
    if u < 0:
        signs = flip(signs)
    return ("s", q, signs)


def f_not(f):
    if isinstance(f, bool):
        return not f
    if f[0] == "s":
        return ("s", f[1], ALL - f[2])
    if f[0] == "and":
        return f_or(*[f_not(g) for g in f[1]])
    return f_and(*[f_not(g) for g in f[1]])


def f_and(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "and":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    out = _merge(out, frozenset.__and__)
    if out is None:
        return False
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "or":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    out = _merge(out, frozenset.__or__)
    if out is None:
        return True
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def _merge(out, op):
    """one leaf per polynomial; None when a leaf is absorbing"""
    if len(out) < 2:
        return out
    seen, res = {}, []
    for f in out:
        if f[0] != "s":
            res.append(f)
            continue
        k = f[1].key()
        if k in seen:
            i = seen[k]
            sg = op(res[i][2], f[2])
            if not sg or sg == ALL:
                return None
            res[i] = ("s", f[1], sg)
        else:
            seen[k] = len(res)
            res.append(f)
    return res


def f_polys(f, acc=None):
    if acc is None:
        acc = []
    if isinstance(f, bool):
        return acc
    if f[0] == "s":
        acc.append(f[1])
    else:
        for g in f[1]:
            f_polys(g, acc)
    return acc


# ---------------------------------------------------------------- context
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.transitions = 0
        self.cvc5 = 0
        self.forked = 0


class Context:
    """state of one obligation (atoms, caches) and of its current path"""

    cur = None

    def __init__(self, max_paths=4000, max_time=300.0, feas_ms=400, claim_ms=8000,
                 max_decisions=400):
        self.table = P.reset_table()
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = time.time() + max_time
        self.feas_ms = feas_ms
        self.claim_ms = claim_ms
        self.max_decisions = max_decisions
        self.feas_cache = {}
        self.zcache = {}
        self.zvars = {}
        self.allow_float = False
        self.lazy_abs = False
        self.start([])
        Context.cur = self

    # ---- path state
    def start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.log = []  # decisions taken: bool
        self.facts = {}  # monic poly -> allowed signs
        self.extra = []  # compound formulas assumed on this path
        self.claims = []
        self.obs = []
        self.pending = []
        self.notes = []
        self.uflog = []
        self.abstract_inv = False
        self.counters = {}
        self.svds = []
        self.linsolves = []
        self.records = []

    def fresh_id(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return f"{base}!{n}"

    def record(self, kind, **kw):
        self.records.append((kind, kw))

    # ---- atoms
    def var(self, name, sign=None):
        a = self.table.get(("var", name))
        if a is None:
            a = self.table.new(("var", name), name, "var", sign)
        return SymReal.of_atom(a)

    def uf(self, name, args, sign=None):
        key = ("uf", name, tuple(_ckey(v) for v in args))
        a = self.table.get(key)
        if a is None:
            n = len([1 for k in self.table.bykey if k[0] == "uf" and k[1] == name])
            a = self.table.new(key, f"{name}#{n}", "uf", sign)
            a.data = (name, list(args))
        return SymReal.of_atom(a)

    # ---- signs
    def poly_signs(self, p):
        """sound syntactic approximation of the possible signs of p"""
        if p.is_const():
            c = p.const_value()
            return S_EQ if c == 0 else (S_GT if c > 0 else S_LT)
        u, q = p.monic()
        base = self.facts.get(q, ALL)
        # structural
        tot = None
        if len(q.d) <= 60:
            for m, c in q.d.items():
                t = S_GT if c > 0 else S_LT
                for v, e in m:
                    sv = self.atom_signs(v)
                    if e % 2 == 0:
                        sv = S_GE if "0" in sv else S_GT
                    t = _mul_signs(t, sv)
                tot = t if tot is None else _add_signs(tot, t)
                if tot == ALL:
                    break
            base = base & tot
            if not base:
                base = tot
        return flip(base) if u < 0 else base

    def atom_signs(self, v):
        a = self.table.atoms[v]
        s = _SIGNTXT[a.sign]
        f = self.facts.get(Poly.atom(a))
        if f is not None:
            s = s & f or s
        return s

    # ---- deciding
    def decide(self, f):
        if isinstance(f, bool):
            return f
        if f[0] == "and":
            return all(self.decide(g) for g in f[1])
        if f[0] == "or":
            return any(self.decide(g) for g in f[1])
        _, p, signs = f
        known = self.poly_signs(p)
        if known <= signs:
            return True
        if not (known & signs):
            return False
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.log.append(val)
            self._add_fact(p, known & signs if val else known - signs)
            return val
        if len(self.log) >= self.max_decisions:
            raise Budget("too many decisions on one path")
        if time.time() > self.deadline:
            raise Budget("time budget")
        t = self._feasible(p, known & signs)
        if t == "unsat":
            val = False
        else:
            e = self._feasible(p, known - signs)
            if e == "unsat":
                val = True
            else:
                val = True
                self.pending.append(self.log + [False])
                self.stats.transitions += 1
        self.pos += 1
        self.log.append(val)
        self.prefix = list(self.log)
        self._add_fact(p, known & signs if val else known - signs)
        return val

    def _add_fact(self, p, signs):
        old = self.facts.get(p, ALL)
        self.facts[p] = old & signs
        # propagate simple products: sign of a monomial times nothing is enough
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if "0" not in signs:
                for v, e in m:
                    ap = Poly.atom(self.table.atoms[v])
                    if ap != p:
                        self.facts[ap] = self.facts.get(ap, ALL) & S_NE

    def assume(self, f):
        """restrict the path to f (no alternative is explored)"""
        if isinstance(f, SymBool):
            f = f.f
        if isinstance(f, (bool, rnp.bool_)):
            if not f:
                raise PathAbort
            return
        if f[0] == "and":
            for g in f[1]:
                self.assume(g)
            return
        if f[0] == "s":
            known = self.poly_signs(f[1])
            if known <= f[2]:
                return
            if not (known & f[2]):
                raise PathAbort
            if self._feasible(f[1], known & f[2]) == "unsat":
                raise PathAbort
            self._add_fact(f[1], known & f[2])
            return
        self.extra.append(f)

    # ---- slicing
    def closure_atoms(self, atoms):
        seen = set()
        todo = list(atoms)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            todo.extend(self.table.atoms[v].deps)
        return seen

    def slice(self, polys):
        """constraints of the path connected with the given polynomials"""
        want = self.closure_atoms({v for p in polys for v in p.atoms()})
        items = []
        for p, s in self.facts.items():
            items.append((("s", p, s), self.closure_atoms(p.atoms())))
        for f in self.extra:
            at = set()
            for p in f_polys(f):
                at |= p.atoms()
            items.append((f, self.closure_atoms(at)))
        chosen = []
        changed = True
        rest = items
        while changed:
            changed = False
            nrest = []
            for f, at in rest:
                if at & want:
                    chosen.append(f)
                    if not at <= want:
                        want |= at
                    changed = True
                else:
                    nrest.append((f, at))
            rest = nrest
        return chosen, want

    def _feasible(self, p, signs):
        if not signs:
            return "unsat"
        cs, want = self.slice([p])
        old = self.facts.get(p)
        key = (p, signs, frozenset(cs))
        r = self.feas_cache.get(key)
        if r is None:
            goal = ("s", p, signs)
            small, swant = self.slice0([p])
            if len(small) < len(cs):
                k0 = (p, signs, frozenset(small))
                r = self.feas_cache.get(k0)
                if r is None:
                    r, _ = self.solve(small + [goal], swant, self.feas_ms, feas=True)
                    self.feas_cache[k0] = r
            if r != "unsat":
                r, _ = self.solve(cs + [goal], want, self.feas_ms, feas=True)
            self.feas_cache[key] = r
        return r

    def slice0(self, polys):
        """path constraints over the atoms of the given polynomials only"""
        want = self.closure_atoms({v for p in polys for v in p.atoms()})
        out = []
        for p, s in self.facts.items():
            if p.atoms() <= want:
                out.append(("s", p, s))
        for f in self.extra:
            if all(p.atoms() <= want for p in f_polys(f)):
                out.append(f)
        return out, want

    # ---- z3
    def zvar(self, v):
        z = self.zvars.get(v)
        if z is None:
            z = self.zvars[v] = z3.Real(f"v{v}")
        return z

    def zpoly(self, p):
        z = self.zcache.get(p)
        if z is None:
            terms = []
            for m, c in p.d.items():
                fs = []
                for v, e in m:
                    fs.extend([self.zvar(v)] * e)
                cc = z3.RealVal(str(c))
                if not fs:
                    terms.append(cc)
                elif c == 1:
                    terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
                else:
                    terms.append(z3.Product(cc, *fs))
            z = z3.RealVal(0) if not terms else (
                terms[0] if len(terms) == 1 else z3.Sum(*terms))
            self.zcache[p] = z
        return z

    def zform(self, f):
        if isinstance(f, bool):
            return z3.BoolVal(f)
        if f[0] == "s":
            e = self.zpoly(f[1])
            s = f[2]
            if s == S_LT:
                return e < 0
            if s == S_LE:
                return e <= 0
            if s == S_EQ:
                return e == 0
            if s == S_GE:
                return e >= 0
            if s == S_GT:
                return e > 0
            if s == S_NE:
                return e != 0
            return z3.BoolVal(s == ALL)
        if f[0] == "and":
            return z3.And(*[self.zform(g) for g in f[1]])
        return z3.Or(*[self.zform(g) for g in f[1]])

    def def_formulas(self, atoms):
        out = []
        for v in sorted(atoms):
            a = self.table.atoms[v]
            if a.sign is not None:
                out.append(("s", Poly.atom(a), _SIGNTXT[a.sign]))
            out.extend(a.defs)
        return out

    def solve(self, fs, atoms=None, ms=2000, want_model=False, feas=False):
        if atoms is None:
            at = set()
            for f in fs:
                for p in f_polys(f):
                    at |= p.atoms()
            atoms = self.closure_atoms(at)
        fs = list(fs) + self.def_formulas(atoms)
        if any(f is False for f in fs):
            return "unsat", None
        fs = [f for f in fs if f is not True]
        t0 = time.time()
        linear = all(
            all(sum(e for _, e in m) <= 1 for m in p.d)
            for f in fs for p in f_polys(f)
        )
        r = None
        model = None
        plan = [("lra", ms)] if linear else (
            [("nlsat", ms)] if feas else [("nlsat", ms // 2), ("default", ms), ("cvc5", ms)])
        risky = not linear and (
            len(atoms) > 7 or max(sum(e for _, e in m) for f in fs for p in f_polys(f)
                                  for m in p.d) > 4
            or sum(len(p.d) for f in fs for p in f_polys(f)) > 60)
        for eng, budget in plan:
            self.stats.cvc5 += eng == "cvc5"
            if risky:
                res = self._isolated(lambda: self._engine(eng, fs, atoms, 0, want_model), budget)
                r, model = res if res is not None else ("unknown", None)
            else:
                r, model = self._engine(eng, fs, atoms, budget, want_model)
            if r != "unknown":
                break
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r, model

    def _engine(self, eng, fs, atoms, budget, want_model):
        if eng == "cvc5":
            return self._cvc5(fs, atoms, budget, want_model)
        if eng == "nlsat":
            s = z3.Then("simplify", "propagate-values", "solve-eqs",
                        "purify-arith", "qfnra-nlsat").solver() \
                if not want_model else z3.SolverFor("QF_NRA")
        elif eng == "lra":
            s = z3.Solver()
        else:
            s = z3.SolverFor("QF_NRA")
        if budget:
            s.set("timeout", int(budget))
        s.add(*[self.zform(f) for f in fs])
        try:
            rr = s.check()
        except z3.Z3Exception:
            rr = z3.unknown
        r = "sat" if rr == z3.sat else "unsat" if rr == z3.unsat else "unknown"
        model = None
        if r == "sat" and want_model:
            try:
                model = self._model(s.model(), atoms)
            except z3.Z3Exception:
                model = None
        return r, model

    def _isolated(self, fn, ms):
        """run fn in a forked child, killed after ms: the solvers do not always
        honour their own time limits"""
        self.stats.forked += 1
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, ms / 1000.0 + 5)
                os.close(rd)
                data = pickle.dumps(fn())
                while data:
                    n = os.write(wr, data)
                    data = data[n:]
            finally:
                os._exit(0)
        os.close(wr)
        buf = b""
        end = time.time() + ms / 1000.0
        try:
            while True:
                left = end - time.time()
                if left <= 0:
                    break
                ok, _, _ = select.select([rd], [], [], left)
                if not ok:
                    break
                d = os.read(rd, 1 << 16)
                if not d:
                    break
                buf += d
        finally:
            os.close(rd)
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
        try:
            return pickle.loads(buf) if buf else None
        except Exception:
            return None

    def _model(self, m, atoms):
        out = {}
        for v in atoms:
            val = m.eval(self.zvar(v), model_completion=True)
            if z3.is_rational_value(val):
                out[v] = Fraction(val.numerator_as_long(), val.denominator_as_long())
            elif z3.is_algebraic_value(val):
                a = val.approx(30)
                out[v] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            else:
                raise z3.Z3Exception("no value")
        return out

    def _cvc5(self, fs, atoms, ms, want_model):
        try:
            import cvc5
            from cvc5 import Kind
        except Exception:
            return "unknown", None
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setLogic("QF_NRA")
        if ms:
            s.setOption("tlimit-per", str(int(ms)))
        s.setOption("produce-models", "true")
        vs = {v: tm.mkConst(tm.getRealSort(), f"v{v}") for v in atoms}

        def cp(p):
            ts = []
            for m, c in p.d.items():
                t = [tm.mkReal(c.numerator, c.denominator)]
                for v, e in m:
                    if v not in vs:
                        vs[v] = tm.mkConst(tm.getRealSort(), f"v{v}")
                    t += [vs[v]] * e
                ts.append(t[0] if len(t) == 1 else tm.mkTerm(Kind.MULT, *t))
            if not ts:
                return tm.mkReal(0)
            return ts[0] if len(ts) == 1 else tm.mkTerm(Kind.ADD, *ts)

        zero = tm.mkReal(0)

        def cf(f):
            if isinstance(f, bool):
                return tm.mkBoolean(f)
            if f[0] == "s":
                e = cp(f[1])
                k = {S_LT: Kind.LT, S_LE: Kind.LEQ, S_EQ: Kind.EQUAL,
                     S_GE: Kind.GEQ, S_GT: Kind.GT, S_NE: Kind.DISTINCT}.get(f[2])
                return tm.mkTerm(k, e, zero)
            ks = Kind.AND if f[0] == "and" else Kind.OR
            return tm.mkTerm(ks, *[cf(g) for g in f[1]])

        try:
            for f in fs:
                s.assertFormula(cf(f))
            r = s.checkSat()
        except Exception:
            return "unknown", None
        if r.isUnsat():
            return "unsat", None
        if r.isSat():
            model = {}
            if want_model:
                try:
                    for v in atoms:
                        t = s.getValue(vs[v])
                        model[v] = Fraction(t.getRealValue())
                except Exception:
                    return "unknown", None
            return "sat", model
        return "unknown", None


def ctx():
    return Context.cur


# ---------------------------------------------------------------- snapping
_SNAP = {}


def snap(x):
    """rational a float literal stands for (0.1 -> 1/10, 1/3 -> 1/3)"""
    r = _SNAP.get(x)
    if r is None:
        f = Fraction(x)
        if f.denominator <= 1 << 20:
            r = f
        else:
            g = f.limit_denominator(10000)
            if g != 0 and abs(g - f) <= abs(f) * Fraction(1, 10**15):
                r = g
            else:
                s = repr(float(x))
                digits = sum(ch.isdigit() for ch in s.split("e")[0].replace("0.", ""))
                r = Fraction(s) if digits <= 12 else f
        if len(_SNAP) < 100000:
            _SNAP[x] = r
    return r


def is_sym(x):
    return isinstance(x, (SymReal, SymComplex, SymBool, SymAngle))


def _ckey(v):
    if isinstance(v, SymReal):
        return (v.n.key(), tuple((p.key(), e) for p, e in v.d))
    if isinstance(v, SymComplex):
        return ("c", _ckey(v.re), _ckey(v.im))
    if isinstance(v, (int, float, Fraction, rnp.number)):
        if isinstance(v, (float, rnp.floating)) and not math.isfinite(v):
            return repr(float(v))
        return _ckey(lift(v))
    return v


def lift(x):
    """python/numpy real number -> SymReal"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return SymReal.const(int(bool(x)))
    if isinstance(x, (bool, rnp.bool_)):
        return SymReal.const(int(x))
    if isinstance(x, (int, rnp.integer)):
        return SymReal.const(int(x))
    if isinstance(x, Fraction):
        return SymReal.const(x)
    if isinstance(x, (float, rnp.floating)):
        return SymReal.const(snap(float(x)))
    raise Unsupported(f"cannot lift {type(x).__name__}")


def _nonfinite(x):
    return isinstance(x, (float, rnp.floating)) and not math.isfinite(x)


def _iscomplex(x):
    return isinstance(x, (complex, rnp.complexfloating, SymComplex))


def tocomplex(x):
    if isinstance(x, SymComplex):
        return x
    if isinstance(x, (complex, rnp.complexfloating)):
        return SymComplex(x.real if not math.isfinite(x.real) else lift(x.real),
                          x.imag if not math.isfinite(x.imag) else lift(x.imag))
    return SymComplex(x if _nonfinite(x) else lift(x), SymReal.const(0))


def _rep(x):
    """representative float with the sign of x (forks)"""
    if _nonfinite(x):
        return rnp.float64(x)
    return rnp.float64(ssign_int(x))


def ssign_int(x):
    """-1, 0, 1 as python int (forks)"""
    x = lift(x)
    if x > 0:
        return 1
    if x < 0:
        return -1
    return 0


def _special(op, a, b):
    with rnp.errstate(all="ignore"):
        r = float(op(_rep(a), _rep(b)))
    return r if not math.isfinite(r) else SymReal.const(snap(r))


_arr_hook = None  # set by arr.py: called when the other operand is an ndarray


def _other_array(a, b, ufunc):
    if isinstance(b, rnp.ndarray):
        return True
    return False


def sadd(a, b):
    if _iscomplex(a) or _iscomplex(b):
        a, b = tocomplex(a), tocomplex(b)
        return SymComplex(sadd(a.re, b.re), sadd(a.im, b.im))
    if _nonfinite(a) or _nonfinite(b):
        return _special(rnp.add, a, b)
    return lift(a)._add(lift(b))


def sneg(a):
    if _iscomplex(a):
        a = tocomplex(a)
        return SymComplex(sneg(a.re), sneg(a.im))
    if _nonfinite(a):
        return -float(a)
    return lift(a)._neg()


def ssub(a, b):
    return sadd(a, sneg(b))


def smul(a, b):
    if type(a).__name__ == "SymAcos" or type(b).__name__ == "SymAcos":
        return a * b if type(a).__name__ == "SymAcos" else b * a
    if isinstance(a, (SymAngle, SymImagAngle)) or isinstance(b, (SymAngle, SymImagAngle)):
        return _mul_angle(a, b)
    if _iscomplex(a) or _iscomplex(b):
        if not _iscomplex(a):
            a, b = b, a
        if not _iscomplex(b):  # complex * real
            a = tocomplex(a)
            return SymComplex(smul(a.re, b), smul(a.im, b))
        a, b = tocomplex(a), tocomplex(b)
        return SymComplex(ssub(smul(a.re, b.re), smul(a.im, b.im)),
                          sadd(smul(a.re, b.im), smul(a.im, b.re)))
    if _nonfinite(a) or _nonfinite(b):
        return _special(rnp.multiply, a, b)
    if a is b and _lazy(a) and len(a.terms) == 2 and a.nonneg():
        return a.terms[0]._mul(a.terms[0])
    return lift(a)._mul(lift(b))


def sdiv(a, b):
    if type(a).__name__ == "SymAcos":
        return a / b
    if _iscomplex(a) or _iscomplex(b):
        if not _iscomplex(b):
            a = tocomplex(a)
            if not _nonfinite(b) and bool(lift(b) == 0):
                return SymComplex(float("nan"), float("nan"))
            return SymComplex(sdiv(a.re, b), sdiv(a.im, b))
        a, b = tocomplex(a), tocomplex(b)
        m = sadd(smul(b.re, b.re), smul(b.im, b.im))
        num = smul(a, SymComplex(b.re, sneg(b.im)))
        if not _nonfinite(m) and bool(lift(m) == 0):
            return SymComplex(float("nan"), float("nan"))
        return SymComplex(sdiv(num.re, m), sdiv(num.im, m))
    if _lazy(a) and not _nonfinite(b) and len(a.terms) <= 8 and bool(sgt(b, 0)):
        i = lift(b)._inv()
        return SymMax([t._mul(i) for t in a.terms])
    if _nonfinite(a) or _nonfinite(b):
        return _special(rnp.divide, a, b)
    b = lift(b)
    a = lift(a)
    if b.n.is_const():
        if b.n.is_zero():
            return _special(rnp.divide, a, SymReal.const(0))
        return a._mul(b._inv())
    if bool(b == 0):
        Context.cur.notes.append("division by zero")
        return _special(rnp.divide, a, SymReal.const(0))
    return a._mul(b._inv())


def sabs(a):
    if _iscomplex(a):
        a = tocomplex(a)
        return ssqrt(sadd(smul(a.re, a.re), smul(a.im, a.im)), nonneg=True)
    if _nonfinite(a):
        return abs(float(a))
    a = lift(a)
    if Context.cur.lazy_abs and not a.is_const():
        return SymMax([a, a._neg()])
    if a < 0:
        return a._neg()
    return a


def ssign(a):
    if _iscomplex(a):
        a = tocomplex(a)
        m = sabs(a)
        if bool(m == 0):
            return SymComplex(SymReal.const(0), SymReal.const(0))
        return sdiv(a, m)
    if _nonfinite(a):
        return float(rnp.sign(a))
    return SymReal.const(ssign_int(a))


def smax(a, b):
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return float("nan")
    if Context.cur.lazy_abs and (_lazy(a) or _lazy(b)) and not (_nonfinite(a) or _nonfinite(b)):
        return SymMax(_terms(a) + _terms(b))
    return a if bool(sge(a, b)) else b


def _lazy(a):
    return type(a) is SymMax and a._v is None


def _terms(a):
    return a.terms if type(a) is SymMax else [lift(a)]


def smin(a, b):
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return float("nan")
    return a if bool(sle(a, b)) else b


def scmp(a, b, signs):
    """SymBool/bool for sign(a-b) in signs"""
    if _iscomplex(a) or _iscomplex(b):
        a, b = tocomplex(a), tocomplex(b)
        e = s_and(scmp(a.re, b.re, S_EQ), scmp(a.im, b.im, S_EQ))
        if signs == S_EQ:
            return e
        if signs == S_NE:
            return s_not(e)
        raise Unsupported("ordering of complex numbers")
    if _nonfinite(a) or _nonfinite(b):
        fa = float(a) if _nonfinite(a) else 0.0
        fb = float(b) if _nonfinite(b) else 0.0
        if math.isnan(fa) or math.isnan(fb):
            return signs == S_NE
        c = "0" if fa == fb else ("+" if fa > fb else "-")
        return c in signs
    if _lazy(a) or _lazy(b):
        if signs == S_LT and _lazy(a) and not _lazy(b):
            c = lift(b)
            if c.is_const() and c.const_value() <= 0 and a.nonneg():
                return False
        if _lazy(a) and not _lazy(b):
            return SymBool.make(_maxcmp(a, lift(b), signs))
        if _lazy(b) and not _lazy(a):
            return SymBool.make(_maxcmp(b, lift(a), flip(signs)))
    r = lift(a)._add(lift(b)._neg())
    return SymBool.make(r.sign_formula(signs))


def _maxcmp(m, t, signs):
    """max(terms) - t has a sign in signs, as a formula"""
    ds = [e._add(t._neg()) for e in m.terms]
    out = []
    if signs & S_LT:
        out.append(f_and(*[_sf(d, S_LT) for d in ds]))
    if signs & S_EQ:
        out.append(f_and(f_and(*[_sf(d, S_LE) for d in ds]), f_or(*[_sf(d, S_EQ) for d in ds])))
    if signs & S_GT:
        out.append(f_or(*[_sf(d, S_GT) for d in ds]))
    if signs == S_LE:
        return f_and(*[_sf(d, S_LE) for d in ds])
    if signs == S_GE:
        return f_or(*[_sf(d, S_GE) for d in ds])
    return f_or(*out)


def _sf(d, signs):
    return d.sign_formula(signs)


def slt(a, b):
    return scmp(a, b, S_LT)


def sle(a, b):
    return scmp(a, b, S_LE)


def sgt(a, b):
    return scmp(a, b, S_GT)


def sge(a, b):
    return scmp(a, b, S_GE)


def seq(a, b):
    return scmp(a, b, S_EQ)


def sne(a, b):
    return scmp(a, b, S_NE)


def s_not(a):
    if isinstance(a, SymBool):
        return SymBool.make(f_not(a.f))
    return not truth(a)


def s_and(a, b):
    a, b = _fb(a), _fb(b)
    return SymBool.make(f_and(a, b))


def s_or(a, b):
    a, b = _fb(a), _fb(b)
    return SymBool.make(f_or(a, b))


def _fb(a):
    if isinstance(a, SymBool):
        return a.f
    if isinstance(a, (bool, rnp.bool_)):
        return bool(a)
    if isinstance(a, SymReal):
        return _fb(sne(a, 0))
    return bool(a)


def truth(a):
    return bool(a)


def _squarefree(n):
    """n = k*k*m with m squarefree (n small positive int)"""
    k = 1
    m = n
    i = 2
    while i * i <= m and i < 5000:
        while m % (i * i) == 0:
            m //= i * i
            k *= i
        i += 1
    r = math.isqrt(m)
    if r * r == m:
        return k * r, 1
    return k, m


def known_nonneg(a):
    """record a >= 0, for sums of squares (no solver call)"""
    if not isinstance(a, SymReal) or a.is_const():
        return
    f = a.sign_formula(S_GE)
    if not isinstance(f, bool) and f[0] == "s":
        Context.cur._add_fact(f[1], f[2])


def ssqrt(a, nonneg=False):
    if nonneg:
        known_nonneg(a)
    if _iscomplex(a):
        a = tocomplex(a)
        if isinstance(a.im, SymReal) and a.im.is_const() and a.im.n.is_zero():
            return SymComplex(ssqrt(a.re), SymReal.const(0))
        raise Unsupported("complex sqrt")
    if _nonfinite(a):
        with rnp.errstate(all="ignore"):
            return float(rnp.sqrt(float(a)))
    a = lift(a)
    if a < 0:
        return float("nan")
    # a = n / prod f^e ; sqrt = sqrt(n * prod f^(e odd)) / |prod f^ceil(e/2)|
    n = a.n
    outden = SymReal.const(1)
    for f, e in a.d:
        h = (e + 1) // 2
        if e % 2:
            n = n * f
        outden = outden._mul(SymReal(f.pow(h), ()))
    r = _sqrt_poly(n)
    if outden.is_const() and outden.const_value() == 1:
        return r
    return sdiv(r, sabs(outden))


def _sqrt_poly(n):
    if n.is_zero():
        return SymReal.const(0)
    c = n.content()
    q = n if c == 1 else n.scale(1 / c)
    # sqrt(c)
    num, den = c.numerator, c.denominator
    k, m = _squarefree(num * den)
    coef = Fraction(k, den)
    root = SymReal.const(coef)
    if m != 1:
        root = root._mul(_const_sqrt(m))
    if q.is_const():  # q == 1 (radicand nonnegative)
        return root
    # extract even monomial part
    g = q.mono_gcd()
    ev = tuple((v, e - e % 2) for v, e in g if e >= 2)
    if ev:
        q = q.div_mono(ev)
        out = SymReal.const(1)
        for v, e in ev:
            out = out._mul(SymReal(Poly({((v, e // 2),): P.ONE}), ()))
        root = root._mul(sabs(out))
        if q.is_const():
            return root
    # perfect squares of binomials and of other known polynomials
    sq = _perfect_square(q)
    if sq is not None:
        return root._mul(sabs(SymReal(sq, ())))
    cx = Context.cur
    key = ("sqrt", q)
    a = cx.table.get(key)
    if a is None:
        a = cx.table.new(key, f"sqrt({len(cx.table.atoms)})", "sqrt", None)
        a.deps = q.atoms()
        a.data = q
        P.set_rule(a, 2, q)
        ap = Poly.atom(a)
        # s*s is reduced by the rule, so the raw square is built by hand
        raw = Poly({((a.idx, 2),): P.ONE}) + q.scale(Fraction(-1))
        a.defs = [("s", ap, S_GE), ("s", *_norm(raw, S_EQ))]
        a.sign = "0+"
    if "0" not in cx.poly_signs(q):
        cx.facts[Poly.atom(a)] = cx.facts.get(Poly.atom(a), ALL) & S_GT
    return root._mul(SymReal.of_atom(a))


def _norm(p, signs):
    u, q = p.monic()
    return q, (flip(signs) if u < 0 else signs)


def _const_sqrt(m):
    cx = Context.cur
    key = ("csqrt", m)
    a = cx.table.get(key)
    if a is None:
        a = cx.table.new(key, f"sqrt{m}", "sqrt", "+")
        q = Poly.const(m)
        a.data = q
        P.set_rule(a, 2, q)
        raw = Poly({((a.idx, 2),): P.ONE}) + q.scale(Fraction(-1))
        a.defs = [("s", *_norm(raw, S_EQ))]
    return SymReal.of_atom(a)


def _perfect_square(q):
    """p with p*p == q, for short polynomials (square free of rules)"""
    if len(q.d) > 21:
        return None
    lead = max(q.d, key=lambda m: tuple(sorted(((v, e) for v, e in m), reverse=True)))
    # leading monomial in a lexicographic order
    allv = sorted(q.atoms(), reverse=True)

    def lk(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in allv)

    mons = sorted(q.d, key=lk, reverse=True)
    lead = mons[0]
    c = q.d[lead]
    if c <= 0 or any(e % 2 for _, e in lead):
        return None
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if rn * rn != c.numerator or rd * rd != c.denominator:
        return None
    lm = tuple((v, e // 2) for v, e in lead)
    p = {lm: Fraction(rn, rd)}
    lc = Fraction(rn, rd)
    # long "square root" extraction
    for _ in range(12):
        pp = Poly(dict(p))
        # plain square without rules
        sq = {}
        for m1, c1 in pp.d.items():
            for m2, c2 in pp.d.items():
                m = P._mono_mul(m1, m2)
                sq[m] = sq.get(m, P.ZERO) + c1 * c2
        rem = dict(q.d)
        for m, k in sq.items():
            v = rem.get(m, P.ZERO) - k
            if v:
                rem[m] = v
            else:
                rem.pop(m, None)
        if not rem:
            return pp
        t = max(rem, key=lk)
        dd = dict(t)
        for v, e in lm:
            if dd.get(v, 0) < e:
                return None
            dd[v] -= e
        nm = tuple(sorted((v, e) for v, e in dd.items() if e))
        if nm in p or lk(nm) >= lk(lm):
            return None
        p[nm] = rem[t] / (2 * lc)
    return None


def spow(a, k):
    if isinstance(k, SymReal):
        if k.is_const():
            k = k.const_value()
        else:
            raise Unsupported("symbolic exponent")
    if isinstance(k, (float, rnp.floating)):
        k = snap(float(k))
    k = Fraction(k)
    if _iscomplex(a):
        if k.denominator == 1 and k >= 0:
            r = tocomplex(1)
            for _ in range(int(k)):
                r = smul(r, a)
            return r
        raise Unsupported("complex power")
    if _nonfinite(a):
        with rnp.errstate(all="ignore"):
            return float(rnp.power(float(a), float(k)))
    a = lift(a)
    if k.denominator == 1:
        if k >= 0:
            if k % 2 == 0 and _lazy(a) and len(a.terms) == 2 and a.nonneg():
                return a.terms[0]._pow(int(k))  # |t|^2 = t^2
            return a._pow(int(k))
        return sdiv(1, a._pow(int(-k)))
    if k.denominator == 2:
        s = ssqrt(a)
        if _nonfinite(s):
            return s
        return spow(s, Fraction(k.numerator))
    if k.denominator == 3:
        s = scbrt(a)
        if _nonfinite(s):
            return s
        return spow(s, Fraction(k.numerator))
    raise Unsupported("fractional power")


def scbrt(a):
    """numpy power(a, 1/3): nan for negative a, the nonnegative root otherwise"""
    a = lift(a)
    if a < 0:
        return float("nan")
    if a.is_const():
        v = a.const_value()
        for q in range(0, 200):
            if Fraction(q) ** 3 == v:
                return SymReal.const(q)
    # sqrt(w)**(1/3) with w == u**3 known elsewhere stays an atom c, c**3 = a
    cx = Context.cur
    n = a.n
    den = SymReal.const(1)
    for f, e in a.d:
        h = (e + 2) // 3
        n = n * f.pow(3 * h - e)
        den = den._mul(SymReal(f.pow(h), ()))
    key = ("cbrt", n)
    at = cx.table.get(key)
    if at is None:
        at = cx.table.new(key, f"cbrt({len(cx.table.atoms)})", "sqrt", None)
        at.deps = n.atoms()
        at.data = n
        P.set_rule(at, 3, n)
        raw = Poly({((at.idx, 3),): P.ONE}) + n.scale(Fraction(-1))
        at.defs = [("s", *_norm(raw, S_EQ))]
    r = SymReal.of_atom(at)
    return sdiv(r, den)


# ------------------------------------------------------------ transcendental
def sfun(name, a):
    """exp, log, cos, arccos ... : axiomatised in trans.py"""
    from . import trans

    return trans.apply(name, a)


# ---------------------------------------------------------------- classes
class SymBool:
    __slots__ = ("f",)
    __array_priority__ = 2000

    def __init__(self, f):
        self.f = f

    @staticmethod
    def make(f):
        return f if isinstance(f, bool) else SymBool(f)

    def __bool__(self):
        return Context.cur.decide(self.f)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __invert__(self):
        return s_not(self)

    def __and__(self, o):
        return NotImplemented if isinstance(o, rnp.ndarray) else s_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return NotImplemented if isinstance(o, rnp.ndarray) else s_or(self, o)

    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(repr(self.f))

    def _i(self):
        return SymReal.const(int(bool(self)))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def item(self):
        return bool(self)

    def any(self, *a, **k):
        return bool(self)

    all = any

    @property
    def shape(self):
        return ()

    @property
    def dtype(self):
        return rnp.dtype(bool)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mkop(fn, swap=False):
    def op(self, o):
        if isinstance(o, rnp.ndarray) or (
            not isinstance(o, (SymReal, SymComplex, SymBool, SymAngle, SymImagAngle, int, float, complex,
                               Fraction, rnp.number, rnp.bool_))
        ):
            if isinstance(o, rnp.ndarray):
                return _arr_hook(fn, self, o, swap)
            return NotImplemented
        return fn(o, self) if swap else fn(self, o)

    return op


class SymReal:
    """n / prod(f**e) with n a polynomial and the f monic polynomials"""

    __slots__ = ("n", "d")
    __array_priority__ = 2000

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    @staticmethod
    def const(c):
        return SymReal(Poly.const(c), ())

    @staticmethod
    def of_atom(a):
        return SymReal(Poly.atom(a), ())

    def is_const(self):
        return not self.d and self.n.is_const()

    def const_value(self):
        return self.n.const_value()

    # --- raw arithmetic
    def _neg(self):
        return SymReal(-self.n, self.d)

    def _add(self, o):
        if self.d == o.d:
            return _cancel(self.n + o.n, self.d)
        if not o.d and o.n.is_zero():
            return self
        if not self.d and self.n.is_zero():
            return o
        d1, d2 = dict(self.d), dict(o.d)
        m1 = m2 = None
        allf = dict(d1)
        for f, e in d2.items():
            allf[f] = max(allf.get(f, 0), e)
        n1, n2 = self.n, o.n
        for f, e in allf.items():
            k = e - d1.get(f, 0)
            if k:
                n1 = n1 * f.pow(k)
            k = e - d2.get(f, 0)
            if k:
                n2 = n2 * f.pow(k)
        return _cancel(n1 + n2, _sortden(allf))

    def _mul(self, o):
        if not o.d and o.n.is_const():
            c = o.n.const_value()
            if c == 0:
                return SymReal.const(0)
            return SymReal(self.n.scale(c), self.d)
        if not self.d and self.n.is_const():
            return o._mul(self)
        if not self.d and not o.d:
            return SymReal(self.n * o.n, ())
        n1, n2 = self.n, o.n
        d1, d2 = dict(self.d), dict(o.d)
        n1, d2 = _cancel_raw(n1, d2)
        n2, d1 = _cancel_raw(n2, d1)
        for f, e in d2.items():
            d1[f] = d1.get(f, 0) + e
        # the product may contain squares of radicals that reduce: rebuild
        return _cancel(n1 * n2, _fixden(d1))

    def _inv(self):
        n = Poly.const(1)
        for f, e in self.d:
            n = n * f.pow(e)
        den = {}
        u, q = self.n.monic()
        g = q.mono_gcd()
        if g:
            q = q.div_mono(g)
            for v, e in g:
                ap = Poly({((v, 1),): P.ONE})
                den[ap] = den.get(ap, 0) + e
        if not q.is_const():
            u2, q = q.monic()
            u = u * u2
            den[q] = den.get(q, 0) + 1
        else:
            u = u * q.const_value()
        return _cancel(n.scale(1 / u), _fixden(den))

    def _pow(self, k):
        if k == 0:
            return SymReal.const(1)
        r = None
        b = self
        while k:
            if k & 1:
                r = b if r is None else r._mul(b)
            k >>= 1
            if k:
                b = b._mul(b)
        return r

    def sign_formula(self, signs):
        p = self.n
        cx = Context.cur
        for f, e in self.d:
            if e % 2:
                s = cx.poly_signs(f) - S_EQ
                if s == S_GT:
                    continue
                if s == S_LT:
                    p = -p
                    continue
                p = p * f
        return f_leaf(p, signs)

    # --- python protocol
    __add__ = _mkop(sadd)
    __radd__ = _mkop(sadd, True)
    __sub__ = _mkop(ssub)
    __rsub__ = _mkop(ssub, True)
    __mul__ = _mkop(smul)
    __rmul__ = _mkop(smul, True)
    __truediv__ = _mkop(sdiv)
    __rtruediv__ = _mkop(sdiv, True)
    __pow__ = _mkop(spow)
    __lt__ = _mkop(slt)
    __le__ = _mkop(sle)
    __gt__ = _mkop(sgt)
    __ge__ = _mkop(sge)
    __eq__ = _mkop(seq)
    __ne__ = _mkop(sne)

    def __rpow__(self, o):
        return spow(o, self)

    def __floordiv__(self, o):
        if self.is_const():
            return SymReal.const(self.const_value() // lift(o).const_value())
        raise Unsupported("floor division")

    def __mod__(self, o):
        raise Unsupported("mod")

    def __neg__(self):
        return self._neg()

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __hash__(self):
        return hash((self.n, self.d))

    def __bool__(self):
        return bool(sne(self, 0))

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        if Context.cur.allow_float:
            return 0.5
        raise Unsupported("symbolic value used where a machine float is required")

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        raise Unsupported("symbolic value used as an int")

    def __index__(self):
        if self.is_const() and self.const_value().denominator == 1:
            return int(self.const_value())
        raise TypeError("symbolic value used as an index")

    def __format__(self, spec):
        return format(self.const_value().__float__() if self.is_const() else 0.5, spec)

    def __str__(self):
        return "sym"

    def __repr__(self):
        if not self.d:
            return f"<{self.n!r}>"
        return f"<({self.n!r})/({' * '.join(f'({f!r})^{e}' for f, e in self.d)})>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __round__(self, n=0):
        raise Unsupported("round")

    # --- numpy scalar look-alike
    real = property(lambda s: s)
    imag = property(lambda s: SymReal.const(0))
    shape = ()
    ndim = 0
    size = 1
    T = property(lambda s: s)
    dtype = rnp.dtype("float64")

    def conj(self):
        return self

    conjugate = conj

    def item(self, *a):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = max = min = ravel0 = sum

    def any(self, *a, **k):
        return bool(self)

    all = any

    def sqrt(self):
        return ssqrt(self)

    def astype(self, dt, *a, **k):
        return self

    def is_integer(self):
        return self.is_const() and self.const_value().denominator == 1


class SymMax(SymReal):
    """max of finitely many terms (|a| = max(a, -a)): compared without a case split, split
    into cases when used in arithmetic"""

    __slots__ = ("terms", "_v")

    def __init__(self, terms):
        self.terms = terms
        self._v = None

    def nonneg(self):
        """certainly >= 0: contains a pair t, -t"""
        for i, a in enumerate(self.terms):
            for b in self.terms[i + 1:]:
                if a._add(b).n.is_zero():
                    return True
        return False

    def _get(self):
        if self._v is None:
            m = self.terms[0]
            for e in self.terms[1:]:
                if not m._add(e._neg()).sign_formula(S_GE) is True:
                    m = m if truth(SymBool.make(m._add(e._neg()).sign_formula(S_GE))) else e
            self._v = m
        return self._v

    @property
    def n(self):
        return self._get().n

    @property
    def d(self):
        return self._get().d

    def is_const(self):
        return self._v is not None and self._v.is_const()


def _sortden(d):
    return tuple(sorted(d.items(), key=lambda fe: (len(fe[0].d), fe[0].key(), fe[1])))


def _fixden(d):
    """apply reduction rules to pure-atom factors (s**2 -> radicand)"""
    out = {}
    for f, e in d.items():
        if len(f.d) == 1:
            (m, c), = f.d.items()
            if len(m) == 1 and m[0][1] == 1:
                a = P.TABLE.atoms[m[0][0]]
                if a.rule is not None and a.rule[0] == 2 and e >= 2:
                    q = a.rule[1]
                    k = e // 2
                    if e % 2:
                        out[f] = out.get(f, 0) + 1
                    if q.is_const():
                        # handled by caller through scaling: keep as factor
                        out[f] = out.get(f, 0) + 2 * k
                    else:
                        u, qq = q.monic()
                        if u == 1:
                            g = qq.mono_gcd()
                            if g:
                                for v, ee in g:
                                    ap = Poly({((v, 1),): P.ONE})
                                    out[ap] = out.get(ap, 0) + ee * k
                                qq = qq.div_mono(g)
                                u2, qq = qq.monic()
                                if u2 != 1:
                                    return _sortden(d)
                            if not qq.is_const():
                                out[qq] = out.get(qq, 0) + k
                        else:
                            out[f] = out.get(f, 0) + 2 * k
                    continue
        out[f] = out.get(f, 0) + e
    return _sortden(out)


def _cancel_raw(n, d):
    if n.is_zero():
        return n, {}
    if not d:
        return n, d
    out = {}
    for f, e in d.items():
        if len(f.d) == 1:
            (m, c), = f.d.items()
            g = dict(n.mono_gcd())
            k = min([e] + [g.get(v, 0) // ee for v, ee in m])
            if k > 0:
                n = n.div_mono(tuple((v, ee * k) for v, ee in m))
                e -= k
        else:
            while e > 0 and len(n.d) <= 400:
                q = n.exact_div(f)
                if q is None:
                    break
                n = q
                e -= 1
        if e:
            out[f] = e
    return n, out


def _cancel(n, d):
    n, dd = _cancel_raw(n, dict(d))
    return SymReal(n, _sortden(dd) if dd else ())


class SymComplex:
    __slots__ = ("re", "im")
    __array_priority__ = 2000

    def __init__(self, re, im):
        self.re = re
        self.im = im

    __add__ = _mkop(sadd)
    __radd__ = _mkop(sadd, True)
    __sub__ = _mkop(ssub)
    __rsub__ = _mkop(ssub, True)
    __mul__ = _mkop(smul)
    __rmul__ = _mkop(smul, True)
    __truediv__ = _mkop(sdiv)
    __rtruediv__ = _mkop(sdiv, True)
    __pow__ = _mkop(spow)
    __eq__ = _mkop(seq)
    __ne__ = _mkop(sne)

    def __lt__(self, o):
        raise Unsupported("ordering of complex numbers")

    __le__ = __gt__ = __ge__ = __lt__

    def __neg__(self):
        return sneg(self)

    def __abs__(self):
        return sabs(self)

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return bool(sne(self, 0))

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __float__(self):
        if Context.cur.allow_float:
            return 0.5
        raise TypeError("can't convert complex to float")

    def __format__(self, spec):
        return "0"

    def __repr__(self):
        return f"<{self.re!r}+j{self.im!r}>"

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)
    shape = ()
    ndim = 0
    size = 1
    dtype = rnp.dtype("complex128")
    T = property(lambda s: s)

    def conj(self):
        return SymComplex(self.re, sneg(self.im))

    conjugate = conj

    def item(self, *a):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def sum(self, *a, **k):
        return self


class SymAngle:
    """numpy.angle(z); only useful inside exp(1j * angle)"""

    __slots__ = ("z",)
    __array_priority__ = 2000

    def __init__(self, z):
        self.z = z

    def __mul__(self, o):
        if isinstance(o, rnp.ndarray):
            return _arr_hook(smul, self, o, False)
        return _mul_angle(self, o)

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self


class SymImagAngle:
    __slots__ = ("z", "s")
    __array_priority__ = 2000

    def __init__(self, z, s):
        self.z = z
        self.s = s

    def __neg__(self):
        return SymImagAngle(self.z, -self.s)

    def __deepcopy__(self, memo):
        return self


def _mul_angle(a, b):
    if isinstance(b, (SymAngle, SymImagAngle)):
        a, b = b, a
    if isinstance(a, SymImagAngle):
        if b in (1, 1.0, -1, -1.0):
            return SymImagAngle(a.z, a.s * int(b))
        raise Unsupported("angle arithmetic")
    if isinstance(b, SymComplex):
        try:
            b = complex(b)
        except Unsupported:
            pass
    if isinstance(b, (complex, rnp.complexfloating)) and b.real == 0 and abs(b.imag) == 1:
        return SymImagAngle(a.z, int(b.imag))
    raise Unsupported("angle arithmetic")


def unit_phase(z, s=1):
    """exp(1j*angle(z)) as numpy evaluates it (angle(0) == 0)"""
    z = tocomplex(z)
    m = sabs(z)
    if bool(m == 0):
        return SymComplex(SymReal.const(1), SymReal.const(0))
    r = SymComplex(sdiv(z.re, m), sdiv(z.im, m))
    return r if s == 1 else r.conj()
