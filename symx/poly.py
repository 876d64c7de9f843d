"""Exact multivariate polynomials over Q with algebraic reduction rules.

A polynomial is an immutable mapping from monomials to rational coefficients.
A monomial is a sorted tuple of (atom index, exponent).  Atoms live in the
AtomTable of the running obligation; some atoms (square roots, unit-circle
sines, ...) carry a rule `atom**k -> polynomial in older atoms`, which is
applied on multiplication so that equal values tend to have equal forms.
"""

from fractions import Fraction

ZERO = Fraction(0)
ONE = Fraction(1)


class Atom:
    __slots__ = ("idx", "key", "name", "kind", "sign", "rule", "defs", "data", "deps")

    def __init__(self, idx, key, name, kind, sign=None):
        self.idx = idx
        self.key = key
        self.name = name
        self.kind = kind  # var | sqrt | uf | alg
        self.sign = sign  # None, '+', '0+', '-', '0-'
        self.rule = None  # (power, Poly): atom**power == Poly
        self.defs = []  # list of formulas (see core) that hold whenever used
        self.data = None
        self.deps = frozenset()


class AtomTable:
    def __init__(self):
        self.atoms = []
        self.bykey = {}

    def get(self, key):
        return self.bykey.get(key)

    def new(self, key, name, kind, sign=None):
        a = Atom(len(self.atoms), key, name, kind, sign)
        self.atoms.append(a)
        self.bykey[key] = a
        return a


TABLE = AtomTable()
_HASRULE = set()  # indices of atoms with reduction rule


def reset_table():
    global TABLE
    TABLE = AtomTable()
    _HASRULE.clear()
    return TABLE


def set_rule(atom, power, poly):
    atom.rule = (power, poly)
    _HASRULE.add(atom.idx)


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    # merge
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Poly:
    __slots__ = ("d", "_h", "_deps", "_z")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._deps = None
        self._z = None

    # -- constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def atom(a):
        return Poly({((a.idx, 1),): ONE})

    # -- predicates
    def is_zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const_value(self):
        return self.d.get((), ZERO)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def key(self):
        return tuple(sorted(self.d.items()))

    def atoms(self):
        """set of atom indices occurring directly"""
        if self._deps is None:
            self._deps = frozenset(v for m in self.d for v, _ in m)
        return self._deps

    # -- arithmetic
    def __add__(self, o):
        if not o.d:
            return self
        if not self.d:
            return o
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for m, c in b.items():
            n = r.get(m)
            if n is None:
                r[m] = c
            else:
                n = n + c
                if n:
                    r[m] = n
                else:
                    del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if not c:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: k * c for m, k in self.d.items()})

    def __mul__(self, o):
        if not self.d or not o.d:
            return Poly({})
        if len(o.d) == 1 and () in o.d:
            return self.scale(o.d[()])
        if len(self.d) == 1 and () in self.d:
            return o.scale(self.d[()])
        if len(self.d) * len(o.d) > 400000:
            from .core import Unsupported

            raise Unsupported("polynomial too large")
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _mono_mul(m1, m2)
                n = r.get(m)
                if n is None:
                    r[m] = c1 * c2
                else:
                    n = n + c1 * c2
                    if n:
                        r[m] = n
                    else:
                        del r[m]
        return _reduce(r)

    def pow(self, k):
        r = Poly.const(1)
        b = self
        while k:
            if k & 1:
                r = r * b
            k >>= 1
            if k:
                b = b * b
        return r

    # -- normal forms
    def content(self):
        """positive rational c with self = c * primitive integer polynomial"""
        from math import gcd

        num = 0
        den = 1
        for c in self.d.values():
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        return Fraction(num, den) if num else ONE

    def lead(self):
        return max(self.d)  # deterministic term

    def monic(self):
        """(unit, p) with self = unit * p, p primitive with positive lead"""
        c = self.content()
        if self.d[self.lead()] < 0:
            c = -c
        return c, (self if c == 1 else Poly({m: k / c for m, k in self.d.items()}))

    def mono_gcd(self):
        it = iter(self.d)
        g = dict(next(it))
        for m in it:
            if not g:
                break
            mm = dict(m)
            g = {v: min(e, mm[v]) for v, e in g.items() if v in mm}
        return tuple(sorted(g.items()))

    def div_mono(self, mono):
        if not mono:
            return self
        g = dict(mono)
        r = {}
        for m, c in self.d.items():
            mm = tuple((v, e - g.get(v, 0)) for v, e in m if e - g.get(v, 0) > 0)
            r[mm] = c
        return Poly(r)

    def exact_div(self, f):
        """self / f when the division is exact over Q[atoms], else None"""
        if f.is_const():
            return self.scale(1 / f.const_value())
        fa = f.atoms()
        if not fa <= self.atoms():
            return None
        if len(self.d) < len(f.d) or len(self.d) > 3000:
            return None
        order = sorted(fa)
        # lexicographic order on exponent vectors: main variable = largest index

        def keyf(m):
            return tuple(sorted(m, reverse=True))

        def lexkey(m, allv):
            dd = dict(m)
            return tuple(dd.get(v, 0) for v in allv)

        allv = sorted(self.atoms() | fa, reverse=True)
        fl = max(f.d, key=lambda m: lexkey(m, allv))
        fc = f.d[fl]
        fld = dict(fl)
        rem = dict(self.d)
        q = {}
        steps = 0
        while rem:
            steps += 1
            if steps > 600:
                return None
            m = max(rem, key=lambda mm: lexkey(mm, allv))
            md = dict(m)
            for v, e in fld.items():
                if md.get(v, 0) < e:
                    return None
            qm = tuple(
                (v, e - fld.get(v, 0)) for v, e in m if e - fld.get(v, 0) > 0
            )
            qc = rem[m] / fc
            q[qm] = qc
            for m2, c2 in f.d.items():
                mm = _mono_mul(qm, m2)
                n = rem.get(mm, ZERO) - qc * c2
                if n:
                    rem[mm] = n
                else:
                    rem.pop(mm, None)
        qp = Poly(q)
        return qp

    def evalf(self, env):
        """env: atom idx -> float"""
        s = 0.0
        for m, c in self.d.items():
            t = float(c)
            for v, e in m:
                t *= env[v] ** e
            s += t
        return s

    def subs(self, env):
        """env: atom idx -> Poly (partial)"""
        r = Poly({})
        for m, c in self.d.items():
            t = Poly({(): c})
            for v, e in m:
                if v in env:
                    t = t * env[v].pow(e)
                else:
                    t = t * Poly({((v, e),): ONE})
            r = r + t
        return r

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items()):
            s = "*".join(
                TABLE.atoms[v].name + (f"^{e}" if e > 1 else "") for v, e in m
            )
            out.append(f"{c}" if not s else (s if c == 1 else f"{c}*{s}"))
        return " + ".join(out)


def _reduce(r):
    if not _HASRULE:
        return Poly(r)
    todo = None
    atoms = TABLE.atoms
    for m in r:
        for v, e in m:
            if v in _HASRULE and e >= atoms[v].rule[0]:
                if todo is None:
                    todo = []
                todo.append((m, v))
                break
    if todo is None:
        return Poly(r)
    r = dict(r)
    acc = Poly({})
    for m, v in todo:
        c = r.pop(m)
        p, rule = atoms[v].rule
        md = dict(m)
        q, rest = divmod(md[v], p)
        if rest:
            md[v] = rest
        else:
            del md[v]
        acc = acc + Poly({tuple(sorted(md.items())): c}) * rule.pow(q)
    return Poly(r) + acc
