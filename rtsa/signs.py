"""Sign analysis of terms over a box of inputs (definedness obligations).

sign(e) is a set of possible signs ("-", "0", "+") of the value of e for all inputs of the
domain; the rules only use monotonicity / interval arithmetic, factorisation, the values of
affine terms at the ends of an interval and the bound of an inner product of two unit
vectors.
"""
import itertools

import sympy as sp

ALL = frozenset("-0+")
POS, NEG, ZERO = frozenset("+"), frozenset("-"), frozenset("0")
_MUL = {("+", "+"): "+", ("-", "-"): "+", ("+", "-"): "-", ("-", "+"): "-"}


def mul(a, b):
    return frozenset(_MUL.get((x, y), "0") for x in a for y in b)


def add(a, b):
    r = set()
    for x in a:
        for y in b:
            if x == "0":
                r.add(y)
            elif y == "0" or x == y:
                r.add(x)
            else:
                r |= ALL
    return frozenset(r)


def neg(a):
    return mul(NEG, a)


def num_sign(n):
    if n.is_zero:
        return ZERO
    if n.is_positive:
        return POS
    if n.is_negative:
        return NEG
    return ALL


class Interval:
    def __init__(self, lo, hi, lo_open=False, hi_open=False):
        self.lo, self.hi = lo, hi
        self.lo_open, self.hi_open = lo_open, hi_open

    def sign(self):
        r = set()
        if self.lo is None or self.lo < 0:
            r.add("-")
        if self.hi is None or self.hi > 0:
            r.add("+")
        if (self.lo is None or self.lo < 0 or (self.lo == 0 and not self.lo_open)) and (
                self.hi is None or self.hi > 0 or (self.hi == 0 and not self.hi_open)):
            r.add("0")
        return frozenset(r)

    def finite(self):
        return self.lo is not None and self.hi is not None


# documented domain of the inputs
DOMAIN = {
    "v_tau": Interval(0, None), "v_omega": Interval(0, 1), "v_bsf": Interval(0, 1),
    "v_N": Interval(0, None), "v_I0": Interval(0, None, True),
    "v_t": Interval(-1, 1, True, True), "v_t1": Interval(-1, 1, True, True),
    "v_t2": Interval(-1, 1, True, True),
}
UNIT = Interval(-1, 1)


def angle(s):
    """"zenith" / "azimuth" for symbols of angles."""
    n = str(s)
    return "zenith" if n.startswith("v_t_") else "azimuth" if n.startswith("v_p_") else None


def atom_interval(e):
    """Interval of a symbol or trigonometric function."""
    if e.is_Symbol:
        return DOMAIN.get(str(e))
    if isinstance(e, (sp.cos, sp.sin)):
        if angle(e.args[0]) == "zenith":
            return Interval(0, 1, True, False) if isinstance(e, sp.cos) else (
                Interval(0, 1, False, True))
        return UNIT
    return None


def unit_products(e):
    """Names of the entries of products of two unit vectors occurring in e."""
    t = sorted({s for s in e.free_symbols if angle(s) == "zenith"}, key=str)
    p = sorted({s for s in e.free_symbols if angle(s) == "azimuth"}, key=str)
    tt = list(itertools.combinations_with_replacement(t, 2))
    pp = list(itertools.combinations_with_replacement(p, 2)) or [None]
    for (a, b), q in itertools.product(tt, pp):
        if q is None:
            yield (sp.cos(a) * sp.cos(b), sp.sin(a) * sp.sin(b))
        else:
            ss = sp.sin(a) * sp.sin(b)
            yield (sp.cos(a) * sp.cos(b), ss * sp.cos(q[0]) * sp.cos(q[1]),
                   ss * sp.sin(q[0]) * sp.sin(q[1]))


def exact(e):
    """Floats with an exact rational value (exponents written as 2.0)."""
    return e.replace(lambda x: x.is_Float, lambda x: sp.Rational(x))


class Signs:
    def __init__(self, facts=()):
        """facts: (term, possible signs) known to hold."""
        self.facts = [(sp.sympify(t), s) for t, s in facts]
        self.memo = {}

    def sign(self, e, depth=0):
        r = self.memo.get(e)
        if r is None:
            self.memo[e] = ALL      # cut cycles
            r = self.memo[e] = self._sign(e, depth)
        return r

    def _sign(self, e, depth):
        if e.is_number:
            return num_sign(e)
        r = ALL
        for t, s in self.facts:
            if t.free_symbols and t.free_symbols <= e.free_symbols:
                q = sp.cancel(e / t) if depth < 6 else e / t
                if q == 1:
                    r &= s
                elif q.is_number:
                    r &= mul(num_sign(q), s)
                elif q.free_symbols < e.free_symbols or q.count_ops() < e.count_ops():
                    if e.is_Add or e.is_Symbol:
                        r &= mul(self.sign(q, depth + 1), s)
        if len(r) == 1:
            return r
        iv = atom_interval(e)
        if iv is not None:
            return r & iv.sign()
        if e.is_Mul:
            s = POS
            for a in e.args:
                s = mul(s, self.sign(a, depth + 1))
            return r & s
        if isinstance(e, sp.exp):
            return POS
        if e.is_Pow:
            return r & self.power(e.base, e.exp, depth)
        if isinstance(e, sp.log):
            return r & self.sign(e.args[0] - 1, depth + 1)
        if isinstance(e, sp.Abs):
            s = self.sign(e.args[0], depth + 1)
            return r & frozenset("+" if x != "0" else "0" for x in s)
        if isinstance(e, sp.sign):
            return r & self.sign(e.args[0], depth + 1)
        if isinstance(e, (sp.Max, sp.Min)):
            return r & self.join(self.sign(a, depth + 1) for a in e.args)
        if isinstance(e, sp.Piecewise):
            return r & self.join(self.sign(a, depth + 1) for a, _ in e.args)
        if e.is_Add:
            return self.sum_(e, r, depth)
        return r

    @staticmethod
    def join(s):
        r = frozenset()
        for x in s:
            r |= x
        return r

    def power(self, b, p, depth):
        s = self.sign(b, depth + 1)
        p = exact(p)
        if p.is_Integer and p % 2 == 0:
            return frozenset("+" if x != "0" else "0" for x in s)
        if p.is_Integer:
            return s
        if p.is_Rational and "-" not in s:
            return s
        if s == POS:
            return POS
        return ALL

    def sum_(self, e, r, depth):
        if depth > 12:
            return r
        e = exact(e)
        for rule in (self.univariate, self.inner_product, self.terms, self.factored,
                     self.ends):
            r &= rule(e, depth)
            if len(r) == 1:
                break
        return r

    def terms(self, e, depth):
        s = ZERO
        for a in e.args:
            s = add(s, self.sign(a, depth + 1))
            if s == ALL:
                break
        return s

    def factored(self, e, depth):
        f = sp.factor_terms(e)
        if f.is_Add:
            try:
                f = sp.factor(e)
            except Exception:
                return ALL
        return self.sign(f, depth + 1) if f.is_Mul or f.is_Pow else ALL

    @staticmethod
    def univariate(e, depth=0):
        """Exact sign of a polynomial in one bounded quantity (number of real roots)."""
        ats = e.free_symbols | e.atoms(sp.cos, sp.sin)
        ats = {a for a in ats if not (a.is_Symbol and angle(a))}
        if len(ats) != 1:
            return ALL
        a, = ats
        iv = atom_interval(a)
        if iv is None or iv.lo is None:
            return ALL
        try:
            pl = sp.Poly(e, a, domain="QQ")
        except (sp.PolynomialError, sp.CoercionFailed, ValueError):
            return ALL
        if a.is_Function and pl.as_expr().xreplace({a: sp.Integer(1)}).free_symbols:
            return ALL
        ends = {x for x, o in ((iv.lo, iv.lo_open), (iv.hi, iv.hi_open))
                if o and x is not None and pl.eval(x) == 0}
        if pl.count_roots(iv.lo, iv.hi) != len(ends):
            return ALL
        mid = sp.Rational(iv.lo + iv.hi, 2) if iv.hi is not None else iv.lo + 1
        return num_sign(pl.eval(mid))

    def inner_product(self, e, depth):
        """Terms that are affine in the inner product of two (scaled) unit vectors."""
        e2 = sp.expand(e)
        monos = [self.monomial(t) for t in sp.Add.make_args(e2)]
        for ms in unit_products(e2):
            ks = [self.monomial(q)[1] for q in ms]
            rest = [(c, k) for c, k in monos if k not in ks]
            if len(rest) == len(monos) or any(k for _, k in rest):
                continue
            by = {}
            for c, k in monos:
                if k in ks:
                    by[k] = by.get(k, 0) + c
            cs = list(by.values())
            rel = [sp.cancel(c / cs[0]) for c in cs]
            if all(c.is_number for c in rel):
                k = max(abs(c) for c in rel)
                return self.affine(sp.Add(*[c for c, _ in rest]), cs[0] * k, UNIT, depth)
        return ALL

    def ends(self, e, depth):
        """Terms that are affine in a bounded quantity: values at the ends."""
        r = ALL
        if depth > 6:
            return r
        x = sp.Dummy("x")
        e2 = sp.expand(e)
        for a in sorted((a for a in e2.free_symbols | e2.atoms(sp.cos, sp.sin)
                         if atom_interval(a) is not None), key=str):
            iv = atom_interval(a)
            if not iv.finite():
                continue
            try:
                pl = sp.Poly(e2.xreplace({a: x}), x)
            except sp.PolynomialError:
                continue
            c, b = pl.coeff_monomial(1), pl.coeff_monomial(x)
            if pl.degree() != 1 or c.has(a) or b.has(a):
                continue
            r &= self.affine(c, b, iv, depth)
            if len(r) == 1:
                break
        return r

    @staticmethod
    def monomial(t):
        """(coefficient, powers of trigonometric functions of angles) of a product."""
        c, k = [], []
        for f in sp.Mul.make_args(t):
            b, p = f.as_base_exp()
            if isinstance(b, (sp.cos, sp.sin)) and any(angle(s) for s in b.free_symbols):
                k.append((b, p))
            elif any(angle(s) for s in f.free_symbols):
                k.append((f, None))
            else:
                c.append(f)
        return sp.Mul(*c), frozenset(k)

    def affine(self, c, b, iv, depth):
        """Sign of c + b*x for x in the interval iv."""
        lo, hi = sp.expand(c + b * iv.lo), sp.expand(c + b * iv.hi)
        s1, s2 = self.sign(lo, depth + 1), self.sign(hi, depth + 1)
        r = set()
        for x, y in itertools.product(s1, s2):
            if x == y:
                r.add(x)
                continue
            if "0" in (x, y):
                r.add(x if y == "0" else y)
                # the zero is only attained at a closed end
                if (x == "0" and not iv.lo_open) or (y == "0" and not iv.hi_open):
                    r.add("0")
            else:
                r |= ALL
        return frozenset(r)


# --------------------------------------------------------------------------------------
def holds(kind, s):
    return {"nonzero": "0" not in s, "positive": s == POS, "nonneg": "-" not in s}[kind]


def corner_points(syms):
    """Points of the domain at which obligations typically fail."""
    vals = []
    syms = sorted(syms, key=str)
    for s in syms:
        n = str(s)
        if angle(s) == "zenith":
            v = (0, sp.pi / 3)
        elif angle(s) == "azimuth":
            v = (0, sp.pi, sp.pi / 3)
        elif n in DOMAIN:
            iv = DOMAIN[n]
            v = []
            if iv.lo is not None and not iv.lo_open:
                v.append(iv.lo)
            if iv.hi is not None and not iv.hi_open:
                v.append(iv.hi)
            if iv.sign() == ALL:
                v.append(0)
            for q in (sp.Rational(1, 3), sp.Rational(9, 10), -sp.Rational(9, 10)):
                if (iv.lo is None or q > iv.lo) and (iv.hi is None or q < iv.hi):
                    v.append(q)
        else:
            v = (sp.Rational(1, 3),)
        vals.append(v)
    for n, c in enumerate(itertools.product(*vals)):
        if n > 2000:
            return
        yield dict(zip(syms, map(sp.sympify, c)))


def witness(kind, e, syms, ok):
    """A point of the domain at which the obligation fails (ok: point is on the path)."""
    for pt in corner_points(syms | e.free_symbols):
        if not ok(pt):
            continue
        v = sp.nsimplify(e.xreplace(pt)) if e.has(sp.Float) else e.xreplace(pt)
        v = sp.simplify(v)
        if v in (sp.zoo, sp.nan) or v.has(sp.zoo, sp.nan):
            return pt
        if v.is_number and v.is_comparable:
            if (kind == "nonzero" and v == 0) or (kind == "positive" and v <= 0) or (
                    kind == "nonneg" and v < 0):
                return pt
    return None
