"""Algebraic normal forms: exact equality of arithmetic terms.

Terms are sympy expressions that are only used as a term library.  Equality is decided by
bringing the difference of two terms to a quotient of polynomials over Q whose generators
are the maximal non-polynomial sub-terms (function applications, exponentials, roots);
two applications of the same function get the same generator iff their arguments are equal
(decided recursively).  The numerator is reduced by sin^2 = 1 - cos^2 and by g^q = base for
roots.  No numerical evaluation and no solver is involved.
"""
import sympy as sp
from sympy.polys.rings import ring
from sympy import QQ

_CACHE = {}


class TermError(Exception):
    pass


def exact(e):
    """Replace floats by the rationals they denote."""
    fl = e.atoms(sp.Float)
    if fl:
        e = e.xreplace({f: sp.Rational(str(f)) for f in fl})
    return e


_TRIG = {sp.tan: lambda x: sp.sin(x) / sp.cos(x), sp.sec: lambda x: 1 / sp.cos(x),
         sp.csc: lambda x: 1 / sp.sin(x), sp.cot: lambda x: sp.cos(x) / sp.sin(x),
         sp.sinh: lambda x: (sp.exp(x) - sp.exp(-x)) / 2,
         sp.cosh: lambda x: (sp.exp(x) + sp.exp(-x)) / 2}


class NF:
    """A normal-form context: assigns generators to atoms and compares terms."""

    def __init__(self):
        self.gens = []          # sympy symbols used as generators
        self.trig = {}          # sin-generator -> cos-generator
        self.roots = {}         # generator -> (q, base expr)
        self.atoms = {}         # atom -> replacement expr
        self.byfunc = {}        # func-name -> [(args, gen)]
        self.exps = {}          # term -> generator symbol (exp(term))
        self.busy = set()       # comparisons in progress

    # -- public ---------------------------------------------------------
    def is_zero(self, e):
        e = exact(sp.sympify(e))
        if e == 0:
            return True
        if e.has(sp.nan, sp.zoo, sp.oo, -sp.oo):
            return False
        p = self.poly(e)
        try:
            num = self._numer(p)
        except ZeroDivisionError:
            raise TermError("division by zero in term")
        return num == 0

    def equal(self, a, b):
        a, b = sp.sympify(a), sp.sympify(b)
        if a == b:
            return True
        if a.has(sp.nan) or b.has(sp.nan):
            return False
        return self.is_zero(a - b)

    # -- atoms to generators ---------------------------------------------
    def poly(self, e):
        """Rewrite to an expression rational in generators."""
        if e in self.atoms:
            return self.atoms[e]
        r = self._poly(e)
        return self.atoms.setdefault(e, r)

    def _poly(self, e):
        if e.is_Rational:
            return e
        if e.is_Symbol or e.is_NumberSymbol or e is sp.I:
            return self._gen(("sym", e))
        if e.is_Add or e.is_Mul:
            return e.func(*[self.poly(a) for a in e.args])
        if isinstance(e, sp.exp) or (e.is_Pow and e.base is sp.E):
            return self._exp(e.exp if e.is_Pow else e.args[0])
        if e.is_Pow:
            return self._pow(e.base, e.exp)
        if type(e) in _TRIG:
            return self.poly(_TRIG[type(e)](e.args[0]))
        if isinstance(e, (sp.cos, sp.sin)):
            return self._cossin(e)
        if isinstance(e, sp.log):
            return self._log(e.args[0])
        if e.is_Float:
            return sp.Rational(str(e))
        if isinstance(e, (sp.Basic,)):
            return self._atom(e)
        raise TermError(f"unsupported term {e!r}")

    def _gen(self, key):
        g = self.byfunc.get(key)
        if g is None:
            g = sp.Symbol(f"g{len(self.gens)}_")
            self.gens.append(g)
            self.byfunc[key] = g
        return g

    def _atom(self, e):
        if not e.args:
            return self._gen(("atom", e))
        if isinstance(e, sp.Piecewise):
            return self._gen(("atom", e))
        name = (e.func.__name__, len(e.args))
        known = self.byfunc.setdefault(name, [])
        for args, g in known:
            if (e, g) in self.busy:  # nested applications of the same function
                continue
            self.busy.add((e, g))
            try:
                if all(self._argeq(x, y) for x, y in zip(args, e.args)):
                    return g
            finally:
                self.busy.discard((e, g))
        if e in self.atoms:
            return self.atoms[e]
        g = sp.Symbol(f"g{len(self.gens)}_")
        self.gens.append(g)
        known.append((e.args, g))
        return g

    def _argeq(self, a, b):
        if a == b:
            return True
        if not (isinstance(a, sp.Expr) and isinstance(b, sp.Expr)):
            return False
        if a.free_symbols != b.free_symbols and not (a.free_symbols & b.free_symbols):
            # cheap exit for clearly different arguments
            if a.is_Symbol or b.is_Symbol or a.is_number or b.is_number:
                return False
        return self.is_zero(a - b)

    def _terms(self, arg):
        """Split an argument into rational coefficient * monomial quotient terms."""
        num, den = sp.fraction(sp.together(arg))
        num = sp.expand(num)
        den = sp.expand(den)
        cont = sp.Rational(1)
        try:
            c, fac = sp.factor_list(den)
            cont = sp.Rational(c)
            den = sp.Mul(*[f ** k for f, k in fac])
        except Exception:
            pass
        out = {}
        for t in sp.Add.make_args(num):
            t = t / den / cont
            c, m = t.as_coeff_Mul()
            try:
                m = sp.cancel(m) if not m.is_Symbol else m
                c2, m = m.as_coeff_Mul()
                c = c * c2
            except Exception:
                pass
            out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c != 0}

    def _exp(self, arg):
        arg = self._prep(arg)
        res = sp.Integer(1)
        for m, c in self._terms(arg).items():
            if m == 1:
                res *= self._gen(("expc",)) ** 0 * self._expgen(sp.Integer(1), c)
            elif isinstance(m, sp.log):
                res *= self.poly(m.args[0]) ** c
            else:
                res *= self._expgen(m, c)
        return res

    def _expgen(self, m, c):
        c = sp.Rational(c)
        # exp(c*m): generator exp(m/12) to allow for simple rational factors
        q = c * 12
        if q.q != 1:
            return self._gen(("exp", m, c))
        known = self.byfunc.setdefault(("exp",), [])
        for t, g in known:
            if self._argeq(t, m):
                return g ** int(q)
            if self._argeq(-t, m):
                return g ** int(-q)
        g = sp.Symbol(f"g{len(self.gens)}_")
        self.gens.append(g)
        known.append((m, g))
        return g ** int(q)

    def _prep(self, e):
        return exact(sp.sympify(e))

    def _cossin(self, e):
        arg = sp.expand(self._prep(e.args[0]))
        if arg.is_Add:
            x = sp.expand_trig(e.func(arg))
            if x != e.func(arg) and not isinstance(x, (sp.cos, sp.sin)):
                return self.poly(x)
        elif arg.is_Mul:
            c, m = arg.as_coeff_Mul()
            if c.is_Integer and abs(c) > 1 and abs(c) < 12:
                return self.poly(sp.expand_trig(e.func(arg)))
        if arg.could_extract_minus_sign():
            return self.poly(sp.cos(-arg)) if isinstance(e, sp.cos) else -self.poly(
                sp.sin(-arg))
        known = self.byfunc.setdefault(("trig",), [])
        for t, c, s in known:
            if self._argeq(t, arg):
                return c if isinstance(e, sp.cos) else s
        c = sp.Symbol(f"g{len(self.gens)}_")
        self.gens.append(c)
        s = sp.Symbol(f"g{len(self.gens)}_")
        self.gens.append(s)
        known.append((arg, c, s))
        self.trig[s] = c
        return c if isinstance(e, sp.cos) else s

    def _log(self, arg, split=True):
        arg = self._prep(arg)
        if arg.is_Rational:
            res = 0
            for part, sgn in ((arg.p, 1), (arg.q, -1)):
                if part <= 0:
                    return self._gen(("atom", sp.log(arg)))
                for p, k in sp.factorint(part).items():
                    res += sgn * k * self._gen(("logp", p))
            return res
        # factors of products and powers
        if arg.is_Mul and arg.as_coeff_Mul()[0] > 0:
            return sp.Add(*[self._log(a, split) for a in arg.args])
        if arg.is_Pow and arg.exp.is_Rational:
            return arg.exp * self._log(arg.base, split)
        if isinstance(arg, sp.exp):
            return self.poly(arg.args[0])
        if split:
            t = sp.together(arg)
            if t != arg and (t.is_Mul or t.is_Pow) and t.as_coeff_Mul()[0] > 0:
                return self._log(t, False)
            if arg.is_Add and sp.count_ops(arg) < 60:
                try:
                    f = sp.factor(arg)
                except Exception:
                    f = arg
                if (f.is_Mul or f.is_Pow) and f.as_coeff_Mul()[0] > 0:
                    return self._log(f, False)
        known = self.byfunc.setdefault(("log",), [])
        for t, g in known:
            if self._argeq(t, arg):
                return g
            # rational multiples
        for t, g in known:
            r = self._ratio(arg, t)
            if r is not None and r > 0:
                return g + self._log(r)
        g = sp.Symbol(f"g{len(self.gens)}_")
        self.gens.append(g)
        known.append((arg, g))
        return g

    def _ratio(self, a, b):
        return None

    def _pow(self, base, ex):
        if ex.is_Integer:
            return self.poly(base) ** ex
        if ex.is_Rational:
            base = self._prep(base)
            if base.is_Rational:
                known = sp.Integer(1)
                if base > 0:
                    for p, k in sp.factorint(base.p).items():
                        known *= self._root(sp.Integer(p), k * ex)
                    for p, k in sp.factorint(base.q).items():
                        known *= self._root(sp.Integer(p), -k * ex)
                    return known
                return self._root(base, ex)
            if base.is_Mul:
                return sp.Mul(*[self._pow(a, ex) for a in base.args])
            if base.is_Pow and base.exp.is_Rational:
                return self._pow(base.base, base.exp * ex)
            t = sp.together(base)
            if t != base and t.is_Mul:
                return self._pow(t, ex)
            if sp.count_ops(base) < 80:
                try:
                    f = sp.factor(base)
                    if f != base and (f.is_Mul or f.is_Pow):
                        return self._pow(f, ex)
                except Exception:
                    pass
            return self._root(base, ex)
        # symbolic exponent: split sums
        ex = sp.expand(ex)
        c, rest = ex.as_coeff_Add()
        if c != 0:
            return self._pow(base, c) * self._pow(base, rest)
        if ex.is_Add:
            return sp.Mul(*[self._pow(base, t) for t in ex.args])
        c, m = ex.as_coeff_Mul()
        if c.is_Integer and c != 1:
            return self._pow(base, m) ** c
        return self._atom(sp.Function("pow_")(base, ex))

    def _root(self, base, ex):
        ex = sp.Rational(ex)
        if ex.q == 1:
            return self.poly(base) ** ex
        key = ("root", ex.q)
        known = self.byfunc.setdefault(key, [])
        for t, g in known:
            if self._argeq(t, base):
                break
        else:
            g = sp.Symbol(f"g{len(self.gens)}_")
            self.gens.append(g)
            known.append((base, g))
            self.roots[g] = (int(ex.q), self.poly(base))
        return g ** int(ex.p)

    # -- polynomial zero test --------------------------------------------
    def _numer(self, p):
        syms = sorted(p.free_symbols, key=lambda s: int(s.name[1:-1]))
        # close under relations
        todo = list(syms)
        while todo:
            s = todo.pop()
            extra = []
            if s in self.trig:
                extra.append(self.trig[s])
            if s in self.roots:
                extra += list(self.roots[s][1].free_symbols)
            for x in extra:
                if x not in syms:
                    syms.append(x)
                    todo.append(x)
        if not syms:
            return p
        syms.sort(key=lambda s: int(s.name[1:-1]))
        R, *gs = ring([s.name for s in syms], QQ)
        gmap = dict(zip(syms, gs))
        conv = _Conv(R, gmap)
        n, d = conv.frac(p)
        idx = {s: i for i, s in enumerate(syms)}
        relations = []
        for s, c in self.trig.items():
            if s in idx:
                relations.append((idx[s], 2, 1 - gmap[c] ** 2, None))
        for g, (q, b) in self.roots.items():
            if g in idx:
                bn, bd = conv.frac(b)
                relations.append((idx[g], q, bn, conv.mulfac(bd)))
        # reduce (higher generators first: roots may contain trig-generators)
        relations.sort(key=lambda r: -r[0])
        changed = True
        it = 0
        while changed and n != 0:
            changed = False
            it += 1
            if it > 60:
                raise TermError("relation reduction does not terminate")
            for i, q, b, bd in relations:
                mx = max((m[i] for m in n), default=0)
                if mx < q:
                    continue
                changed = True
                top = mx // q
                res = R.zero
                groups = {}
                for m, cc in n.terms():
                    k = m[i] // q
                    mm = list(m)
                    mm[i] -= k * q
                    groups.setdefault(k, {})[tuple(mm)] = cc
                for k, dct in groups.items():
                    part = R.from_dict(dct)
                    if k:
                        part = part * b ** k
                    if bd is not None and top - k:
                        part = part * bd ** (top - k)
                    res = res + part
                n = res
        return n


class _Conv:
    def __init__(self, R, gmap):
        self.R, self.gmap = R, gmap
        self.cache = {}

    def mulfac(self, d):
        r = self.R.one
        for f, k in d.items():
            r = r * f ** k
        return r

    def frac(self, e):
        """(numerator, {factor: power}) of a rational expression."""
        r = self.cache.get(e)
        if r is None:
            r = self.cache[e] = self._frac(e)
        return r

    def _frac(self, e):
        R = self.R
        if e.is_Rational:
            return R(QQ(e.p, e.q)), {}
        if e.is_Symbol:
            return self.gmap[e], {}
        if e.is_Mul:
            n, d = R.one, {}
            for a in e.args:
                an, ad = self.frac(a)
                n, d = n * an, self._merge(d, ad)
                n, d = self._simp(n, d)
            return n, d
        if e.is_Add:
            parts = [self.frac(a) for a in e.args]
            lcm = {}
            for _, d in parts:
                for f, k in d.items():
                    if lcm.get(f, 0) < k:
                        lcm[f] = k
            tot = R.zero
            bydiff = {}
            for n, d in parts:
                diff = {f: k - d.get(f, 0) for f, k in lcm.items() if k - d.get(f, 0)}
                key = frozenset(diff.items())
                bydiff[key] = bydiff.get(key, R.zero) + n
            for key, n in bydiff.items():
                tot = tot + n * self.mulfac(dict(key))
            return self._simp(tot, lcm)
        if e.is_Pow and e.exp.is_Integer:
            k = int(e.exp)
            n, d = self.frac(e.base)
            if k >= 0:
                return n ** k, {f: p * k for f, p in d.items()}
            if n == 0:
                raise ZeroDivisionError
            k = -k
            num = self.mulfac({f: p * k for f, p in d.items()})
            return self._simp(*self._den(num, n, k))
        raise TermError(f"not rational: {e}")

    def _den(self, num, n, k):
        # split the monomial content off the denominator polynomial
        R = self.R
        monos = list(n.keys())
        low = tuple(min(m[i] for m in monos) for i in range(len(monos[0])))
        den = {}
        rest = n
        if any(low):
            rest = R.from_dict({tuple(a - b for a, b in zip(m, low)): c
                                for m, c in n.items()})
            for i, p in enumerate(low):
                if p:
                    den[R.gens[i]] = p * k
        if rest.is_ground:
            num = num * (QQ(1) / rest.LC) ** k
        else:
            lc = rest.LC
            num = num * (QQ(1) / lc) ** k
            rest = rest * (QQ(1) / lc)
            den[rest] = den.get(rest, 0) + k
        return num, den

    def _merge(self, a, b):
        if not b:
            return a
        r = dict(a)
        for f, k in b.items():
            r[f] = r.get(f, 0) + k
        return r

    def _simp(self, n, d):
        if not d or n == 0:
            return n, ({} if n == 0 else d)
        d = dict(d)
        R = self.R
        for f in list(d):
            if len(f) == 1:  # monomial generator
                (m,) = f.keys()
                i = next(j for j, x in enumerate(m) if x)
                low = min(mm[i] for mm in n)
                k = min(low, d[f])
                if k:
                    n = R.from_dict({mm[:i] + (mm[i] - k,) + mm[i + 1:]: c
                                     for mm, c in n.items()})
                    d[f] -= k
                    if not d[f]:
                        del d[f]
            elif len(n) >= len(f) and len(n) < 400:
                while d.get(f, 0):
                    q, r = divmod(n, f)
                    if r == 0:
                        n = q
                        d[f] -= 1
                        if not d[f]:
                            del d[f]
                    else:
                        break
        return n, d


def equal(a, b, nf=None):
    return (nf or NF()).equal(a, b)


def is_zero(e, nf=None):
    return (nf or NF()).is_zero(e)
