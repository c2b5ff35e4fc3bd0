"""Obligations, comparison of abstract values with specifications, evidence, verdicts."""
import json
import os
import sys
import time
import traceback

import sympy as sp

from . import terms
from .harness import DEAD, Path, Res, exc_name, short
from .interp import Dead, Inconclusive
from .values import *  # noqa

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Tup:
    """Hashable tuple leaf."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)


class Mismatch(Exception):
    """The analysed value is not what the specification demands."""


class Unclear(Exception):
    """The analysis cannot tell."""


def domain(key, sub):
    """Conditions that are decided by the documented ranges of angles and parameters."""
    if len(key) > 1 and isinstance(key[1], sp.Basic):
        e = key[1].subs(sub)
        if key[0] == "eq":
            if e.is_Function and isinstance(e, sp.cos) and str(e.args[0]).startswith(
                    "v_t_"):
                return False  # angles are below 90 deg
            if str(e) == "v_I0":
                return False
            if e.is_Add and all(isinstance(t, sp.cos) and str(t.args[0]).startswith(
                    "v_t_") for t in e.args):
                return False
        if key[0] == "gt":
            if isinstance(e, sp.cos) and str(e.args[0]).startswith("v_t_"):
                return True
            if str(e) == "v_I0":
                return True
    return None


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.obls = []          # (key, status, detail)
        self.funcs = {}
        self.rules = []
        self.configs = 0
        self.paths = 0
        self.terms = 0
        self.samples = []
        self.unclear = []
        self.notes = []

    # -- recording ------------------------------------------------------------------
    def rule(self, text):
        self.rules.append(text)

    def seen(self, res):
        self.configs += 1
        for q, p in res.calls.items():
            self.funcs[q] = p
        if res.error:
            self.maybe("analysis", res.error)
        return res

    def note(self, text):
        self.notes.append(text)

    def good(self, key, detail=""):
        self.obls.append((key, "holds", detail))

    def bad(self, key, detail, res=None, where=None):
        d = {"obligation": key, "detail": detail}
        if where:
            d["where"] = where
        if res is not None:
            d["analysed_functions"] = [f"{p[0]}:{p[1]} {q}"
                                       for q, p in sorted(res.calls.items())]
        self.obls.append((key, "violated", d))

    def maybe(self, key, detail):
        self.obls.append((key, "unclear", detail))

    def check(self, key, cond, detail="", res=None, where=None):
        """Record a boolean obligation."""
        if cond:
            self.good(key)
        else:
            self.bad(key, detail, res, where)
        return cond

    def obligation(self, key, f, res=None):
        """Run f; Mismatch -> violated, Unclear / analysis errors -> unclear."""
        try:
            f()
            self.good(key)
            return True
        except Mismatch as ex:
            if res is not None and res.unknown:
                self.maybe(key, f"{ex} (but {res.unknown[:3]} is not modelled)")
            else:
                self.bad(key, str(ex), res)
        except (Unclear, Inconclusive, terms.TermError) as ex:
            self.maybe(key, f"{type(ex).__name__}: {ex}")
        except RecursionError as ex:
            self.maybe(key, f"RecursionError {ex}")
        return False

    # -- comparisons ------------------------------------------------------------------
    def value(self, res):
        """The value of an analysis result (an unexpected exception is a mismatch)."""
        if res.value is DEAD:
            raise Mismatch(f"every path raises: {res.raised_text()}")
        return res.value

    def no_raise(self, res, allow=()):
        for st, e in res.raised:
            if exc_name(e) in allow:
                continue
            for p, l in leaves(st.pc):
                if l is True and Path(res.i, p, domain).feasible:
                    raise Mismatch(f"raises {exc_name(e)}({', '.join(map(str, e.args))})"
                                   f" at {e.where} if {Path(res.i, p).text()}")

    def paths_of(self, res, v):
        for p, l in leaves(v):
            d = {}
            if any(d.setdefault(a, b) != b for a, b in p):
                continue
            pt = Path(res.i, p, domain)
            if pt.feasible:
                yield pt, l

    def elements(self, res, v, n=None):
        """Gated tuple of the entries of a sequence value (list, tuple, array)."""
        def g(x):
            if isinstance(x, Ref):
                o = res.state.get(x)
                if o.kind == "list":
                    return lift(g, o.data)
            if isinstance(x, (tuple, list)):
                return lift(lambda *xs: Tup(xs), *x)
            if isinstance(x, Arr):
                return lift(lambda *xs: Tup(xs), *x.items)
            if isinstance(x, Opq):
                raise Unclear(f"cannot resolve the value {short(x)}")
            raise Mismatch(f"a sequence of {n} entries is expected, not {short(x)}")
        return lift(g, v)

    def same(self, res, v, oracle, what, nanok=False, when=None):
        """All feasible leaves of v are equal to the oracle term.

        oracle: a term or a function path -> term
        """
        nf = terms.NF()
        cnt = 0
        for pt, l in self.paths_of(res, v):
            if when is not None and not when(pt):
                continue
            cnt += 1
            exp = oracle(pt) if callable(oracle) else oracle
            self.same_leaf(res, pt, l, exp, what, nf)
        if cnt == 0:
            raise Mismatch(f"no value for {what}")
        return cnt

    def same_leaf(self, res, pt, l, exp, what, nf=None):
        self.paths += 1
        if isinstance(l, Arr):
            if len(l.items) == 1:
                l = l.items[0]
            else:
                raise Mismatch(f"{what} is an array with {len(l.items)} entries along an "
                               f"additional axis instead of one value per element")
        if isinstance(l, Gate):
            for p2, l2 in leaves(l):
                q = Path(res.i, pt.path + p2, domain)
                if q.feasible:
                    self.same_leaf(res, q, l2, exp, what, nf)
            return
        e = num_expr(l)
        if e is None:
            if isinstance(l, Opq):
                raise Unclear(f"{what}: cannot resolve {short(l)}")
            raise Mismatch(f"{what} is {l!r} instead of a number if {pt.text()}")
        if pt.sub:
            e2, x2 = e.xreplace(pt.sub), sp.sympify(exp).xreplace(pt.sub)
            und = []
            for kind, o in (l.undef if isinstance(l, Num) else ()):
                o = o.xreplace(pt.sub)
                if (kind == "nonzero" and o == 0) or (
                        kind == "positive" and o.is_nonpositive):
                    und.append((kind, o))
            if und or e2.has(sp.nan, sp.zoo):
                raise Mismatch(f"{what} is not defined (NaN) if {pt.text()}: "
                               f"{short(e)}")
        else:
            e2, x2 = e, sp.sympify(exp)
        self.terms += 1
        nf = nf or terms.NF()
        try:
            a, b = log_form(e2), log_form(x2)
            ok = (a is not None and b is not None and a[0] == b[0]
                  and nf.equal(a[1], b[1])) or nf.equal(e2, x2)
        except ZeroDivisionError:
            raise Mismatch(f"{what} divides by zero if {pt.text()}: {short(e)}")
        if not ok:
            bad = [s for s in e2.free_symbols if str(s).startswith("opq")]
            msg = (f"{what} if {pt.text()}: computed {short(e2)}  expected {short(x2)}")
            if bad or pt.unsolved:
                raise Unclear(msg)
            raise Mismatch(msg)

    # -- verdict ----------------------------------------------------------------------
    def finish(self, evdir, known):
        viol = [o for o in self.obls if o[1] == "violated"]
        uncl = [o for o in self.obls if o[1] == "unclear"]
        held = [o for o in self.obls if o[1] == "holds"]
        new, old = [], []
        for k, _, d in viol:
            (old if k in known else new).append((k, d))
        os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
        rp = os.path.join(evdir, "replay", f"{self.prop}.json")
        if new:
            with open(rp, "w") as f:
                json.dump({"property": self.prop,
                           "violations": [d for _, d in new]}, f, indent=1, default=str)
        elif os.path.exists(rp):
            os.remove(rp)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Abstract interpretation of the current source: every "
                "listed function was interpreted over terms (gated value numbering), each "
                "obligation compares the resulting terms / events with the specification.",
                "rules": self.rules,
                "client_configurations_analysed": self.configs,
                "functions_analysed": [f"{p[0]}:{p[1]} {q}"
                                       for q, p in sorted(self.funcs.items())],
                "obligations": len(self.obls),
                "discharged": len(held),
                "paths_compared": self.paths,
                "terms_compared": self.terms,
                "unclear": [[k, str(d)] for k, _, d in uncl][:20],
                "violations": [d for _, d in new][:20],
                "known_findings": [k for k, _ in old],
                "samples": [k for k, _, _ in self.obls][:40],
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 3),
        }
        with open(os.path.join(evdir, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, d in old:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for k, d in new[:10]:
            print(f"  {k}: {d['detail']}")
            if d.get("where"):
                print(f"    at {d['where']}")
            for a in d.get("analysed_functions", [])[:60]:
                print(f"    via {a}")
        if new:
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if uncl or not self.obls:
            for k, _, d in uncl[:10]:
                print(f"UNCLEAR {k}: {d}")
            print(f"no verdict for {self.prop}: {len(uncl)} obligations undecided")
            return 2
        print(f"{self.prop}: {len(held)} obligations hold; "
              f"{len(self.funcs)} functions, {self.configs} configurations, "
              f"{self.paths} paths, {self.terms} terms ({ev['wall_s']} s)")
        return 0


def log_form(e):
    """(k, a) if e = k*log(a) with a number k."""
    k, r = sp.Integer(1), e
    if e.is_Mul:
        k = sp.Mul(*[a for a in e.args if a.is_number])
        r = sp.Mul(*[a for a in e.args if not a.is_number])
    if isinstance(r, sp.log):
        return k, r.args[0]
    return None


def num_expr(l):
    if isinstance(l, Num):
        return l.expr
    if isinstance(l, bool):
        return sp.Integer(int(l))
    if isinstance(l, int):
        return sp.Integer(l)
    return None
