"""Analysis sessions: client programs are interpreted abstractly with the package."""
import os

import sympy as sp

from .interp import Interp, Dead, Inconclusive
from .values import *  # noqa
from .values import EMPTY, Exc
from .models import _GEN, genf, expi, expn
from . import terms

REPO = os.environ.get("RTSA_REPO", "/repo")


class _Nothing:
    def __repr__(self):
        return "<no value: every path raises>"


DEAD = _Nothing()


def S(name):
    """The symbol that stands for the input called name."""
    return sp.Symbol("v_" + name)


def A(name):
    """A generic element of a user-provided array."""
    return Num(S(name), "array", frozenset([name]), EMPTY, frozenset(["arg:" + name]))


def F(name):
    """A generic python number."""
    return Num(S(name), "float")


def C(value):
    """A python float constant."""
    return Num(sp.Rational(str(value)) if not isinstance(value, sp.Basic) else value,
               "float")


def X(expr):
    """A sympy expression."""
    return Num(sp.sympify(expr), "sym")


class Res:
    """Result of the analysis of one client function."""

    def __init__(self, i, value, raised, events, calls, unknown, pc, state):
        self.i, self.value, self.raised, self.events = i, value, raised, events
        self.calls, self.unknown, self.pc, self.state = calls, unknown, pc, state
        self.error = None

    @property
    def ok(self):
        return self.value is not DEAD

    def raises(self, *names):
        """True if every path ends with one of the given exceptions."""
        return self.value is DEAD and all(
            any(self.isexc(e, n) for n in names) for _, e in self.raised)

    def isexc(self, exc, name):
        return self.i.exc_matches(exc, Ext("builtins." + name)) is True

    def raised_text(self):
        return "; ".join(f"{exc_name(e)}({', '.join(map(str, e.args))}) at {e.where}"
                         for _, e in self.raised) or "nothing"

    def get(self, v):
        return self.state.get(v)


def exc_name(e):
    c = e.cls
    return c.path.split(".")[-1] if isinstance(c, Ext) else getattr(c, "name", str(c))


class Session:
    """The package (and a client module) imported once, analysed many times."""

    def __init__(self, client, missing=(), root=None, name="client", overlay=None):
        overlay = overlay or {}
        self.i = Interp(os.path.join(root or REPO, "src"),
                        opaque_modules=[x for x in ["rt1_model._numpydoc_docscrape"]
                                        if x not in overlay],
                        missing=missing, overlay={name: client, **overlay})
        self.raised = None
        self.fns = {}
        try:
            self.mod = self.i.import_module(name)
        except Dead:
            self.raised = self.i.collector
            self.mod = None
        self.import_events = list(self.i.events)
        self.base = self.i.st
        self.pre = None

    def run(self, fn, *args, _state=None, **kwargs):
        i = self.i
        i.st = (_state or self.base).fork(True)
        i.collector, i.events, i.unknown = [], [], []
        i.calls = {}
        i.frame, i.stack, i.yield_cb, i.depth, i.trycount = None, [], [], 0, 0
        if self.mod is None:
            return Res(i, DEAD, self.raised, [], {}, [], True, i.st)
        error = None
        try:
            v = i.call(i.getattr(self.mod, fn), list(args), kwargs)
            v = i.prune(v)
        except Dead:
            v = DEAD
        except (Inconclusive, RecursionError) as ex:
            error = f"{fn}(): {type(ex).__name__} {ex} at {i.where()}"
            v = Opq("inconclusive", error)
            i.unknown.append(("inconclusive", error))
        r = Res(i, v, list(i.collector), list(i.events), dict(i.calls),
                list(i.unknown), i.st.pc, i.st)
        r.error = error
        return r


# --------------------------------------------------------------------------------------
def solve_eq(n, assume=()):
    """Substitution that makes the condition term n zero (or None)."""
    n = sp.sympify(n)
    for s in sorted(n.free_symbols, key=str):
        # a symbol that occurs linearly
        d = n.diff(s)
        if d.is_number and d != 0:
            return {s: sp.simplify(s - n / d)}
    for s in sorted(n.free_symbols, key=str):
        if n in (sp.cos(s) - 1, 1 - sp.cos(s)):
            return {s: sp.Integer(0)}
        if n == sp.sin(s):
            return {s: sp.Integer(0)}
    if is_generic(n):
        return {n: sp.Integer(0)}
    return None


def is_generic(n):
    """An uninterpreted function of the inputs."""
    return type(n) in _GEN.values()


class Path:
    """A combination of atom decisions with the substitution it implies."""

    def __init__(self, i, path, domain=None):
        self.i, self.path = i, path
        self.sub = {}
        self.unsolved = []
        self.feasible = True
        for a, val in path:
            key = i.atoms.keys[a]
            if key[0] == "eq" and isinstance(key[1], sp.Basic):
                n = key[1].subs(self.sub)
                if val:
                    if n == 0:
                        continue
                    if n.is_number:
                        self.feasible = False
                        continue
                    s = solve_eq(n)
                    if s is None:
                        self.unsolved.append((key, val))
                    else:
                        self.sub = {k: v.subs(s) for k, v in self.sub.items()}
                        self.sub.update(s)
                elif n == 0:
                    self.feasible = False
            elif key[0] == "gt" and isinstance(key[1], sp.Basic):
                n = key[1].subs(self.sub)
                if n.is_number and n.is_comparable:
                    if bool(n > 0) != val:
                        self.feasible = False
            if domain is not None and self.feasible:
                r = domain(key, self.sub)
                if r is not None and r != val:
                    self.feasible = False
        # conditions decided later by the substitution
        for a, val in path:
            key = i.atoms.keys[a]
            if isinstance(key[1] if len(key) > 1 else None, sp.Basic):
                n = key[1].subs(self.sub)
                if n.is_number and n.is_comparable:
                    t = (n == 0) if key[0] == "eq" else bool(n > 0) if (
                        key[0] == "gt") else None
                    if t is not None and t != val:
                        self.feasible = False

        # the generic element agrees with the statements about all elements
        if self.feasible:
            known = dict(path)
            for a, val in path:
                key = i.atoms.keys[a]
                if key[0] == ("all" if val else "any") and isinstance(key[-1], BoolEl):
                    if self._element(key[-1].tree, known) is (not val):
                        self.feasible = False

    def _element(self, t, known):
        """Truth value of the generic element (None if it is not decided)."""
        while isinstance(t, Gate):
            if t.atom not in known:
                return None
            t = t.hi if known[t.atom] else t.lo
        return t if isinstance(t, bool) else None

    def text(self):
        return " and ".join(
            ("" if v else "not ") + _keytext(self.i.atoms.keys[a])
            for a, v in self.path) or "always"


def _keytext(k):
    if k[0] == "eq":
        return f"({k[1]} == 0)"
    if k[0] == "gt":
        return f"({k[1]} > 0)"
    return str(k)


def short(x, n=400):
    t = str(x)
    return t if len(t) <= n else t[:n] + " ..."
