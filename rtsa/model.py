"""Generic models (client configurations) and the first-order solution as specification."""
import itertools
from functools import lru_cache
from math import comb

import sympy as sp

from .client import CLIENT
from .harness import A, C, F, S, X, Session
from .models import expi, expn, genf
from .values import *  # noqa

TH0, THX, PH0, PHX, N_ = sp.symbols("theta_0 theta_ex phi_0 phi_ex n")
BACKENDS = ("symengine", "sympy")
ANGS = ("t_0", "t_ex", "p_0", "p_ex")


def gen_phase(name, *pars):
    return genf(name)(TH0, THX, PH0, PHX, *map(sp.Symbol, pars))


def gen_coef(name, *pars):
    return genf(name)(N_, *map(sp.Symbol, pars))


class Models:
    """Analysis of client functions that build a model from a configuration."""

    def __init__(self, client="", missing=(), nonneg=True, overlay=None):
        self.s = Session(CLIENT + client, missing, overlay=overlay)
        self.i = self.s.i
        if nonneg:
            self.i.nonneg |= {S("tau"), S("omega"), S("bsf"), S("N"), S("I0")}

    def py(self, v):
        """Convert harness values (dict/list/str/Num) to abstract values."""
        i = self.i
        if isinstance(v, dict):
            return i.new_dict([(k, self.py(x)) for k, x in v.items()])
        if isinstance(v, list):
            return i.new_list([self.py(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.py(x) for x in v)
        if isinstance(v, float):
            return C(v)
        if isinstance(v, sp.Basic):
            return X(v)
        return v

    def run(self, fn, *args, _state=None, **kw):
        self.i.st = (_state or self.s.base).fork(True)
        st = self.i.st
        args = [self.py(a) for a in args]
        kw = {k: self.py(a) for k, a in kw.items()}
        before = dict(st.heap)
        r = self.s.run(fn, *args, _state=st, **kw)
        r.args, r.before = [*args, *kw.values()], before
        return r

    def reach(self, heap, values):
        """ids of the lists / dicts / sets reachable from the values."""
        ids, todo = set(), list(values)
        while todo:
            v = todo.pop()
            for _, x in leaves(v):
                if isinstance(x, (tuple, list)):
                    todo.extend(x)
                elif isinstance(x, DictC):
                    for q in x.d.values():
                        todo.extend(q)
                elif isinstance(x, Arr):
                    todo.extend(x.items)
                elif isinstance(x, Ref) and x.id not in ids and x.id in heap:
                    o = heap[x.id]
                    if o.kind in ("list", "dict", "set"):
                        ids.add(x.id)
                        todo.append(o.data)
        return ids

    def config(self, fn, cfg):
        return self.run(fn, *cfg.args())


class Config:
    """One client configuration; every field has a generic default."""

    def __init__(self, backend="symengine", geom="mono", fixed=(), params=None,
                 nv=2, ns=2, av=None, as_=None, opts=None, names=(), attrs=None,
                 vpars=("x",), spars=("x",), phases=None, coefs=None, angles=None):
        self.backend, self.geom = backend, geom
        self.fixed = tuple(fixed)
        self.nv, self.ns, self.av, self.as_ = nv, ns, av, as_
        self.opts = dict(dB=False, sig0=False, I0=F("I0"))
        self.opts.update(opts or {})
        self.names, self.attrs = tuple(names), dict(attrs or {})
        if params is None:
            params = dict(tau=A("tau"), omega=A("omega"), NormBRDF=A("N"), bsf=A("bsf"),
                          x=A("x"))
        self.params = params
        self.phases = phases or (gen_phase("pV", *vpars), gen_phase("pS", *spars))
        self.coefs = coefs or (gen_coef("lV", *vpars), gen_coef("lS", *spars))
        self.angles = angles

    def label(self):
        o = " ".join(f"{k}={v}" for k, v in self.opts.items() if isinstance(v, bool))
        fx = f" fixed={','.join(self.fixed)}" if self.fixed else ""
        return f"{self.backend} {self.geom}{fx} N_V={self.nv} N_S={self.ns} {o}"

    def args(self):
        dyn = [a for a in ("t_0", "p_0") + (("t_ex", "p_ex") if self.geom == "bi" else ())
               if a not in self.fixed]
        angles = self.angles or {a: A(a) for a in dyn}
        v = (self.phases[0], self.coefs[0], self.nv) + ((self.av,) if self.av else ())
        s = (self.phases[1], self.coefs[1], self.ns) + ((self.as_,) if self.as_ else ())
        return (self.backend, self.geom, {a: F(a) for a in self.fixed}, angles,
                self.params, v, s, self.opts, self.names, self.attrs)

    # -- specification ----------------------------------------------------------------
    def spec(self):
        return Spec(self)


class Spec:
    """First-order solution for the symbols of the inputs."""

    def __init__(self, cfg, **over):
        self.cfg = cfg
        self.t0, self.p0 = S("t_0"), S("p_0")
        if cfg.geom == "bi":
            self.tx, self.px = S("t_ex"), S("p_ex")
        else:
            self.tx, self.px = self.t0, self.p0 + sp.pi
        self.tau, self.omega, self.N, self.bsf, self.I0 = map(
            S, ("tau", "omega", "N", "bsf", "I0"))
        self.par = {}
        for k, v in over.items():
            setattr(self, k, v)

    def sub(self, e, **extra):
        """Replace the symbols of an expression by the input symbols."""
        e = sp.sympify(e)
        m = {TH0: self.t0, THX: self.tx, PH0: self.p0, PHX: self.px}
        for s in e.free_symbols:
            if s not in m and s != N_:
                m[s] = self.par.get(str(s), S(str(s)))
        return e.subs(m, simultaneous=True)

    @property
    def P(self):
        return self.sub(self.cfg.phases[0])

    @property
    def B(self):
        return self.sub(self.cfg.phases[1])

    def surface(self):
        m0, mx = sp.cos(self.t0), sp.cos(self.tx)
        return self.N * self.I0 * m0 * self.B * (
            (1 - self.bsf) * sp.exp(-self.tau / m0 - self.tau / mx) + self.bsf)

    def volume(self):
        m0, mx = sp.cos(self.t0), sp.cos(self.tx)
        return (1 - self.bsf) * self.I0 * self.omega * m0 / (m0 + mx) * (
            1 - sp.exp(-self.tau / m0 - self.tau / mx)) * self.P

    def S2(self, n, mu, nadir=False):
        t = self.tau
        if nadir:
            h = sp.exp(-t) * (sp.EulerGamma + sp.log(t)) - expi(-t)
        else:
            h = (sp.exp(-t / mu) * sp.log(mu / (1 - mu)) - expi(-t)
                 + sp.exp(-t / mu) * expi(t / mu - t))
        return h + sum(mu ** -k * (expn(k + 1, t) - sp.exp(-t / mu) / k)
                       for k in range(1, n + 2))

    def fint(self, exchange=False, nadir=False, fn=None):
        t0, tx, p0, px = self.t0, self.tx, self.p0, self.px
        if exchange:
            t0, tx, p0, px = tx, t0, px, p0
        mu = sp.cos(t0)
        fn = fn or self.fn(t0, tx, p0, px)
        return sum(f * mu ** (n + 1) * self.S2(n, mu, nadir) for n, f in enumerate(fn))

    def fn(self, t0, tx, p0, px):
        """Azimuth integral of the product of the two expansions as series in cos(ts)."""
        cfg = self.cfg
        av = [sp.sympify(getattr(a, "expr", a)) for a in (cfg.av or [-1, 1, 1])]
        as_ = [sp.sympify(getattr(a, "expr", a)) for a in (cfg.as_ or [1, 1, 1])]
        av, as_ = [self.sub(a) for a in av], [self.sub(a) for a in as_]
        lv = [self.sub(cfg.coefs[0].subs(N_, k)) for k in range(cfg.nv)]
        ls = [self.sub(cfg.coefs[1].subs(N_, k)) for k in range(cfg.ns)]
        q = sp.pi - t0
        vol = (av[0] * sp.cos(q), av[1] * sp.sin(q) * sp.cos(p0),
               av[2] * sp.sin(q) * sp.sin(p0))
        srf = (as_[0] * sp.cos(tx), as_[1] * sp.sin(tx) * sp.cos(px),
               as_[2] * sp.sin(tx) * sp.sin(px))
        syms = sp.symbols("A_ B_ D_ a_ b_ d_")
        rep = dict(zip(syms, [sp.sympify(e) for e in vol + srf]))
        lsy = sp.symbols(f"lv_:{cfg.nv}") + sp.symbols(f"ls_:{cfg.ns}")
        rep.update(zip(lsy, lv + ls))
        use = (tuple(k for k, e in enumerate(lv) if e != 0),
               tuple(k for k, e in enumerate(ls) if e != 0))
        zero = tuple(k for k, q in enumerate(syms) if rep[q] == 0)
        return [c.xreplace(rep) for c in azimuth(cfg.nv, cfg.ns, *use, zero)]

    def interaction(self, nadir0=False, nadirx=False):
        m0, mx = sp.cos(self.t0), sp.cos(self.tx)
        return self.N * (1 - self.bsf) * self.I0 * m0 * self.omega * (
            sp.exp(-self.tau / mx) * self.fint(False, nadir0)
            + sp.exp(-self.tau / m0) * self.fint(True, nadirx))


@lru_cache()
def azimuth(nv, ns, usev=None, uses=None, zero=()):
    """Coefficients of c^n (c = cos(theta_s)) of 2*pi * mean over phi_s of the product of
    sum_n lv_n P_n(A c + s (B C + D S)) and sum_m ls_m P_m(a c + s (b C + d S))."""
    from sympy import QQ, ring
    names = "c s C S A B D a b d".split()
    R, *g = ring(names + [f"lv{i}" for i in range(nv)] + [f"ls{i}" for i in range(ns)],
                 QQ)
    c, s, Cc, Ss = g[:4]
    Av, Bv, Dv, a, b, d = [R(0) if k in zero else q for k, q in enumerate(g[4:10])]
    lv, ls = list(g[10:10 + nv]), list(g[10 + nv:])
    for lst, use in ((lv, usev), (ls, uses)):
        for k in range(len(lst)):
            if use is not None and k not in use:
                lst[k] = R(0)
    x = Av * c + s * (Bv * Cc + Dv * Ss)
    y = a * c + s * (b * Cc + d * Ss)

    def leg(coefs, z):
        p0, p1 = R(1), z
        tot = coefs[0] * p0
        for k in range(1, len(coefs)):
            tot = tot + coefs[k] * p1
            p0, p1 = p1, (p1 * z * QQ(2 * k + 1) - p0 * QQ(k)) * QQ(1, k + 1)
        return tot
    prod = leg(lv, x) * leg(ls, y)
    out = {}
    for m, cf in prod.terms():
        ci, si, i, j = m[:4]
        if i % 2 or j % 2:
            continue
        assert si == i + j
        mean = QQ(dfact(i - 1) * dfact(j - 1), dfact(i + j))
        for k in range(si // 2 + 1):  # (1 - c^2)^(si/2)
            key = (ci + 2 * k,) + tuple(m[4:])
            out[key] = out.get(key, 0) + cf * mean * comb(si // 2, k) * (-1) ** k
    syms = list(sp.symbols("A_ B_ D_ a_ b_ d_")) + list(sp.symbols(f"lv_:{nv}")) + list(
        sp.symbols(f"ls_:{ns}"))
    res = [sp.Integer(0)] * (nv + ns - 1)
    terms = [[] for _ in res]
    for key, cf in out.items():
        if cf == 0:
            continue
        terms[key[0]].append(2 * sp.pi * sp.Rational(int(cf.numerator),
                                                     int(cf.denominator)) * sp.Mul(
            *[q ** e for q, e in zip(syms, key[1:]) if e]))
    return [sp.Add(*t) for t in terms]


def dfact(n):
    r = 1
    while n > 1:
        r *= n
        n -= 2
    return r
