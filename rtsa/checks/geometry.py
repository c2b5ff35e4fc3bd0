"""C10 - C13: viewing geometry and the expansion of the interaction term."""
import itertools

import sympy as sp

from ..harness import A, C, DEAD, F, Path, S, X, exc_name
from ..model import BACKENDS, N_, Config, Models, gen_coef, gen_phase
from ..models import genf
from ..report import Mismatch, Tup, Unclear, domain
from ..values import *  # noqa
from .physics import (LIN, distinct, entries, interaction_oracle, pick, warm_variants,
                      with_history)

CLIENT = '''
def apply(R, ops):
    for kind, name, arg in ops:
        if kind == "call":
            getattr(R, name)(**arg)
        elif kind == "set":
            setattr(R, name, arg)
        elif kind == "try":
            try:
                getattr(R, name)(**arg)
            except Exception:
                pass


def new(backend, V, S, opts):
    set_lambda_backend(backend)
    return RT1(V=GenV(*V), SRF=GenS(*S), **opts)


def angles(backend, V, S, opts, ops):
    R = new(backend, V, S, opts)
    apply(R, ops)
    ret = []
    for name in ("t_0", "t_ex", "p_0", "p_ex"):
        try:
            ret.append(getattr(R, name))
        except AttributeError:
            ret.append("missing")
    return ret


def one_angle(backend, V, S, opts, ops, name):
    R = new(backend, V, S, opts)
    apply(R, ops)
    return getattr(R, name)


def ops_only(backend, V, S, opts, ops):
    R = new(backend, V, S, opts)
    apply(R, ops)
    return R
'''

V = (gen_phase("pV", "x"), gen_coef("lV", "x"), 2)
SRF = (gen_phase("pS", "x"), gen_coef("lS", "x"), 2)
OPTS = dict(LIN, I0=F("I0"))
ANG = ("t_0", "t_ex", "p_0", "p_ex")


class Geo:
    """The specified geometry state."""

    def __init__(self):
        self.mono, self.ang, self.fixed = True, {}, set()

    def copy(self):
        g = Geo()
        g.mono, g.ang, g.fixed = self.mono, dict(self.ang), set(self.fixed)
        return g

    def apply(self, op):
        """True if the call is accepted."""
        kind, name, arg = op
        if name == "set_monostatic":
            self.mono, self.fixed = True, set(arg)
            self.ang.update(arg)
        elif name == "set_bistatic":
            self.mono, self.fixed = False, set(arg)
            self.ang.update(arg)
        elif name == "set_geometry":
            if self.fixed & set(arg) or (self.mono and {"t_ex", "p_ex"} & set(arg)):
                return False
            self.ang.update(arg)
        return True

    def value(self, name):
        if self.mono and name == "t_ex":
            name = "t_0"
        if self.mono and name == "p_ex":
            v = self.ang.get("p_0")
            return None if v is None else v.expr + sp.pi
        v = self.ang.get(name)
        return None if v is None else v.expr


def geo_ops():
    ops = []
    for fx in ((), ("p_0",)):
        ops.append(("set_monostatic", fx, "f"))
    for fx in ((), ("t_0",), ("t_ex", "p_ex"), ("p_0", "p_ex"), ANG):
        ops.append(("set_bistatic", fx, "f"))
    for a in (("t_0",), ("p_0",), ("t_0", "p_0"), ("t_ex", "p_ex"), ("p_ex",), ANG):
        ops.append(("set_geometry", a, "a"))
    return ops


def make_op(o, k, kind="call"):
    name, angs, typ = o
    mk = F if typ == "f" else A
    return (kind, name, {a: mk(f"{a}_{k}") for a in angs})


def c10(ctx):
    ctx.rule("R.t_0, R.t_ex, R.p_0, R.p_ex equal the specified geometry state after every "
             "sequence of geometry calls up to the length bound; unset angles raise "
             "AttributeError")
    m = Models(CLIENT)
    ops = geo_ops()
    depth = 3 if ctx.thorough else 2
    for n in range(depth + 1):
        for word in itertools.product(ops, repeat=n):
            g, seq, ok = Geo(), [], True
            for k, o in enumerate(word):
                op = make_op(o, k)
                if not g.apply(op):
                    ok = False
                    break
                seq.append(op)
            if not ok:
                continue
            r = ctx.seen(m.run("angles", "sympy", V, SRF, OPTS, tuple(seq)))
            lab = " ".join(f"{o[1]}({','.join(o[2])})" for o in seq) or "new model"

            def f():
                ctx.no_raise(r)
                v = ctx.elements(r, ctx.value(r), 4)
                for k, a in enumerate(ANG):
                    e = g.value(a)
                    if e is None:
                        for pt, l in ctx.paths_of(r, pick(v, k)):
                            if l != "missing":
                                raise Mismatch(f"R.{a} is {l!r} but was never set")
                    else:
                        for pt, l in ctx.paths_of(r, pick(v, k)):
                            if isinstance(l, str):
                                raise Mismatch(f"R.{a} is reported to be {l}")
                        ctx.same(r, pick(v, k), e, f"R.{a}")
            ctx.obligation(f"angles after {lab}", f, r)
    # the directions that are used in the evaluation
    names = ("surface", "volume")
    for fx, g in (((), "mono"), (("p_0",), "mono"), ((), "bi"), (("t_0",), "bi"),
                  (("t_ex", "p_0"), "bi")):
        for b in BACKENDS:
            cfg = distinct(backend=b, geom=g, fixed=fx, opts=dict(LIN, int_Q=False),
                           names=names)

            def judge(r, v):
                ctx.same(r, pick(v, 0), cfg.spec().surface(), "surface()")
                ctx.same(r, pick(v, 1), cfg.spec().volume(), "volume()")
            with_history(ctx, m, cfg, judge, 2)


BAD = {"text": "a", "list": [C(1)], "array": A("bad"), "expression": X(sp.Symbol("q")),
       "complex number": Num(sp.Symbol("cr", real=True) + sp.I, "float")}


def c11(ctx):
    ctx.rule("every invalid geometry request raises on all paths, valid ones never; a "
             "rejected request leaves all angles unchanged where specified")
    m = Models(CLIENT)

    def must_raise(seq, op, keep, label):
        seq = [*seq]
        g = Geo()
        for o in seq:
            g.apply(o)
        r = ctx.seen(m.run("ops_only", "sympy", V, SRF, OPTS, tuple([*seq, op])))

        def f():
            if r.value is not DEAD:
                raise Mismatch("the call is accepted")
        ctx.obligation(f"rejected: {label}", f, r)
        if keep:
            r2 = ctx.seen(m.run("angles", "sympy", V, SRF, OPTS,
                                tuple([*seq, ("try",) + op[1:]])))

            def f2():
                ctx.no_raise(r2)
                v = ctx.elements(r2, ctx.value(r2), 4)
                for k, a in enumerate(ANG):
                    e = g.value(a)
                    for pt, l in ctx.paths_of(r2, pick(v, k)):
                        if e is None and l != "missing":
                            raise Mismatch(f"R.{a} is {l!r} after the rejected call")
                    if e is not None:
                        ctx.same(r2, pick(v, k), e, f"R.{a} after the rejected call")
            ctx.obligation(f"no effect: {label}", f2, r2)

    def accepted(seq, label):
        r = ctx.seen(m.run("ops_only", "sympy", V, SRF, OPTS, tuple(seq)))
        ctx.obligation(f"accepted: {label}", lambda: (ctx.value(r), ctx.no_raise(r)), r)

    call = lambda name, **kw: ("call", name, kw)  # noqa
    full_m = call("set_geometry", t_0=A("t_0"), p_0=A("p_0"))
    full_b = call("set_geometry", **{a: A(a) for a in ANG})
    mono, bi = call("set_monostatic"), call("set_bistatic")
    for base, lab in (([], "new"), ([mono, full_m], "mono"), ([bi, full_b], "bi")):
        for extra in ({}, {"t_0": A("t_0n")}, {"p_0": A("p_0n"), "t_0": A("t_0n")}):
            for name in ("foo", "theta_0", "t_exit", "phi_0", "p_x"):
                for first in (True, False):
                    kw = {name: A("z"), **extra} if first else {**extra, name: A("z")}
                    must_raise(base, call("set_geometry", **kw), True,
                               f"set_geometry({','.join(kw)}) {lab}")
        for a in ANG:
            if lab == "bi" or a in ("t_0", "p_0"):
                must_raise(base, call("set_geometry", **{a: None}), False,
                           f"set_geometry({a}=None) {lab}")
    for base in ([], [mono], [mono, full_m], [bi, full_b, mono],
                 [bi, full_b, call("set_monostatic", p_0=F("p_0f"))]):
        for kw in ({"t_ex": A("z")}, {"p_ex": A("z")}, {"t_0": A("t_0n"), "t_ex": A("z")},
                   {"p_ex": A("z"), "t_0": A("t_0n")},
                   {a: A(f"{a}_z") for a in ANG}):
            must_raise(base, call("set_geometry", **kw), True,
                       f"set_geometry({','.join(kw)}) monostatic after "
                       f"{' '.join(o[1] for o in base)}")
    for a in ANG:
        for others in ((), tuple(b for b in ANG if b != a)):
            base = [bi, full_b, call("set_bistatic", **{
                b: F(f"{b}_f") for b in (a, *others)})]
            must_raise(base, call("set_geometry", **{a: A("z")}), not others,
                       f"set_geometry({a}) while {a}{' and others' * bool(others)} fixed")
    must_raise([mono, call("set_monostatic", p_0=F("p_f"))],
               call("set_geometry", p_0=A("z")), True, "set_geometry(p_0) fixed mono")
    for what, val in BAD.items():
        must_raise([], call("set_monostatic", p_0=val), False,
                   f"set_monostatic(p_0={what})")
        for a in ANG:
            must_raise([], call("set_bistatic", **{a: val}), False,
                       f"set_bistatic({a}={what})")
            must_raise([], call("set_bistatic", **{
                b: (val if a == b else F(f"{b}_f")) for b in ANG}), False,
                f"set_bistatic({a}={what}, others valid)")
    # accepted requests
    accepted([full_m], "all dynamic angles (mono)")
    accepted([bi, full_b], "all angles (bistatic)")
    for a in ANG:
        sw = [call("set_bistatic", **{a: F(f"{a}_f")})]
        accepted(sw + [call("set_geometry", **{b: A(b) for b in ANG if b != a})],
                 f"angles other than the fixed {a}")
        accepted(sw + [bi, full_b], f"fixed {a} is released by set_bistatic()")
        accepted(sw + [mono, full_m], f"fixed {a} is released by set_monostatic()")
    accepted([call("set_monostatic", p_0=F("p_f")), mono, full_m],
             "fixed p_0 is released by set_monostatic()")
    accepted([call("set_monostatic", p_0=F("p_f")), bi, full_b],
             "fixed p_0 is released by set_bistatic()")
    for v, w in ((0, "int"), (C(0.5), "float")):
        accepted([call("set_monostatic", p_0=v), call("set_geometry", t_0=A("t_0"))],
                 f"set_monostatic(p_0={w})")
        accepted([call("set_bistatic", **{a: v for a in ANG})], f"set_bistatic({w})")
        accepted([bi, call("set_geometry", **{a: v for a in ANG})], f"set_geometry({w})")


# -- C12 ---------------------------------------------------------------------------------
def subsets(seq):
    for n in range(len(seq) + 1):
        yield from itertools.combinations(seq, n)


def c12(ctx):
    ctx.rule("interaction() with any subset of fixed angles equals the specification at the "
             "reported angles; bistatic at t_ex=t_0, p_ex=p_0+pi equals monostatic")
    m = Models(CLIENT)
    orders = [(2, 2)] + ([(3, 2), (2, 3)] if ctx.thorough else [])
    for nv, ns in orders:
        for b in BACKENDS:
            for g, fxs in (("mono", [(), ("p_0",)]), ("bi", list(subsets(ANG)))):
                for fx in fxs:
                    cfg = distinct(backend=b, geom=g, fixed=fx, nv=nv, ns=ns, opts=LIN,
                                   names=("interaction",))
                    r = ctx.seen(m.config("m_each", cfg))
                    ctx.obligation(
                        f"interaction() [{cfg.label()}]",
                        lambda: ctx.same(r, pick(entries(ctx, r, 1), 0),
                                         interaction_oracle(cfg), "interaction()"), r)
                    r = ctx.seen(m.config("m_calc", cfg))
                    ctx.obligation(
                        f"calc() [{cfg.label()}]",
                        lambda: ctx.same(r, pick(entries(ctx, r, 4), 3),
                                         interaction_oracle(cfg), "calc()[3]"), r)
    # evaluations in another state before
    for cfg in warm_variants(ctx, opts=LIN, names=("interaction",)):
        with_history(ctx, m, cfg, lambda r, v: ctx.same(
            r, pick(v, 0), interaction_oracle(cfg), "interaction()"), 1)
    # functions that distinguish the azimuth angles (otherwise only their difference enters)
    for b in BACKENDS:
        for nv, ns, av, as_ in ((3, 1, (-1, 2, 3), None), (1, 3, None, (1, 3, 2))):
            for fx in [("t_0",), ("p_0",), ("p_ex",), ("t_0", "p_0"), ANG] if not (
                    ctx.thorough) else subsets(ANG):
                cfg = distinct(backend=b, geom="bi", fixed=fx, nv=nv, ns=ns, opts=LIN,
                               av=av, as_=as_, names=("interaction",))
                r = ctx.seen(m.config("m_each", cfg))
                ctx.obligation(
                    f"interaction() a={av or as_} [{cfg.label()}]",
                    lambda: ctx.same(r, pick(entries(ctx, r, 1), 0),
                                     interaction_oracle(cfg), "interaction()"), r)
    # exact angles (0, pi/2, ...) given as plain numbers
    for b in BACKENDS:
        for fx, vals in ((("p_0",), {"p_0": 0}), (("p_0", "p_ex"), {"p_0": 0, "p_ex": 0}),
                         (("t_0", "p_0"), {"t_0": C(0.5), "p_0": C(0)})):
            cfg = distinct(backend=b, geom="bi", fixed=fx, opts=LIN,
                           names=("interaction",))
            a = list(cfg.args())
            a[2] = vals
            r = ctx.seen(m.run("m_each", *a))
            s = cfg.spec()
            sub = {S(k): (v.expr if isinstance(v, Num) else v) for k, v in vals.items()}
            for k in ("t0", "tx", "p0", "px"):
                setattr(s, k, getattr(s, k).subs(sub))
            ctx.obligation(
                f"interaction() fixed to {vals} [{cfg.label()}]",
                lambda: ctx.same(r, pick(entries(ctx, r, 1), 0),
                                 interaction_oracle(cfg, s), "interaction()"), r)
        # bistatic evaluated in the backscattering direction
        angs = {"t_0": A("t_0"), "p_0": A("p_0"), "t_ex": A("t_0"),
                "p_ex": Num(S("p_0") + sp.pi, "array", frozenset(["p_0"]))}
        cfg = distinct(backend=b, geom="bi", opts=LIN, angles=angs,
                       names=("interaction", "surface", "volume"))
        r = ctx.seen(m.config("m_each", cfg))
        ref = distinct(backend=b, geom="mono", opts=LIN,
                       names=("interaction", "surface", "volume"))
        r2 = ctx.seen(m.config("m_each", ref))

        def f():
            v = entries(ctx, r, 3)
            ctx.same(r, pick(v, 0), interaction_oracle(ref), "interaction()")
            ctx.same(r, pick(v, 1), ref.spec().surface(), "surface()")
            ctx.same(r, pick(v, 2), ref.spec().volume(), "volume()")
            v = entries(ctx, r2, 3)
            ctx.same(r2, pick(v, 0), interaction_oracle(ref), "mono interaction()")
        ctx.obligation(f"backscatter [{cfg.label()}]", f, r)


# -- C13 ---------------------------------------------------------------------------------
def c13(ctx):
    ctx.rule("interaction() for all pairs of Legendre orders (bilinearity: one order of each "
             "function at a time) and for generic coefficients equals the series built from "
             "the exact azimuth integral")
    m = Models(CLIENT)
    full = [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3)]
    if ctx.thorough:
        full += [(4, 1), (1, 4), (3, 3), (4, 2), (2, 4), (4, 3), (4, 4)]
    for nv, ns in full:
        for b in BACKENDS:
            for g in ("mono", "bi"):
                cfg = distinct(backend=b, geom=g, nv=nv, ns=ns, opts=LIN,
                               names=("interaction",))
                r = ctx.seen(m.config("m_each", cfg))
                ctx.obligation(
                    f"generic coefficients [{cfg.label()}]",
                    lambda: ctx.same(r, pick(entries(ctx, r, 1), 0),
                                     interaction_oracle(cfg), "interaction()"), r)
    # single orders: the leading orders need the highest powers of all trigonometric terms
    tops = [(3, 3), (4, 4), (5, 3), (3, 5), (5, 5), (5, 1), (1, 5), (6, 2), (2, 6)]
    if ctx.thorough:
        tops += [(6, 4), (4, 6), (6, 6), (7, 5), (8, 2), (2, 8), (7, 7), (8, 8)]
    delta = sp.KroneckerDelta
    for nv, ns in tops:
        pairs = [(nv - 1, ns - 1), (nv - 2, ns - 1), (nv - 1, ns - 2)]
        pairs = [p for p in pairs if min(p) >= 0]
        if ctx.thorough and nv + ns <= 9:
            pairs = list(itertools.product(range(nv), range(ns)))
        for i, j in pairs:
            for b in BACKENDS:
                # the azimuth angles matter, the zenith angles are generic
                cfg = distinct(backend=b, geom="bi", fixed=(), nv=nv, ns=ns, opts=LIN,
                               names=("interaction",),
                               coefs=(delta(N_, i), delta(N_, j)))
                if not ctx.thorough and (b == "sympy") and nv + ns > 8:
                    continue
                r = ctx.seen(m.config("m_each", cfg))
                ctx.obligation(
                    f"orders {i},{j} [{cfg.label()}]",
                    lambda: ctx.same(r, pick(entries(ctx, r, 1), 0),
                                     interaction_oracle(cfg), "interaction()"), r)
    def high_pairs(ctx, nv, ns, av, as_):
        yield nv - 1, ns - 1
        if ctx.thorough or av != as_:
            yield nv - 2, ns - 1
        if ctx.thorough:
            yield nv - 2, ns - 2
            yield nv - 1, ns - 2
    # high orders: scattering angles that depend on a single direction keep the terms small
    high = [(12, 12), (3, 13), (13, 2)]
    if ctx.thorough:
        high += [(20, 20), (25, 10), (10, 25), (15, 15)]
    axes = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
    for nv, ns in high:
        for av, as_ in itertools.product(axes, axes):
            for i, j in high_pairs(ctx, nv, ns, av, as_):
                cfg = distinct(backend="symengine", geom="bi", nv=nv, ns=ns, opts=LIN,
                               av=av, as_=as_, names=("interaction",),
                               coefs=(delta(N_, i), delta(N_, j)))
                r = ctx.seen(m.config("m_each", cfg))
                ctx.obligation(
                    f"orders {i},{j} a={av},{as_} [{cfg.label()}]",
                    lambda: ctx.same(r, pick(entries(ctx, r, 1), 0),
                                     interaction_oracle(cfg), "interaction()"), r)
