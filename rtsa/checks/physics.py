"""C01 - C08: the first-order solution, its units and its derivatives."""
import itertools

import sympy as sp

from ..harness import A, C, F, S, X, DEAD, Path
from ..model import BACKENDS, PH0, PHX, TH0, THX, Config, Models, Spec, gen_coef, gen_phase
from ..models import genf
from ..report import Mismatch, Tup, Unclear, domain
from ..values import *  # noqa

LIN = dict(dB=False, sig0=False)
UNITS = [dict(sig0=s, dB=d) for s in (False, True) for d in (False, True)]


def pick(v, k):
    return lift(lambda t: t.items[k], v)


def tau0(pt):
    return sp.sympify(S("tau")).subs(pt.sub) == 0


def tau_pos(pt):
    return not tau0(pt)


def entries(ctx, res, n):
    ctx.no_raise(res)
    v = ctx.elements(res, ctx.value(res), n)
    for p, l in leaves(v):
        if Path(res.i, p, domain).feasible and len(l.items) != n:
            raise Mismatch(f"{len(l.items)} entries are returned instead of {n}")
    return v


def distinct(**kw):
    """Config with separate parameters of the volume and the surface function."""
    # (in an order that differs from all natural orders of the names)
    par = dict(y=A("y"), tau=A("tau"), x=A("x"), omega=A("omega"), NormBRDF=A("N"),
               bsf=A("bsf"))
    par.update(kw.pop("params", {}))
    par = {k: v for k, v in par.items() if v is not None}
    return Config(vpars=("x",), spars=("y",), params=par, **kw)


def variants(**kw):
    for b in BACKENDS:
        for g in ("mono", "bi"):
            yield distinct(backend=b, geom=g, **kw)


def old(v):
    """Another value of the same kind."""
    if isinstance(v, Num):
        return v.with_(expr=sp.Symbol(f"v_old_{next(_OLD)}", real=True))
    return C(next(_OLD)) if not isinstance(v, str) else "2*x"


_OLD = itertools.count(7)


def histories(cfg, jac=False):
    """Sequences of public calls (with evaluations in another state) that end in the
    state of the configuration."""
    backend, geom, fixed, angles, params, v, s, opts, names, attrs = cfg.args()
    call = lambda name, **kw: ("call", name, kw)  # noqa
    switch = call("set_bistatic" if geom == "bi" else "set_monostatic", **fixed)
    other = "set_bistatic" if geom != "bi" else "set_monostatic"
    final = call("set_geometry", **angles)
    upd = call("update_params", **params)
    setup = [("set", k, a) for k, a in attrs.items()]
    warm = ([call("jacobian", param_list=list(names))] if jac
            else [call(n) for n in names])
    yield "other parameters", [
        *setup, switch, final, call("update_params", **{k: old(x) for k, x in
                                                        params.items()}), *warm, upd]
    for k, x in params.items():
        yield f"other {k}", [*setup, switch, final, call(
            "update_params", **dict(params, **{k: old(x)})), *warm,
            call("update_params", **{k: x})]
    for k, x in angles.items():
        yield f"other {k}", [*setup, switch, upd, call(
            "set_geometry", **dict(angles, **{k: old(x)})), *warm,
            call("set_geometry", **{k: x})]
    allang = ("t_0", "p_0") + (("t_ex", "p_ex") if geom != "bi" else ())
    base = [*setup, upd, call(other)]
    last = [final] if angles else []
    yield "other geometry mode", [
        *base, call("set_geometry", **{a: old(A(a)) for a in allang}), *warm, switch, *last]
    rest = {k: a for k, a in angles.items() if k not in allang}
    if {"t_0", "p_0"} <= set(angles):
        yield "other geometry mode, same incident direction", [
            *base, call("set_geometry", **{a: angles.get(a) or old(A(a))
                                           for a in allang}),
            *warm, switch, *([call("set_geometry", **rest)] if rest else [])]
    own = ("t_0", "p_0") + (("t_ex", "p_ex") if geom == "bi" else ())
    yield "other dynamic angles", [
        *setup, upd, call(switch[1]), call("set_geometry", **{a: old(A(a)) for a in own}),
        *warm, switch, *last]
    for k in ("tau", "omega", "NormBRDF", "bsf"):
        if k in attrs or (k in params and "x" in params):
            yield f"other definition of {k}", [
                *setup, ("set", k, old(attrs.get(k, ""))), switch, final, upd, *warm,
                ("set", k, attrs.get(k, k))]


def with_history(ctx, m, cfg, judge, n, jac=False, what=""):
    """judge(res, values) for all histories that end in the configuration."""
    a = cfg.args()
    for lab, steps in histories(cfg, jac):
        r = ctx.seen(m.run("m_steps", a[0], a[5], a[6], a[7], tuple(steps), a[8], jac))
        ctx.obligation(f"{what or 'result'} after: {lab} [{cfg.label()}]",
                       lambda: judge(r, entries(ctx, r, n)), r)


def warm_variants(ctx, **kw):
    for b, g in (("symengine", "bi"), ("sympy", "mono")) if not ctx.thorough else (
            itertools.product(BACKENDS, ("mono", "bi"))):
        yield distinct(backend=b, geom=g, **kw)


def same_pair(ctx, r1, v1, r2, v2, what, when=None, conv=lambda e: e):
    """Two analysed values are equal on all common paths."""
    v = lift(lambda a, b: Tup((a, b)), v1, v2)
    n = 0
    for pt, l in ctx.paths_of(r1, v):
        if when is not None and not when(pt):
            continue
        n += 1
        b = l.items[1]
        if isinstance(b, Arr) and len(b.items) == 1:
            b = b.items[0]
        if not isinstance(b, (Num, int, bool)):
            raise Mismatch(f"{what}: {b!r} is not a number")
        ctx.same_leaf(r1, pt, l.items[0], conv(getattr(b, "expr", b)), what)
    if n == 0:
        raise Mismatch(f"no comparable path for {what}")


# -- C01 ---------------------------------------------------------------------------------
def c01(ctx):
    ctx.rule("calc() = [total, surface, volume(, interaction)]; in linear units the total is "
             "the sum of the entries; entries = surface(), volume(), interaction()")
    m = Models()
    for unit in UNITS:
        for iq in (True, False):
            for how in ("array", "number"):
                for cfg in variants(opts=dict(unit, int_Q=iq)):
                    if how == "number":
                        cfg.attrs = {"tau": F("tau")}
                        cfg.params = {k: v for k, v in cfg.params.items() if k != "tau"}
                    n = 4 if iq else 3
                    r = ctx.seen(m.config("m_calc", cfg))
                    names = ["surface", "volume"] + ["interaction"] * iq
                    cfg2 = cfg
                    cfg2.names = names
                    r2 = ctx.seen(m.config("m_each", cfg2))
                    lab = f"{cfg.label()} tau:{how}"

                    def f():
                        v = entries(ctx, r, n)
                        w = ctx.elements(r2, ctx.value(r2), n - 1)
                        # dB values are only compared where the contributions are positive
                        when = tau_pos if unit["dB"] else None
                        for k, name in enumerate(names):
                            same_pair(ctx, r, pick(v, k + 1), r2, pick(w, k),
                                      f"{name} of calc()", when)
                        if not unit["dB"]:
                            tot = lift(lambda t: Num(sum(
                                (q.expr if isinstance(q, Num) else sp.Integer(q))
                                for q in t.items[1:])), flat(v))
                            same_pair(ctx, r, pick(flat(v), 0), r, tot, "total of calc()")
                    ctx.obligation(f"calc entries [{lab}]", f, r)
    # evaluations in another state before
    for cfg in warm_variants(ctx, opts=LIN):
        cfg.names = ("calc", "surface", "volume", "interaction")

        def judge(r, v):
            c = ctx.elements(r, pick(v, 0), 4)
            for k, name in enumerate(cfg.names[1:]):
                same_pair(ctx, r, pick(c, k + 1), r, pick(v, k + 1), f"{name} of calc()")
            tot = lift(lambda t: Num(sum((q.expr if isinstance(q, Num) else sp.Integer(q))
                                         for q in t.items[1:])), flat(c))
            same_pair(ctx, r, pick(flat(c), 0), r, tot, "total of calc()")
        with_history(ctx, m, cfg, judge, 4, what="calc entries")


def flat(v):
    """Gated tuple of numbers (gates inside of the entries are moved outside)."""
    def one(x):
        if isinstance(x, Arr) and len(x.items) == 1:
            x = x.items[0]
        return x if not isinstance(x, Gate) else lift(one, x)

    def g(t):
        return lift(lambda *xs: Tup(xs), *[lift(one, x) for x in t.items])
    return lift(g, v)


# -- C02 / C03 ---------------------------------------------------------------------------
def _contribution(ctx, k, name):
    m = Models()
    for iq in (True, False):
        for cfg in variants(opts=dict(LIN, int_Q=iq)):
            cfg.names = (name,)
            r, r2 = ctx.seen(m.config("m_calc", cfg)), ctx.seen(m.config("m_each", cfg))
            o = getattr(cfg.spec(), name)()

            def f():
                ctx.same(r, pick(entries(ctx, r, 4 if iq else 3), k), o,
                         f"calc()[{k}] ({name})")

            def f2():
                ctx.same(r2, pick(entries(ctx, r2, 1), 0), o, f"{name}()")
            ctx.obligation(f"{name} in calc [{cfg.label()}]", f, r)
            ctx.obligation(f"{name}() [{cfg.label()}]", f2, r2)
    # parameters given as numbers, I0 as array, fixed angles
    for b in BACKENDS:
        for key, sym in (("tau", "tau"), ("omega", "omega"), ("NormBRDF", "N"),
                         ("bsf", "bsf")):
            for g, fx in (("mono", ()), ("mono", ("p_0",)), ("bi", ("t_0", "p_ex")),
                          ("bi", ("t_0", "t_ex", "p_0", "p_ex"))):
                cfg = distinct(backend=b, geom=g, fixed=fx, opts=dict(LIN, I0=A("I0")),
                               params={key: None}, attrs={key: F(sym)}, names=(name,))
                r = ctx.seen(m.config("m_each", cfg))
                ctx.obligation(
                    f"{name}() with {key} as number [{cfg.label()}]",
                    lambda: ctx.same(r, pick(entries(ctx, r, 1), 0),
                                     getattr(cfg.spec(), name)(), f"{name}()"), r)
    # evaluations in another state before
    for cfg in warm_variants(ctx, opts=dict(LIN, int_Q=False), names=(name,)):
        with_history(ctx, m, cfg, lambda r, v: ctx.same(
            r, pick(v, 0), getattr(cfg.spec(), name)(), f"{name}()"), 1)


def c02(ctx):
    ctx.rule("surface() and calc()[1] equal the first-order surface term for generic BRDF")
    _contribution(ctx, 1, "surface")


def c03(ctx):
    ctx.rule("volume() and calc()[2] equal the first-order volume term for generic p")
    _contribution(ctx, 2, "volume")


# -- C04 ---------------------------------------------------------------------------------
def interaction_oracle(cfg, sp_=None):
    s = sp_ or cfg.spec()
    memo = {}

    def o(pt):
        if tau0(pt):
            return sp.Integer(0)
        k = (s.t0.subs(pt.sub) == 0, s.tx.subs(pt.sub) == 0)
        if k not in memo:
            memo[k] = s.interaction(*k)
        return memo[k]
    return o


def given_oracle(cfg, fns):
    """Interaction term for the given fn-coefficients."""
    s = cfg.spec()

    def fn(t0, tx, p0, px):
        rep = dict(zip((TH0, THX, PH0, PHX), (t0, tx, p0, px)))
        return [f.xreplace(rep) for f in fns]
    s.fn = fn
    return interaction_oracle(cfg, s)


def c04(ctx):
    ctx.rule("interaction() and calc()[3] equal the first-order interaction term for generic "
             "Legendre coefficients and generic scattering angles")
    m = Models()
    orders = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)]
    if ctx.thorough:
        orders += [(2, 3), (3, 3), (1, 4), (4, 3), (4, 4)]
    for nv, ns in orders:
        for cfg in variants(nv=nv, ns=ns, opts=LIN):
            cfg.names = ("interaction",)
            r = ctx.seen(m.config("m_each", cfg))
            ctx.obligation(
                f"interaction() [{cfg.label()}]",
                lambda: ctx.same(r, pick(entries(ctx, r, 1), 0), interaction_oracle(cfg),
                                 "interaction()"), r)
            if (nv, ns) == (2, 2):
                r2 = ctx.seen(m.config("m_calc", cfg))
                ctx.obligation(
                    f"interaction in calc() [{cfg.label()}]",
                    lambda: ctx.same(r2, pick(entries(ctx, r2, 4), 3),
                                     interaction_oracle(cfg), "calc()[3]"), r2)
    # generic scattering angles (a given as parameters), numbers for tau etc.
    par = {k: A(k) for k in ("a0", "a1", "a2", "b0", "b1", "b2")}
    for cfg in variants(nv=2, ns=2, av=("a0", "a1", "a2"), as_=("b0", "b1", "b2"),
                        opts=LIN, params=par):
        cfg.names = ("interaction",)
        r = ctx.seen(m.config("m_each", cfg))
        ctx.obligation(
            f"interaction() with generic a [{cfg.label()}]",
            lambda: ctx.same(r, pick(entries(ctx, r, 1), 0), interaction_oracle(cfg),
                             "interaction()"), r)
    for b in BACKENDS:
        for key, sym in (("tau", "tau"), ("omega", "omega"), ("NormBRDF", "N"),
                         ("bsf", "bsf")):
            cfg = distinct(backend=b, geom="bi", opts=dict(LIN, I0=A("I0")),
                           params={key: None}, attrs={key: F(sym)},
                           names=("interaction",))
            r = ctx.seen(m.config("m_each", cfg))
            ctx.obligation(
                f"interaction() with {key} as number [{cfg.label()}]",
                lambda: ctx.same(r, pick(entries(ctx, r, 1), 0), interaction_oracle(cfg),
                                 "interaction()"), r)
    # many orders: the coefficients are provided by the user (fn_input / fnevals_input)
    for nv, ns, g, how in [(10, 11, "mono", "fn"), (10, 11, "bi", "fn"),
                           (3, 9, "mono", "fnevals"), (9, 3, "bi", "fnevals")]:
        fns = [genf(f"f{n}")(TH0, THX, PH0, PHX) for n in range(nv + ns - 1)]
        for b in BACKENDS:
            cfg = distinct(backend=b, geom=g, nv=nv, ns=ns, names=("interaction",),
                           opts=dict(LIN, fn_input=fns) if how == "fn" else LIN)
            if how == "fn":
                r = ctx.seen(m.config("m_each", cfg))
            else:
                r = ctx.seen(m.run("m_fnevals", *cfg.args(), fns))
            ctx.obligation(
                f"interaction() with {how}_input [{cfg.label()}]",
                lambda: ctx.same(r, pick(entries(ctx, r, 1), 0), given_oracle(cfg, fns),
                                 "interaction()"), r)


# -- C05 ---------------------------------------------------------------------------------
def unit_conv(cfg, sig0, dB):
    s = cfg.spec()

    def conv(e):
        if sig0:
            e = e * 4 * sp.pi * sp.cos(s.t0) / s.I0
        if dB:
            e = 10 * sp.log(e) / sp.log(10)
        return e
    return conv


def c05(ctx):
    ctx.rule("public results for sig0/dB equal the converted linear intensity of the same "
             "code; intensities are proportional to I0")
    m = Models()
    for iq in (True, False):
        names = ("surface", "volume") + (("interaction",) if iq else ())
        for b in BACKENDS:
            for g in ("mono", "bi"):
                ref = None
                for unit in UNITS:
                    cfg = distinct(backend=b, geom=g, opts=dict(unit, int_Q=iq),
                                   names=names)
                    r = ctx.seen(m.config("m_calc", cfg))
                    r2 = ctx.seen(m.config("m_each", cfg))
                    if ref is None:
                        ref = (r, r2)
                    when = tau_pos if unit["dB"] else None
                    conv = unit_conv(cfg, **unit)

                    def f():
                        n = len(names) + 1
                        v, w = entries(ctx, r, n), entries(ctx, ref[0], n)
                        for k in range(n):
                            same_pair(ctx, r, pick(v, k), ref[0], pick(w, k),
                                      f"calc()[{k}]", when, conv)

                    def f2():
                        n = len(names)
                        v, w = entries(ctx, r2, n), entries(ctx, ref[1], n)
                        for k in range(n):
                            same_pair(ctx, r2, pick(v, k), ref[1], pick(w, k),
                                      f"{names[k]}()", when, conv)

                    def f3():
                        n = len(names) + 1
                        v = entries(ctx, r, n)
                        for k in range(n):
                            for pt, l in ctx.paths_of(r, pick(v, k)):
                                e = getattr(l, "expr", sp.sympify(l if isinstance(
                                    l, int) else 0))
                                c = sp.Symbol("v_c", positive=True)
                                fac = c if not unit["sig0"] else 1
                                if unit["dB"]:
                                    if tau0(pt):
                                        continue
                                    x = e + 10 * sp.log(fac) / sp.log(10)
                                else:
                                    x = e * fac
                                ctx.same_leaf(r, pt, Num(e.subs(S("I0"), c * S("I0"))), x,
                                              f"calc()[{k}] for a multiple of I0")
                    ctx.obligation(f"unit of calc [{cfg.label()}]", f, r)
                    ctx.obligation(f"unit of the methods [{cfg.label()}]", f2, r2)
                    ctx.obligation(f"I0 [{cfg.label()}]", f3, r)
    # units that are changed after an evaluation
    I0 = F("I0")
    for b, g in (("symengine", "bi"), ("sympy", "mono")):
        for unit in UNITS:
            for how in ("dB", "sig0", "both", "I0"):
                cfg = distinct(backend=b, geom=g, opts=dict(unit, int_Q=False),
                               names=("surface", "volume"))
                cfg.names = ("surface", "volume")
                a = cfg.args()
                o0 = {k: (not v if how in (k, "both") else v) for k, v in unit.items()}
                o0.update(int_Q=False, I0=old(I0) if how == "I0" else I0)
                steps = [("call", "set_bistatic" if g == "bi" else "set_monostatic", {}),
                         ("call", "set_geometry", a[3]), ("call", "update_params", a[4]),
                         ("call", "calc", {}), ("call", "surface", {}),
                         ("call", "jacobian", {}), *[("set", k, v) for k, v in unit.items()],
                         ("set", "I0", I0)]
                r = ctx.seen(m.run("m_steps", a[0], a[5], a[6], o0, tuple(steps),
                                   ("calc", "surface", "volume"), False))
                conv = unit_conv(cfg, **unit)
                s = cfg.spec()
                sv = (s.surface(), s.volume())

                def f():
                    v = entries(ctx, r, 3)
                    c = ctx.elements(r, pick(v, 0), 3)
                    for k, e in enumerate((sum(sv), *sv)):
                        ctx.same(r, pick(c, k), conv(e), f"calc()[{k}]")
                    for k, e in enumerate(sv):
                        ctx.same(r, pick(v, k + 1), conv(e), ("surface()", "volume()")[k])
                ctx.obligation(f"{how} changed after an evaluation [{cfg.label()}]", f, r)


# -- C06 ---------------------------------------------------------------------------------
def no_ambiguous(ctx, res):
    for kind, data, pc, where, stack in res.events:
        if kind != "ambiguous-truth":
            continue
        for p, l in leaves(pc):
            if l is True and Path(res.i, p, domain).feasible:
                raise Mismatch("the truth value of an array with more than one element is "
                               f"used at {where}: {data[0]!r}")


def c06(ctx):
    ctx.rule("on every path with tau = 0: volume = interaction = 0 and total = surface = bare "
             "soil, without undefined terms; no branch on a whole array")
    m = Models()
    zero = {"attr 0": ({}, {"tau": 0}), "attr 0.0": ({}, {"tau": C(0)}),
            "attr number": ({}, {"tau": F("tau")}), "param 0": ({"tau": 0}, {}),
            "param number": ({"tau": F("tau")}, {}), "param array": ({"tau": A("tau")}, {}),
            "function": ({"w": A("tau"), "u": A("u")}, {"tau": "w*u"})}
    for how, (par, att) in zero.items():
        for iq in (True, False):
            for cfg in variants(opts=dict(LIN, int_Q=iq), params=dict({"tau": None}, **par),
                                attrs=att):
                names = ("surface", "volume") + (("interaction",) if iq else ())
                cfg.names = names
                r = ctx.seen(m.config("m_calc", cfg))
                r2 = ctx.seen(m.config("m_each", cfg))
                s = cfg.spec()
                bare = s.N * s.I0 * sp.cos(s.t0) * s.B
                if how == "function":
                    bare = bare.subs(S("x"), S("x"))

                def zero_path(pt):
                    if how == "function":
                        return S("tau").subs(pt.sub) == 0 or S("u").subs(pt.sub) == 0
                    return how in ("attr 0", "attr 0.0", "param 0") or tau0(pt)

                def cmp(res, v, o, what):
                    if how in ("attr number", "param number", "param array", "function"):
                        # exact zero needs no case distinction if the formula vanishes
                        sub = {S("tau"): 0}
                        for pt, l in ctx.paths_of(res, v):
                            if not compatible(pt):
                                continue
                            q = Path(res.i, pt.path, domain)
                            q.sub = dict(pt.sub)
                            if not zero_path(pt):
                                q.sub.update(sub)
                            ctx.same_leaf(res, q, l, o, what)
                    else:
                        ctx.same(res, v, o, what)

                def compatible(pt):
                    """The path can be taken with tau = 0."""
                    for a, val in pt.path:
                        key = m.i.atoms.keys[a]
                        if key[0] in ("eq", "gt") and isinstance(key[1], sp.Basic):
                            n = key[1].subs({S("tau"): 0}).subs(pt.sub)
                            if n.is_number:
                                t = (n == 0) if key[0] == "eq" else bool(n > 0)
                                if t != val:
                                    return False
                    return True

                def f():
                    no_ambiguous(ctx, r)
                    n = len(names) + 1
                    v = entries(ctx, r, n)
                    for k, name in enumerate(("total",) + names):
                        cmp(r, pick(v, k), bare if k < 2 else sp.Integer(0),
                            f"calc()[{k}] ({name}) for tau=0")

                def f2():
                    no_ambiguous(ctx, r2)
                    v = entries(ctx, r2, len(names))
                    for k, name in enumerate(names):
                        cmp(r2, pick(v, k), bare if k < 1 else sp.Integer(0),
                            f"{name}() for tau=0")
                ctx.obligation(f"calc() without canopy, tau: {how} [{cfg.label()}]", f, r)
                ctx.obligation(f"methods without canopy, tau: {how} [{cfg.label()}]", f2,
                               r2)
    # the canopy is removed after an evaluation
    for cfg in warm_variants(ctx, opts=LIN):
        cfg.names = ("surface", "volume", "interaction")
        a = cfg.args()
        s = cfg.spec()
        bare = s.N * s.I0 * sp.cos(s.t0) * s.B
        for how, last in (("attr 0", ("set", "tau", 0)), ("attr 0.0", ("set", "tau", C(0))),
                          ("param 0", ("call", "update_params", {"tau": 0}))):
            for lab, steps in histories(cfg):
                if lab not in ("other parameters", "other tau", "other geometry mode",
                               "other definition of tau"):
                    continue
                r = ctx.seen(m.run("m_steps", a[0], a[5], a[6], a[7], (
                    *steps, ("call", "calc", {}), last), ("calc", "volume", "interaction"),
                    False))

                def f():
                    no_ambiguous(ctx, r)
                    v = entries(ctx, r, 3)
                    c = ctx.elements(r, pick(v, 0), 4)
                    for k in range(4):
                        ctx.same(r, pick(c, k), bare if k < 2 else sp.Integer(0),
                                 f"calc()[{k}] for tau=0")
                    for k in (1, 2):
                        ctx.same(r, pick(v, k), sp.Integer(0), "contribution for tau=0")
                ctx.obligation(f"canopy removed: {how} after {lab} [{cfg.label()}]", f, r)


# -- C07 / C08 ---------------------------------------------------------------------------
def unit_value(cfg, spec, unit):
    return unit_conv(cfg, **unit)(spec.surface() + spec.volume())


def c07(ctx):
    ctx.rule("jacobian() entries equal the symbolic partial derivative of the converted "
             "surface + volume term")
    m = Models()
    keys = ("tau", "omega", "NormBRDF", "bsf")
    syms = dict(tau=S("tau"), omega=S("omega"), NormBRDF=S("N"), bsf=S("bsf"))
    for unit in UNITS:
        for iq in (True, False):
            cfgs = list(variants(opts=dict(unit, int_Q=iq), names=keys))
            for fx, g in ((("p_0",), "mono"), (("t_0", "p_0"), "bi")):
                cfgs.append(distinct(geom=g, fixed=fx, opts=dict(unit, int_Q=iq),
                                     names=keys))
            for k in keys:  # quantities that are given as number
                cfgs.append(distinct(geom="bi", opts=dict(unit, int_Q=iq), names=keys,
                                     params={k: None}, attrs={k: F(
                                         "N" if k == "NormBRDF" else k)}))
            for cfg in cfgs:
                r = ctx.seen(m.config("m_jac", cfg))
                s = cfg.spec()
                val = unit_value(cfg, s, unit)

                def f():
                    v = entries(ctx, r, 4)
                    for k, key in enumerate(keys):
                        ctx.same(r, pick(v, k), val.diff(syms[key]), f"d/d{key}")
                ctx.obligation(f"jacobian [{cfg.label()} int_Q={iq} "
                               f"number={list(cfg.attrs)}]", f, r)
    unit = dict(sig0=True, dB=False)
    for cfg in warm_variants(ctx, opts=dict(unit, int_Q=False), names=keys):
        val = unit_value(cfg, cfg.spec(), unit)

        def judge(r, v):
            for k, key in enumerate(keys):
                ctx.same(r, pick(v, k), val.diff(syms[key]), f"d/d{key}")
        with_history(ctx, m, cfg, judge, 4, jac=True, what="jacobian")


ROLES = {
    "tau": ({"tau": "x*u + 1"}, ()),
    "omega": ({"omega": "x*u"}, ()),
    "NormBRDF": ({"NormBRDF": "x**2 + u"}, ()),
    "bsf": ({"bsf": "x/(2 + u)"}, ()),
    "all": ({"tau": "x*u + 1", "omega": "x**2", "NormBRDF": "exp(x) + u",
             "bsf": "x/(2 + u)"}, ()),
    "none": ({}, ()),
}


def c08(ctx):
    ctx.rule("jacobian() w.r.t. a free parameter equals the total derivative of the "
             "surface + volume term over all roles of the parameter")
    m = Models()
    u, x = sp.symbols("u x")
    sub = {"tau": S("tau"), "omega": S("omega"), "NormBRDF": S("N"), "bsf": S("bsf")}
    phases = {
        "both": (gen_phase("pV", "x"), gen_phase("pS", "x")),
        "volume": (gen_phase("pV", "x", "u"), gen_phase("pS")),
        "surface": (gen_phase("pV"), gen_phase("pS", "u", "x")),
        "neither": (gen_phase("pV"), gen_phase("pS")),
    }
    for role, (att, _) in ROLES.items():
        for ph, pp in phases.items():
            for unit in UNITS:
                for b in BACKENDS:
                    if not ctx.thorough and b == "sympy" and unit != UNITS[2]:
                        continue
                    for g in ("mono", "bi") if unit == UNITS[2] else ("bi",):
                        for sym in (False, True):
                            if sym and (unit != UNITS[2] or g == "mono"):
                                continue
                            par = {k: A("N" if k == "NormBRDF" else k) for k in (
                                "tau", "omega", "NormBRDF", "bsf") if k not in att}
                            par.update(u=A("u"), x=A("x"))
                            exprs = {k: sp.sympify(v) for k, v in att.items()}
                            attrs = {k: X(exprs[k]) if sym else v
                                     for k, v in att.items()}
                            cfg = Config(backend=b, geom=g, params=par, phases=pp,
                                         coefs=(gen_coef("lV"), gen_coef("lS")),
                                         opts=dict(unit), attrs=attrs, names=("u", "x"))
                            r = ctx.seen(m.config("m_jac", cfg))
                            over = {("N" if k == "NormBRDF" else k): e.subs(
                                {u: S("u"), x: S("x")}) for k, e in exprs.items()}
                            s = Spec(cfg, **over)
                            val = unit_value(cfg, s, unit)

                            def f():
                                v = entries(ctx, r, 2)
                                for k, key in enumerate(("u", "x")):
                                    ctx.same(r, pick(v, k), val.diff(S(key)),
                                             f"d/d{key}")
                            ctx.obligation(
                                f"total derivative role={role} functions={ph} "
                                f"{'sympy' if sym else 'string'} [{cfg.label()}]", f, r)
    # evaluations in another state before
    for cfg in warm_variants(ctx, opts=LIN, names=("x", "y")):
        val = unit_value(cfg, cfg.spec(), LIN)

        def judge(r, v):
            for k, key in enumerate(("x", "y")):
                ctx.same(r, pick(v, k), val.diff(S(key)), f"d/d{key}")
        with_history(ctx, m, cfg, judge, 2, jac=True, what="jacobian")
    # names that are also names of sympy objects
    for nm in ("N", "S", "O", "Q"):
        z = sp.Symbol(nm)
        for key in ("tau", "omega", "NormBRDF", "bsf"):
            for b in BACKENDS:
                par = {k: A("N0" if k == "NormBRDF" else k) for k in (
                    "tau", "omega", "NormBRDF", "bsf") if k != key}
                par[nm] = A(nm + "1")
                cfg = Config(backend=b, geom="mono", params=par, vpars=(), spars=(nm,),
                             opts=dict(LIN), attrs={key: f"2*{nm} + {nm}**2"}, names=(nm,))
                r = ctx.seen(m.config("m_jac", cfg))
                q = S(nm + "1")
                over = {"N": S("N0"), ("N" if key == "NormBRDF" else key): 2*q + q**2}
                s = Spec(cfg, **over)
                s.par = {nm: q}
                val = unit_value(cfg, s, LIN)
                ctx.obligation(
                    f"derivative with respect to {nm} in {key} [{cfg.label()}]",
                    lambda: ctx.same(r, pick(entries(ctx, r, 1), 0), val.diff(q),
                                     f"d/d{nm}"), r)
