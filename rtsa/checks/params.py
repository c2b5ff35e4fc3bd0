"""C15, C16, C26: model parameters."""
import itertools

import sympy as sp

from ..harness import A, C, DEAD, F, Path, S, X, exc_name, short
from ..model import BACKENDS, Config, Models, Spec, gen_coef, gen_phase
from ..report import Mismatch, Tup, Unclear, domain
from ..values import *  # noqa
from .physics import LIN, UNITS, entries, interaction_oracle, pick, unit_value

CLIENT = '''
def new(backend, V, S, opts):
    set_lambda_backend(backend)
    return RT1(V=GenV(*V), SRF=GenS(*S), **opts)


def apply(R, ops):
    for kind, name, arg in ops:
        if kind == "call":
            getattr(R, name)(**arg)
        elif kind == "set":
            setattr(R, name, arg)
        elif kind == "get":
            getattr(R, name)


def read(backend, V, S, opts, ops, names):
    R = new(backend, V, S, opts)
    apply(R, ops)
    ret = []
    for name in names:
        ret.append(getattr(R, name))
    return ret


def evaluate(backend, V, S, opts, ops, name, kw):
    R = new(backend, V, S, opts)
    apply(R, ops)
    return getattr(R, name)(**kw)


def values(backend, V, S, opts, ops, names):
    """The stored values of the parameters (and the number of parameters)."""
    R = new(backend, V, S, opts)
    apply(R, ops)
    ret = [len(R.param_dict)]
    for name in names:
        ret.append(R.param_dict[name])
    return ret


def names_of(backend, V, S, opts, ops):
    R = new(backend, V, S, opts)
    apply(R, ops)
    return list(R.param_dict)
'''

QUANT = ("tau", "omega", "NormBRDF", "bsf")
V = (gen_phase("pV"), gen_coef("lV"), 2)
SRF = (gen_phase("pS"), gen_coef("lS"), 2)
ARGS = (V, SRF, dict(LIN, I0=F("I0")))
GEOM = (("call", "set_bistatic", {}),
        ("call", "set_geometry", {a: A(a) for a in ("t_0", "t_ex", "p_0", "p_ex")}))
x, u = sp.symbols("x u")
vx, vu = S("x"), S("u")


def upd(**kw):
    return ("call", "update_params", kw)


FORMS = {
    # label: (assigned value, parameters, expected term)
    "int 0": (0, {}, sp.Integer(0)),
    "int 1": (1, {}, sp.Integer(1)),
    "int 3": (3, {}, sp.Integer(3)),
    "float": (F("val"), {}, S("val")),
    "float constant": (C(0.25), {}, sp.Rational(1, 4)),
    "array": (A("val"), {}, S("val")),
    "name": ("x", {"x": A("x")}, vx),
    "long name": ("tau_leaf_1", {"tau_leaf_1": A("x")}, vx),
    "one letter": ("b", {"b": F("x")}, vx),
    "product": ("x*u", {"x": A("x"), "u": A("u")}, vx * vu),
    "sum": ("x + 2*u + 0.5", {"u": A("u"), "x": A("x")}, vx + 2 * vu + sp.Rational(1, 2)),
    "power": ("x**2/(1 + u)", {"x": A("x"), "u": F("u")}, vx ** 2 / (1 + vu)),
    "not commutative": ("x - u", {"u": A("u"), "x": A("x")}, vx - vu),
    "function": ("exp(-x)*u", {"x": A("x"), "u": A("u")}, sp.exp(-vx) * vu),
    "trigonometric": ("sin(x)*cos(u)", {"x": A("x"), "u": A("u")},
                      sp.sin(vx) * sp.cos(vu)),
    "text number": ("0.3", {}, sp.Rational(3, 10)),
    "text integer": ("0", {}, sp.Integer(0)),
    "symbol": (X(x), {"x": A("x")}, vx),
    "expression": (X(x - u ** 2), {"x": A("x"), "u": A("u")}, vx - vu ** 2),
    "expression with function": (X(sp.exp(-2 * x) + sp.log(u)),
                                 {"u": A("u"), "x": A("x")}, sp.exp(-2 * vx) + sp.log(vu)),
    "sympy integer": (X(sp.Integer(2)), {}, sp.Integer(2)),
    "sympy number": (X(sp.Rational(2, 5)), {}, sp.Rational(2, 5)),
    "pi": (X(sp.pi / 4), {}, sp.pi / 4),
    "three": ("a1*b1 + c1", {"c1": A("c1"), "b1": A("b1"), "a1": A("a1")},
              S("a1") * S("b1") + S("c1")),
}


def c15(ctx):
    ctx.rule("R.<quantity> equals the assigned number / expression at the current parameter "
             "values for every form; missing parameters raise a TypeError that names them")
    m = Models(CLIENT)
    unused = {"unused": A("unused"), "zz": F("zz")}
    for q in QUANT:
        others = {k: A("N" if k == "NormBRDF" else k) for k in QUANT if k != q}
        for label, (val, par, exp) in FORMS.items():
            for b in BACKENDS:
                # the order of the parameters must not matter
                for extra in ({}, {**unused, **others}):
                    p1 = {**extra, **par}
                    p2 = {**par, **extra}
                    for pars in (p1, p2) if extra else (p1,):
                        for ops in ((("set", q, val), upd(**pars)),
                                    (upd(**pars), ("set", q, val))):
                            r = ctx.seen(m.run("read", b, *ARGS, ops, (q,)))

                            def f():
                                v = entries(ctx, r, 1)
                                ctx.same(r, pick(v, 0), exp, f"R.{q}")
                            ctx.obligation(
                                f"R.{q} = {label} [{b} params={list(pars)} "
                                f"{ops[0][0]} first]", f, r)
            # the value is used by the evaluation
            b = BACKENDS[len(label) % 2]
            pars = {**others, **par}
            over = {("N" if q == "NormBRDF" else q): exp}
            cfg = Config(backend=b, geom="bi", phases=(V[0], SRF[0]), coefs=(V[1], SRF[1]),
                         opts=LIN)
            spec = Spec(cfg, **over)
            ops = (*GEOM, ("set", q, val), upd(**pars))
            # (an exponential of a transcendental function has no normal form)
            plain = not exp.has(sp.exp, sp.log, sp.sin)
            for name in ("surface", "volume") if q != "tau" or plain else ():
                r = ctx.seen(m.run("evaluate", b, *ARGS, ops, name, {}))
                ctx.obligation(f"{name}() with R.{q} = {label} [{b}]",
                               lambda: (ctx.no_raise(r), ctx.same(
                                   r, ctx.value(r), getattr(spec, name)(), f"{name}()")), r)
            if q in ("omega", "bsf") and not label.startswith("text integer"):
                r = ctx.seen(m.run("evaluate", b, *ARGS, ops, "interaction", {}))
                ctx.obligation(f"interaction() with R.{q} = {label} [{b}]",
                               lambda: (ctx.no_raise(r), ctx.same(
                                   r, ctx.value(r), interaction_oracle(cfg, spec),
                                   "interaction()")), r)
    # re-assignment
    for q in QUANT:
        for (l1, f1), (l2, f2) in itertools.permutations(
                [(k, FORMS[k]) for k in ("float", "product", "symbol", "name", "int 0")],
                2):
            par = {**f1[1], **f2[1]}
            ops = (upd(**par), ("set", q, f1[0]), ("get", q, None), ("set", q, f2[0]))
            r = ctx.seen(m.run("read", "symengine", *ARGS, ops, (q,)))
            ctx.obligation(f"R.{q} = {l1}, then {l2}",
                           lambda: ctx.same(r, pick(entries(ctx, r, 1), 0), f2[2],
                                            f"R.{q}"), r)
        ops = (upd(x=A("x1"), u=A("u1")), ("set", q, "x - u"), ("get", q, None),
               upd(x=A("x2")))
        r = ctx.seen(m.run("read", "symengine", *ARGS, ops, (q,)))
        ctx.obligation(f"R.{q} after a parameter update",
                       lambda: ctx.same(r, pick(entries(ctx, r, 1), 0), S("x2") - S("u1"),
                                        f"R.{q}"), r)
    # missing parameters
    for q in QUANT:
        for val, have, miss in (("x*u", {"x": A("x")}, ("u",)), ("x*u", {}, ("x", "u")),
                                ("x", {"u": A("u")}, ("x",)),
                                (X(x * u + 1), {"u": A("u")}, ("x",)),
                                (X(x), {q: A("q")}, ("x",)),
                                ("qq1 + x", {"x": A("x"), "tau": A("tau"),
                                             "omega": A("om"), "NormBRDF": A("N"),
                                             "bsf": A("bsf")}, ("qq1",)),
                                (None, {}, (q,))):
            if val is None and q == "bsf":
                continue
            for b in BACKENDS:
                ops = (*GEOM, *((("set", q, val),) if val is not None else ()),
                       *((upd(**have),) if have else ()))
                r = ctx.seen(m.run("read", b, *ARGS, ops, (q,)))
                named(ctx, r, miss, f"R.{q} = {short(val)} with {list(have)} [{b}]",
                      set(have))
                pars = {**{k: A("N" if k == "NormBRDF" else k) for k in QUANT if k != q},
                        **have}
                r = ctx.seen(m.run("evaluate", b, *ARGS, ops, "calc",
                                   {k: v for k, v in pars.items() if k not in miss}))
                named(ctx, r, miss, f"calc() with R.{q} = {short(val)}, {list(have)} [{b}]",
                      set(pars) - set(miss))


def named(ctx, r, names, label, known=()):
    """Every path ends with a TypeError that names the missing parameters."""
    def f():
        if r.value is not DEAD:
            raise Mismatch(f"a value is returned although {names} have no value")
        for st, e in r.raised:
            if r.isexc(e, "TypeError") is not True:
                raise Mismatch(f"{exc_name(e)} is raised at {e.where} instead of a "
                               "TypeError that names the missing parameters")
            text = " ".join(map(str, e.args))
            for n in names:
                if n not in text:
                    raise Mismatch(f"the error at {e.where} does not name {n}: "
                                   f"{short(text)}")
    ctx.obligation(f"missing parameters: {label}", f, r)


# -- C16 ---------------------------------------------------------------------------------
def c16(ctx):
    ctx.rule("param_dict equals the simulated dictionary after every sequence of updates; "
             "evaluations use the new values; bsf is 0 unless a value is given")
    m = Models(CLIENT)

    def stored(ops, expect, label, b="symengine", given=()):
        r = ctx.seen(m.run("values", b, *ARGS, ops, tuple(expect)))

        def f():
            v = entries(ctx, r, len(expect) + 1)
            for k, (name, e) in enumerate(expect.items()):
                ctx.same(r, pick(v, k + 1), e, f"param_dict[{name!r}]")
                for pt, l in ctx.paths_of(r, pick(v, k + 1)):
                    if isinstance(l, Num) and any(isinstance(t, tuple) and t[0] in (
                            "T", "squeeze", "ravel") for t in l.shape):
                        raise Mismatch(f"param_dict[{name!r}] has not the shape of the given "
                                       f"value: {sorted(map(str, l.shape))}")
                    if name in given and not isinstance(l, (Num, Arr)) or isinstance(l, Num) and (
                            l.kind != "array"):
                        raise Mismatch(f"param_dict[{name!r}] is {l!r}, not an array")
            for pt, l in ctx.paths_of(r, pick(v, 0)):
                if l != len(expect):
                    if not isinstance(l, int):
                        raise Unclear(f"size of param_dict: {l!r}")
                    raise Mismatch(f"param_dict has {l} instead of {len(expect)} entries")
        ctx.obligation(f"stored values after {label}", f, r)

    def update_ops(k):
        a = lambda n: A(f"{n}{k}")  # noqa
        f = lambda n: F(f"{n}{k}")  # noqa
        return {
            "tau": {"tau": a("tau")},
            "tau number": {"tau": f("tau")},
            "x,u": {"x": a("x"), "u": f("u")},
            "bsf": {"bsf": a("bsf")},
            "bsf=0": {"bsf": 0},
            "bsf,omega": {"omega": a("omega"), "bsf": f("bsf")},
            "all": {q: a(q) for q in QUANT},
            "int": {"x": 3, "NormBRDF": 1},
            "nothing": {},
        }

    def sim(seq):
        d = {"bsf": sp.Integer(0)}
        for kw in seq:
            for n, v in kw.items():
                d[n] = v.expr if isinstance(v, Num) else sp.Integer(v)
        return d
    labels = list(update_ops(0))
    for n in (1, 2, 3) if ctx.thorough else (1, 2):
        for word in itertools.product(labels, repeat=n):
            seq = [update_ops(k)[w] for k, w in enumerate(word)]
            stored(tuple(upd(**kw) for kw in seq), sim(seq), f"update_params {word}",
                   given={k for kw in seq for k in kw})
    # evaluation methods store the parameters as well
    base = {q: A(f"{q}_b") for q in QUANT if q != "bsf"}
    for name in ("calc", "surface", "volume", "interaction"):
        for first in ({}, {"bsf": A("bsf_b")}, {"bsf": F("bsf_b")}):
            for kw in ({}, {"tau": A("tau_n")}, {"bsf": A("bsf_n")}, {"x": A("x_n")},
                       {"bsf": F("bsf_n"), "omega": A("omega_n"), "NormBRDF": F("N_n")},
                       {"tau": A("tau_n"), "omega": A("omega_n"), "NormBRDF": A("N_n"),
                        "bsf": 0}):
                seq = [dict(base), dict(first), dict(kw)]
                d = sim(seq)
                ops = (*GEOM, upd(**base), *((upd(**first),) if first else ()))
                stored((*ops, ("call", name, dict(kw))), d,
                       f"{name}({','.join(kw)}) bsf={first and 'given'}",
                       given={k for kw_ in seq for k in kw_})
                for b in BACKENDS:
                    r = ctx.seen(m.run("evaluate", b, *ARGS, ops, name, dict(kw)))
                    cfg = Config(backend=b, geom="bi", phases=(V[0], SRF[0]),
                                 coefs=(V[1], SRF[1]), opts=LIN)
                    spec = Spec(cfg, tau=d["tau"], omega=d["omega"], N=d["NormBRDF"],
                                bsf=d["bsf"])

                    def f():
                        ctx.no_raise(r)
                        v = ctx.value(r)
                        if name == "calc":
                            v = ctx.elements(r, v, 4)
                            ctx.same(r, pick(v, 1), spec.surface(), "calc()[1]")
                            ctx.same(r, pick(v, 2), spec.volume(), "calc()[2]")
                        elif name == "interaction":
                            t = d["tau"]
                            ctx.same(r, v, spec.interaction(), "interaction()",
                                     when=lambda pt: generic(pt))
                        else:
                            ctx.same(r, v, getattr(spec, name)(), f"{name}()")
                    ctx.obligation(f"{name}({','.join(kw)}) uses the given values bsf="
                                   f"{first and 'given'} [{b}]", f, r)
    # bsf: default
    for label, ops, exp in (
            ("default", (upd(tau=A("tau")),), sp.Integer(0)),
            ("value", (upd(bsf=A("bsf")), upd(tau=A("tau"))), S("bsf")),
            ("value after default", (upd(tau=A("tau")), upd(bsf=A("bsf")),
                                     upd(omega=A("om"))), S("bsf")),
            ("number", (("set", "bsf", F("bsf")), upd(tau=A("tau"))), S("bsf")),
            ("number, parameter named bsf", (("set", "bsf", F("bsf")), upd(bsf=A("b2"))),
             S("bsf")),
            ("expression", (("set", "bsf", "x/2"), upd(x=A("x"))), S("x") / 2),
            ("expression of bsf", (("set", "bsf", "bsf/2"), upd(bsf=A("x"))), S("x") / 2),
            ("no update", (), sp.Integer(0))):
        for b in BACKENDS:
            r = ctx.seen(m.run("read", b, *ARGS, ops, ("bsf",)))
            ctx.obligation(f"R.bsf {label} [{b}]",
                           lambda: ctx.same(r, pick(entries(ctx, r, 1), 0), exp, "R.bsf"),
                           r)
    # two models do not share parameters
    r = ctx.seen(m.run("names_of", "symengine", *ARGS, (upd(x=A("x")),)))
    r2 = ctx.seen(m.run("names_of", "symengine", *ARGS, (upd(y=A("y")),), _state=r.state))

    def f():
        v = ctx.elements(r2, ctx.value(r2), 2)
        for pt, l in ctx.paths_of(r2, v):
            if sorted(l.items) != ["bsf", "y"]:
                raise Mismatch(f"a second model has the parameters {l.items}")
    ctx.obligation("parameters of different models are separate", f, r2)


def generic(pt):
    """Not a path of a singular case (nadir incidence, no canopy)."""
    return not pt.sub
