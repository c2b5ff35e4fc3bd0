"""C23 - C26: backends, optional packages, pickling, names of parameters."""
import ast
import itertools
import os
import sys

import sympy as sp

from .. import harness
from ..harness import A, C, DEAD, F, Path, S, X, exc_name, short
from ..model import (BACKENDS, PH0, PHX, TH0, THX, Config, Models, Spec, gen_coef,
                     gen_phase)
from ..report import Mismatch, Unclear, domain
from ..values import *  # noqa
from .physics import LIN, entries, interaction_oracle, pick

CLIENT = '''
import copy
import pickle

import numpy as np

MODS = {"V": volume, "S": surface}


def default():
    return get_lambda_backend()


def select(name):
    set_lambda_backend(name)
    return get_lambda_backend()


def selects(names):
    ret = []
    for name in names:
        set_lambda_backend(name)
        ret.append(get_lambda_backend())
    return ret


def user_fnevals(t_0, p_0, t_ex, p_ex, *params):
    return [np.cos(t_0) + p_ex, np.sin(t_ex) * t_0, p_0 + 2.0]


def new(V, S, opts):
    if opts.get("fnevals_input") == "user":
        opts = dict(opts, fnevals_input=user_fnevals)
    return RT1(V=GenV(*V), SRF=GenS(*S), **opts)


def apply(R, ops):
    for kind, name, arg in ops:
        if kind == "call":
            getattr(R, name)(**arg)
        elif kind == "set":
            setattr(R, name, arg)
        elif kind == "get":
            getattr(R, name)
        elif kind == "backend":
            set_lambda_backend(name)


def build(backend, V, S, opts, ops):
    set_lambda_backend(backend)
    R = new(V, S, opts)
    apply(R, ops)
    return R


def method(R, name, args, kw):
    return getattr(R, name)(*args, **kw)


def then(R, ops, name, args, kw):
    apply(R, ops)
    return getattr(R, name)(*args, **kw)


def read(R, names):
    ret = []
    for name in names:
        ret.append(getattr(R, name))
    return ret


def params(R, names):
    ret = [len(R.param_dict)]
    for name in names:
        ret.append(R.param_dict[name])
    return ret


def scatter(mod, cls, kw):
    if cls == "LinComb":
        parts = []
        for w, c, k in kw["choices"]:
            parts.append((w, getattr(MODS[mod], c)(**k)))
        kw = dict(kw, choices=parts)
    return getattr(MODS[mod], cls)(**kw)


def scatter_calc(backend, mod, cls, kw, args, pd):
    set_lambda_backend(backend)
    return scatter(mod, cls, kw).calc(*args, param_dict=pd)


def scatter_phase(mod, cls, kw):
    return scatter(mod, cls, kw).phase_function


def with_model(backend, V, S, opts, ops):
    set_lambda_backend(backend)
    R = RT1(V=V, SRF=S, **opts)
    apply(R, ops)
    return R


def dup(how, R):
    if how == "pickle":
        return R, pickle.loads(pickle.dumps(R))
    if how == "copy":
        return R, copy.copy(R)
    return R, copy.deepcopy(R)


def first(x):
    return x[0]
'''

V = (gen_phase("pV", "x"), gen_coef("lV", "x"), 2)
SRF = (gen_phase("pS"), gen_coef("lS"), 2)
OPT = dict(LIN, I0=F("I0"))
ANG = {a: A(a) for a in ("t_0", "t_ex", "p_0", "p_ex")}
PAR = dict(tau=A("tau"), omega=A("omega"), NormBRDF=A("N"), bsf=A("bsf"), x=A("x"))
GEOM = (("call", "set_bistatic", {}), ("call", "set_geometry", dict(ANG)))
MONO = (("call", "set_monostatic", {}),
        ("call", "set_geometry", {k: ANG[k] for k in ("t_0", "p_0")}))
SET = (("call", "update_params", dict(PAR)),)


def spec(geom="bi", **over):
    cfg = Config(geom=geom, phases=(V[0], SRF[0]), coefs=(V[1], SRF[1]), opts=LIN)
    return cfg, Spec(cfg, **over)


def check_calc(ctx, r, v, cfg, s, what, when=None):
    """v is the value of calc() of the model with the specification s."""
    v = ctx.elements(r, v, 4)
    ctx.same(r, pick(v, 1), s.surface(), f"{what}[1]")
    ctx.same(r, pick(v, 2), s.volume(), f"{what}[2]")
    ctx.same(r, pick(v, 3), interaction_oracle(cfg, s), f"{what}[3]", when=when)


def engines(r, user):
    """Symbolic engines used by the package (not by the client)."""
    return sorted({k for k, d, pc, wh, st in r.events if k in ("symengine",)
                   and any(not q.startswith("client") for q in st)})


def feasible(r, pc):
    return any(l is True and Path(r.i, p, domain).feasible for p, l in leaves(pc))


# -- C23 ---------------------------------------------------------------------------------
INVALID = [None, 0, 1, True, False, "", "s", "sym", "symp", "engine", "symengin", "Sympy",
           "SymPy", "SYMPY", "SYMENGINE", "Symengine", "sympy ", " symengine", "numpy",
           "llvm", "symengine, sympy", "sympysymengine", "ympy", "lambdify", "default",
           "auto", ("sympy",), ("sympy", "symengine")]


def c23(ctx):
    ctx.rule("exactly the two names are accepted, the selection is unchanged after an error "
             "and used by everything that is compiled afterwards; both backends give the "
             "same terms for positional and keyword arguments")
    m = Models(CLIENT)
    r = ctx.seen(m.run("default"))
    ctx.obligation("default backend", lambda: equal(ctx, r, ctx.value(r), "symengine"), r)
    for n in (1, 2, 3):
        for seq in itertools.product(BACKENDS, repeat=n):
            r = ctx.seen(m.run("selects", list(seq)))

            def f():
                v = ctx.elements(r, ctx.value(r), n)
                ctx.no_raise(r)
                for k in range(n):
                    equal(ctx, r, pick(v, k), seq[k])
            ctx.obligation(f"selections {seq}", f, r)
    for b in (None, *BACKENDS):
        st = None if b is None else m.run("select", b).state
        for bad in INVALID:
            r = ctx.seen(m.run("select", bad, _state=st))

            def f():
                if r.value is not DEAD:
                    raise Mismatch(f"set_lambda_backend({bad!r}) is accepted")
                for s, e in r.raised:
                    q = ctx.seen(m.run("default", _state=s))
                    equal(ctx, q, ctx.value(q), b or "symengine")
            ctx.obligation(f"set_lambda_backend({bad!r}) after {b}", f, r)
    # the selection at call time is used
    args = [A(a) for a in ("t_0", "t_ex", "p_0", "p_ex")]
    cfg, s = spec()
    for b1, b2 in itertools.product(BACKENDS, repeat=2):
        for pre in ((), GEOM, (*GEOM, *SET)):
            r0 = ctx.seen(m.run("build", b1, V, SRF, OPT, pre))
            ops = [("backend", b2, None), *[o for o in (*GEOM, *SET) if o not in pre]]
            for name, kw, what in (("calc", {}, "calc()"), ("interaction", {}, ""),
                                   ("surface", {}, ""), ("volume", {}, ""),
                                   ("jacobian", {"param_list": ["tau", "omega", "x"]}, "")):
                if not r0.ok:
                    break
                r = ctx.seen(m.run("then", r0.value, ops, name, [], kw, _state=r0.state))

                def f():
                    ctx.no_raise(r)
                    v = ctx.value(r)
                    if name == "calc":
                        check_calc(ctx, r, v, cfg, s, "calc()")
                    elif name == "interaction":
                        ctx.same(r, v, interaction_oracle(cfg, s), "interaction()")
                    elif name != "jacobian":
                        ctx.same(r, v, getattr(s, name)(), f"{name}()")
                    used = engine_use(r)
                    if b2 == "sympy" and used["symengine"]:
                        raise Mismatch(f"symengine is used at {used['symengine'][0]} "
                                       "although sympy is selected")
                    if b2 == "symengine" and used["sympy"]:
                        raise Mismatch("a function is compiled with sympy at "
                                       f"{used['sympy'][0]} although symengine is selected")
                ctx.obligation(f"{name}() created with {b1}, evaluated with {b2} "
                               f"(after {len(pre)} calls)", f, r)
            # evaluated with one backend, later with the other one
        r0 = ctx.seen(m.run("build", b1, V, SRF, OPT, (*GEOM, *SET, ("call", "calc", {}),
                                                       ("call", "jacobian", {
                                                           "param_list": ["tau", "x"]}))))
        for change in ((), (("call", "set_bistatic", {}), ("call", "set_geometry",
                                                           dict(ANG))),
                       (("call", "update_params", dict(new_=A("new_"))),),
                       (("set", "tau", "tau"),)):
            r = ctx.seen(m.run("then", r0.value, [("backend", b2, None), *change], "calc",
                               [], {}, _state=r0.state))
            ctx.obligation(
                f"calc() evaluated with {b1}, {[c[1] for c in change]}, again with {b2}",
                lambda: (ctx.no_raise(r), check_calc(ctx, r, ctx.value(r), cfg, s,
                                                     "calc()")), r)
    # a second model in the same session, with the same expressions
    jac = ("call", "jacobian", {"param_list": ["tau", "x"]})
    for b1, b2 in itertools.product(BACKENDS, repeat=2):
        for first in ((("call", "calc", {}),), (("call", "calc", {}), jac)):
            r0 = ctx.seen(m.run("build", b1, V, SRF, OPT, (*GEOM, *SET, *first)))
            r1 = ctx.seen(m.run("build", b2, V, SRF, OPT, (*GEOM, *SET), _state=r0.state))
            if not r1.ok:
                ctx.obligation("second model", lambda: ctx.no_raise(r1), r1)
                continue
            for name, kw in (("calc", {}), ("jacobian", jac[2])):
                r = ctx.seen(m.run("method", r1.value, name, [], kw, _state=r1.state))

                def f():
                    ctx.no_raise(r)
                    v = ctx.value(r)
                    if name == "calc":
                        check_calc(ctx, r, v, cfg, s, "calc()")
                    for e, w in engine_calls(r):
                        if e != b2:
                            raise Mismatch(f"a function compiled with {e} is evaluated at "
                                           f"{w} although {b2} is selected")
                ctx.obligation(f"{name}() of a second model, {b1} then {b2} "
                               f"({len(first)} calls before)", f, r)
    for mod, cls, kw, pd in (("V", "Rayleigh", {}, {}), ("V", "Isotropic", {}, {}),
                             ("S", "Isotropic", {}, {}),
                             ("S", "HenyeyGreenstein", {"t": "t"}, {"t": A("t")})):
        vals = {}
        for b in BACKENDS:
            for b1 in BACKENDS:
                st = m.run("select", b1).state
                r0 = m.run("scatter", mod, cls, dict(kw), _state=st)
                r = ctx.seen(m.run("then", r0.value, [("backend", b, None)], "calc",
                                   list(args), {"param_dict": dict(pd)} if pd else {},
                                   _state=r0.state))
                vals[b, b1] = r

                def f():
                    ctx.no_raise(r)
                    ctx.value(r)
                    used = engine_use(r)
                    if b == "sympy" and used["symengine"]:
                        raise Mismatch(f"symengine is used at {used['symengine'][0]} "
                                       "although sympy is selected")
                    if b == "symengine" and used["sympy"]:
                        raise Mismatch("a function is compiled with sympy at "
                                       f"{used['sympy'][0]} although symengine is selected")
                    ref = vals["symengine", "symengine"]
                    for pt, l in ctx.paths_of(ref, ref.value):
                        ctx.same(r, r.value, l.expr, f"{cls}.calc()")
                ctx.obligation(f"{mod}.{cls}.calc() created with {b1} evaluated with {b}",
                               f, r)
                q = ctx.seen(m.run("scatter_calc", b1, mod, cls, dict(kw), list(args), pd))
                q = ctx.seen(m.run("scatter_calc", b, mod, cls, dict(kw), list(args), pd,
                                   _state=q.state))

                def g():
                    ctx.no_raise(q)
                    ctx.value(q)
                    for e, w in engine_calls(q):
                        if e != b:
                            raise Mismatch(f"a function compiled with {e} is evaluated at "
                                           f"{w} although {b} is selected")
                ctx.obligation(f"{mod}.{cls}.calc() of a second object, {b1} then {b}", g,
                               q)
    compiled(ctx)


def engine_use(r):
    """Places of the package where the engines are used to compile / expand."""
    use = {"symengine": [], "sympy": []}
    for kind, data, pc, where, stack in r.events:
        if not feasible(r, pc):
            continue
        if kind == "symengine":
            use["symengine"].append(where)
        elif kind == "compiled" and data[1] == "sympy" and data[0] and any(
                q for q in stack if not q.startswith("client")):
            use["sympy"].append(where)
    return use


def engine_calls(r):
    """(engine, place) of the compiled functions of the package that are evaluated."""
    return [(d[0], w) for k, d, pc, w, st in r.events if k == "engine-call"
            and feasible(r, pc) and not (st and st[-1].startswith("client"))]


def compiled(ctx):
    """Positional and keyword arguments of compiled functions (if the helper exists)."""
    src = '''
try:
    from rt1_model.helpers import _lambdify
except ImportError:
    _lambdify = None


def has():
    return _lambdify is not None


def comp(backend, names, expr, n, args):
    set_lambda_backend(backend)
    f = _lambdify(names, expr)
    kw = {}
    for name, val in list(zip(names, args))[n:][::-1]:
        kw[name] = val
    return f(*args[:n], **kw)
'''
    m = Models(CLIENT + src)
    r = m.run("has")
    if r.value is not True:
        return
    p, q, w = sp.symbols("p q w")
    for expr, exp in ((X(p - 2 * q), S("p") - 2 * S("q")), (X(p ** 2), S("p") ** 2),
                      (X(w * sp.exp(-p)), S("w") * sp.exp(-S("p"))), ("p - w", S("p")
                                                                     - S("w"))):
        for b in BACKENDS:
            for n in range(4):
                r = ctx.seen(m.run("comp", b, ["p", "q", "w"], expr, n,
                                   [A("p"), A("q"), A("w")]))
                ctx.obligation(f"compiled {short(expr)} with {n} positional arguments [{b}]",
                               lambda: (ctx.no_raise(r), ctx.same(
                                   r, ctx.value(r), exp, "compiled function")), r)


def equal(ctx, r, v, exp):
    for pt, l in ctx.paths_of(r, v):
        if isinstance(l, Opq):
            raise Unclear(f"cannot resolve {short(l)}")
        if l != exp:
            raise Mismatch(f"{l!r} instead of {exp!r} if {pt.text()}")


# -- C24 ---------------------------------------------------------------------------------
REQUIRED = {"numpy", "scipy", "sympy", "rt1_model"}


def third_party(root):
    """Top-level third-party packages imported anywhere in the package (with places)."""
    out = {}
    for d, _, files in os.walk(root):
        for n in sorted(files):
            if not n.endswith(".py"):
                continue
            p = os.path.join(d, n)
            tree = ast.parse(open(p, encoding="utf-8").read(), p)
            for node in ast.walk(tree):
                names = []
                if isinstance(node, ast.Import):
                    names = [a.name for a in node.names]
                elif isinstance(node, ast.ImportFrom) and not node.level:
                    names = [node.module]
                elif isinstance(node, ast.Call) and node.args and isinstance(
                        node.args[0], ast.Constant) and isinstance(
                        node.args[0].value, str) and getattr(
                        node.func, "attr", getattr(node.func, "id", "")) in (
                        "import_module", "__import__"):
                    names = [node.args[0].value]
                for x in names:
                    t = x.split(".")[0]
                    if t and t not in sys.stdlib_module_names and t not in REQUIRED:
                        out.setdefault(t, []).append(f"{os.path.relpath(p, root)}:"
                                                     f"{node.lineno}")
    return out


def unguarded(root, names):
    """Unconditional module-level imports of opaque modules of the package."""
    out = []
    for d, _, files in os.walk(root):
        for n in sorted(files):
            if n.endswith(".py") and n == "_numpydoc_docscrape.py":
                p = os.path.join(d, n)
                for node in ast.parse(open(p, encoding="utf-8").read(), p).body:
                    mods = [a.name for a in node.names] if isinstance(
                        node, ast.Import) else [node.module or ""] if isinstance(
                        node, ast.ImportFrom) and not node.level else []
                    out += [(x, f"{n}:{node.lineno}") for x in mods
                            if x.split(".")[0] in names]
    return out


def c24(ctx):
    ctx.rule("the package is importable and all models evaluate with any subset of the "
             "optional packages; the default backend is sympy without symengine")
    root = os.path.join(harness.REPO, "src", "rt1_model")
    opt = third_party(root)
    ctx.note(f"third-party imports: {opt}")
    names = sorted(opt)
    ctx.obligation("numpydoc module", lambda: [
        (_ for _ in ()).throw(Mismatch(f"{x} is imported unconditionally at {w}"))
        for x, w in unguarded(root, names)])
    subsets = [c for k in range(1, len(names) + 1)
               for c in itertools.combinations(names, k)]
    if not ctx.thorough and len(subsets) > 7:
        subsets = [c for c in subsets if len(c) in (1, len(names))]
    for miss in [()] + subsets:
        def star():
            s = Models(CLIENT + "\nfrom rt1_model import *\n", miss).s
            if s.mod is None:
                raise Mismatch("from rt1_model import * fails: " + "; ".join(
                    f"{exc_name(e)}({', '.join(map(str, e.args))}) at {e.where}"
                    for _, e in s.raised))
        ctx.obligation(f"from rt1_model import * without {','.join(miss) or 'nothing'}", star)
    for miss in subsets:
        optional(ctx, miss)
        if "matplotlib" not in miss:
            plotting(ctx, miss)
    # without optional packages being missing: symengine is only required if selected
    m = Models(CLIENT, ())
    ctx.obligation("default backend", lambda: equal(
        ctx, m.run("default"), m.run("default").value, "symengine"))


PLOT_CLIENT = CLIENT + '''
import rt1_model
from rt1_model import plot


def names(V, S, opts, ops):
    R = RT1(V=GenV(*V), SRF=GenS(*S), **opts)
    ret = ["plot" in rt1_model.__all__]
    for n in ("polarplot", "hemreflect", "Analyze", "Analyze3D"):
        ret.append(callable(getattr(plot, n, None)))
    for obj, n in ((R, "analyze"), (R, "analyze3d"), (R.V, "polarplot"),
                   (R.SRF, "polarplot"), (R.SRF, "hemreflect")):
        ret.append(callable(getattr(obj, n, None)))
    return ret


def polar(t):
    surface.HenyeyGreenstein(t="t", ncoefs=2).polarplot(param_dict={"t": t})


def hem(t):
    return surface.HenyeyGreenstein(t="t", ncoefs=2).hemreflect(
        param_dict={"t": t}, returnarray=True, t_0_min=10, t_0_max=50, t_0_step=20)
'''


def plotting(ctx, miss):
    """The plot functions need no other optional package than matplotlib."""
    lab = "without " + ",".join(miss)
    m = Models(PLOT_CLIENT, miss)

    def imp():
        if m.s.mod is None:
            raise Mismatch("the plot module cannot be imported: " + "; ".join(
                f"{exc_name(e)}({', '.join(map(str, e.args))}) at {e.where}"
                for _, e in m.s.raised))
    if not ctx.obligation(f"import plot {lab}", imp):
        return
    r = ctx.seen(m.run("names", V, SRF, OPT, []))
    def f():
        ctx.no_raise(r)
        v = ctx.elements(r, ctx.value(r), 10)
        for k in range(10):
            equal(ctx, r, pick(v, k), True)
    ctx.obligation(f"plot functions {lab}", f, r)
    for name in ("polar", "hem"):
        r = ctx.seen(m.run(name, F("t")))
        ctx.obligation(f"{name} {lab}", lambda: (ctx.no_raise(r), ctx.value(r)), r)


def optional(ctx, miss):
    lab = "without " + ",".join(miss)
    m = Models(CLIENT, miss)

    def imp():
        if m.s.mod is None:
            raise Mismatch(f"import fails: " + "; ".join(
                f"{exc_name(e)}({', '.join(map(str, e.args))}) at {e.where}"
                for _, e in m.s.raised))
    if not ctx.obligation(f"import {lab}", imp):
        return
    r = ctx.seen(m.run("default"))
    exp = "sympy" if "symengine" in miss else "symengine"
    ctx.obligation(f"default backend {lab}", lambda: equal(ctx, r, ctx.value(r), exp), r)
    backs = ("sympy",) if "symengine" in miss else BACKENDS
    cfg, s = spec()
    for b in backs:
        for pre in ((), SET):
            r0 = ctx.seen(m.run("build", b, V, SRF, OPT, (*GEOM, *pre)))
            r = ctx.seen(m.run("method", r0.value, "calc", [], {} if pre else dict(PAR),
                               _state=r0.state))
            ctx.obligation(f"calc() {lab} [{b}]", lambda: (
                ctx.no_raise(r), check_calc(ctx, r, ctx.value(r), cfg, s, "calc()")), r)
        for fx in ({"t_0": F("t_0")}, {"p_0": F("p_0"), "p_ex": F("p_ex")}):
            r = ctx.seen(m.run("build", b, V, SRF, OPT, (
                ("call", "set_bistatic", fx),
                ("call", "set_geometry", {k: v for k, v in ANG.items() if k not in fx}),
                *SET)))
            if r.ok:
                r = ctx.seen(m.run("method", r.value, "calc", [], {}, _state=r.state))
            ctx.obligation(f"calc() with fixed {list(fx)} {lab} [{b}]", lambda: (
                ctx.no_raise(r), check_calc(ctx, r, ctx.value(r), cfg, s, "calc()")), r)
        for fmt in ("list", "scipy_least_squares"):
            r = ctx.seen(m.run("build", b, V, SRF, OPT, (*GEOM, *SET)))
            r = ctx.seen(m.run("method", r.value, "jacobian", [], {
                "param_list": ["tau", "omega", "x"], "format": fmt}, _state=r.state))
            ctx.obligation(f"jacobian({fmt}) {lab} [{b}]",
                           lambda: (ctx.no_raise(r), ctx.value(r)), r)
        for how in ("pickle", "copy"):
            r = ctx.seen(m.run("build", b, V, SRF, OPT, (*GEOM, *SET)))
            r = ctx.seen(m.run("dup", how, r.value, _state=r.state))
            ctx.obligation(f"{how} {lab} [{b}]",
                           lambda: (ctx.no_raise(r), ctx.value(r)), r)
        for mod, cls, kw, pd in (
                ("V", "Isotropic", {}, {}), ("V", "Rayleigh", {}, {}),
                ("V", "HenyeyGreenstein", {"t": "t", "ncoefs": 3}, {"t": A("t")}),
                ("V", "HGRayleigh", {"t": "t", "ncoefs": 3}, {"t": A("t")}),
                ("S", "Isotropic", {}, {}), ("S", "CosineLobe", {"i": 2, "ncoefs": 3}, {}),
                ("S", "HG_nadirnorm", {"t": "t", "ncoefs": 3}, {"t": A("t")}),
                ("V", "LinComb", {"choices": [("w", "Isotropic", {}), (
                    C(0.5), "Rayleigh", {})]}, {"w": A("w")})):
            r = ctx.seen(m.run("scatter_calc", b, mod, cls, dict(kw),
                               [A(a) for a in ANG], pd))
            ctx.obligation(f"{mod}.{cls}.calc() {lab} [{b}]",
                           lambda: (ctx.no_raise(r), ctx.value(r)), r)


# -- C25 ---------------------------------------------------------------------------------
def given(fns):
    """fn-coefficients that are given by the user."""
    def fn(t0, tx, p0, px):
        rep = dict(zip((TH0, THX, PH0, PHX), (t0, tx, p0, px)))
        return [sp.sympify(f).subs(rep, simultaneous=True) for f in fns]
    return fn


def given_spec(fns):
    s = spec()[1]
    s.fn = given(fns)
    return s


CONF = ("sig0", "dB", "int_Q", "I0", "t_0", "t_ex", "p_0", "p_ex")


def c25(ctx):
    ctx.rule("after pickle / copy / deepcopy the original and the duplicate have the same "
             "configuration, evaluate to the same terms and offer the same methods")
    m = Models(CLIENT)
    jac = {"param_list": ["tau", "omega", "x"]}
    states = {
        "new": (*GEOM, *SET),
        "evaluated": (*GEOM, *SET, ("call", "calc", {})),
        "with jacobian": (*GEOM, *SET, ("call", "calc", {}), ("call", "jacobian", jac)),
        "interaction only": (*GEOM, *SET, ("call", "interaction", {})),
        "fixed angles": (("call", "set_bistatic", {"t_0": F("t_0")}),
                         ("call", "set_geometry", {k: v for k, v in ANG.items()
                                                   if k != "t_0"}), *SET,
                         ("call", "calc", {})),
        "expressions": (*GEOM, *SET, ("set", "omega", "omega*tau1"),
                        ("set", "NormBRDF", X(sp.Symbol("NormBRDF"))),
                        ("call", "calc", {"tau1": A("tau1")})),
        "given coefficients": (*GEOM, *SET),
        "given function": (*GEOM, *SET),
        "given function, evaluated": (*GEOM, *SET, ("call", "calc", {})),
    }
    fns = [sp.cos(TH0) + PHX, sp.sin(THX) * TH0, PH0 + 2]
    cfg, s0 = spec()
    s1 = Spec(cfg, omega=S("omega") * S("tau1"))
    for b in BACKENDS:
        for how in ("pickle", "deepcopy", "copy"):
            for label, ops in states.items():
                s = s1 if label == "expressions" else s0
                key = f"[{label} {b}]"
                opt, more = OPT, {}
                if label.startswith("given"):
                    opt = dict(OPT, fn_input=fns) if label == "given coefficients" else \
                        dict(OPT, fnevals_input="user")
                    more = dict(fn=given(fns))
                    s = given_spec(fns)
                r0 = ctx.seen(m.run("build", b, V, SRF, opt, ops))
                r = ctx.seen(m.run("dup", how, r0.value, _state=r0.state))
                if not ctx.obligation(f"{how} {key}", lambda: (
                        ctx.no_raise(r), ctx.value(r)), r):
                    continue
                for which in ("original", "duplicate"):
                    R = pick_tuple(r.value, which == "duplicate")
                    q = ctx.seen(m.run("method", R, "calc", [], {}, _state=r.state))
                    ctx.obligation(f"{which} after {how}: calc() {key}", lambda: (
                        ctx.no_raise(q), check_calc(ctx, q, ctx.value(q), cfg, s,
                                                    "calc()")), q)
                    new = dict(omega=A("om2"), bsf=A("bsf2"))
                    om2 = S("om2") * (S("tau1") if s is s1 else 1)
                    s2 = Spec(cfg, omega=om2, bsf=S("bsf2"))
                    if more:
                        s2.fn = more["fn"]
                    q = ctx.seen(m.run("method", R, "calc", [], new, _state=r.state))
                    ctx.obligation(f"{which} after {how}: calc(new values) {key}", lambda: (
                        ctx.no_raise(q), check_calc(ctx, q, ctx.value(q), cfg, s2,
                                                    "calc()")), q)
                    # evaluations of the other model do not depend on it
                    if how != "copy":
                        O = pick_tuple(r.value, which != "duplicate")
                        q2 = ctx.seen(m.run("method", O, "calc", [], {}, _state=q.state))
                        ctx.obligation(
                            f"other model after {which} of {how} was evaluated {key}",
                            lambda: (ctx.no_raise(q2), check_calc(
                                ctx, q2, ctx.value(q2), cfg, s, "calc()")), q2)
                    q = ctx.seen(m.run("read", R, list(CONF), _state=r.state))

                    def f():
                        ref = m.run("read", r0.value, list(CONF), _state=r0.state)
                        a, c = entries(ctx, q, len(CONF)), entries(ctx, ref, len(CONF))
                        for k, n in enumerate(CONF):
                            for pt, l in ctx.paths_of(ref, pick(c, k)):
                                if isinstance(l, Num):
                                    ctx.same(q, pick(a, k), l.expr, f"R.{n}")
                                else:
                                    equal(ctx, q, pick(a, k), l)
                    ctx.obligation(f"{which} after {how}: configuration {key}", f, q)
                    exp = dict(PAR, **({"tau1": A("tau1")} if s is s1 else {}))
                    q = ctx.seen(m.run("params", R, list(exp), _state=r.state))

                    def g():
                        a = entries(ctx, q, len(exp) + 1)
                        for k, (n, v) in enumerate(exp.items()):
                            ctx.same(q, pick(a, k + 1), v.expr, f"param_dict[{n!r}]")
                        equal(ctx, q, pick(a, 0), len(exp))
                    ctx.obligation(f"{which} after {how}: param_dict {key}", g, q)
                    for name, kw in (("jacobian", jac), ("analyze", {
                            "tau": (C(0.1), C(0.5)), "x": (C(0.1), C(0.5), C(0.3))}),
                            ("analyze3d", {"tau": (C(0.1), C(0.5))}),
                            ("set_monostatic", {}), ("set_geometry", {"t_0": A("t2")})):
                        if name in ("analyze", "analyze3d") and label not in (
                                "new", "evaluated") and not ctx.thorough:
                            continue
                        if name == "set_geometry" and label == "fixed angles":
                            continue
                        q = ctx.seen(m.run("method", R, name, [], kw, _state=r.state))
                        ref = m.run("method", r0.value, name, [], kw, _state=r0.state)

                        def h():
                            if q.value is DEAD and ref.value is not DEAD:
                                raise Mismatch(f"{name}() raises {q.raised_text()}")
                            if ref.ok:
                                ctx.no_raise(q)
                        ctx.obligation(f"{which} after {how}: {name}() {key}", h, q)
    # scattering functions
    for mod, cls, kw, pd in (
            ("V", "Rayleigh", {}, {}), ("V", "HenyeyGreenstein", {"t": "t", "ncoefs": 3},
                                        {"t": A("t")}),
            ("S", "HG_nadirnorm", {"t": "t", "ncoefs": 3, "a": [F("a0"), "u", 1]},
             {"t": A("t"), "u": A("u")}),
            ("V", "LinComb", {"choices": [("w", "Isotropic", {}),
                                          (C(0.5), "Rayleigh", {})]}, {"w": A("w")})):
        for b in BACKENDS:
            for how in ("pickle", "deepcopy", "copy"):
                st = m.run("select", b).state
                r0 = m.run("scatter", mod, cls, dict(kw), _state=st)
                args = [A(a) for a in ANG]
                ref = m.run("method", r0.value, "calc", args, {"param_dict": dict(pd)},
                            _state=r0.state)
                for st0, lab in ((r0.state, "new"), (ref.state, "evaluated")):
                    r = ctx.seen(m.run("dup", how, r0.value, _state=st0))
                    if not ctx.obligation(f"{how} of {mod}.{cls} [{lab} {b}]", lambda: (
                            ctx.no_raise(r), ctx.value(r)), r):
                        continue
                    for w in (0, 1):
                        q = ctx.seen(m.run("method", pick_tuple(r.value, w), "calc", args,
                                           {"param_dict": dict(pd)}, _state=r.state))

                        def f():
                            ctx.no_raise(q)
                            v = ctx.value(q)
                            for pt, l in ctx.paths_of(ref, ref.value):
                                ctx.same(q, v, l.expr, f"{cls}.calc()")
                        ctx.obligation(f"{how} of {mod}.{cls}: calc() of "
                                       f"{'duplicate' if w else 'original'} [{lab} {b}]",
                                       f, q)


def pick_tuple(v, k):
    return lift(lambda t: t[int(k)], v)


# -- C26 ---------------------------------------------------------------------------------
NAMES = ["N", "S", "Q", "O", "x", "b", "np", "sp", "self", "R", "V", "SRF", "t", "a", "n",
         "theta_s", "func", "val", "key", "phi_s", "result", "param_dict", "exp_", "surface",
         "volume", "tau", "omega", "args", "kwargs", "expi", "RT1", "os", "time", "NormBRDF",
         "lambda_func", "chain", "vstack", "bsf"]
QUICK = ["N", "S", "Q", "O", "x", "np", "sp", "a", "n", "chain", "expi", "RT1", "tau", "os",
         "vstack"]
HARMLESS = "zzq"


def c26(ctx):
    ctx.rule("every name is a free parameter in all places where strings are accepted; no "
             "module of the package is modified")
    m = Models(CLIENT)
    args = [A(a) for a in ANG]
    q = lambda n: sp.Symbol(n)  # noqa
    forms = {"name": lambda n: n, "expression": lambda n: f"2*{n} + 1"}
    val = {"name": lambda v: v, "expression": lambda v: 2 * v + 1}
    for name in NAMES if ctx.thorough else QUICK:
        v = S("val")
        for form in forms:
            s, e = forms[form](name), val[form](v)
            es = val[form](q(name))
            # scattering functions: argument t, weights, a
            for lab, mod, cls, kw in (
                    ("argument t", "V", "HenyeyGreenstein", lambda x: {"t": x, "ncoefs": 2}),
                    ("argument t", "S", "HenyeyGreenstein", lambda x: {"t": x, "ncoefs": 2}),
                    ("argument t", "S", "HG_nadirnorm", lambda x: {"t": x, "ncoefs": 2}),
                    ("argument t", "V", "HGRayleigh", lambda x: {"t": x, "ncoefs": 2}),
                    ("a", "V", "Rayleigh", lambda x: {"a": [x, 1, 1]}),
                    ("a", "S", "CosineLobe", lambda x: {"i": 1, "ncoefs": 2,
                                                       "a": [1, 1, x]}),
                    ("weight", "V", "LinComb", lambda x: {"choices": [
                        (x, "Isotropic", {}), (C(0.5), "Rayleigh", {})]}),
                    ("weight", "S", "LinComb", lambda x: {"choices": [
                        (C(0.5), "Isotropic", {}), (x, "Isotropic", {})]})):
                h = forms[form](HARMLESS)
                ref = m.run("scatter_phase", mod, cls, kw(h))
                r = ctx.seen(m.run("scatter_phase", mod, cls, kw(s)))

                def f():
                    leak(r, name)
                    ctx.no_raise(r)
                    w = ctx.value(r)
                    for pt, l in ctx.paths_of(ref, ref.value):
                        ctx.same(r, w, l.expr.subs(q(HARMLESS), q(name)),
                                 f"phase function of {cls}")
                ctx.obligation(f"{lab}={s!r} of {mod}.{cls}", f, r)
                if name in ("t", "a", "n", "self", "param_dict") and form != "name":
                    continue
                for b in BACKENDS if form == "name" else BACKENDS[:1]:
                    ref2 = m.run("scatter_calc", b, mod, cls, kw(h), list(args),
                                 {HARMLESS: A("val")})
                    r2 = ctx.seen(m.run("scatter_calc", b, mod, cls, kw(s), list(args),
                                        {name: A("val")}))

                    def f2():
                        leak(r2, name)
                        if ref2.ok:
                            ctx.no_raise(r2)
                            w = ctx.value(r2)
                            for pt, l in ctx.paths_of(ref2, ref2.value):
                                ctx.same(r2, w, l.expr, f"{cls}.calc()")
                    if name in ("self", "t_0", "t_ex", "p_0", "p_ex"):
                        continue
                    ctx.obligation(f"{mod}.{cls}.calc() with {lab}={s!r} [{b}]", f2, r2)
            # quantities
            if name in ("self",):
                continue
            for qn in ("tau", "omega", "NormBRDF", "bsf"):
                if name in ("tau", "omega", "NormBRDF", "bsf") and name != qn:
                    continue
                for b in BACKENDS if form == "name" else BACKENDS[:1]:
                    r = ctx.seen(m.run("build", b, V, SRF, OPT, (
                        ("set", qn, s), ("call", "update_params", {name: A("val")}))))
                    r2 = ctx.seen(m.run("read", r.value, [qn], _state=r.state))

                    def g():
                        leak(r, name)
                        leak(r2, name)
                        ctx.no_raise(r)
                        ctx.no_raise(r2)
                        ctx.same(r2, pick(entries(ctx, r2, 1), 0), e, f"R.{qn}")
                    ctx.obligation(f"R.{qn} = {s!r} [{b}]", g, r2)
        if name in ("self",):
            continue
        # a complete model in which the name is used everywhere, then a second model
        cfg = Config(geom="bi", phases=(gen_phase("pV", name), gen_phase("pS", name)),
                     coefs=(gen_coef("lV", name), gen_coef("lS", name)), opts=LIN)
        over = {"tau": v, "omega": v / 2}
        sp1 = Spec(cfg, **over)
        sp1.par = {name: v}
        par = {"NormBRDF": A("N"), "bsf": A("bsf"), name: A("val")}
        if name in ("NormBRDF", "bsf", "n"):
            continue  # (n is the index of the expansion coefficients)
        for b in BACKENDS:
            r = ctx.seen(m.run(
                "build", b, (cfg.phases[0], cfg.coefs[0], 2), (cfg.phases[1], cfg.coefs[1],
                                                               2), OPT,
                (("set", "tau", name), ("set", "omega", f"{name}/2"), *GEOM,
                 ("call", "update_params", par))))
            for nm, kw in (("calc", {}), ("jacobian", {"param_list": [name]})):
                c = ctx.seen(m.run("method", r.value, nm, [], kw, _state=r.state))

                def h():
                    leak(r, name)
                    leak(c, name)
                    ctx.no_raise(c)
                    w = ctx.value(c)
                    if nm == "calc":
                        w = ctx.elements(c, w, 4)
                        ctx.same(c, pick(w, 1), sp1.surface(), "calc()[1]")
                        ctx.same(c, pick(w, 2), sp1.volume(), "calc()[2]")
                ctx.obligation(f"{nm}() of a model with the parameter {name} [{b}]", h, c)
            st = c.state if c.ok else r.state
            cfg2, s2 = spec()
            r2 = ctx.seen(m.run("build", b, V, SRF, OPT, (*GEOM, *SET), _state=st))
            c2 = ctx.seen(m.run("method", r2.value, "calc", [], {}, _state=r2.state)
                          if r2.ok else r2)
            ctx.obligation(f"another model after a parameter {name} was used [{b}]",
                           lambda: (ctx.no_raise(c2), check_calc(
                               ctx, c2, ctx.value(c2), cfg2, s2, "calc()")), c2)


def leak(r, name):
    for kind, data, pc, where, stack in r.events:
        if kind == "setglobal" and data[1] == name and feasible(r, pc):
            raise Mismatch(f"the module-level name {name!r} is assigned at {where}")
        if kind == "not-expression" and feasible(r, pc):
            raise Mismatch(f"the name {name!r} is not taken as a parameter but as the "
                           f"sympy object {data[0]} at {where}")
        if kind == "namespace" and feasible(r, pc):
            raise Mismatch(f"symbols are injected into the namespace at {where}")
