"""C27: shapes of the results for array inputs."""
import itertools

import sympy as sp

from ..harness import A, C, DEAD, F, Path, S, X, exc_name, short
from ..model import BACKENDS, Config, Models, Spec, gen_coef, gen_phase
from ..report import Mismatch, Tup, Unclear, domain
from ..values import *  # noqa
from .package import CLIENT, feasible
from .physics import LIN, interaction_oracle

ANGS = ("t_0", "t_ex", "p_0", "p_ex")
BAD = {"misalign": "an internal axis is aligned with an axis of the inputs",
       "ragged": "arrays of different shapes are stacked",
       "ambiguous-truth": "the truth value of an array is used",
       "scalar-only": "a function for scalars is called with an array"}


def tokens(ctx, r, v, what):
    """Shapes of a value on all feasible paths: [(path, tokens, expression)]."""
    ret = []
    for pt, l in ctx.paths_of(r, v):
        if isinstance(l, Arr) and len(l.items) == 1:
            raise Mismatch(f"{what} has an additional axis")
        if isinstance(l, (int, float)):
            l = Num(sp.sympify(l), "float")
        if not isinstance(l, Num):
            raise Unclear(f"{what} is {short(l)}")
        ret.append((pt, l.shape, sp.sympify(l.expr)))
    if not ret:
        raise Mismatch(f"no value for {what}")
    return ret


def check_shape(ctx, r, v, need, most, what):
    """need <= shape <= most; and inputs the value depends on are part of the shape."""
    shapes = set()
    for pt, sh, e in tokens(ctx, r, v, what):
        ctx.paths += 1
        dep = {str(s)[2:] for s in e.free_symbols} & most
        other = {t for t in sh if not isinstance(t, str)}
        lost = (need | dep) - sh
        for t in other:
            if isinstance(t, tuple) and t[0] in ("T", "squeeze", "ravel") and t[1] and all(
                    isinstance(q, str) for q in t[1]):
                raise Mismatch(f"{what}: the axes of {sorted(t[1])} are not those of the "
                               f"input ({t[0]}) if {pt.text()}")
        if other:
            msg = f"{what} has the axes {sorted(map(str, sh))} if {pt.text()}"
            raise Unclear(msg)
        if lost:
            raise Mismatch(f"{what}: the shape of {sorted(lost)} is not part of the shape "
                           f"of the result if {pt.text()}")
        if sh - most:
            raise Unclear(f"{what}: unexpected axes {sorted(sh - most)}")
        ctx.terms += 1
        shapes.add(sh)
    return shapes


def no_events(r, what):
    for k, d, pc, wh, st in r.events:
        if k in BAD and feasible(r, pc):
            raise Mismatch(f"{what}: {BAD[k]} at {wh}: {short(d, 200)}")


def cases(ctx):
    """(label, V, SRF, parameters, options, ops)"""
    gv = gen_phase("pV", "x"), gen_coef("lV", "x")
    gs = gen_phase("pS", "y"), gen_coef("lS", "y")
    one = sp.Integer(1)
    scat = {
        "generic": ((*gv, 2), (*gs, 2), ("x", "y")),
        "generic 1x1": ((*gv, 1), (*gs, 1), ("x", "y")),
        "generic 3x1": ((*gv, 3), (*gs, 1), ("x", "y")),
        "constant V": ((one / 7, one / 7 * sp.KroneckerDelta(sp.Symbol("n"), 0), 1),
                       (*gs, 2), ("y",)),
        "constant": ((one / 7, one / 7 * sp.KroneckerDelta(sp.Symbol("n"), 0), 1),
                     (one / 5, one / 5 * sp.KroneckerDelta(sp.Symbol("n"), 0), 1), ()),
        "V without parameters": ((gen_phase("pV"), gen_coef("lV"), 2), (*gs, 1), ("y",)),
        "SRF without parameters": ((*gv, 1), (gen_phase("pS"), gen_coef("lS"), 3), ("x",)),
    }
    ret = []
    full = dict(tau=A("tau"), omega=A("omega"), NormBRDF=A("N"), bsf=A("bsf"))
    for name, (v, s, own) in scat.items():
        ret.append((name, v, s, {**full, **{k: A(k) for k in own}}, {}, ()))
    v, s, own = scat["generic"]
    for keep in itertools.chain(((k,) for k in (*full, *own)),
                                (("tau", "x"), ("omega", "y"), ("NormBRDF", "bsf"), ())):
        ret.append((f"only {','.join(keep) or 'angles'} as arrays", v, s,
                    {k: (a if k in keep else F(str(a.expr)[2:]))
                     for k, a in {**full, **{q: A(q) for q in own}}.items()}, {}, ()))
    ret.append(("default bsf", v, s, {**{k: a for k, a in full.items() if k != "bsf"},
                                      "x": A("x"), "y": A("y")}, {}, ()))
    ret.append(("expressions", v, s, dict(q=A("q"), w=A("w"), omega=A("omega"),
                                          NormBRDF=A("N"), x=A("x"), y=A("y")), {},
                (("set", "tau", "q*w + 1"), ("set", "bsf", "w/10"))))
    for o in (dict(sig0=True), dict(dB=True), dict(dB=True, sig0=True), dict(int_Q=False),
              dict(int_Q=False, dB=True, sig0=True)):
        for name in ("generic", "constant") if ctx.thorough else ("generic",):
            v, s, own = scat[name]
            ret.append((f"{name} {o}", v, s, {**full, **{k: A(k) for k in own}}, o, ()))
    return ret


def c27(ctx):
    ctx.rule("every contribution of calc() carries the shape tokens of all angles and "
             "every value those of all parameters it depends on, the contributions of calc() have equal shapes, each "
             "element is the scalar term, and no operation on the way aligns an internal "
             "axis, stacks different shapes or needs a scalar")
    m = Models(CLIENT)
    geoms = []
    for arr in ((), ("t_0",), ("p_0",), ("t_0", "p_0")):
        geoms.append(("mono", {}, {a: (A(a) if a in arr else F(a)) for a in ("t_0", "p_0")}))
    geoms.append(("mono", {"p_0": F("p_0")}, {"t_0": A("t_0")}))
    for arr in (ANGS, ("t_0",), ("t_ex",), ("p_0",), ("p_ex",), ("t_0", "t_ex"), ()):
        geoms.append(("bi", {}, {a: (A(a) if a in arr else F(a)) for a in ANGS}))
    for fx in (("t_0",), ("t_ex", "p_ex"), ("p_0", "p_ex"), ("t_0", "p_0"),
               ("t_0", "t_ex", "p_0")):
        geoms.append(("bi", {a: F(a) for a in fx}, {a: A(a) for a in ANGS if a not in fx}))
    cs = cases(ctx)
    for b in BACKENDS:
        for gi, (geom, fixed, angles) in enumerate(geoms):
            for ci, (label, v, s, pars, opts, ops) in enumerate(cs):
                if not ctx.thorough and gi not in (3, 5) and ci not in (0, 4, 18):
                    continue
                if not ctx.thorough and b == BACKENDS[1] and gi not in (5,):
                    continue
                most = {k for k, q in angles.items() if q.kind == "array"} | {
                    str(q.expr)[2:] for q in pars.values() if q.kind == "array"}
                need = {k for k, q in angles.items() if q.kind == "array"}
                full = [("call", "set_" + geom + "static", dict(fixed)),
                        ("call", "set_geometry", dict(angles)), *ops]
                lab = (f"{b} {geom} fixed={','.join(fixed) or '-'} arrays="
                       f"{','.join(sorted(need)) or '-'} {label}")
                r0 = ctx.seen(m.run("build", b, v, s, {**LIN, "I0": F("I0"), **opts}, full))
                if not ctx.obligation(f"{lab}: model", lambda: (
                        ctx.value(r0), ctx.no_raise(r0), no_events(r0, "the model")), r0):
                    continue
                for name in ("calc", "surface", "volume", "interaction"):
                    if not ctx.thorough and name != "calc" and gi not in (3, 5):
                        continue
                    if name == "interaction" and opts.get("int_Q") is False:
                        continue
                    r = ctx.seen(m.run("method", r0.value, name, (), pars, _state=r0.state))

                    def f():
                        val = ctx.value(r)
                        ctx.no_raise(r)
                        no_events(r, name + "()")
                        if name != "calc":
                            check_shape(ctx, r, val, set(), most, name + "()")
                            return
                        el = ctx.elements(r, val, 4)
                        n = 0
                        for pt, t in ctx.paths_of(r, el):
                            if not isinstance(t, Tup):
                                raise Unclear(f"calc() is {short(t)}")
                            got = set()
                            for k, x in enumerate(t.items):
                                n += 1
                                got |= check_shape(ctx, r, x, need, most, f"calc()[{k}]")
                            if len(got) != 1:
                                raise Mismatch("the contributions of calc() have different "
                                               f"shapes: {[sorted(q) for q in got]}")
                        if not n:
                            raise Mismatch("no contributions")
                    ctx.obligation(f"{lab}: {name}()", f, r)
    # elementwise values for arrays in every argument
    for b in BACKENDS:
        for geom in ("mono", "bi"):
            cfg = Config(geom=geom, backend=b, nv=2, ns=2)
            r = ctx.seen(m.config("m_calc", cfg))
            sp_ = cfg.spec()

            def f():
                el = ctx.elements(r, ctx.value(r), 4)
                for k, o in ((1, sp_.surface()), (2, sp_.volume()),
                             (3, interaction_oracle(cfg, sp_))):
                    ctx.same(r, lift(lambda t: t.items[k] if isinstance(t, Tup) else t, el),
                             o, f"element of calc()[{k}]")
            ctx.obligation(f"{b} {geom}: each element is the scalar result", f, r)
    scattering(ctx, m)


def scattering(ctx, m):
    """calc() of the scattering functions."""
    subsets = [(), ANGS, *((a,) for a in ANGS), ("t_0", "t_ex"), ("p_0", "p_ex")]
    for b in BACKENDS:
        for mod, cls, kw, pd in (
                ("V", "Isotropic", {}, {}), ("V", "Rayleigh", {}, {}),
                ("V", "HenyeyGreenstein", dict(t="t", ncoefs=2), dict(t=A("t"))),
                ("V", "HGRayleigh", dict(t="t", ncoefs=2), dict(t=A("t"))),
                ("S", "Isotropic", {}, {}),
                ("S", "CosineLobe", dict(ncoefs=2, i=2), {}),
                ("S", "HenyeyGreenstein", dict(t="t", ncoefs=2), dict(t=A("t"))),
                ("S", "HG_nadirnorm", dict(t="t", ncoefs=2), dict(t=A("t"))),
                ("V", "LinComb", dict(choices=[
                    ("w", "Rayleigh", {}), (0.5, "Isotropic", {})]), dict(w=A("w")))):
            for arr in subsets:
                args = tuple(A(a) if a in arr else F(a) for a in ANGS)
                most = set(arr) | set(pd)
                r = ctx.seen(m.run("scatter_calc", b, mod, cls, kw, args, pd))

                def f():
                    v = ctx.value(r)
                    ctx.no_raise(r)
                    no_events(r, "calc()")
                    for pt, sh, e in tokens(ctx, r, v, "calc()"):
                        dep = {str(s)[2:] for s in e.free_symbols} & most
                        if dep - sh:
                            raise Mismatch(f"the shape of {sorted(dep - sh)} is lost")
                        if any(not isinstance(t, str) for t in sh):
                            raise Unclear(f"axes {sorted(map(str, sh))}")
                        ctx.paths += 1
                        ctx.terms += 1
                ctx.obligation(f"{b} {mod}.{cls} arrays={','.join(arr) or '-'}", f, r)
