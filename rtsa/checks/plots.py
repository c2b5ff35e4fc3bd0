"""C28 - C30: hemispherical reflectance, polar plots and analyzers."""
import itertools

import sympy as sp

from ..harness import A, C, DEAD, F, Path, S, X, exc_name, short
from ..model import BACKENDS, Config, Models, Spec, gen_coef, gen_phase
from ..report import Mismatch, Tup, Unclear, domain
from ..terms import NF
from ..values import *  # noqa
from .package import CLIENT, OPT, SRF, V, feasible
from .physics import LIN, interaction_oracle

# Environment model of the matplotlib widgets (analysed together with the package).
WIDGETS = '''
SLIDERS = []
RADIOS = []


class _Widget:
    def on_changed(self, func):
        self.callbacks.append(func)
        return len(self.callbacks)

    def on_clicked(self, func):
        self.callbacks.append(func)
        return len(self.callbacks)

    def _fire(self, val):
        for func in self.callbacks:
            func(val)


class Slider(_Widget):
    def __init__(self, ax, label, valmin, valmax, *, valinit=0.5, **kwargs):
        self.callbacks = []
        self.ax = ax
        self.label = label
        self.valmin = valmin
        self.valmax = valmax
        self.valinit = valinit
        self.val = valinit
        SLIDERS.append(self)

    def set_val(self, val):
        self.val = val
        self._fire(val)


class RadioButtons(_Widget):
    def __init__(self, ax, labels, active=0, **kwargs):
        self.callbacks = []
        self.labels = list(labels)
        self.value_selected = self.labels[active]
        RADIOS.append(self)

    def set_active(self, index):
        self.value_selected = self.labels[index]
        self._fire(self.value_selected)
'''

CLI = CLIENT + '''
from rt1_model import plot
from matplotlib import widgets


class Failing(RT1):
    fail = False

    def calc(self, **kwargs):
        if self.fail:
            raise RuntimeError("calc")
        return super().calc(**kwargs)

    def interaction(self, **kwargs):
        if self.fail:
            raise RuntimeError("interaction")
        return super().interaction(**kwargs)


def hem_gen(backend, args, kw):
    set_lambda_backend(backend)
    return GenS(*args).hemreflect(**kw)


def hem_srf(backend, cls, ckw, kw):
    set_lambda_backend(backend)
    return plot.hemreflect(SRF=scatter("S", cls, ckw), **kw)


def hem_R(backend, V, S, opts, ops, kw):
    R = build(backend, V, S, opts, ops)
    return plot.hemreflect(R=R, **kw)


def hem_none(kw):
    return plot.hemreflect(**kw)


def polar_gen(backend, which, args, kw):
    set_lambda_backend(backend)
    if which == "V":
        obj = GenV(*args)
    else:
        obj = GenS(*args)
    obj.polarplot(**kw)


def polar_cls(backend, which, cls, ckw, kw):
    set_lambda_backend(backend)
    obj = scatter(which, cls, ckw)
    plot.polarplot(obj, **kw)


def analyzer(which, backend, V, S, opts, ops, pars):
    set_lambda_backend(backend)
    R = Failing(V=GenV(*V), SRF=GenS(*S), **opts)
    apply(R, ops)
    return R, getattr(R, which)(**pars)


def sliders(n):
    ret = []
    for s in widgets.SLIDERS:
        ret.append((s.label, s.valmin, s.valmax, s.valinit, len(s.callbacks)))
    return ret


def move(k, val):
    widgets.SLIDERS[k].set_val(val)


def select(k):
    widgets.RADIOS[0].set_active(k)


def fail(R, k, val):
    R.fail = True
    widgets.SLIDERS[k].set_val(val)


def int_q(R):
    return R.int_Q
'''


def models(**kw):
    return Models(CLI, overlay={"matplotlib.widgets": WIDGETS}, **kw)


def calls(r, *names):
    """Calls of external functions / methods with one of the given last names."""
    for k, d, pc, wh, st in r.events:
        if k == "ext-call" and feasible(r, pc):
            n = str(d[0]).split("(")[-1] if "." not in str(d[0]) else str(d[0]).rsplit(
                ".", 1)[-1]
            if n in names:
                yield d[1], dict(d[2]), pc, wh


def drawn(r):
    return [(k, d, wh) for k, d, pc, wh, st in r.events
            if k == "ext-call" and str(d[0]).startswith("matplotlib") and feasible(r, pc)]


def opqs(r, e):
    return sorted((s for s in e.free_symbols if s in r.i.sym_opq), key=str)


# -- C28 ---------------------------------------------------------------------------------
def nested_opq(r, todo):
    """All unresolved values that occur in unresolved values."""
    todo, seen = list(todo), set()
    while todo:
        o = todo.pop()
        if isinstance(o, Opq):
            if id(o) not in seen:
                seen.add(id(o))
                yield o
                todo.extend(o.args)
        elif isinstance(o, (tuple, list)):
            todo.extend(o)
        elif isinstance(o, Arr):
            todo.extend(o.items)
        elif isinstance(o, Gate):
            todo.extend(x for _, x in leaves(o))
        elif isinstance(o, Num):
            todo.extend(r.i.sym_opq[q] for q in opqs(r, o.expr))


def is_integral(e):
    return type(e).__name__ == "integral" or str(getattr(e, "func", "")) == "integral"


def linear_integrals(e):
    """[(factor, integral term)] with e = sum of factor*integral."""
    ret = []
    for t in sp.Add.make_args(sp.expand_mul(e) if e.is_Mul and e.has(sp.Add) else e):
        fs = sp.Mul.make_args(t)
        ints = [q for q in fs if is_integral(q)]
        if len(ints) != 1:
            raise Unclear(f"not a linear term in an integral: {short(t, 200)}")
        ret.append((sp.Mul(*[q for q in fs if not is_integral(q)]), ints[0]))
    return ret


TS, PS = sp.symbols("TS PS")


def double_integral(e):
    """[(integrand, {symbol: range})] of a sum of iterated integrals."""
    ret = []
    for c, t in linear_integrals(e):
        f, g, lo, hi = t.args
        try:
            inner = linear_integrals(f)
        except Unclear:
            inner = [(f, None)]
        for c2, t2 in inner:
            if t2 is None:
                ret.append((c * c2, {g: (lo, hi)}))
                continue
            f2, g2, lo2, hi2 = t2.args
            if any(is_integral(q) for q in sp.preorder_traversal(f2)):
                raise Unclear("more than two integrations")
            ret.append((c * c2 * f2, {g: (lo, hi), g2: (lo2, hi2)}))
    return ret


HEMI = {TS: (sp.Integer(0), sp.pi / 2), PS: (sp.Integer(0), 2 * sp.pi)}


def check_hemi(ctx, r, e, oracle, what):
    """e must be the integral of oracle(TS, PS) over the hemisphere."""
    for o in nested_opq(r, [r.i.sym_opq.get(s) for s in opqs(r, e)]):
        if o.op == "misaligned":
            raise Mismatch(f"{what}: the samples are integrated along the wrong axis: "
                           f"{short(o)}")
    parts = double_integral(e)
    nf = NF()
    if len(parts) != 1:
        ranges = {tuple(sorted(map(str, p[1].values()))) for p in parts}
        if len(ranges) != 1:
            raise Unclear(f"{what}: a sum of integrals over different domains")
    f = sp.Add(*[p[0] for p in parts]) if len(
        {tuple(p[1]) for p in parts}) == 1 else None
    if f is None:
        raise Unclear(f"{what}: integrals with different variables")
    dom = parts[0][1]
    if len(dom) != 2:
        raise Mismatch(f"{what} is not a double integral: {short(e)}")
    fits, ranges = [], []
    for names in itertools.permutations((TS, PS)):
        rep = dict(zip(dom, names))
        g = f.xreplace(rep)
        if nf.equal(g, oracle):
            fits.append(rep)
        if all(sp.simplify(sp.Add(a, -b)) == 0 for q in dom
               for a, b in zip(dom[q], HEMI[rep[q]])):
            ranges.append(rep)
    if any(rep in ranges for rep in fits):
        ctx.terms += 1
        return
    other = [q for q in opqs(r, f) if q not in dom]
    msg = (f"{what} is the integral of {short(f)} over "
           f"{ {str(k): v for k, v in dom.items()} }, expected the integral of "
           f"{short(oracle)} over TS in [0, pi/2] and PS in [0, 2*pi]")
    if other:
        raise Unclear(msg)
    if fits or ranges:
        raise Mismatch(msg)
    w = separating_function(f, dom, oracle)
    if w is None:
        raise Unclear(msg)
    raise Mismatch(f"{msg}; the two differ for a BRDF {w}")


def separating_function(f, dom, oracle):
    """A BRDF (as a function of theta_0, theta_ex, phi_0, phi_ex) for which the iterated
    integral of f differs from the integral of the oracle over the hemisphere."""
    a, b, c, d = sp.symbols("a b c d")
    gen = SRF_X[0].func
    if not (f.has(gen) and oracle.has(gen)):
        return None

    def val(e, dm, w):
        e = e.replace(lambda q: isinstance(q, gen), lambda q: w.subs(
            dict(zip((a, b, c, d), q.args[:4])), simultaneous=True))
        free = sorted(e.free_symbols - set(dm), key=str)
        e = e.subs({q: sp.Rational(3 + 2 * k, 7) for k, q in enumerate(free)})
        for q, (lo, hi) in dm.items():
            if sp.sympify(lo).free_symbols or sp.sympify(hi).free_symbols:
                return None
            e = sp.integrate(sp.expand(e), (q, lo, hi))
        return None if e.has(sp.Integral) else e
    for w in (sp.Integer(1), d, sp.sin(d), sp.cos(d), b):
        x, y = val(f, dom, w), val(oracle, HEMI, w)
        if x is not None and y is not None and abs(sp.N(x - y)) > 1e-9:
            return w
    return None


def check_reflectance(ctx, r, v, t0, phi0, srf, norm, what):
    """v: list of the integrals for the incidence angles t0 (degrees)."""
    el = ctx.elements(r, v, len(t0))
    n = 0
    for pt, t in ctx.paths_of(r, el):
        n += 1
        if not isinstance(t, Tup) or len(t.items) != len(t0):
            raise Mismatch(f"{what}: {len(t0)} values are expected, not {short(t)}")
        for k, x in enumerate(t.items):
            for pt2, l in ctx.paths_of(r, x):
                e = getattr(l, "expr", None)
                if e is None:
                    raise Unclear(f"{what}[{k}] is {short(l)}")
                th = sp.pi * sp.Rational(t0[k]) / 180
                o = norm * srf(th, TS, phi0, PS) * sp.cos(TS) * sp.sin(TS)
                ctx.paths += 1
                check_hemi(ctx, r, e, o, f"{what} at {t0[k]} deg")
    if not n:
        raise Mismatch(f"no value for {what}")


def gen_srf(th, ts, ph, ps):
    return SRF_X[0].subs({"theta_0": th, "theta_ex": ts, "phi_0": ph, "phi_ex": ps,
                          "x": S("x")}, simultaneous=True)


SRF_X = (gen_phase("pS", "x"), gen_coef("lS"), 2)


def is_max(r, nf, e, vals):
    """e is the maximum of the given values."""
    o = r.i.sym_opq.get(e)
    if not isinstance(o, Opq) or o.op not in ("max", "amax", "nanmax"):
        return False
    x = o.args[0]
    items = x.items if isinstance(x, Arr) else x if isinstance(x, (tuple, list)) else ()
    return len(items) == len(vals) and all(
        isinstance(a, Num) and nf.equal(a.expr, b) for a, b in zip(items, vals))


def warning(ctx, r, v, t0, what):
    """A message is emitted exactly if an entry of the result exceeds 1."""
    el = ctx.elements(r, v, len(t0))
    vals = [getattr(x, "expr", None) for _, t in ctx.paths_of(r, el) for x in t.items]
    found = []
    for k, d, pc, wh, st in r.events:
        if k == "print" or k == "ext-call" and str(d[0]).rsplit(".", 1)[-1] in (
                "warning", "warn", "error", "critical", "info"):
            if not feasible(r, pc):
                continue
            if pc is True:
                continue  # unconditional message
            found.append((pc, wh))
    if not found:
        raise Mismatch(f"{what}: no message that depends on the reflectance")
    nf = NF()
    bad = None
    for pc, wh in found:
        try:
            for path, l in leaves(pc):
                got = {}
                for a, val in path:
                    key = r.i.atoms.keys[a]
                    if key[0] != "gt" or not isinstance(key[1], sp.Basic):
                        raise Unclear(f"{what}: message depends on {key}")
                    if is_max(r, nf, key[1] + 1, vals):
                        got.update({q: val for q in range(len(vals))})
                        continue
                    for q, e in enumerate(vals):
                        if nf.equal(key[1], e - 1):
                            got[q] = val
                            break
                        if nf.equal(key[1], 1 - e):
                            got[q] = not val  # below or equal / above
                            break
                    else:
                        raise Mismatch(f"{what}: the message depends on {key[1]} > 0, "
                                       f"not on a reflectance above 1 ({wh})")
                if l is True and not any(got.values()):
                    raise Mismatch(f"{what}: message without a value above 1 ({wh})")
                if l is not True and (any(got.values()) or len(got) < len(vals)):
                    raise Mismatch(f"{what}: no message although a value may exceed 1 "
                                   f"({wh})")
            return
        except (Mismatch, Unclear) as ex:
            bad = bad or ex
    raise bad


def c28(ctx):
    ctx.rule("every returned value is (after exact normalisation) NormBRDF times the "
             "iterated integral of BRDF*cos*sin over [0,pi/2] x [0,2*pi]; sample axes and "
             "grid variables have to match; the message is emitted iff a value exceeds 1")
    m = models()
    grids = [dict(t_0_min=10, t_0_max=50, t_0_step=20), dict(t_0_min=0, t_0_max=3,
                                                             t_0_step=1)]
    if ctx.thorough:
        grids += [{}, dict(t_0_min=60, t_0_max=61, t_0_step=7)]
    for b in BACKENDS:
        for g in grids:
            t0 = list(range(g.get("t_0_min", 0), g.get("t_0_max", 90),
                            g.get("t_0_step", 5)))
            for phi in (None, F("phi")):
                for N in (None, 10, F("num")) if g is grids[0] else (None,):
                    for norm in (None, F("N")):
                        kw = dict(g, returnarray=True)
                        if phi is not None:
                            kw["phi_0"] = phi
                        if N is not None:
                            kw["simps_N"] = N
                        pd = dict(x=F("x"))
                        if norm is not None:
                            pd["NormBRDF"] = norm
                        kw["param_dict"] = pd
                        r = ctx.seen(m.run("hem_gen", b, SRF_X, kw))

                        def f():
                            v = ctx.value(r)
                            ctx.no_raise(r)
                            check_reflectance(
                                ctx, r, v, t0, S("phi") if phi is not None else 0, gen_srf,
                                S("N") if norm is not None else sp.Integer(1),
                                "hemreflect()")
                            warning(ctx, r, v, t0, "hemreflect()")
                        ctx.obligation(f"SRF.hemreflect {b} {g} phi={phi} N={N} "
                                       f"norm={norm}", f, r)
    # default grid
    r = ctx.seen(m.run("hem_gen", BACKENDS[0], SRF_X, dict(
        returnarray=True, param_dict=dict(x=F("x")))))
    ctx.obligation("default grid", lambda: check_reflectance(
        ctx, r, ctx.value(r), list(range(0, 90, 5)), 0, gen_srf, sp.Integer(1),
        "hemreflect()"), r)
    # the normalisation of a model
    g, t0 = grids[0], [10, 30]
    for b in BACKENDS:
        for name, ops, norm in (
                ("value", [("call", "update_params", dict(NormBRDF=F("N")))], S("N")),
                ("attribute", [("set", "NormBRDF", F("N"))], S("N")),
                ("expression", [("set", "NormBRDF", "2*q + w"),
                                ("call", "update_params", dict(q=F("q"), w=F("w")))],
                 2 * S("q") + S("w"))):
            for pd in (dict(x=F("x")), dict(x=F("x"), other=F("o"))):
                r = ctx.seen(m.run("hem_R", b, V, SRF_X, OPT, ops,
                                   dict(g, returnarray=True, param_dict=pd)))
                ctx.obligation(
                    f"hemreflect(R) {b} NormBRDF={name} {sorted(pd)}",
                    lambda: (ctx.no_raise(r), check_reflectance(
                        ctx, r, ctx.value(r), t0, 0, gen_srf, norm, "hemreflect()")), r)
    # built-in functions
    th0, ts, p0, ps = sp.symbols("a b c d")
    cosT = sp.cos(th0) * sp.cos(ts) + sp.sin(th0) * sp.sin(ts) * (
        sp.cos(p0) * sp.cos(ps) + sp.sin(p0) * sp.sin(ps))
    sT = -sp.cos(th0) * sp.cos(ts) + sp.sin(th0) * sp.sin(ts) * (
        sp.cos(p0) * sp.cos(ps) + sp.sin(p0) * sp.sin(ps))
    t = S("t")
    classes = [
        ("Isotropic", {}, {}, lambda *a: 1 / sp.pi),
        ("HenyeyGreenstein", dict(t="t", ncoefs=3), dict(t=F("t")),
         lambda *a: (1 - t ** 2) / (sp.pi * (1 + t ** 2 - 2 * t * cosT.subs(
             dict(zip((th0, ts, p0, ps), a)), simultaneous=True)) ** sp.Rational(3, 2))),
    ]
    for b in BACKENDS:
        for cls, ckw, pd, fn in classes:
            r = ctx.seen(m.run("hem_srf", b, cls, ckw, dict(g, returnarray=True,
                                                            param_dict=pd)))
            ctx.obligation(
                f"hemreflect(SRF={cls}) {b}", lambda: (ctx.no_raise(r), check_reflectance(
                    ctx, r, ctx.value(r), t0, 0, fn, sp.Integer(1), "hemreflect()")), r)
    # figure
    r = ctx.seen(m.run("hem_gen", BACKENDS[0], SRF_X, dict(
        g, param_dict=dict(x=F("x"), NormBRDF=F("N")))))

    def dom(key, sub):
        # the result is one-dimensional
        if key[0] == "rel" and "ndim" in str(key[2:]):
            return {"Gt": False, "Eq": True, "NotEq": False, "LtE": True}.get(key[1])
        return domain(key, sub)

    def possible(pc):
        return any(x is True and Path(r.i, p, dom).feasible for p, x in leaves(pc))

    def fig():
        ctx.value(r)
        for st, e in r.raised:
            if possible(st.pc):
                raise Mismatch(f"raises {exc_name(e)} at {e.where}")
        n = 0
        for a, kw, pc, wh in calls(r, "plot"):
            if not possible(pc):
                continue
            if len(a) < 2:
                continue
            n += 1
            check_reflectance(ctx, r, a[1], t0, 0, gen_srf, S("N"), f"curve at {wh}")
            el = ctx.elements(r, a[0], len(t0))
            for _, q in ctx.paths_of(r, el):
                got = [getattr(x, "expr", x) for x in q.items]
                if [sp.sympify(x) for x in got] != [sp.Integer(x) for x in t0]:
                    raise Mismatch(f"the curve at {wh} is drawn over {got}")
        if not n:
            raise Unclear("no curve found")
    ctx.obligation("figure", fig, r)
    r = ctx.seen(m.run("hem_none", {}))
    ctx.check("neither R nor SRF", r.value is DEAD,
              "hemreflect() without R and SRF returns a value", r)


# -- C29 ---------------------------------------------------------------------------------
def curves(r, ctx):
    """(theta, value, where) of everything that is drawn with plot()."""
    ret = []
    for a, kw, pc, wh in calls(r, "plot"):
        a = [x for x in a if not isinstance(x, str)]
        if len(a) % 2 or not a:
            raise Unclear(f"arguments of plot() at {wh}: {short(a)}")
        for k in range(0, len(a), 2):
            ret.append((a[k], a[k + 1], wh, pc))
    return ret


def one(ctx, r, v, what):
    """Expression of an ungated value."""
    got = []
    for pt, l in ctx.paths_of(r, v):
        if isinstance(l, Arr) and len(l.items) == 1:
            l = l.items[0]
        if isinstance(l, (int, float)):
            l = Num(sp.Rational(str(l)), "float")
        if not isinstance(l, Num):
            raise Unclear(f"{what} is {short(l)}")
        got.append((pt, l.expr))
    if not got:
        raise Mismatch(f"no value for {what}")
    return got


def legendre(coefs, x):
    return sum(c * sp.legendre(n, x) for n, c in enumerate(coefs))


def check_polar(ctx, r, expected, what):
    """expected: list of functions theta -> term; every curve is drawn exactly once."""
    ctx.value(r)
    ctx.no_raise(r)
    left = list(enumerate(expected))
    nf = NF()
    for th, val, wh, pc in curves(r, ctx):
        ths = one(ctx, r, th, "theta")
        if len(ths) != 1:
            raise Unclear(f"theta at {wh} depends on conditions")
        te = ths[0][1]
        rep = {q: S("grid_" + str(k)) for k, q in enumerate(opqs(r, te))}
        for pt, e in one(ctx, r, val, f"the curve at {wh}"):
            ctx.paths += 1
            e2 = sp.sympify(e).xreplace(rep)
            for n, (k, fn) in enumerate(left):
                o = sp.sympify(fn(te.xreplace(rep)))
                if nf.equal(e2, o.subs(pt.sub) if pt.sub else o):
                    ctx.terms += 1
                    del left[n]
                    break
            else:
                msg = (f"{what}: the curve {short(e2)} drawn over {short(te.xreplace(rep))}"
                       f" at {wh} is none of the expected curves, e.g. "
                       f"{[short(fn(te.xreplace(rep)), 200) for _, fn in left[:2]]}")
                if opqs(r, e2) or pt.unsolved:
                    raise Unclear(msg)
                raise Mismatch(msg)
    if left:
        raise Mismatch(f"{what}: {len(left)} of {len(expected)} expected curves are not "
                       f"drawn, e.g. {short(left[0][1](S('grid_0')), 200)}")


def rad(x):
    return sp.pi * x / 180


def c29(ctx):
    ctx.rule("the set of drawn curves equals the expected set (function and Legendre "
             "expansion per angle and parameter set); no external drawing call is reached "
             "before the error for missing parameters")
    m = models()
    incs = ([F("i1")], [F("i1"), F("i2")], [20.0, 65.0, 80.0],
            [F(f"i{k}") for k in range(1, 10)])
    psets = (None, dict(x=F("x1")), [dict(x=F("x1"))], [dict(x=F("x1")), dict(x=F("x2"))],
             [dict(x=F("x1"), other=F("o")), dict(x=F("x2"))],
             [dict(x=F("x1")), dict(other=F("o"), x=F("x2"))])

    def gen(which, phase, coef, n, inc, par, approx, a):
        ret = []
        for p in par:
            sub = {"x": p["x"].expr} if p else {}
            for q in inc:
                ti = rad(q.expr if isinstance(q, Num) else sp.Rational(str(q)))
                ret.append(lambda th, ti=ti, sub=sub: sp.sympify(phase).subs(
                    {"theta_0": ti, "theta_ex": th, "phi_0": 0, "phi_ex": 0, **sub},
                    simultaneous=True))
                if approx:
                    ret.append(lambda th, ti=ti, sub=sub: legendre(
                        [coef.subs("n", k).subs(sub) for k in range(n)],
                        a[0] * sp.cos(ti) * sp.cos(th) + a[1] * sp.sin(ti) * sp.sin(th)))
        return ret

    for b in BACKENDS:
        for which, dflt in (("V", (-1, 1, 1)), ("S", (1, 1, 1))):
            for inc, par in itertools.product(incs, psets):
                for n, apx, own_a in ((3, None, False), (3, False, False),
                                      (None, None, False), (2, True, True), (1, True, False)):
                    if not ctx.thorough and (n, apx) not in ((3, None),) and (
                            inc is not incs[1] or par not in psets[3:4]):
                        continue
                    pars = ("x",) if par else ()
                    ph, co = gen_phase("p", *pars), gen_coef("l", *pars)
                    a = (F("a0"), F("a1"), F("a2")) if own_a else dflt
                    args = (ph, co, *((n,) if n or own_a else ()),
                            *(([*a],) if own_a else ()))
                    if own_a and not n:
                        continue
                    kw = dict(inc=list(inc))
                    if par is not None:
                        kw["param_dict"] = par
                    if apx is not None:
                        kw["aprox"] = apx
                    pl = [{}] if par is None else [par] if isinstance(par, dict) else par
                    ae = [q.expr if isinstance(q, Num) else q for q in a]
                    exp = gen(which, ph, co, n, inc, pl, bool(n) and apx is not False, ae)
                    r = ctx.seen(m.run("polar_gen", b, which, args, kw))
                    ctx.obligation(
                        f"polarplot {b} {which} inc={inc} param_dict={par} ncoefs={n} "
                        f"aprox={apx} a={a}", lambda: check_polar(ctx, r, exp, "polarplot"),
                        r)
    # options that must not change the curves
    for kw in (dict(legend=False), dict(label="text"), dict(groundcolor=None),
               dict(multip=3.0)):
        for which, a in (("V", (-1, 1, 1)), ("S", (1, 1, 1))):
            ph, co = gen_phase("p"), gen_coef("l")
            r = ctx.seen(m.run("polar_gen", BACKENDS[0], which, (ph, co, 2),
                               dict(kw, inc=[F("i1")])))
            ctx.obligation(f"polarplot {which} {kw}", lambda: check_polar(
                ctx, r, gen(which, ph, co, 2, [F("i1")], [{}], True, a), "polarplot"), r)
    # missing parameters are reported before anything is drawn
    for b in BACKENDS:
        for which in "VS":
            for pd in (None, {}, dict(y=F("y")), dict(x=F("x")), [{}],
                       [dict(x=F("x"), y=F("y")), dict(x=F("x"))],
                       [dict(x=F("x")), dict(x=F("x"), y=F("y"))]):
                for n in (2, None):
                    ph, co = gen_phase("p", "x", "y"), gen_coef("l", "x")
                    kw = {} if pd is None else dict(param_dict=pd)
                    r = ctx.seen(m.run("polar_gen", b, which,
                                       (ph, co) + ((n,) if n else ()), kw))

                    def f():
                        if r.value is not DEAD:
                            if isinstance(r.value, Opq):
                                raise Unclear("no result")
                            raise Mismatch("missing parameters are not reported")
                        d = drawn(r)
                        if d:
                            raise Mismatch(f"{d[0][1][0]} is called at {d[0][2]} before "
                                           "the missing parameters are reported")
                    ctx.obligation(f"missing parameters {b} {which} {pd} ncoefs={n}", f, r)
    # built-in classes
    th0, ts = sp.symbols("a b")
    t = S("t")

    def hg(x, g):
        return (1 - g ** 2) / (4 * sp.pi * (1 + g ** 2 - 2 * g * x) ** sp.Rational(3, 2))
    for b in BACKENDS:
        for which, cls, ckw, pd, fn, lg in (
                ("V", "Isotropic", {}, {}, lambda x: 1 / (4 * sp.pi),
                 lambda x: 1 / (4 * sp.pi)),
                ("S", "Isotropic", {}, {}, lambda x: 1 / sp.pi, lambda x: 1 / sp.pi),
                ("V", "Rayleigh", {}, {}, lambda x: 3 * (1 + x ** 2) / (16 * sp.pi),
                 lambda x: 3 * (1 + x ** 2) / (16 * sp.pi)),
                ("V", "HenyeyGreenstein", dict(t="t", ncoefs=3), dict(t=F("t")),
                 lambda x: hg(x, t), lambda x: legendre(
                     [(2 * n + 1) * t ** n / (4 * sp.pi) for n in range(3)], x)),
                ("S", "HenyeyGreenstein", dict(t=0.3, ncoefs=2), {},
                 lambda x: 4 * hg(x, sp.Rational(3, 10)), lambda x: legendre(
                     [(2 * n + 1) * sp.Rational(3, 10) ** n / sp.pi
                      for n in range(2)], x))):
            a0 = -1 if which == "V" else 1
            kw = dict(inc=[F("i1"), F("i2")], param_dict=pd)
            r = ctx.seen(m.run("polar_cls", b, which, cls, ckw, kw))
            exp = []
            for q in ("i1", "i2"):
                def arg(th, q=q):
                    ti = rad(S(q))
                    return a0 * sp.cos(ti) * sp.cos(th) + sp.sin(ti) * sp.sin(th)
                exp += [lambda th, g=fn, arg=arg: g(arg(th)),
                        lambda th, g=lg, arg=arg: g(arg(th))]
            ctx.obligation(f"polarplot {b} {which}.{cls}",
                           lambda: check_polar(ctx, r, exp, "polarplot"), r)


# -- C30 ---------------------------------------------------------------------------------
PARS = ("tau", "omega", "NormBRDF", "x")
AN_V = (gen_phase("pV", "x"), gen_coef("lV", "x"), 1)
AN_S = (gen_phase("pS"), gen_coef("lS"), 2)


def rng(p, form):
    lo, hi, st = F(p + "_lo"), F(p + "_hi"), F(p + "_st")
    return ((lo, hi), (lo, hi, st), (lo, hi, st, "name of " + p))[form]


def want_slider(p, form):
    lo, hi = S(p + "_lo"), S(p + "_hi")
    return ("name of " + p if form == 2 else p, lo, hi,
            (lo + hi) / 2 if form == 0 else S(p + "_st"))


def read_sliders(ctx, m, st):
    r = ctx.seen(m.run("sliders", 0, _state=st))
    v = ctx.value(r)
    vals = [l for _, l in ctx.paths_of(r, ctx.elements(r, v, 0))]
    if len(vals) != 1:
        raise Unclear("sliders depend on conditions")
    ret = []
    for q in vals[0].items:
        if not isinstance(q, tuple) or any(isinstance(x, Gate) for x in q):
            raise Unclear(f"slider {short(q)}")
        ret.append(q)
    return ret


def slider_index(sl, label):
    hits = [k for k, q in enumerate(sl) if q[0] == label]
    if len(hits) != 1:
        raise Mismatch(f"{len(hits)} sliders are labelled {label!r}: "
                       f"{[q[0] for q in sl]}")
    return hits[0]


def check_sliders(ctx, sl, forms, extra):
    for p, form in forms.items():
        label, lo, hi, init = want_slider(p, form)
        q = sl[slider_index(sl, label)]
        for got, exp, what in zip(q[1:4], (lo, hi, init), ("minimum", "maximum",
                                                           "start value")):
            e = getattr(got, "expr", got)
            if not isinstance(e, sp.Basic):
                e = sp.sympify(e) if isinstance(e, int) else None
            if e is None:
                raise Unclear(f"{what} of the slider of {p} is {short(got)}")
            ctx.terms += 1
            if not NF().equal(e, exp):
                raise Mismatch(f"{what} of the slider of {p} is {short(e)}, expected {exp}")
    if len(sl) > len(forms) + extra:
        raise Mismatch(f"more sliders than parameters: {[q[0] for q in sl]}")
    if not all(q[4] for q in sl):
        raise Mismatch("a slider is not connected to an update")


def generic(pt):
    """Only paths without special angles."""
    i = pt.i
    return not any(v and i.atoms.keys[a][0] == "eq" for a, v in pt.path)


def values_of(ctx, r, v, rep):
    """[(path, expression)] of a drawn value with renamed grid symbols."""
    ret = []
    for pt, l in ctx.paths_of(r, v):
        if not generic(pt):
            continue
        while isinstance(l, Arr) and len(l.items) == 1:
            l = l.items[0]
        while isinstance(l, tuple) and len(l) == 1:
            l = l[0]
        if isinstance(l, int):
            l = Num(sp.Integer(l), "float")
        if not isinstance(l, Num):
            raise Unclear(f"drawn value {short(l)}")
        ret.append((pt, l.expr.xreplace(rep)))
    return ret


def oracle(geom, vals, t0, tx, p0, px, inter):
    """Contributions for given slider values and angles."""
    cfg = Config(geom="bi", phases=(AN_V[0], AN_S[0]), coefs=(AN_V[1], AN_S[1]),
                 nv=AN_V[2], ns=AN_S[2], opts=LIN)
    s = Spec(cfg, t0=t0, p0=p0, tx=tx, px=px, tau=vals["tau"], omega=vals["omega"],
             N=vals["NormBRDF"], bsf=sp.Integer(0))
    s.par = {"x": vals["x"]}
    su, vo = s.surface(), s.volume()
    it = s.interaction() if inter else sp.Integer(0)
    return {"total": su + vo + it, "surface": su, "volume": vo, "interaction": it,
            "surface+volume": su + vo}


def match(ctx, got, oracles, wh):
    nf = NF()
    for name, o in oracles.items():
        if all(nf.equal(e, o) for _, e in got):
            ctx.terms += len(got)
            ctx.paths += len(got)
            return name
    msg = (f"the value drawn at {wh} is none of the contributions for the slider values: "
           f"{short(got[0][1])}")
    if any(str(q).startswith("opq") for _, e in got for q in e.free_symbols):
        raise Unclear(msg)
    raise Mismatch(msg)


def grid_in(r, g, lo, hi):
    from ..npmodels import grid_range
    q = grid_range(r.i, g)
    return q is not None and lo <= q[0] and q[1] <= hi


def check_params(ctx, m, R, st, vals):
    r = ctx.seen(m.run("params", R, list(vals), _state=st))
    v = ctx.elements(r, ctx.value(r), len(vals) + 1)
    for k, (p, e) in enumerate(vals.items()):
        for pt, t in ctx.paths_of(r, v):
            got = t.items[k + 1]
            ge = getattr(got, "expr", None)
            if ge is None:
                raise Unclear(f"param_dict[{p!r}] is {short(got)}")
            if not NF().equal(ge, e):
                raise Mismatch(f"param_dict[{p!r}] is {ge} after the update, the slider is "
                               f"at {e}")


def update_mono(ctx, r, vals, inter):
    """All curves that are (re)drawn show the contributions for the slider values."""
    ctx.value(r)
    ctx.no_raise(r)
    seen = set()
    for a, kw, pc, wh in calls(r, "plot", "set_ydata", "set_data"):
        y = kw.get("y", a[-1] if a else None)
        if isinstance(y, str):
            y = a[1]
        ev = [e for _, e in values_of(ctx, r, y, {})]
        gs = {q for e in ev for q in opqs(r, e)}
        if len(gs) != 1:
            raise Unclear(f"the value drawn at {wh} depends on {sorted(map(str, gs))}")
        (g,) = gs
        if not grid_in(r, g, 0, 90):
            raise Unclear(f"range of {r.i.sym_opq.get(g)}")
        th = S("deg") * sp.pi / 180
        o = oracle("mono", vals, th, th, sp.Integer(0), sp.pi, inter)
        seen.add(match(ctx, values_of(ctx, r, y, {g: S("deg")}), o, wh))
    need = {"total", "surface", "volume"} | ({"interaction"} if inter else set())
    if not inter:
        seen |= {"total"} if "surface+volume" in seen else set()
    if need - seen:
        raise Mismatch(f"the update does not redraw {sorted(need - seen)}")


def update_3d(ctx, r, vals, inc, contributions):
    ctx.value(r)
    ctx.no_raise(r)
    inter = "i" in contributions
    seen = set()
    for a, kw, pc, wh in calls(r, "plot_surface"):
        if len(a) < 3:
            raise Unclear(f"arguments of plot_surface at {wh}")
        ev = [e for v in a[:3] for _, e in values_of(ctx, r, v, {})]
        gs = sorted({q for e in ev for q in opqs(r, e)}, key=str)
        if len(gs) != 2:
            raise Unclear(f"the surface drawn at {wh} depends on {gs}")
        for gt, gp in (gs, gs[::-1]):
            if grid_in(r, gt, 0, 90) and grid_in(r, gp, -180, 180):
                break
        else:
            raise Unclear(f"ranges of {[r.i.sym_opq.get(g) for g in gs]}")
        rep = {gt: S("degt"), gp: S("degp")}
        t, p = S("degt") * sp.pi / 180, S("degp") * sp.pi / 180
        o = oracle("bi", vals, rad(inc), t, sp.Integer(0), p, inter)
        hits = None
        for v, f in zip(a[:3], (sp.sin(t) * sp.cos(p), sp.sin(t) * sp.sin(p), sp.cos(t))):
            n = match(ctx, values_of(ctx, r, v, rep), {k: q * f for k, q in o.items()}, wh)
            hits = hits or n
            if n != hits:
                raise Mismatch(f"the surface at {wh} mixes {hits} and {n}")
        seen.add(hits)
    names = dict(t="total", s="surface", v="volume", i="interaction")
    need = {names[q] for q in contributions}
    if not inter and "surface+volume" in seen:
        seen.add("total")
    if need - seen:
        raise Mismatch(f"the update does not draw {sorted(need - seen)}")


def c30(ctx):
    ctx.rule("sliders are created with the given range / start / name; after every slider "
             "movement the drawn values equal the contributions for exactly the slider "
             "values; int_Q is unchanged on normal and exceptional exits; missing parameters "
             "end with an error")
    m = models()
    combos = [dict(zip(PARS, q)) for q in ((0, 0, 0, 0), (1, 1, 1, 1), (2, 2, 2, 2),
                                           (0, 1, 2, 0), (2, 0, 1, 2))]
    opts = dict(LIN, I0=F("I0"))

    def ranges(forms):
        return {p: rng(p, f) for p, f in forms.items()}

    for b in BACKENDS if ctx.thorough else BACKENDS[:1]:
        for which, extra in (("analyze", 0), ("analyze3d", 1)):
            for forms in combos:
                for intq in (True, False):
                    if intq is False and forms is not combos[0]:
                        continue
                    kws = [{}] if which == "analyze" else [
                        dict(contributions=c) for c in (
                            ("ts", "i", "tsvi", "v") if forms is combos[0] else ("ts",))]
                    for kw in kws:
                        lab = f"{which} {b} {forms} int_Q={intq} {kw}"
                        r = ctx.seen(m.run("analyzer", which, b, AN_V, AN_S,
                                           dict(opts, int_Q=intq), (),
                                           dict(ranges(forms), **kw)))
                        ok = ctx.obligation(f"{lab}: created", lambda: (
                            ctx.value(r), ctx.no_raise(r)), r)
                        if not ok:
                            continue
                        st = r.state
                        R = r.value[0] if isinstance(r.value, tuple) else None
                        sl = []

                        def f():
                            sl.extend(read_sliders(ctx, m, st))
                            check_sliders(ctx, sl, forms, extra)
                        if not ctx.obligation(f"{lab}: sliders", f, r):
                            continue
                        start = {p: want_slider(p, q)[3] for p, q in forms.items()}
                        con = kw.get("contributions")

                        def f():
                            check_params(ctx, m, R, st, start)
                            if which == "analyze":
                                update_mono(ctx, r, start, intq)
                        ctx.obligation(f"{lab}: initial values", f, r)
                        ctx.obligation(f"{lab}: int_Q", lambda: check_intq(
                            ctx, m, R, st, intq), r)
                        # movements
                        vals, s2 = dict(start), st
                        for p in PARS if forms is combos[0] else PARS[:1]:
                            k = slider_index(sl, want_slider(p, forms[p])[0])
                            q = ctx.seen(m.run("move", k, F("moved_" + p), _state=s2))
                            vals[p] = S("moved_" + p)

                            def f():
                                if which == "analyze":
                                    update_mono(ctx, q, vals, intq)
                                else:
                                    update_3d(ctx, q, vals, sp.Integer(45), con)
                                check_params(ctx, m, R, q.state, vals)
                                check_intq(ctx, m, R, q.state, intq)
                            if not ctx.obligation(f"{lab}: slider {p} moved", f, q):
                                break
                            s2 = q.state
                        if extra and len(sl) == len(forms) + 1:
                            labels = [want_slider(p, q)[0] for p, q in forms.items()]
                            (k,) = [k for k, q in enumerate(sl) if q[0] not in labels]
                            q = ctx.seen(m.run("move", k, F("inc"), _state=s2))

                            def f():
                                update_3d(ctx, q, vals, S("inc"), con)
                                check_params(ctx, m, R, q.state, vals)
                                check_intq(ctx, m, R, q.state, intq)
                            ctx.obligation(f"{lab}: incidence angle moved", f, q)
                        # failing evaluation
                        q = ctx.seen(m.run("fail", R, 0, F("moved"), _state=st))

                        def f():
                            states = [s for s, e in q.raised]
                            if q.value is not DEAD:
                                states.append(q.state)
                            for s in states:
                                check_intq(ctx, m, R, s, intq)
                        ctx.obligation(f"{lab}: int_Q after a failing evaluation", f, q)
    # missing parameters
    full = {p: rng(p, 0) for p in PARS}
    for which in ("analyze", "analyze3d"):
        for p in PARS:
            part = {k: v for k, v in full.items() if k != p}
            r = ctx.seen(m.run("analyzer", which, BACKENDS[0], AN_V, AN_S, opts, (), part))

            def f():
                if r.value is not DEAD:
                    if r.error:
                        raise Unclear(r.error)
                    raise Mismatch(f"no error although {p} is missing")
            ctx.obligation(f"{which} without {p}", f, r)
            r2 = ctx.seen(m.run("analyzer", which, BACKENDS[0], AN_V, AN_S, opts,
                                [("call", "update_params", {p: F("known")})], part))

            def f():
                v = ctx.value(r2)
                ctx.no_raise(r2)
                check_params(ctx, m, v[0], r2.state, {
                    **{k: want_slider(k, 0)[3] for k in part}, p: S("known")})
            ctx.obligation(f"{which} with a known {p}", f, r2)
        ops = [("set", "tau", "t1*t2")]
        part = {k: v for k, v in full.items() if k != "tau"}
        for given, ok in ((("t1", "t2"), True), (("t1",), False), ((), False)):
            r = ctx.seen(m.run("analyzer", which, BACKENDS[0], AN_V, AN_S, opts, ops,
                               {**part, **{k: rng(k, 0) for k in given}}))

            def f():
                if ok:
                    ctx.value(r)
                    ctx.no_raise(r)
                elif r.value is not DEAD:
                    if r.error:
                        raise Unclear(r.error)
                    raise Mismatch(f"no error although only {given} of t1, t2 is given")
            ctx.obligation(f"{which} tau='t1*t2' with {given}", f, r)


def check_intq(ctx, m, R, st, want):
    q = ctx.seen(m.run("int_q", R, _state=st))
    for pt, l in ctx.paths_of(q, ctx.value(q)):
        if l is not want:
            raise Mismatch(f"int_Q is {short(l)} afterwards, it was {want}")
