"""C17: user inputs, defaults and stored arrays are never modified in place."""
import sympy as sp

from ..harness import A, C, F, Path, S, X, short
from ..model import BACKENDS, Models, gen_coef, gen_phase
from ..report import Mismatch, domain
from ..values import *  # noqa
from .plots import models as plot_models

CLIENT = '''
from rt1_model import plot

MODS = {"V": volume, "S": surface}


def build(backend, V, Sf, opts, ops):
    set_lambda_backend(backend)
    R = RT1(V=GenV(*V), SRF=GenS(*Sf), **opts)
    for name, kw in ops:
        if name == "setattr":
            for key, val in kw.items():
                setattr(R, key, val)
        else:
            getattr(R, name)(**kw)
    return R


def method(R, name, kw):
    return getattr(R, name)(**kw)


def assign(R, name, val):
    setattr(R, name, val)


def read(R, name):
    return getattr(R, name)


def new(mod, cls, kw):
    return getattr(MODS[mod], cls)(**kw)


def lincomb(mod, parts, kw):
    return getattr(MODS[mod], "LinComb")(parts, **kw)


def on_obj(o, name, args, kw):
    return getattr(o, name)(*args, **kw)


def plotfunc(name, kw):
    return getattr(plot, name)(**kw)


def with_model(V, Sf, opts):
    return RT1(V=V, SRF=Sf, **opts)
'''

ANG = ("t_0", "t_ex", "p_0", "p_ex")


def tag_heap(m, st):
    """Mark the memory of all arrays that are stored in objects."""
    i = m.i

    def mark(v, name):
        def f(x):
            if isinstance(x, Num) and x.kind == "array":
                return x.with_(alias=x.alias | {name})
            if isinstance(x, Arr):
                return Arr(mark(q, name) for q in x.items)
            if isinstance(x, DictC):
                return DictC({h: (k, mark(v, f"{name}[{k!r}]"))
                              for h, (k, v) in x.d.items()})
            if isinstance(x, tuple):
                return tuple(mark(q, name) for q in x)
            return x
        return lift(f, v)
    for k, o in list(st.heap.items()):
        if o.kind == "inst":
            new = {n: mark(v, f"stored:{n}") for n, v in o.data.items()}
        elif o.kind in ("list", "dict", "cache"):
            name = f"stored:{o.kind}"
            new = {n: mark(v, name) for n, v in o.data.items()} if isinstance(
                o.data, dict) else mark(o.data, name)
        else:
            continue
        if new != o.data:
            c = o.copy(None)
            c.data = new
            st.heap[k] = c


def defaults(m, heap):
    """ids of mutable default arguments of the functions of the package."""
    out, seen = {}, set()

    def fn(f):
        while isinstance(f, (Cached, Bound, Partial, StaticM, ClassM, CtxFactory,
                             CachedProp)):
            f = f.func
        if isinstance(f, Prop):
            for q in (f.fget, f.fset, f.fdel):
                fn(q)
        if not isinstance(f, Func) or id(f) in seen:
            return
        seen.add(id(f))
        for v in [*(f.defaults or ()), *((f.kwdefaults or {}).values())]:
            for k in m.reach(heap, [v]):
                out[k] = f.qualname
    for o in heap.values():
        if isinstance(o.data, dict):
            for v in o.data.values():
                for _, x in leaves(v):
                    fn(x)
    return out


class Effects:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = Models(CLIENT)

    def feasible(self, r, pc):
        for p, l in leaves(pc):
            if l is True and Path(r.i, p, domain).feasible:
                return True
        return False

    def check(self, r, label, returns=False, own=()):
        """own: arguments that may be modified (the model itself is never an argument)."""
        ctx, m = self.ctx, self.m
        ctx.seen(r)
        args = m.reach(r.before, r.args)
        dflt = defaults(m, r.before)

        def f():
            for kind, data, pc, where, stack in r.events:
                if not stack or not any(not q.startswith("client") for q in stack):
                    pass
                if kind == "inplace":
                    x = data[0]
                    # (stored arrays may be write-protected)
                    bad = sorted(a for a in x.alias if a.startswith(
                        ("arg:",) if data[1] == "setflags" else (
                            "arg:", "stored:", "cache of")))
                    if bad and self.feasible(r, pc):
                        raise Mismatch(f"{data[1]} at {where} modifies memory of "
                                       f"{', '.join(bad)} (value {short(x.expr, 80)})")
                elif kind == "setattr-ext" and isinstance(data[0], Opq):
                    for x in data[0].args:
                        if isinstance(x, Num) and any(
                                a.startswith("arg:") for a in x.alias) and (
                                self.feasible(r, pc)):
                            raise Mismatch(f"the attribute {data[1]} of an array of the "
                                           f"caller is set at {where}")
                elif kind == "mutate" and isinstance(data[0], Ref):
                    k = data[0].id
                    if k in dflt and self.feasible(r, pc):
                        raise Mismatch(f"{data[1]} at {where} modifies the default "
                                       f"argument of {dflt[k]}")
                    if k in args and self.feasible(r, pc):
                        raise Mismatch(f"{data[1]} at {where} modifies a list / dict "
                                       "passed by the caller")
            if returns and r.ok:
                for pt, l in ctx.paths_of(r, r.value):
                    self.fresh(pt, l)
        ctx.obligation(label, f, r)
        ctx.paths += len(r.events)

    def fresh(self, pt, l):
        if isinstance(l, Arr):
            for x in l.items:
                for _, q in leaves(x):
                    self.fresh(pt, q)
        if isinstance(l, Num) and l.kind == "array":
            bad = sorted(a for a in l.alias if a.startswith(("arg:", "stored:",
                                                             "cache of")))
            if bad:
                raise Mismatch(f"the returned array shares memory with {', '.join(bad)} "
                               f"if {pt.text()}")


def c17(ctx):
    ctx.rule("no in-place operation on an array that may share memory with an argument, a "
             "stored or a cached array; no modification of lists / dicts of the caller or "
             "of default arguments; returned arrays are fresh")
    e = Effects(ctx)
    m = e.m
    V = (gen_phase("pV", "x"), gen_coef("lV", "x"), 2)
    Sf = (gen_phase("pS", "y"), gen_coef("lS", "y"), 1)
    Vc = (X(sp.Rational(1, 4)), gen_coef("lV"), 1)   # constant functions
    Sc = (X(sp.Integer(1)), gen_coef("lS"), 1)
    q = {"tau": A("tau"), "omega": A("omega"), "NormBRDF": A("N"), "bsf": A("bsf"),
         "x": A("x"), "y": A("y")}
    sets = {
        "arrays": (V, Sf, q, ()),
        "numbers": (V, Sf, {k: F(k) for k in q}, ()),
        "default bsf": (V, Sf, {k: v for k, v in q.items() if k != "bsf"}, ()),
        "expressions": (V, Sf, {"x": A("x"), "y": A("y"), "tau_1": A("tau"),
                                "N": A("N")},
                        (("setattr", {"tau": "tau_1", "omega": "x*0.5", "NormBRDF": "N",
                                      "bsf": "y/2"}),)),
        "constants": (V, Sf, {"x": A("x"), "y": A("y")},
                      (("setattr", {"tau": F("tau"), "omega": C(0.3),
                                    "NormBRDF": F("N"), "bsf": A("bsf")}),)),
        "constant functions": (Vc, Sc, {k: v for k, v in q.items() if k not in "xy"}, ()),
    }
    units = [dict(sig0=s, dB=d, int_Q=iq) for s in (False, True) for d in (False, True)
             for iq in (True, False)]
    n = 0
    for b in BACKENDS:
        for geom, fixed in (("mono", {}), ("bi", {}), ("mono", {"p_0": F("p_0")}),
                            ("bi", {"t_0": F("t_0"), "p_ex": F("p_ex")})):
            for label, (v, s, par, attrs) in sets.items():
                n += 1
                use = units if ctx.thorough else (units[n % 8], units[(n * 3 + 5) % 8])
                for opts in use:
                    run_model(e, b, geom, fixed, v, s, par, attrs, opts, label)
    scatter(e)
    plots(e)


def run_model(e, b, geom, fixed, v, s, par, attrs, opts, label):
    m, ctx = e.m, e.ctx
    key = (f"[{b} {geom} fixed={','.join(fixed)} {label} "
           f"{' '.join(f'{k}={int(x)}' for k, x in opts.items())}]")
    dyn = [a for a in (ANG if geom == "bi" else ("t_0", "p_0")) if a not in fixed]
    ang = {a: A(a) for a in dyn}
    o = dict(opts, I0=F("I0"))
    base = (*attrs, ("set_bistatic" if geom == "bi" else "set_monostatic", fixed),
            ("set_geometry", ang), ("update_params", par))
    r = m.run("build", b, v, s, o, base)
    e.check(r, f"construction {key}")
    if not r.ok:
        return
    # caches are filled
    names = ["calc", "surface", "volume"] + (["interaction"] if opts["int_Q"] else [])
    full = m.run("build", b, v, s, o, (*base, *((n, {}) for n in names), ("jacobian", {
        "param_list": [k for k in par]})))
    e.check(full, f"first evaluation {key}")
    some = {k: A(k + "_n") for k in list(par)[:2]}
    for st, what in ((r, "first"), (full, "later")):
        if not st.ok:
            continue
        tag_heap(m, st.state)
        R = st.value
        for name in names:
            for kw in ({}, some):
                x = m.run("method", R, name, kw, _state=st.state)
                e.check(x, f"{what} {name}({','.join(kw)}) {key}", returns=True)
        for fmt in ("list", "scipy_least_squares"):
            x = m.run("method", R, "jacobian", {"param_list": list(par), "format": fmt},
                      _state=st.state)
            e.check(x, f"{what} jacobian({fmt}) {key}")
        if label == "arrays":
            x = m.run("method", R, "jacobian", {}, _state=st.state)
            e.check(x, f"{what} jacobian() {key}")
        x = m.run("method", R, "update_params", {k: A(k + "_m") for k in par},
                  _state=st.state)
        e.check(x, f"{what} update_params {key}")
        x = m.run("method", R, "set_geometry", {k: A(k + "_m") for k in dyn},
                  _state=st.state)
        e.check(x, f"{what} set_geometry {key}")
        for name in ("tau", "bsf", "NormBRDF", "omega"):
            x = m.run("read", R, name, _state=st.state)
            e.check(x, f"{what} R.{name} {key}")


def scatter(e):
    m = e.m
    forms = [("V", "Isotropic", {}), ("V", "Rayleigh", {}),
             ("V", "HenyeyGreenstein", {"t": "t", "ncoefs": 3}),
             ("V", "HGRayleigh", {"t": "t", "ncoefs": 3}), ("S", "Isotropic", {}),
             ("S", "CosineLobe", {"i": 2, "ncoefs": 3}),
             ("S", "HenyeyGreenstein", {"t": "t", "ncoefs": 3}),
             ("S", "HG_nadirnorm", {"t": "t", "ncoefs": 3})]
    ang = [A(a) for a in ANG]
    for mod, cls, kw in forms:
        for a in (None, [1, "u", 1], [1, 1, 1]):
            kwa = dict(kw, **({"a": list(a)} if a else {}))
            r = m.run("new", mod, cls, kwa)
            e.check(r, f"{mod}.{cls}(a={a})")
            pd = {**({"t": A("t")} if "t" in kw else {}), **({"u": A("u")} if a and
                                                             "u" in a else {})}
            if cls == "Isotropic":
                pd = {"z": A("z")}
            for _ in range(2):
                for args, k in ((tuple(ang), {"param_dict": dict(pd)}),
                                (tuple(ang), {} if not pd or cls == "Isotropic" else
                                 {"param_dict": dict(pd)})):
                    x = m.run("on_obj", r.value, "calc", args, k, _state=r.state)
                    e.check(x, f"{mod}.{cls}(a={a}).calc({','.join(k)})", returns=True)
                x = m.run("on_obj", r.value, "legendre_expansion",
                          tuple(map(sp.Symbol, ("q0", "q1", "q2", "q3"))), {},
                          _state=r.state)
                e.check(x, f"{mod}.{cls}(a={a}).legendre_expansion()")
        # combinations
        r1 = m.run("new", mod, cls, dict(kw))
        r2 = m.run("new", mod, "Isotropic", {}, _state=r1.state)
        for parts in ([("w", r1.value), (F("w2"), r2.value)],
                      [("w", r1.value), (F("w2"), r1.value), ("1-w", r2.value)]):
            r = m.run("lincomb", mod, parts, {}, _state=r2.state)
            e.check(r, f"combination of {len(parts)} {mod}.{cls}")
            if not r.ok:
                continue
            x = m.run("on_obj", r.value, "calc", tuple(ang), {"param_dict": {
                "w": A("w"), "t": A("t")}}, _state=r.state)
            e.check(x, f"combination of {len(parts)} {mod}.{cls}: calc()", returns=True)
            for _ in range(2):
                x = m.run("on_obj", r.value, "legendre_expansion", tuple(map(
                    sp.Symbol, ("q0", "q1", "q2", "q3"))), {}, _state=x.state)
                e.check(x, f"combination of {len(parts)} {mod}.{cls}: "
                           "legendre_expansion()")


def plots(e):
    m = e.m
    for mod, cls, kw in (("V", "HenyeyGreenstein", {"t": "t", "ncoefs": 3}),
                         ("V", "Rayleigh", {}),
                         ("S", "HG_nadirnorm", {"t": "t", "ncoefs": 3}),
                         ("S", "HG_nadirnorm", {"t": "t"})):
        r = m.run("new", mod, cls, dict(kw))
        par = {"t": C(0.3)} if "t" in kw else {}
        for k in ({"param_dict": dict(par)},
                  {"param_dict": [dict(par), dict(par)], "inc": [10, 20]},
                  *(({},) if not par else ()),
                  {"param_dict": dict(par), "inc": [10, 20], "aprox": False}):
            x = m.run("on_obj", r.value, "polarplot", (), k, _state=r.state)
            e.check(x, f"{mod}.{cls}.polarplot({','.join(k)})")
            x = m.run("plotfunc", "polarplot", {"V_SRF": r.value, **k}, _state=r.state)
            e.check(x, f"plot.polarplot({mod}.{cls} {','.join(k)})")
        if mod == "S":
            for k in ({"param_dict": dict(par)},
                      {"param_dict": dict(par, NormBRDF=C(0.5)), "returnarray": True},
                      {"param_dict": dict(par, NormBRDF=A("N"))}):
                x = m.run("on_obj", r.value, "hemreflect", (), k, _state=r.state)
                e.check(x, f"{mod}.{cls}.hemreflect({','.join(k)})")
    for int_Q in (True, False):
        r1 = m.run("new", "V", "Rayleigh", {})
        r2 = m.run("new", "S", "HG_nadirnorm", {"t": "t", "ncoefs": 2}, _state=r1.state)
        r3 = m.run("with_model", r1.value, r2.value, {"int_Q": int_Q, "dB": False},
                   _state=r2.state)
        u = m.run("method", r3.value, "update_params", {
            "omega": C(0.3), "tau": C(0.2), "NormBRDF": C(0.1), "t": C(0.3)},
            _state=r3.state)
        tag_heap(m, u.state)
        for name in ("analyze", "analyze3d"):
            k = {"tau": (C(0.1), C(0.5)), "t": (C(0.1), C(0.5), C(0.2), "asym")}
            x = m.run("method", r3.value, name, k, _state=u.state)
            e.check(x, f"{name}(int_Q={int_Q})")
        x = m.run("plotfunc", "hemreflect", {"R": r3.value, "param_dict": {
            "t": C(0.3)}}, _state=u.state)
        e.check(x, f"plot.hemreflect(R) int_Q={int_Q}")
    # movements of the sliders
    w = Effects(e.ctx)
    w.m = m = plot_models()
    for int_Q in (True, False):
        for name in ("analyze", "analyze3d"):
            x = m.run("analyzer", name, BACKENDS[0], (gen_phase("pV", "x"), gen_coef("lV"),
                                                      2), (gen_phase("pS"),
                                                           gen_coef("lS"), 1),
                      {"int_Q": int_Q, "dB": False}, [("call", "update_params", {
                          "NormBRDF": A("N"), "bsf": A("bsf")})],
                      {"tau": (C(0.1), C(0.5)), "omega": (C(0.1), C(0.5), C(0.2)),
                       "x": (C(0.1), C(0.5))})
            w.check(x, f"{name}(int_Q={int_Q}) with known parameters")
            if not x.ok:
                continue
            for k in range(3 if name == "analyze" else 4):
                tag_heap(m, x.state)
                x = m.run("move", k, F(f"moved{k}"), _state=x.state)
                w.check(x, f"{name}(int_Q={int_Q}): slider {k} moved")
