"""C14: results never depend on the history of a model."""
import itertools

import sympy as sp

from ..harness import A, DEAD, F, Path, S, X, short
from ..model import BACKENDS, Config, Models, gen_coef, gen_phase
from ..report import Mismatch, Tup, Unclear, domain
from ..values import *  # noqa
from .geometry import ANG, Geo
from .physics import same_pair

CLIENT = '''
def apply(R, ops):
    for kind, name, arg in ops:
        if kind == "call":
            getattr(R, name)(**arg)
        elif kind == "set":
            setattr(R, name, arg)
        elif kind == "try":
            try:
                getattr(R, name)(**arg)
            except Exception:
                pass
        elif kind == "backend":
            set_lambda_backend(name)
        elif kind == "fill":
            for name in ("calc", "interaction"):
                try:
                    getattr(R, name)()
                except Exception:
                    pass
            for keys in (["x"], ["u", "tau"]):
                try:
                    R.jacobian(param_list=keys)
                except Exception:
                    pass


def new(backend, V, S, opts):
    set_lambda_backend(backend)
    return RT1(V=GenV(*V), SRF=GenS(*S), **opts)


def result(R, query):
    if query == "calc":
        return R.calc()
    if query == "each":
        return [R.interaction(), R.volume(), R.surface()]
    if query == "jac":
        return R.jacobian(param_list=["x", "tau"])
    if query == "quant":
        return [R.tau, R.omega, R.NormBRDF, R.bsf]


def step(R, op):
    apply(R, [op])
    return R


def reported(R):
    return [R.t_0, R.t_ex, R.p_0, R.p_ex]


def two(backend, V, S, opts, when, ops1, ops2, share, query):
    """Another model (optionally with the same scattering objects) is used in between
    (after the first operations of the model)."""
    set_lambda_backend(backend)
    v, s = GenV(*V), GenS(*S)
    R1 = RT1(V=v, SRF=s, **opts)
    if share:
        R2 = RT1(V=v, SRF=s, **opts)
    else:
        R2 = RT1(V=GenV(*S), SRF=GenS(*V), **opts)
    apply(R1, ops1[:when])
    apply(R2, ops2)
    apply(R1, ops1[when:])
    return result(R1, query)
'''

OPTS = dict(dB=False, sig0=False, I0=F("I0"))


class State:
    """The configuration that a history of accepted calls leads to."""

    def __init__(self, backend="symengine"):
        self.geo = Geo()
        self.attrs, self.params, self.opts = {}, {}, {}
        self.backend = backend

    def apply(self, op):
        kind, name, arg = op
        if kind == "fill":
            return True
        if kind == "backend":
            self.backend = name
            return True
        if kind == "set":
            (self.attrs if name in ("tau", "omega", "NormBRDF", "bsf") else self.opts)[
                name] = arg
            return True
        if name in ("set_monostatic", "set_bistatic", "set_geometry"):
            return self.geo.apply(op) or kind == "try"
        if name == "jacobian":
            return True
        if kind == "try" and name == "bad":
            return True
        self.params.update(arg)
        return True

    def setup(self):
        """Calls that configure a new model to the same state."""
        g = self.geo
        ops = [("set", k, v) for k, v in self.opts.items()]
        ops += [("set", k, v) for k, v in self.attrs.items()]
        names = ("t_0", "p_0") if g.mono else ANG
        if any(a not in g.ang for a in names):
            return None
        ops.append(("call", "set_monostatic" if g.mono else "set_bistatic", {}))
        ops.append(("call", "set_geometry", {a: g.ang[a].with_(
            kind="array", shape=frozenset([a])) for a in names}))
        if self.params:
            ops.append(("call", "update_params", dict(self.params)))
        return ops


def call(name, **kw):
    return ("call", name, kw)


def alphabet(k):
    """Operations at position k of a history (fresh symbols for every position)."""
    f = lambda n: F(f"{n}_{k}")  # noqa
    a = lambda n: A(f"{n}_{k}")  # noqa
    geo = {
        "mono": call("set_monostatic"),
        "mono p_0": call("set_monostatic", p_0=f("p_0")),
        "bi": call("set_bistatic"),
        "bi t_0": call("set_bistatic", t_0=f("t_0")),
        "bi p_0,p_ex": call("set_bistatic", p_0=f("p_0"), p_ex=f("p_ex")),
        "bi t_ex": call("set_bistatic", t_ex=f("t_ex")),
        "bi all": call("set_bistatic", **{x: f(x) for x in ANG}),
        "geom t_0": call("set_geometry", t_0=a("t_0")),
        "geom p_0": call("set_geometry", p_0=a("p_0")),
        "geom mono": call("set_geometry", t_0=a("t_0"), p_0=a("p_0")),
        "geom ex": call("set_geometry", t_ex=a("t_ex"), p_ex=a("p_ex")),
        "geom bi": call("set_geometry", **{x: a(x) for x in ANG}),
    }
    attr = {
        "tau number": ("set", "tau", f("tau")),
        "tau text": ("set", "tau", "x*u + 1"),
        "tau expr": ("set", "tau", X(sp.Symbol("x") ** 2)),
        "tau name": ("set", "tau", "tau"),
        "omega text": ("set", "omega", "u/3"),
        "omega number": ("set", "omega", f("omega")),
        "NormBRDF text": ("set", "NormBRDF", "x + u"),
        "NormBRDF number": ("set", "NormBRDF", f("N")),
        "bsf text": ("set", "bsf", "x/(2 + u)"),
        "bsf number": ("set", "bsf", f("bsf")),
        "I0": ("set", "I0", f("I0")),
        "sig0": ("set", "sig0", True),
        "dB": ("set", "dB", True),
        "int_Q off": ("set", "int_Q", False),
        "int_Q on": ("set", "int_Q", True),
    }
    par = {
        "params x": call("update_params", x=a("x")),
        "params tau": call("update_params", tau=a("tau")),
        "params new": call("update_params", **{f"z{k}": a("z")}),
        "params bsf": call("update_params", bsf=a("bsf")),
        "params u x": call("update_params", u=a("u"), x=a("x")),
        "calc x": call("calc", x=a("x")),
        "calc new": call("calc", **{f"w{k}": a("w"), "omega": a("omega")}),
        "surface N": call("surface", NormBRDF=a("N")),
        "volume u": call("volume", u=a("u")),
        "interaction tau": call("interaction", tau=a("tau")),
        "jac x": call("jacobian", param_list=["x", "omega"]),
        "jac sparse": call("jacobian", param_list=["tau"], format="scipy_least_squares"),
    }
    bad = {
        "bad angle": ("try", "set_geometry", {"t_0": a("t_0"), "foo": a("t_ex")}),
        "bad fixed": ("try", "set_geometry", {"t_0": a("t_0"), "p_0": a("p_0")}),
        "bad exit": ("try", "set_geometry", {"t_ex": a("t_ex"), "t_0": a("t_0")}),
        "bad None": ("try", "set_geometry", {"t_0": a("t_0"), "p_0": None}),
        "bad bi": ("try", "set_bistatic", {"t_0": f("t_0"), "p_ex": "a"}),
        "bad mono": ("try", "set_monostatic", {"p_0": "a"}),
        "bad jac": ("try", "jacobian", {"param_list": ["x", "foo"]}),
        "backend sympy": ("backend", "sympy", None),
        "backend symengine": ("backend", "symengine", None),
    }
    return geo, attr, par, bad


FILL = ("fill", "", None)
V = (gen_phase("pV", "x"), gen_coef("lV", "x"), 2)
SRF = (gen_phase("pS", "u"), gen_coef("lS", "u"), 1)
START = [
    call("update_params", tau=A("tau"), omega=A("omega"), NormBRDF=A("N"), x=A("x"),
         u=A("u")),
]
BASES = {
    "mono": [call("set_monostatic", p_0=F("p_0")), call("set_geometry", t_0=A("t_0"))],
    "mono dyn": [call("set_monostatic"), call("set_geometry", t_0=A("t_0"), p_0=A("p_0"))],
    "bi": [call("set_bistatic"), call("set_geometry", **{x: A(x) for x in ANG})],
    "bi fixed": [call("set_bistatic", t_ex=F("t_ex"), p_ex=F("p_ex")),
                 call("set_geometry", t_0=A("t_0"), p_0=A("p_0"))],
}


class Histories:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = Models(CLIENT)
        for n in ("tau", "omega", "bsf", "N", "I0", "x", "u"):
            self.m.i.nonneg |= {S(n)} | {S(f"{n}_{k}") for k in range(4)}
        self.prefix = {}
        self.skipped = 0

    def reach(self, backend, ops):
        """The model after the given operations (each prefix is analysed once)."""
        key = (backend, tuple(map(repr, ops)))
        if key not in self.prefix:
            if not ops:
                r = self.m.run("new", backend, V, SRF, OPTS)
            else:
                p = self.reach(backend, ops[:-1])
                r = p
                if p.value is not DEAD:
                    r = self.m.run("step", p.value, ops[-1], _state=p.state)
                    r.raised += p.raised
                    for k, v in p.calls.items():
                        r.calls.setdefault(k, v)
                    r.unknown += p.unknown
            self.prefix[key] = r
        return self.prefix[key]

    def query(self, backend, ops, q, fn="result"):
        key = (backend, tuple(map(repr, ops)), q, fn)
        if key not in self.prefix:
            p = self.reach(backend, ops)
            if p.value is DEAD:
                self.prefix[key] = p
            else:
                r = self.m.run(fn, p.value, *([q] if q else []), _state=p.state)
                r.raised += p.raised
                for k, v in p.calls.items():
                    r.calls.setdefault(k, v)
                r.unknown += p.unknown
                self.prefix[key] = self.ctx.seen(r)
        return self.prefix[key]

    def ref(self, st, query):
        ops = st.setup()
        if ops is None:
            return None
        return self.query(st.backend, ops, query)

    def check(self, ops, label, backend="symengine", queries=("calc", "jac")):
        ctx = self.ctx
        st = State(backend)
        rejected = False
        for o in ops:
            if o[0] == "try":
                rejected = True
                continue
            if not st.apply(o):
                return
        if rejected:  # a rejected call may or may not have changed angles
            r = self.query(backend, ops, None, "reported")
            if r.value is DEAD:
                return
            vals = next(iter(ctx.elements(r, r.value, 4) for _ in (0,)))
            if isinstance(vals, Gate):
                ctx.maybe(f"angles after {label}", "ambiguous")
                return
            for a, v in zip(ANG, vals.items):
                if isinstance(v, Num):
                    st.geo.ang[a] = v
        if st.setup() is None:
            return
        for q in queries:
            r = self.query(backend, ops, q)
            ref = self.ref(st, q)
            if ref.value is DEAD:  # the quantity is not available in this configuration
                self.skipped += 1
                continue

            def f():
                ctx.no_raise(r)
                a = ctx.elements(r, ctx.value(r))
                b = ctx.elements(ref, ctx.value(ref))
                compare(ctx, r, a, ref, b, q)
            ctx.obligation(f"{q} after {label}", f, r)


def defined(pt):
    """Paths without a canopy have no dB value."""
    return not any(sp.sympify(S(n)).subs(pt.sub) == 0 for n in TAUS)


TAUS = ["tau"] + [f"tau_{k}" for k in range(3)]


def compare(ctx, r, a, ref, b, q):
    n = {len(l.items) for _, l in leaves(a)} | {len(l.items) for _, l in leaves(b)}
    if len(n) != 1:
        raise Mismatch(f"number of entries of {q} differs from a new model: {sorted(n)}")
    for k in range(n.pop()):
        x = lift(lambda t: t.items[k], a)
        y = lift(lambda t: t.items[k], b)
        same_pair(ctx, r, x, ref, y, f"{q}[{k}] compared to a new model", when=defined)


def c14(ctx):
    ctx.rule("every result after a history of calls (caches filled in between) equals the "
             "result of a new model in the same configuration")
    h = Histories(ctx)
    groups = [alphabet(k) for k in range(3)]
    flat = [{k: v for g in gs for k, v in g.items()} for gs in groups]
    # single operations, all bases
    for bl, base in BASES.items():
        for name, op in flat[0].items():
            h.check(START + base + [FILL, op], f"{bl} | fill | {name}")
    for name, op in flat[0].items():
        h.check(START + BASES["bi fixed"] + [FILL, op], f"sympy bi fixed | fill | {name}",
                "sympy", ("calc", "jac", "each", "quant"))
    # pairs of operations
    names = list(flat[0])
    few = ["mono p_0", "bi", "bi t_0", "bi all", "geom t_0", "geom bi", "tau text",
           "tau number", "omega text", "params x", "params new", "calc new", "jac x",
           "int_Q off", "bad fixed", "bad bi"]
    first, second = (names, names) if ctx.thorough else (few, few)
    for n1, n2 in itertools.product(first, second):
        for bl in BASES if ctx.thorough else ("mono", "bi fixed"):
            ops = START + BASES[bl] + [FILL, flat[0][n1]]
            h.check(ops + [FILL, flat[1][n2]], f"{bl} | fill | {n1} | fill | {n2}",
                    queries=("calc", "jac") if ctx.thorough else ("calc",))
            if ctx.thorough:
                h.check(ops + [flat[1][n2]], f"{bl} | fill | {n1} | {n2}")
    # a failing evaluation followed by its completion
    part = [call("update_params", tau=A("tau"), omega=A("omega"), NormBRDF=A("N"))]
    for bl, base in BASES.items():
        for b in BACKENDS:
            h.check(part + base + [FILL, call("update_params", x=A("x"), u=A("u"))],
                    f"{bl} {b} | failing calls | update_params", b)
            h.check(part + [FILL] + base + [FILL, call("calc", x=A("x"), u=A("u"))],
                    f"{bl} {b} | failing calls | calc", b)
            h.check(START + [FILL, *base], f"{bl} {b} | calls without angles", b)
            h.check(START + base + [("set", "tau", "x*q"), FILL,
                                    call("update_params", q=A("q"))],
                    f"{bl} {b} | tau with missing parameter", b)
    # other models
    other = [call("set_bistatic"), call("set_geometry", **{x: A(x + "_o") for x in ANG}),
             call("update_params", tau=A("tau_o"), x=A("x_o"), u=A("u_o"), v=A("v_o"),
                  omega=A("omega_o"), NormBRDF=A("N_o")), ("set", "tau", "x + v"), FILL]
    # (with the names of the parameters of the first model)
    same = [*other[:2], call("update_params", tau=A("tau_o"), omega=A("omega_o"),
                             NormBRDF=A("N_o"), x=A("x_o"), u=A("u_o")), FILL]
    # (with fixed angles, changed several times)
    fixed = [call("set_bistatic", t_ex=F("t_ex_o"), p_ex=F("p_ex_o")),
             call("set_geometry", t_0=A("t_0_o"), p_0=A("p_0_o")), *same[2:],
             call("set_monostatic", p_0=F("p_0_o")), call("set_geometry", t_0=A("t_0_o")),
             FILL]
    for (bl, base), (ol, oth) in itertools.product(BASES.items(), (
            ("", other), ("equal names ", same), ("fixed angles ", fixed))):
        ops = START + base
        if ol and bl not in ("mono dyn", "bi fixed") and not ctx.thorough:
            continue
        for when, share in itertools.product(("before", "between", "after"),
                                             (True, False)):
            for mid in ((), (FILL,)):
                for q in ("calc", "jac"):
                    st = State()
                    for o in ops:
                        st.apply(o)
                    n = {"before": 0, "between": len(ops) - 1,
                         "after": len(ops) + 1}[when]
                    r = ctx.seen(h.m.run("two", "symengine", V, SRF, OPTS, n,
                                         tuple([*ops, *mid]), tuple(oth), share, q))
                    ref = h.ref(st, q)

                    def f():
                        ctx.no_raise(r)
                        compare(ctx, r, ctx.elements(r, ctx.value(r)), ref,
                                ctx.elements(ref, ctx.value(ref)), q)
                    ctx.obligation(f"{q} {bl} | other model {ol}used "
                                   f"{when} "
                                   f"{'(shared functions)' * share} {'fill' * bool(mid)}",
                                   f, r)
    ctx.note(f"{h.skipped} queries skipped (also not available for a new model)")
    if h.skipped > 20 and not ctx.thorough:
        ctx.maybe("coverage", f"{h.skipped} queries are not available for a new model")
