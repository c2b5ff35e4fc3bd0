"""C33: every operation of a contribution is defined in the valid domain."""
import sympy as sp

from ..harness import A, C, DEAD, F, Path, S, short
from ..model import BACKENDS, Config, Models, gen_coef, gen_phase
from ..report import Mismatch, Unclear, domain
from ..signs import ALL, DOMAIN, NEG, POS, Signs, ZERO, angle, exact, holds, witness
from ..values import *  # noqa
from .package import CLIENT
from .physics import LIN

INTERACT = CLIENT + '''

def interact(backend, mod, cls, kw, other, angles, pars):
    set_lambda_backend(backend)
    f = scatter(mod, cls, kw)
    if mod == "V":
        R = RT1(V=f, SRF=GenS(*other), dB=False, sig0=False, int_Q=True)
    else:
        R = RT1(V=GenV(*other), SRF=f, dB=False, sig0=False, int_Q=True)
    R.set_bistatic()
    R.set_geometry(**angles)
    return R.calc(**pars)
'''
ANGS = ("t_0", "t_ex", "p_0", "p_ex")


def facts_of(pt):
    """Signs known from the branch decisions of a path."""
    ret = []
    for a, val in pt.path:
        key = pt.i.atoms.keys[a]
        if len(key) < 2 or not isinstance(key[1], sp.Basic):
            continue
        e = key[1].xreplace(pt.sub)
        if e.is_number:
            continue
        if key[0] == "eq":
            ret.append((e, ZERO if val else POS | NEG))
        elif key[0] == "gt":
            ret.append((e, POS if val else NEG | ZERO))
    return ret


def on_path(pt, point):
    """The point of the domain takes this path."""
    for s, v in pt.sub.items():
        if s in point and sp.simplify(v.xreplace(point) - point[s]) != 0:
            return False
    for a, val in pt.path:
        key = pt.i.atoms.keys[a]
        if len(key) < 2 or not isinstance(key[1], sp.Basic):
            return False
        e = sp.simplify(key[1].xreplace(point))
        if not (e.is_number and e.is_comparable):
            return False
        t = e == 0 if key[0] == "eq" else bool(e > 0) if key[0] == "gt" else None
        if t is None or t != val:
            return False
    return True


class Decide:
    def __init__(self, ctx):
        self.ctx = ctx
        self.done = {}
        self.proved = []

    def term(self, pt, kind, e0, what):
        e = exact(e0.xreplace(pt.sub))
        facts = facts_of(pt)
        key = (kind, e, tuple(sorted(((t, tuple(sorted(s))) for t, s in facts), key=str)),
               tuple(sorted(pt.sub.items(), key=str)))
        if key in self.done:
            return
        self.ctx.terms += 1
        if e.has(sp.zoo, sp.nan):
            raise Mismatch(f"{what} is not defined if {pt.text()}")
        s = Signs(facts).sign(e)
        if holds(kind, s):
            self.done[key] = True
            self.proved.append(f"{kind}: {short(e, 160)}")
            return
        text = {"nonzero": "division by zero / singular argument: {} = 0",
                "positive": "logarithm / power of a non-positive number: {}",
                "nonneg": "root / special function of a negative number: {}"}[kind]
        syms = set()
        for t, _ in facts:
            syms |= t.free_symbols
        w = witness(kind, e, syms, lambda p: on_path(pt, {**p, **{
            k: v.xreplace(p) for k, v in pt.sub.items()}}))
        if w is not None or s == ZERO or (kind != "nonzero" and s == NEG) or (
                kind == "positive" and s <= NEG | ZERO):
            at = ", ".join(f"{str(k)[2:]}={v}" for k, v in sorted(
                (w or {}).items(), key=lambda q: str(q[0])))
            raise Mismatch(f"{what}: {text.format(short(e, 200))}"
                           f"{' for ' + at if at else ''} if {pt.text()}")
        raise Unclear(f"{what}: cannot decide that {short(e, 300)} is {kind} "
                      f"(signs {''.join(sorted(s))}) if {pt.text()}")


def every(r, pt, v):
    """(path, number) of all numbers in a value."""
    if isinstance(v, Gate):
        for p, x in leaves(v):
            q = Path(r.i, pt.path + p, domain)
            if q.feasible:
                yield from every(r, q, x)
    elif isinstance(v, Ref) and r.state.get(v).kind == "list":
        for x in r.state.get(v).data:
            yield from every(r, pt, x)
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from every(r, pt, x)
    elif isinstance(v, Arr):
        for x in v.items:
            yield from every(r, pt, x)
    elif isinstance(v, Num):
        yield pt, v
    elif isinstance(v, (int, float, bool)):
        return
    else:
        raise Unclear(f"the result is {short(v)}")


def obligations(ctx, dec, r, v, what):
    n = 0
    for pt, l in ctx.paths_of(r, v):
        for q, x in every(r, pt, l):
            n += 1
            ctx.paths += 1
            e = sp.sympify(x.expr)
            if e.has(sp.nan, sp.zoo):
                raise Mismatch(f"{what} is not defined if {q.text()}: {short(e)}")
            if any(str(s).startswith("opq") for s in e.free_symbols):
                raise Unclear(f"{what}: cannot resolve {short(e)}")
            for kind, o in x.undef:
                dec.term(q, kind, o, what)
    if not n:
        raise Mismatch(f"no value for {what}")


def no_raise(ctx, r):
    ctx.no_raise(r)


def c33(ctx):
    ctx.rule("every division, logarithm, root and special function on a path to a result "
             "has an operand whose sign set over the valid domain excludes the singular "
             "value (interval / sign analysis with the branch conditions of the path)")
    dec = Decide(ctx)
    m = Models(INTERACT)
    mx = 3 if ctx.thorough else 2
    # model results with generic scattering functions
    orders = [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (2, 3), (4, 4)] if ctx.thorough
                                                 else [])
    for b in BACKENDS:
        for geom in ("mono", "bi"):
            for nv, ns in orders:
                for how, params, attrs in (  # how tau is given
                        ("arrays", {}, {}),
                        ("tau number", dict(tau=F("tau")), {}),
                        ("tau attribute", dict(tau=None), dict(tau=F("tau"))),
                        ("tau = 0", dict(tau=None), dict(tau=0))):
                    if (nv, ns) != (2, 2) and how != "arrays":
                        continue
                    par = dict(tau=A("tau"), omega=A("omega"), NormBRDF=A("N"),
                               bsf=A("bsf"), x=A("x"))
                    par.update(params)
                    par = {k: q for k, q in par.items() if q is not None}
                    cfg = Config(geom=geom, backend=b, nv=nv, ns=ns, params=par,
                                 attrs=attrs)
                    lab = f"{b} {geom} {nv},{ns} {how}"
                    r = ctx.seen(m.config("m_calc", cfg))
                    ctx.obligation(f"{lab}: calc()", lambda: (
                        ctx.value(r), no_raise(ctx, r),
                        obligations(ctx, dec, r, r.value, "calc()")), r)
                    cfg.names = ("surface", "volume", "interaction")
                    if how == "arrays":
                        r2 = ctx.seen(m.config("m_each", cfg))
                        ctx.obligation(f"{lab}: single contributions", lambda: (
                            ctx.value(r2), no_raise(ctx, r2),
                            obligations(ctx, dec, r2, r2.value, "contribution")), r2)
    builtin(ctx, dec, m, mx)
    ctx.notes.append({"obligations_proved": sorted(set(dec.proved))[:60]})


def functions(thorough):
    ts = [("t", {"t": A("t")}), (0, {}), (C(sp.Rational(3, 10)), {}),
          (C(-sp.Rational(2, 5)), {})]
    yield "V", "Isotropic", {}, {}
    yield "V", "Rayleigh", {}, {}
    yield "S", "Isotropic", {}, {}
    for i in range(0, 7 if thorough else 4):
        yield "S", "CosineLobe", dict(i=i, ncoefs=3), {}
    yield "V", "LinComb", dict(choices=[
        ("w", "HenyeyGreenstein", dict(t="t", ncoefs=2)), (0.5, "Rayleigh", {})]), dict(
        t=A("t"), w=A("w"))
    yield "S", "LinComb", dict(choices=[
        (0.3, "HG_nadirnorm", dict(t="t1", ncoefs=2)),
        ("w", "HenyeyGreenstein", dict(t="t2", ncoefs=3, a=[0.5, 1, 1]))]), dict(
        t1=A("t1"), t2=A("t2"), w=A("w"))
    aa = [None, [1, 1, 1], [-1, 1, 1], [0.5, 1, -0.5], [-0.9, 0.9, 0]]
    for mod, cls in (("V", "HenyeyGreenstein"), ("V", "HGRayleigh"),
                     ("S", "HenyeyGreenstein"), ("S", "HG_nadirnorm")):
        for t, pd in ts:
            for a in aa if thorough or t == "t" else aa[:1]:
                kw = dict(t=t, ncoefs=3)
                if a is not None:
                    kw["a"] = a
                yield mod, cls, kw, pd



def builtin(ctx, dec, m, mx):
    for b in BACKENDS:
        for mod, cls, kw, pd in functions(ctx.thorough):
            lab = f"{b} {mod}.{cls}({', '.join(f'{k}={v}' for k, v in kw.items())})"
            for arr, args in (("bistatic", tuple(A(a) for a in ANGS)),
                              ("monostatic", (A("t_0"), A("t_0"), A("p_0"),
                                              Num(S("p_0") + sp.pi, "array",
                                                  frozenset(["p_0"])))),
                              ("nadir", (C(0), A("t_ex"), A("p_0"), A("p_ex")))):
                r = ctx.seen(m.run("scatter_calc", b, mod, cls, kw, args, pd))
                ctx.obligation(f"{lab} {arr}", lambda: (
                    ctx.value(r), no_raise(ctx, r),
                    obligations(ctx, dec, r, r.value, "calc()")), r)
    # the expansion coefficients used by the interaction term
    gv, gs = (gen_phase("pV"), gen_coef("lV")), (gen_phase("pS"), gen_coef("lS"))
    for b in BACKENDS:
        for mod, cls, kw, pd in functions(ctx.thorough):
            if kw.get("a") is not None and not ctx.thorough:
                continue
            kw = dict(kw)
            if "ncoefs" in kw:
                kw["ncoefs"] = max(mx, 4)
            lab = f"{b} interaction with {mod}.{cls}({', '.join(f'{k}={v}' for k, v in kw.items())})"
            r = ctx.seen(m.run("interact", b, mod, cls, kw, (*gs, 1) if mod == "V"
                               else (*gv, 1), {a: A(a) for a in ANGS}, dict(
                tau=A("tau"), omega=A("omega"), NormBRDF=A("N"), bsf=A("bsf"), **pd)))
            ctx.obligation(lab, lambda: (
                ctx.value(r), no_raise(ctx, r),
                obligations(ctx, dec, r, r.value, "calc()")), r)
