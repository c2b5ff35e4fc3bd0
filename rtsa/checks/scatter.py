"""C18 - C22: scattering angle, built-in functions, expansions and linear combinations."""
import itertools

import sympy as sp

from .. import terms
from ..harness import A, C, DEAD, F, S, X, exc_name, short
from ..model import BACKENDS, N_, PH0, PHX, TH0, THX, Models, gen_coef, gen_phase
from ..report import Mismatch, Unclear
from ..values import *  # noqa
from .physics import entries, pick

CLIENT = '''
MODS = {"V": volume, "S": surface}


class OwnAV(volume.VolumeScatter):
    """User-defined function with an own default of a."""
    a = [1.0, "u", 3]
    phase_function = property(lambda self: self.scattering_angle_symbolic)
    legendre_coefficients = property(lambda self: 0)


class OwnAS(surface.SurfaceScatter):
    a = [1.0, "u", 3]
    phase_function = property(lambda self: self.scattering_angle_symbolic)
    legendre_coefficients = property(lambda self: 0)


def make(mod, cls, kw):
    if cls == "Gen":
        return (GenV if mod == "V" else GenS)(**kw)
    if cls == "Own":
        return (OwnAV if mod == "V" else OwnAS)(**kw)
    return getattr(MODS[mod], cls)(**kw)


def comb(mod, parts, kw):
    choices = []
    for w, cls, ckw in parts:
        choices.append((w, choices[ckw][1] if cls == "Same" else make(mod, cls, ckw)))
    return getattr(MODS[mod], "LinComb")(choices, **kw)


def used(mod, parts=(), angles=()):
    """Another combination is created and used."""
    if parts:
        o = comb(mod, parts, {})
        o.phase_function
        o.legendre_expansion(*angles)
        o.ncoefs


def obj(mod, cls, kw):
    if cls == "LinComb":
        parts, before, after = kw.pop("parts"), kw.pop("before", ()), kw.pop("after", ())
        used(mod, *before)
        o = comb(mod, parts, kw)
        used(mod, *after)
        return o
    return make(mod, cls, kw)


def angle(mod, cls, kw):
    o = obj(mod, cls, kw)
    a = list(o.a)
    return [len(a), *a, o.scattering_angle_symbolic]


def calc_angle(mod, cls, kw, args):
    return obj(mod, cls, kw).calc_scattering_angle(*args)


def phase(mod, cls, kw):
    return obj(mod, cls, kw).phase_function


def coefs(mod, cls, kw):
    return obj(mod, cls, kw).legendre_coefficients


def expansion(mod, cls, kw, args):
    return obj(mod, cls, kw).legendre_expansion(*args)


def number(mod, cls, kw):
    return obj(mod, cls, kw).ncoefs


def calc(backend, mod, cls, kw, args, params):
    set_lambda_backend(backend)
    return obj(mod, cls, kw).calc(*args, param_dict=params)


def calc_after(backend, mod, cls, first, kw, args, params):
    set_lambda_backend(backend)
    o1, o2 = obj(mod, cls, first), obj(mod, cls, kw)
    o1.calc(*args, param_dict=params)
    return o2.calc(*args, param_dict=params)


def evaluate(backend, v, s, params, opts, name):
    set_lambda_backend(backend)
    R = RT1(V=obj("V", *v), SRF=obj("S", *s), **opts)
    R.set_bistatic()
    R.set_geometry(t_0=params.pop("t_0"), t_ex=params.pop("t_ex"), p_0=params.pop("p_0"),
                   p_ex=params.pop("p_ex"))
    return getattr(R, name)(**params)
'''

x, t = sp.symbols("x t")
SYMS = (TH0, THX, PH0, PHX)
GEN = {"phase": gen_phase("ph"), "coefs": gen_coef("co"), "ncoefs": 3}
# (module, class, arguments, fixed number of coefficients)
CLASSES = [
    ("V", "Isotropic", {}, 1), ("V", "Rayleigh", {}, 3),
    ("V", "HenyeyGreenstein", {"t": "t"}, None), ("V", "HGRayleigh", {"t": "t"}, None),
    ("S", "Isotropic", {}, 1), ("S", "CosineLobe", {"i": 3}, None),
    ("S", "HenyeyGreenstein", {"t": "t"}, None), ("S", "HG_nadirnorm", {"t": "t"}, None),
]
# arguments that contain the symbols of other arguments
REUSED = [("exchanged", (THX, TH0, PHX, PH0)), ("cyclic", (PH0, PHX, THX, TH0)),
          ("first path", (sp.pi - TH0, sp.Symbol("theta_s"), PH0, sp.Symbol("phi_s"))),
          ("monostatic", (TH0, TH0, PH0, PH0 + sp.pi)),
          ("same azimuth", (TH0, THX, PH0, PH0)), ("same zenith", (TH0, TH0, PH0, PHX)),
          ("same direction", (THX, THX, PHX, PHX))]
DEF_A = {"V": (-1, 1, 1), "S": (1, 1, 1)}
A_FORMS = {
    "default": (None, None),
    "integers": ([2, 3, 5], (2, 3, 5)),
    "tuple": ((1, 0, -1), (1, 0, -1)),
    "floats": ([F("a0"), F("a1"), F("a2")], (S("a0"), S("a1"), S("a2"))),
    "constants": ([C(-0.5), C(0.25), C(1.0)], (-sp.Rational(1, 2), sp.Rational(1, 4), 1)),
    "names": (["u", "w", "z"], sp.symbols("u w z")),
    "text": (["0.5", "2*u", "1 - w"], (sp.Rational(1, 2), 2 * sp.Symbol("u"),
                                       1 - sp.Symbol("w"))),
    "reserved names": (["N", "S", "Q"], sp.symbols("N S Q")),
    "expressions": ([X(sp.Symbol("u") ** 2), X(sp.cos(sp.Symbol("w"))), X(1)],
                    (sp.Symbol("u") ** 2, sp.cos(sp.Symbol("w")), 1)),
    "mixed": ([F("a0"), "u", X(sp.Symbol("w"))], (S("a0"), *sp.symbols("u w"))),
}


def theta(a, t0, tx, p0, px):
    return (a[0] * sp.cos(t0) * sp.cos(tx) + sp.sin(t0) * sp.sin(tx) * (
        a[1] * sp.cos(p0) * sp.cos(px) + a[2] * sp.sin(p0) * sp.sin(px)))


def term(ctx, r, v=None):
    """The single term a client function returns."""
    ctx.no_raise(r)
    out = []
    for pt, l in ctx.paths_of(r, ctx.value(r) if v is None else v):
        if isinstance(l, (int, Num)):
            out.append((pt, sp.sympify(getattr(l, "expr", l))))
        else:
            raise Unclear(f"not a term: {short(l)}") if isinstance(l, Opq) else Mismatch(
                f"{short(l)} instead of an expression")
    if len(out) != 1:
        raise Unclear("different terms on different paths")
    ctx.terms += 1
    return terms.exact(out[0][1])


def eq(got, exp, what, nf=None):
    if not (nf or terms.NF()).equal(got, exp):
        raise Mismatch(f"{what}: computed {short(got)}  expected {short(exp)}")


def c18(ctx):
    ctx.rule("scattering_angle_symbolic and calc_scattering_angle() equal the generalized "
             "scattering angle; phase functions depend on the angles only through it; "
             "default and given a; a with another length raises on every path")
    m = Models(CLIENT)
    comb2 = lambda mod: {"parts": [(F("w1"), "Gen", GEN), ("w2", "Isotropic", {})]}  # noqa
    cls = [c[:3] for c in CLASSES] + [("V", "Gen", GEN), ("S", "Gen", GEN),
                                      ("V", "LinComb", comb2("V")),
                                      ("S", "LinComb", comb2("S")),
                                      ("V", "Own", {}), ("S", "Own", {})]
    other = (sp.Symbol("q1"), sp.Symbol("q2") / 2, sp.pi - sp.Symbol("q3"), sp.Integer(0))
    swap = (THX, TH0, PHX, PH0)
    mono = (TH0, TH0, PH0, PH0 + sp.pi)
    for mod, name, kw in cls:
        for label, (given, exp) in A_FORMS.items():
            if exp is None:
                exp = (1, sp.Symbol("u"), 3) if name == "Own" else DEF_A[mod]
            kwa = dict(kw, **({} if given is None else {"a": given}))
            key = f"{mod}.{name} a={label}"
            r = ctx.seen(m.run("angle", mod, name, kwa))

            def f():
                v = entries(ctx, r, 5)
                ctx.same(r, pick(v, 0), sp.Integer(3), "len(a)")
                for k in range(3):
                    ctx.same(r, pick(v, k + 1), sp.sympify(exp[k]), f"a[{k}]")
                ctx.same(r, pick(v, 4), theta(exp, *SYMS), "scattering_angle_symbolic")
            ctx.obligation(f"scattering angle of {key}", f, r)
            # the function depends on the angles through the scattering angle
            if name in ("LinComb", "Gen", "Own"):
                continue
            full = ctx.seen(m.run("phase", mod, name, kwa))
            part = ctx.seen(m.run("phase", mod, name,
                                  dict(kw, a=[X(exp[0]), "x", X(exp[2])])))

            def g():
                fx = profile(term(ctx, part))
                eq(term(ctx, full), fx.subs(x, theta(exp, *SYMS)),
                   "phase function at the scattering angle")
            ctx.obligation(f"phase function of {key}", g, full)
        for label, args in (("symbols", SYMS), ("expressions", other), ("swapped", swap),
                            ("monostatic", mono), *REUSED[-3:]):
            r = ctx.seen(m.run("calc_angle", mod, name, dict(kw),
                               (*args, [F("a0"), X(sp.Symbol("u")), X(t)])))
            ctx.obligation(
                f"calc_scattering_angle of {mod}.{name} at {label}",
                lambda: eq(term(ctx, r), theta((S("a0"), sp.Symbol("u"), t), *args),
                           "calc_scattering_angle()"), r)
        for bad in ([], [1], [1, 1], [1, 1, 1, 1], ["u", "w"], [1, 2, 3, 4, 5]):
            r = ctx.seen(m.run("angle", mod, name, dict(kw, a=bad)))
            ctx.obligation(f"{mod}.{name} with {len(bad)} entries of a raises",
                           lambda: raises(r, f"a = {bad} is accepted"), r)
    # numerical evaluation
    ang = [A(n) for n in ("t_0", "t_ex", "p_0", "p_ex")]
    val = dict(zip(SYMS, [S(n) for n in ("t_0", "t_ex", "p_0", "p_ex")]))
    for mod, name, kw, _ in CLASSES + [("V", "Gen", GEN, None), ("S", "Gen", GEN, None)]:
        for b in BACKENDS:
            for label, par in (("default", {}), ("names", {"u": A("u"), "w": F("w"),
                                                          "z": A("z")})):
                if label == "names" and name in ("Isotropic", "Gen"):
                    continue
                kwa = dict(kw, **({"a": A_FORMS[label][0]} if par else {}))
                if "t" in kw:
                    par = dict(par, t=A("t"))
                sym = ctx.seen(m.run("phase", mod, name, kwa))
                r = ctx.seen(m.run("calc", b, mod, name, kwa, tuple(ang), par))

                def f():
                    e = term(ctx, sym)
                    e = e.subs({**val, **{sp.Symbol(k): v.expr for k, v in par.items()}},
                               simultaneous=True)
                    ctx.no_raise(r)
                    ctx.same(r, ctx.value(r), e, "calc()")
                ctx.obligation(f"calc() of {mod}.{name} a={label} [{b}]", f, r)
                # another object of the same class has been used before
                for k, v in (("a", [0.25, "t", 3.0]), ("t", "t/2"), ("i", 2),
                             ("phase", gen_phase("other")), ("ncoefs", 8)):
                    if k not in kw and k not in ("a", "ncoefs") or (
                            k == "a" and "t" not in kw):
                        continue
                    first = dict(kwa, **{k: v})
                    r = ctx.seen(m.run("calc_after", b, mod, name, first, kwa, tuple(ang),
                                       par))
                    ctx.obligation(f"calc() of {mod}.{name} a={label} after another object "
                                   f"with {k}={v} [{b}]", f, r)


def raises(r, msg):
    if r.value is not DEAD:
        raise Mismatch(msg)


def profile(e):
    """phase function for a = [.., x, ..] as function of the scattering angle x."""
    return e.subs({TH0: sp.pi / 2, THX: sp.pi / 2, PH0: 0, PHX: 0})


# -- series ------------------------------------------------------------------------------
def at(c, k):
    """Coefficient with number k."""
    e = sp.sympify(c).subs(N_, k)
    if isinstance(e, sp.Piecewise) or e.has(sp.Piecewise):
        e = sp.piecewise_fold(e)
    if e.has(sp.Piecewise, sp.KroneckerDelta, N_):
        raise Unclear(f"coefficient {k}: {short(e)}")
    return e


def rational_y(f, y, par=t):
    """(Laurent polynomial in y, K) for f(x) with y = sqrt(1 + t^2 - 2 t x)."""
    g = f.subs(x, (1 + par ** 2 - y ** 2) / (2 * par))
    def fix(b, e):
        b = sp.factor(b)
        return sp.powdenest(b ** e, force=True)
    g = g.replace(lambda z: z.is_Pow and z.exp.is_Rational and not z.exp.is_Integer
                  and z.base.has(y), lambda z: fix(z.base, z.exp))
    return sp.expand(sp.together(g)) if not g.has(y) else g


def laurent(g, y):
    """{power: coefficient} of a Laurent polynomial in y."""
    num, den = sp.fraction(sp.together(g))
    dp = sp.Poly(den, y)
    if len(dp.terms()) != 1:
        raise Unclear(f"not a Laurent polynomial in the root: {short(g)}")
    (k,), cf = dp.terms()[0]
    return {p[0] - k: c / cf for p, c in sp.Poly(sp.expand(num), y).terms()}


def integral_y(g, y, lo, hi):
    """Exact integral of a Laurent polynomial."""
    tot = sp.Integer(0)
    for p, c in laurent(g, y).items():
        if p == -1:
            tot += c * sp.log(hi / lo)
        else:
            tot += c * (hi ** (p + 1) - lo ** (p + 1)) / (p + 1)
    return tot


def split(f):
    """(kind, data) of a function of x."""
    if f.has(sp.sign, sp.Heaviside, sp.Abs, sp.Max, sp.Piecewise):
        z = sp.Symbol("z", positive=True)
        up = sp.expand(sp.piecewise_fold(f.subs(x, z)).subs(z, x))
        dn = sp.expand(sp.piecewise_fold(f.subs(x, -z)).subs(z, -x))
        if up.is_polynomial(x) and dn.is_polynomial(x):
            return "half", (up, dn)
        raise Unclear(f"form of the phase function: {short(f)}")
    if sp.expand(f).is_polynomial(x):
        return "poly", sp.expand(f)
    roots = {z.base for z in f.atoms(sp.Pow) if z.exp.is_Rational
             and not z.exp.is_Integer and z.has(x)}
    if len(roots) == 1:
        b = sp.expand(roots.pop())
        p = sp.Poly(b, x)
        if p.degree() == 1:
            tt = -p.coeff_monomial(x) / 2
            if sp.expand(p.coeff_monomial(1) - 1 - tt ** 2) == 0:
                return "root", (b, tt)
            # another root: the series is compared with generic projections
        raise Mismatch(f"the phase function is not a function of 1 + t^2 - 2*t*x: {b}")
    raise Unclear(f"form of the phase function: {short(f)}")


def project(kind, data, f, k):
    """(2k+1)/2 * integral of f*P_k over [-1, 1]."""
    pk = sp.legendre(k, x)
    if kind == "poly":
        return sp.Rational(2 * k + 1, 2) * sp.integrate(sp.expand(data * pk), (x, -1, 1))
    if kind == "half":
        up, dn = data
        return sp.Rational(2 * k + 1, 2) * (
            sp.integrate(sp.expand(up * pk), (x, 0, 1))
            + sp.integrate(sp.expand(dn * pk), (x, -1, 0)))
    b, tt = data
    y = sp.Symbol("y", positive=True)
    g = rational_y(f * pk, y, tt) * (-y / tt)
    return sp.Rational(2 * k + 1, 2) * integral_y(g, y, 1 + tt, 1 - tt)


def poles(e):
    """Terms with 1/gamma at a pole are zero."""
    return sp.simplify(e.replace(
        lambda z: z.is_Pow and isinstance(z.base, sp.gamma) and z.exp.is_negative
        and z.base.args[0].is_integer and z.base.args[0].is_nonpositive,
        lambda z: sp.Integer(0)))


def quotient(e):
    """Cancel gamma functions whose arguments differ by integers."""
    e = sp.factor(e) if e.is_Add else e
    up, dn, rest = [], [], []
    for q in sp.Mul.make_args(sp.powsimp(e)):
        b, k = q.as_base_exp()
        if isinstance(b, sp.gamma) and k.is_Integer:
            (up if k > 0 else dn).extend([b.args[0]] * abs(int(k)))
        else:
            rest.append(q)
    for u in list(up):
        for d in dn:
            k = sp.expand(u - d)
            if k.is_Integer:
                up.remove(u)
                dn.remove(d)
                rest.append(sp.prod([d + j for j in range(int(k))]) if k >= 0
                            else 1 / sp.prod([u + j for j in range(-int(k))]))
                break
    return sp.Mul(*rest, *map(sp.gamma, up), *[1 / sp.gamma(d) for d in dn])


def same_series(ctx, f, c, top):
    kind, data = split(f)
    for k in range(top):
        eq(at(c, k), project(kind, data, f, k),
           f"coefficient {k} and projection of the phase function on P_{k}")
        ctx.terms += 1
    m = sp.Symbol("m_", integer=True, nonnegative=True)
    if kind == "poly":
        d = max(sp.degree(data, x) if data.has(x) else 0, 0) + 1
        for k in range(top, d):
            eq(at(c, k), project(kind, data, f, k), f"coefficient {k}")
        rest = sp.simplify(sp.piecewise_fold(sp.sympify(c).subs(N_, m + d)))
        if rest != 0:
            raise Mismatch(f"coefficients above order {d - 1}: computed {short(rest)}  "
                           "expected 0")
    elif kind == "half":
        up, dn = data
        p = sp.Poly(up, x)
        if dn != 0 or len(p.terms()) != 1:
            raise Unclear("series of a general half-range polynomial")
        i = p.degree()
        # hypergeometric term: the ratio of every second coefficient
        for par in (0, 1):
            n = 2 * m + par
            if par == i % 2:
                d = i + 2
                for k in range(top, d):
                    eq(at(c, k), project(kind, data, f, k), f"coefficient {k}")
                z = poles(sp.sympify(c).subs(N_, d + 2 * m))
                if z != 0:
                    raise Mismatch(f"coefficients {d}, {d + 2}, ...: {short(z)} instead "
                                   "of 0")
                continue
            r = quotient(sp.sympify(c).subs(N_, n + 2) / sp.sympify(c).subs(N_, n))
            eq(r, (2 * n + 5) * (i - n) / ((2 * n + 1) * (i + n + 3)),
               "ratio of subsequent coefficients")
    else:
        b, tt = data
        if not tt.is_Symbol:
            return
        q = sp.together(sp.powsimp(sp.expand_power_base(f * b ** sp.Rational(3, 2))))
        T = sp.Symbol("T_")
        q = sp.simplify(q.replace(
            lambda z: z.is_Pow and z.base.has(x) and z.exp.is_Rational,
            lambda z: sp.expand(z.base) ** z.exp))
        num, den = sp.fraction(sp.together(q))
        if den.has(x) or not sp.expand(num).is_polynomial(x):
            raise Unclear(f"form of the phase function: {short(q)}")
        h = lambda n: (2 * n + 1) * T * tt ** (n - N_) / (1 - tt ** 2)  # noqa: n >= 0
        ser = [h]
        p = sp.Poly(sp.expand(num), x)
        d = p.degree()

        def times_x(g):
            return lambda n: n / (2 * n - 1) * g(n - 1) + (n + 1) / (2 * n + 3) * g(n + 1)
        for _ in range(d):
            ser.append(times_x(ser[-1]))
        exp = sum(cf / den * ser[k](N_) for (k,), cf in p.terms())
        got = sp.sympify(c)
        if got.has(sp.Piecewise, sp.KroneckerDelta):
            got = sp.piecewise_fold(got.subs(N_, m + max(d, 2))).subs(
                m, N_ - max(d, 2))
            for k in range(top, max(d, 2)):
                eq(at(c, k), project(kind, data, f, k), f"coefficient {k}")
        if got.has(sp.Piecewise, sp.KroneckerDelta):
            raise Unclear(f"coefficients: {short(got)}")
        got = got.replace(lambda z: z.is_Pow and z.base == tt and z.exp.has(N_),
                          lambda z: T * tt ** (z.exp - N_))
        exp = exp.replace(lambda z: z.is_Pow and z.base == tt,
                          lambda z: tt ** sp.expand(z.exp))
        got = got.replace(lambda z: z.is_Pow and z.base == tt,
                          lambda z: tt ** sp.expand(z.exp))
        eq(got, exp, "coefficient with general number n")


T_FORMS = {"name": ("t", t), "other name": ("asym", sp.Symbol("asym")),
           "number": (F("t"), S("t")), "expression": (X(t), t),
           "constant 0.5": (C(0.5), sp.Rational(1, 2)),
           "constant -0.25": (C(-0.25), -sp.Rational(1, 4)),
           "constant 0.9": (C(0.9), sp.Rational(9, 10)),
           "zero": (C(0.0), sp.Integer(0)), "integer zero": (0, sp.Integer(0)),
           "composed": (X(t / 2), t / 2), "text": ("t1 - t2", sp.Symbol("t1")
                                                   - sp.Symbol("t2"))}


def instances(tier):
    for mod, name, kw, _ in CLASSES:
        if "t" in kw:
            for label, (val, e) in T_FORMS.items():
                yield mod, name, {"t": val}, f"{mod}.{name}(t={label})", e
        elif "i" in kw:
            for i in range(13 if tier else 7):
                yield mod, name, {"i": i}, f"{mod}.{name}(i={i})", i
        else:
            yield mod, name, {}, f"{mod}.{name}()", None


def c19(ctx):
    ctx.rule("coefficient n = (2n+1)/2 * integral of phase(x)*P_n(x): exact rational "
             "integration for the first orders, general n by the recurrence of the "
             "Legendre polynomials / the ratio of hypergeometric terms")
    m = Models(CLIENT)
    for mod, name, kw, key, par in instances(ctx.thorough):
        # (normalisation factors may depend on a[0])
        for a0 in (("default", DEF_A[mod][0]),) + ((("1", 1), ("-1", -1))
                                                    if name == "HG_nadirnorm" else ()):
            kwa = dict(kw, a=[a0[1], "x", "a2"])
            rp = ctx.seen(m.run("phase", mod, name, kwa))
            rc = ctx.seen(m.run("coefs", mod, name, kwa))

            def f():
                ph = term(ctx, rp)
                fx = profile(ph)
                eq(ph, fx.subs(x, theta((a0[1], x, sp.Symbol("a2")), *SYMS)),
                   "phase function at the scattering angle")
                sym = "t" in kw and sp.sympify(par).has(sp.Symbol)
                top = (12 if ctx.thorough else 8) if not sym else (
                    6 if ctx.thorough else 4)
                if name == "CosineLobe":
                    top = par + (8 if ctx.thorough else 4)
                same_series(ctx, fx, term(ctx, rc), top)
            ctx.obligation(f"Legendre series of {key} a[0]={a0[0]}", f, rp)
    # a does not change the coefficients of functions without an own normalisation
    for mod, name, kw, _ in CLASSES:
        if name == "HG_nadirnorm":
            continue
        r0 = ctx.seen(m.run("coefs", mod, name, kw))
        r1 = ctx.seen(m.run("coefs", mod, name, dict(kw, a=["a0", "a1", "a2"])))
        ctx.obligation(f"coefficients of {mod}.{name} for general a",
                       lambda: eq(term(ctx, r1), term(ctx, r0), "coefficients"), r1)
    # general a[0] of the nadir-normalized function: common factor of both forms
    rp = ctx.seen(m.run("phase", "S", "HG_nadirnorm", {"t": "t", "a": ["a0", "x", "a2"]}))
    rc = ctx.seen(m.run("coefs", "S", "HG_nadirnorm", {"t": "t", "a": ["a0", "x", "a2"]}))

    def g():
        fx = profile(term(ctx, rp))
        c = term(ctx, rc)
        b = 1 + t ** 2 - 2 * t * x
        eq(fx * b ** sp.Rational(3, 2) / (1 - t ** 2), c / ((2 * N_ + 1) * t ** N_),
           "normalisation of the phase function and of the coefficients")
    ctx.obligation("Legendre series of S.HG_nadirnorm for general a[0]", g, rp)


def c20(ctx):
    ctx.rule("exact integral of the phase functions over the sphere / the nadir hemisphere")
    m = Models(CLIENT)
    for mod, name, kw, key, par in instances(ctx.thorough):
        rd = ctx.seen(m.run("phase", mod, name, kw))
        rp = ctx.seen(m.run("phase", mod, name, dict(kw, a=[DEF_A[mod][0], "x", 1])))
        ra = ctx.seen(m.run("angle", mod, name, kw))

        def common():
            fx = profile(term(ctx, rp))
            eq(term(ctx, rd), fx.subs(x, theta(DEF_A[mod], *SYMS)), "phase function")
            return fx

        def unit_a():
            v = entries(ctx, ra, 5)
            for k in range(3):
                ctx.same(ra, lift(lambda q: mul(q, q), pick(v, k + 1)), sp.Integer(1),
                         f"a[{k}]**2")
        if mod == "V":
            def f():
                fx = common()
                unit_a()
                kind, data = split(fx)
                eq(4 * sp.pi * project(kind, data, fx, 0), sp.Integer(1),
                   "integral over the sphere")
            ctx.obligation(f"integral of {key}", f, rd)
        elif name == "Isotropic":
            def f():
                fx = common()
                if fx.has(x):
                    raise Mismatch(f"the phase function depends on the angles: {fx}")
                eq(fx * sp.pi, sp.Integer(1), "hemispherical reflectance")
            ctx.obligation(f"hemispherical reflectance of {key}", f, rd)
        elif name == "HG_nadirnorm":
            rn = ctx.seen(m.run("phase", mod, name, {"t": "t", "a": [1, "x", 1]}))

            def f():
                fx = common()
                if not (sp.sympify(par).is_Symbol or sp.sympify(par).is_number):
                    # an instance of the function with a named parameter
                    eq(fx, profile(term(ctx, rn)).subs(t, par), "phase function")
                    return
                eq(nadir(fx, sp.sympify(par)), sp.Integer(1), "nadir hemispherical "
                   "reflectance")
            ctx.obligation(f"nadir hemispherical reflectance of {key}", f, rd)
        elif name == "HenyeyGreenstein":
            def f():
                fx = common()
                p = sp.sympify(par)
                eq(fx, (1 - p ** 2) / sp.pi / (1 + p ** 2 - 2 * p * x) ** sp.Rational(3, 2),
                   "phase function")
            ctx.obligation(f"form of {key}", f, rd)


def mul(a, b):
    a, b = [sp.sympify(getattr(q, "expr", q)) for q in (a, b)]
    return Num(a * b, "sym")


def nadir(fx, par):
    """2*pi * integral of f(x)*x over [0, 1]."""
    kind, data = split(fx)
    if kind == "poly":
        return 2 * sp.pi * sp.integrate(sp.expand(data * x), (x, 0, 1))
    if kind == "half":
        return 2 * sp.pi * sp.integrate(sp.expand(data[0] * x), (x, 0, 1))
    b, tt = data
    # t = 2w/(1 - w^2): sqrt(1 + t^2) = (1 + w^2)/(1 - w^2), |w| < sqrt(2) - 1
    y = sp.Symbol("y", positive=True)
    w = sp.Symbol("w")
    if not tt.is_Symbol:
        if tt.is_number:
            g = rational_y(fx * x, y, tt) * (-y / tt)
            return sp.radsimp(sp.expand(2 * sp.pi * integral_y(
                g, y, sp.sqrt(1 + tt ** 2), 1 - tt)))
        raise Unclear(f"asymmetry parameter {tt}")
    rep = 2 * w / (1 - w ** 2)
    g = (fx * x).subs(x, (1 + tt ** 2 - y ** 2) / (2 * tt)) * (-y / tt)
    g = g.subs(tt, rep)

    def root(z):
        return z.is_Pow and z.exp.is_Rational and not z.exp.is_Integer

    def fix(z):
        f = sp.factor(sp.together(z.base))
        num, den = sp.fraction(f)
        out = sp.Integer(1)
        for part, sg in ((num, 1), (den, -1)):
            cf, lst = sp.factor_list(part)
            out *= cf ** (sg * z.exp)
            for q, e in lst:
                if q == y or q.is_Symbol and q == y:
                    out *= y ** (sg * e * z.exp)
                elif (e * z.exp).is_Integer:
                    if not q.has(y) and q.subs(w, 0) < 0:
                        q = -q  # |q|: no root for |w| < sqrt(2) - 1
                    out *= q ** (sg * e * z.exp)
                else:
                    return z
        return out
    for _ in range(4):
        h = g.replace(root, fix)
        if h == g:
            break
        g = h
    if any(root(z) for z in g.atoms(sp.Pow)):
        raise Unclear(f"root in {short(g)}")
    lo = (1 + w ** 2) / (1 - w ** 2)
    hi = 1 - rep
    return 2 * sp.pi * integral_y(sp.together(g), y, lo, hi)


# -- C21 ---------------------------------------------------------------------------------
def c21(ctx):
    ctx.rule("legendre_expansion() = sum over n < ncoefs of coefficient n times P_n of the "
             "scattering angle at the arguments; ncoefs is the given / fixed number; a "
             "missing ncoefs raises an error on every path")
    m = Models(CLIENT)
    args = (sp.Symbol("q1"), sp.Symbol("q2"), sp.Symbol("q3"), sp.Symbol("q4"))
    mixed = (X(sp.Symbol("q1")), C(0.5), F("p0"), 0)
    mixed_e = (sp.Symbol("q1"), sp.Rational(1, 2), S("p0"), sp.Integer(0))
    equator = (sp.pi / 2, sp.pi / 2, sp.Integer(0), sp.Integer(0))
    for mod, name, kw, fixed in CLASSES + [
            ("V", "Gen", {k: v for k, v in GEN.items() if k != "ncoefs"}, None),
            ("S", "Gen", {k: v for k, v in GEN.items() if k != "ncoefs"}, None)]:
        for nc in (1, 2, 3, 4, 7, 12) if ctx.thorough else (1, 2, 3, 6):
            for label, a, av in (("default", None, DEF_A[mod]),
                                 ("x", [2, "x", "a2"], (2, x, sp.Symbol("a2")))):
                kwa = dict(kw, ncoefs=nc, **({"a": a} if a else {}))
                rc = ctx.seen(m.run("coefs", mod, name, kwa))
                n = fixed or nc
                sets = [("equator", equator, equator)]
                if nc <= 3:
                    sets += [("general", args, args), ("mixed", mixed, mixed_e),
                             *((q, z, z) for q, z in REUSED)]
                for al, given, ex in sets:
                    r = ctx.seen(m.run("expansion", mod, name, kwa, tuple(given)))

                    def f():
                        c = term(ctx, rc)
                        th = theta(av, *ex)
                        exp = sum(at(c, k) * sp.legendre(k, th) for k in range(n))
                        eq(term(ctx, r).doit(), exp, "legendre_expansion()")
                    ctx.obligation(f"expansion of {mod}.{name} ncoefs={nc} a={label} at "
                                   f"{al} angles", f, r)
            r = ctx.seen(m.run("number", mod, name, dict(kw, ncoefs=nc)))
            ctx.obligation(f"ncoefs of {mod}.{name} for ncoefs={nc}",
                           lambda: eq(term(ctx, r), sp.Integer(fixed or nc), "ncoefs"), r)
        if fixed:
            r = ctx.seen(m.run("number", mod, name, kw))
            ctx.obligation(f"ncoefs of {mod}.{name}",
                           lambda: eq(term(ctx, r), sp.Integer(fixed), "ncoefs"), r)
            continue
        for what, fn, a_ in (("ncoefs", "number", ()),
                             ("legendre_expansion()", "expansion", (args,))):
            r = ctx.seen(m.run(fn, mod, name, kw, *a_))
            ctx.obligation(f"{what} of {mod}.{name} without ncoefs",
                           lambda: says_ncoefs(r, what), r)
        for w in ("w",):
            part = [(w, name, kw), (F("w2"), "Isotropic", {})]
            for p in (part, part[::-1]):
                r = ctx.seen(m.run("expansion", mod, "LinComb", {"parts": p}, args))
                ctx.obligation(f"expansion of a combination with {mod}.{name} without "
                               f"ncoefs ({p[0][1]} first)",
                               lambda: says_ncoefs(r, "legendre_expansion()"), r)
        for k, v in (("t", C(0.25)), ("t", "0.5"), ("t", F("t"))):
            if k in kw:
                r = ctx.seen(m.run("number", mod, name, dict(kw, **{k: v})))
                ctx.obligation(f"ncoefs of {mod}.{name}({k}={v}) without ncoefs",
                               lambda: says_ncoefs(r, "ncoefs"), r)
        # evaluation of a model
        other = ("S", "Isotropic", {}) if mod == "V" else ("V", "Rayleigh", {})
        for b in BACKENDS:
            for ev, iq in (("calc", True), ("interaction", True), ("calc", False)):
                par = {k: A(k) for k in ("t_0", "t_ex", "p_0", "p_ex", "tau", "omega",
                                         "NormBRDF")}
                for k in {str(q) for v in kw.values() if isinstance(v, sp.Basic)
                          for q in v.free_symbols} - {"n", *map(str, SYMS)}:
                    par[k] = A(k)
                if "t" in kw:
                    par["t"] = A("t")
                vs = [("Rayleigh", {}), ("Isotropic", {})]
                vs[0 if mod == "V" else 1] = (name, dict(kw))
                r = ctx.seen(m.run("evaluate", b, *vs, par, {"int_Q": iq, "dB": False},
                                   ev))
                if iq:
                    ctx.obligation(f"{ev}() with {mod}.{name} without ncoefs [{b}]",
                                   lambda: says_ncoefs(r, f"{ev}()"), r)
                else:
                    ctx.obligation(f"{ev}() with {mod}.{name} without ncoefs, int_Q=False "
                                   f"[{b}]", lambda: (ctx.no_raise(r), ctx.value(r)), r)


def says_ncoefs(r, what):
    if r.value is not DEAD:
        raise Mismatch(f"{what} can be used without the number of coefficients")
    for st, e in r.raised:
        text = " ".join(map(str, e.args)).lower()
        if "ncoefs" not in text and "coefficient" not in text:
            raise Mismatch(f"{exc_name(e)}({short(text)}) at {e.where} does not tell that "
                           "ncoefs is missing")


# -- C22 ---------------------------------------------------------------------------------
def partitions(n):
    """All patterns of equal / different entries."""
    def rec(k, mx):
        if k == n:
            yield ()
            return
        for j in range(mx + 1):
            for rest in rec(k + 1, max(mx, j + 1)):
                yield (j, *rest)
    return rec(0, 0)


def gen_part(k, nc, a=None):
    kw = {"phase": gen_phase(f"ph{k}"), "coefs": gen_coef(f"co{k}"), "ncoefs": nc}
    if a is not None:
        kw["a"] = a
    return kw


W_FORMS = [lambda k: (F(f"w{k}"), S(f"w{k}")),
           lambda k: (f"w{k}", sp.Symbol(f"w{k}")),
           lambda k: (f"1 - w{k}*u", 1 - sp.Symbol(f"w{k}") * sp.Symbol("u")),
           lambda k: (X(sp.Symbol(f"w{k}") ** 2), sp.Symbol(f"w{k}") ** 2),
           lambda k: (k + 2, sp.Integer(k + 2)),
           lambda k: (["N", "S", "Q", "E"][k % 4], sp.Symbol("NSQE"[k % 4])),
           lambda k: (C(0.25), sp.Rational(1, 4))]
A_SETS = [([F("a0"), F("a1"), F("a2")], (S("a0"), S("a1"), S("a2"))),
          (["b0", 1, "b2"], (sp.Symbol("b0"), 1, sp.Symbol("b2"))),
          (None, None),
          ([1, 1, C(-1.0)], (1, 1, -1)),
          ([F("a0"), F("a1"), 3], (S("a0"), S("a1"), 3))]


def c22(ctx):
    ctx.rule("phase function = sum of weight * phase function; the coefficient of every "
             "component order in the expansion is weight * P_n(own angle) and every "
             "required order is present; ncoefs = maximum")
    m = Models(CLIENT)
    args = (sp.Symbol("q1"), sp.Symbol("q2"), sp.Symbol("q3"), sp.Symbol("q4"))
    top = 4 if ctx.thorough else 3

    def check(mod, parts, exp, label, args=args, **other):
        """exp: [(weight, co-function name or None, phase, ncoefs, a, coefficients)]"""
        kw = {"parts": parts, **other}
        rp = ctx.seen(m.run("phase", mod, "LinComb", kw))
        re = ctx.seen(m.run("expansion", mod, "LinComb", kw, args))
        rn = ctx.seen(m.run("number", mod, "LinComb", kw))

        def f1():
            eq(term(ctx, rp), sum(w * ph for w, _, ph, *_ in exp), "phase function")

        def f2():
            e = sp.expand(term(ctx, re).doit(), deep=False)
            known = {}
            for w, fn, ph, n, a, cf in exp:
                if fn is None:
                    for k in range(n):
                        e = e - w * at(cf, k) * sp.legendre(k, theta(a, *args))
                else:
                    known.setdefault(fn, []).append((w, n, a))
            if not known:
                eq(e, sp.Integer(0), "difference of the expansion")
                return
            apps = {}
            for z in e.atoms(sp.Function):
                if z.func.__name__ in known:
                    apps.setdefault((z.func.__name__, z.args), z)
            dummy = {z: sp.Dummy() for z in apps.values()}
            e = sp.expand(e.xreplace(dummy))
            p = sp.Poly(e, *dummy.values()) if dummy else None
            nf = terms.NF()
            rest = e
            for fn, lst in known.items():
                need = max(n for _, n, _ in lst)
                seen = 0
                for k in range(0, 40):
                    z = next((z for (g, ar), z in apps.items() if g == fn
                              and ar and ar[0] == k), None)
                    cf = p.coeff_monomial(dummy[z]) if z is not None else sp.Integer(0)
                    must = sum((w * sp.legendre(k, theta(a, *args)) for w, n, a in lst
                                if k < n), sp.Integer(0))
                    allw = sum((w * sp.legendre(k, theta(a, *args)) for w, n, a in lst),
                               sp.Integer(0))
                    if not (nf.equal(cf, must) or k >= min(n for _, n, _ in lst)
                            and nf.equal(cf, allw)):
                        # orders that a single component does not require
                        ok = False
                        free = [q for q in lst if k >= q[1]]
                        for r_ in range(1, len(free)):
                            for sub in itertools.combinations(free, r_):
                                ok = ok or nf.equal(cf, must + sum(
                                    w * sp.legendre(k, theta(a, *args))
                                    for w, n, a in sub))
                        if not ok:
                            raise Mismatch(
                                f"coefficient {k} of {fn} in the expansion: {short(cf)} "
                                f"instead of {short(must)}")
                    if z is not None:
                        rest = rest - cf * dummy[z]
                        seen += 1
                    if k >= need and seen == len([1 for g, _ in apps if g == fn]):
                        break
            eq(sp.expand(rest), sp.Integer(0), "additional terms of the expansion")

        def f3():
            eq(term(ctx, rn), sp.Integer(max(q[3] for q in exp)), "ncoefs")
        ctx.obligation(f"phase function of {label}", f1, rp)
        ctx.obligation(f"expansion of {label}", f2, re)
        ctx.obligation(f"ncoefs of {label}", f3, rn)

    def build(mod, n, pattern, ncs, wform, same=False):
        parts, exp = [], []
        for k in range(n):
            a, av = A_SETS[pattern[k]]
            w, we = W_FORMS[wform if wform < len(W_FORMS) else (wform + k) % len(W_FORMS)](
                k)
            q = 0 if same else k
            parts.append((w, "Gen", gen_part(q, ncs[k], a)))
            exp.append((we, f"co{q}", gen_phase(f"ph{q}"), ncs[k], av or DEF_A[mod],
                        gen_coef(f"co{q}")))
        return parts, exp
    for mod in ("V", "S"):
        cnt = 0
        for n in range(1, top + 1):
            for pattern in partitions(n):
                orders = {1: [(1,), (3,)], 2: [(1, 3), (3, 1), (2, 2)],
                          3: [(1, 2, 4), (4, 1, 2), (2, 4, 1), (1, 4, 2)],
                          4: [(1, 3, 2, 4), (4, 2, 3, 1)]}[n]
                for ncs in orders:
                    cnt += 1
                    wf = cnt % (len(W_FORMS) + 2)
                    check(mod, *build(mod, n, pattern, ncs, wf),
                          f"{mod}: {n} components, a pattern {pattern}, orders {ncs}, "
                          f"weights {wf}")
            for wf in range(len(W_FORMS)):
                check(mod, *build(mod, n, tuple(range(n)), (2, 1, 3, 2)[:n], wf),
                      f"{mod}: {n} components, weights {wf}")
        # equal components
        for pattern in partitions(2):
            check(mod, *build(mod, 2, pattern, (2, 2), 0, same=True),
                  f"{mod}: the same function twice, a pattern {pattern}")
        for al, ar in REUSED:
            for pattern in partitions(2):
                check(mod, *build(mod, 2, pattern, (2, 3), 1),
                      f"{mod}: 2 components, a pattern {pattern}, {al} angles", ar)
        # the same object repeatedly
        for n, again in ((2, (0,)), (3, (0,)), (3, (0, 0)), (3, (1,)), (2, (0, 1))):
            parts, exp = build(mod, n, tuple(range(n)), (2, 1, 3)[:n], 0)
            for k, q in enumerate(again):
                w, we = W_FORMS[(k + 1) % len(W_FORMS)](7 + k)
                parts.append((w, "Same", q))
                exp.append((we, *exp[q][1:]))
            check(mod, parts, exp, f"{mod}: {n} components, {again} used again")
        # other combinations in the same program
        for n, k in itertools.product((1, 2), (1, 2)):
            for pattern in partitions(n):
                o = build(mod, k, tuple(range(k)), (4, 2)[:k], 1)[0]
                for w in ("before", "after"):
                    check(mod, *build(mod, n, pattern, (2, 3)[:n], 0),
                          f"{mod}: {n} components, a pattern {pattern}, another "
                          f"combination used {w}", **{w: (o, args)})
        # equal weights
        for pattern in partitions(2):
            parts, exp = build(mod, 2, pattern, (2, 3), 0)
            parts = [("w0", *p[1:]) for p in parts]
            exp = [(sp.Symbol("w0"), *p[1:]) for p in exp]
            check(mod, parts, exp, f"{mod}: equal weights, a pattern {pattern}")
        # built-in functions together with generic ones
        for a, av in A_SETS[:3]:
            for bi, nb in (("Isotropic", 1),) + ((("Rayleigh", 3),) if mod == "V" else ()):
                for first in (True, False):
                    kb = {"a": a} if a else {}
                    ph = term(ctx, m.run("phase", mod, bi, kb))
                    cf = term(ctx, m.run("coefs", mod, bi, {}))
                    for ag, agv in ((a, av), A_SETS[3]):
                        parts = [("wb", bi, dict(kb)),
                                 (F("wg"), "Gen", gen_part(1, 2, ag))]
                        exp = [(sp.Symbol("wb"), None, ph, nb, av or DEF_A[mod], cf),
                               (S("wg"), "co1", gen_phase("ph1"), 2, agv or DEF_A[mod],
                                gen_coef("co1"))]
                        if not first:
                            parts, exp = parts[::-1], exp[::-1]
                        check(mod, parts, exp, f"{mod}: {bi} and a generic function, a="
                              f"{av}/{agv} {'first' if first else 'last'}")


    # evaluation of a model with linear combinations
    for b in BACKENDS:
        for mod in ("V", "S"):
            parts, exp = build(mod, 2, (0, 1), (1, 2), 1)
            par = {k: A(k) for k in ("t_0", "t_ex", "p_0", "p_ex", "tau", "omega",
                                     "NormBRDF", "w0", "w1", "a0", "b0", "b2", "u")}
            vs = [("Isotropic", {}), ("Isotropic", {})]
            vs[0 if mod == "V" else 1] = ("LinComb", {"parts": parts})
            name = "volume" if mod == "V" else "surface"
            r = ctx.seen(m.run("evaluate", b, *vs, par, {"dB": False, "sig0": False},
                               name))
            ang = {s: S(n_) for s, n_ in zip(SYMS, ("t_0", "t_ex", "p_0", "p_ex"))}

            def f():
                ctx.no_raise(r)
                ph = sum(w * p for w, _, p, *_ in exp)
                ph = ph.subs({**ang, **{sp.Symbol(k): S(k) for k in par}},
                             simultaneous=True)
                m0, mx = sp.cos(S("t_0")), sp.cos(S("t_ex"))
                ex = sp.exp(-S("tau") / m0 - S("tau") / mx)
                if mod == "V":
                    o = S("omega") * m0 / (m0 + mx) * (1 - ex) * ph
                else:
                    o = S("NormBRDF") * m0 * ph * ex
                ctx.same(r, ctx.value(r), o, f"{name}()")
            ctx.obligation(f"{name}() of a model with a combination [{b}]", f, r)
