"""Abstract models of numpy, math and scipy.special.

Arrays are represented by one generic element (`Num`: a term and the set of the inputs
whose shapes are broadcast in it) or by the items along a known leading axis (`Arr`).
"""
import builtins as _b

import sympy as sp

from .values import *  # noqa
from .values import EMPTY

_MISSING = object()


def _m():
    from . import models
    return models


def _inc(msg):
    from .interp import Inconclusive
    return Inconclusive(msg)


# --------------------------------------------------------------------------------------
# elementwise functions
def _unary(name):
    m = _m()
    need = m.need
    E, N = sp.Integer(0), EMPTY
    table = {
        "cos": lambda x: (sp.cos(x), N), "sin": lambda x: (sp.sin(x), N),
        "tan": lambda x: (sp.tan(x), N), "exp": lambda x: (sp.exp(x), N),
        "log": lambda x: (_log(x), need("positive", x)),
        "log10": lambda x: (_log(x) / sp.log(10), need("positive", x)),
        "log2": lambda x: (_log(x) / sp.log(2), need("positive", x)),
        "log1p": lambda x: (_log(1 + x), need("positive", 1 + x)),
        "expm1": lambda x: (sp.exp(x) - 1, N),
        "exp2": lambda x: (2 ** x, N),
        "sqrt": lambda x: (sp.sqrt(x), need("nonneg", x)),
        "cbrt": lambda x: (x ** sp.Rational(1, 3), need("nonneg", x)),
        "square": lambda x: (x ** 2, N), "negative": lambda x: (-x, N),
        "positive": lambda x: (x, N), "reciprocal": lambda x: (1 / x, need("nonzero", x)),
        "absolute": lambda x: (abs(x) if x.is_number else sp.Abs(x), N),
        "sign": lambda x: (sp.sign(x), N),
        "deg2rad": lambda x: (x * sp.pi / 180, N),
        "rad2deg": lambda x: (x * 180 / sp.pi, N),
        "arccos": lambda x: (sp.acos(x), N), "arcsin": lambda x: (sp.asin(x), N),
        "arctan": lambda x: (sp.atan(x), N), "sinh": lambda x: (sp.sinh(x), N),
        "cosh": lambda x: (sp.cosh(x), N), "tanh": lambda x: (sp.tanh(x), N),
        "floor": lambda x: (sp.floor(x), N), "ceil": lambda x: (sp.ceiling(x), N),
        "rint": lambda x: (m.genf("rint_")(x), N), "trunc": lambda x: (
            m.genf("trunc_")(x), N),
        "real": lambda x: (x, N), "conj": lambda x: (x, N), "conjugate": lambda x: (x, N),
        "gamma": lambda x: (sp.gamma(x), N), "factorial": lambda x: (sp.factorial(x), N),
        "expi": lambda x: (m.expi(x), need("nonzero", x)),
        "exp1": lambda x: (-m.expi(-x), need("positive", x)),
    }
    al = {"abs": "absolute", "fabs": "absolute", "radians": "deg2rad",
          "degrees": "rad2deg", "acos": "arccos", "asin": "arcsin", "atan": "arctan"}
    return table.get(al.get(name, name))


def _log(x):
    return sp.log(x) if x != 0 else sp.nan


_BIN = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div",
        "true_divide": "Div", "power": "Pow", "float_power": "Pow", "pow": "Pow",
        "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod", "fmod": "Mod",
        "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor",
        "matmul": "MatMult"}
_CMP = {"equal": "Eq", "not_equal": "NotEq", "greater": "Gt", "less": "Lt",
        "greater_equal": "GtE", "less_equal": "LtE"}
_UNARY = {"cos", "sin", "tan", "exp", "log", "log10", "log2", "log1p", "expm1", "exp2",
          "sqrt", "cbrt", "square", "negative", "positive", "reciprocal", "absolute",
          "abs", "fabs", "sign", "deg2rad", "rad2deg", "radians", "degrees", "arccos",
          "arcsin", "arctan", "acos", "asin", "atan", "sinh", "cosh", "tanh", "floor",
          "ceil", "rint", "trunc", "real", "conj", "conjugate", "gamma", "factorial",
          "expi", "exp1"}


def arrkind(kind, force):
    return "array" if force and kind != "sym" else kind


def elementwise(i, name, args, scalar=False):
    """Elementwise unary function."""
    m = _m()
    f = _unary(name)

    def g(x):
        if isinstance(x, Gate):
            return lift(g, x)
        if isinstance(x, m.Marker):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int) and name in ("absolute", "abs", "negative", "positive"):
            return -x if name == "negative" else (x if name == "positive" else abs(x))
        if isinstance(x, Arr):
            return Arr(g(y) for y in x.items)
        if isinstance(x, BoolEl):
            return g(m.bool_num(x))
        n = m.as_num(i, x)
        if n is None:
            return m.Marker("TypeError", f"ufunc {name!r} not supported for {x!r}")
        if n.kind == "sym" and n.expr.free_symbols and not scalar and name not in (
                "absolute", "abs", "negative", "positive", "square", "conj", "real"):
            return m.Marker("TypeError", f"loop of ufunc does not support sympy {name}")
        if n.expr is sp.nan:
            return n
        if name in ("absolute", "abs", "fabs") and n.expr in i.nonneg:
            return n
        e, u = f(n.expr)
        if name in ("exp1",) and n.expr == 0:
            e = sp.nan
        if e.has(sp.zoo, sp.oo, -sp.oo):
            e, u = sp.nan, u | {("nonzero", sp.Integer(0))}
        kind = n.kind if n.kind != "sym" else "float"
        if scalar:
            kind = "float"
        return Num(e, kind, n.shape, n.undef | u)
    return m.pure(i, g, _arg(i, args[0]))


def _arg(i, v):
    """Lists and tuples become arrays."""
    m = _m()
    v = i.prune(v)
    if isinstance(v, (tuple, range)) or (
            isinstance(v, Ref) and i.st.get(v).kind in ("list", "iter")):
        return m.to_array(i, v)
    if isinstance(v, Gate):
        if any(isinstance(x, (Ref, tuple)) for _, x in leaves(v)):
            return i.each_leaf(v, lambda x: _arg(i, x))
    return v


# -- keyword handling ---------------------------------------------------------------------
def _out(i, r, kw):
    """Handle the `out` and `where` arguments of universal functions."""
    m = _m()
    wh = kw.get("where")
    out = kw.get("out")
    if isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if wh is not None and wh is not True:
        base = out if out is not None else Num(sp.Symbol("uninitialized_"), "array")
        r = where_(i, _arg(i, wh), r, base)
    if out is not None:
        i.mutated(out, "out=")
        al = EMPTY
        for _, x in leaves(out):
            if isinstance(x, Num):
                al = al | x.alias
        if al:
            r = lift(lambda x: x.with_(alias=al) if isinstance(x, Num) else x, r)
        m.replace_identity(i, out, r)
        for _, x in leaves(out):
            if x is not out:
                m.replace_identity(i, x, r)
    return r


def _pos_out(a, k, n):
    return dict(k, out=a[n]) if len(a) > n else k


def lookup(path):
    """Handler of a numpy/math/scipy function (None if it is not modelled)."""
    root = path.split(".")[0]
    name = path.split(".")[-1]
    if path in TABLE:
        return TABLE[path]
    if root == "math":
        if name in _UNARY:
            return lambda i, a, k: _math(i, name, a)
        if name == "pow":
            return lambda i, a, k: _m().binop(i, "Pow", a[0], a[1])
        return None
    if root == "scipy":
        if path.startswith("scipy.special."):
            if name in ("expi", "exp1", "gamma", "factorial"):
                return lambda i, a, k: _out(i, elementwise(i, name, a), k)
            if name in ("expn",):
                return lambda i, a, k: _out(i, expn_(i, a[0], a[1]), k)
        return None
    if root == "numpy" and path.count(".") == 1:
        if name in _UNARY and name not in ("gamma", "factorial", "expi", "exp1"):
            return lambda i, a, k: _out(i, elementwise(i, name, a[:1]), _pos_out(a, k, 1))
        if name in _BIN:
            return lambda i, a, k: _out(i, _m().binop(
                i, _BIN[name], _np_scalar(i, _arg(i, a[0])), _arg(i, a[1])),
                _pos_out(a, k, 2))
        if name in _CMP:
            return lambda i, a, k: _cmp(i, _CMP[name], a)
        h = NP.get(name)
        if h is not None:
            return h
    return None


def _np_scalar(i, v):
    """numpy scalars never raise ZeroDivisionError (marks scalars as array values)."""
    return lift(lambda x: Num(sp.Integer(int(x)), "array") if isinstance(x, int) else (
        x.with_(kind="array") if isinstance(x, Num) and x.kind == "float" else x), v)


def _cmp(i, op, a):
    m = _m()
    x, y = _np_scalar(i, _arg(i, a[0])), _arg(i, a[1])
    r = m.compare(i, op, x, y)
    return lift(lambda t: t if isinstance(t, (BoolEl, Arr)) else t, r)


def _math(i, name, a):
    m = _m()

    def scalar(x):
        if isinstance(x, (Num,)) and x.kind == "array" and x.shape:
            i.event("scalar-only", name, x)
            return m.Marker("TypeError", "only length-1 arrays can be converted")
        return x
    return elementwise(i, name, [m.pure(i, scalar, a[0])], scalar=True)


def expn_(i, n, x):
    m = _m()

    def g(n, x):
        if isinstance(x, Arr):
            return Arr(lift(lambda y: g(n, y), y) for y in x.items)
        if isinstance(n, Arr):
            return Arr(lift(lambda y: g(y, x), y) for y in n.items)
        a, b = m.as_num(i, n), m.as_num(i, x)
        if a is None or b is None:
            return m.Marker("TypeError", "ufunc 'expn' not supported")
        u = m.need("nonneg", b.expr)
        if not (a.expr.is_number and a.expr >= 2):
            u = u | m.need("nonzero", b.expr)
        e = m.expn(a.expr, b.expr)
        if b.expr == 0 and a.expr.is_number and a.expr >= 2:
            e = 1 / (a.expr - 1)
        return Num(e, "array" if "array" in (a.kind, b.kind) else "float",
                   m.shape_of(a, b), m.undef_of(a, b) | u)
    return m.pure(i, g, _arg(i, n), _arg(i, x))


# --------------------------------------------------------------------------------------
def where_(i, c, a, b):
    m = _m()

    def f(c, a, b):
        if isinstance(c, Num):
            c = BoolEl(t_not(m.cond_eq0(i, c.expr)), c.shape) if c.kind == "array" else (
                t_not(m.cond_eq0(i, c.expr)))
        if isinstance(c, int) and not isinstance(c, bool):
            c = bool(c)
        if any(isinstance(x, Arr) for x in (c, a, b)):
            n = max(len(x.items) for x in (c, a, b) if isinstance(x, Arr))
            if any(isinstance(x, Arr) and len(x.items) != n for x in (c, a, b)):
                raise _inc("np.where with different lengths")
            get = lambda x, j: x.items[j] if isinstance(x, Arr) else x  # noqa
            return Arr(lift(f, get(c, j), get(a, j), get(b, j)) for j in range(n))
        sh = m.val_shape(a) | m.val_shape(b) | (c.shape if isinstance(c, BoolEl)
                                                else EMPTY)
        if isinstance(c, Opq):
            c = i.atom("truth", c)

        def cv(x):
            if isinstance(x, BoolEl):
                return lift(lambda t: Num(sp.Integer(int(t)), "array", sh), x.tree)
            x = m.as_num(i, x)
            if x is None:
                raise _inc(f"np.where argument at {i.where()}")
            return x.with_(kind="array", shape=sh, alias=EMPTY)
        tree = c.tree if isinstance(c, BoolEl) else c
        return ite(tree, cv(a), cv(b))
    return m.pure(i, f, i.prune(c), i.prune(a), i.prune(b))


NP = {}
TABLE = {}


# functions that return (views of) their arguments
_VIEWS = {"atleast_1d", "atleast_2d", "atleast_3d", "asarray", "asanyarray", "squeeze",
          "ravel", "reshape", "transpose", "broadcast_to", "broadcast_arrays", "real",
          "expand_dims", "ascontiguousarray", "asfarray", "swapaxes", "moveaxis", "diag",
          "require", "meshgrid", "split", "array_split"}


def _fresh(args, r):
    """A new array is a different object than the arguments it is created from."""
    if not isinstance(r, (Num, Gate)):
        return r
    ids = {id(x) for a in args if isinstance(a, (Num, Gate)) for _, x in leaves(a)
           if isinstance(x, Num)}
    if not ids:
        return r
    return lift(lambda x: x.with_() if id(x) in ids else x, r)


def np_(*names):
    pos = next((_OUTPOS[n] for n in names if n in _OUTPOS), None)
    views = any(n in _VIEWS for n in names)

    def deco(f):
        def h(i, a, k):
            if pos is not None and len(a) > pos:
                k = dict(k, out=a[pos])
                a = a[:pos]
            if k.get("out") is None:
                r = f(i, a, k)
                return r if views else _fresh(a, r)
            return _out(i, f(i, a, {n: v for n, v in k.items() if n != "out"}),
                        {"out": k["out"]})
        for n in names:
            NP[n] = h
        return h
    return deco


# position of the argument `out`
_OUTPOS = {"clip": 3, "cumsum": 3, "cumprod": 3, "sum": 3, "prod": 3, "mean": 3, "dot": 2,
           "matmul": 2, "minimum": 2, "maximum": 2, "fmin": 2, "fmax": 2, "round": 2,
           "around": 2, "logical_and": 2, "logical_or": 2, "logical_not": 1,
           "isnan": 1, "isfinite": 1}


def path_(*paths):
    def deco(f):
        for p in paths:
            TABLE[p] = f
        return f
    return deco


@np_("where")
def np_where(i, a, k):
    if len(a) == 1:
        return Opq("nonzero", _m().freeze(i, a[0]))
    return where_(i, _arg(i, a[0]), _arg(i, a[1]), _arg(i, a[2]))


@np_("select")
def np_select(i, a, k):
    conds, vals = i.iterate(a[0]), i.iterate(a[1])
    r = k.get("default", a[2] if len(a) > 2 else 0)
    for c, v in list(zip(conds, vals))[::-1]:
        r = where_(i, _arg(i, c), _arg(i, v), r)
    return r


@np_("maximum", "fmax")
def np_maximum(i, a, k):
    x, y = _arg(i, a[0]), _arg(i, a[1])
    return where_(i, _cmp(i, "Gt", [x, y]), x, y)


@np_("minimum", "fmin")
def np_minimum(i, a, k):
    x, y = _arg(i, a[0]), _arg(i, a[1])
    return where_(i, _cmp(i, "Lt", [x, y]), x, y)


@np_("clip")
def np_clip(i, a, k):
    r = a[0]
    lo = k.get("a_min", k.get("min", a[1] if len(a) > 1 else None))
    hi = k.get("a_max", k.get("max", a[2] if len(a) > 2 else None))
    if lo is not None:
        r = np_maximum(i, [r, lo], {})
    if hi is not None:
        r = np_minimum(i, [r, hi], {})
    return r


@np_("logical_and", "logical_or", "logical_xor")
def _never(i, a, k):
    raise _inc("logical function")


def _logical(op):
    def h(i, a, k):
        m = _m()

        def f(x, y):
            p, q = m.bool_tree(i, x), m.bool_tree(i, y)
            t = op(p, q)
            sh = m.val_shape(x) | m.val_shape(y)
            if any(isinstance(v, (BoolEl, Num)) and getattr(v, "kind", "array") == "array"
                   for v in (x, y)):
                return BoolEl(t, sh)
            return t
        return m.pure(i, f, _arg(i, a[0]), _arg(i, a[1]))
    return h


NP["logical_and"] = _logical(t_and)
NP["logical_or"] = _logical(t_or)
NP["logical_xor"] = _logical(lambda p, q: ite(p, t_not(q), q))


@np_("logical_not", "invert", "bitwise_not")
def np_not(i, a, k):
    m = _m()

    def f(x):
        if isinstance(x, BoolEl):
            return BoolEl(t_not(x.tree), x.shape)
        if isinstance(x, Arr):
            return Arr(f(y) for y in x.items)
        return t_not(m.bool_tree(i, x))
    return m.pure(i, f, _arg(i, a[0]))


def _const_bool(val):
    def h(i, a, k):
        m = _m()

        def f(x):
            if isinstance(x, Arr):
                return Arr(f(y) for y in x.items)
            if isinstance(x, Num):
                isn = x.expr.has(sp.nan)
                r = {"isnan": isn, "isinf": False, "isfinite": not isn}[val]
                if x.undef and not isn:
                    t = i.atom("undefined", x.undef)
                    r = {"isnan": t, "isinf": False, "isfinite": t_not(t)}[val]
                return BoolEl(r, x.shape) if x.kind == "array" else r
            if isinstance(x, Opq):
                return i.atom(val, x)
            return val == "isfinite"
        return m.pure(i, f, _arg(i, a[0]))
    return h


for _n in ("isnan", "isinf", "isfinite"):
    NP[_n] = _const_bool(_n)
    TABLE["math." + _n] = NP[_n]


@np_("isclose")
def np_isclose(i, a, k):
    m = _m()

    def f(x, y):
        if isinstance(x, Arr) or isinstance(y, Arr):
            return m.arr_zip(i, f, x, y, "isclose")
        p, q = m.as_num(i, x), m.as_num(i, y)
        d = p.expr - q.expr
        if d.is_number:
            t = bool(abs(d) < sp.Rational(1, 10 ** 8))
        else:
            t = m.cond_eq0(i, d)
            t = t_or(t, i.atom("close", m._canon_eq(d)))
        if "array" in (p.kind, q.kind):
            return BoolEl(t, m.shape_of(p, q))
        return t
    return m.pure(i, f, _arg(i, a[0]), _arg(i, a[1]))


TABLE["math.isclose"] = np_isclose


@np_("allclose", "array_equal", "array_equiv")
def np_allclose(i, a, k):
    return np_all(i, [np_isclose(i, a, k)], {})


def _reduce_bool(isany):
    def h(i, a, k):
        m = _m()
        comb, unit = (t_or, False) if isany else (t_and, True)

        def f(x):
            if isinstance(x, Gate):
                return lift(f, x)
            if isinstance(x, Arr):
                r = unit
                for y in x.items:
                    r = comb(r, f(y))
                return r
            if isinstance(x, Opq):
                return i.atom("any" if isany else "all", x)
            if isinstance(x, Num) and x.kind == "array" and x.shape:
                x = BoolEl(t_not(m.cond_eq0(i, x.expr)), x.shape)
            if isinstance(x, BoolEl) and x.shape:
                if isinstance(x.tree, bool):
                    return x.tree
                return comb(x.tree, i.atom("any" if isany else "all", x))
            return m.bool_tree(i, x)
        if k.get("axis", a[1] if len(a) > 1 else None) is not None:
            return Opq("any" if isany else "all", m.freeze(i, a[0]))
        return m.pure(i, f, _arg(i, a[0]))
    return h


np_any = NP["any"] = NP["sometrue"] = _reduce_bool(True)
np_all = NP["all"] = NP["alltrue"] = _reduce_bool(False)


# -- creation and conversion --------------------------------------------------------------
def _as_array(i, v, min1=False):
    m = _m()
    v = i.prune(v)
    if isinstance(v, Gate):
        return i.each_leaf(v, lambda x: _as_array(i, x, min1))
    if isinstance(v, Num) and v.kind == "array":
        return v
    if isinstance(v, (Arr, BoolEl)):
        return v
    return m.to_array(i, v)


@np_("atleast_1d")
def np_atleast_1d(i, a, k):
    if len(a) > 1:
        return tuple(np_atleast_1d(i, [x], {}) for x in a)

    def f(v):
        if isinstance(v, str) or v is None or isinstance(v, Num) and v.kind == "sym" or (
                isinstance(v, (Func, Lam, Native, Bound, Ext, Partial, Cached))) or (
                isinstance(v, Ref) and i.st.get(v).kind in ("inst", "class", "dict",
                                                           "set")):
            return Arr((v,))
        return _as_array(i, v)
    return i.each_leaf(a[0], f)


_FLOAT = {"float", "float64", "double", "float_", "longdouble", "float128", "f8", "d",
          "<f8", "=f8", "f", "g"} - {"f"}
_NARROW = {"float32": "float32", "single": "float32", "f4": "float32", "f": "float32",
           "<f4": "float32", "float16": "float16", "half": "float16", "f2": "float16",
           "e": "float16"}
_INT = {"int", "int64", "int32", "int16", "int8", "intp", "int_", "uint8", "uint16",
        "uint32", "uint64", "i", "i4", "i8", "u1", "uint", "intc", "long", "longlong"}
_MANT = {"float32": 24, "float16": 11}


def narrow(x, kind):
    """The value of x stored with a lower precision."""
    if x.is_Rational and abs(x.p) < 2 ** _MANT[kind] and x.q & (x.q - 1) == 0 and (
            x.q < 2 ** 10):
        return x
    if x in (sp.nan, sp.oo, -sp.oo):
        return x
    return _m().genf(f"cast_{kind}")(x)


def cast(i, v, dt):
    """astype(dt): the identity for float64; rounding or truncating otherwise."""
    m = _m()
    dt = i.prune(dt)
    if dt is None:
        return v
    if isinstance(dt, Gate):
        return i.each_leaf(dt, lambda d: cast(i, v, d))
    n = dt if isinstance(dt, str) else (
        dt.path.rsplit(".", 1)[1] if isinstance(dt, Ext) and "." in dt.path else None)
    if n is None or n in _FLOAT or n in ("object", "object_", "O"):
        return v
    if isinstance(dt, Ext) and dt.path == "builtins.complex" or n.startswith("complex"):
        return v

    def f(x):
        if isinstance(x, Gate):
            return lift(f, x)
        if isinstance(x, Arr):
            return Arr(f(y) for y in x.items)
        if isinstance(x, bool) or isinstance(x, int):
            if n in ("bool", "bool_"):
                return bool(x)
            return x
        if isinstance(x, Num) and x.kind != "sym":
            if n in _NARROW:
                return x.with_(expr=narrow(x.expr, _NARROW[n]), alias=EMPTY)
            if n in _INT:
                if x.expr.is_integer:
                    return x
                if x.expr.is_Rational:
                    return x.with_(expr=sp.Integer(int(x.expr)), alias=EMPTY)
                return x.with_(expr=m.genf("int_")(x.expr), alias=EMPTY)
            if n in ("bool", "bool_"):
                return m.compare(i, "NotEq", x, 0)
        if isinstance(x, BoolEl) and n in ("bool", "bool_"):
            return x
        if isinstance(x, Opq) and n not in _NARROW:
            return x
        return Opq("cast", n, m.freeze(i, x))
    return f(v)


def _dtype(a, k, pos=1):
    return k.get("dtype", a[pos] if len(a) > pos else None)


@np_("asarray", "asanyarray", "ascontiguousarray", "asfarray",
     "asarray_chkfinite", "require")
def np_asarray(i, a, k):
    if len(a) > 1 and not isinstance(a[1], (Ext, str, Gate, Opq)) and a[1] is not None:
        return tuple(_as_array(i, x) for x in a)
    if isinstance(i.prune(a[0]), Num) and i.prune(a[0]).kind == "sym":
        return Opq("array", a[0])
    return cast(i, _as_array(i, a[0]), _dtype(a, k))


@np_("array")
def np_array(i, a, k):
    m = _m()
    r = cast(i, _as_array(i, a[0]), _dtype(a, k))
    if k.get("copy", True) is False:
        return r
    return _drop(r)


def _drop(v):
    def f(x):
        if isinstance(x, Num):
            return x.with_(alias=EMPTY)
        if isinstance(x, Arr):
            return Arr(lift(f, y) for y in x.items)
        return x
    return lift(f, v)


@np_("copy")
def np_copy(i, a, k):
    return _drop(_as_array(i, a[0]))


def _narrow_scalar(kind):
    def h(i, a, k):
        def f(x):
            if isinstance(x, Arr):
                return Arr(f(y) for y in x.items)
            return x.with_(expr=narrow(x.expr, kind)) if isinstance(x, Num) else x
        return lift(f, np_float(i, a, k))
    return h


for _n in ("float32", "float16", "single", "half"):
    NP[_n] = _narrow_scalar(_NARROW[_n])


@np_("float64", "double", "longdouble", "float_")
def np_float(i, a, k):
    m = _m()

    def f(x):
        if isinstance(x, Arr):
            return Arr(f(y) for y in x.items)
        n = m.as_num(i, x)
        if n is None:
            return m.Marker("TypeError", "could not convert to float")
        return n.with_(kind="float" if n.kind != "array" else "array")
    return m.pure(i, f, _arg(i, a[0]) if a else 0)


@np_("int64", "int32", "intp", "int_")
def np_int(i, a, k):
    return i.models.bi_int(i, a, k)


@np_("bool_", "bool")
def np_bool(i, a, k):
    return _m().truth(i, a[0])


def shape_tokens(i, s):
    """Tokens of a shape value."""
    if isinstance(s, Opq):
        if s.op == "shape":
            return s.args[0]
        return frozenset([("opq", repr(s))])
    if isinstance(s, int):
        return EMPTY if s == 1 else frozenset([("lit", (s,))])
    if isinstance(s, Ref):
        s = i.iterate(s)
    if isinstance(s, tuple):
        if all(isinstance(x, int) for x in s):
            return EMPTY if all(x == 1 for x in s) else frozenset([("lit", s)])
        return frozenset([("lit", repr(s))])
    if isinstance(s, Num) and s.expr.is_Integer:
        return shape_tokens(i, int(s.expr))
    return frozenset([("lit", repr(s))])


def _full(i, shape, val):
    m = _m()

    def f(s, v):
        toks = shape_tokens(i, s)
        lead = [t for t in toks if isinstance(t, tuple) and t and t[0] == "lead"]
        if isinstance(v, bool):
            return BoolEl(v, toks)
        n = m.as_num(i, v)
        if n is None:
            return Opq("full", m.freeze(i, s), m.freeze(i, v))
        rest = toks - frozenset(lead)
        lit = [t for t in rest if isinstance(t, tuple) and t[0] == "lit"
               and isinstance(t[1], tuple) and len(t[1]) == 1]
        e = n.with_(kind="array", shape=rest | n.shape, alias=EMPTY)
        if len(lead) == 1:
            return Arr([e] * lead[0][1])
        if lit and len(rest) == 1 and lit[0][1][0] <= 64:
            return Arr([n.with_(kind="array", alias=EMPTY)] * lit[0][1][0])
        return e
    return m.pure(i, f, i.prune(shape) if not isinstance(shape, Ref)
                  else i.iterate(shape), i.prune(val))


def _shape(i, v):
    m = _m()

    def f(x):
        if isinstance(x, (Num,)):
            if x.kind != "array":
                return ()
            return Opq("shape", x.shape)
        if isinstance(x, BoolEl):
            return Opq("shape", x.shape)
        if isinstance(x, Arr):
            return Opq("shape", m.inner_shape(x) | {("lead", len(x.items))})
        if isinstance(x, (int, bool)) or x is None:
            return ()
        if isinstance(x, Opq):
            return Opq("attr", x, "shape")
        raise _inc(f"shape of {x!r}")
    return m.pure(i, f, _arg(i, v))


@np_("shape")
def np_shape(i, a, k):
    return _shape(i, a[0])


@np_("size")
def np_size(i, a, k):
    m = _m()

    def f(s):
        if s == ():
            return 1
        if isinstance(s, Opq) and s.op == "shape":
            toks = s.args[0]
            if not toks:
                return 1
            if len(toks) == 1:
                (t,) = toks
                if isinstance(t, tuple) and t[0] == "lead":
                    return t[1]
            return Opq("size", toks)
        return Opq("size", s)
    return m.pure(i, f, _shape(i, a[0]))


@np_("ndim")
def np_ndim(i, a, k):
    def f(s):
        if s == ():
            return 0
        if isinstance(s, Opq) and s.op == "shape" and not s.args[0]:
            return 1
        return Opq("ndim", s.args[0] if isinstance(s, Opq) and s.op == "shape" else s)
    return _m().pure(i, f, _shape(i, a[0]))


@np_("isscalar")
def np_isscalar(i, a, k):
    return lift(lambda x: isinstance(x, (int, str)) or isinstance(x, Num)
                and x.kind == "float", i.prune(a[0]))


@np_("iterable")
def np_iterable(i, a, k):
    return lift(lambda x: not (isinstance(x, (int,)) or x is None or isinstance(x, Num)
                               and x.kind != "array"), i.prune(a[0]))


@np_("full")
def np_full(i, a, k):
    return _full(i, k.get("shape", a[0] if a else None),
                 k.get("fill_value", a[1] if len(a) > 1 else None))


@np_("ones")
def np_ones(i, a, k):
    return _full(i, k.get("shape", a[0] if a else None), 1)


@np_("zeros")
def np_zeros(i, a, k):
    return _full(i, k.get("shape", a[0] if a else None), 0)


@np_("empty")
def np_empty(i, a, k):
    return _full(i, k.get("shape", a[0] if a else None),
                 Num(sp.Symbol("uninitialized_"), "array"))


def _like(i, a, k, val):
    if "shape" in k and k["shape"] is not None:
        return _full(i, k["shape"], val)
    s = _shape(i, a[0])

    def f(s):
        if s == ():
            return _m().as_num(i, val).with_(kind="array")
        return s
    s2 = lift(lambda x: Opq("shape", EMPTY) if x == () else x, s)
    return _full(i, s2, val)


NP["ones_like"] = lambda i, a, k: _like(i, a, k, 1)
NP["zeros_like"] = lambda i, a, k: _like(i, a, k, 0)
NP["empty_like"] = lambda i, a, k: _like(i, a, k, Num(sp.Symbol("uninitialized_"),
                                                      "array"))
NP["full_like"] = lambda i, a, k: _like(i, a, k, k.get(
    "fill_value", a[1] if len(a) > 1 else None))


# -- shapes -------------------------------------------------------------------------------
@np_("broadcast_arrays")
def np_broadcast_arrays(i, a, k):
    m = _m()
    vals = [_as_array(i, x) for x in a]
    if any(isinstance(x, Arr) for v in vals for _, x in leaves(v)):
        return tuple(_broadcast_mixed(i, vals))
    sh = EMPTY
    for v in vals:
        sh = sh | m.val_shape(v)
    return tuple(lift(lambda x: _bshape(i, x, sh), v) for v in vals)


def _bshape(i, x, sh):
    if isinstance(x, Num):
        return x.with_(kind="array", shape=sh)
    if isinstance(x, BoolEl):
        return BoolEl(x.tree, sh)
    if isinstance(x, Opq):
        return Num(_m().opq_symbol(i, x), "array", sh)
    raise _inc(f"broadcast of {x!r}")


def _broadcast_mixed(i, vals):
    m = _m()
    n = {len(x.items) for v in vals for _, x in leaves(v) if isinstance(x, Arr)}
    n.discard(1)
    if len(n) > 1:
        i.event("misalign", "broadcast_arrays", "lengths differ")
        i.raise_("ValueError", "shape mismatch")
    n = n.pop() if n else 1
    sh = EMPTY
    for v in vals:
        sh = sh | frozenset(t for t in m.val_shape(v)
                            if not (isinstance(t, tuple) and t[0] == "lead"))

    def f(x):
        if isinstance(x, Arr):
            items = x.items if len(x.items) == n else x.items * n
            return Arr(lift(lambda y: _bshape(i, y, sh), y) for y in items)
        return Arr([_bshape(i, x, sh)] * n)
    return [lift(f, v) for v in vals]


@np_("broadcast_to")
def np_broadcast_to(i, a, k):
    m = _m()
    s = i.prune(k.get("shape", a[1] if len(a) > 1 else None))
    toks = shape_tokens(i, s)
    v = _as_array(i, a[0])

    def f(x):
        t = toks
        if isinstance(x, Arr):
            t = frozenset(y for y in t if not (isinstance(y, tuple) and y[0] == "lead"))
            return Arr(lift(lambda y: _bshape(i, y, t), y) for y in x.items)
        lead = [y for y in t if isinstance(y, tuple) and y[0] == "lead"]
        if not m.val_shape(x) <= t:
            i.event("misalign", "broadcast_to", (m.val_shape(x), t))
            return m.Marker("ValueError", "could not be broadcast")
        r = _bshape(i, x, t - frozenset(lead))
        if lead:
            return Arr([r] * lead[0][1])
        return r
    return m.pure(i, f, v)


@np_("broadcast_shapes")
def np_broadcast_shapes(i, a, k):
    def f(*ss):
        t = EMPTY
        for s in ss:
            t = t | shape_tokens(i, s)
        return Opq("shape", t)
    return _m().pure(i, f, *a)


@np_("broadcast")
def np_broadcast(i, a, k):
    m = _m()
    t = EMPTY
    for x in a:
        t = t | m.val_shape(_as_array(i, x))
    return Num(sp.Symbol("broadcast_"), "array", t)


@np_("squeeze")
def np_squeeze(i, a, k):
    return _drop_none(_as_array(i, a[0]))


def _drop_none(v):
    """Axes of length 1 are dropped (the shape of user arrays is arbitrary)."""
    def f(x):
        if isinstance(x, Num) and x.shape and all(isinstance(t, str) for t in x.shape):
            return x.with_(shape=frozenset([("squeeze", x.shape)]))
        return x
    return lift(f, v) if isinstance(v, (Num, Gate)) else v


def _retoken(i, v, what):
    """A view with a changed axis layout."""
    m = _m()

    def f(x):
        if isinstance(x, Arr):
            return Opq(what, m.freeze(i, x))
        if isinstance(x, Num):
            if not x.shape and x.expr not in i.sym_opq:
                return x
            if what == "T" and x.shape and all(
                    isinstance(t, tuple) and t[0] == "T" for t in x.shape):
                return x.with_(shape=frozenset().union(*(t[1] for t in x.shape)))
            return x.with_(shape=frozenset([(what, x.shape)]))
        if isinstance(x, BoolEl):
            return BoolEl(x.tree, frozenset([(what, x.shape)]) if x.shape else EMPTY)
        return Opq(what, m.freeze(i, x))
    return m.pure(i, f, v)


@np_("ravel")
def np_ravel(i, a, k):
    return _retoken(i, _as_array(i, a[0]), "ravel")


@np_("transpose")
def np_transpose(i, a, k):
    v = _as_array(i, a[0])

    def f(x):
        o = i.sym_opq.get(x.expr) if isinstance(x, Num) else None
        if isinstance(o, Opq) and o.op == "outer":  # the axes of the second argument first
            t = np_transpose(i, [o.args[1]], {})
            return Arr(_m().binop(i, o.args[0], t, y) for y in o.args[2].items)
        return _retoken(i, x, "T")
    return i.each_leaf(v, f) if isinstance(v, (Num, Gate)) else f(v)


def _outer(i, op, a, b):
    """ufunc.outer: the axes of a are followed by those of b."""
    m = _m()
    a, b = i.prune(_as_array(i, a)), i.prune(_as_array(i, b))
    flat = [isinstance(x, Arr) and not any(
        isinstance(y, (Arr, Gate)) or m.val_shape(y) for y in x.items) for x in (a, b)]
    if flat[0]:
        return Arr(m.binop(i, op, x, b) for x in a.items)
    if flat[1] and isinstance(a, Num):
        if not a.shape:
            return Arr(m.binop(i, op, a, y) for y in b.items)
        return Num(m.opq_symbol(i, Opq("outer", op, a, b)), "array",
                   frozenset([("outer", a.shape)]))
    if isinstance(a, Num) and isinstance(b, Num) and not (a.shape and b.shape):
        return m.binop(i, op, a, b)
    raise m._inc(f"outer of {a!r} and {b!r}")


@np_("atleast_2d", "atleast_3d")
def np_atleast_2d(i, a, k):
    return _retoken(i, _as_array(i, a[0]), "atleast_2d")


@np_("expand_dims")
def np_expand_dims(i, a, k):
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    if ax == 0:
        return Arr((_as_array(i, a[0]),))
    return _retoken(i, _as_array(i, a[0]), f"expand_dims{ax}")


@np_("reshape")
def np_reshape(i, a, k):
    return _reshape(i, a[0], a[1] if len(a) == 2 else tuple(a[1:]))


def _reshape(i, v, s):
    m = _m()

    def f(x):
        if s == -1 or s == (-1,):
            return _retoken(i, x, "ravel")
        t = shape_tokens(i, s)
        if isinstance(x, Num) and t == x.shape:
            return x
        return _retoken(i, x, f"reshape{t}")
    return m.pure(i, f, _as_array(i, v))


@np_("stack", "vstack", "row_stack")
def np_stack(i, a, k):
    m = _m()
    ax = k.get("axis", a[1] if len(a) > 1 else 0)
    items = i.iterate(a[0])

    def f(items):
        if any(isinstance(x, Star) for x in items):
            return Opq("stack", m.freeze(i, items))
        items = [_as_array(i, x) for x in items]
        shapes = {m.val_shape(x) for x in items}
        if len(shapes) > 1:
            i.event("ragged", tuple(sorted(map(str, shapes))))
        if ax not in (0,):
            return Opq("stack", m.freeze(i, tuple(items)), ax)
        return Arr(_drop(x) for x in items)
    return i.each_leaf(items, f)


@np_("concatenate", "hstack", "append")
def np_concatenate(i, a, k):
    m = _m()
    if k.get("axis", a[1] if len(a) > 1 and isinstance(a[1], int) else 0) != 0:
        return Opq("concatenate", m.freeze(i, a[0]))
    items = i.iterate(a[0])

    def f(items):
        if all(isinstance(x, Arr) for x in items):
            return Arr(y for x in items for y in x.items)
        conv = [x if isinstance(x, Arr) else _as_array(i, x) for x in items]
        if all(isinstance(x, Arr) or isinstance(x, Num) and not x.shape for x in conv):
            return Arr(y for x in conv for y in (x.items if isinstance(x, Arr) else (x,)))
        return Opq("concatenate", m.freeze(i, tuple(items)))
    return i.each_leaf(items, f)


@np_("arange")
def np_arange(i, a, k):
    m = _m()
    dt = k.get("dtype")
    vals = [i.models._idx(i.prune(x)) for x in a]
    if all(isinstance(x, int) for x in vals):
        items = tuple(range(*vals))
        if dt == Ext("builtins.float") or isinstance(dt, Ext) and "float" in dt.path:
            return Arr(Num(sp.Integer(n), "array") for n in items)
        return Arr(items)
    return grid(i, "arange", a, k)


def grid(i, name, a, k):
    m = _m()
    o = Opq(name, *[m.freeze(i, x) for x in a], *[(q, m.freeze(i, v))
                                                  for q, v in k.items()])
    s = m.opq_symbol(i, o)
    return Num(s, "array", frozenset([("grid", s)]))


@np_("linspace", "logspace", "geomspace")
def np_linspace(i, a, k):
    return grid(i, "linspace", a, k)


@np_("meshgrid")
def np_meshgrid(i, a, k):
    m = _m()
    vals = [_as_array(i, x) for x in a]
    order = [m.val_shape(v) for v in vals]
    if i.prune(k.get("indexing", "xy")) == "xy" and len(order) > 1:
        order[:2] = order[1::-1]
    tok = frozenset([("mesh", tuple(order))])
    return tuple(lift(lambda x: x.with_(shape=tok, alias=EMPTY)
                      if isinstance(x, Num) else Opq("mesh", x), v) for v in vals)


# -- integration --------------------------------------------------------------------------
def grid_axes(shape):
    """Grid symbols along the axes (leading axis first) or None if they are unknown."""
    lead, last = [], []
    for t in shape:
        if t[0] == "grid":
            last.append(t[1])
        elif t[0] == "newaxis[':', 'n']" and len(t[1]) == 1:
            (q,) = t[1]
            if q[0] != "grid":
                return None
            lead.append(q[1])
        elif t[0] == "newaxis['n', ':']" and len(t[1]) == 1:
            (q,) = t[1]
            if q[0] != "grid":
                return None
            last.append(q[1])
        elif t[0] == "mesh" and len(shape) == 1:
            ret = []
            for q in t[1]:
                if len(q) != 1 or next(iter(q))[0] != "grid":
                    return None
                ret.append(next(iter(q))[1])
            return ret
        else:
            return None
    if len(lead) > 1 or len(last) > 1:
        return None
    if lead and not last:
        return [*lead, None]
    return [*lead, *last]


def grid_range(i, g):
    """First and last point of a grid (None if they are unknown)."""
    m = _m()
    o = i.sym_opq.get(g)
    if not isinstance(o, Opq):
        return None
    if o.op == "range":
        return o.args[0], o.args[1]
    pos = [x for x in o.args if not (isinstance(x, tuple) and len(x) == 2
                                     and isinstance(x[0], str))]
    kw = dict(x for x in o.args if isinstance(x, tuple) and len(x) == 2
              and isinstance(x[0], str))
    if o.op != "linspace" or set(kw) - {"num", "dtype", "endpoint", "start", "stop"}:
        return None
    end = kw.get("endpoint", pos[3] if len(pos) > 3 else True)
    if not isinstance(end, bool):
        return None
    lim = [kw.get(q, pos[k] if len(pos) > k else None)
           for k, q in enumerate(("start", "stop"))]
    lim = [m.as_num(i, q) for q in lim]
    if None in lim:
        return None
    lo, hi = (q.expr for q in lim)
    if not end:
        hi = m.genf("last")(lo, hi)  # the last point is below the limit
    return lo, hi


def integral(expr, g, lo, hi):
    return _m().genf("integral")(expr, g, lo, hi)


def _samples(i, name, a, k):
    """Rules that integrate samples along one axis."""
    m = _m()
    y, x = i.prune(a[0] if a else k.get("y")), i.prune(
        k.get("x", a[1] if len(a) > 1 else None))
    ax = i.prune(k.get("axis", a[3] if len(a) > 3 else -1))

    def f(y, x):
        y, x = m.as_num(i, y), m.as_num(i, x)
        fail = Opq("call", name, m.freeze(i, y), m.freeze(i, x), ax)
        if y is None or x is None or not isinstance(ax, int):
            return fail
        axes, own = grid_axes(y.shape), grid_axes(x.shape)
        if not axes or not own or None in own or len(own) != 1:
            return fail
        if not -len(axes) <= ax < len(axes):
            return m.Marker("AxisError", "axis is out of bounds")
        g = own[0]
        if axes[ax] != g:
            return Opq("misaligned", name, y.expr, x.expr, tuple(axes), ax)
        lim = grid_range(i, g)
        if lim is None:
            return fail
        rest = [q for n, q in enumerate(axes) if n != ax % len(axes) and q is not None]
        sh = frozenset([("grid", q) for q in rest])
        return Num(integral(y.expr * sp.diff(x.expr, g), g, *lim),
                   "array", sh, y.undef | x.undef)
    return m.pure(i, f, y, x)


for _p in ("simps", "simpson", "trapz", "trapezoid"):
    TABLE["scipy.integrate." + _p] = (lambda n: lambda i, a, k: _samples(i, n, a, k))(_p)
for _p in ("trapz", "trapezoid"):
    NP[_p] = (lambda n: lambda i, a, k: _samples(
        i, n, [*a[:2], *([None] if len(a) > 2 else []), *a[2:]], k))(_p)


def _quad(i, fn, lims, extra):
    """Integral of a function over the ranges of its arguments (first argument first)."""
    m = _m()
    syms = [m.opq_symbol(i, Opq("range", lo, hi, ("quad", n, len(i.sym_opq))))
            for n, (lo, hi) in enumerate(lims)]
    v = i.call(fn, [*[Num(s, "float") for s in syms], *extra], {})

    def f(x):
        n = m.as_num(i, x)
        if n is None:
            return Opq("quad", m.freeze(i, x))
        e = n.expr
        for s, (lo, hi) in zip(syms, lims):
            e = integral(e, s, lo, hi)
        return n.with_(expr=e)
    return (m.pure(i, f, v), Num(sp.Symbol("quad_error"), "float"))


@path_("scipy.integrate.quad")
def sc_quad(i, a, k):
    m = _m()
    lim = [m.as_num(i, i.prune(k.get(q, a[n] if len(a) > n else None)))
           for n, q in ((1, "a"), (2, "b"))]
    if None in lim:
        raise _inc("limits of quad")
    ex = k.get("args", a[3] if len(a) > 3 else ())
    return _quad(i, a[0], [tuple(q.expr for q in lim)],
                 list(ex) if isinstance(ex, tuple) else [ex])


@path_("scipy.integrate.dblquad")
def sc_dblquad(i, a, k):
    m = _m()
    vals = [i.prune(k.get(q, a[n] if len(a) > n else None))
            for n, q in ((1, "a"), (2, "b"), (3, "gfun"), (4, "hfun"))]
    lim = [m.as_num(i, v) for v in vals]
    if None in lim:
        raise _inc("limits of dblquad")
    e = [q.expr for q in lim]
    ex = k.get("args", a[5] if len(a) > 5 else ())
    return _quad(i, a[0], [(e[2], e[3]), (e[0], e[1])],
                 list(ex) if isinstance(ex, tuple) else [ex])


@np_("vectorize")
def np_vectorize(i, a, k):
    m = _m()
    fn = a[0]

    def call(i, args, kw):
        sh = EMPTY
        vals = []
        for x in args:
            x = _arg(i, x)
            sh = sh | m.val_shape(x)
            vals.append(lift(lambda y: y.with_(kind="float", shape=EMPTY)
                             if isinstance(y, Num) else y, x))
        if any(isinstance(x, Arr) for v in vals for _, x in leaves(v)):
            if len(vals) == 1 and isinstance(vals[0], Arr):
                return m.to_array(i, tuple(i.call(fn, [x], kw) for x in vals[0].items))
            raise _inc("vectorize over arrays")
        r = i.call(fn, vals, kw)

        def f(x):
            if isinstance(x, Num):
                return x.with_(kind="array", shape=x.shape | sh)
            if isinstance(x, bool):
                return BoolEl(x, sh)
            if isinstance(x, int):
                return Num(sp.Integer(x), "array", sh)
            return Opq("vectorized", x)
        return lift(f, r)
    return Native("vectorize", call)


# -- reductions ---------------------------------------------------------------------------
def _axis(a, k, pos=1):
    return k.get("axis", a[pos] if len(a) > pos else None)


@np_("sum", "nansum")
def np_sum(i, a, k):
    return _fold(i, "Add", 0, a, k, "sum")


@np_("prod", "product", "nanprod")
def np_prod(i, a, k):
    return _fold(i, "Mult", 1, a, k, "prod")


def _fold(i, op, unit, a, k, name):
    m = _m()
    v = a[0]
    ax = _axis(a, k)
    if isinstance(v, Ref) and i.st.get(v).kind == "iter":
        i.event("generator-sum", name)
    x = _arg(i, v)

    def f(x):
        if isinstance(x, Arr) and (ax == 0 or (ax is None and not m.inner_shape(x))):
            r = unit
            for y in x.items:
                r = m._binop_pure(i, op, r, y) if not isinstance(
                    r, Gate) and not isinstance(y, Gate) else lift(
                    lambda p, q: m._binop_pure(i, op, p, q), r, y)
            if isinstance(r, int):
                return Num(sp.Integer(r), "array")
            return r
        if isinstance(x, Num) and not x.shape:
            return x.with_(alias=EMPTY)
        if isinstance(x, int):
            return x
        if isinstance(x, BoolEl):
            return Opq(name, x)
        return Opq(name, m.freeze(i, x), ax)
    return m.pure(i, f, x)


def _cumulate(i, a, k, op):
    m = _m()
    x = _arg(i, a[0])
    ax = _axis(a, k)

    def f(x):
        if isinstance(x, Arr) and (ax == 0 or ax is None and not m.inner_shape(x)):
            res, r = [], None
            for y in x.items:
                r = y if r is None else lift(lambda p, q: m._binop_pure(i, op, p, q), r,
                                             y)
                res.append(r)
            return Arr(res)
        return Opq("cumsum", m.freeze(i, x), ax)
    return m.pure(i, f, x)


np_("cumprod")(lambda i, a, k: _cumulate(i, a, k, "Mult"))
np_("cumsum")(lambda i, a, k: _cumulate(i, a, k, "Add"))


@np_("mean", "average", "nanmean")
def np_mean(i, a, k):
    m = _m()
    x = _arg(i, a[0])

    def f(x):
        if isinstance(x, Arr) and (_axis(a, k) == 0 or _axis(a, k) is None
                                   and not m.inner_shape(x)):
            s = _fold(i, "Add", 0, [x], {"axis": 0}, "sum")
            return lift(lambda y: m._binop_pure(i, "Div", y, len(x.items)), s)
        if isinstance(x, Num) and not x.shape:
            return x
        if isinstance(x, Num) and x.kind != "sym" and len(a) == 1 and not k:
            # the mean over all elements: an uninterpreted function
            return x.with_(expr=m.genf("mean")(x.expr), shape=EMPTY, alias=EMPTY)
        return Opq("mean", m.freeze(i, x))
    return m.pure(i, f, x)


@np_("einsum")
def np_einsum(i, a, k):
    m = _m()
    spec = a[0].replace(" ", "") if isinstance(a[0], str) else ""
    if "->" in spec:
        ins, out = spec.split("->")
        parts = ins.split(",")
        ops = [_arg(i, x) for x in a[1:]]
        core = [p.replace("...", "") for p in parts]
        if out in ("...", "") and all(c == "i" or c == "n" or c == core[0]
                                      for c in core) and len(core[0]) == 1:
            def f(*xs):
                if all(isinstance(x, Arr) for x in xs):
                    if len({len(x.items) for x in xs}) > 1:
                        return m.Marker("ValueError", "einsum: dimension mismatch")
                    r = 0
                    for ys in zip(*xs):
                        t = ys[0]
                        for y in ys[1:]:
                            t = lift(lambda p, q: m._binop_pure(i, "Mult", p, q), t, y)
                        r = lift(lambda p, q: m._binop_pure(i, "Add", p, q), r, t)
                    return r
                return Opq("einsum", spec, *[m.freeze(i, x) for x in xs])
            return m.pure(i, f, *ops)
    i.unknown_construct("numpy.einsum")
    return Opq("einsum", *[m.freeze(i, x) for x in a])


@np_("dot", "inner", "vdot")
def np_dot(i, a, k):
    m = _m()

    def f(x, y):
        if isinstance(x, Arr) and isinstance(y, Arr) and not m.inner_shape(
                x) and not m.inner_shape(y):
            if len(x.items) != len(y.items):
                return m.Marker("ValueError", "shapes not aligned")
            r = 0
            for p, q in zip(x.items, y.items):
                t = lift(lambda s, u: m._binop_pure(i, "Mult", s, u), p, q)
                r = lift(lambda s, u: m._binop_pure(i, "Add", s, u), r, t)
            return r
        return Opq("dot", m.freeze(i, x), m.freeze(i, y))
    return m.pure(i, f, _arg(i, a[0]), _arg(i, a[1]))


@np_("polyval")
def np_polyval(i, a, k):
    m = _m()
    r = 0
    for c in i.iterate(_arg(i, a[0])):
        r = m.binop(i, "Add", m.binop(i, "Mult", r, a[1]), c)
    return r


@path_("numpy.polynomial.polynomial.polyval")
def np_polypolyval(i, a, k):
    m = _m()
    r = 0
    for c in i.iterate(_arg(i, a[1]))[::-1]:
        r = m.binop(i, "Add", m.binop(i, "Mult", r, a[0]), c)
    return r


def _opq_reduction(name):
    def h(i, a, k):
        m = _m()

        def f(x):
            if isinstance(x, Num) and not x.shape:
                return x
            if isinstance(x, int):
                return x
            return Opq(name, m.freeze(i, x), *[m.freeze(i, y) for y in a[1:]],
                       *[(q, m.freeze(i, v)) for q, v in k.items()])
        return m.pure(i, f, _arg(i, a[0]))
    return h


for _n in ("max", "min", "amax", "amin", "nanmax", "nanmin", "ptp", "median", "std",
           "var", "nanmedian", "argmax", "argmin", "nanargmax", "nanargmin",
           "count_nonzero", "sort", "unique", "diff"):
    NP[_n] = _opq_reduction(_n)


@np_("round", "around", "round_")
def np_round(i, a, k):
    m = _m()
    dec = i.prune(_arg(i, a[1]) if len(a) > 1 else k.get("decimals", 0))

    def f(x):
        if isinstance(x, Gate):
            return lift(f, x)
        if isinstance(x, Arr):
            return Arr(f(y) for y in x.items)
        if isinstance(x, (bool, int)) and isinstance(dec, int) and dec >= 0:
            return x
        if isinstance(x, Num) and x.kind != "sym" and isinstance(dec, int):
            e = x.expr
            if e.is_Rational and (e * 10 ** dec).is_integer:
                return x.with_(alias=EMPTY)
            return x.with_(expr=m.genf(f"round_{dec}")(e), alias=EMPTY)
        return Opq("round", m.freeze(i, x), m.freeze(i, dec))
    return m.pure(i, f, _arg(i, a[0]))


@np_("hypot")
def np_hypot(i, a, k):
    m = _m()
    x, y = (m.binop(i, "Pow", _arg(i, v), 2) for v in a[:2])
    return i.call(Ext("numpy.sqrt"), [m.binop(i, "Add", x, y)], {})


@np_("nan_to_num")
def np_nan_to_num(i, a, k):
    m = _m()

    if k.get("copy", a[1] if len(a) > 1 else True) is False:
        i.mutated(a[0], "nan_to_num(copy=False)")

    def f(x):
        if isinstance(x, Arr):
            return Arr(lift(f, y) for y in x.items)
        if isinstance(x, Num):
            if x.expr is sp.nan:
                n = m.as_num(i, k.get("nan", 0))
                return n.with_(kind="array", shape=x.shape)
            if x.undef:
                n = m.as_num(i, k.get("nan", 0)).with_(kind="array", shape=x.shape)
                return ite(i.atom("undefined", x.undef), n, x.with_(undef=EMPTY,
                                                                   alias=EMPTY))
            return x
        return Opq("nan_to_num", x)
    r = m.pure(i, f, _arg(i, a[0]))
    if k.get("copy", a[1] if len(a) > 1 else True) is False:
        m.replace_identity(i, a[0], r)
    return r


@np_("shares_memory", "may_share_memory")
def np_share(i, a, k):
    return Opq("shares", *[_m().freeze(i, x) for x in a])


@np_("put", "place", "putmask", "fill_diagonal", "put_along_axis")
def np_put(i, a, k):
    m = _m()
    i.mutated(a[0], "put")
    m.replace_identity(i, a[0], Opq("put", *[m.freeze(i, x) for x in a]))


@np_("copyto")
def np_copyto(i, a, k):
    m = _m()
    i.mutated(a[0], "copyto")
    m.replace_identity(i, a[0], _as_array(i, a[1]))


# --------------------------------------------------------------------------------------
# attributes
def array_attr(i, obj, name, default):
    m = _m()
    if isinstance(obj, Num) and obj.kind == "sym":
        return sym_attr(i, obj, name, default)
    if isinstance(obj, Num) and obj.kind == "float":
        # numbers
        if name in ("real",):
            return obj
        if name == "imag":
            return Num(sp.Integer(0), "float")
        if name in ("is_integer", "conjugate", "hex", "__float__", "__abs__",
                    "as_integer_ratio"):
            if name == "conjugate":
                return Native(name, lambda i, a, k: obj)
            return Native(name, lambda i, a, k: Opq(name, obj))
        if name in ("shape", "ndim", "dtype", "size", "item", "astype", "copy"):
            # could be a numpy scalar
            if default is not _b:
                return default
            if name == "astype":
                return Native(name, lambda i, a, k: cast(i, obj, _dtype(a, k, 0)))
            if name in ("item", "copy"):
                return Native(name, lambda i, a, k: obj)
            return {"shape": (), "ndim": 0, "size": 1}.get(name, Opq("dtype"))
        return i.noattr(obj, name, default)
    if name == "shape":
        return _shape(i, obj)
    if name == "size":
        return np_size(i, [obj], {})
    if name == "ndim":
        return np_ndim(i, [obj], {})
    if name == "T":
        return np_transpose(i, [obj], {})
    if name in ("real",):
        return obj
    if name == "dtype":
        return Opq("dtype", "bool" if isinstance(obj, BoolEl) else "float")
    if name == "flat":
        return np_ravel(i, [obj], {})
    if name == "nbytes" or name == "flags" or name == "base":
        return Opq("attr", Opq("arr", obj), name)
    if name == "__class__":
        return Ext("numpy.ndarray")

    def meth(fn):
        return Native("ndarray." + name, fn)
    if name in ("copy", "flatten"):
        if name == "flatten":
            return meth(lambda i, a, k: _drop(_retoken(i, obj, "ravel")))
        return meth(lambda i, a, k: _drop(obj))
    if name in ("ravel",):
        return meth(lambda i, a, k: _retoken(i, obj, "ravel"))
    if name == "squeeze":
        return meth(lambda i, a, k: _drop_none(obj))
    if name in ("view", "conj", "conjugate"):
        return meth(lambda i, a, k: obj)
    if name == "astype":
        return meth(lambda i, a, k: _drop(cast(i, obj, _dtype(a, k, 0))))
    if name == "reshape":
        return meth(lambda i, a, k: _reshape(i, obj, a[0] if len(a) == 1 else tuple(a)))
    if name == "transpose":
        return meth(lambda i, a, k: np_transpose(i, [obj], {}))
    if name in ("tolist",):
        def tolist(i, a, k):
            if isinstance(obj, Arr):
                return i.new_list(obj.items)
            if isinstance(obj, Num) and not obj.shape:
                return i.new_list([obj.with_(kind="float")])
            return Opq("tolist", obj)
        return meth(tolist)
    if name == "item":
        def item(i, a, k):
            if isinstance(obj, Num) and not obj.shape:
                return obj.with_(kind="float")
            return Opq("item", obj, *a)
        return meth(item)
    if name in ("any", "all", "sum", "prod", "min", "max", "mean", "cumsum", "cumprod",
                "round", "clip", "std", "var", "argmax", "argmin", "ptp", "dot"):
        h = NP[name]
        return meth(lambda i, a, k: h(i, [obj, *a], k))
    if name == "fill":
        def fill(i, a, k):
            i.mutated(obj, "fill")
            m.replace_identity(i, obj, _like(i, [obj], {}, a[0]))
        return meth(fill)
    if name in ("sort", "put", "resize", "itemset", "partition", "setfield"):
        def mut(i, a, k):
            i.mutated(obj, name)
            m.replace_identity(i, obj, Opq(name, obj, *[m.freeze(i, x) for x in a]))
        return meth(mut)
    if name in ("setflags",):
        return meth(lambda i, a, k: i.mutated(obj, "setflags"))
    if name in _NDARRAY:
        return Native("ndarray." + name, lambda i, a, k: Opq(
            "ndmethod", name, obj, *[m.freeze(i, x) for x in a]))
    return i.noattr(obj, name, default)


_NDARRAY = {"__len__", "__iter__", "__array__", "__getitem__", "repeat", "take", "nonzero",
            "searchsorted", "swapaxes", "strides", "itemsize", "data", "ctypes",
            "tobytes", "dump", "dumps", "diagonal", "trace", "compress", "choose"}

_SYM_FORBIDDEN = {"evalf", "n"}


def sym_attr(i, obj, name, default):
    m = _m()
    e = obj.expr
    if name == "__class__":
        return Ext("sympy." + type(e).__name__)
    if not hasattr(e, name):
        return i.noattr(obj, name, default)
    if name == "free_symbols":
        return i.new_set([Num(s, "sym") for s in sorted(e.free_symbols, key=str)])
    v = getattr(e, name)
    if callable(v) and not isinstance(v, sp.Basic) and not isinstance(v, type):
        def call(i, a, k):
            keys = list(k)
            vals = [i.prune(x) for x in a] + [i.prune(k[q]) for q in keys]

            def f(*vs):
                args = [m.sym_args(i, x) for x in vs[:len(a)]]
                kw = {q: m.sym_args(i, x) for q, x in zip(keys, vs[len(a):])}
                try:
                    r = v(*args, **kw)
                except (TypeError, ValueError, AttributeError) as ex:
                    return m.Marker(type(ex).__name__, str(ex)[:200])
                if not isinstance(r, (sp.Basic, bool, int, float, str, tuple, list, set,
                                      frozenset, dict)) and r is not None:
                    try:
                        r = list(r)
                    except TypeError:
                        raise _inc(f"result of sympy method {name}")
                return m.from_sym(i, r)
            return m.pure(i, f, *vals)
        return Native("sympy." + name, call)
    if isinstance(v, type):
        return Ext("sympy." + v.__name__)
    return m.from_sym(i, v)


# --------------------------------------------------------------------------------------
# items
def _is_ellipsis(k):
    return k is Ellipsis or isinstance(k, Ext) and k.path == "builtins.Ellipsis"


def _full_slice(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and k.step is None


def array_getitem(i, obj, key):
    m = _m()
    if isinstance(obj, Arr):
        if isinstance(key, Num) and key.expr.is_Integer:
            key = int(key.expr)
        if isinstance(key, bool) or key is None:
            key = (key,)
        if isinstance(key, int):
            if -len(obj.items) <= key < len(obj.items):
                return obj.items[key]
            return m.Marker("IndexError", "index out of bounds")
        if isinstance(key, slice):
            k = i.models._slice(i, key)
            if all(isinstance(x, int) or x is None for x in (k.start, k.stop, k.step)):
                r = Arr(obj.items[k])
                i.__dict__.setdefault("array_views", []).append((r, obj, k))
                return r
        if _is_ellipsis(key):
            return obj
        if isinstance(key, tuple) and key:
            first, rest = key[0], key[1:]
            if _is_ellipsis(first):
                return Arr(lift(lambda x: array_getitem(i, x, key), y)
                           if not isinstance(y, int) else y for y in obj.items) \
                    if rest else obj
            if isinstance(first, int) and not isinstance(first, bool):
                x = array_getitem(i, obj, first)
                return lift(lambda y: array_getitem(i, y, rest), x) if rest else x
            if isinstance(first, slice):
                x = array_getitem(i, obj, first)
                if isinstance(x, Arr):
                    if not rest:
                        return x
                    return Arr(lift(lambda y: array_getitem(i, y, rest), y)
                               for y in x.items)
        if isinstance(key, Ref):
            ks = i.iterate(key)
            if all(isinstance(x, int) for x in ks):
                return Arr(obj.items[x] for x in ks)
        return Opq("item", obj, m.freeze(i, key))
    if isinstance(obj, Num):
        if obj.kind != "array":
            if obj.kind == "sym" and obj.expr.__class__.__name__.endswith("Matrix"):
                return m.from_sym(i, obj.expr[m.sym_args(i, key)])
            return m.Marker("TypeError", "object is not subscriptable")
        if _full_slice(key) or _is_ellipsis(key):
            return obj
        if isinstance(key, tuple) and all(_full_slice(k) or _is_ellipsis(k)
                                          for k in key):
            return obj
        if isinstance(key, int) and not obj.shape:
            return obj.with_(kind="float", alias=EMPTY)
        if key is None or isinstance(key, tuple) and any(k is None for k in key) and all(
                k is None or _full_slice(k) or _is_ellipsis(k) for k in key):
            return _retoken(i, obj, "newaxis" + repr([
                "n" if k is None else ":" for k in (key if isinstance(key, tuple)
                                                    else (key,))]))
        if isinstance(key, BoolEl):
            if key.tree is True:
                return obj
            return obj.with_(shape=frozenset([("mask", key)]), alias=EMPTY)
        return Opq("item", obj, m.freeze(i, key))
    if isinstance(obj, BoolEl):
        if _full_slice(key) or _is_ellipsis(key):
            return obj
        return Opq("item", obj, m.freeze(i, key))
    raise _inc("item of array")


def array_setitem(i, obj, key, v):
    m = _m()
    if isinstance(obj, Arr):
        if isinstance(key, Num) and key.expr.is_Integer:
            key = int(key.expr)
        if isinstance(key, int):
            if not -len(obj.items) <= key < len(obj.items):
                i.raise_("IndexError", "index out of bounds")
            t = list(obj.items)
            t[key] = v if isinstance(v, Gate) else _as_array(i, v)
            return Arr(t)
        if _full_slice(key) or _is_ellipsis(key):
            w = _as_array(i, v)
            if isinstance(w, Arr) and len(w.items) == len(obj.items):
                return w
            return Arr(w for _ in obj.items)
        if isinstance(key, slice):
            k = i.models._slice(i, key)
            if all(isinstance(x, int) or x is None for x in (k.start, k.stop, k.step)):
                w = _as_array(i, v)
                n = len(obj.items[k])
                t = list(obj.items)
                if isinstance(w, Arr):
                    if len(w.items) not in (1, n):
                        i.raise_("ValueError", "could not broadcast input array")
                    t[k] = w.items if len(w.items) == n else w.items * n
                elif isinstance(w, Num):
                    t[k] = [w] * n
                else:
                    raise _inc(f"array assignment with {key!r} at {i.where()}")
                return Arr(t)
        if isinstance(key, tuple) and key and isinstance(key[0], int):
            t = list(obj.items)
            t[key[0]] = array_setitem(i, t[key[0]], key[1] if len(key) == 2
                                      else key[1:], v)
            return Arr(t)
        if isinstance(key, Arr) and all(isinstance(x, (BoolEl, bool))
                                        for x in key.items):
            return where_(i, key, v, obj)
        if isinstance(key, BoolEl):
            return Arr(where_(i, key, v, x) for x in obj.items)
        raise _inc(f"array assignment with {key!r} at {i.where()}")
    if isinstance(obj, Num):
        if isinstance(key, BoolEl):
            vv = v
            if isinstance(vv, Num):
                vv = vv.with_(shape=frozenset(
                    t for t in vv.shape if not (isinstance(t, tuple) and t
                                                and t[0] == "mask")))
            r = where_(i, key, vv, obj)
            return lift(lambda x: x.with_(alias=obj.alias, shape=obj.shape), r)
        if _full_slice(key) or _is_ellipsis(key):
            w = _as_array(i, v)
            return lift(lambda x: x.with_(alias=obj.alias, shape=obj.shape)
                        if isinstance(x, Num) else x, w)
        if isinstance(key, int) and not obj.shape:
            return lift(lambda x: m.as_num(i, x).with_(
                kind="array", alias=obj.alias, shape=obj.shape), v)
        raise _inc(f"array assignment with {key!r} at {i.where()}")
    raise _inc("array assignment")


# -- other numpy objects --------------------------------------------------------------
@path_("math.log")
def math_log(i, a, k):
    m = _m()
    r = _math(i, "log", a[:1])
    if len(a) > 1:
        return m.binop(i, "Div", r, _math(i, "log", a[1:2]))
    return r


@path_("math.comb", "scipy.special.comb", "scipy.special.binom")
def math_comb(i, a, k):
    m = _m()

    def f(n, p):
        if isinstance(n, int) and isinstance(p, int):
            return int(sp.binomial(n, p))
        return Num(sp.binomial(m.as_num(i, n).expr, m.as_num(i, p).expr), "float")
    return m.pure(i, f, a[0], a[1])


@path_("math.prod")
def math_prod(i, a, k):
    m = _m()
    r = k.get("start", 1)
    for x in i.iterate(a[0]):
        r = m.binop(i, "Mult", r, x)
    return r


@path_("math.fsum")
def math_fsum(i, a, k):
    return i.models.bi_sum(i, a[:1], {})


@path_("numpy.add.reduce")
def add_reduce(i, a, k):
    k.setdefault("axis", a[1] if len(a) > 1 else 0)
    return np_sum(i, a[:1], k)


@path_("numpy.multiply.reduce")
def mul_reduce(i, a, k):
    k.setdefault("axis", a[1] if len(a) > 1 else 0)
    return np_prod(i, a[:1], k)


def _register_outer():
    for n, op in _BIN.items():
        path_(f"numpy.{n}.outer")(lambda i, a, k, op=op: _outer(i, op, a[0], a[1]))


_register_outer()


@path_("numpy.logical_and.reduce")
def and_reduce(i, a, k):
    return np_all(i, a[:1], {})


@path_("numpy.logical_or.reduce")
def or_reduce(i, a, k):
    return np_any(i, a[:1], {})
