"""Abstract models of the Python builtins and of the external libraries."""
import itertools
import builtins as _b

import sympy as sp
from sympy.parsing.sympy_parser import parse_expr as _parse_expr

from .values import *  # noqa
from .values import DictC, Exc, EMPTY
from . import npmodels as _np

_MISSING = object()
PRELUDE_NAMES = {
    "collections.deque", "collections.Counter", "contextlib.ExitStack",
    "functools.singledispatch", "types.SimpleNamespace", "dataclasses.dataclass",
    "dataclasses.field", "dataclasses.fields", "dataclasses.replace",
    "dataclasses.asdict", "dataclasses.astuple", "dataclasses.is_dataclass",
    "dataclasses.MISSING", "dataclasses.Field", "dataclasses.FrozenInstanceError"}


# --------------------------------------------------------------------------------------
# generic (user defined / uninterpreted) differentiable functions
_GEN = {}


def genf(name):
    """An uninterpreted function with formal partial derivatives name_d<i>."""
    f = _GEN.get(name)
    if f is None:
        def fdiff(self, argindex=1):
            return genf(f"{name}_d{argindex}")(*self.args)
        f = _GEN[name] = type(name, (sp.Function,), {"fdiff": fdiff})
    return f


def _expi_fdiff(self, argindex=1):
    return sp.exp(self.args[0]) / self.args[0]


def _expn_fdiff(self, argindex=1):
    if argindex == 2:
        return -expn(self.args[0] - 1, self.args[1])
    raise sp.function.ArgumentIndexError(self, argindex)


expi = type("expi", (sp.Function,), {"fdiff": _expi_fdiff})
expn = type("expn", (sp.Function,), {"fdiff": _expn_fdiff})


class Marker:
    """A leaf that denotes a raised exception."""

    __slots__ = ("exc", "msg")

    def __init__(self, exc, msg=""):
        self.exc, self.msg = exc, msg

    def __eq__(self, o):
        return isinstance(o, Marker) and (self.exc, self.msg) == (o.exc, o.msg)

    def __hash__(self):
        return hash((self.exc, self.msg))


def pure(i, f, *vs):
    """Lift a pure function over gated values; Marker leaves become raised exceptions."""
    v = lift(f, *[i.prune(x) for x in vs])
    if not isinstance(v, (Gate, Marker)):
        return v
    for _, leaf in list(leaves(v)):
        if isinstance(leaf, Marker):
            i.raise_if(lift(lambda x: x == leaf if isinstance(x, Marker) else False, v),
                       leaf.exc, leaf.msg)
            v = i.prune(v)
    return v


# --------------------------------------------------------------------------------------
# numbers
def opq_symbol(i, o):
    s = i.opq_syms.get(o)
    if s is None:
        s = i.opq_syms[o] = sp.Symbol(f"opq{len(i.opq_syms)}_")
        i.sym_opq[s] = o
    return s


def as_num(i, v):
    """Num of a raw value (or None if it is not numeric)."""
    if isinstance(v, Num):
        return v
    if isinstance(v, bool):
        return Num(sp.Integer(int(v)), "float")
    if isinstance(v, int):
        return Num(sp.Integer(v), "float")
    if isinstance(v, Opq):
        return Num(opq_symbol(i, v), "float", frozenset([("opq", opq_symbol(i, v))])
                   if v.op in ("linspace", "arange", "grid") else EMPTY)
    return None


def kind_of(*nums):
    ks = {n.kind for n in nums}
    if "array" in ks:
        return "array"
    if "sym" in ks:
        return "sym"
    return "float"


def undef_of(*nums):
    u = EMPTY
    for n in nums:
        u = u | n.undef
    return u


def shape_of(*nums):
    s = EMPTY
    for n in nums:
        s = s | n.shape
    return s


def need(kind, expr):
    """Definedness obligation (empty if it trivially holds)."""
    if expr.is_number:
        try:
            ok = {"nonzero": expr.is_zero is False, "positive": bool(expr.is_positive),
                  "nonneg": bool(expr.is_nonnegative)}[kind]
        except Exception:
            ok = False
        if ok:
            return EMPTY
    return frozenset([(kind, expr)])


_PYOPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b,
          "Mult": lambda a, b: a * b, "FloorDiv": lambda a, b: a // b,
          "Mod": lambda a, b: a % b, "Pow": lambda a, b: a ** b,
          "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b,
          "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b,
          "RShift": lambda a, b: a >> b, "Div": lambda a, b: a / b}

_DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow",
           "Mod": "mod", "FloorDiv": "floordiv", "MatMult": "matmul", "BitAnd": "and",
           "BitOr": "or", "BitXor": "xor"}


def num_op(i, op, x, y):
    """Arithmetic of two Num values."""
    a, b = x.expr, y.expr
    u = undef_of(x, y)
    if isinstance(a, sp.logic.boolalg.Boolean) or isinstance(b,
                                                             sp.logic.boolalg.Boolean):
        if op == "BitAnd":
            return Num(sp.And(a, b), "sym")
        if op == "BitOr":
            return Num(sp.Or(a, b), "sym")
    if op == "Add":
        r = a + b
    elif op == "Sub":
        r = a - b
    elif op == "Mult":
        r = a * b
    elif op == "Div":
        if b == 0:
            if kind_of(x, y) == "float":
                return Marker("ZeroDivisionError", "division by zero")
            return Num(sp.nan, kind_of(x, y), shape_of(x, y),
                       u | {("nonzero", sp.Integer(0))})
        r = a / b
        u = u | need("nonzero", b)
    elif op == "Pow":
        if b.is_Integer:
            if b < 0:
                if a == 0:
                    return Marker("ZeroDivisionError", "0 to a negative power")
                u = u | need("nonzero", a)
        elif b.is_Rational:
            u = u | need("positive" if b < 0 else "nonneg", a)
        elif not (a.is_positive or x.kind == "sym" or y.kind == "sym"):
            u = u | need("positive", a)
        r = a ** b
    elif op == "FloorDiv":
        r = sp.floor(a / b)
    elif op == "Mod":
        r = sp.Mod(a, b)
    else:
        raise _inc(f"operation {op} of numbers")
    return Num(r, kind_of(x, y), shape_of(x, y), u)


def _inc(msg):
    from .interp import Inconclusive
    return Inconclusive(msg)


def arr_zip(i, f, a, b, what):
    """Elementwise operation where at least one operand is an Arr."""
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.items) != len(b.items):
            da, db = depth(a), depth(b)
            if da > db:
                return Arr(arr_zip(i, f, x, b, what) if isinstance(x, Arr) else f(x, b)
                           for x in a.items)
            if db > da:
                return Arr(arr_zip(i, f, a, x, what) if isinstance(x, Arr) else f(a, x)
                           for x in b.items)
            if len(a.items) == 1:
                return Arr(f(a.items[0], x) for x in b.items)
            if len(b.items) == 1:
                return Arr(f(x, b.items[0]) for x in a.items)
            i.event("misalign", what, "lengths differ")
            return Marker("ValueError", "operands could not be broadcast together")
        sa, sb = inner_shape(a), inner_shape(b)
        if sa != sb and sa and sb or (bool(sa) != bool(sb)):
            i.event("misalign", what, (sa, sb))
        return Arr(f(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Arr):
        arr, oth, flip = a, b, False
    else:
        arr, oth, flip = b, a, True
    so = val_shape(oth)
    if so and not so <= inner_shape(arr):
        i.event("misalign", what, (inner_shape(arr), so))
    return Arr((f(oth, x) if flip else f(x, oth)) for x in arr.items)


def depth(a):
    return 1 + (depth(a.items[0]) if a.items and isinstance(a.items[0], Arr) else 0)


def val_shape(v):
    """Shape tokens of a (gated) numeric value."""
    s = EMPTY
    for _, x in leaves(v):
        if isinstance(x, (Num, BoolEl)):
            s = s | x.shape
        elif isinstance(x, Arr):
            s = s | inner_shape(x) | {("lead", len(x.items))}
    return s


def inner_shape(a):
    """Shape tokens common to all items (the smallest guaranteed inner shape)."""
    res = None
    for x in a.items:
        for _, y in leaves(x):
            s = val_shape(y)
            res = s if res is None else res & s
    return res or EMPTY


def binop(i, op, a, b):
    a, b = i.prune(a), i.prune(b)
    # containers / objects with effects
    if not isinstance(a, Gate) and not isinstance(b, Gate):
        return _binop(i, op, a, b)
    if any(isinstance(x, Ref) for v in (a, b) for _, x in leaves(v)):
        return i.each_leaf(a, lambda x: i.each_leaf(b, lambda y: _binop(i, op, x, y)))
    return pure(i, lambda x, y: _binop_pure(i, op, x, y), a, b)


def _binop(i, op, a, b):
    if isinstance(a, Ref) or isinstance(b, Ref):
        r = _binop_ref(i, op, a, b)
        if r is not _MISSING:
            return r
    return pure(i, lambda x, y: _binop_pure(i, op, x, y), a, b)


def freeze(i, v):
    """Container contents instead of references (for opaque terms)."""
    if isinstance(v, Ref):
        o = i.st.get(v)
        if o.kind in ("list", "set", "dict"):
            c = i.prune(o.data)
            if isinstance(c, Gate):
                return lift(lambda x: _fr(i, o.kind, x), c)
            return _fr(i, o.kind, c)
        if o.kind == "iter":
            return Opq("list", *[freeze(i, x) for x in o.data[0][o.data[1]:]])
    if isinstance(v, tuple):
        return tuple(freeze(i, x) for x in v)
    if isinstance(v, slice):
        return Opq("slice", v.start, v.stop, v.step)
    return v


def _fr(i, kind, c):
    if isinstance(c, DictC):
        if kind == "set":
            return Opq("set", *[freeze(i, k) for k, _ in c.d.values()])
        return Opq("dict", *[(freeze(i, k), freeze(i, x)) for k, x in c.d.values()])
    return Opq("list", *[freeze(i, x) for x in c])


def _binop_ref(i, op, a, b):
    for x, y, pre in ((a, b, "__"), (b, a, "__r")):
        if isinstance(x, Ref):
            o = i.st.get(x)
            if o.kind == "inst":
                m = i.find_attr(o.cls, f"{pre}{_DUNDER.get(op, '?')}__")
                if m is not None:
                    return i.call(i.bind(m, x, o.cls), [y], {})
    ka = _setkind(i, a) if isinstance(a, Ref) else None
    kb = _setkind(i, b) if isinstance(b, Ref) else None
    if ka == "set":
        a = _as_set(i, a)
    if op == "Add" and ka == "list" and kb == "list":
        return i.new_list(i.iterate(a) + i.iterate(b)) if not (
            isinstance(i.content(a), Gate) or isinstance(i.content(b), Gate)) else (
            i.st.new("list", lift(lambda x, y: x + y, i.content(a), i.content(b))))
    if op == "Mod" and isinstance(a, str):
        if kb == "dict":
            c = i.content(b)
            if isinstance(c, DictC) and all(isinstance(x, (int, str)) and isinstance(
                    q, str) for q, x in c.d.values()):
                try:
                    return a % {q: x for q, x in c.d.values()}
                except (KeyError, TypeError, ValueError) as e:
                    i.raise_(type(e).__name__, *e.args)
        return Opq("fstr", a, freeze(i, b))
    if op == "Mult" and "list" in (ka, kb):
        lst, n = (a, b) if ka == "list" else (b, a)
        if isinstance(n, int):
            return i.new_list(i.iterate(lst) * n)
        if isinstance(n, Num) and n.kind == "float" and not n.expr.is_Integer:
            i.raise_("TypeError", "can't multiply sequence by non-int")
    if ka in ("set", "dict") and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
        if ka == "dict" and op == "BitOr":
            r = i.new_dict()
            call_method(i, r, "update", [a], {})
            call_method(i, r, "update", [b], {})
            return r
        return call_method(i, a, {"BitOr": "union", "BitAnd": "intersection",
                                  "Sub": "difference",
                                  "BitXor": "symmetric_difference"}[op], [b], {})
    if ka == "list" and isinstance(b, (Num, Arr)) or kb == "list" and isinstance(
            a, (Num, Arr)):
        # numpy converts lists
        x = to_array(i, a) if ka == "list" else a
        y = to_array(i, b) if kb == "list" else b
        return binop(i, op, x, y)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return Opq("op", op, freeze(i, a), freeze(i, b))
    if isinstance(a, DictView) or isinstance(b, DictView):
        return _MISSING
    if _plain(i, a) and _plain(i, b):
        i.raise_("TypeError", f"unsupported operand types for {op}")
    raise _inc(f"{op} of {tname(a)} and {tname(b)} at {i.where()}")


def _binop_pure(i, op, a, b):
    if isinstance(a, Marker):
        return a
    if isinstance(b, Marker):
        return b
    if isinstance(a, Gate) or isinstance(b, Gate):
        return lift(lambda x, y: _binop_pure(i, op, x, y), a, b)
    # pure python
    pa, pb = isinstance(a, (int, str, tuple)), isinstance(b, (int, str, tuple))
    if pa and pb:
        if isinstance(a, int) and isinstance(b, int):
            if op == "Div":
                if b == 0:
                    return Marker("ZeroDivisionError", "division by zero")
                return Num(sp.Rational(a, b), "float")
            if op == "Pow" and b < 0:
                if a == 0:
                    return Marker("ZeroDivisionError", "0 to a negative power")
                return Num(sp.Rational(a) ** b, "float")
        if op == "Mod" and isinstance(a, str) and isinstance(b, tuple) and any(
                not isinstance(x, (int, str)) for x in b):
            return Opq("fstr", a, *b)
        try:
            return _PYOPS[op](a, b)
        except ZeroDivisionError:
            return Marker("ZeroDivisionError", "")
        except (TypeError, KeyError):
            return Marker("TypeError", f"unsupported operand types for {op}")
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq("fstr", a, b) if op == "Add" else Opq("op", op, a, b)
        if op == "Mod" and isinstance(a, str):
            return Opq("fstr", a, b)
        return Marker("TypeError", f"unsupported operand types for {op}")
    if isinstance(a, BoolEl) or isinstance(b, BoolEl):
        if op in ("BitAnd", "BitOr", "BitXor"):
            ta, tb = bool_tree(i, a), bool_tree(i, b)
            sh = val_shape(a) | val_shape(b)
            t = {"BitAnd": t_and, "BitOr": t_or,
                 "BitXor": lambda p, q: ite(p, t_not(q), q)}[op](ta, tb)
            return BoolEl(t, sh)
        return _binop_pure(i, op, bool_num(a), bool_num(b))
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, (Arr, Num, int, Opq)) and isinstance(b, (Arr, Num, int, Opq)):
            if op == "MatMult":
                return Opq("op", op, a, b)
            return arr_zip(i, lambda x, y: _binop_pure(i, op, x, y), a, b, op)
        if isinstance(a, tuple) or isinstance(b, tuple):
            return _binop_pure(i, op, Arr(a) if isinstance(a, tuple) else a,
                               Arr(b) if isinstance(b, tuple) else b)
        return Marker("TypeError", f"unsupported operand types for {op}")
    if isinstance(a, Opq) and a.op == "shape" or isinstance(b, Opq) and b.op == "shape":
        return Opq("op", op, a, b)
    if isinstance(a, tuple) and isinstance(b, Num) and b.kind == "array":
        return _binop_pure(i, op, Arr(a), b)
    if isinstance(a, Num) and a.kind == "array" and isinstance(b, tuple):
        return _binop_pure(i, op, a, Arr(b))
    if op == "MatMult":
        return Opq("op", op, a, b)
    x, y = as_num(i, a), as_num(i, b)
    if x is None or y is None:
        if isinstance(a, (Ext, Lam, Func)) and isinstance(b, (Ext, Lam, Func)) \
                and op == "BitOr":
            return (a, b)  # type unions
        if isinstance(a, (Opq, Ext)) or isinstance(b, (Opq, Ext)):
            return Opq("op", op, a, b)
        return Marker("TypeError", f"unsupported operand types for {op}: "
                      f"{tname(a)} and {tname(b)}")
    if isinstance(a, Opq) and isinstance(b, (Opq, int)) and not _numeric_opq(i, a, b):
        r = num_op(i, op, x, y) if op in ("Add", "Sub", "Mult", "Div", "Pow") else Opq(
            "op", op, a, b)
        return r
    if op not in ("Add", "Sub", "Mult", "Div", "Pow", "FloorDiv", "Mod"):
        if isinstance(a, Num) and isinstance(b, Num):
            return num_op(i, op, x, y)
        return Opq("op", op, a, b)
    return num_op(i, op, x, y)


def _numeric_opq(i, a, b):
    return False


def tname(v):
    return type(v).__name__


def bool_tree(i, v):
    if isinstance(v, BoolEl):
        return v.tree
    if isinstance(v, (bool, Gate)):
        return v
    return truth(i, v)


def bool_num(v):
    if isinstance(v, BoolEl):
        return lift(lambda c: Num(sp.Integer(int(c)), "array", v.shape), v.tree)
    return v


def unop(i, op, v):
    def f(x):
        if op == "Not":
            return not x
        if isinstance(x, Gate):
            return lift(f, x)
        if isinstance(x, bool) and op == "Invert":
            return ~x
        if isinstance(x, int):
            return {"USub": -x, "UAdd": +x, "Invert": ~x}[op]
        if isinstance(x, BoolEl):
            if op == "Invert":
                return BoolEl(t_not(x.tree), x.shape)
            return f(bool_num(x))
        if isinstance(x, Num):
            if op == "USub":
                return x.with_(expr=-x.expr, alias=EMPTY)
            if op == "UAdd":
                return x
            if isinstance(x.expr, sp.logic.boolalg.Boolean):
                return Num(sp.Not(x.expr), "sym")
        if isinstance(x, Arr):
            return Arr(f(y) for y in x.items)
        if isinstance(x, Opq):
            if op == "USub":
                return f(as_num(i, x))
            return Opq("op", op, x)
        return Marker("TypeError", f"bad operand type for unary {op}")
    v = i.prune(v)
    if isinstance(v, Ref):
        o = i.st.get(v)
        if o.kind == "inst":
            m = i.find_attr(o.cls, {"USub": "__neg__", "UAdd": "__pos__",
                                    "Invert": "__invert__"}[op])
            if m is not None:
                return i.call(i.bind(m, v, o.cls), [], {})
        i.raise_("TypeError", f"bad operand type for unary {op}")
    return pure(i, f, v)


# --------------------------------------------------------------------------------------
# conditions
def _canon_eq(e):
    """Canonical representative of the condition e == 0."""
    e = sp.together(e)
    n, d = sp.fraction(e)
    n = sp.expand(n)
    c, n = n.as_content_primitive() if n.is_Add else n.as_coeff_Mul()
    if n.could_extract_minus_sign():
        n = -n
    return n


def cond_eq0(i, e):
    """Condition (tree) that the term e is zero."""
    e = sp.sympify(e)
    if e.is_number:
        return bool(e.is_zero or e == 0)
    if e.has(sp.nan, sp.zoo):
        return False
    n = _canon_eq(e)
    if n.is_number:
        return bool(n == 0)
    if n.is_positive or n.is_negative:
        return False
    if n.is_Mul:
        t = False
        for f in n.args:
            t = t_or(t, cond_eq0(i, f))
        return t
    if n.is_Pow and n.exp.is_positive:
        return cond_eq0(i, n.base)
    if isinstance(n, sp.exp):
        return False
    return i.atom("eq", n)


def cond_gt0(i, e):
    """Condition (tree) that the term e is positive."""
    e = sp.sympify(e)
    if e.is_number:
        return bool(e.is_positive or (e.is_comparable and e > 0))
    if e.has(sp.nan, sp.zoo):
        return False
    if e in i.nonneg:
        return t_not(cond_eq0(i, e))
    if -e in i.nonneg:
        return False
    c, m = sp.expand(e).as_coeff_Mul()
    if m in i.nonneg and c.is_positive:
        return t_not(cond_eq0(i, m))
    if m in i.nonneg and c.is_negative:
        return False
    if c.is_positive:
        e = m
    elif c.is_negative:
        e = -m
    if isinstance(e, sp.exp):
        return True
    if (-e).could_extract_minus_sign() is False and e.could_extract_minus_sign():
        # e = -m:  -m > 0  <=>  not (m >= 0)
        m = -e
        return t_and(t_not(i.atom("gt", m)), t_not(cond_eq0(i, m)))
    return i.atom("gt", e)


def num_cmp(i, op, x, y):
    d = x.expr - y.expr
    if op == "Eq":
        t = cond_eq0(i, d)
    elif op == "NotEq":
        t = t_not(cond_eq0(i, d))
    elif op == "Gt":
        t = cond_gt0(i, d)
    elif op == "Lt":
        t = cond_gt0(i, -d)
    elif op == "GtE":
        t = t_or(cond_gt0(i, d), cond_eq0(i, d))
    else:
        t = t_or(cond_gt0(i, -d), cond_eq0(i, d))
    if sp.nan in (x.expr, y.expr):
        t = op == "NotEq"
    return t


_REL = {"Eq": sp.Eq, "NotEq": sp.Ne, "Lt": sp.Lt, "LtE": sp.Le, "Gt": sp.Gt, "GtE": sp.Ge}


def compare(i, op, a, b):
    a, b = i.prune(a), i.prune(b)
    if op in ("In", "NotIn"):
        r = i.each_leaf(b, lambda y: contains(i, y, a))
        return t_not(r) if op == "NotIn" else r
    if op in ("Is", "IsNot"):
        r = lift(lambda x, y: identical(i, x, y), a, b)
        return t_not(r) if op == "IsNot" else r
    if isinstance(a, Gate) or isinstance(b, Gate):
        if any(isinstance(x, Ref) for v in (a, b) for _, x in leaves(v)):
            return i.each_leaf(a, lambda x: i.each_leaf(
                b, lambda y: _compare(i, op, x, y)))
        return pure(i, lambda x, y: _compare(i, op, x, y), a, b)
    return pure(i, lambda x: x, _compare(i, op, a, b))


def identical(i, x, y):
    if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
        if isinstance(x, Opq) or isinstance(y, Opq):
            o, c = (x, y) if isinstance(x, Opq) else (y, x)
            if o.op in ("fstr", "str", "list", "shape", "slice", "map"):
                return False
            if o.op == "call" and isinstance(o.args[0], Ext) and (
                    o.args[0].path.split(".")[-1][:1].isupper()
                    or o.args[0].path == "logging.getLogger"):
                return False            # instances of a class
            if o.op == "elem" or o.op == "call" or o.op == "attr" or o.op == "item":
                return i.atom("is", o, c)
            return False
        return x is y
    if isinstance(x, (int, str, tuple)) and type(x) is type(y):
        return x == y
    if type(x) is not type(y):
        return False
    if isinstance(x, Num):
        return x is y or (x.kind == y.kind == "sym" and x.expr == y.expr)
    if isinstance(x, Opq):
        return True if x == y else i.atom("is", x, y)
    return same(x, y)


def value_eq(i, a, b):
    """Python equality of values as condition tree."""
    r = compare(i, "Eq", a, b)
    return truth(i, r)


def _compare(i, op, a, b):
    if isinstance(a, Gate) or isinstance(b, Gate):
        return lift(lambda x, y: _compare(i, op, x, y), a, b)
    if isinstance(a, BoolEl) or isinstance(b, BoolEl):
        if op in ("Eq", "NotEq"):
            ta, tb = bool_tree(i, a), bool_tree(i, b)
            t = ite(ta, tb, t_not(tb))
            return BoolEl(t if op == "Eq" else t_not(t), val_shape(a) | val_shape(b))
        a, b = bool_num(a), bool_num(b)
        return _compare(i, op, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, (Arr, Num, int, Opq)) and isinstance(b, (Arr, Num, int, Opq)):
            return arr_zip(i, lambda x, y: _compare(i, op, x, y), a, b, op)
        return op == "NotEq"
    na = isinstance(a, (int, Num))
    nb = isinstance(b, (int, Num))
    if na and nb:
        if isinstance(a, int) and isinstance(b, int):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b,
                    "Gt": a > b, "GtE": a >= b}[op]
        x, y = as_num(i, a), as_num(i, b)
        if "sym" in (x.kind, y.kind) and "array" not in (x.kind, y.kind):
            if op in ("Eq", "NotEq"):
                r = x.expr == y.expr
                return r if op == "Eq" else not r
            rel = _REL[op](x.expr, y.expr)
            if rel in (sp.true, sp.false):
                return bool(rel)
            return Num(rel, "sym")
        t = num_cmp(i, op, x, y)
        if "array" in (x.kind, y.kind):
            return BoolEl(t, shape_of(x, y))
        return t
    if isinstance(a, Opq) and a.op == "shape" and isinstance(b, Opq) and b.op == "shape":
        if a.args == b.args and op in ("Eq", "NotEq"):
            return op == "Eq"
        return _opq_rel(i, op, a, b)
    if isinstance(a, Opq) and a.op in ("ndim", "size", "len") or isinstance(
            b, Opq) and b.op in ("ndim", "size", "len"):
        if op in ("Eq", "NotEq") and a == b:
            return op == "Eq"
        if isinstance(b, int) and a.op == "size" and op in ("Eq", "NotEq") and b <= 1:
            return op == "NotEq"
        if isinstance(b, int) and a.op == "size" and op in ("Gt", "LtE") and b <= 1:
            return op == "Gt"
        if isinstance(b, int) and isinstance(a, Opq) and a.op == "ndim" and isinstance(
                a.args[0], frozenset) and a.args[0]:
            # (arrays with more than one element)
            if b <= 0:
                return op in ("NotEq", "Gt", "GtE")
            if b == 1 and op in ("GtE", "Lt"):
                return op == "GtE"
        return _opq_rel(i, op, a, b)
    if isinstance(a, Opq) or isinstance(b, Opq):
        if op in ("Eq", "NotEq"):
            if a == b:
                return op == "Eq"
            o, c = (a, b) if isinstance(a, Opq) else (b, a)
            if o.op == "fstr" and isinstance(c, str) and _fstr_differs(o, c):
                return op == "NotEq"
            if o.op == "shape":
                return op == "NotEq" if isinstance(c, tuple) and o.args[0] else (
                    _opq_rel(i, op, a, b))
            if isinstance(c, Num):
                return _compare(i, op, as_num(i, a), as_num(i, b))
        if (na or isinstance(a, Opq)) and (nb or isinstance(b, Opq)):
            if isinstance(a, Num) or isinstance(b, Num):
                return _compare(i, op, as_num(i, a), as_num(i, b))
        return _opq_rel(i, op, a, b)
    if op in ("Eq", "NotEq"):
        r = _struct_eq(i, a, b)
        return r if op == "Eq" else t_not(r)
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if isinstance(a, tuple) and isinstance(b, tuple):
        return _seq_order(i, op, a, b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        ka, kb = _setkind(i, a), _setkind(i, b)
        if ka == kb == "list":
            return lift(lambda x, y: _seq_order(i, op, x, y), i.content(a), i.content(b))
        if ka == kb == "set":
            a, b = _as_set(i, a), _as_set(i, b)
            ca, cb = i.content(a), i.content(b)

            def rel(x, y):
                p, q = set(x.d), set(y.d)
                return {"Lt": p < q, "LtE": p <= q, "Gt": p > q, "GtE": p >= q}[op]
            return lift(rel, ca, cb)
    if isinstance(a, Ref) and i.st.get(a).kind == "inst":
        m = i.find_attr(i.st.get(a).cls, {"Lt": "__lt__", "LtE": "__le__",
                                          "Gt": "__gt__", "GtE": "__ge__"}[op])
        if m is not None:
            return i.call(i.bind(m, a, i.st.get(a).cls), [b], {})
    if _plain(i, a) and _plain(i, b):
        return Marker("TypeError",
                      f"{op} not supported between {tname(a)} and {tname(b)}")
    raise _inc(f"{op} between {tname(a)} and {tname(b)} at {i.where()}")


def _plain(i, v):
    """A value of a Python builtin type, whose operators are fully modelled."""
    if isinstance(v, Ref):
        return i.st.get(v).kind in ("list", "dict", "set")
    return v is None or isinstance(v, (bool, int, str, tuple, Num))


def _setkind(i, r):
    """'set' also for the set-like views of a dictionary."""
    o = i.st.get(r)
    if o.kind == "list" and isinstance(o.extra, tuple) and o.extra[0] == "view":
        return "set" if o.extra[2] != "values" else "values"
    return o.kind


def _as_set(i, r):
    if i.st.get(r).kind == "list":
        return i.st.new("set", lift(
            lambda t: DictC({i.hkey(x): (x, None) for x in t}), i.content(r)))
    return r


def _seq_order(i, op, a, b):
    if any(isinstance(x, Star) for x in a + b):
        raise _inc(f"ordering of unknown sequences at {i.where()}")
    for x, y in zip(a, b):
        e = value_eq(i, x, y)
        if e is True:
            continue
        if e is not False:
            raise _inc(f"ordering of sequences at {i.where()}")
        return _compare(i, op, x, y)
    p, q = len(a), len(b)
    return {"Lt": p < q, "LtE": p <= q, "Gt": p > q, "GtE": p >= q}[op]


def _fstr_differs(o, c):
    fixed = [p for p in o.args if isinstance(p, str)]
    return any(p not in c for p in fixed)


def _opq_rel(i, op, a, b):
    if op == "NotEq":
        return t_not(i.atom("rel", "Eq", a, b))
    if op == "Eq":
        return i.atom("rel", "Eq", a, b)
    if op == "GtE":
        return t_not(i.atom("rel", "Lt", a, b))
    if op == "LtE":
        return t_not(i.atom("rel", "Gt", a, b))
    return i.atom("rel", op, a, b)


def _notimpl(r):
    return isinstance(r, Ext) and r.path == "builtins.NotImplemented"


def _struct_eq(i, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ref) and not isinstance(y, Ref) and i.st.get(x).kind == "inst":
            m = i.find_attr(i.st.get(x).cls, "__eq__")
            if m is not None:
                r = i.prune(i.call(i.bind(m, x, i.st.get(x).cls), [y], {}))
                if isinstance(r, Gate) and any(_notimpl(z) for _, z in leaves(r)):
                    raise _inc(f"comparison at {i.where()}")
                return False if _notimpl(r) else i.truth(r)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return True
        oa, ob = i.st.get(a), i.st.get(b)
        if oa.kind == "inst":
            m = i.find_attr(oa.cls, "__eq__")
            if m is not None:
                r = i.prune(i.call(i.bind(m, a, oa.cls), [b], {}))
                if isinstance(r, Gate) and any(_notimpl(x) for _, x in leaves(r)):
                    raise _inc(f"comparison at {i.where()}")
                if not _notimpl(r):
                    return i.truth(r)
                if ob.kind == "inst" and ob.cls != oa.cls:
                    m = i.find_attr(ob.cls, "__eq__")
                    if m is not None:
                        r = i.call(i.bind(m, b, ob.cls), [a], {})
                        return False if _notimpl(r) else i.truth(r)
                return False
        va, vb = _setkind(i, a), _setkind(i, b)
        if "values" in (va, vb):
            return False
        if va == vb == "set":
            a, b = _as_set(i, a), _as_set(i, b)
            oa, ob = i.st.get(a), i.st.get(b)
        if oa.kind != ob.kind or va != vb:
            return False
        if oa.kind in ("list", "set", "dict"):
            def eq(x, y):
                if isinstance(x, DictC):
                    if set(x.d) != set(y.d):
                        return False
                    r = True
                    for k, (_, v) in x.d.items():
                        r = t_and(r, value_eq(i, v, y.d[k][1]))
                    return r
                return _struct_eq(i, x, y)
            return lift(eq, i.content(a), i.content(b))
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = t_and(r, value_eq(i, x, y))
        return r
    if isinstance(a, DictView) or isinstance(b, DictView):
        return same(a, b)
    return same(a, b)


def contains(i, c, a):
    if isinstance(c, str):
        if isinstance(a, str):
            return a in c
        return lift(lambda x: (x in c) if isinstance(x, str)
                    else i.atom("in", x, c), a)
    if isinstance(c, DictView):
        return lift(lambda k: i.st.get(c.ref).data.get(k, UNDEF) is not UNDEF, a)
    if isinstance(c, Ref):
        o = i.st.get(c)
        if o.kind in ("dict", "set"):
            def f(d, k):
                if isinstance(k, Opq) and ("val", k) not in d.d:
                    r = False
                    for kk, _ in d.d.values():
                        r = t_or(r, value_eq(i, k, kk))
                    return r
                return i.hkey(k) in d.d
            cont = i.content(c)
            return lift(f, cont, a)
        if o.kind == "inst":
            m = i.find_attr(o.cls, "__contains__")
            if m is not None:
                return i.truth(i.call(i.bind(m, c, o.cls), [a], {}))
    if isinstance(c, Opq):
        if c.op == "fstr" and isinstance(a, str) and any(
                isinstance(p, str) and a in p for p in c.args):
            return True
        return i.atom("in", freeze(i, a), c)
    items = i.iterate(c)

    def g(items):
        r = False
        for x in items:
            if isinstance(x, Star):
                r = t_or(r, i.atom("in", freeze(i, a), x.value))
            else:
                r = t_or(r, t_or(lift(lambda p, q: identical(i, p, q), a, x),
                                 value_eq(i, a, x)))
        return r
    return lift(g, items)


def truth(i, v):
    v = i.prune(v)

    def f(x):
        if isinstance(x, Gate):
            return lift(f, x)
        if x is None or isinstance(x, (bool, int, str, tuple, range)):
            return bool(x)
        if isinstance(x, Num):
            if isinstance(x.expr, sp.logic.boolalg.Boolean):
                if x.expr in (sp.true, sp.false):
                    return bool(x.expr)
                return Marker("TypeError", "cannot determine truth value of Relational")
            if x.kind == "array" and x.shape:
                i.event("ambiguous-truth", x)
            return t_not(cond_eq0(i, x.expr))
        if isinstance(x, BoolEl):
            if x.shape:
                i.event("ambiguous-truth", x)
            return x.tree
        if isinstance(x, Arr):
            if len(x.items) == 1:
                return f(x.items[0])
            i.event("ambiguous-truth", x)
            return Marker("ValueError", "truth value of an array is ambiguous")
        if isinstance(x, Ref):
            o = i.st.get(x)
            if o.kind in ("dict", "set"):
                return lift(lambda d: bool(d.d), i.prune(o.data))
            if o.kind == "list":
                def g(t):
                    if any(not isinstance(y, Star) for y in t):
                        return True
                    r = False
                    for y in t:
                        r = t_or(r, i.atom("nonempty", y.value))
                    return r
                return lift(g, i.content(x))
            return True
        if isinstance(x, Opq):
            if x.op in ("shape",):
                return True
            if x.op == "fstr" and any(isinstance(p, str) and p for p in x.args):
                return True
            return i.atom("truth", x)
        return True
    if isinstance(v, Ref):
        o = i.st.get(v)
        if o.kind == "inst":
            m = i.find_attr(o.cls, "__bool__")
            if m is not None:
                return truth(i, i.call(i.bind(m, v, o.cls), [], {}))
            m = i.find_attr(o.cls, "__len__")
            if m is not None:
                return truth(i, i.call(i.bind(m, v, o.cls), [], {}))
    return pure(i, f, v)


# --------------------------------------------------------------------------------------
# strings
def format_(i, x, spec=""):
    """format(x, spec)"""
    if isinstance(x, Gate) or isinstance(spec, Gate):
        return lift(lambda p, q: format_(i, p, q), x, spec)
    if not isinstance(spec, str):
        return Opq("fstr", to_str(i, x))
    y = x
    if isinstance(x, Num) and x.kind in ("float", "array") and x.expr.is_Rational \
            and not x.shape:
        y = float(x.expr)
    if isinstance(y, (str, int, float)) or y is None:
        try:
            return format(y, spec)
        except (ValueError, TypeError) as e:
            return Marker(type(e).__name__, str(e))
    return to_str(i, x)


def to_str(i, x, rep=False):
    if isinstance(x, Gate):
        return lift(lambda y: to_str(i, y, rep), x)
    if isinstance(x, str):
        return repr(x) if rep else x
    if x is None or isinstance(x, (bool, int)):
        return str(x)
    if isinstance(x, Num) and x.kind == "sym":
        return str(x.expr)
    if isinstance(x, Num) and x.kind == "float" and x.expr.is_Rational:
        return repr(float(x.expr))
    if isinstance(x, tuple):
        parts = [to_str(i, y, True) for y in x]
        if all(isinstance(p, str) for p in parts):
            return "(" + ", ".join(parts) + ("," if len(x) == 1 else "") + ")"
    if isinstance(x, Exc):
        if isinstance(x.cls, Ref) and any(i.find_attr(x.cls, n) is not None
                                          for n in ("__init__", "__str__")):
            return Opq("str", Opq("exc", x))
        if len(x.args) == 1:
            if isinstance(x.cls, Ext) and x.cls.path == "builtins.KeyError":
                return to_str(i, x.args[0], True)
            return to_str(i, x.args[0])
        return Opq("str", Opq("exc", *x.args))
    if isinstance(x, Ref):
        o = i.st.get(x)
        if o.kind == "list":
            c = i.content(x)
            if isinstance(c, tuple):
                parts = [to_str(i, y, True) for y in c if not isinstance(y, Star)]
                if len(parts) == len(c) and all(isinstance(p, str) for p in parts):
                    return "[" + ", ".join(parts) + "]"
        if o.kind in ("set", "dict"):
            c = i.content(x)
            if isinstance(c, DictC):
                if o.kind == "set":
                    parts = [to_str(i, k, True) for k, _ in c.d.values()]
                    if all(isinstance(p, str) for p in parts):
                        return "{" + ", ".join(parts) + "}" if parts else "set()"
        if o.kind == "inst" and not rep:
            m = i.find_attr(o.cls, "__str__") or i.find_attr(o.cls, "__repr__")
            if m is not None:
                return i.call(i.bind(m, x, o.cls), [], {})
        if o.kind == "class":
            return f"<class '{o.data.get('__module__')}.{o.name}'>"
        return Opq("str", freeze(i, x))
    if isinstance(x, Ext):
        return f"<{x.path}>"
    return Opq("str", freeze(i, x))


# --------------------------------------------------------------------------------------
# arrays from sequences
def to_array(i, v):
    """np.array / np.asarray of a value."""
    v = i.prune(v)
    if isinstance(v, Gate):
        return i.each_leaf(v, lambda x: to_array(i, x))
    if isinstance(v, Num):
        return v.with_(kind="array") if v.kind != "array" else v
    if isinstance(v, (bool, int)):
        return Num(sp.Integer(int(v)), "array")
    if isinstance(v, (Arr, BoolEl)):
        return v
    if isinstance(v, Opq):
        return Num(opq_symbol(i, v), "array", as_num(i, v).shape)
    if v is None or isinstance(v, str):
        return Arr((v,)) if False else Opq("array", v)
    if isinstance(v, (tuple, range)) or isinstance(v, Ref):
        if isinstance(v, Ref) and i.st.get(v).kind in ("inst", "class", "dict", "set",
                                                       "module"):
            return Opq("objarray", v)
        items = i.iterate(v)

        def f(items):
            if any(isinstance(x, Star) for x in items):
                return Opq("array", freeze(i, items))
            conv = []
            for x in items:
                if isinstance(x, str) or x is None:
                    conv.append(x)
                elif isinstance(x, Ref) and i.st.get(x).kind == "inst":
                    conv.append(x)
                elif isinstance(x, (Func, Native, Lam, Ext, Bound)):
                    conv.append(x)
                else:
                    conv.append(to_array(i, x) if not isinstance(x, Num)
                                or x.kind != "sym" else x)
            shapes = {val_shape(x) for x in conv}
            if len(shapes) > 1:
                i.event("ragged", tuple(sorted(map(str, shapes))))
            return Arr(conv)
        return lift(f, items)
    if isinstance(v, (Func, Native, Lam, Ext, Bound, Cached, Partial)):
        return Opq("objarray", v)
    raise _inc(f"array of {v!r} at {i.where()}")


# --------------------------------------------------------------------------------------
# attributes
def getattr_(i, obj, name, default=_b):
    if isinstance(obj, Ext):
        return ext_getattr(i, obj, name, default)
    if isinstance(obj, Opq):
        if obj.op == "shape" and name in ("__len__", "count", "index"):
            return Native(name, lambda i, a, k: Opq(name, obj))
        return Opq("attr", obj, name)
    if isinstance(obj, (Func, Bound, Cached, Partial, CtxFactory, Native, Lam)):
        return func_attr(i, obj, name, default)
    if isinstance(obj, Prop):
        if name in ("fget", "fset", "fdel"):
            return getattr(obj, name)
        if name in ("setter", "getter", "deleter"):
            def mk_(i, a, k):
                p = Prop(obj.fget, obj.fset, obj.fdel)
                setattr(p, {"setter": "fset", "getter": "fget", "deleter": "fdel"}[name],
                        a[0])
                return p
            return Native(name, mk_)
        if name == "__doc__":
            return func_attr(i, obj.fget, name, default)
        return i.noattr(obj, name, default)
    if isinstance(obj, CachedProp):
        return i.getattr(obj.func, name, default)
    if isinstance(obj, SuperObj):
        return super_attr(i, obj, name, default)
    if isinstance(obj, (Num, Arr, BoolEl)):
        return _np.array_attr(i, obj, name, default)
    if isinstance(obj, Exc):
        if name == "args":
            return obj.args
        if name in ("with_traceback", "add_note"):
            return Native(name, lambda i, a, k: obj)
        if name == "__class__":
            return obj.cls
        if name == "__cause__":
            return obj.cause
        if name == "name":
            return obj.args[0] if obj.args else None
        return Opq("attr", Opq("exc", obj), name)
    if isinstance(obj, (StaticM, ClassM)):
        return i.getattr(obj.func, name, default)
    # builtin objects: str, int, tuple, None, containers, views
    if isinstance(obj, Ref):
        k = i.st.get(obj).kind
        if k in ("list", "dict", "set", "iter"):
            return method_attr(i, obj, name, default)
    if isinstance(obj, NT):
        return _nt_attr(i, obj, name, default)
    if isinstance(obj, (str, tuple, int, bool, slice, range, DictView)) or obj is None:
        return method_attr(i, obj, name, default)
    if isinstance(obj, CtxObj) and name in ("__enter__", "__exit__"):
        raise _inc(f"explicit use of a context manager at {i.where()}")
    if isinstance(obj, CtxObj):
        return Native(name, lambda i, a, k: Opq("ctx", name))
    raise _inc(f"attribute {name} of {obj!r} at {i.where()}")


_METHODS = {
    "str": set(dir(str)), "tuple": set(dir(tuple)), "int": set(dir(int)),
    "list": set(dir(list)), "dict": set(dir(dict)), "set": set(dir(set)),
    "iter": {"__next__", "__iter__", "send", "close"}, "NoneType": set(dir(None)),
    "slice": {"start", "stop", "step"}, "range": set(dir(range)),
    "bool": set(dir(bool)), "DictView": set(dir(dict)),
}


def method_attr(i, obj, name, default):
    t = i.st.get(obj).kind if isinstance(obj, Ref) else type(obj).__name__
    if isinstance(obj, bool):
        t = "bool"
    if name == "__class__":
        return Ext("builtins." + t)
    if t == "dict" and isinstance(i.st.get(obj).extra, tuple):
        x = i.st.get(obj).extra
        if name == "move_to_end" and x[0] == "ordered":
            return Native(name, lambda i, a, k: call_method(i, obj, name, a, k))
        if name == "default_factory" and x[0] == "default":
            return x[1]
    if name not in _METHODS.get(t, ()):
        return i.noattr(obj, name, default)
    if isinstance(obj, (slice, range)) and name in ("start", "stop", "step"):
        return getattr(obj, name)
    if isinstance(obj, int) and name in ("real", "imag", "numerator", "denominator"):
        return getattr(obj, name)
    if name == "__doc__":
        return None
    return Native(f"{t}.{name}", lambda i, a, k: call_method(i, obj, name, a, k))


def func_attr(i, obj, name, default):
    f = obj
    if isinstance(obj, Bound):
        if name == "__self__":
            return obj.self
        if name == "__func__":
            return obj.func
        return func_attr(i, obj.func, name, default)
    if isinstance(obj, Cached):
        if name == "cache_clear":
            def clear(i, a, k):
                i.event("cache-clear", obj)
                i.st.mut(obj.ref).data = {}
            return Native("cache_clear", clear)
        if name == "cache_info":
            return Native("cache_info", lambda i, a, k: Opq("cache_info", obj.name))
        if name == "__wrapped__":
            return obj.func
        return func_attr(i, obj.func, name, default)
    if isinstance(obj, Partial):
        if name in ("func", "args"):
            return getattr(obj, name)
        if name == "keywords":
            return i.new_dict(list(obj.kwargs))
        if name == "__doc__":
            return func_attr(i, obj.func, name, default)
        return Opq("attr", Opq("partial", obj), name)
    if isinstance(obj, CtxFactory):
        return func_attr(i, obj.func, name, default)
    if isinstance(f, Func):
        if name in f.attrs:
            return f.attrs[name]
        if name == "__doc__":
            import ast
            if isinstance(f.node, ast.Lambda):
                return None
            return ast.get_docstring(f.node)
        if name == "__name__":
            return f.name
        if name == "__qualname__":
            return f.qualname
        if name == "__module__":
            return f.module
        if name == "__dict__":
            return i.new_dict(list(f.attrs.items()))
        if name in ("__code__", "__annotations__", "__defaults__", "__signature__"):
            return Opq("attr", Opq("func", f), name)
        if name == "__get__":
            return Native("__get__", lambda i, a, k: Bound(f, a[0]))
        if name == "__call__":
            return f
        return i.noattr(obj, name, default)
    if isinstance(obj, (Native, Lam)):
        if name == "__doc__":
            return None
        if name == "__name__":
            return getattr(obj, "name", "lambdified")
        if default is not _b:
            return default
        return Opq("attr", Opq("func", obj), name)
    return i.noattr(obj, name, default)


def super_attr(i, sup, name, default):
    obj = sup.obj
    o = i.st.get(obj)
    cls = obj if o.kind == "class" else o.cls
    mro = list(i.mro(cls))
    for c in mro[mro.index(sup.cls) + 1:]:
        if isinstance(c, Ref):
            d = i.st.get(c).data
            if name in d and d[name] is not UNDEF:
                v = d[name]
                if isinstance(v, Prop):
                    return i.call(v.fget, [obj], {})
                if isinstance(v, CachedProp):
                    return i.call(v.func, [obj], {})
                return i.bind(v, obj, cls)
        elif isinstance(c, Ext) and c.path not in ("builtins.object", "abc.ABC"):
            return ext_inst_attr(i, obj, c, name, default)
    if name == "__init__":
        return Native("object.__init__", lambda i, a, k: None)
    if name == "__setattr__":
        return Native(name, lambda i, a, k: i.set_raw(obj, a[0], a[1]))
    if name == "__getattribute__":
        return Native(name, lambda i, a, k: i.getattr(obj, a[0]))
    if name == "__new__":
        return Native("object.__new__", lambda i, a, k: i.st.new("inst", {}, cls=a[0]))
    if name == "__getstate__":
        return Native(name, lambda i, a, k: i.new_dict(
            list(i.st.get(obj).data.items())))
    if name in ("__init_subclass__", "__del__", "__enter__", "__exit__"):
        return Native(name, lambda i, a, k: None)
    return i.noattr(obj, name, default)


def ext_inst_attr(i, ref, c, name, default):
    """Attribute of an instance of a class with an external base class."""
    if name == "__init__":
        return Native("ext.__init__", lambda i, a, k: init_ext_base(i, ref, c, a, k))
    if name == "__setattr__":
        return Native(name, lambda i, a, k: i.set_raw(ref, a[0], a[1]))
    base = c.path
    if base in ("builtins.dict", "collections.OrderedDict"):
        if name in _METHODS["dict"]:
            d = i.st.get(ref).data.get("$dict")
            if d is None:
                d = i.new_dict()
                i.st.mut(ref).data["$dict"] = d
            return Native(name, lambda i, a, k: call_method(i, d, name, a, k))
    if default is not _b:
        return default
    if name.startswith("__") and name.endswith("__"):
        i.raise_("AttributeError", name)
    return Opq("attr", ref, name)


def init_ext_base(i, obj, base, args, kwargs):
    i.event("ext-init", obj, base, tuple(freeze(i, a) for a in args))
    return obj


# --------------------------------------------------------------------------------------
# methods of builtin objects
def dictc_set(i, d, key, v):
    new = dict(d.d)
    hk = i.hkey(key)
    new[hk] = (new[hk][0] if hk in new else key, v)
    return DictC(new)


def update_dict(i, ref, f):
    """Functional update of the (possibly gated) content of a dict/set/list."""
    old = i.prune(i.st.get(ref).data)
    new = lift(f, old)
    i.st.mut(ref).data = new
    i.event("mutate", ref, "update")


def pairs_of(i, v):
    """(key, value) pairs of a mapping or an iterable of pairs."""
    v = i.prune(v)
    if isinstance(v, DictView):
        return [(k, x) for k, x in i.st.get(v.ref).data.items() if x is not UNDEF]
    if isinstance(v, Ref) and i.st.get(v).kind == "dict":
        c = i.content(v)
        if isinstance(c, Gate):
            keys = []
            for _, d in leaves(c):
                for hk, (k, _) in d.d.items():
                    if (hk, k) not in keys:
                        keys.append((hk, k))
            res = []
            for hk, k in keys:
                x = lift(lambda d: d.d[hk][1] if hk in d.d else UNDEF, c)
                res.append((k, x))
            return res
        return list(c.d.values())
    items = i.iterate(v)
    if isinstance(items, Gate):
        raise _inc("gated pairs")
    res = []
    for x in items:
        if isinstance(x, Star):
            res.append(x)
            continue
        p = i.iterate(x)
        if len(p) != 2:
            i.raise_("ValueError", "dictionary update sequence element has wrong length")
        res.append((p[0], p[1]))
    return res


def call_method(i, obj, name, args, kw):
    obj = i.prune(obj)
    if isinstance(obj, Gate):
        return i.each_leaf(obj, lambda o: call_method(i, o, name, args, kw))
    args = [i.prune(a) for a in args]
    if isinstance(obj, Ref):
        k = i.st.get(obj).kind
        if k == "list":
            return list_method(i, obj, name, args, kw)
        if k == "dict":
            return dict_method(i, obj, name, args, kw)
        if k == "set":
            return set_method(i, obj, name, args, kw)
        if k == "iter":
            if name == "__next__":
                return bi_next(i, [obj], {})
            return obj
    if isinstance(obj, DictView):
        return view_method(i, obj, name, args, kw)
    if isinstance(obj, str):
        return str_method(i, obj, name, args, kw)
    if isinstance(obj, tuple):
        if name == "index":
            for n, x in enumerate(obj):
                r = value_eq(i, x, args[0])
                if r is True:
                    return n
                if r is not False:
                    return Opq("index", freeze(i, obj), args[0])
            i.raise_("ValueError", "not in tuple")
        if name == "count":
            return sum(1 for x in obj if value_eq(i, x, args[0]) is True)
        if name in ("__iter__",):
            return i.new_iter(obj)
        if name == "__len__":
            return len(obj)
        if name == "__getitem__":
            return getitem(i, obj, args[0])
    if isinstance(obj, int):
        if name in ("is_integer", "conjugate", "bit_length", "__int__", "__index__",
                    "__str__"):
            return getattr(obj, name)()
    if isinstance(obj, range):
        return call_method(i, tuple(obj), name, args, kw)
    raise _inc(f"method {name} of {obj!r} at {i.where()}")


def str_format(i, s, a, kw):
    """str.format, piece by piece; None when unknown."""
    import string
    parts, auto = [], 0
    try:
        pieces = list(string.Formatter().parse(s))
        for lit, field, spec, conv in pieces:
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if field == "":
                field, auto = str(auto), auto + 1
            if not field.isidentifier() and not field.isdigit() or "{" in (spec or ""):
                return Opq("fstr", s, *a, *kw.values())
            v = a[int(field)] if field.isdigit() else kw[field]
            if conv in ("r", "a"):
                v = to_str(i, v, True)
            elif conv == "s":
                v = to_str(i, v)
            parts.append(format_(i, v, spec or ""))
    except (ValueError, IndexError, KeyError) as e:
        return Marker(type(e).__name__, str(e))
    if any(isinstance(p, Marker) for p in parts):
        return [p for p in parts if isinstance(p, Marker)][0]
    if any(isinstance(p, Gate) for p in parts):
        return lift(lambda *q: i._join(*q), *parts)
    return i._join(*parts)


def str_method(i, s, name, args, kw):
    def f(*a):
        if name == "format":
            return str_format(i, s, a, kw)
        if name == "join":
            items = a[0]
            if all(isinstance(x, str) for x in items):
                return s.join(items)
            if any(not isinstance(x, (str, Opq, Star)) for x in items):
                return Marker("TypeError", "expected str instance")
            parts = []
            for n, x in enumerate(items):
                if n:
                    parts.append(s)
                parts.append(x)
            return Opq("fstr", *parts)
        if name == "maketrans":
            if all(isinstance(x, str) for x in a) and len(a) > 1:
                t = str.maketrans(*a)
                return ("$dict", tuple(t.items()))
            return Opq("strmethod", s, name, *a)
        if name == "translate" and len(a) == 1 and isinstance(a[0], DictC):
            t = {k: v for k, v in a[0].d.values()}
            if all(isinstance(k, int) for k in t) and all(
                    v is None or isinstance(v, (int, str)) for v in t.values()):
                return s.translate(t)
        if all(isinstance(x, (str, int, tuple)) or x is None for x in a):
            try:
                r = getattr(s, name)(*a, **kw)
            except (TypeError, ValueError) as ex:
                return Marker(type(ex).__name__, str(ex))
            if isinstance(r, list):
                return ("$list", tuple(r))
            return r
        return Opq("strmethod", s, name, *a)
    if name == "join":
        args = [i.iterate(args[0])]
    if name == "translate" and isinstance(args[0], Ref):
        args = [i.content(args[0])]
    r = pure(i, f, *args)
    if isinstance(r, tuple) and len(r) == 2 and r[0] == "$list":
        return i.new_list(r[1])
    if isinstance(r, tuple) and len(r) == 2 and r[0] == "$dict":
        return i.new_dict(r[1])
    return r


def list_method(i, obj, name, args, kw):
    if name == "append":
        v = args[0]
        update_dict(i, obj, lambda t: t + (v,))
        return None
    if name == "extend":
        items = i.iterate(args[0])
        old = i.prune(i.st.get(obj).data)
        i.st.mut(obj).data = lift(lambda t, x: t + x, old, items)
        i.event("mutate", obj, "extend")
        return None
    if name == "insert":
        n, v = args
        update_dict(i, obj, lambda t: t[:n] + (v,) + t[n:])
        return None
    if name == "copy":
        return i.st.new("list", i.prune(i.st.get(obj).data))
    if name == "clear":
        update_dict(i, obj, lambda t: ())
        return None
    if name == "reverse":
        update_dict(i, obj, lambda t: t[::-1])
        return None
    if name == "sort":
        r = bi_sorted(i, [obj], kw)
        i.st.mut(obj).data = i.st.get(r).data
        i.event("mutate", obj, "sort")
        return None
    c = i.content(obj)
    if isinstance(c, Gate):
        return i.each_leaf(c, lambda t: _list_read(i, obj, t, name, args))
    return _list_read(i, obj, c, name, args)


def _list_read(i, obj, c, name, args):
    if name == "pop":
        n = args[0] if args else -1
        if not c:
            i.raise_("IndexError", "pop from empty list")
        v = c[n]
        t = list(c)
        del t[n]
        i.st.mut(obj).data = tuple(t)
        i.event("mutate", obj, "pop")
        return v
    if name == "remove":
        for n, x in enumerate(c):
            if value_eq(i, x, args[0]) is True:
                t = list(c)
                del t[n]
                i.st.mut(obj).data = tuple(t)
                i.event("mutate", obj, "remove")
                return None
        i.raise_("ValueError", "not in list")
    if name in ("index", "count"):
        return call_method(i, c, name, args, {})
    if name == "__len__":
        return len(c)
    if name == "__iter__":
        return i.new_iter(c)
    if name == "__getitem__":
        return getitem(i, obj, args[0])
    raise _inc(f"list method {name}")


def dict_method(i, obj, name, args, kw):
    if name == "update":
        for a in args:
            for p in pairs_of(i, a):
                if isinstance(p, Star):
                    key = ("star", p.value)
                    update_dict(i, obj, lambda d: DictC({**d.d, key: (
                        Opq("keysof", p.value), Opq("valuesof", p.value))}))
                    continue
                k, v = p
                if isinstance(v, Gate) and any(x is UNDEF for _, x in leaves(v)):
                    und = lift(lambda x: x is UNDEF, v)
                    old = i.prune(i.st.get(obj).data)
                    new = lift(lambda d, x: d if x is UNDEF
                               else dictc_set(i, d, k, x), old, v)
                    i.st.mut(obj).data = new
                    continue
                update_dict(i, obj, lambda d: dictc_set(i, d, k, v))
        for k, v in kw.items():
            update_dict(i, obj, lambda d: dictc_set(i, d, k, v))
        return None
    if name == "setdefault":
        k = args[0]
        v = args[1] if len(args) > 1 else None
        has = contains(i, obj, k)

        def setit():
            setitem(i, obj, k, v)
            return v
        return i.branch(has, lambda: getitem(i, obj, k), setit)
    if name == "get":
        k = args[0]
        dflt = args[1] if len(args) > 1 else kw.get("default")
        has = contains(i, obj, k)
        return i.branch(has, lambda: getitem(i, obj, k), lambda: dflt)
    if name == "pop":
        k = args[0]
        has = contains(i, obj, k)

        def doit():
            v = getitem(i, obj, k)
            delitem(i, obj, k)
            return v

        def other():
            if len(args) > 1:
                return args[1]
            i.raise_("KeyError", k)
        return i.branch(has, doit, other)
    if name == "move_to_end":
        hk = i.hkey(args[0])
        if contains(i, obj, args[0]) is not True:
            raise _inc("move_to_end")
        last = k if (k := kw.get("last", args[1] if len(args) > 1 else True)) else False
        update_dict(i, obj, lambda d: DictC(
            {**{q: x for q, x in d.d.items() if q != hk}, hk: d.d[hk]} if last else
            {hk: d.d[hk], **{q: x for q, x in d.d.items() if q != hk}}))
        return None
    if name == "popitem":
        c = i.content(obj)
        if isinstance(c, Gate):
            raise _inc("popitem")
        if isinstance(c, DictC) and c.d:
            last = args[0] if args else kw.get("last", True)
            hk = list(c.d)[-1 if last else 0]
            k, v = c.d[hk]
            i.st.mut(obj).data = DictC({q: x for q, x in c.d.items() if q != hk})
            return (k, v)
        i.raise_("KeyError", "popitem")
    if name == "copy":
        return i.st.new("dict", i.prune(i.st.get(obj).data), extra=i.st.get(obj).extra)
    if name == "clear":
        update_dict(i, obj, lambda d: DictC({}))
        return None
    if name == "fromkeys":
        return i.new_dict([(k, args[1] if len(args) > 1 else None)
                           for k in i.iterate(args[0])])
    c = i.content(obj)
    if name in ("keys", "values", "items", "__iter__"):
        def f(d):
            if name in ("keys", "__iter__"):
                return tuple(k for k, _ in d.d.values())
            if name == "values":
                return tuple(v for _, v in d.d.values())
            return tuple((k, v) for k, v in d.d.values())
        if name == "__iter__":
            t = lift(f, c)
            return i.st.new("list", t) if isinstance(t, Gate) else i.new_iter(t)
        return i.st.new("list", lift(f, c), extra=("view", obj, name))
    if name == "__contains__":
        return contains(i, obj, args[0])
    if name == "__len__":
        return lift(lambda d: len(d.d), c)
    if name == "__getitem__":
        return getitem(i, obj, args[0])
    if name == "__setitem__":
        return setitem(i, obj, args[0], args[1])
    raise _inc(f"dict method {name}")


def view_method(i, view, name, args, kw):
    ref = view.ref
    d = i.st.get(ref).data
    live = [(k, v) for k, v in d.items() if v is not UNDEF]
    if name == "copy":
        return i.new_dict(live)
    if name == "update":
        for a in args:
            for k, v in pairs_of(i, a):
                i.set_raw(ref, k, v)
        for k, v in kw.items():
            i.set_raw(ref, k, v)
        return None
    if name in ("keys", "__iter__"):
        return i.new_list([k for k, _ in live])
    if name == "values":
        return i.new_list([v for _, v in live])
    if name == "items":
        return i.new_list(live)
    if name == "get":
        return d.get(args[0], args[1] if len(args) > 1 else None)
    if name == "pop":
        if args[0] in d:
            v = d[args[0]]
            i.delattr(ref, args[0])
            return v
        if len(args) > 1:
            return args[1]
        i.raise_("KeyError", args[0])
    if name == "setdefault":
        if args[0] not in d:
            i.set_raw(ref, args[0], args[1])
        return i.st.get(ref).data[args[0]]
    if name == "clear":
        i.st.mut(ref).data = {}
        return None
    raise _inc(f"__dict__ method {name}")


def set_method(i, obj, name, args, kw):
    if name == "add":
        v = args[0]
        update_dict(i, obj, lambda d: DictC({**d.d, i.hkey(v): d.d.get(
            i.hkey(v), (v, None))}))
        return None
    if name in ("discard", "remove"):
        hk = i.hkey(args[0])
        if name == "remove" and contains(i, obj, args[0]) is False:
            i.raise_("KeyError", args[0])
        update_dict(i, obj, lambda d: DictC({k: x for k, x in d.d.items() if k != hk}))
        return None
    if name == "clear":
        update_dict(i, obj, lambda d: DictC({}))
        return None
    if name == "copy":
        return i.st.new("set", i.prune(i.st.get(obj).data))
    if name == "pop":
        c = i.content(obj)
        if isinstance(c, Gate):
            return i.each_leaf(c, lambda d: _set_pop(i, obj, d))
        return _set_pop(i, obj, c)
    others = []
    for a in args:
        items = i.iterate(a)
        others.append(lift(lambda t: DictC({i.hkey(x): (x, None) for x in t}), items))
    c = i.content(obj)

    def star(d):
        return any(isinstance(k, tuple) and k[0] == "val" and isinstance(k[1], Star)
                   for k in d.d)

    def comb(d, *os):
        r = dict(d.d)
        for o in os:
            if name in ("union", "update"):
                r = {**r, **{k: v for k, v in o.d.items() if k not in r}}
            elif name in ("intersection", "intersection_update"):
                r = {k: v for k, v in r.items() if k in o.d}
            elif name in ("difference", "difference_update"):
                r = {k: v for k, v in r.items() if k not in o.d}
            elif name == "symmetric_difference":
                r = {**{k: v for k, v in r.items() if k not in o.d},
                     **{k: v for k, v in o.d.items() if k not in r}}
        return DictC(r)
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        return i.st.new("set", lift(comb, c, *others))
    if name in ("update", "intersection_update", "difference_update"):
        i.st.mut(obj).data = lift(comb, c, *others)
        i.event("mutate", obj, name)
        return None
    if name in ("issubset", "issuperset", "isdisjoint"):
        def rel(d, o):
            p, q = set(d.d), set(o.d)
            return {"issubset": p <= q, "issuperset": p >= q,
                    "isdisjoint": not p & q}[name]
        return lift(rel, c, others[0])
    if name == "__contains__":
        return contains(i, obj, args[0])
    if name == "__len__":
        return lift(lambda d: len(d.d), c)
    raise _inc(f"set method {name}")


def _set_pop(i, obj, d):
    if not d.d:
        i.raise_("KeyError", "pop from an empty set")
    hk = next(iter(d.d))
    v = d.d[hk][0]
    i.st.mut(obj).data = DictC({k: x for k, x in d.d.items() if k != hk})
    i.event("mutate", obj, "pop")
    if isinstance(v, Star):
        return Opq("elem", v.value)
    return v


# --------------------------------------------------------------------------------------
# items
def _idx(k):
    if isinstance(k, Num) and k.expr.is_Integer:
        return int(k.expr)
    return k


def getitem(i, obj, key):
    obj, key = i.prune(obj), i.prune(key)
    if isinstance(obj, Gate):
        return i.each_leaf(obj, lambda o: getitem(i, o, key))
    if isinstance(key, Gate):
        return i.each_leaf(key, lambda k: getitem(i, obj, k))
    if isinstance(obj, Ref):
        o = i.st.get(obj)
        if o.kind == "dict":
            if isinstance(o.extra, tuple) and o.extra[:1] == ("default",):
                has = contains(i, obj, key)
                if isinstance(has, Gate):
                    return i.each_leaf(has, lambda x: getitem(i, obj, key))
                if has is False:
                    v = i.call(o.extra[1], [], {})
                    setitem(i, obj, key, v)
                    return v
            c = i.content(obj)

            def look(d):
                hk = i.hkey(key)
                if hk in d.d:
                    return d.d[hk][1]
                if any(isinstance(k, tuple) and k and k[0] == "star" for k in d.d):
                    return Opq("item", freeze(i, obj), key)
                return Marker("KeyError", key if isinstance(key, str) else str(key))
            v = pure(i, look, c)
            if isinstance(v, Gate) and any(x is UNDEF for _, x in leaves(v)):
                i.raise_if(lift(lambda x: x is UNDEF, v), "KeyError", key)
                v = i.prune(v)
            return v
        if o.kind == "list":
            if isinstance(o.extra, tuple) and o.extra[0] == "view":
                i.raise_("TypeError", "dictionary view is not subscriptable")
            c = i.content(obj)
            return pure(i, lambda t: seq_item(i, t, key, "list"), c) if not isinstance(
                key, slice) else _list_slice(i, c, key)
        if o.kind == "inst":
            m = i.find_attr(o.cls, "__getitem__")
            if m is not None:
                return i.call(i.bind(m, obj, o.cls), [key], {})
            d = o.data.get("$dict")
            if d is not None:
                return getitem(i, d, key)
            i.raise_("TypeError", "object is not subscriptable")
        if o.kind == "class":
            mem = i.find_attr(obj, "$members")
            if mem is not None:
                for x in mem:
                    if i.st.get(x).data["name"] == key:
                        return x
                i.raise_("KeyError", key)
            return obj
        if o.kind == "set":
            i.raise_("TypeError", "'set' object is not subscriptable")
    if isinstance(obj, (str, tuple, range)):
        r = pure(i, lambda k: seq_item(i, obj, k, "tuple"), key) if not isinstance(
            key, slice) else seq_item(i, obj, key, "tuple")
        return pure(i, lambda x: x, r)
    if isinstance(obj, (Num, Arr, BoolEl)):
        return pure(i, lambda x: x, _np.array_getitem(i, obj, key))
    if isinstance(obj, Opq):
        return Opq("item", obj, freeze(i, key))
    if isinstance(obj, Ext):
        return obj
    if isinstance(obj, DictView):
        d = i.st.get(obj.ref).data
        if isinstance(key, str):
            if key not in d:
                i.raise_("KeyError", key)
            return d[key]
    if obj is None or isinstance(obj, (int, Func, Native)):
        i.raise_("TypeError", "object is not subscriptable")
    if isinstance(obj, Exc):
        i.raise_("TypeError", "exception is not subscriptable")
    raise _inc(f"item {key!r} of {obj!r} at {i.where()}")


def _slice(i, k):
    return slice(*(None if x is None else _idx(x) for x in (k.start, k.stop, k.step)))


def _list_slice(i, c, key):
    k = _slice(i, key)
    return i.st.new("list", lift(lambda t: t[k], c))


def seq_item(i, t, key, what):
    if isinstance(key, slice):
        k = _slice(i, key)
        if any(isinstance(x, (Opq, Num)) for x in (k.start, k.stop, k.step)):
            return Opq("item", t, Opq("slice", k.start, k.stop, k.step))
        return t[k]
    key = _idx(key)
    if isinstance(t, tuple) and any(isinstance(x, Star) for x in t):
        if isinstance(key, int) and 0 <= key < len(t) and not any(
                isinstance(x, Star) for x in t[:key + 1]):
            return t[key]
        if key == -1 and not isinstance(t[-1], Star):
            return t[-1]
        return Opq("item", freeze(i, t), key)
    if isinstance(key, int):
        if -len(t) <= key < len(t):
            return t[key]
        return Marker("IndexError", f"{what} index out of range")
    if isinstance(key, Opq):
        return Opq("item", freeze(i, t), key)
    return Marker("TypeError", f"{what} indices must be integers")


def setitem(i, obj, key, v):
    obj, key = i.prune(obj), i.prune(key)
    if isinstance(obj, Gate):
        return i.each_leaf(obj, lambda o: setitem(i, o, key, v))
    if isinstance(key, Gate):
        return i.each_leaf(key, lambda k: setitem(i, obj, k, v))
    if isinstance(obj, Ref):
        o = i.st.get(obj)
        if o.kind == "dict":
            update_dict(i, obj, lambda d: dictc_set(i, d, key, v))
            return None
        if o.kind == "list":
            k = _idx(key)
            if isinstance(k, slice):
                k = _slice(i, k)
                items = i.iterate(v)

                def f(t):
                    x = list(t)
                    x[k] = items
                    return tuple(x)
                update_dict(i, obj, f)
                return None

            def g(t):
                if not isinstance(k, int) or not -len(t) <= k < len(t):
                    return Marker("IndexError", "assignment index out of range")
                n = k % len(t)
                return t[:n] + (v,) + t[n + 1:]
            new = pure(i, g, i.prune(o.data))
            i.st.mut(obj).data = new
            i.event("mutate", obj, "setitem")
            return None
        if o.kind == "inst":
            m = i.find_attr(o.cls, "__setitem__")
            if m is not None:
                i.call(i.bind(m, obj, o.cls), [key, v], {})
                return None
            d = o.data.get("$dict")
            if d is not None:
                return setitem(i, d, key, v)
        if o.kind == "set":
            i.raise_("TypeError", "'set' object does not support item assignment")
    if isinstance(obj, DictView):
        i.set_raw(obj.ref, key, v)
        return None
    if isinstance(obj, (Num, Arr)):
        new = _np.array_setitem(i, obj, key, v)
        i.mutated(obj, "item assignment")
        replace_identity(i, obj, new)
        return new
    if isinstance(obj, (Opq, Ext)):
        i.event("setitem-ext", obj, freeze(i, key), freeze(i, v))
        return None
    if isinstance(obj, (tuple, str)) or obj is None:
        i.raise_("TypeError", "object does not support item assignment")
    raise _inc(f"item assignment to {obj!r}")


def replace_identity(i, old, new):
    """In-place modification: all references to the same object see the new value."""
    views = i.__dict__.setdefault("array_views", [])
    more = []
    if isinstance(old, Arr) and isinstance(new, Arr) and len(old.items) == len(
            new.items):
        for view, base, key in list(views):
            if view is old and base is not None:
                items = list(base.items)
                items[key] = new.items
                nb = Arr(items)
                views.append((new, nb, key))
                more.append((base, nb))
            elif base is old:
                nv = Arr(new.items[key])
                views.append((nv, new, key))
                more.append((view, nv))
    _replace(i, old, new)
    for a, b in more:
        _replace(i, a, b)


def _replace(i, old, new):
    def rep(v):
        if v is old:
            return new
        if isinstance(v, Gate):
            hi, lo = rep(v.hi), rep(v.lo)
            if hi is not v.hi or lo is not v.lo:
                return mk(v.atom, hi, lo)
            return v
        if isinstance(v, tuple):
            t = tuple(rep(x) for x in v)
            if isinstance(v, NT):
                t = NT(t, v.cls)
            return t if any(a is not b for a, b in zip(t, v)) else v
        if isinstance(v, Arr):
            t = tuple(rep(x) for x in v.items)
            return Arr(t) if any(a is not b for a, b in zip(t, v.items)) else v
        if isinstance(v, DictC):
            d = {k: (a, rep(b)) for k, (a, b) in v.d.items()}
            return DictC(d) if any(d[k][1] is not v.d[k][1] for k in d) else v
        return v
    for n, o in list(i.st.heap.items()):
        if isinstance(o.data, dict):
            ch = {k: rep(v) for k, v in o.data.items()}
            if any(ch[k] is not o.data[k] for k in ch):
                i.st.mut(Ref(n)).data.update(ch)
        else:
            d = rep(o.data)
            if d is not o.data:
                i.st.mut(Ref(n)).data = d


def delitem(i, obj, key):
    obj, key = i.prune(obj), i.prune(key)
    if isinstance(obj, Gate):
        return i.each_leaf(obj, lambda o: delitem(i, o, key))
    if isinstance(obj, Ref):
        o = i.st.get(obj)
        if o.kind == "dict":
            has = contains(i, obj, key)
            i.raise_if(t_not(has), "KeyError", key)
            hk = i.hkey(key)
            update_dict(i, obj, lambda d: DictC({k: x for k, x in d.d.items()
                                                 if k != hk}))
            return
        if o.kind == "list":
            k = _slice(i, key) if isinstance(key, slice) else _idx(key)

            def f(t):
                x = list(t)
                if isinstance(k, int) and not -len(x) <= k < len(x):
                    return Marker("IndexError", "assignment index out of range")
                if not isinstance(k, (int, slice)):
                    raise _inc(f"del item at {i.where()}")
                del x[k]
                return tuple(x)
            new = pure(i, f, i.content(obj))
            i.st.mut(obj).data = new
            i.event("mutate", obj, "delitem")
            return
    if isinstance(obj, DictView):
        return i.delattr(obj.ref, key)
    if isinstance(obj, (Opq, Ext)):
        i.event("delitem-ext", obj, freeze(i, key))
        return
    raise _inc(f"del item of {obj!r}")


# --------------------------------------------------------------------------------------
# isinstance
def isinstance_(i, v, t):
    v, t = i.prune(v), i.prune(t)
    if isinstance(t, tuple):
        r = False
        for x in t:
            r = t_or(r, isinstance_(i, v, x))
        return r
    return lift(lambda x, ty: _isinst(i, x, ty), v, t)


_SYM_TYPES = {"Basic": sp.Basic, "Expr": sp.Expr, "Symbol": sp.Symbol, "Sum": sp.Sum,
              "Add": sp.Add, "Mul": sp.Mul, "Pow": sp.Pow, "Number": sp.Number,
              "Piecewise": sp.Piecewise, "Float": sp.Float, "Integer": sp.Integer,
              "Rational": sp.Rational, "Function": sp.Function}


def _isinst(i, x, t):
    if isinstance(t, Ref):
        if isinstance(x, Ref):
            o = i.st.get(x)
            if o.kind == "inst":
                return t in i.mro(o.cls)
            return False
        if isinstance(x, NT):
            return t in i.mro(x.cls)
        if isinstance(x, Exc):
            return isinstance(x.cls, Ref) and t in i.mro(x.cls)
        return False
    if isinstance(t, Opq):
        return i.atom("isinstance", freeze(i, x), t)
    if not isinstance(t, Ext):
        return False
    p = t.path
    n = p.split(".")[-1]
    if p == "builtins.object":
        return True
    if isinstance(x, Opq):
        if x.op in ("fstr", "str"):
            return n == "str"
        if x.op == "shape":
            return n in ("tuple", "Sequence", "Iterable")
        if x.op == "array":
            return n == "ndarray"
        return i.atom("isinstance", x, t)
    if isinstance(x, Exc):
        return i.exc_matches(x, t)
    if isinstance(x, Ref):
        o = i.st.get(x)
        if o.kind == "inst":
            return any(isinstance(c, Ext) and (c.path == p or c.path.split(".")[-1] == n)
                       for c in i.mro(o.cls))
        if o.kind == "class":
            return n in ("type", "ABCMeta", "Callable", "Hashable")
        table = {"list": ("list", "Sequence", "MutableSequence", "Iterable", "Sized",
                          "Collection"),
                 "dict": ("dict", "Mapping", "MutableMapping", "Iterable", "Sized",
                          "Collection"),
                 "set": ("set", "Set", "MutableSet", "Iterable", "Sized", "Collection"),
                 "iter": ("Iterator", "Iterable", "Generator", "GeneratorType"),
                 "module": ("ModuleType",)}
        if o.kind == "list" and isinstance(o.extra, tuple) and o.extra[0] == "view":
            return n in {"keys": ("KeysView", "Set"), "values": ("ValuesView",),
                         "items": ("ItemsView", "Set")}[o.extra[2]] + (
                "Iterable", "Sized", "Collection", "MappingView")
        return n in table.get(o.kind, ())
    if isinstance(x, bool):
        return p in ("builtins.bool", "builtins.int") or n in ("Number", "Real",
                                                               "Integral")
    if isinstance(x, int):
        return p == "builtins.int" or p.startswith("numbers.") and n in (
            "Number", "Real", "Integral", "Rational", "Complex")
    if isinstance(x, str):
        return n in ("str", "Sequence", "Iterable", "Hashable") and not p.startswith(
            "numpy")
    if x is None:
        return n == "NoneType"
    if isinstance(x, tuple):
        return n in ("tuple", "Sequence", "Iterable", "Hashable", "Sized", "Collection")
    if isinstance(x, Num):
        if x.kind == "sym":
            if p.startswith("sympy") or p.startswith("symengine"):
                c = _SYM_TYPES.get(n) or getattr(sp, n, None)
                return isinstance(c, type) and isinstance(x.expr, c)
            if p.startswith("numbers."):
                return x.expr.is_Number is True and n in ("Number",)
            return n in ("Hashable",)
        if x.kind == "array":
            return n in ("ndarray", "Iterable", "Sized", "Collection")
        if getattr(x.expr, "has", None) and x.expr.has(sp.I):   # a numpy complex number
            return p in ("builtins.complex", "numpy.number", "numpy.generic",
                         "numpy.inexact", "numpy.complexfloating", "numpy.complex128",
                         "numpy.cdouble") or p.startswith("numbers.") and n in (
                "Number", "Complex")
        return p in ("builtins.float",) or p.startswith("numbers.") and n in (
            "Number", "Real", "Complex") or p in ("numpy.floating", "numpy.number",
                                                  "numpy.float64", "numpy.generic"
                                                  ) and False
    if isinstance(x, (Arr, BoolEl)):
        return n in ("ndarray", "Iterable", "Sized", "Collection")
    if isinstance(x, (Func, Bound, Native, Cached, Lam, Partial)):
        return n in ("Callable", "FunctionType", "Hashable") or (
            n == "partial" and isinstance(x, Partial)) or (
            n == "MethodType" and isinstance(x, Bound))
    if isinstance(x, Prop):
        return n == "property"
    if isinstance(x, Ext):
        return n in ("type", "ModuleType", "Callable")
    return False


# --------------------------------------------------------------------------------------
# calls of external functions
NEVER_RAISE = ("logging", "timeit", "time", "warnings", "functools", "itertools",
               "operator", "builtins", "numpy", "math")


def root_of(v):
    while isinstance(v, Opq):
        if v.op in ("attr", "item", "enter", "elem") and v.args:
            v = v.args[0]
        elif v.op == "call":
            v = v.args[0]
        else:
            return None
    if isinstance(v, Ext):
        return v.path.split(".")[0]
    return None


def call_opaque(i, f, args, kwargs):
    fa = tuple(freeze(i, a) for a in args)
    fk = tuple((k, freeze(i, v)) for k, v in kwargs.items())
    i.event("ext-call", f, fa, fk)
    r = root_of(f)
    if i.trycount and r not in NEVER_RAISE:
        n = sum(1 for e in i.events if e[0] == "may-raise")
        i.event("may-raise", f)
        i.raise_if(i.atom("raises", f, fa, fk), "Exception", Opq("error", f))
    return Opq("call", f, fa, fk)


def call_lam(i, lam, args, kwargs):
    """Call of a compiled expression."""
    names = [str(v) for v in lam.vars]
    if names:
        i.event("engine-call", lam.backend)
    args = [i.prune(a) for a in args]
    vals = dict(zip(names, args))
    if len(args) > len(names):
        i.raise_("TypeError", "too many positional arguments for compiled function")
    if lam.backend == "symengine":
        if kwargs:
            i.raise_("TypeError", "symengine functions take positional arguments only")
        if len(args) != len(names):
            i.raise_("ValueError", "wrong number of arguments for compiled function")
    else:
        for k, v in kwargs.items():
            if k not in names:
                i.raise_("TypeError", f"unexpected keyword argument {k!r}")
            if k in vals:
                i.raise_("TypeError", f"multiple values for argument {k!r}")
            vals[k] = i.prune(v)
        missing = [n for n in names if n not in vals]
        if missing:
            i.raise_("TypeError", f"missing arguments {missing}")

    order = list(vals)

    def ev(*leafs):
        nums = {}
        for n, v in zip(order, leafs):
            x = v if isinstance(v, Num) else as_num(i, v)
            if isinstance(v, BoolEl):
                x = bool_num(v)
            if isinstance(v, Arr):
                # arrays with a known leading axis: evaluate each item
                ln = {len(q.items) for q in leafs if isinstance(q, Arr)}
                if len(ln) > 1:
                    return Marker("ValueError", "shape mismatch")
                L = ln.pop()
                cols = []
                for m in range(L):
                    cols.append(ev(*[q.items[m] if isinstance(q, Arr) else q
                                     for q in leafs]))
                if lam.islist:
                    return Arr(Arr(c.items[j] for c in cols)
                               for j in range(len(cols[0].items))) if lam.backend == (
                        "symengine") else tuple(
                        Arr(c[j] for c in cols) for j in range(len(cols[0])))
                return Arr(cols)
            if x is None:
                return Marker("TypeError", f"cannot evaluate with {n}={v!r}")
            nums[n] = x
        sub = {s: nums[str(s)].expr for s in lam.vars}
        allshape = shape_of(*nums.values()) if nums else EMPTY

        def one(b):
            free = b.free_symbols
            # symbols of client inputs (v_...) stand for numbers inside of the expression
            bad = [s for s in free if str(s) not in nums and not str(s).startswith("v_")]
            if bad:
                return Marker("NameError" if lam.backend == "sympy" else "RuntimeError",
                              f"undefined symbols {sorted(map(str, bad))}")
            used = [nums[str(s)] for s in free if str(s) in nums]
            e = b.xreplace(sub) if not _needs_subs(b) else b.subs(sub,
                                                                  simultaneous=True)
            u = EMPTY
            for kind, o in expr_undef(b):
                u = u | need(kind, o.xreplace(sub))
            u = u | undef_of(*used)
            kinds = {n.kind for n in (used if lam.backend == "sympy"
                                      else nums.values())}
            kind = "array" if "array" in kinds or lam.backend == "symengine" else (
                "sym" if "sym" in kinds else "float")
            shape = allshape if lam.backend == "symengine" else shape_of(*used)
            return Num(e, kind, shape, u)
        if lam.islist:
            r = tuple(one(b) for b in lam.body)
            for x in r:
                if isinstance(x, Marker):
                    return x
            return Arr(r) if lam.backend == "symengine" else r
        return one(lam.body[0])
    r = pure(i, ev, *[vals[n] for n in order])
    if lam.islist and lam.backend == "sympy":
        return lift(lambda t: t, r) if isinstance(r, Gate) else i.new_list(r)
    return r


def _needs_subs(b):
    return b.has(sp.Derivative, sp.Subs, sp.Integral)


_UNDEF_CACHE = {}


def expr_undef(e):
    """Definedness obligations of a symbolic expression evaluated numerically."""
    r = _UNDEF_CACHE.get(e)
    if r is not None:
        return r
    u = set()
    for x in sp.preorder_traversal(e):
        if x.is_Pow:
            b, p = x.base, x.exp
            if p.is_Integer:
                if p < 0:
                    u |= need("nonzero", b)
            elif p.is_Rational:
                u |= need("positive" if p < 0 else "nonneg", b)
        elif isinstance(x, sp.log):
            u |= need("positive", x.args[0])
    r = _UNDEF_CACHE[e] = frozenset(u)
    return r


def ext_getattr(i, m, name, default=_b):
    path = f"{m.path}.{name}"
    if path in PRELUDE_NAMES:
        return i.prelude(name)
    if path in i.overlay:
        return i.import_module(path)
    if m.path in ("numpy", "math", "scipy.constants", "cmath"):
        c = {"pi": sp.pi, "e": sp.E, "euler_gamma": sp.EulerGamma,
             "inf": sp.Symbol("inf"), "nan": sp.nan, "tau": 2 * sp.pi}.get(name)
        if c is not None:
            return Num(c, "float")
        if name == "newaxis":
            return None
    if m.path in ("numpy.finfo()", "sys.float_info"):
        two = sp.Integer(2)
        c = {"eps": two**-52, "epsneg": two**-53, "tiny": two**-1022,
             "smallest_normal": two**-1022, "smallest_subnormal": two**-1074,
             "max": (2 - two**-52) * two**1023, "min": -(2 - two**-52) * two**1023,
             "resolution": sp.Rational(1, 10**15)}.get(name)
        if m.path == "sys.float_info" and name == "min":
            c = two**-1022
        if name == "epsilon" and m.path == "sys.float_info":
            c = two**-52
        if c is not None:
            return Num(c, "float")
    if m.path in ("sympy", "sympy.S", "symengine"):
        c = {"pi": sp.pi, "E": sp.E, "I": sp.I, "oo": sp.oo, "S": None,
             "true": sp.true, "false": sp.false, "Half": sp.S.Half, "One": sp.S.One,
             "Zero": sp.S.Zero, "Pi": sp.pi}.get(name)
        if c is not None:
            return Num(c, "sym")
    if m.path.startswith("builtins."):
        t = m.path[9:]
        if name in ("__name__", "__qualname__"):
            return t
        if name == "__doc__":
            return None
        if t in _METHODS:
            return Native(f"{t}.{name}", lambda i, a, k: call_ext(
                i, Ext(path), a, k) if (m.path + "." + name) in EXT
                else call_method(i, a[0], name, a[1:], k))
        if t == "object":
            if name == "__setattr__":
                return Native(name, lambda i, a, k: i.set_raw(a[0], a[1], a[2]))
            if name == "__new__":
                return Native(name, lambda i, a, k: i.st.new("inst", {}, cls=a[0]))
            if name == "__init__":
                return Native(name, lambda i, a, k: None)
            if name == "__getattribute__":
                return Native(name, lambda i, a, k: i.getattr(a[0], a[1]))
            return i.noattr(m, name, default)
    if name in ("__doc__",):
        return Opq("attr", m, name)
    if path.split(".")[0] in i.missing:
        i.raise_("ModuleNotFoundError", path)
    return Ext(path)


def sym_args(i, v):
    """Convert abstract values to sympy arguments (None if it is not possible)."""
    if isinstance(v, Num):
        return v.expr
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(sym_args(i, x) for x in v)
    if isinstance(v, slice):
        return v
    if isinstance(v, Opq):
        return opq_symbol(i, v)
    if isinstance(v, Ref):
        o = i.st.get(v)
        if o.kind == "list":
            return [sym_args(i, x) for x in i.content(v)]
        if o.kind == "dict":
            return {sym_args(i, k): sym_args(i, x) for k, x in i.content(v).d.values()}
        if o.kind == "set":
            return {sym_args(i, k) for k, x in i.content(v).d.values()}
        if o.kind == "iter":
            items, pos = o.data
            return [sym_args(i, x) for x in items[pos:]]
    if isinstance(v, Arr):
        return [sym_args(i, x) for x in v.items]
    if isinstance(v, SymFun):
        return v.f
    if isinstance(v, DictView) and i.st.get(v.ref).kind == "module":
        return namespace_args(i, v)
    if isinstance(v, Ext) and v.path.startswith("sympy."):
        o = sp
        for p in v.path.split(".")[1:]:
            o = getattr(o, p)
        return o
    raise _inc(f"argument {v!r} of a sympy function at {i.where()}")


class NonSym:
    """A value in a namespace for parsing that is no symbolic expression."""

    def __init__(self, value):
        self.value = value


def namespace_args(i, view):
    """{name: value} of a module namespace (globals()) that is passed to the parser."""
    ret = {}
    for k, v in dict(i.st.get(view.ref).data).items():
        if v is UNDEF or not isinstance(k, str):
            continue
        if isinstance(v, Gate):
            raise _inc(f"conditional name {k} in a namespace at {i.where()}")
        if isinstance(v, (Num, SymFun)) and not (isinstance(v, Num) and v.kind != "sym"):
            ret[k] = sym_args(i, v)
        elif isinstance(v, (int, str)) or v is None:
            ret[k] = v
        else:
            ret[k] = NonSym(v)
    return ret


class SymFun(Native):
    """A sympy function object (e.g. sp.Function('f'))."""

    def __init__(self, f):
        self.f = f
        self.name = str(f)
        self.fn = lambda i, a, k: from_sym(i, f(*[sym_args(i, x) for x in a]))


def from_sym(i, r):
    if isinstance(r, NonSym):
        return r.value
    if isinstance(r, bool) or r is None or isinstance(r, (str,)):
        return r
    if isinstance(r, int):
        return r
    if isinstance(r, float):
        return Num(sp.Rational(str(r)), "float")
    if isinstance(r, tuple):
        return tuple(from_sym(i, x) for x in r)
    if isinstance(r, list):
        return i.new_list([from_sym(i, x) for x in r])
    if isinstance(r, (set, frozenset)):
        return i.new_set([from_sym(i, x) for x in sorted(r, key=str)])
    if isinstance(r, dict):
        return i.new_dict([(from_sym(i, k), from_sym(i, v)) for k, v in r.items()])
    if isinstance(r, type):
        return SymFun(r)
    if type(r).__module__.split(".")[0] == "sympy" and not isinstance(r, sp.Basic):
        # e.g. the registry sympy.S or sympy.Q
        i.event("not-expression", str(r))
        return Ext(f"sympy.{r}" if str(r) in ("S", "Q") else "sympy.object")
    if callable(r) and str(getattr(r, "__module__", "")).split(".")[0] == "sympy":
        i.event("not-expression", getattr(r, "__name__", str(r)))
        return Ext(f"sympy.{getattr(r, '__name__', 'object')}")
    if isinstance(r, sp.Basic):
        from .terms import exact
        return Num(exact(r) if isinstance(r, sp.Expr) else r, "sym")
    raise _inc(f"sympy result {r!r}")


SYM_FUNCS = {
    "Symbol", "symbols", "cos", "sin", "tan", "exp", "log", "sqrt", "legendre", "Sum",
    "KroneckerDelta", "Piecewise", "gamma", "sign", "diff", "expand", "binomial",
    "Rational", "Integer", "Float", "Abs", "factorial", "Function", "simplify",
    "expand_trig", "trigsimp", "Mul", "Add", "Pow", "S", "sympify", "integrate",
    "Heaviside", "Derivative", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "And", "Or", "Not",
    "Max", "Min", "acos", "asin", "atan", "Poly", "collect", "factor", "together",
    "cancel", "summation", "Dummy", "Wild", "Matrix", "Tuple", "nsimplify", "expand_mul",
    "expand_power_base", "chebyshevt", "assoc_legendre", "besselj", "expint", "Ei",
    "rf", "ff", "Mod", "floor", "ceiling", "prod", "product", "Product", "Lambda",
    "Subs", "div", "degree", "apart", "numer", "denom", "fraction", "powsimp", "series",
    "beta", "polygamma", "Number", "re", "im", "conjugate", "postorder_traversal",
    "preorder_traversal", "default_sort_key", "ordered", "separatevars", "cse",
    "factorial2", "subfactorial", "bell", "catalan", "harmonic", "fibonacci", "lucas",
    "sinh", "cosh", "tanh", "cot", "sec", "csc", "acot", "asec", "acsc", "asinh", "acosh",
    "atanh", "atan2", "sinc", "cbrt", "root", "real_root", "erf", "erfc", "loggamma",
    "digamma", "uppergamma", "lowergamma", "chebyshevu", "gegenbauer", "jacobi", "hermite",
    "laguerre", "Ynm", "Znm", "besseli", "bessely", "besselk", "jn", "yn", "E1", "Si", "Ci",
    "nC", "nP", "gcd", "lcm", "limit", "solve", "radsimp", "ratsimp", "nsimplify",
    "logcombine", "expand_complex", "arg", "frac", "DiracDelta", "LambertW", "zeta",
    "expand_log", "expand_func", "hyper", "UnevaluatedExpr", "Basic", "Expr",
}


def call_sympy(i, name, args, kwargs, path):
    i.event("sympy", name)
    if name in ("var",):
        i.event("namespace", name, tuple(freeze(i, a) for a in args))
        r = sp.symbols(*[_sym_list(sym_args(i, a)) for a in args],
                       **{k: sym_args(i, v) for k, v in kwargs.items()})
        return from_sym(i, r)
    if name in ("parse_expr", "sympify", "S") and args and isinstance(
            i.prune(args[0]), (str, Opq, Gate)):
        return pure_sym(i, lambda *a, **k: parse(i, name, *a, **k), args, kwargs)
    if name == "lambdify":
        return lambdify(i, args, kwargs)
    if name == "symbols":
        return pure_sym(i, lambda *a, **k: sp.symbols(
            *[_sym_list(x) for x in a], **k), args, kwargs)
    if name not in SYM_FUNCS:
        if name[:1].isupper() and name.endswith("Error"):
            return Opq("call", Ext(path), tuple(freeze(i, a) for a in args), ())
        raise _inc(f"sympy function {name} at {i.where()}")
    f = getattr(sp, name, None)
    if f is None:
        raise _inc(f"sympy function {name} at {i.where()}")
    return pure_sym(i, f, args, kwargs)


def _sym_list(x):
    if isinstance(x, list):
        return [str(y) if isinstance(y, sp.Basic) else y for y in x]
    return x


def pure_sym(i, f, args, kwargs):
    args = [i.prune(a) for a in args]
    kw = {k: i.prune(v) for k, v in kwargs.items()}
    keys = list(kw)

    def g(*vals):
        a = [sym_args(i, x) for x in vals[:len(args)]]
        k = {q: sym_args(i, x) for q, x in zip(keys, vals[len(args):])}
        try:
            r = f(*a, **k)
        except (TypeError, ValueError, AttributeError, SyntaxError) as ex:
            return Marker(type(ex).__name__, str(ex)[:200])
        u = undef_of(*[x for x in vals if isinstance(x, Num)])
        r = from_sym(i, r)
        if isinstance(r, Num) and u:
            r = r.with_(undef=u)
        return r
    return pure(i, g, *args, *kw.values())


def parse(i, name, s, *rest, **kw):
    if isinstance(s, sp.Symbol) and s in i.sym_opq:
        return s
    if not isinstance(s, str):
        return sp.sympify(s)
    if name == "parse_expr":
        ld = kw.pop("local_dict", None)
        if rest:
            ld = rest[0]
        i.event("parse", s, tuple(sorted(map(str, ld or ()))))
        return _parse_expr(s, local_dict=ld, **kw)
    ld = kw.get("locals")
    if rest:
        ld = rest[0]
    i.event("parse", s, tuple(sorted(map(str, ld or ()))))
    return sp.sympify(s, locals=ld)


def lambdify(i, args, kwargs):
    variables = kwargs.get("args", args[0] if args else None)
    body = kwargs.get("expr", args[1] if len(args) > 1 else None)
    names = i.iterate(variables) if not isinstance(variables, Num) else (variables,)
    syms = []
    for v in names:
        e = sym_args(i, v)
        syms.append(sp.Symbol(e) if isinstance(e, str) else e)
    if len(set(syms)) != len(syms):
        i.raise_("SyntaxError", "duplicate argument in function definition")
    return pure(i, lambda x: x, i.each_leaf(body, lambda b: _mk_lam(i, syms, b, "sympy")))


def _mk_lam(i, syms, body, backend):
    islist = isinstance(body, (Ref, tuple, Arr))
    if islist:
        items = i.iterate(body)
        if isinstance(items, Gate):
            return i.each_leaf(items, lambda t: _mk_lam(i, syms, t, backend))
        b = []
        for x in items:
            x = i.prune(x)
            if isinstance(x, Gate):
                raise _inc("gated expressions in a compiled function")
            b.append(sym_args(i, x))
    else:
        b = (sym_args(i, body),)
    try:
        b = tuple(sp.sympify(x) for x in b)
    except sp.SympifyError:
        return Marker("SyntaxError", "not an expression")  # e.g. the function sympy.N
    if backend == "symengine" and not syms:
        return Marker("NotImplementedError", "symengine requires at least one variable")
    from .terms import exact
    i.event("compiled", tuple(map(str, syms)), backend)
    return Lam(tuple(syms), tuple(exact(x) for x in b), islist, backend)


# --------------------------------------------------------------------------------------
EXT = {}


def ext(*paths):
    def deco(f):
        for p in paths:
            EXT[p] = f
        return f
    return deco


@ext("numpy.finfo")
def np_finfo(i, args, kwargs):
    x = i.prune(args[0]) if args else None
    if isinstance(x, Ext) and x.path.rsplit(".", 1)[-1] in ("float", "float64", "double"):
        return Ext("numpy.finfo()")
    raise _inc("finfo of another type than float")


def call_ext(i, f, args, kwargs):
    p = f.path
    h = EXT.get(p)
    if h is not None:
        return h(i, list(args), dict(kwargs))
    root = p.split(".")[0]
    name = p.split(".")[-1]
    if root in i.missing:
        i.raise_("ModuleNotFoundError", p)
    if root == "builtins":
        from .interp import BUILTIN_EXC
        if name in BUILTIN_EXC:
            return Exc(f, tuple(args))
        raise _inc(f"builtin {name} at {i.where()}")
    if root in ("numpy", "math", "scipy"):
        h = _np.lookup(p)
        if h is not None:
            return h(i, list(args), dict(kwargs))
        if root == "numpy" and p.count(".") <= 2 or root == "math":
            i.unknown_construct(p)
    if root == "sympy":
        return call_sympy(i, name, list(args), dict(kwargs), p)
    if root == "symengine":
        i.event("symengine", name)
        if name in ("Lambdify", "LambdifyCSE"):
            kw = {k: v for k, v in kwargs.items()}
            vs = i.iterate(args[0])
            syms = []
            for v in vs:
                e = sym_args(i, v)
                syms.append(sp.Symbol(e) if isinstance(e, str) else e)
            if len(args) > 2:
                raise _inc("symengine.Lambdify with several expressions")
            r = i.each_leaf(args[1], lambda b: _mk_lam(i, syms, b, "symengine"))
            return pure(i, lambda x: x, r)
        if name == "lambdify":
            return lambdify(i, args, kwargs)
        return call_sympy(i, name, list(args), dict(kwargs), p)
    return call_opaque(i, f, args, kwargs)


# -- builtins ---------------------------------------------------------------------------
def make_builtins(i):
    import builtins
    d = {}
    for n in dir(builtins):
        v = getattr(builtins, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            continue
        d[n] = Ext("builtins." + n)
    d["True"], d["False"], d["None"] = True, False, None
    d["Ellipsis"] = Ext("builtins.Ellipsis")
    d["NotImplemented"] = Ext("builtins.NotImplemented")
    d["__debug__"] = True

    def unknown(i, a, k):
        raise _inc(str(a[0]))
    d["__rtsa_unknown__"] = Native("unknown", unknown)
    return d


def bi(name):
    return ext("builtins." + name)


@bi("len")
def bi_len(i, a, k):
    def f(v):
        if isinstance(v, (str, tuple, range)):
            return len(v)
        if isinstance(v, Arr):
            return len(v.items)
        if isinstance(v, Ref):
            o = i.st.get(v)
            if o.kind in ("dict", "set"):
                return lift(lambda d: len(d.d), i.content(v))
            if o.kind == "list":
                return lift(lambda t: len(t) if not any(isinstance(x, Star) for x in t)
                            else Opq("len", freeze(i, t)), i.content(v))
            if o.kind == "inst":
                m = i.find_attr(o.cls, "__len__")
                if m is not None:
                    return i.call(i.bind(m, v, o.cls), [], {})
        if isinstance(v, DictView):
            return len([x for x in i.st.get(v.ref).data.values() if x is not UNDEF])
        if isinstance(v, Opq):
            if v.op == "shape":
                return Opq("ndim", v.args[0])
            return Opq("len", v)
        if isinstance(v, Num) and v.kind == "array":
            if not v.shape:
                return 1
            return Opq("len", v)
        if isinstance(v, BoolEl):
            return Opq("len", v)
        i.raise_("TypeError", "object has no len()")
    return i.each_leaf(a[0], f)


@bi("range")
def bi_range(i, a, k):
    def f(*x):
        x = [_idx(y) for y in x]
        if not all(isinstance(y, int) for y in x):
            if any(isinstance(y, Opq) for y in x):
                return Opq("range", *x)
            return Marker("TypeError", "object cannot be interpreted as an integer")
        return range(*x)
    return pure(i, f, *a)


def _gated_items(i, vs, f):
    """Apply f to tuples of items."""
    items = [i.iterate(v) for v in vs]
    if any(isinstance(x, Gate) for x in items):
        return lift(f, *items)
    return f(*items)


def mk_iter(i, items):
    items = i.prune(items)
    if isinstance(items, Gate):
        return i.st.new("list", items)
    return i.new_iter(items)


@bi("enumerate")
def bi_enumerate(i, a, k):
    start = k.get("start", a[1] if len(a) > 1 else 0)
    return mk_iter(i, _gated_items(i, a[:1], lambda t: tuple(
        (n + start, x) if not isinstance(x, Star) else Star(Opq("enum", x.value))
        for n, x in enumerate(t))))


@bi("zip")
def bi_zip(i, a, k):
    infinite = [x for x in a if isinstance(x, Ref) and i.st.get(x).kind == "iter"
                and i.st.get(x).extra]
    if infinite:
        fin = [x for x in a if x not in infinite]
        if not fin:
            raise _inc("zip of infinite iterators")
        n = None
        cols = {}
        for x in fin:
            cols[id(x)] = i.iterate(x)
            n = len(cols[id(x)]) if n is None else min(n, len(cols[id(x)]))
        res = []
        for x in a:
            if x in infinite:
                res.append(tuple(bi_next(i, [x], {}) for _ in range(n)))
            else:
                res.append(cols[id(x)][:n])
        return mk_iter(i, tuple(zip(*res)))

    def f(*ts):
        if any(isinstance(x, Star) for t in ts for x in t):
            if len(ts) == 1:
                return tuple(Star(Opq("zip", x.value)) if isinstance(x, Star) else (x,)
                             for x in ts[0])
            # one unknown iterable together with known ones: items by position
            known = [t for t in ts if not any(isinstance(x, Star) for x in t)]
            if known and all(len(t) == 1 or t in known for t in ts):
                n = min(len(t) for t in known)
                return tuple(tuple(
                    t[m] if t in known else Opq("item", t[0].value, m) for t in ts)
                    for m in range(n))
            return (Star(Opq("zip", *[freeze(i, t) for t in ts])),)
        if k.get("strict") is True and len({len(t) for t in ts}) > 1:
            return Marker("ValueError", "zip() arguments have different lengths")
        return tuple(zip(*ts))
    r = _gated_items(i, a, f)
    r = pure(i, lambda x: x, r)
    return mk_iter(i, r)


@bi("map")
def bi_map(i, a, k):
    f = a[0]
    cols = [i.iterate(x) for x in a[1:]]
    if any(isinstance(c, Gate) for c in cols):
        if len(cols) == 1:
            return i.each_leaf(cols[0], lambda t: mk_iter(i, tuple(
                i.call(f, [x], {}) for x in t)))
        raise _inc("map over gated iterables")
    res = []
    for xs in zip(*cols):
        if any(isinstance(x, Star) for x in xs):
            v = i.call(f, [Opq("elem", x.value) if isinstance(x, Star) else x
                           for x in xs], {})
            res.append(Star(Opq("map", freeze(i, v))))
        else:
            res.append(i.call(f, list(xs), {}))
    return mk_iter(i, tuple(res))


@bi("filter")
def bi_filter(i, a, k):
    f = a[0]
    items = i.iterate(a[1])
    ref = i.new_list()
    for x in items:
        c = truth(i, x if f is None else i.call(f, [x], {}))
        i.branch(c, lambda: list_method(i, ref, "append", [x], {}), lambda: None)
    return ref


@bi("list")
def bi_list(i, a, k):
    if not a:
        return i.new_list()
    return i.st.new("list", i.iterate(a[0]))


@bi("tuple")
def bi_tuple(i, a, k):
    if not a:
        return ()
    return i.iterate(a[0])


@bi("dict")
def bi_dict(i, a, k):
    r = i.new_dict()
    if a:
        dict_method(i, r, "update", [a[0]], {})
    if k:
        if "**" in k:
            k.pop("**")
        dict_method(i, r, "update", [], k)
    return r


@bi("set")
def bi_set(i, a, k):
    if not a:
        return i.new_set()
    items = i.iterate(a[0])
    return i.st.new("set", lift(lambda t: DictC({i.hkey(x): (x, None) for x in t}),
                                items))


@bi("frozenset")
def bi_frozenset(i, a, k):
    return bi_set(i, a, k)


@bi("sorted")
def bi_sorted(i, a, k):
    items = i.iterate(a[0])
    key = k.get("key")
    rev = k.get("reverse", False)

    def f(t):
        keys = [i.call(key, [x], {}) if key is not None else x for x in t]

        def kk(x):
            if isinstance(x, Num):
                if x.expr.is_number:
                    return (0, float(x.expr))
                return (2, str(x.expr))
            if isinstance(x, (int, bool)):
                return (0, float(x))
            if isinstance(x, str):
                return (1, x)
            return (3, repr(x))
        try:
            order = sorted(range(len(t)), key=lambda n: kk(keys[n]), reverse=bool(rev))
        except TypeError:
            return t
        return tuple(t[n] for n in order)
    return i.st.new("list", lift(f, items))


@bi("reversed")
def bi_reversed(i, a, k):
    return mk_iter(i, lift(lambda t: t[::-1], i.iterate(a[0])))


@bi("sum")
def bi_sum(i, a, k):
    start = k.get("start", a[1] if len(a) > 1 else 0)
    items = i.iterate(a[0])

    def f(t):
        r = start
        for x in t:
            if isinstance(x, Star):
                r = Opq("sum", r, x.value)
                continue
            r = binop(i, "Add", r, x)
        return r
    return i.each_leaf(items, f)


def _minmax(i, a, k, gt):
    if len(a) == 1:
        items = i.iterate(a[0])
    else:
        items = tuple(a)
    key = k.get("key")

    def f(t):
        if not t:
            if "default" in k:
                return k["default"]
            i.raise_("ValueError", "arg is an empty sequence")
        if any(isinstance(x, Star) for x in t) or (
                len(t) == 1 and isinstance(t[0], Opq)):
            return Opq("max" if gt else "min", freeze(i, t))
        best = t[0]
        bk = i.call(key, [best], {}) if key is not None else best
        for x in t[1:]:
            xk = i.call(key, [x], {}) if key is not None else x
            c = truth(i, compare(i, "Gt" if gt else "Lt", xk, bk))
            best, bk = ite(c, x, best), ite(c, xk, bk)
        return best
    return i.each_leaf(items, f)


@bi("max")
def bi_max(i, a, k):
    return _minmax(i, a, k, True)


@bi("min")
def bi_min(i, a, k):
    return _minmax(i, a, k, False)


@bi("any")
def bi_any(i, a, k):
    items = i.iterate(a[0])

    def f(t):
        r = False
        for x in t:
            r = t_or(r, i.atom("any", x.value) if isinstance(x, Star) else truth(i, x))
        return r
    return lift(f, items)


@bi("all")
def bi_all(i, a, k):
    items = i.iterate(a[0])

    def f(t):
        r = True
        for x in t:
            r = t_and(r, i.atom("all", x.value) if isinstance(x, Star) else truth(i, x))
        return r
    return lift(f, items)


@bi("isinstance")
def bi_isinstance(i, a, k):
    return isinstance_(i, a[0], a[1])


@bi("issubclass")
def bi_issubclass(i, a, k):
    def f(c, t):
        if isinstance(t, tuple):
            return any(f(c, x) for x in t)
        return t in i.mro(c)
    return lift(f, a[0], a[1])


@bi("getattr")
def bi_getattr(i, a, k):
    d = a[2] if len(a) > 2 else _b

    def f(n):
        if not isinstance(n, str):
            if isinstance(n, Opq):
                return Opq("attr", freeze(i, a[0]), n)
            i.raise_("TypeError", "attribute name must be string")
        return i.getattr(a[0], n, d)
    return i.each_leaf(a[1], f)


@bi("setattr")
def bi_setattr(i, a, k):
    def f(n):
        if isinstance(n, Opq):
            raise _inc("setattr with an unknown name")
        i.setattr(a[0], n, a[2])
    return i.each_leaf(a[1], f)


@bi("delattr")
def bi_delattr(i, a, k):
    return i.delattr(a[0], a[1])


_NOATTR = Opq("noattr")


@bi("hasattr")
def bi_hasattr(i, a, k):
    v = i.getattr(a[0], a[1], _NOATTR)
    return lift(lambda x: x != _NOATTR, v)


@bi("callable")
def bi_callable(i, a, k):
    def f(x):
        if isinstance(x, (Func, Bound, Native, Cached, Lam, Partial, Ext, CtxFactory)):
            return True
        if isinstance(x, Ref):
            o = i.st.get(x)
            return o.kind == "class" or o.kind == "inst" and i.find_attr(
                o.cls, "__call__") is not None
        if isinstance(x, Opq):
            return i.atom("callable", x)
        return False
    return lift(f, i.prune(a[0]))


@bi("type")
def bi_type(i, a, k):
    if len(a) == 3:
        bases = i.iterate(a[1])
        return i.make_class(a[0], list(bases), {
            "__doc__": None, "__name__": a[0], "__module__": "", "__qualname__": a[0],
            **{q: x for q, x in pairs_of(i, a[2])}}, k)

    def f(x):
        if isinstance(x, NT):
            return x.cls
        if isinstance(x, Ref):
            o = i.st.get(x)
            if o.kind == "inst":
                return o.cls
            if o.kind == "class":
                return Ext("builtins.type")
            if o.kind == "list" and isinstance(o.extra, tuple) and o.extra[0] == "view":
                return Ext("builtins.dict_" + o.extra[2])
            return Ext("builtins." + o.kind)
        if isinstance(x, Num):
            return {"float": Ext("builtins.float"), "array": Ext("numpy.ndarray"),
                    "sym": Ext("sympy." + type(x.expr).__name__)}[x.kind]
        if isinstance(x, (Arr, BoolEl)):
            return Ext("numpy.ndarray")
        if isinstance(x, Exc):
            return x.cls
        if isinstance(x, Opq):
            return Opq("type", x)
        return Ext("builtins." + type(x).__name__)
    return lift(f, i.prune(a[0]))


@bi("id")
def bi_id(i, a, k):
    return Opq("id", freeze(i, a[0]) if not isinstance(a[0], Ref) else a[0])


@bi("hash")
def bi_hash(i, a, k):
    i.hkey(a[0])
    return Opq("hash", a[0])


@bi("str")
def bi_str(i, a, k):
    return to_str(i, i.prune(a[0])) if a else ""


@bi("repr")
def bi_repr(i, a, k):
    return to_str(i, i.prune(a[0]), rep=True)


@bi("format")
def bi_format(i, a, k):
    return to_str(i, i.prune(a[0]))


@bi("int")
def bi_int(i, a, k):
    def f(x):
        if isinstance(x, (bool, int)):
            return int(x)
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                return Marker("ValueError", "invalid literal for int()")
        if isinstance(x, Num):
            if x.expr.is_Rational:
                return int(x.expr)
            return Num(genf("int_")(x.expr), "float", EMPTY, x.undef)
        if isinstance(x, Opq):
            return Opq("int", x)
        return Marker("TypeError", "int() argument")
    return pure(i, f, *(a or [0]))


@bi("float")
def bi_float(i, a, k):
    def f(x):
        if isinstance(x, (bool, int)):
            return Num(sp.Integer(int(x)), "float")
        if isinstance(x, str):
            try:
                v = float(x)
            except ValueError:
                return Marker("ValueError", "could not convert string to float")
            if v != v:
                return Num(sp.nan, "float")
            if v in (float("inf"), -float("inf")):
                return Num(sp.Symbol("inf") * (1 if v > 0 else -1), "float")
            return Num(sp.Rational(repr(v)), "float")
        if isinstance(x, Num):
            if x.kind == "sym" and any(not str(q).startswith("v_")
                                       for q in x.expr.free_symbols):
                return Marker("TypeError", "Cannot convert expression to float")
            if x.kind == "float" and x.expr.has(sp.I):
                raise _inc("float() of a complex number")
            return x.with_(kind="float", alias=EMPTY)
        if isinstance(x, Arr) and len(x.items) == 1:
            return f(x.items[0])
        if isinstance(x, Opq):
            return as_num(i, x)
        return Marker("TypeError", "float() argument must be a number")
    return pure(i, f, *(a or [0]))


@bi("bool")
def bi_bool(i, a, k):
    return truth(i, a[0]) if a else False


@bi("abs")
def bi_abs(i, a, k):
    return _np.elementwise(i, "absolute", a)


@bi("round")
def bi_round(i, a, k):
    def f(x):
        if isinstance(x, int):
            return x
        if isinstance(x, Num) and x.expr.is_Rational:
            if len(a) < 2 or a[1] is None:
                return int(round(x.expr))
            if isinstance(a[1], int):
                return Num(sp.Rational(repr(round(float(x.expr), a[1]))), x.kind)
        return Num(genf("round_")(as_num(i, x).expr), "float")
    return pure(i, f, a[0])


@bi("pow")
def bi_pow(i, a, k):
    return binop(i, "Pow", a[0], a[1])


@bi("divmod")
def bi_divmod(i, a, k):
    return (binop(i, "FloorDiv", a[0], a[1]), binop(i, "Mod", a[0], a[1]))


@bi("print")
def bi_print(i, a, k):
    i.event("print", tuple(freeze(i, x) for x in a))
    return None


@bi("iter")
def bi_iter(i, a, k):
    if isinstance(a[0], Ref) and i.st.get(a[0]).kind == "iter":
        return a[0]
    return mk_iter(i, i.iterate(a[0]))


@bi("next")
def bi_next(i, a, k):
    def f(it):
        if isinstance(it, Opq):
            return Opq("next", it)
        if not isinstance(it, Ref) or i.st.get(it).kind != "iter":
            if isinstance(it, Ref) and i.st.get(it).kind == "list":
                t = i.content(it)

                def g(t):
                    if t:
                        return t[0]
                    if len(a) > 1:
                        return a[1]
                    i.raise_("StopIteration")
                return i.each_leaf(t, g)
            if isinstance(it, Ref) and i.st.get(it).kind == "inst":
                if i.find_attr(i.st.get(it).cls, "__next__") is not None:
                    nxt = i.getattr(it, "__next__")
                    if len(a) > 1:
                        return i.try_default(lambda: i.call(nxt, [], {}), a[1],
                                             "StopIteration")
                    return i.call(nxt, [], {})
            i.raise_("TypeError", "object is not an iterator")
        items, pos = i.st.get(it).data
        if i.st.get(it).extra and items:
            i.st.mut(it).data = (items, pos + 1)
            return items[pos % len(items)]
        if pos < len(items):
            x = items[pos]
            if isinstance(x, Star):
                return Opq("next", x.value)
            i.st.mut(it).data = (items, pos + 1)
            return x
        if len(a) > 1:
            return a[1]
        i.raise_("StopIteration")
    return i.each_leaf(a[0], f)


@bi("super")
def bi_super(i, a, k):
    return SuperObj(a[0], a[1])


@bi("object")
def bi_object(i, a, k):
    return i.st.new("inst", {}, cls=Ext("builtins.object"))


@bi("property")
def bi_property(i, a, k):
    return Prop(*a, **{q: v for q, v in k.items() if q in ("fget", "fset", "fdel")})


@bi("staticmethod")
def bi_static(i, a, k):
    return StaticM(a[0])


@bi("classmethod")
def bi_classm(i, a, k):
    return ClassM(a[0])


@bi("vars")
def bi_vars(i, a, k):
    return i.getattr(a[0], "__dict__")


@bi("globals")
def bi_globals(i, a, k):
    return DictView(i.modules[i.stack[-1].module])


@bi("locals")
def bi_locals(i, a, k):
    return i.new_dict(list(i.st.get(i.frame).data.items()))


@bi("dir")
def bi_dir(i, a, k):
    return Opq("dir", freeze(i, a[0]) if a else None)


@bi("slice")
def bi_slice(i, a, k):
    return slice(*a)


@bi("__import__")
def bi_import(i, a, k):
    return i.import_module(a[0])


@bi("complex")
def bi_complex(i, a, k):
    return binop(i, "Add", a[0], binop(i, "Mult", Num(sp.I), a[1] if len(a) > 1 else 0))


@bi("dict.fromkeys")
def bi_fromkeys(i, a, k):
    return i.new_dict([(x, a[1] if len(a) > 1 else None) for x in i.iterate(a[0])])


# -- functools / itertools / operator / contextlib / copy / abc ---------------------------
def _cached(i, f):
    return Cached(f, i.st.new("cache", {}, name=getattr(f, "name", "?")))


@ext("functools.lru_cache")
def ft_lru(i, a, k):
    if a and isinstance(a[0], (Func, Bound, Native, Cached, Partial)):
        return _cached(i, a[0])
    return Native("lru_cache", lambda i, b, kk: _cached(i, b[0]))


@ext("functools.cache")
def ft_cache(i, a, k):
    return _cached(i, a[0])


@ext("functools.cached_property")
def ft_cprop(i, a, k):
    return CachedProp(a[0])


def _copy_doc(i, dst, src):
    f = dst
    while isinstance(f, (Bound, Cached, Partial)):
        f = f.func
    if isinstance(f, Func):
        try:
            f.attrs["__doc__"] = i.getattr(src, "__doc__", None)
            for n in ("__name__", "__qualname__"):
                v = i.getattr(src, n, None)
                if isinstance(v, str):
                    f.attrs[n] = v
            f.attrs["__wrapped__"] = src
        except Exception:
            pass
    return dst


@ext("functools.wraps")
def ft_wraps(i, a, k):
    src = a[0]
    return Native("wraps", lambda i, b, kk: _copy_doc(i, b[0], src))


@ext("functools.update_wrapper")
def ft_uw(i, a, k):
    if isinstance(a[0], Partial):
        return a[0]
    return _copy_doc(i, a[0], a[1])


@ext("functools.partial")
def ft_partial(i, a, k):
    return Partial(a[0], a[1:], k)


@ext("functools.reduce")
def ft_reduce(i, a, k):
    items = i.iterate(a[1])

    def f(t):
        t = list(t)
        if len(a) > 2:
            acc = a[2]
        else:
            if not t:
                i.raise_("TypeError", "reduce() of empty iterable")
            acc = t.pop(0)
        for x in t:
            acc = i.call(a[0], [acc, x], {})
        return acc
    return i.each_leaf(items, f)


@ext("abc.abstractmethod")
def abstractm(i, a, k):
    f = a[0]
    while isinstance(f, (StaticM, ClassM, Cached)):
        f = f.func
    if isinstance(f, Func):
        f.attrs["__isabstractmethod__"] = True
    return a[0]


@ext("typing.final", "typing.overload", "typing.no_type_check")
def ident(i, a, k):
    return a[0]


@ext("abc.abstractproperty")
def absprop(i, a, k):
    return Prop(a[0])


@ext("typing.cast")
def ty_cast(i, a, k):
    return a[1]


@ext("typing.TypeVar", "typing.NewType")
def ty_var(i, a, k):
    return Ext("typing.Any")


@ext("itertools.chain")
def it_chain(i, a, k):
    items = ()
    for x in a:
        t = i.iterate(x)
        items = lift(lambda p, q: p + q, items, t)
    return mk_iter(i, items)


@ext("itertools.chain.from_iterable")
def it_chainf(i, a, k):
    return it_chain(i, list(i.iterate(a[0])), k)


@ext("itertools.cycle")
def it_cycle(i, a, k):
    return i.new_iter(i.iterate(a[0]), True)


@ext("itertools.repeat")
def it_repeat(i, a, k):
    if len(a) > 1:
        return i.new_iter((a[0],) * a[1])
    return i.new_iter((a[0],), True)


@ext("itertools.product")
def it_product(i, a, k):
    import itertools
    cols = [i.iterate(x) for x in a]
    return mk_iter(i, tuple(itertools.product(*cols, repeat=k.get("repeat", 1))))


def _subsets(f, kinds=True):
    def g(i, a, k):
        a = list(a) + [k[n] for n in ("r",) if n in k]
        items = i.iterate(a[0])
        if isinstance(items, Gate) or any(isinstance(x, Star) for x in items):
            return Opq("combinatorial", freeze(i, items), *a[1:])
        return mk_iter(i, tuple(f(items, *a[1:])))
    return g


ext("itertools.combinations")(_subsets(itertools.combinations))
ext("itertools.permutations")(_subsets(itertools.permutations))
ext("itertools.combinations_with_replacement")(
    _subsets(itertools.combinations_with_replacement))


@ext("itertools.starmap")
def it_starmap(i, a, k):
    return mk_iter(i, tuple(i.call(a[0], list(i.iterate(x)), {})
                            for x in i.iterate(a[1])))


@ext("itertools.zip_longest")
def it_zl(i, a, k):
    import itertools
    return mk_iter(i, tuple(itertools.zip_longest(
        *[i.iterate(x) for x in a], fillvalue=k.get("fillvalue"))))


@ext("itertools.islice")
def it_islice(i, a, k):
    ob = a[0]
    if isinstance(ob, Ref) and i.st.get(ob).kind == "iter" and i.st.get(ob).extra:
        return mk_iter(i, tuple(bi_next(i, [ob], {}) for _ in range(a[1])))
    return mk_iter(i, i.iterate(ob)[slice(*a[1:])])


@ext("itertools.count")
def it_count(i, a, k):
    start = a[0] if a else 0
    return i.new_iter(tuple(range(start, start + 4000)))


@ext("itertools.accumulate")
def it_acc(i, a, k):
    items = i.iterate(a[0])
    f = a[1] if len(a) > 1 else k.get("func")
    init = k.get("initial")
    res = []
    acc = init
    if init is not None:
        res.append(init)
    for x in items:
        if acc is None:
            acc = x
        else:
            acc = i.call(f, [acc, x], {}) if f is not None else binop(i, "Add", acc, x)
        res.append(acc)
    return mk_iter(i, tuple(res))


def _definite(i, v):
    t = truth(i, v)
    if t is True or t is False:
        return t
    raise _inc(f"iterator with an undecided condition at {i.where()}")


def _known(i, v):
    t = i.iterate(v)
    if isinstance(t, Gate) or any(isinstance(x, Star) for x in t):
        raise _inc(f"iterator over unknown elements at {i.where()}")
    return t


@ext("itertools.groupby")
def it_groupby(i, a, k):
    f = a[1] if len(a) > 1 else k.get("key")
    out = []
    for x in _known(i, a[0]):
        key = x if f is None else i.call(f, [x], {})
        if out and _definite(i, value_eq(i, out[-1][0], key)):
            out[-1][1].append(x)
        else:
            out.append((key, [x]))
    return mk_iter(i, tuple((q, i.new_iter(tuple(g))) for q, g in out))


@ext("itertools.compress")
def it_compress(i, a, k):
    return mk_iter(i, tuple(x for x, s in zip(_known(i, a[0]), _known(i, a[1]))
                            if _definite(i, s)))


@ext("itertools.takewhile")
def it_takewhile(i, a, k):
    out = []
    for x in _known(i, a[1]):
        if not _definite(i, i.call(a[0], [x], {})):
            break
        out.append(x)
    return mk_iter(i, tuple(out))


@ext("itertools.dropwhile")
def it_dropwhile(i, a, k):
    items = list(_known(i, a[1]))
    while items and _definite(i, i.call(a[0], [items[0]], {})):
        items.pop(0)
    return mk_iter(i, tuple(items))


@ext("itertools.filterfalse")
def it_filterfalse(i, a, k):
    return mk_iter(i, tuple(x for x in _known(i, a[1]) if not _definite(
        i, x if a[0] is None else i.call(a[0], [x], {}))))


@ext("itertools.pairwise")
def it_pairwise(i, a, k):
    t = _known(i, a[0])
    return mk_iter(i, tuple(zip(t, t[1:])))


_OPER = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow",
         "mod": "Mod", "floordiv": "FloorDiv", "or_": "BitOr", "and_": "BitAnd",
         "matmul": "MatMult", "xor": "BitXor"}
for _n, _o in _OPER.items():
    EXT["operator." + _n] = (lambda o: lambda i, a, k: binop(i, o, a[0], a[1]))(_o)
for _n, _o in {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt",
               "ge": "GtE", "is_": "Is", "is_not": "IsNot"}.items():
    EXT["operator." + _n] = (lambda o: lambda i, a, k: compare(i, o, a[0], a[1]))(_o)
EXT["operator.neg"] = lambda i, a, k: unop(i, "USub", a[0])
EXT["operator.not_"] = lambda i, a, k: t_not(truth(i, a[0]))
EXT["operator.contains"] = lambda i, a, k: contains(i, a[0], a[1])
EXT["operator.getitem"] = lambda i, a, k: getitem(i, a[0], a[1])


@ext("operator.attrgetter")
def op_attrgetter(i, a, k):
    def get(i, o):
        res = []
        for path in a:
            v = o[0]
            for p in path.split("."):
                v = i.getattr(v, p)
            res.append(v)
        return res[0] if len(res) == 1 else tuple(res)
    return Native("attrgetter", lambda i, o, kk: get(i, o))


@ext("operator.itemgetter")
def op_itemgetter(i, a, k):
    def get(i, o):
        r = [getitem(i, o[0], x) for x in a]
        return r[0] if len(r) == 1 else tuple(r)
    return Native("itemgetter", lambda i, o, kk: get(i, o))


@ext("operator.methodcaller")
def op_mc(i, a, k):
    return Native("methodcaller", lambda i, o, kk: i.call(i.getattr(o[0], a[0]), a[1:],
                                                          k))


@ext("contextlib.contextmanager")
def cl_cm(i, a, k):
    return CtxFactory(a[0])


@ext("contextlib.suppress")
def cl_suppress(i, a, k):
    return Opq("call", Ext("contextlib.suppress"), tuple(a), ())


@ext("copy.copy")
def cp_copy(i, a, k):
    return i.each_leaf(a[0], lambda v: copy_obj(i, v, False, {}))


@ext("copy.deepcopy")
def cp_deep(i, a, k):
    return i.each_leaf(a[0], lambda v: copy_obj(i, v, True, {}))


def copy_obj(i, v, deep, memo, pickled=False):
    v = i.prune(v)
    if isinstance(v, Gate):
        return i.each_leaf(v, lambda x: copy_obj(i, x, deep, memo, pickled))
    sub = (lambda x: copy_obj(i, x, True, memo, pickled)) if deep else (lambda x: x)
    if isinstance(v, Num):
        return v.with_(alias=EMPTY) if v.kind == "array" else v
    if isinstance(v, NT):
        return NT((sub(x) for x in v), v.cls)
    if isinstance(v, tuple):
        return tuple(sub(x) for x in v)
    if isinstance(v, Arr):
        return Arr(sub(x) for x in v.items)
    if pickled and isinstance(v, Func):
        fr = v.frame
        if v.name == "<lambda>" or fr is not None and i.st.get(fr).kind == "frame":
            i.event("unpicklable", v.qualname)
            i.raise_("AttributeError", f"Can't pickle local object {v.qualname!r}")
        return v
    if pickled and isinstance(v, (Lam, Native)) and not isinstance(v, SymFun):
        i.event("unpicklable", repr(v)[:80])
        i.raise_("TypeError", "cannot pickle compiled function")
    if isinstance(v, Partial):
        if not deep:
            return v
        return Partial(sub(v.func), [sub(x) for x in v.args],
                       {q: sub(x) for q, x in v.kwargs})
    if isinstance(v, Bound):
        return Bound(v.func, sub(v.self)) if deep else v
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        o = i.st.get(v)
        if o.kind == "list":
            r = memo[v.id] = i.new_list()
            i.st.mut(r).data = lift(lambda t: tuple(sub(x) for x in t), i.prune(o.data))
            return r
        if o.kind in ("dict", "set"):
            r = memo[v.id] = i.st.new(o.kind, DictC({}), extra=o.extra)
            i.st.mut(r).data = lift(lambda d: DictC(
                {q: (kk, sub(x)) for q, (kk, x) in d.d.items()}), i.prune(o.data))
            return r
        if o.kind == "inst":
            for dn in ("__deepcopy__", "__copy__"):
                if (dn == "__deepcopy__") == deep and not pickled:
                    m = i.find_attr(o.cls, dn)
                    if m is not None:
                        return i.call(i.bind(m, v, o.cls), [i.new_dict()] if deep
                                      else [], {})
            for dn in ("__reduce_ex__", "__reduce__"):
                m = i.find_attr(o.cls, dn)
                if m is not None:
                    red = i.call(i.bind(m, v, o.cls), [2] if dn.endswith("ex__") else [],
                                 {})
                    if not isinstance(red, tuple):
                        raise _inc("__reduce__ result")
                    r = i.call(red[0], [sub(x) for x in i.iterate(red[1])], {})
                    memo[v.id] = r
                    if len(red) > 2 and red[2] is not None:
                        _set_state(i, r, i.st.get(r).cls, sub(red[2]))
                    return r
            m = i.find_attr(o.cls, "__getstate__")
            if m is not None:
                state = i.call(i.bind(m, v, o.cls), [], {})
            else:
                state = i.new_dict([(q, x) for q, x in i.st.get(v).data.items()
                                    if x is not UNDEF])
            r = memo[v.id] = i.st.new("inst", {}, cls=o.cls)
            _set_state(i, r, o.cls, sub(state))
            return r
    return v


def _set_state(i, r, cls, state):
    m = i.find_attr(cls, "__setstate__")
    if m is not None:
        i.call(i.bind(m, r, cls), [state], {})
        return
    for q, x in pairs_of(i, state):
        i.st.mut(r).data[q] = x


@ext("pickle.dumps")
def pk_dumps(i, a, k):
    return ("$pickle", copy_obj(i, a[0], True, {}, True))


@ext("pickle.loads")
def pk_loads(i, a, k):
    return copy_obj(i, a[0][1], True, {}, False)


@ext("collections.defaultdict")
def co_dd(i, a, k):
    ref = bi_dict(i, a[1:], k)
    if not a or i.prune(a[0]) is None:
        return ref
    if not isinstance(i.prune(a[0]), (Func, Native, Ext, Ref)):
        raise _inc("collections.defaultdict")
    i.st.mut(ref).extra = ("default", i.prune(a[0]))
    return ref


@ext("collections.OrderedDict")
def co_od(i, a, k):
    r = bi_dict(i, a, k)
    i.st.mut(r).extra = ("ordered",)
    return r


@ext("collections.namedtuple")
def co_nt(i, a, k):
    name, names = a[0], a[1] if len(a) > 1 else k["field_names"]
    if isinstance(names, str):
        names = names.replace(",", " ").split()
    else:
        names = _known(i, names)
    if not isinstance(name, str) or not all(isinstance(n, str) for n in names):
        raise _inc("named tuple with unknown fields")
    d = k.get("defaults")
    d = () if d is None else _known(i, d)
    return _nt_class(i, name, tuple(names), dict(zip(list(names)[len(names) - len(d):],
                                                     d)))


@ext("typing.NamedTuple")
def ty_nt(i, a, k):
    raise _inc("typing.NamedTuple")


def _nt_class(i, name, names, defaults):
    return i.make_class(name, [Ext("builtins.tuple")], {
        "$fields": names, "$defaults": i.new_dict(list(defaults.items())),
        "_fields": names, "__doc__": None, "__name__": name, "__module__": "",
        "__qualname__": name})


def named_tuple_class(i, cls, bases):
    """class C(typing.NamedTuple)"""
    o = i.st.mut(cls)
    if "$fields" in o.data or not any(isinstance(b, Ext) for b in bases):
        return
    ann = o.data.get("__annotations__")
    names = tuple(i.iterate(ann)) if ann is not None else ()
    o.data["$fields"] = o.data["_fields"] = names
    o.data["$defaults"] = i.new_dict([(n, o.data.pop(n)) for n in names if n in o.data])
    mro = o.extra["mro"]
    o.extra["mro"] = tuple(Ext("builtins.tuple") if isinstance(c, Ext)
                           and c.path == "typing.NamedTuple" else c for c in mro)


def named_tuple_new(i, cls, args, kwargs):
    if i.find_attr(cls, "__new__") is not None or i.find_attr(cls, "__init__") is not None:
        raise _inc("named tuple with a constructor")
    names = i.find_attr(cls, "$fields")
    dflt = {k: v for k, v in pairs_of(i, i.find_attr(cls, "$defaults"))}
    if len(args) > len(names) or any(isinstance(x, Star) for x in args):
        i.raise_("TypeError", "too many arguments")
    got = dict(zip(names, args))
    for k, v in kwargs.items():
        if k in got or k not in names:
            i.raise_("TypeError", f"unexpected argument {k!r}")
        got[k] = v
    for n in names:
        if n not in got:
            if n not in dflt:
                i.raise_("TypeError", f"missing argument {n!r}")
            got[n] = dflt[n]
    return NT((got[n] for n in names), cls)


def _nt_attr(i, t, name, default):
    names = i.find_attr(t.cls, "$fields")
    if name in names:
        return t[names.index(name)]
    if name == "_replace":
        return Native(name, lambda i, a, k: named_tuple_new(
            i, t.cls, [], {**dict(zip(names, t)), **k}))
    if name == "_asdict":
        return Native(name, lambda i, a, k: i.new_dict(list(zip(names, t))))
    if name == "__class__":
        return t.cls
    if name == "_make":
        return Native(name, lambda i, a, k: NT(_known(i, a[0]), t.cls))
    m = i.find_attr(t.cls, name)
    if isinstance(m, Prop):
        return i.try_default(lambda: i.call(m.fget, [t], {}), default)
    if m is not None:
        return i.bind(m, t, t.cls)
    return method_attr(i, t, name, default)


def enum_class(i, cls):
    o = i.st.mut(cls)
    mem, val = [], []
    for n, v in list(o.data.items()):
        if n.startswith("_") or isinstance(v, (Func, Prop, StaticM, ClassM, Native)) \
                or n.startswith("$"):
            continue
        if isinstance(v, Opq) and v.op == "call" or isinstance(v, Ref) and \
                i.st.get(v).kind == "inst":
            raise _inc("enumeration with automatic values")
        dup = [x for x, y in val if value_eq(i, y, v) is True]
        if dup:
            o.data[n] = dup[0]
            continue
        r = i.st.new("inst", {"name": n, "value": v, "_name_": n, "_value_": v}, cls=cls)
        o.data[n] = r
        mem.append(r)
        val.append((r, v))
    o.data["$members"] = tuple(mem)


def enum_lookup(i, cls, v):
    for m in i.find_attr(cls, "$members"):
        e = value_eq(i, i.st.get(m).data["value"], v)
        if e is True or m == v:
            return m
        if e is not False:
            raise _inc("lookup in an enumeration")
    i.raise_("ValueError", "not a valid enumeration value")


@ext("types.MappingProxyType")
def ty_mpt(i, a, k):
    return a[0]


@ext("inspect.signature", "inspect.getmembers")
def ins(i, a, k):
    return Opq("inspect", freeze(i, a[0]) if not isinstance(a[0], Func) else a[0])


@ext("importlib.import_module")
def imp(i, a, k):
    return i.import_module(a[0])


@ext("importlib.util.find_spec")
def imp_spec(i, a, k):
    return lift(lambda n: None if n.split(".")[0] in i.missing else Opq("spec", n), a[0])
