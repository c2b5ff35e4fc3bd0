import collections
import contextlib
import copy
import functools
import inspect
import itertools
import math
import operator
import pickle
import types
import warnings
from abc import ABC, ABCMeta, abstractmethod
from collections import Counter, OrderedDict, defaultdict, deque, namedtuple, ChainMap
from dataclasses import dataclass, field, replace
from enum import Enum
from types import SimpleNamespace, MappingProxyType
import numpy as np
import sympy as sp


@dataclass
class DC:
    a: int
    b: int = 2
    c: list = field(default_factory=list)

    def s(self):
        return self.a + self.b


def t_dataclass():
    d = DC(1)
    e = DC(1, c=[3])
    d.c.append(1)
    f = replace(e, a=5)
    return d.a, d.b, d.c, e.c, d.s(), d == DC(1, 2, [1]), f.a, f.b, f.c


class Color(Enum):
    RED = "r"
    BLUE = "b"


def t_enum():
    return (Color.RED.value, Color("b").name, Color.RED is Color.RED, Color.RED == Color.BLUE,
            [c.value for c in Color])


def t_namedtuple():
    P3 = namedtuple("P3", ["x", "y", "z"], defaults=[0])
    p = P3(1, 2)
    q = p._replace(x=5)
    x, y, z = q
    return p.x, p[1], p.z, q.x, (x, y, z), p == (1, 2, 0), len(p), p._asdict()["y"], list(p)


def t_ns():
    n = SimpleNamespace(a=1, b=2)
    n.c = n.a + n.b
    m = MappingProxyType({"k": 1})
    return n.c, m["k"], "k" in m, list(m)


class Desc:
    def __set_name__(self, owner, name):
        self.name = "_" + name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return getattr(obj, self.name, 0) * 2

    def __set__(self, obj, v):
        setattr(obj, self.name, v)


class HasDesc:
    p = Desc()
    q = Desc()


def t_descriptor():
    h = HasDesc()
    h.p = 3
    return h.p, h.q, h._p, isinstance(HasDesc.p, Desc)


class Auto:
    subs = []

    def __init_subclass__(cls, tag=None, **k):
        super().__init_subclass__(**k)
        cls.tag = tag
        Auto.subs.append(cls.__name__)


class A1(Auto, tag="x"):
    pass


class A2(A1):
    pass


def t_init_subclass():
    return A1.tag, A2.tag, Auto.subs


class Slots:
    __slots__ = ("a", "b")

    def __init__(self, a):
        self.a = a


class Dyn:
    def __getattr__(self, n):
        if n.startswith("z"):
            return n + "!"
        raise AttributeError(n)


class NewC:
    def __new__(cls, x):
        o = super().__new__(cls)
        o.pre = x
        return o

    def __init__(self, x):
        self.post = self.pre + 1


def t_attr_protocol():
    d = Dyn()
    s = Slots(1)
    try:
        d.foo
        e = "no"
    except AttributeError as ex:
        e = str(ex)
    n = NewC(4)
    return d.zoo, e, s.a, hasattr(s, "b"), n.pre, n.post, getattr(d, "x", 1)


class Shape(ABC):
    @property
    @abstractmethod
    def area(self):
        ...

    @abstractmethod
    def name(self):
        ...

    def desc(self):
        return self.name() + str(self.area)


class Sq(Shape):
    def __init__(self, a):
        self.a = a

    @property
    def area(self):
        return self.a ** 2

    def name(self):
        return "sq"


def t_abc():
    try:
        Shape()
        r = "ok"
    except TypeError:
        r = "abstract"
    s = Sq(3)
    return r, s.desc(), s.area, isinstance(s, Shape)


class Base0:
    def f(self): return ["Base0"]


class L0(Base0):
    def f(self): return ["L0"] + super().f()


class R0(Base0):
    def f(self): return ["R0"] + super().f()


class D0(L0, R0):
    def f(self): return ["D0"] + super().f()


def t_mro():
    return D0().f(), [c.__name__ for c in D0.__mro__], D0.__name__, D0.__bases__ == (L0, R0)


def t_typecall():
    T = type("T", (Base0,), {"x": 1, "g": lambda self: self.x + 1})
    t = T()
    return t.g(), t.f(), T.__name__, type(t) is T


def t_counter():
    c = Counter("abca")
    d = deque([1, 2], maxlen=3)
    d.append(3)
    d.appendleft(0)
    o = OrderedDict(a=1, b=2)
    o.move_to_end("a")
    ch = ChainMap({"a": 1}, {"a": 2, "b": 3})
    return c["a"], c["z"], list(d), list(o), ch["a"], ch["b"], c.most_common(1)


def t_defaultdict2():
    d = defaultdict(lambda: [0, 0])
    d["x"][0] += 1
    d["x"][1] += 2
    n = defaultdict(int)
    for k in "aab":
        n[k] += 1
    return dict(d), dict(n), "q" in d, d.get("q"), sorted(n.items())


def t_singledispatch():
    @functools.singledispatch
    def disp(x):
        return "obj"

    @disp.register(int)
    def _(x):
        return "int"

    @disp.register
    def _(x: str):
        return "str"
    return disp(1), disp("a"), disp(2.5), disp([])


def t_exitstack():
    log = []

    @contextlib.contextmanager
    def cm(n):
        log.append(("in", n))
        try:
            yield n
        finally:
            log.append(("out", n))
    with contextlib.ExitStack() as st:
        a = st.enter_context(cm(1))
        b = st.enter_context(cm(2))
        log.append(a + b)
    with cm(3) as x, cm(4) as y:
        log.append(x + y)
    try:
        with cm(5):
            raise ValueError("v")
    except ValueError:
        log.append("caught")
    with contextlib.suppress(KeyError):
        {}["k"]
        log.append("never")
    return log


class CM:
    def __init__(self, sw): self.sw, self.log = sw, []
    def __enter__(self):
        self.log.append("in")
        return self
    def __exit__(self, et, ev, tb):
        self.log.append(et.__name__ if et else None)
        return self.sw


def t_cmclass():
    a = CM(True)
    with a as b:
        b.log.append("body")
        raise KeyError("x")
    c = CM(False)
    try:
        with c:
            raise KeyError("y")
    except KeyError as e:
        c.log.append(str(e))
    d = CM(False)
    def f():
        with d:
            return 5
    r = f()
    return a.log, c.log, d.log, r


def t_copy():
    d = {"a": [1, 2], "b": {"c": (1, [2])}}
    s, p = copy.copy(d), copy.deepcopy(d)
    d["a"].append(3)
    d["b"]["c"][1].append(4)
    o = DC(1, 2, [1])
    o2, o3 = copy.copy(o), copy.deepcopy(o)
    o.c.append(9)
    return s, p, o2.c, o3.c


class Pick:
    def __init__(self, v):
        self.v = v
        self.f = lambda: v

    def __getstate__(self):
        d = self.__dict__.copy()
        del d["f"]
        return d

    def __setstate__(self, s):
        self.__dict__.update(s)
        self.f = lambda: self.v


def t_pickle():
    p = pickle.loads(pickle.dumps(Pick([1, 2])))
    q = copy.deepcopy(p)
    p.v.append(3)
    return p.f(), q.f()


def t_operator():
    f = operator.itemgetter(1)
    g = operator.attrgetter("a")
    h = operator.methodcaller("upper")
    return (f([1, 2]), g(DC(4)), h("a"), operator.add(1, 2), operator.mul(3, 4),
            operator.getitem([5], 0), operator.itemgetter(0, 1)("abc"),
            functools.reduce(operator.or_, [{1}, {2}]) == {1, 2}, operator.contains([1], 1),
            operator.neg(3), operator.truediv(1, 2), operator.not_(1), operator.is_(None, None))


def t_inspect():
    def f(a, b=2, *c, d, e=5, **g): pass
    s = inspect.signature(f)
    return list(s.parameters), s.parameters["b"].default, f.__code__.co_varnames[:2], f.__defaults__


def t_sum_product():
    return (sum(a * b for a, b in zip([1, 2, 3], [4, 5, 6])), math.prod([1, 2, 3]),
            math.factorial(5), math.comb(5, 2), math.sqrt(16), math.floor(2.5), math.ceil(2.5),
            math.isclose(1.0, 1.0), math.hypot(3, 4), max("abc"), min((2, 1), (1, 5)))


def t_nonlocal():
    def mk():
        n, log = 0, []
        def inc(d=1):
            nonlocal n
            n += d
            log.append(n)
            return n
        def get(): return n, log
        return inc, get
    i, g = mk()
    i(); i(5)
    j, h = mk()
    j(2)
    return g(), h()


def t_loop_closure():
    fs = [lambda: i for i in range(3)]
    gs = [lambda i=i: i for i in range(3)]
    hs = []
    for k in range(3):
        hs.append(lambda: k)
    return [f() for f in fs], [g() for g in gs], [h() for h in hs]


def t_try_else_finally():
    log = []
    def f(x):
        try:
            if x == 0:
                raise ValueError("v")
            if x == 1:
                raise KeyError("k")
            if x == 2:
                return "ret"
        except ValueError as e:
            log.append(("ve", str(e)))
        except (KeyError, IndexError):
            log.append("ke")
            raise
        else:
            log.append("else")
        finally:
            log.append("fin")
        return "end"
    out = []
    for x in range(4):
        try:
            out.append(f(x))
        except Exception as e:
            out.append(type(e).__name__)
    return out, log


def t_loop_ctrl():
    out = []
    for i in range(10):
        if i % 2: continue
        if i > 6: break
        for j in range(3):
            if j == 2: break
            out.append((i, j))
        else:
            out.append("never")
    else:
        out.append("never2")
    for i in []:
        pass
    else:
        out.append("else")
    n = 5
    while n:
        n -= 1
        if n == 2: continue
        out.append(n)
    else:
        out.append("done")
    return out, i, j


def t_unpack_calls():
    def f(a, /, b, *, c=3, **k): return a, b, c, k
    d = {"c": 1, "z": 2}
    return f(1, 2), f(1, b=5), f(*[1, 2], **d), f(1, **{"b": 4})


def t_errors():
    out = []
    for th in (lambda: {}["a"], lambda: [1][5], lambda: None.x, lambda: int("x"),
               lambda: 1 / 0, lambda: (1, 2)[3], lambda: "a" + 1, lambda: len(5),
               lambda: undefined_name, lambda: (lambda a: a)(), lambda: (lambda: 1)(2),
               lambda: (lambda a: a)(b=1), lambda: [].pop(), lambda: {}.popitem(),
               lambda: next(iter([])), lambda: dict(a=1)["b"], lambda: [1, 2].index(5),
               lambda: "abc".index("z"), lambda: {1}.remove(2), lambda: float("z"),
               lambda: iter(5), lambda: {[]: 1}, lambda: 1 < "a", lambda: -"a",
               lambda: getattr(1, "foo"), lambda: None(), lambda: "a"[0.5], lambda: [1, 2] + (1,)):
        try:
            th()
            out.append("ok")
        except Exception as e:
            out.append(type(e).__name__)
    return out


def t_unpack_err():
    out = []
    try:
        a, b = [1, 2, 3]
    except ValueError:
        out.append("ve")
    try:
        a, *b, c = [1]
    except ValueError:
        out.append("ve2")
    try:
        def f():
            print(zz)
            zz = 1
        f()
    except UnboundLocalError:
        out.append("ub")
    try:
        del out[5]
    except IndexError:
        out.append("ie")
    try:
        assert False
    except AssertionError:
        out.append("ae")
    return out


def t_sympy():
    x, y = sp.symbols("x y")
    e = (x + y) ** 2
    f = sp.lambdify((x, y), sp.expand(e), "numpy")
    return (f(2.0, 3.0), float(e.subs({x: 1, y: 2})), sorted(map(str, e.free_symbols)),
            str(sp.diff(x ** 3, x)), float(sp.Sum(x, (x, 1, 3)).doit()),
            float(sp.sympify("2*x").subs(x, 4)), sp.sympify("x").name, e.args[1] == 2,
            float(sp.legendre(2, x).subs(x, 0.5)), float(sp.pi.evalf()))


def t_dictcomp_order():
    d = {k: v for k, v in sorted({"b": 1, "a": 2}.items())}
    e = {**d, "a": 5}
    d2 = dict(a=1, b=2)
    d2.pop("a"); d2["a"] = 3
    return list(d.items()), list(e.items()), list(d2)


def t_stringbuild():
    parts = []
    for n, (k, v) in enumerate({"a": 1, "b": None}.items()):
        parts.append(f"{n}:{k}={v!r:>5}" if v is not None else f"{k:-^5}")
    return ", ".join(parts), "%(a)s %(b)03d" % {"a": "x", "b": 7}, "{:.3e}".format(12345.678), \
        "{0}{1}{0}".format("a", "b"), f"{'n':*<4}", f"{1e-10}", f"{0.1}", f"{100.0}", f"{1e22}", str(1.0)


def t_properties():
    class T:
        def __init__(self): self._v, self.log = 1, []
        @property
        def v(self):
            self.log.append("get")
            return self._v
        @v.setter
        def v(self, x):
            self.log.append(("set", x))
            self._v = x
        @v.deleter
        def v(self):
            self.log.append("del")
        w = property(lambda self: 7)
    t = T()
    t.v += 4
    del t.v
    try:
        t.w = 1
    except AttributeError:
        t.log.append("ro")
    class U(T):
        @T.v.getter
        def v(self): return -self._v
    u = U()
    u.v = 3
    return t.log, t.v, t.w, u.v


def t_chain_assign():
    a = b = c = []
    a.append(1)
    x = y = 0
    x += 1
    i, l = 0, [10, 20]
    i, l[i] = 1, 99
    (p, q), r = [1, 2], 3
    return a, b, c is a, x, y, i, l, p, q, r


def t_numpy2():
    a = np.arange(6.0).reshape(2, 3)
    b = np.array([1.0, 2.0, 3.0])
    return ((a * b).tolist(), (a @ b).tolist(), a.T[0].tolist(), a[:, 1].tolist(), a[1:].tolist(),
            np.outer(b, b)[1].tolist(), np.vstack([b, b]).tolist(), np.column_stack([b, b])[0].tolist(),
            np.multiply.reduce(b), np.deg2rad(180.0) == math.pi, np.nansum(b), np.isnan(b).tolist(),
            np.atleast_2d(b)[0].tolist(), b[::-1].tolist(), np.sum(a, axis=0).tolist(),
            np.sum(a, axis=-1).tolist(), a.sum(axis=1).tolist(), np.einsum("ij,j->i", a, b).tolist(),
            [x.tolist() for x in a], np.broadcast_to(1.0, 3).tolist(), np.polyval([1, 2], 3),
            np.mean(b), np.sqrt(np.array([4.0])).tolist(), (b > 1).tolist(), np.tile(b, 2).tolist(),
            np.repeat(b, 2).tolist(), np.moveaxis(a, 0, 1)[0].tolist(), np.diff(b).tolist(),
            np.interp(1.5, [1, 2], [0, 10]), np.flip(b).tolist(), np.newaxis is None,
            b[None, :].tolist(), b[:, None].tolist(), np.zeros_like(b).tolist(), np.array(b, copy=True).tolist())
