import functools, itertools, operator
import numpy as np
from functools import lru_cache, partial, wraps, reduce
from collections import defaultdict, OrderedDict
from contextlib import contextmanager

def t_flow():
    out = []
    for i in range(10):
        if i == 2: continue
        if i == 7: break
        out.append(i)
    else:
        out.append("else")
    for j in (1, 2):
        pass
    else:
        out.append("done")
    n = 0
    while n < 3:
        n += 1
        if n == 2: continue
        out.append(("w", n))
    else:
        out.append("welse")
    return out, i, j, n

def t_try():
    out = []
    def f(x):
        try:
            out.append("try")
            if x == 0: raise ValueError("a")
            if x == 1: raise KeyError("b")
            if x == 2: return "ret"
            if x == 4: raise TypeError("c")
        except ValueError as e:
            out.append(str(e))
            return "ve"
        except (KeyError, IndexError):
            out.append("ke")
        else:
            out.append("else")
        finally:
            out.append("fin")
        return "end"
    r = [f(0), f(1), f(2), f(3)]
    try:
        f(4)
    except Exception as e:
        r.append(type(e).__name__)
    return r, out

def t_finally_override():
    def f():
        try:
            return 1
        finally:
            return 2
    def g():
        for i in range(3):
            try:
                continue
            finally:
                if i == 1: break
        return i
    return f(), g()

def t_nested_raise():
    log = []
    def f():
        try:
            try:
                raise ValueError("x")
            finally:
                log.append(1)
        except ValueError as e:
            try:
                raise TypeError("y") from e
            except TypeError as t:
                log.append(str(t))
                log.append(str(t.__cause__))
        try:
            try:
                raise KeyError("z")
            except KeyError:
                log.append("re")
                raise
        except LookupError:
            log.append("lk")
    f()
    return log

def t_closure():
    fs = [lambda: i for i in range(3)]
    gs = [lambda i=i: i for i in range(3)]
    def counter():
        n = 0
        def inc():
            nonlocal n
            n += 1
            return n
        return inc
    c, d = counter(), counter()
    return [f() for f in fs], [g() for g in gs], c(), c(), d()

G = 1
def t_global():
    global G
    G += 1
    a = G
    G = 1
    return a

def t_args():
    def f(a, b=2, *c, d, e=5, **k):
        return a, b, c, d, e, sorted(k.items())
    def g(a, /, b, *, c=3): return a, b, c
    return (f(1, d=4), f(1, 3, 4, 5, d=6, z=1, y=2), g(1, b=2), g(1, 2, c=4),
            f(*[1, 2], *(3,), **{"d": 1}, **{"q": 2}))

def t_mutable_default():
    def f(x, acc=[]):
        acc.append(x)
        return list(acc)
    return f(1), f(2)

def t_gen():
    def g(n):
        yield 0
        for i in range(n):
            x = yield i
        yield from (10, 20)
        return 5
    def h():
        r = yield from g(2)
        yield r
    it = g(1)
    return list(g(3)), list(h()), next(it), next(it), sum(i * i for i in range(4))

def t_genexp_scope():
    x = 5
    l = [x for x in range(3)]
    return x, l, {k: v for k, v in zip("ab", l)}, {i % 2 for i in range(5)} == {0, 1}

def t_star():
    a, *b = [1, 2, 3]
    *c, d = "xyz"
    (e, f), g = (1, 2), 3
    h = [*b, *c, 9]
    return a, b, c, d, e, f, g, h, {**{"a": 1}, "b": 2, **{"a": 3}}

def t_str():
    x, y = 3.14159, "s"
    return (f"{x:.2f} {y!r} {y:>4}|{3:04d}", "%s-%d" % ("a", 3), "{} {k}".format(1, k=2),
            "a,b,c".split(","), " x ".strip(), "abc".upper(), "-".join(["a", "b"]),
            "abc"[::-1], "abc"[1:], "a" in "cab", "x".startswith(("y", "x")),
            "aXbX".replace("X", ""), "abc".find("c"), "A".lower(), "a b".title(),
            "ab" * 2, "abc".index("b"), "1".isdigit(), "a.b".partition("."),
            "x_y".rsplit("_", 1), "a\nb".splitlines(), str(1), repr("a"), str([1, "a"]),
            "abc".zfill(5), "a".ljust(3) + "|")

def t_list():
    a = [3, 1, 2]
    b = a
    b += [4]
    c = a + [5]
    a.sort()
    d = sorted(c, reverse=True)
    e = sorted(["bb", "a", "ccc"], key=len)
    a.insert(1, 10)
    a.remove(2)
    p = a.pop()
    f = a[:]
    f.reverse()
    g = [0] * 3
    g[1:2] = [7, 8]
    del g[0]
    a.extend(x for x in (1, 2))
    return a, b is a, c, d, e, p, f, g, a.index(10), a.count(1), [1, 2] == [1, 2], [1] < [2]

def t_dict():
    d = {"a": 1}
    d["b"] = 2
    d.update(c=3)
    d.update({"a": 9})
    e = dict(d)
    e.pop("a")
    f = d.setdefault("z", 5)
    g = d.get("nope", 7)
    items = list(d.items())
    del d["b"]
    h = dict(zip("xy", (1, 2)))
    k = dict.fromkeys(["q"], 0)
    m = e | {"n": 1}
    keys = [*d]
    return (d, e, f, g, items, h, k, m, keys, "a" in d, len(d), list(reversed(keys)),
            d.keys() - {"a"} == {"c", "z"}, e.popitem(), sorted(d), max(d.values()))

def t_set():
    a, b = {1, 2, 3}, {2, 3, 4}
    s = set()
    s.add(1); s.update([2, 3]); s.discard(9)
    return (sorted(a | b), sorted(a & b), sorted(a - b), sorted(a ^ b), a <= {1, 2, 3, 4},
            a.issuperset([1]), s == a, len(s), 3 in s, a.isdisjoint({9}),
            sorted(a.union([7])), sorted(a.intersection(b)), sorted(a.difference(b)))

def t_builtin():
    return (list(map(lambda x, y: x + y, [1, 2], [3, 4])), list(filter(None, [0, 1, 2])),
            list(enumerate("ab", 1)), list(zip([1, 2], "ab")), any([0, 1]), all([]),
            min(3, 1, 2), max([1, 5], key=lambda x: -x), sum([1, 2], 10), abs(-3),
            divmod(7, 3), round(2.567, 2), pow(2, 5), list(reversed([1, 2])), len("abc"),
            isinstance(1, (int, str)), isinstance("a", int), bool([]), int("3"), float("2.5"),
            tuple([1]), hasattr([], "append"), callable(len), min([3, 2], default=0),
            min([], default=0), list(range(5, 0, -2)), 7 // 2, -7 // 2, 7 % -3, 2 ** -1)

def t_cmp():
    x = 5
    n = []
    def f(v):
        n.append(v)
        return v
    r = (1 < x < 10, 1 < x > 7, not x, x and 0, x or 1, None is None, [] is [],
         f(0) and f(1), f(2) or f(3), 1 if x else 2, f(1) < f(0) < f(9))
    return r, n, (1, 2) < (1, 3), "a" < "b", 1 == 1.0, True == 1, None != 0

def t_walrus():
    if (n := len("abc")) > 2:
        m = n
    l = [y := 1, y ** 2]
    return n, m, l, [z for i in range(4) if (z := i * 2) > 2]

def t_match():
    def f(x):
        match x:
            case 0: return "zero"
            case 1 | 2: return "small"
            case str(): return "str"
            case [a, b]: return ("pair", a, b)
            case [a, *r]: return ("seq", a, r)
            case {"k": v, **rest}: return ("map", v, rest)
            case int() if x > 100: return "big"
            case _: return "other"
    return [f(i) for i in (0, 2, "s", [1, 2], (1, 2, 3), {"k": 3, "z": 1}, 101, 50, None)]

class Base:
    cnt = 0
    reg = []
    def __init__(self, x):
        self.x = x
        type(self).cnt += 1
    def who(self): return "base"
    @property
    def val(self): return self.x * 2
    @val.setter
    def val(self, v): self.x = v
    @classmethod
    def make(cls, x): return cls(x)
    @staticmethod
    def st(x): return x + 1
    def __len__(self): return 3
    def __call__(self, y): return self.x + y
    def __eq__(self, o): return isinstance(o, Base) and self.x == o.x
    def __hash__(self): return hash(self.x)
    def __getitem__(self, k): return k * 2
    def __iter__(self): return iter([self.x])
    def __contains__(self, k): return k == "in"
    def __add__(self, o): return self.x + o
    def __radd__(self, o): return ("r", o)
    def __repr__(self): return f"B{self.x}"
class Mix:
    def who(self): return "mix+" + super().who()
class Sub(Mix, Base):
    def __init__(self, x, y=0):
        super().__init__(x)
        self.y = y
    def who(self): return "sub+" + super().who()
    def __getattr__(self, n):
        if n.startswith("dyn"): return n
        raise AttributeError(n)

def t_class():
    b, s = Base(1), Sub.make(2)
    b.val = 10
    s.reg.append(1)
    r = (b.val, s.val, s.who(), Base.st(1), s.st(4), len(b), b(5), b == Base(10), b != s,
         b[3], list(s), "in" in b, b + 1, 1 + b, repr(b), s.dynx, hasattr(s, "zzz"),
         isinstance(s, Base), issubclass(Sub, Mix), type(s).__name__, Base.reg,
         getattr(s, "nope", 3), s.__class__ is Sub, vars(b), Sub.__mro__[1] is Mix,
         bool(b), f"{b}", sorted(s.__dict__), {b: 1}[Base(10)])
    Base.reg.clear(); Base.cnt = 0; Sub.cnt = 0
    return r

def t_lru():
    n = []
    @lru_cache()
    def f(x, y=0):
        n.append((x, y))
        return x + y
    a = f(1), f(1), f(2), f(1, y=1), f(1, y=1)
    f.cache_clear()
    f(1)
    class K:
        @lru_cache(maxsize=None)
        def m(self, k):
            n.append(("m", k))
            return k
    k = K()
    k.m(1); k.m(1); K().m(1)
    K.m.cache_clear(); k.m(1)
    return a, n

def t_partial():
    def f(a, b, c=0): return a, b, c
    p = partial(f, 1, c=5)
    q = partial(p, 2)
    return p(2), q(), q(c=7), p.func is f, p.args, reduce(operator.add, [1, 2, 3]), reduce(
        lambda a, b: a * b, [2, 3], 10)

def t_deco():
    def deco(n):
        def outer(f):
            @wraps(f)
            def inner(*a, **k):
                return n, f(*a, **k)
            return inner
        return outer
    @deco(1)
    @deco(2)
    def foo(x):
        "doc"
        return x
    return foo(3), foo.__name__, foo.__doc__

def t_itertools():
    return (list(itertools.chain([1], [2])), list(itertools.product("ab", [0, 1])),
            list(itertools.permutations([1, 2])), list(itertools.combinations("abc", 2)),
            list(itertools.accumulate([1, 2, 3])), list(itertools.islice("abcd", 1, 3)),
            list(itertools.repeat(1, 2)), list(itertools.zip_longest([1], [2, 3])),
            list(itertools.chain.from_iterable([[1], [2]])),
            list(itertools.takewhile(lambda x: x < 2, [1, 2, 1])),
            list(itertools.starmap(pow, [(2, 3)])),
            [next(c) for c in [itertools.cycle("ab")] * 3])

def t_ctx():
    log = []
    @contextmanager
    def cm(x):
        log.append(("in", x))
        try:
            yield x * 2
        finally:
            log.append("out")
    class CM:
        def __enter__(self): log.append("E"); return self
        def __exit__(self, *a): log.append(a[0].__name__ if a[0] else None); return True
    with cm(1) as a, cm(2) as b:
        log.append(a + b)
    with CM():
        raise ValueError
    try:
        with cm(3):
            raise KeyError
    except KeyError:
        log.append("k")
    def f():
        with CM():
            return 1
    return log, f()

def t_defaultdict():
    d = defaultdict(list)
    d["a"].append(1); d["a"].append(2); d["b"]
    o = OrderedDict([("x", 1)])
    return dict(d), o["x"], "c" in d, d.get("c")

def t_alias():
    a = [[0] * 2] * 2
    a[0][0] = 1
    b = [[0] * 2 for _ in range(2)]
    b[0][0] = 1
    import copy
    c = [1, [2]]
    d, e = copy.copy(c), copy.deepcopy(c)
    c[1].append(3)
    t = (1, [2])
    t[1].append(3)
    x = y = []
    x.append(1)
    return a, b, d, e, t, y

def t_del():
    x = [1, 2, 3]
    del x[0], x[-1]
    class A: pass
    a = A(); a.q = 1
    del a.q
    try:
        a.q
        r = 1
    except AttributeError:
        r = 2
    y = 1
    del y
    try:
        y
        s = 1
    except NameError:
        s = 2
    return x, r, s

def t_np():
    a = np.array([1.0, 2.0, 3.0])
    b = a
    b = b + 1
    c = np.array([[1, 2], [3, 4]])
    return (a.tolist(), b.tolist(), np.atleast_1d(3).tolist(), np.sum(a), a.sum(), np.prod(a),
            c.shape, c[0].tolist(), c[1, 0], np.stack([a, b]).tolist(), len(a), np.max(a),
            [float(x) for x in a], np.where(a > 1, a, 0).tolist(), np.arange(3).tolist(),
            np.zeros(2).tolist(), np.ones((2,)).tolist(), np.full(2, 7).tolist(),
            np.array_equal(a, a), np.cumsum(a).tolist(), np.add(a, 1).tolist(), np.any(a > 2),
            np.all(a > 2), np.dot(a, a), np.size(a), np.ndim(c), np.shape(a),
            np.concatenate([a, a]).tolist(), np.squeeze(np.array([[1.0]])).tolist(),
            np.ravel(c).tolist(), c.T.tolist(), np.isclose(1, 1), np.linspace(0, 1, 3).tolist())

def t_np_inplace():
    a = np.array([1.0, 2.0])
    b = a
    b += 1
    c = a.copy()
    c *= 2
    d = a[0:1]
    d[0] = 100
    e = np.array([1.0, 2.0, 3.0])
    e[1] = 9
    return a.tolist(), b.tolist(), c.tolist(), e.tolist()

def t_prop_del():
    class P:
        _cache = {}
        def __setattr__(self, k, v):
            object.__setattr__(self, k, v + 1 if isinstance(v, int) else v)
    p = P()
    p.a = 1
    setattr(p, "b", 2)
    return p.a, p.b, getattr(p, "a")

def t_nested_func_default():
    out = []
    for k in range(3):
        def f(a, k=k, *, m=k * 2):
            return a + k + m
        out.append(f)
    return [f(1) for f in out]

def t_while_break():
    s, n = [3, 1, 2], 0
    while s:
        n += s.pop()
        if n > 3: break
    else:
        n = -1
    return s, n

def t_slices():
    l = list(range(10))
    return l[2:8:3], l[::-2], l[-3:], l[:-3], l[slice(1, 3)], (1, 2, 3)[1:], "abcdef"[-2:]

def t_annot():
    x: int = 3
    def f(a: int, b: "str" = "q") -> int: return a
    class A:
        y: int = 4
        z: int
    return x, f(1), A.y, hasattr(A, "z")

def t_dataclass_like():
    from types import SimpleNamespace
    s = SimpleNamespace(a=1, b=2)
    s.c = 3
    from operator import itemgetter, attrgetter
    return s.a + s.c, itemgetter(1)([5, 6]), attrgetter("b")(s), sorted([(2, "a"), (1, "b")],
        key=itemgetter(0))

def t_exc_class():
    class MyE(ValueError):
        def __init__(self, m, c=1):
            super().__init__(m)
            self.c = c
    try:
        raise MyE("hi", c=3)
    except ValueError as e:
        r = (str(e), e.c, e.args, isinstance(e, MyE))
    try:
        assert 1 == 2, "msg"
    except AssertionError as e:
        r += (str(e),)
    try:
        {}["q"]
    except KeyError as e:
        r += (e.args,)
    try:
        [][1]
    except IndexError:
        r += ("ix",)
    try:
        1 / 0
    except ZeroDivisionError:
        r += ("zd",)
    try:
        None.foo
    except AttributeError:
        r += ("ae",)
    try:
        int("x")
    except ValueError:
        r += ("ve",)
    try:
        len(3)
    except TypeError:
        r += ("te",)
    try:
        (lambda a: a)()
    except TypeError:
        r += ("call",)
    return r

def t_comprehension_if():
    return ([(i, j) for i in range(3) for j in range(i) if (i + j) % 2],
            [[j for j in range(i)] for i in range(3)], [*(i for i in range(2))],
            sum(1 for _ in range(4)), dict((k, v) for k, v in [("a", 1)]))

def t_cached_property():
    from functools import cached_property
    n = []
    class A:
        @cached_property
        def v(self):
            n.append(1)
            return 5
    a = A()
    return a.v, a.v, n, A().v, n

def t_iter_proto():
    class It:
        def __init__(self): self.n = 0
        def __iter__(self): return self
        def __next__(self):
            self.n += 1
            if self.n > 3: raise StopIteration
            return self.n
    it = iter([1, 2, 3])
    a = next(it)
    rest = list(it)
    return list(It()), a, rest, next(it, "dflt"), list(zip(It(), "ab")), sum(It())

def t_star_call_order():
    log = []
    def a(x): log.append(x); return x
    def f(*p, **k): return p, k
    r = f(a(1), *[a(2)], k=a(3), **{"z": a(4)})
    d = {a("k1"): a("v1"), a("k2"): a("v2")}
    x = [0, 0]
    x[a(0)] = a(1)
    return r, log

def t_bool_ops():
    a = []
    b = a or [1]
    c = a and [1]
    return b, c is a, not not 3, (1, 0)[bool(a)], 5 if a else 6, [] == [], () == [], "" or None

def t_fstr_nested():
    w = 6
    return f"{'a':>{w}}|{1.5:{w}.2f}|{[1, 2]}|{w=}|{'x' if w else 'y'}|{{}}|{1000000:,}"

def t_class_scope():
    x = "outer"
    class A:
        x = "inner"
        l = [1, 2]
        y = x + "!"
        def m(self): return x
        @property
        def p(self): return self.l
    class B(A):
        l = A.l + [3]
    A.z = 5
    return A.y, A().m(), B().p, A().z, B.z

def t_sorted_stable():
    l = [("b", 1), ("a", 1), ("c", 0)]
    return sorted(l, key=lambda t: t[1]), min(l), max(l, key=lambda t: (t[1], t[0]))

def t_nested_dict_mutation():
    d = {"a": {"b": [1]}}
    e = dict(d)
    e["a"]["b"].append(2)
    f = {k: dict(v) for k, v in d.items()}
    f["a"]["b"] = 0
    for k in list(d):
        d[k + "x"] = 1
    return d, e, f

def t_recursion():
    def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
    def flat(l):
        for x in l:
            if isinstance(x, list): yield from flat(x)
            else: yield x
    return fib(10), list(flat([1, [2, [3]], 4]))

def t_global_state():
    STATE["n"] += 1
    a = STATE["n"]
    STATE["n"] = 0
    return a
STATE = {"n": 0}

def t_str_methods2():
    return ("a-b_c".translate(str.maketrans("-_", "  ")), "abcabc".count("b"), "Abc".swapcase(),
            "a1".isalnum(), "abc".endswith("c"), "  x".lstrip(), "x--".rstrip("-"), "a=b".split("=", 1),
            "x".join(map(str, range(3))), "prefix_name".removeprefix("prefix_"), "q".center(3, "*"))

def t_assert_order():
    log = []
    def f(a, b):
        log.append("f")
        assert a is not None, "a"
        assert isinstance(b, (int, float)) and b > 0, f"bad {b}"
        return a + b
    out = []
    for args in ((1, 2), (None, 2), (1, -1), (1, "x")):
        try:
            out.append(f(*args))
        except AssertionError as e:
            out.append(str(e))
    return out, log

def t_int_float():
    return (isinstance(True, int), isinstance(np.float64(1), float), isinstance(1, float),
            type(1) is int, type(1.0) is float, 3 / 2, 4 / 2, int(2.7), 1e3, 10 ** 3, 0.1 + 0.2 == 0.3,
            5 & 3, 5 | 3, 5 ^ 3, 1 << 3, ~5, -3 % 5, float("inf") > 1, complex(1, 2).real)
