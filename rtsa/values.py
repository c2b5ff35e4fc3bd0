"""Abstract values, decision diagrams and the abstract heap."""
import itertools
import sympy as sp

EMPTY = frozenset()


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


# --------------------------------------------------------------------------------------
class Num:
    """A numeric (or symbolic) value: one generic element of an array.

    expr   algebraic term
    kind   'float' python number, 'array' numpy array, 'sym' sympy expression
    shape  tokens of the inputs whose shapes are broadcast in this value
    undef  definedness obligations (kind, expr) collected while computing the value
    alias  names of the objects whose memory may be shared with this value
    """

    __slots__ = ("expr", "kind", "shape", "undef", "alias", "_h")

    def __init__(self, expr, kind="float", shape=EMPTY, undef=EMPTY, alias=EMPTY):
        self.expr = expr
        self.kind = kind
        self.shape = shape
        self.undef = undef
        self.alias = alias
        self._h = None

    def with_(self, **kw):
        d = dict(expr=self.expr, kind=self.kind, shape=self.shape, undef=self.undef,
                 alias=self.alias)
        d.update(kw)
        return Num(**d)

    def _key(self):
        return (self.expr, self.kind, self.shape, self.undef, self.alias)

    def __eq__(self, o):
        return self is o or (isinstance(o, Num) and self._key() == o._key())

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.expr, self.kind))
        return self._h

    def __repr__(self):
        return f"Num({self.expr})"


class Arr:
    """An array with a known leading axis."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Arr) and self.items == o.items

    def __hash__(self):
        return hash(("Arr", self.items))

    def __repr__(self):
        return f"Arr{self.items}"


class BoolEl:
    """An elementwise boolean array."""

    __slots__ = ("tree", "shape")

    def __init__(self, tree, shape=EMPTY):
        self.tree = tree
        self.shape = shape

    def __eq__(self, o):
        return isinstance(o, BoolEl) and (self.tree, self.shape) == (o.tree, o.shape)

    def __hash__(self):
        return hash(("BoolEl", self.tree))

    def __repr__(self):
        return f"BoolEl({self.tree})"


class Opq:
    """An uninterpreted application (structural equality)."""

    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Opq) and hash(self) == hash(o)
                             and self.op == o.op and self.args == o.args)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.args))
        return self._h

    def __repr__(self):
        if self.op == "attr":
            return f"{self.args[0]!r}.{self.args[1]}"
        if self.op == "call":
            kw = [f"{k}={v!r}" for k, v in self.args[2]]
            return f"{self.args[0]!r}({', '.join([*map(repr, self.args[1]), *kw])})"
        return f"{self.op}({', '.join(map(repr, self.args))})"


class Star:
    """Unknown number of elements of an opaque iterable inside a sequence."""

    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value

    def __eq__(self, o):
        return isinstance(o, Star) and self.value == o.value

    def __hash__(self):
        return hash(("Star", self.value))

    def __repr__(self):
        return f"*{self.value!r}"


class Ext:
    """An object of an external library, identified by its dotted path."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and self.path == o.path

    def __hash__(self):
        return hash(("Ext", self.path))

    def __repr__(self):
        return self.path


class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and self.id == o.id

    def __hash__(self):
        return hash(("Ref", self.id))

    def __repr__(self):
        return f"#{self.id}"


class _Ident:
    _n = itertools.count()

    def __repr__(self):
        return f"<{type(self).__name__} {getattr(self, 'name', '')}>"


class Func(_Ident):
    def __init__(self, node, name, module, frame, defaults, kwdefaults, qualname, path):
        self.node, self.name, self.module, self.frame = node, name, module, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qualname, self.path = qualname, path
        self.cls = None
        self.is_gen = False
        self.attrs = {}


class Native(_Ident):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and self.func == o.func and self.self == o.self

    def __hash__(self):
        return hash((self.func, self.self))

    def __repr__(self):
        return f"<bound {self.func!r} of {self.self!r}>"


class Partial:
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, tuple(args), tuple(kwargs.items())

    def __eq__(self, o):
        return isinstance(o, Partial) and (self.func, self.args, self.kwargs) == (
            o.func, o.args, o.kwargs)

    def __hash__(self):
        return hash((self.func, self.args, self.kwargs))

    def __repr__(self):
        return f"partial({self.func!r}, {self.args}, {self.kwargs})"


class Cached(_Ident):
    """functools.lru_cache / functools.cache around a function."""

    def __init__(self, func, ref):
        self.func, self.ref = func, ref
        self.name = getattr(func, "name", "?")


class CachedProp(_Ident):
    def __init__(self, func):
        self.func = func
        self.name = getattr(func, "name", "?")


class NT(tuple):
    """Named tuple (cls: class object with the attribute $fields)."""
    def __new__(cls, items, ntcls):
        t = tuple.__new__(cls, items)
        t.cls = ntcls
        return t


class Prop(_Ident):
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel
        self.name = getattr(fget, "name", "?")


class StaticM(_Ident):
    def __init__(self, func):
        self.func = func


class ClassM(_Ident):
    def __init__(self, func):
        self.func = func


class CtxFactory(_Ident):
    """contextlib.contextmanager around a generator function."""

    def __init__(self, func):
        self.func = func
        self.name = getattr(func, "name", "?")


class CtxObj(_Ident):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class SuperObj(_Ident):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class DictView(_Ident):
    """obj.__dict__"""

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, DictView) and o.ref == self.ref

    def __hash__(self):
        return hash(("DictView", self.ref))


class Lam:
    """A compiled (lambdified) expression."""

    __slots__ = ("vars", "body", "islist", "backend")

    def __init__(self, vars, body, islist, backend):
        self.vars, self.body, self.islist, self.backend = vars, body, islist, backend

    def __eq__(self, o):
        return isinstance(o, Lam) and (self.vars, self.body, self.islist, self.backend
                                       ) == (o.vars, o.body, o.islist, o.backend)

    def __hash__(self):
        return hash((self.vars, self.body))

    def __repr__(self):
        return f"Lam({self.vars}, {self.body})"


class Exc(_Ident):
    def __init__(self, cls, args=(), cause=None):
        self.cls, self.args, self.cause = cls, args, cause
        self.where = None

    def __repr__(self):
        return f"{self.cls!r}({', '.join(map(str, self.args))})"


# --------------------------------------------------------------------------------------
# decision diagrams over condition atoms


class Atoms:
    def __init__(self):
        self.keys = []
        self.index = {}

    def get(self, key):
        i = self.index.get(key)
        if i is None:
            i = self.index[key] = len(self.keys)
            self.keys.append(key)
        return i


class Gate:
    __slots__ = ("atom", "hi", "lo", "_h")

    def __init__(self, atom, hi, lo):
        self.atom, self.hi, self.lo = atom, hi, lo
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Gate) and hash(self) == hash(o)
                             and self.atom == o.atom and same(self.hi, o.hi)
                             and same(self.lo, o.lo))

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.atom, self.hi, self.lo))
        return self._h

    def __repr__(self):
        return f"[a{self.atom}? {self.hi!r} : {self.lo!r}]"


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    try:
        return a == b
    except Exception:
        return False


def mk(atom, hi, lo):
    return hi if same(hi, lo) else Gate(atom, hi, lo)


def _top(*vs):
    t = None
    for v in vs:
        if isinstance(v, Gate) and (t is None or v.atom < t):
            t = v.atom
    return t


def _cof(v, atom, val):
    if isinstance(v, Gate) and v.atom == atom:
        return v.hi if val else v.lo
    return v


def lift(f, *vs):
    """Apply f to the leaves of gated values."""
    t = _top(*vs)
    if t is None:
        return f(*vs)
    return mk(t, lift(f, *[_cof(v, t, True) for v in vs]),
              lift(f, *[_cof(v, t, False) for v in vs]))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    t = _top(c, a, b)
    return mk(t, ite(_cof(c, t, True), _cof(a, t, True), _cof(b, t, True)),
              ite(_cof(c, t, False), _cof(a, t, False), _cof(b, t, False)))


def t_not(c):
    return ite(c, False, True)


def t_and(a, b):
    if a is True:
        return b
    if a is False or b is False:
        return False
    return ite(a, b, False)


def t_or(a, b):
    if a is False:
        return b
    return ite(a, True, b)


def restrict(v, c):
    """Simplify v under the assumption that the condition c holds."""
    if c is True or c is False or not isinstance(v, Gate):
        return v
    t = _top(v, c)
    c1, c0 = _cof(c, t, True), _cof(c, t, False)
    if c1 is False:
        return restrict(_cof(v, t, False), c0)
    if c0 is False:
        return restrict(_cof(v, t, True), c1)
    return mk(t, restrict(_cof(v, t, True), c1), restrict(_cof(v, t, False), c0))


def leaves(v, path=()):
    """All (path, leaf) pairs of a gated value."""
    if isinstance(v, Gate):
        yield from leaves(v.hi, path + ((v.atom, True),))
        yield from leaves(v.lo, path + ((v.atom, False),))
    else:
        yield path, v


# --------------------------------------------------------------------------------------
class HObj:
    __slots__ = ("kind", "data", "cls", "name", "extra", "owner")

    def __init__(self, kind, data, cls=None, name=None, extra=None, owner=None):
        self.kind, self.data, self.cls = kind, data, cls
        self.name, self.extra, self.owner = name, extra, owner

    def copy(self, owner):
        d = self.data
        if isinstance(d, dict):
            d = dict(d)
        return HObj(self.kind, d, self.cls, self.name, self.extra, owner)


class State:
    """Abstract state: heap and the condition under which it is reached."""

    __slots__ = ("heap", "pc", "token")
    _ids = itertools.count(1)

    def __init__(self, heap=None, pc=True):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.token = object()

    def fork(self, cond):
        s = State(dict(self.heap), t_and(self.pc, cond))
        self.token = object()  # both copies must copy before writing
        return s

    def get(self, ref):
        return self.heap[ref.id]

    def mut(self, ref):
        o = self.heap[ref.id]
        if o.owner is not self.token:
            o = self.heap[ref.id] = o.copy(self.token)
        return o

    def new(self, kind, data, cls=None, name=None, extra=None):
        i = next(State._ids)
        self.heap[i] = HObj(kind, data, cls, name, extra, self.token)
        return Ref(i)


def merge_states(states, *valuelists):
    """Join of states with disjoint conditions; gates the values that differ."""
    if len(states) == 1:
        return (states[0], *[v[0] for v in valuelists])
    s, vals = states[0], [v[0] for v in valuelists]
    for i in range(1, len(states)):
        s, vals = _merge2(s, states[i], vals, [v[i] for v in valuelists])
    return (s, *vals)


def _merge2(a, b, va, vb):
    pc = t_or(a.pc, b.pc)
    cond = restrict(a.pc, pc)
    heap = {}
    for i in a.heap.keys() | b.heap.keys():
        x, y = a.heap.get(i), b.heap.get(i)
        if x is y or y is None:
            heap[i] = x
        elif x is None:
            heap[i] = y
        else:
            heap[i] = _merge_obj(cond, x, y)
    s = State(heap, pc)
    return s, [ite(cond, x, y) for x, y in zip(va, vb)]


def _merge_obj(cond, x, y):
    if isinstance(x.data, dict):
        if x.kind == "cache":
            d = {k: v if k in y.data and same(y.data[k], v) else
                 ite(cond, x.data.get(k, UNDEF), y.data.get(k, UNDEF))
                 for k, v in [*y.data.items(), *x.data.items()]}
        elif x.data == y.data and list(x.data) == list(y.data):
            d = x.data
        else:
            d = {}
            for k in [*x.data, *(k for k in y.data if k not in x.data)]:
                d[k] = ite(cond, x.data.get(k, UNDEF), y.data.get(k, UNDEF))
    else:
        d = ite(cond, x.data, y.data)
    return HObj(x.kind, d, x.cls, x.name, x.extra, None)


class DictC:
    """Immutable ordered dict content: hkey -> (key, value)."""

    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    def __eq__(self, o):
        return isinstance(o, DictC) and list(self.d) == list(o.d) and all(
            same(v[1], o.d[k][1]) for k, v in self.d.items())

    def __hash__(self):
        if self._h is None:
            self._h = hash(tuple(self.d))
        return self._h

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.d.values()) + "}"
