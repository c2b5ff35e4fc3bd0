"""C31, C32: logging and documentation helpers."""
import itertools
import re

from ..harness import A, C, DEAD, F, Path, X, exc_name, short
from ..model import Models
from ..report import Mismatch, Unclear, domain
from ..values import *  # noqa
from .package import feasible

# -- C31 ---------------------------------------------------------------------------------
LOG_CLIENT = '''
def setl(args, kw):
    return rt1_model.set_loglevel(*args, **kw)
'''
LEVELS = ["notset", "debug", "info", "warning", "error", "critical"]
NUMBER = {"NOTSET": 0, "DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
FIELDS = {  # documented content of the presets
    "plain": {"message"}, "basic": {"asctime", "message"},
    "timed": {"asctime", "levelname", "message"},
    "debug": {"asctime", "levelname", "name", "message"},
}
FORMATS = [*FIELDS, "%(message)s", "%(levelname)s:%(name)s:%(message)s", "X %(message)s",
           "%(asctime)s: %(message)s"]


def ext_calls(events, r):
    """(object, method name, args, kwargs, pc, where) of the calls of logging methods."""
    for kind, data, pc, where, stack in events:
        if kind != "ext-call":
            continue
        f, a, k = data
        if isinstance(f, Opq) and f.op == "attr":
            yield f.args[0], f.args[1], a, dict(k), pc, where
        elif isinstance(f, Ext):
            yield None, f.path, a, dict(k), pc, where


def is_logger(o):
    return isinstance(o, Opq) and o.op == "call" and repr(o.args[0]) == "logging.getLogger"


def logger_name(o):
    a = o.args[1] or tuple(v for k, v in o.args[2])
    return a[0] if a else None


def level_of(v):
    if isinstance(v, str):
        return NUMBER.get(v, v)
    if isinstance(v, Ext) and v.path.startswith("logging."):
        return NUMBER.get(v.path.split(".")[-1], v)
    return v


def own(o):
    n = logger_name(o)
    return isinstance(n, str) and (n == "rt1_model" or n.startswith("rt1_model."))


def c31(ctx):
    ctx.rule("each call sets the level of the package logger and of its handler; one "
             "handler is attached at most once; every format is applied; importing "
             "attaches nothing and changes no foreign logger")
    m = Models(LOG_CLIENT)

    class R:
        i = m.i

    def imp():
        for o, name, a, k, pc, where in ext_calls(m.s.import_events, R):
            if o is None:
                if name in ("logging.basicConfig", "logging.disable",
                            "logging.setLoggerClass", "logging.captureWarnings",
                            "logging.config.dictConfig") and feasible(R, pc):
                    raise Mismatch(f"{name}() is called on import at {where}")
                continue
            if not is_logger(o):
                continue
            if name == "addHandler" and "NullHandler" not in repr(a) and feasible(R, pc):
                raise Mismatch(f"importing the package attaches a handler at {where}")
            if name in ("setLevel", "removeHandler", "addFilter") and not own(o) and (
                    feasible(R, pc)):
                raise Mismatch(f"importing changes the logger {logger_name(o)!r} at {where}")
        for kind, data, pc, where, stack in m.s.import_events:
            if kind == "setattr-ext" and is_logger(data[0]) and not own(data[0]):
                raise Mismatch(f"importing changes the logger {logger_name(data[0])!r} at "
                               f"{where}")
    ctx.obligation("import", imp)
    seqs = []
    for lev, fmt in itertools.product([*LEVELS, "DEBUG", "Info", 10, 35, 0], FORMATS[:2]):
        seqs.append([((lev, fmt), {})])
    for fmt in FORMATS:
        seqs.append([(("info", fmt), {})])
        seqs.append([(("debug",), {"fmt": fmt})])
        seqs.append([((), {"level": "error", "fmt": fmt}), (("info", fmt), {})])
    seqs.append([(("info",), {})])
    seqs.append([(("debug", None), {})])
    some = [(("info",), {}), (("debug", "plain"), {}), (("error", None), {}),
            ((10, "basic"), {}), (("warning", "%(message)s"), {})]
    for n in (2, 3, 4) if ctx.thorough else (2, 3):
        seqs += [list(q) for q in itertools.product(some, repeat=n)]
    for seq in seqs:
        sequence(ctx, m, seq)


def sequence(ctx, m, seq):
    st = None
    added = []
    label = "; ".join(f"set_loglevel({', '.join([*map(repr, a), *(f'{x}={y!r}' for x, y in k.items())])})"
                      for a, k in seq)

    def f():
        nonlocal st
        for args, kw in seq:
            r = ctx.seen(m.run("setl", tuple(args), dict(kw), _state=st))
            ctx.no_raise(r)
            ctx.value(r)
            st = r.state
            one(ctx, r, args, kw, added)
    ctx.obligation(label, f)


def one(ctx, r, args, kw, added):
    level = kw.get("level", args[0] if args else None)
    fmt = kw.get("fmt", args[1] if len(args) > 1 else "timed")
    want = NUMBER[level.upper()] if isinstance(level, str) else level
    lev, hlev, form = {}, {}, None
    for o, name, a, k, pc, where in ext_calls(r.events, r):
        if not feasible(r, pc):
            continue
        sure = pc is True or all(l is True for p, l in leaves(pc))
        if not sure:
            raise Unclear(f"conditional call at {where}")
        vals = [*a, *k.values()]
        if o is None:
            continue
        if name == "addHandler":
            if not is_logger(o) or not own(o):
                raise Mismatch(f"a handler is attached to {short(o)} at {where}")
            added.append((vals[0], where))
            if len(added) > 1:
                raise Mismatch(f"a second handler is attached at {where}")
        elif name == "removeHandler" and added:
            added.pop()
        elif name == "setLevel":
            if is_logger(o):
                if not own(o):
                    raise Mismatch(f"the level of {short(o)} is changed at {where}")
                lev = level_of(vals[0])
            else:
                hlev[o] = level_of(vals[0])
        elif name == "setFormatter":
            form = o, vals[0], where
    if lev != want:
        raise Mismatch(f"the level of the logger is {lev!r} instead of {want}")
    if not added:
        raise Mismatch("no handler is attached")
    h = added[0][0]
    if h not in hlev:
        raise Mismatch(f"the level of the handler is not set (but of {list(hlev)})")
    if hlev[h] != want:
        raise Mismatch(f"the level of the handler is {hlev[h]!r} instead of {want}")
    if fmt is None:
        return
    if form is None or form[0] != h:
        raise Mismatch("the format of the attached handler is not set")
    o = form[1]
    if not (isinstance(o, Opq) and o.op == "call" and "Formatter" in repr(o.args[0])):
        raise Unclear(f"formatter {short(o)} at {form[2]}")
    vals = dict(o.args[2])
    text = o.args[1][0] if o.args[1] else vals.get("fmt")
    if not isinstance(text, str):
        raise (Mismatch if text is None else Unclear)(f"format {text!r} at {form[2]}")
    date = vals.get("datefmt", o.args[1][1] if len(o.args[1]) > 1 else None)
    if isinstance(date, str) and "%(" in date:
        raise Mismatch(f"date format {date!r} at {form[2]}")
    if fmt in FIELDS:
        got = set(re.findall(r"%\((\w+)\)", text)) - {"msecs"}
        if got != FIELDS[fmt]:
            raise Mismatch(f"format {fmt!r} has the fields {sorted(got)} instead of "
                           f"{sorted(FIELDS[fmt])} at {form[2]}")
    elif text != fmt:
        raise Mismatch(f"format {text!r} is used instead of {fmt!r} at {form[2]}")


# -- C32 ---------------------------------------------------------------------------------
# model of the documented interface of numpydoc's NumpyDocString
DOCSCRAPE = '''
DOCS = {}


def define(text, sections):
    DOCS[text] = sections


class Parameter:
    def __init__(self, name, type, desc):
        self.name = name
        self.type = type
        self.desc = desc

    def __getitem__(self, k):
        return [self.name, self.type, self.desc][k]


LISTS = ["Summary", "Extended Summary", "Returns", "Yields", "Receives", "Raises", "Warns",
         "Other Parameters", "Attributes", "Methods", "See Also", "Notes", "Warnings"]


class ParseError(Exception):
    pass


class NumpyDocString:
    def __init__(self, docstring, config=None):
        if docstring == "unparsable":
            raise ValueError("The section Parameters appears twice")
        if docstring == "malformed":
            raise ParseError("not a item name")
        self.broken = docstring == "broken"
        self._parsed = {"Signature": "", "References": "", "Examples": "", "index": {}}
        for key in LISTS:
            self._parsed[key] = []
        self._parsed["Parameters"] = []
        if docstring in DOCS:
            for name, desc in DOCS[docstring]:
                if name in LISTS:
                    self._parsed[name].append(desc)
                elif name.startswith("?"):
                    self._parsed["Parameters"].append(Parameter(name[1:], "", [desc]))
                else:
                    self._parsed["Parameters"].append(Parameter(name, "type", [desc]))

    def __getitem__(self, key):
        return self._parsed[key]

    def __setitem__(self, key, val):
        if key not in self._parsed:
            raise ValueError("Unknown section " + key)
        self._parsed[key] = val

    def __iter__(self):
        return iter(self._parsed)

    def __len__(self):
        return len(self._parsed)

    def __str__(self):
        if self.broken:
            raise ValueError("cannot write")
        out = ""
        for p in self._parsed["Parameters"]:
            out = out + p.name + "=" + " ".join(p.desc) + ";"
        return out
'''
DOC_CLIENT = '''
from rt1_model._numpydoc_docscrape import define
from rt1_model import volume, surface

for _text, _sec in [
    ("own-none", []), ("own-x", [("x", "ox")]), ("own-xy", [("x", "ox"), ("y", "oy")]),
    ("own-sum", [("Summary", "s"), ("y", "oy"), ("Notes", "n")]),
    ("par-x", [("x", "px")]), ("par-y", [("y", "py"), ("Notes", "pn")]),
    ("par-yx", [("y", "qy"), ("x", "qx")]), ("par-sum", [("Summary", "ps")]),
    ("par-z", [("z", "pz"), ("Returns", "r")]),
    # parameters without a type
    ("own-xu", [("?x", "ox")]), ("own-yu", [("y", "oy"), ("?x", "ox")]),
    ("par-xu", [("?x", "px"), ("Returns", "r")]),
]:
    define(_text, _sec)


class Strict:
    """An object whose documentation cannot be changed."""

    def __setattr__(self, name, value):
        raise AttributeError("read-only")


def deco(kind, own, parents):
    from rt1_model.helpers import append_numpy_docstring
    if kind == "function":
        def f(a):
            return a
        f.__doc__ = own
    elif kind == "class":
        class f:
            attr = 3
        f.__doc__ = own
    else:
        f = Strict()
    ps = []
    for k, doc in enumerate(parents):
        if k % 2:
            def p():
                return 1
        else:
            class p:
                attr = 1
        p.__doc__ = doc
        ps.append(p)
    res = append_numpy_docstring(*ps)(f)
    out = [res is f, res.__doc__]
    for p in ps:
        out.append(p.__doc__)
    return out


def classes():
    out = []
    for m in (volume, surface):
        for c in ("Isotropic", "HenyeyGreenstein", "LinComb"):
            out.append(isinstance(getattr(m, c), type))
    return out


def has():
    try:
        from rt1_model.helpers import append_numpy_docstring
    except ImportError:
        return False
    return True
'''
SECT = {"own-none": [], "own-x": ["x"], "own-xy": ["x", "y"], "own-sum": ["y"],
        "par-x": ["x"], "par-y": ["y"], "par-yx": ["y", "x"], "par-sum": [],
        "par-z": ["z"], "own-xu": ["x"], "own-yu": ["y", "x"], "par-xu": ["x"], None: [], "": [], "unparsable": [],
        "malformed": [], "broken": [], "other": []}
BAD = {"unparsable", "malformed"}


def c32(ctx):
    ctx.rule("the decorator returns the decorated object on every path, never raises, keeps "
             "own parameter descriptions and does not modify the parents")
    m = Models(DOC_CLIENT, overlay={"rt1_model._numpydoc_docscrape": DOCSCRAPE})

    def imp():
        if m.s.mod is None:
            raise Mismatch("import fails: " + "; ".join(
                f"{exc_name(e)}({', '.join(map(str, e.args))}) at {e.where}"
                for _, e in m.s.raised))
    if not ctx.obligation("import of the documented classes", imp):
        return
    r = m.run("has")
    if r.value is not True:
        ctx.maybe("decorator", "append_numpy_docstring is not available")
        return
    owns = [None, "", "own-none", "own-x", "own-xy", "own-sum", "own-xu", "own-yu", "unparsable",
            "malformed", "broken"]
    pars = [None, "", "par-x", "par-y", "par-yx", "par-sum", "par-z", "par-xu", "unparsable",
            "malformed"]
    lists = [()] + [(p,) for p in pars] + list(itertools.product(pars, repeat=2))
    if ctx.thorough:
        lists += list(itertools.product(pars[2:], repeat=3))
    for kind in ("function", "class", "read-only"):
        for o in owns if kind != "read-only" else ["own-x"]:
            for ps in lists:
                if kind == "class" and len(ps) > 1 and not ctx.thorough:
                    continue
                case(ctx, m, kind, o, ps)


def case(ctx, m, kind, own_, parents):
    r = ctx.seen(m.run("deco", kind, own_, list(parents)))

    def f():
        ctx.no_raise(r)
        v = ctx.elements(r, ctx.value(r), len(parents) + 2)
        for pt, t in ctx.paths_of(r, v):
            same, doc, *docs = t.items
            if same is not True:
                raise (Mismatch if same is False or same is None else Unclear)(
                    f"the decorator does not return the decorated object if {pt.text()}")
            for p, d in zip(parents, docs):
                if d != p:
                    raise Mismatch(f"the docstring of a parent is changed to {d!r}")
            if kind == "read-only":
                continue
            if doc == own_ or doc == "" and not own_:
                # (the documentation is not modified)
                if not BAD & {own_, *parents} and own_ != "broken" and any(
                        set(SECT[p]) - set(SECT[own_]) for p in parents if p):
                    raise Mismatch("the parameters of the parents are not appended")
                continue
            if not isinstance(doc, str):
                raise Unclear(f"the docstring is {short(doc)}")
            items = [x.split("=") for x in doc.split(";") if x]
            names = [x[0] for x in items]
            for n in SECT[own_]:
                d = [x[1] for x in items if x[0] == n]
                if d != ["o" + n]:
                    raise Mismatch(f"parameter {n} of the decorated object is described by "
                                   f"{d}")
            if BAD & set(parents):
                continue
            for p in parents:
                for n in SECT[p]:
                    if names.count(n) != 1:
                        raise Mismatch(f"parameter {n} is described {names.count(n)} times")
            extra = set(names) - {n for p in (own_, *parents) for n in SECT[p]}
            if extra:
                raise Mismatch(f"unknown parameters {extra} are described")
    ctx.obligation(f"{kind} with docstring {own_!r}, parents {parents}", f, r)
