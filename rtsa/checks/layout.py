"""C09: layout of the jacobian."""
import itertools
import re

from ..harness import A, DEAD, F, Path, S, X, short
from ..model import BACKENDS, Config, Models, gen_coef, gen_phase
from ..report import Mismatch, Tup, Unclear, domain
from ..values import *  # noqa
from .physics import UNITS, entries, pick, unit_value

CLIENT = '''
def jac(args, plist, fmt):
    R = model(*args)
    R.update_params(**args[4])
    return R.jacobian(param_list=plist, format=fmt)


def jac_fmt_first(args, plist, fmt):
    R = model(*args)
    R.update_params(**args[4])
    R.jacobian(plist, "list")
    return R.jacobian(plist, fmt)


def jac_default(args):
    R = model(*args)
    R.update_params(**args[4])
    return R.jacobian()


def twice(args, plist, fmt):
    R = model(*args)
    R.update_params(**args[4])
    R.calc()
    R.jacobian(param_list=["tau", "omega"])
    return R.jacobian(param_list=plist, format=fmt)
'''

def inner_gate(v, seen=None):
    """A gate that occurs inside of an opaque value."""
    if isinstance(v, Gate):
        return v
    if isinstance(v, Star):
        v = (v.value,)
    if isinstance(v, Opq):
        v = v.args
    if isinstance(v, (tuple, list)):
        for x in v:
            g = inner_gate(x)
            if g is not None:
                return g
    return None


def replaced(v, g, x):
    if v is g:
        return x
    if isinstance(v, Opq):
        return Opq(v.op, *[replaced(y, g, x) for y in v.args])
    if isinstance(v, Star):
        return Star(replaced(v.value, g, x))
    if isinstance(v, (tuple, list)):
        return type(v)(replaced(y, g, x) for y in v)
    return v


def split(ctx, r, pt, l):
    """(path, value) with the gates inside of the value resolved."""
    g = inner_gate(l)
    if g is None:
        yield pt, l
        return
    for p, x in leaves(g):
        d = dict(pt.path)
        if any(d.setdefault(a, b) != b for a, b in p):
            continue
        q = Path(r.i, tuple(d.items()), domain)
        if q.feasible:
            yield from split(ctx, r, q, replaced(l, g, x))


SYM = {"tau": "tau", "omega": "omega", "NormBRDF": "N", "bsf": "bsf", "x": "x", "y": "y"}
SPARSE = ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "bsr_matrix",
          "csr_array", "csc_array", "coo_array", "dok_matrix")
SAME = ("tocsr", "tocsc", "tocoo", "tolil", "copy", "asformat", "tobsr", "todok",
        "conj", "conjugate", "toarray", "todense")


def denote(v):
    """(axis, blocks) of an (opaque) sparse matrix expression.

    axis is 'rows' or 'cols'; blocks along this axis: ('one', Num) a single dense row (or
    column) holding all values, ('diag', Num) one row (column) per parameter value.
    """
    if not isinstance(v, Opq):
        raise Unclear(f"not a sparse matrix: {short(v)}")
    if v.op == "attr" and v.args[1] == "T":
        return flip(denote(v.args[0]))
    if v.op != "call":
        raise Unclear(f"cannot interpret {short(v)}")
    fn, args, kw = v.args[0], v.args[1], dict(v.args[2])
    if isinstance(fn, Opq) and fn.op == "attr":
        if fn.args[1] in SAME:
            return denote(fn.args[0])
        if fn.args[1] == "transpose" and not args:
            return flip(denote(fn.args[0]))
        raise Unclear(f"cannot interpret {short(v)}")
    if not isinstance(fn, Ext) or not fn.path.startswith("scipy.sparse."):
        raise Unclear(f"cannot interpret {short(v)}")
    name = fn.path.split(".")[-1]
    first = args[0] if args else kw.get("blocks", kw.get("mats", kw.get("arg1")))
    if name in SPARSE:
        if isinstance(first, Num):
            return dense(first)
        if isinstance(first, Opq):
            try:
                return denote(first)
            except Unclear:
                pass
        if isinstance(first, (tuple, list)) or isinstance(first, Opq) and (
                first.op == "list"):
            items = seq(first)
            if len(items) == 1 and isinstance(items[0], Num):
                return dense(items[0])
        raise Unclear(f"cannot interpret {short(v)}")
    if name == "block_diag":
        first, kind = block_rows(first)
        if isinstance(first, Num) and layout(first) == "full":
            if kind == "1d":
                raise Mismatch("block_diag() of one-dimensional arrays (it needs lists or "
                               "matrices)")
            return "cols" if kind == "col" else "rows", [("diag", first)]
        raise Unclear(f"cannot interpret {short(v)}")
    if name in ("vstack", "hstack"):
        axis = "rows" if name == "vstack" else "cols"
        out = []
        for x in seq(first):
            star = isinstance(x, Star)
            ax, bl = denote(x.value if star else x)
            if star and ax != "rows":
                raise Unclear(f"iteration over {short(x)}")
            if ax != axis:
                raise Mismatch(f"{name} of matrices whose parameters are along the "
                               f"{ax[:-1]} axis")
            out += bl
        return axis, out
    raise Unclear(f"cannot interpret {short(v)}")


def block_rows(v):
    """(array, kind): the blocks ``v`` are the rows of the array; kind is '1d' for
    one-dimensional arrays, 'list' for lists, 'row' / 'col' for matrices."""
    if isinstance(v, (tuple, list)) and len(v) == 1 and isinstance(v[0], Star):
        v = v[0]
    if isinstance(v, Opq) and v.op == "tolist" and len(v.args) == 1:
        return block_rows(v.args[0])[0], "list"
    if isinstance(v, Opq) and v.op in ("list", "tuple") and len(v.args) == 1:
        return block_rows(v.args[0])
    if isinstance(v, Star):
        return block_rows(v.value)
    if isinstance(v, Opq) and v.op == "map" and len(v.args) == 1:
        return row_of(v.args[0])
    return v, "1d"


OPAQUE = {}     # symbols of opaque values


def row_of(v):
    """(array, kind) of a block that is computed from one row of the array."""
    if isinstance(v, Num) and v.expr in OPAQUE:
        for what in [t[0] for t in v.shape if isinstance(t, tuple)]:
            if what == "atleast_2d":
                x, k = row_of(OPAQUE[v.expr])
                return x, "row" if k in ("1d", "list") else k
            if what == "ravel":
                return row_of(OPAQUE[v.expr])[0], "1d"
            raise Unclear(f"cannot interpret the block {short(v)}")
        v = OPAQUE[v.expr]
    if isinstance(v, Opq) and v.op == "elem":
        return block_rows(v.args[0])
    if isinstance(v, Opq) and v.op == "item" and len(v.args) == 2:
        x, k = v.args
        if isinstance(k, Opq) and k.op == "elem" and isinstance(k.args[0], Opq) and (
                k.args[0].op == "range") and is_len(k.args[0].args, x):
            return block_rows(x)
    if isinstance(v, Opq) and v.op == "tolist" and len(v.args) == 1:
        return row_of(v.args[0])[0], "list"
    if isinstance(v, Opq) and v.op in ("list", "tuple") and len(v.args) == 1:
        return nested(row_of(v.args[0]))
    if isinstance(v, (tuple, list)) and len(v) == 1:
        return nested(row_of(v[0]))
    if isinstance(v, Opq) and v.op == "call" and isinstance(v.args[0], Ext):
        name = v.args[0].path.split(".")[-1]
        if len(v.args[1]) == 1 and (name in ("atleast_2d", "csr_matrix", "csc_matrix",
                                             "coo_matrix", "matrix")):
            x, k = row_of(v.args[1][0])
            return x, "row" if k in ("1d", "list") else k
        if len(v.args[1]) == 1 and name in ("asarray", "array", "ravel"):
            x, k = row_of(v.args[1][0])
            if k in ("1d", "list"):
                return x, "1d"
    if isinstance(v, Opq) and v.op == "call" and isinstance(v.args[0], Opq) and (
            v.args[0].op == "attr"):
        obj, name = v.args[0].args
        x, k = row_of(obj)
        if name in ("ravel", "flatten", "squeeze") and not v.args[1]:
            return x, "1d"
        if name == "tolist" and k == "1d":
            return x, "list"
        if name in ("copy", "astype"):
            return x, k
        if name == "reshape" and not v.args[2]:
            to = tuple(v.args[1])
            if len(to) == 1 and isinstance(to[0], (tuple, list)):
                to = tuple(to[0])
            if to in ((-1,), (1, -1), (-1, 1)):
                return x, {(-1,): "1d", (1, -1): "row", (-1, 1): "col"}[to]
    raise Unclear(f"cannot interpret the block {short(v)}")


def nested(r):
    """[row]: a list with one row is a matrix with one row."""
    if r[1] in ("1d", "list"):
        return r[0], "list"
    raise Unclear("list of matrices")


def is_len(args, x):
    """range(len(x)) / range(x.shape[0])"""
    n = args[0] if len(args) == 1 else args[1] if args[0] == 0 else None
    if isinstance(n, Num) and n.expr in OPAQUE:
        n = OPAQUE[n.expr]
    return isinstance(n, Opq) and n.op in ("len", "shape", "item") and bool(n.args) and (
        n.args[0] == x or isinstance(n.args[0], Opq) and n.args[0].op == "shape"
        and n.args[0].args[0] == x and n.args[1] == 0)


def seq(v):
    if isinstance(v, (tuple, list)):
        return list(v)
    if isinstance(v, Opq) and v.op in ("list", "tuple"):
        return list(v.args)
    raise Unclear(f"cannot interpret the sequence {short(v)}")


def flip(d):
    return ("cols" if d[0] == "rows" else "rows"), d[1]


VIEWS = {"ravel": "row", "atleast_2d": None, "newaxis['n']": "row",
         "newaxis['n', ':']": "row", "newaxis[':', 'n']": "col", "T": "flip",
         "expand_dims0": "row", "expand_dims1": "col", "expand_dims-1": "col"}


def layout(n):
    """'full', 'row' (all values along one row) or 'col'."""
    return layout_of(n.shape)


def layout_of(shape):
    if len(shape) == 1:
        (k,) = shape
        if isinstance(k, tuple) and isinstance(k[0], str):
            inner, what = layout_of(k[1]), k[0]
            if what == "ravel":
                return "row"
            if "reshape" in what:
                if "(1, -1)" in what:
                    return "row"
                if "(-1, 1)" in what:
                    return "col"
                text = what.replace("\\", "")
                for pat, to in ((r"\(1, size\((.*?)\)\)", "row"),
                                (r"\(size\((.*?)\), 1\)", "col")):
                    g = re.search(pat, text)
                    if g and set(re.findall(r"'(\w+)'", g.group(1))) == set(k[1]):
                        return to
            if inner == "full":
                raise Unclear(f"shape {sorted(map(str, shape))}")
            to = VIEWS.get(what, "?")
            if what == "atleast_2d":
                return inner
            if to == "flip":
                return {"row": "col", "col": "row"}[inner]
            if to in ("row", "col") and inner == "row":
                return to
    if any(isinstance(k, tuple) for k in shape):
        raise Unclear(f"shape {sorted(map(str, shape))}")
    return "full"


def dense(n):
    lay = layout(n)
    if lay == "row":
        return "rows", [("one", n)]
    if lay == "col":
        return "cols", [("one", n)]
    if lay == "full":
        raise Mismatch("the values of a parameter with one value are not flattened to a "
                       "single column")
    raise Unclear(f"shape {n.shape}")


def c09(ctx):
    ctx.rule("entries / columns of jacobian() follow param_list (every order), each entry "
             "equals the derivative for its own parameter; one dense column for constant "
             "and block-diagonal columns for other parameters; invalid names / formats "
             "raise")
    m = Models(CLIENT)
    keys = ("tau", "omega", "NormBRDF", "bsf", "x", "y")
    lists = [list(p) for p in itertools.permutations(("tau", "omega", "x"))]
    lists += [[k] for k in keys] + [list(keys), list(reversed(keys))]
    lists += [["y", "x", "bsf"], ["x", "x"], ["NormBRDF", "y", "NormBRDF"], ["x", "tau"],
              ["bsf", "tau"], ["y", "NormBRDF", "omega", "x"]]
    units = UNITS if ctx.thorough else [UNITS[2], UNITS[0]]

    def cfg_of(unit, b, g, const):
        par = {k: (F if k in const else A)(SYM[k]) for k in keys}
        return Config(backend=b, geom=g, vpars=("x", "y"), spars=("y", "x"), params=par,
                      opts=dict(unit))

    def oracle(cfg, unit, key):
        return unit_value(cfg, cfg.spec(), unit).diff(S(SYM[key]))

    def allshape(cfg):
        ang = {"t_0", "p_0"} | ({"t_ex", "p_ex"} if cfg.geom == "bi" else set())
        return frozenset(ang | {t for v in cfg.params.values() for t in v.shape})

    for unit in units:
        for b, g in (("symengine", "mono"), ("sympy", "bi")):
            cfg = cfg_of(unit, b, g, ())
            for fn in ("jac", "twice"):
                for pl in lists:
                    if fn == "twice" and len(pl) < 2:
                        continue
                    r = ctx.seen(m.run(fn, cfg.args(), pl, "list"))

                    def f():
                        v = entries(ctx, r, len(pl))
                        for k, key in enumerate(pl):
                            ctx.same(r, pick(v, k), oracle(cfg, unit, key),
                                     f"entry {k} ({key})")
                            for pt, l in ctx.paths_of(r, pick(v, k)):
                                if isinstance(l, Num) and l.shape != allshape(cfg):
                                    if any(isinstance(t, tuple) for t in l.shape):
                                        raise Unclear(f"shape {l.shape} of entry {key}")
                                    raise Mismatch(
                                        f"entry {key} does not have the shape of the "
                                        f"measurements (only {sorted(l.shape)})")
                    ctx.obligation(f"list {pl} {fn} [{cfg.label()}]", f, r)
            r = ctx.seen(m.run("jac_default", cfg.args()))

            def fd():
                v = entries(ctx, r, 3)
                for k, key in enumerate(("omega", "tau", "NormBRDF")):
                    ctx.same(r, pick(v, k), oracle(cfg, unit, key), f"entry {k} ({key})")
            ctx.obligation(f"default list [{cfg.label()}]", fd, r)
            # sparse format
            for const in ((), ("tau", "x"), ("omega", "y", "bsf"), keys):
                cfg = cfg_of(unit, b, g, const)
                for fn in ("jac", "jac_fmt_first"):
                    for pl in lists:
                        if fn == "jac_fmt_first" and len(pl) < 3:
                            continue
                        r = ctx.seen(m.run(fn, cfg.args(), pl, "scipy_least_squares"))

                        def f2():
                            ctx.no_raise(r)
                            OPAQUE.clear()
                            OPAQUE.update(r.i.sym_opq)
                            n = 0
                            for pt, l in (y for x in ctx.paths_of(r, ctx.value(r))
                                          for y in split(ctx, r, *x)):
                                n += 1
                                ax, bl = denote(l)
                                if ax != "cols":
                                    raise Mismatch("parameters are not along the columns")
                                if len(bl) != len(pl):
                                    raise Mismatch(f"{len(bl)} column blocks for "
                                                   f"{len(pl)} parameters")
                                for key, (kind, num) in zip(pl, bl):
                                    exp = "one" if key in const else "diag"
                                    if kind != exp:
                                        raise Mismatch(f"column layout of {key} is {kind}, "
                                                       f"expected {exp}")
                                    ctx.same_leaf(r, pt, num, oracle(cfg, unit, key),
                                                  f"columns of {key}")
                            if not n:
                                raise Mismatch("no value")
                        ctx.obligation(f"sparse {pl} constant={list(const)} {fn} "
                                       f"[{cfg.label()}]", f2, r)
    # invalid requests
    for b in BACKENDS:
        cfg = cfg_of(UNITS[0], b, "mono", ())
        for fmt in ("list", "scipy_least_squares"):
            for pl in (["foo"], ["tau", "foo"], ["foo", "tau"], ["x", "Tau"], ["theta_0"],
                       ["x", "z", "y"], ["normbrdf"]):
                r = ctx.seen(m.run("jac", cfg.args(), pl, fmt))

                def f3():
                    if r.value is not DEAD:
                        raise Mismatch("an unknown parameter is accepted")
                ctx.obligation(f"rejected {pl} {fmt} {b}", f3, r)
        for fmt in ("foo", "List", "scipy", "", "array", "csr", None):
            r = ctx.seen(m.run("jac", cfg.args(), ["tau", "x"], fmt))

            def f4():
                if r.value is not DEAD:
                    raise Mismatch("an unknown format is accepted")
            ctx.obligation(f"rejected format {fmt!r} {b}", f4, r)
