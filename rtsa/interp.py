"""Abstract interpreter of Python source (value numbering over the syntax tree).

The source is never executed.  Expressions are mapped to terms, control-flow joins create
gated values (decision diagrams over uninterpreted condition atoms), calls are resolved
over the class hierarchy and summarised in the calling context.
"""
import ast
import builtins as _b
import os

import sympy as sp

from .values import *  # noqa
from .values import Atoms, HObj, State, DictC, Exc
from . import terms


class Dead(Exception):
    """The current abstract path has ended (the raised exception is recorded)."""


class Inconclusive(Exception):
    """The analysis does not understand a construct that matters."""


class Out:
    """Outcomes of a block."""

    __slots__ = ("normal", "rets", "brks", "conts", "raises")

    def __init__(self, normal=None):
        self.normal = normal
        self.rets, self.brks, self.conts, self.raises = [], [], [], []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts
        self.raises += o.raises


MAX_DEPTH = 120
PRELUDE = "_rtsa_prelude"
MAX_UNROLL = 4000

BUILTIN_EXC = {n: getattr(_b, n) for n in dir(_b)
               if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n),
                                                                  BaseException)}


class Interp:
    def __init__(self, root, package="rt1_model", opaque_modules=(), missing=(),
                 overlay=None):
        self.root = root              # directory that contains the package
        self.package = package
        self.opaque_modules = set(opaque_modules)
        self.missing = set(missing)   # external top-level modules that are not installed
        self.overlay = dict(overlay or {})  # module name -> source text (client code)
        with open(os.path.join(os.path.dirname(__file__), "prelude.txt"),
                  encoding="utf-8") as fd:
            self.overlay[PRELUDE] = fd.read()
        self.atoms = Atoms()
        self.st = State()
        self.collector = []
        self.events = []
        self.modules = {}
        self.frame = None
        self.depth = 0
        self.calls = {}               # qualname -> (path, line) of interpreted functions
        self.stack = []
        self.yield_cb = []
        self.trycount = 0
        self.nonneg = set()
        self.opq_syms = {}
        self.sym_opq = {}
        self.unknown = []             # constructs that are modelled as uninterpreted
        self.read_hook = None
        self.loc = None
        self.imported = []
        from . import models
        self.models = models
        self.builtins = models.make_builtins(self)

    # ------------------------------------------------------------------ utilities
    def where(self):
        if self.stack:
            f = self.stack[-1]
            return f"{f.path}:{getattr(self.loc, 'lineno', 0)} ({f.qualname})"
        return f"{getattr(self.loc, 'lineno', '?')}"

    def event(self, kind, *data):
        self.events.append((kind, data, self.st.pc, self.where(), tuple(
            f.qualname for f in self.stack)))

    def do_raise(self, exc):
        if isinstance(exc, str):
            exc = Exc(Ext("builtins." + exc))
        if exc.where is None:
            exc.where = self.where()
        self.collector.append((self.st, exc))
        raise Dead()

    def raise_(self, name, *args):
        self.do_raise(Exc(Ext("builtins." + name), args))

    def raise_if(self, cond, name, *args):
        """Raise under a condition and continue under its negation."""
        cond = restrict(cond, self.st.pc)
        if cond is False:
            return
        if cond is True:
            self.raise_(name, *args)
        s2 = self.st.fork(cond)
        exc = Exc(Ext("builtins." + name), args)
        exc.where = self.where()
        self.collector.append((s2, exc))
        self.st.pc = t_and(self.st.pc, t_not(cond))

    def atom(self, *key):
        return Gate(self.atoms.get(key), True, False)

    def prune(self, v):
        return restrict(v, self.st.pc) if isinstance(v, Gate) else v

    def branch(self, cond, ft, ff):
        """Evaluate ft/ff under cond / not cond and join."""
        cond = self.prune(cond)
        if cond is True:
            return ft()
        if cond is False:
            return ff()
        s0 = self.st
        res = []
        for c, f in ((cond, ft), (t_not(cond), ff)):
            self.st = s0.fork(c)
            try:
                v = f()
                res.append((self.st, v))
            except Dead:
                pass
        if not res:
            raise Dead()
        self.st, v = merge_states([r[0] for r in res], [r[1] for r in res])
        return v

    def each_leaf(self, v, f):
        """Apply f (with effects) to each leaf of a gated value."""
        v = self.prune(v)
        if not isinstance(v, Gate):
            return f(v)
        a = Gate(v.atom, True, False)
        return self.branch(a, lambda: self.each_leaf(v.hi, f),
                           lambda: self.each_leaf(v.lo, f))

    def unknown_construct(self, what):
        self.unknown.append((what, self.where()))

    # ------------------------------------------------------------------ modules
    def module_path(self, name):
        rel = name.split(".")
        base = os.path.join(self.root, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        if os.path.exists(base + ".py"):
            return base + ".py"
        return None

    def source(self, name):
        if name in self.overlay:
            return self.overlay[name], f"<{name}>"
        p = self.module_path(name)
        if p is None:
            return None, None
        with open(p, encoding="utf-8") as f:
            return f.read(), p

    def is_internal(self, name):
        return name in self.overlay or name == self.package or name.startswith(
            self.package + ".")

    def prelude(self, name):
        """A library class that is modelled by (interpreted) source text."""
        m = self.modules.get(PRELUDE)
        if m is None or m.id not in self.st.heap:
            self.modules.pop(PRELUDE, None)
            m = self.import_module(PRELUDE)
        return self.st.get(m).data[name]

    def import_module(self, name):
        if name != PRELUDE:
            self.event("import", name)
            if name.split(".")[0] in ("collections", "dataclasses", "contextlib",
                                      "functools", "types"):
                self.prelude("deque")
        if name in self.modules:
            return self.modules[name]
        if not self.is_internal(name) or name in self.opaque_modules:
            if name.split(".")[0] in self.missing:
                self.raise_("ModuleNotFoundError", f"No module named {name!r}")
            return Ext(name)
        src, path = self.source(name)
        if src is None:
            self.raise_("ModuleNotFoundError", f"No module named {name!r}")
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
        tree = ast.parse(src, path)
        mod = self.st.new("module", {"__name__": name}, name=name, extra=path)
        self.modules[name] = mod
        if "." in name and isinstance(parent, Ref):
            self.st.mut(parent).data[name.rsplit(".", 1)[1]] = mod
        doc = ast.get_docstring(tree)
        self.st.mut(mod).data["__doc__"] = doc
        saved = self.frame, self.yield_cb
        f = Func(ast.Module(tree.body, []), "<module>", name, None, [], {},
                 name, self.relpath(path))
        self.frame, self.yield_cb = mod, []
        self.stack.append(f)
        coll, self.collector = self.collector, []
        try:
            out = self.block(tree.body)
        finally:
            self.stack.pop()
            self.frame, self.yield_cb = saved
        self.collector = coll + out.raises
        if out.normal is None:
            self.modules.pop(name, None)
            if "." in name and isinstance(parent, Ref):
                for st in {id(x): x for x, _ in out.raises}.values():
                    if st.heap[parent.id].data.get(name.rsplit(".", 1)[1]) == mod:
                        st.mut(parent).data.pop(name.rsplit(".", 1)[1])
            raise Dead()
        self.st = out.normal
        return mod

    def relpath(self, p):
        try:
            return os.path.relpath(p, os.path.dirname(os.path.dirname(self.root + "/")))
        except Exception:
            return p

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        """Interpret statements from the current state."""
        out = Out(self.st)
        for s in stmts:
            self.st = out.normal
            o = self.stmt(s)
            out.absorb(o)
            out.normal = o.normal
            if o.normal is None:
                break
        if out.normal is not None:
            self.st = out.normal
        return out

    def stmt(self, s):
        saved, self.collector = self.collector, []
        self.loc = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Inconclusive(f"statement {type(s).__name__} at {self.where()}")
        try:
            o = m(s)
            if o is None:
                o = Out(self.st)
        except Dead:
            o = Out(None)
        o.raises = self.collector + o.raises
        self.collector = saved
        return o

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        fr = self.st.mut(self.frame)
        fr.extra = dict(fr.extra or {})
        fr.extra["globals"] = set(fr.extra.get("globals", ())) | set(s.names)

    def s_Nonlocal(self, s):
        fr = self.st.mut(self.frame)
        fr.extra = dict(fr.extra or {})
        fr.extra["nonlocals"] = set(fr.extra.get("nonlocals", ())) | set(s.names)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))
        fr = self.st.get(self.frame)
        if fr.kind == "classframe" and isinstance(s.target, ast.Name):
            d = fr.data.get("__annotations__")
            if d is None:
                d = self.new_dict()
                self.st.mut(self.frame).data["__annotations__"] = d
            self.setitem(d, s.target.id, ast.unparse(s.annotation))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id)
            obj = key = None
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value)
            old = self.getattr(obj, t.attr)
        else:
            obj = self.ev(t.value)
            key = self.ev(t.slice)
            old = self.getitem(obj, key)
        v = self.ev(s.value)
        new = self.inplace(type(s.op).__name__, old, v)
        if isinstance(t, ast.Name):
            self.store_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.setattr(obj, t.attr, new)
        else:
            self.setitem(obj, key, new)

    def inplace(self, op, old, v):
        def f(o):
            if isinstance(o, Ref):
                ob = self.st.get(o)
                if ob.kind == "list" and op == "Add":
                    self.event("mutate", o, "+=")
                    self.list_extend(o, v)
                    return o
                if ob.kind in ("set", "dict") and op == "BitOr":
                    self.models.call_method(self, o, "update", [v], {})
                    return o
            if isinstance(o, Num) and o.kind == "array" or isinstance(o, Arr):
                self.mutated(o, f"augmented assignment {op}")
                r = self.binop(op, o, v)
                if isinstance(o, Num):
                    if o.alias:
                        r = lift(lambda x: x.with_(alias=o.alias)
                                 if isinstance(x, Num) else x, r)
                    r = lift(lambda x: self.keep_shape(o, x), r)
                if isinstance(o, Arr) or o.shape or o.alias:
                    self.models.replace_identity(self, o, r)
                return r
            return self.binop(op, o, v)
        return self.each_leaf(old, f)

    def keep_shape(self, o, x):
        """The result x of an in-place operation has the shape of the array o."""
        if isinstance(x, Num) and not x.shape <= o.shape and not any(
                isinstance(t, tuple) for t in x.shape | o.shape):
            self.event("misalign", "in-place operation", (o.shape, x.shape))
        return x

    def mutated(self, v, how):
        """An array is modified in place."""
        def f(x):
            if isinstance(x, Num):
                self.event("inplace", x, how)
            elif isinstance(x, Arr):
                for i in x.items:
                    self.mutated(i, how)
            return None
        lift(f, v)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        o = Out(None)
        o.rets.append((self.st, v))
        return o

    def s_Break(self, s):
        o = Out(None)
        o.brks.append(self.st)
        return o

    def s_Continue(self, s):
        o = Out(None)
        o.conts.append(self.st)
        return o

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.mut(self.frame).data.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev(t.slice))
            else:
                raise Inconclusive("del target")

    def s_If(self, s):
        cond = self.prune(self.truth(self.ev(s.test)))
        if cond is True:
            return self.block(s.body)
        if cond is False:
            return self.block(s.orelse)
        s0 = self.st
        o = Out(None)
        normals = []
        for c, body in ((cond, s.body), (t_not(cond), s.orelse)):
            self.st = s0.fork(c)
            r = self.block(body)
            o.absorb(r)
            if r.normal is not None:
                normals.append(r.normal)
        if normals:
            o.normal = merge_states(normals)[0]
            self.st = o.normal
        return o

    def s_Assert(self, s):
        cond = self.prune(self.truth(self.ev(s.test)))
        if cond is True:
            return
        neg = t_not(cond)

        def msg():
            if s.msg is None:
                return ()
            try:
                return (self.ev(s.msg),)
            except Inconclusive:
                return ("?",)
        if neg is True:
            self.raise_("AssertionError", *msg())
        s0 = self.st
        self.st = s0.fork(neg)
        try:
            self.raise_("AssertionError", *msg())
        except Dead:
            pass
        self.st = s0
        self.st.pc = t_and(s0.pc, cond)

    def s_Raise(self, s):
        if s.exc is None:
            for fr in self.frame_chain():
                e = self.st.get(fr).data.get("$exc")
                if e is not None:
                    self.do_raise(e)
            self.raise_("RuntimeError", "No active exception")
        v = self.ev(s.exc)
        cause = self.ev(s.cause) if s.cause is not None else None

        def f(x):
            if isinstance(x, (Ext, Ref)) and not (
                    isinstance(x, Ref) and self.st.get(x).kind == "inst"):
                x = self.call(x, [], {})
            if isinstance(x, Ref):
                o = self.st.get(x)
                x = Exc(o.cls, tuple(o.data.get("args", ())))
            if isinstance(x, Exc):
                if x.where is None:
                    x.where = self.where()
                if isinstance(cause, Exc):
                    x.cause = cause
                self.do_raise(x)
            self.do_raise(Exc(Ext("builtins.Exception"), (x,)))
        self.each_leaf(v, f)

    def exc_matches(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.exc_matches(exc, t) for t in typ)
        if isinstance(typ, Ext):
            ep = self.exc_builtin_base(exc.cls)
            if typ.path.startswith("builtins."):
                t = BUILTIN_EXC.get(typ.path[9:])
                if exc.cls == Ext("unknown"):
                    return t in (Exception, BaseException)
                return t is not None and ep is not None and issubclass(ep, t)
            return typ == exc.cls
        if isinstance(typ, Ref):
            return isinstance(exc.cls, Ref) and typ in self.mro(exc.cls)
        return False

    def exc_builtin_base(self, cls):
        if isinstance(cls, Ext):
            return BUILTIN_EXC.get(cls.path.split(".")[-1], Exception)
        if isinstance(cls, Ref):
            for c in self.mro(cls):
                if isinstance(c, Ext):
                    return BUILTIN_EXC.get(c.path.split(".")[-1], Exception)
        return Exception

    def s_Try(self, s):
        self.trycount += bool(s.handlers)
        body = self.block(s.body)
        self.trycount -= bool(s.handlers)
        out = Out(None)
        out.rets, out.brks, out.conts = body.rets, body.brks, body.conts
        normals = []
        if body.normal is not None:
            self.st = body.normal
            o = self.block(s.orelse)
            out.absorb(o)
            if o.normal is not None:
                normals.append(o.normal)
        for st, exc in body.raises:
            for h in s.handlers:
                self.st = st
                saved, self.collector = self.collector, []
                try:
                    typ = self.ev(h.type) if h.type is not None else None
                except Dead:
                    typ = ()
                self.collector = saved
                if h.type is None or self.exc_matches(exc, typ):
                    fr = self.st.mut(self.frame)
                    old = fr.data.get("$exc")
                    fr.data["$exc"] = exc
                    if h.name:
                        fr.data[h.name] = exc
                    self.event("handled", exc, id(h))
                    o = self.block(h.body)
                    out.absorb(o)
                    if o.normal is not None:
                        fr = o.normal.mut(self.frame)
                        fr.data.pop(h.name, None)
                        fr.data["$exc"] = old
                        normals.append(o.normal)
                    break
            else:
                out.raises.append((st, exc))
        if normals:
            out.normal = merge_states(normals)[0]
        if s.finalbody:
            out = self._finally(out, s.finalbody)
        if out.normal is not None:
            self.st = out.normal
        return out

    s_TryStar = s_Try

    def _finally(self, out, body):
        res = Out(None)

        def run(st):
            self.st = st
            o = self.block(body)
            res.absorb(o)
            return o.normal
        if out.normal is not None:
            res.normal = run(out.normal)
        for st, v in out.rets:
            n = run(st)
            if n is not None:
                res.rets.append((n, v))
        for kind in ("brks", "conts"):
            for st in getattr(out, kind):
                n = run(st)
                if n is not None:
                    getattr(res, kind).append(n)
        for st, e in out.raises:
            n = run(st)
            if n is not None:
                res.raises.append((n, e))
        return res

    def s_With(self, s):
        return self._with(s.items, s.body)

    def _with(self, items, body):
        if not items:
            return self.block(body)
        item, rest = items[0], items[1:]
        cm = self.prune(self.ev(item.context_expr))
        if isinstance(cm, CtxObj):
            holder = Out(None)
            frame = self.frame

            def cb(value):
                saved = self.frame, self.stack
                self.frame, self.stack = frame, self.stack[:]
                cbs, self.yield_cb = self.yield_cb, self.yield_cb[:-1]
                try:
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, value)
                    o = self._with(rest, body)
                finally:
                    self.frame, self.stack = saved
                    self.yield_cb = cbs
                holder.brks += o.brks
                holder.conts += o.conts
                self.collector += o.raises
                rets = list(o.rets)
                if o.normal is None and not rets:
                    raise Dead()
                states = ([o.normal] if o.normal is not None else []) + [
                    r[0] for r in rets]
                flags = ([UNDEF] if o.normal is not None else []) + [r[1] for r in rets]
                self.st, flag = merge_states(states, flags)
                fr = self.st.mut(frame)
                fr.data["$withret"] = flag
                return None
            self.call_func(cm.func, list(cm.args), dict(cm.kwargs), yield_cb=cb)
            fr = self.st.mut(self.frame)
            flag = self.prune(fr.data.pop("$withret", UNDEF))
            o = Out(self.st)
            o.brks, o.conts = holder.brks, holder.conts
            if flag is not UNDEF:
                isund = lift(lambda x: x is UNDEF, flag)
                if isund is False:
                    o.normal = None
                    o.rets.append((self.st, flag))
                else:
                    s2 = self.st.fork(t_not(isund))
                    self.st.pc = t_and(self.st.pc, isund)
                    o.rets.append((s2, restrict(flag, s2.pc)))
            return o
        if isinstance(cm, Ref) and self.st.get(cm).kind == "inst":
            v = self.call(self.getattr(cm, "__enter__"), [], {})
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
            o = self._with(rest, body)

            def run(st, exc):
                self.st = st
                args = [None] * 3 if exc is None else [exc.cls, exc, None]
                return self.call(self.getattr(cm, "__exit__"), args, {})
            res = Out(None)
            normals = []
            if o.normal is not None:
                run(o.normal, None)
                normals.append(self.st)
            for st, v in o.rets:
                run(st, None)
                res.rets.append((self.st, v))
            for kind in ("brks", "conts"):
                for st in getattr(o, kind):
                    run(st, None)
                    getattr(res, kind).append(self.st)
            for st, e in o.raises:
                sup = self.prune(self.truth(run(st, e)))
                if sup is True:
                    normals.append(self.st)
                elif sup is False:
                    res.raises.append((self.st, e))
                else:
                    s2 = self.st.fork(t_not(sup))
                    res.raises.append((s2, e))
                    normals.append(self.st.fork(sup))
            if normals:
                res.normal = merge_states(normals)[0]
                self.st = res.normal
            return res
        # external context manager
        if item.optional_vars is not None:
            self.assign(item.optional_vars, Opq("enter", cm))
        sup = isinstance(cm, Opq) and "suppress" in repr(cm)
        o = self._with(rest, body)
        if sup:
            normals = [o.normal] if o.normal is not None else []
            types = tuple(cm.args[1]) if cm.op == "call" else ()
            rest_ = []
            for st, e in o.raises:
                (normals.append(st) if self.exc_matches(e, types)
                 else rest_.append((st, e)))
            o.raises = rest_
            if normals:
                o.normal = merge_states(normals)[0]
                self.st = o.normal
        return o

    def s_For(self, s):
        it = self.ev(s.iter)
        return self.for_over(it, s)

    def for_over(self, it, s):
        it = self.prune(it)
        if isinstance(it, Gate):
            return self.gate_out(it, lambda v: self.for_over(v, s))
        if isinstance(it, Ref) and self.st.get(it).kind == "iter":
            return self.for_iter(it, s)
        items = self.iterate(it)
        items = self.prune(items)
        if isinstance(items, Gate):
            return self.gate_out(items, lambda v: self.for_items(v, s))
        return self.for_items(items, s)

    def gate_out(self, v, f):
        v = self.prune(v)
        if not isinstance(v, Gate):
            return f(v)
        s0 = self.st
        a = Gate(v.atom, True, False)
        o = Out(None)
        normals = []
        for c, x in ((a, v.hi), (t_not(a), v.lo)):
            self.st = s0.fork(c)
            saved, self.collector = self.collector, []
            try:
                r = self.gate_out(x, f)
            except Dead:
                r = Out(None)
            r.raises = self.collector + r.raises
            self.collector = saved
            o.absorb(r)
            if r.normal is not None:
                normals.append(r.normal)
        if normals:
            o.normal = merge_states(normals)[0]
            self.st = o.normal
        return o

    def for_items(self, items, s):
        out = Out(None)
        breaks = []
        cur = self.st
        for n, item in enumerate(items):
            if n > MAX_UNROLL:
                raise Inconclusive("loop is too long")
            self.st = cur
            if isinstance(item, Star):
                o = self.generic_iteration(item.value, s)
            else:
                saved, self.collector = self.collector, []
                try:
                    self.assign(s.target, item)
                    o = self.block(s.body)
                except Dead:
                    o = Out(None)
                o.raises = self.collector + o.raises
                self.collector = saved
            out.rets += o.rets
            out.raises += o.raises
            breaks += o.brks
            nxt = ([o.normal] if o.normal is not None else []) + o.conts
            if not nxt:
                cur = None
                break
            cur = merge_states(nxt)[0]
        normals = list(breaks)
        if cur is not None:
            self.st = cur
            o = self.block(s.orelse)
            out.absorb(o)
            if o.normal is not None:
                normals.append(o.normal)
        if normals:
            out.normal = merge_states(normals)[0]
            self.st = out.normal
        return out

    def for_iter(self, ref, s):
        out = Out(None)
        breaks = []
        cur = self.st
        n = 0
        while True:
            n += 1
            if n > MAX_UNROLL:
                raise Inconclusive("unbounded iteration")
            self.st = cur
            ob = self.st.get(ref)
            items, pos = ob.data
            if pos >= len(items) and not (ob.extra and items):
                break
            item = items[pos % len(items)]
            self.st.mut(ref).data = (items, pos + 1)
            saved, self.collector = self.collector, []
            try:
                self.assign(s.target, item)
                o = self.block(s.body)
            except Dead:
                o = Out(None)
            o.raises = self.collector + o.raises
            self.collector = saved
            out.rets += o.rets
            out.raises += o.raises
            breaks += o.brks
            nxt = ([o.normal] if o.normal is not None else []) + o.conts
            if not nxt:
                cur = None
                break
            cur = merge_states(nxt)[0]
        normals = list(breaks)
        if cur is not None:
            self.st = cur
            o = self.block(s.orelse)
            out.absorb(o)
            if o.normal is not None:
                normals.append(o.normal)
        if normals:
            out.normal = merge_states(normals)[0]
            self.st = out.normal
        return out

    def generic_iteration(self, iterable, s):
        """One generic iteration over an iterable of unknown length."""
        nonempty = self.atom("nonempty", iterable)
        nonempty = self.prune(nonempty)
        if nonempty is False:
            return Out(self.st)
        s0 = self.st
        s1 = s0.fork(nonempty)
        s2 = s0.fork(t_not(nonempty)) if nonempty is not True else None
        self.st = s1
        saved, self.collector = self.collector, []
        self.event("loop-begin", iterable)
        try:
            self.assign(s.target, Opq("elem", iterable))
            o = self.block(s.body)
        except Dead:
            o = Out(None)
        self.event("loop-end", iterable)
        o.raises = self.collector + o.raises
        self.collector = saved
        nxt = ([o.normal] if o.normal is not None else []) + o.conts + o.brks
        if s2 is not None:
            nxt.append(s2)
        o.brks, o.conts = [], []
        o.normal = merge_states(nxt)[0] if nxt else None
        if o.normal is not None:
            self.st = o.normal
            # values computed in the loop are not those of a single iteration
            fr = self.st.get(self.frame)
            for k, v in list(fr.data.items()):
                old = s0.get(self.frame).data.get(k, UNDEF)
                if not same(v, old) and isinstance(old, (Num, int)) and not isinstance(
                        old, bool):
                    self.st.mut(self.frame).data[k] = Opq("loopvar", k, iterable)
        return o

    s_AsyncFor = None

    def s_While(self, s):
        out = Out(None)
        breaks = []
        exits = []
        cur = self.st
        n = 0
        while cur is not None:
            n += 1
            if n > MAX_UNROLL:
                raise Inconclusive("unbounded while loop")
            self.st = cur
            cond = self.prune(self.truth(self.ev(s.test)))
            cur = self.st
            if cond is False:
                exits.append(cur)
                break
            if cond is not True:
                if n > 200:
                    raise Inconclusive("while loop with undecided condition")
                exits.append(cur.fork(t_not(cond)))
                cur = cur.fork(cond)
            self.st = cur
            o = self.block(s.body)
            out.rets += o.rets
            out.raises += o.raises
            breaks += o.brks
            nxt = ([o.normal] if o.normal is not None else []) + o.conts
            cur = merge_states(nxt)[0] if nxt else None
        normals = list(breaks)
        if exits:
            self.st = merge_states(exits)[0]
            o = self.block(s.orelse)
            out.absorb(o)
            if o.normal is not None:
                normals.append(o.normal)
        if normals:
            out.normal = merge_states(normals)[0]
            self.st = out.normal
        return out

    def s_Match(self, s):
        subj = self.ev(s.subject)
        out = Out(None)
        normals = []
        cur = self.st
        for case in s.cases:
            self.st = cur
            cond = self.match_pattern(case.pattern, subj)
            cond = self.prune(cond)
            if cond is False:
                continue
            if case.guard is not None:
                cond = t_and(cond, self.truth(self.ev(case.guard)))
                cond = self.prune(cond)
                if cond is False:
                    continue
            if cond is True:
                o = self.block(case.body)
                out.absorb(o)
                if o.normal is not None:
                    normals.append(o.normal)
                cur = None
                break
            nxt = self.st.fork(t_not(cond))
            self.st = self.st.fork(cond)
            o = self.block(case.body)
            out.absorb(o)
            if o.normal is not None:
                normals.append(o.normal)
            cur = nxt
        if cur is not None:
            normals.append(cur)
        if normals:
            out.normal = merge_states(normals)[0]
            self.st = out.normal
        return out

    def match_pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", v, p.value))
        if isinstance(p, ast.MatchOr):
            r = False
            for q in p.patterns:
                r = t_or(r, self.match_pattern(q, v))
            return r
        if isinstance(p, ast.MatchAs):
            r = True if p.pattern is None else self.match_pattern(p.pattern, v)
            if p.name and r is not False:
                self.store_name(p.name, v)
            return r
        if isinstance(v, Gate):
            v = self.prune(v)
        if isinstance(p, ast.MatchSequence):
            k = self.st.get(v).kind if isinstance(v, Ref) else None
            if v is None or isinstance(v, (str, int, Num, Arr)) or k in (
                    "dict", "set", "iter"):
                return False
            if isinstance(v, tuple) or k == "list":
                items = self.iterate(v)
                if isinstance(items, tuple) and not any(
                        isinstance(x, Star) for x in items):
                    return self.match_sequence(p.patterns, items)
        if isinstance(p, ast.MatchMapping):
            k = self.st.get(v).kind if isinstance(v, Ref) else None
            if v is None or isinstance(v, (str, int, Num, Arr, tuple)) or k in (
                    "list", "set", "iter"):
                return False
            if k == "dict":
                r, keys = True, [self.ev(q) for q in p.keys]
                for q, sub in zip(keys, p.patterns):
                    has = self.truth(self.models.contains(self, v, q))
                    if has is False:
                        return False
                    if has is not True:
                        raise Inconclusive("mapping pattern on unknown keys")
                    r = t_and(r, self.match_pattern(sub, self.getitem(v, q)))
                    if r is False:
                        return False
                if p.rest:
                    rest = self.models.call_method(self, v, "copy", [], {})
                    for q in keys:
                        self.models.delitem(self, rest, q)
                    self.store_name(p.rest, rest)
                return r
        if isinstance(p, ast.MatchClass) and len(p.patterns) <= 1:
            r = self.truth(self.models.isinstance_(self, v, self.ev(p.cls)))
            if p.patterns and r is not False:
                r = t_and(r, self.match_pattern(p.patterns[0], v))
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if r is False:
                    break
                if r is not True:
                    raise Inconclusive("class pattern on an unknown class")
                x = self.getattr(v, n, UNDEF)
                r = False if x is UNDEF else t_and(r, self.match_pattern(q, x))
            return r
        raise Inconclusive(f"match pattern {type(p).__name__}")

    def match_sequence(self, patterns, items):
        stars = [n for n, q in enumerate(patterns) if isinstance(q, ast.MatchStar)]
        if stars:
            n = stars[0]
            tail = len(patterns) - n - 1
            if len(items) < n + tail:
                return False
            mid = items[n:len(items) - tail]
            pairs = list(zip(patterns[:n], items[:n])) + list(
                zip(patterns[n + 1:], items[len(items) - tail:]))
        else:
            if len(items) != len(patterns):
                return False
            pairs = list(zip(patterns, items))
        r = True
        for q, x in pairs:
            r = t_and(r, self.match_pattern(q, x))
            if r is False:
                return False
        if stars and patterns[n].name:
            self.store_name(patterns[n].name, self.new_list(mid))
        return r

    # -- definitions
    def s_FunctionDef(self, s):
        f = self.make_func(s)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            f = self.call(dv, [f], {})
        self.store_name(s.name, f)

    def make_func(self, s):
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        for d in defaults:
            if isinstance(d, Ref) and self.st.get(d).kind in ("list", "dict", "set"):
                self.st.mut(d).name = f"default of {getattr(s, 'name', '<lambda>')}"
        kwd = {k.arg: self.ev(d) for k, d in zip(a.kwonlyargs, a.kw_defaults)
               if d is not None}
        name = getattr(s, "name", "<lambda>")
        fr = self.st.get(self.frame)
        if fr.kind == "frame":
            qn = self.stack[-1].qualname + "." + name
        elif fr.kind == "classframe":
            qn = fr.name + "." + name
        else:
            qn = name
        f = Func(s, name, self.stack[-1].module if self.stack else None,
                 self.frame, defaults, kwd, qn, self.stack[-1].path)
        f.is_gen = _is_generator(s)
        return f

    def s_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.modules.get(top, Ext(top)))

    def s_ImportFrom(self, s):
        name = s.module or ""
        if s.level:
            cur = self.stack[-1].module
            is_pkg = (self.module_path(cur) or "").endswith("__init__.py")
            parts = cur.split(".")
            up = s.level - (1 if is_pkg else 0)
            if up:
                parts = parts[:-up]
            name = ".".join(parts + ([name] if name else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Ref):
                    d = self.st.get(m).data
                    if "__all__" in d:
                        names = self.iterate(d["__all__"])
                        if not all(isinstance(k, str) for k in names):
                            raise Inconclusive(f"star import from {name}")
                    else:
                        names = [k for k in d if not k.startswith("_")]
                    for k in names:
                        v = d.get(k, UNDEF)
                        if v is UNDEF:
                            if self.source(f"{name}.{k}")[0] is None:
                                self.raise_("AttributeError",
                                            f"module {name!r} has no attribute {k!r}")
                            v = self.import_module(f"{name}.{k}")
                        self.store_name(k, v)
                    continue
                raise Inconclusive(f"star import from {name}")
            if isinstance(m, Ref):
                d = self.st.get(m).data
                if a.name in d and d[a.name] is not UNDEF:
                    v = d[a.name]
                else:
                    sub = f"{name}.{a.name}"
                    if self.source(sub)[0] is not None:
                        v = self.import_module(sub)
                    else:
                        self.raise_("ImportError", f"cannot import name {a.name!r}")
            else:
                v = self.ext_attr(m, a.name)
            self.store_name(a.asname or a.name, v)

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            v = self.ev(b)
            bases.append(v)
        abstract, kw = False, {}
        for k in s.keywords:
            v = self.ev(k.value)
            if k.arg == "metaclass":
                if isinstance(v, Ref):
                    raise Inconclusive(f"metaclass of {s.name}")
                abstract = isinstance(v, Ext) and v.path == "abc.ABCMeta"
            else:
                kw[k.arg] = v
        fr = self.st.new("classframe", {}, name=s.name, extra={"parent": self.frame})
        saved = self.frame
        doc = ast.get_docstring(s)
        self.frame = fr
        try:
            o = self.block(s.body)
        finally:
            self.frame = saved
        self.collector += o.raises
        if o.normal is None:
            raise Dead()
        self.st = o.normal
        attrs = dict(self.st.get(fr).data)
        attrs["__doc__"] = doc
        attrs["__name__"] = s.name
        attrs["__module__"] = self.stack[-1].module
        attrs.setdefault("__qualname__", s.name)
        c = self.make_class(s.name, bases, attrs, kw, abstract, s.lineno)
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d), [c], {})
        self.store_name(s.name, c)

    def make_class(self, name, bases, attrs, kw=None, abstract=False, line=0):
        cls = self.st.new("class", attrs, name=name, extra={"bases": tuple(bases)})
        mro = self._linearize(cls, bases)
        self.st.mut(cls).extra = {"bases": tuple(bases), "mro": tuple(mro),
                                  "path": self.stack[-1].path, "line": line}
        ext = {c.path for c in mro if isinstance(c, Ext)}
        if abstract or "abc.ABC" in ext or any(
                isinstance(c, Ref) and self.st.get(c).extra.get("abstract")
                for c in mro):
            self.st.mut(cls).extra["abstract"] = True
        for v in attrs.values():
            for f in _inner_funcs(v):
                if f.cls is None:
                    f.cls = cls
        if "typing.NamedTuple" in ext:
            self.models.named_tuple_class(self, cls, bases)
        if ext & {"enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag",
                  "enum.IntFlag"}:
            if ext & {"enum.IntEnum", "enum.StrEnum", "enum.Flag", "enum.IntFlag"}:
                raise Inconclusive(f"enumeration {name}")
            self.models.enum_class(self, cls)
        for n, v in list(attrs.items()):
            if isinstance(v, Ref) and self.st.get(v).kind == "inst":
                m = self.find_attr(self.st.get(v).cls, "__set_name__")
                if m is not None:
                    self.call(self.bind(m, v, self.st.get(v).cls), [cls, n], {})
        for c in mro[1:]:
            if isinstance(c, Ref) and "__init_subclass__" in self.st.get(c).data:
                h = self.st.get(c).data["__init_subclass__"]
                h = h.func if isinstance(h, (ClassM, StaticM)) else h
                self.call(h, [cls], dict(kw or {}))
                break
        return cls

    def _linearize(self, cls, bases):
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        res = [cls]
        while True:
            seqs = [q for q in seqs if q]
            if not seqs:
                return res
            for q in seqs:
                c = q[0]
                if not any(c in r[1:] for r in seqs):
                    break
            else:
                raise Inconclusive("inconsistent class hierarchy")
            res.append(c)
            for q in seqs:
                if q[0] == c:
                    del q[0]

    def mro(self, cls):
        if isinstance(cls, Ref):
            e = self.st.get(cls).extra
            return e.get("mro", (cls,))
        return (cls,)

    # ------------------------------------------------------------------ names
    def frame_chain(self, fr=None):
        fr = fr or self.frame
        while fr is not None:
            yield fr
            e = self.st.get(fr).extra
            fr = e.get("parent") if isinstance(e, dict) else None

    def load_name(self, name):
        first = True
        gl = None
        for fr in self.frame_chain():
            ob = self.st.get(fr)
            if ob.kind == "classframe" and not first:
                continue
            if first and isinstance(ob.extra, dict) and name in ob.extra.get(
                    "globals", ()):
                first = False
                gl = True
                break
            first = False
            if ob.kind == "module":
                break
            if name in ob.data:
                return self.check_def(ob.data[name], name)
            if ob.kind == "frame" and isinstance(ob.extra, dict) and name in \
                    ob.extra.get("locals", ()) and name not in ob.extra.get(
                    "nonlocals", ()) and name not in ob.extra.get("globals", ()):
                self.raise_("UnboundLocalError" if fr is self.frame else "NameError",
                            name)
        mod = self.modules.get(self.stack[-1].module)
        ob = self.st.get(mod)
        if name in ob.data:
            if self.read_hook:
                self.read_hook(mod, name)
            return self.check_def(ob.data[name], name)
        if name in self.builtins:
            return self.builtins[name]
        if name in BUILTIN_EXC:
            return Ext("builtins." + name)
        self.raise_("NameError", name)

    def check_def(self, v, name):
        if v is UNDEF:
            self.raise_("UnboundLocalError", name)
        if isinstance(v, Gate):
            v = self.prune(v)
            u = lift(lambda x: x is UNDEF, v)
            if u is not False:
                self.raise_if(u, "UnboundLocalError", name)
                v = self.prune(v)
        return v

    def store_name(self, name, v):
        ob = self.st.get(self.frame)
        e = ob.extra if isinstance(ob.extra, dict) else {}
        if name in e.get("globals", ()):
            mod = self.modules[self.stack[-1].module]
            self.event("setglobal", mod, name)
            self.st.mut(mod).data[name] = v
            return
        if name in e.get("nonlocals", ()):
            for fr in list(self.frame_chain())[1:]:
                if name in self.st.get(fr).data:
                    self.st.mut(fr).data[name] = v
                    return
        self.st.mut(self.frame).data[name] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            r = self.setitem(o, k, v)
            if r is not None:  # functional update of an array value
                self.assign(t.value, r)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Inconclusive("assignment target")

    def unpack(self, elts, v):
        v = self.prune(v)
        items = self.prune(self.iterate(v))
        n = len(elts)
        if isinstance(items, Gate):
            lens = {len(x) if isinstance(x, tuple) else None for _, x in leaves(items)}
            if len(lens) != 1 or None in lens:
                raise Inconclusive("unpacking of gated sequences")
            k = lens.pop()
            items = tuple(lift(lambda x, i=i: x[i], items) for i in range(k))
        if any(isinstance(i, Star) for i in items):
            if len(items) == 1:
                src = items[0].value
                for i, e in enumerate(elts):
                    self.assign(e, Opq("item", src, i))
                return
            raise Inconclusive("unpacking of an unknown number of values")
        st = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if st:
            i = st[0]
            tail = n - i - 1
            if len(items) < n - 1:
                self.raise_("ValueError", "not enough values to unpack")
            mid = items[i:len(items) - tail]
            parts = list(items[:i]) + [self.new_list(mid)] + list(
                items[len(items) - tail:] if tail else [])
        else:
            if len(items) != n:
                self.raise_("ValueError", "wrong number of values to unpack")
            parts = items
        for e, x in zip(elts, parts):
            self.assign(e, x)

    # ------------------------------------------------------------------ containers
    def new_list(self, items=()):
        return self.st.new("list", tuple(items))

    def new_dict(self, pairs=()):
        d = {}
        for k, v in pairs:
            d[self.hkey(k)] = (k, v)
        return self.st.new("dict", DictC(d))

    def new_set(self, items=()):
        return self.st.new("set", DictC({self.hkey(i): (i, None) for i in items}))

    def new_iter(self, items, cyc=False):
        return self.st.new("iter", (tuple(items), 0), extra=cyc)

    def hkey(self, k):
        if isinstance(k, bool) or k is None or isinstance(k, str):
            return (type(k).__name__, k)
        if isinstance(k, int):
            return ("int", k)
        if isinstance(k, Num):
            if k.expr.is_Integer:
                return ("int", int(k.expr))
            return ("num", k.expr)
        if isinstance(k, tuple):
            return ("tuple",) + tuple(self.hkey(i) for i in k)
        if isinstance(k, Ref):
            o = self.st.get(k)
            if o.kind in ("list", "dict", "set"):
                self.raise_("TypeError", "unhashable type")
            if o.kind == "inst":
                eq, h = self.find_attr(o.cls, "__eq__"), self.find_attr(o.cls, "__hash__")
                if h is not None:
                    return ("uhash", self.hkey(self.call(self.bind(h, k, o.cls), [], {})))
                if eq is not None:
                    self.raise_("TypeError", "unhashable type")
            return ("ref", k.id)
        return ("val", k)

    def content(self, ref):
        o = self.st.get(ref)
        if o.kind == "list" and isinstance(o.extra, tuple) and o.extra[0] == "view":
            n = {"keys": 0, "values": 1}.get(o.extra[2])
            return lift(lambda d: tuple(p if n is None else p[n] for p in d.d.values()),
                        self.prune(self.st.get(o.extra[1]).data))
        return self.prune(o.data)

    def list_extend(self, ref, v):
        items = self.iterate(v)
        old = self.st.get(ref).data
        self.st.mut(ref).data = lift(lambda a, b: a + b, old, items)

    def iterate(self, v):
        """The elements of an iterable as tuple (or gated tuples)."""
        v = self.prune(v)
        if isinstance(v, Gate):
            return self.each_leaf(v, self.iterate)
        if isinstance(v, tuple):
            return v
        if isinstance(v, (range, str)):
            return tuple(v)
        if isinstance(v, Arr):
            return v.items
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind == "list":
                return self.content(v)
            if o.kind in ("dict", "set"):
                return lift(lambda d: tuple(k for k, _ in d.d.values()),
                            self.prune(o.data))
            if o.kind == "iter":
                items, pos = o.data
                if o.extra:
                    raise Inconclusive("iteration over an infinite iterator")
                self.st.mut(v).data = (items, len(items))
                return items[pos:]
            if o.kind == "class":
                mem = self.find_attr(v, "$members")
                if mem is not None:
                    return self.iterate(mem)
            if o.kind == "inst":
                m = self.find_attr(o.cls, "__iter__")
                if m is not None:
                    it = self.call(self.getattr(v, "__iter__"), [], {})
                    if isinstance(it, Ref) and self.st.get(it).kind == "inst":
                        return self.drain(it)
                    return self.iterate(it)
        if isinstance(v, DictView):
            return tuple(self.st.get(v.ref).data)
        if isinstance(v, (Opq, Num, BoolEl)):
            return (Star(v),)
        if v is None or isinstance(v, (int, Func)):
            self.raise_("TypeError", "object is not iterable")
        raise Inconclusive(f"iteration over {v!r} at {self.where()}")

    def drain(self, it):
        """All elements of an iterator object (class with __next__)."""
        out = []
        stop = Opq("stop-iteration")
        while True:
            if len(out) > MAX_UNROLL:
                raise Inconclusive("iterator is too long")
            v = self.try_default(lambda: self.call(self.getattr(it, "__next__"), [], {}),
                                 stop, "StopIteration")
            if v is stop:
                return tuple(out)
            if isinstance(v, Gate) and any(x is stop for _, x in leaves(v)):
                raise Inconclusive("iterator of unknown length")
            out.append(v)

    # ------------------------------------------------------------------ attributes
    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Ref):
                d = self.st.get(c).data
                if name in d and d[name] is not UNDEF:
                    if self.read_hook:
                        self.read_hook(c, name)
                    return d[name]
        return None

    def getattr(self, obj, name, default=_b):
        obj = self.prune(obj)
        if isinstance(obj, Gate):
            return self.each_leaf(obj, lambda o: self.getattr(o, name, default))
        if isinstance(obj, Ref):
            o = self.st.get(obj)
            if o.kind == "inst":
                return self.inst_attr(obj, o, name, default)
            if o.kind == "class":
                return self.class_attr(obj, name, default)
            if o.kind == "module":
                if name == "__dict__":
                    return DictView(obj)
                if name in o.data and o.data[name] is not UNDEF:
                    if self.read_hook:
                        self.read_hook(obj, name)
                    return o.data[name]
                if self.source(f"{o.name}.{name}")[0] is not None and (
                        f"{o.name}.{name}" in self.modules):
                    return self.modules[f"{o.name}.{name}"]
                return self.noattr(obj, name, default)
        return self.models.getattr_(self, obj, name, default)

    def noattr(self, obj, name, default):
        if default is not _b:
            return default
        self.raise_("AttributeError", f"no attribute {name!r}")

    def inst_attr(self, ref, o, name, default):
        if name == "__dict__":
            return DictView(ref)
        if name == "__class__":
            return o.cls
        ca = self.find_attr(o.cls, name)
        if isinstance(ca, Prop):
            if ca.fget is None:
                self.raise_("AttributeError", name)
            return self.try_default(lambda: self.call(ca.fget, [ref], {}), default)
        desc = None
        if isinstance(ca, Ref) and self.st.get(ca).kind == "inst":
            dc = self.st.get(ca).cls
            desc = self.find_attr(dc, "__get__")
            if desc is not None and self.find_attr(dc, "__set__") is not None:
                return self.try_default(lambda: self.call(
                    self.bind(desc, ca, dc), [ref, o.cls], {}), default)
        if name in o.data:
            v = self.prune(o.data[name])
            if self.read_hook:
                self.read_hook(ref, name)
            if isinstance(v, Gate):
                und = lift(lambda x: x is UNDEF, v)
                if und is True:
                    v = UNDEF
                elif und is not False:
                    def other():
                        if ca is not None:
                            return self.bind(ca, ref, o.cls)
                        return self.noattr(ref, name, default)
                    return self.branch(und, other, lambda: self.prune(v))
            if v is not UNDEF:
                return v
        elif self.read_hook:
            self.read_hook(ref, name)
        if isinstance(ca, CachedProp):
            v = self.call(ca.func, [ref], {})
            self.st.mut(ref).data[name] = v
            return v
        if desc is not None:
            return self.try_default(lambda: self.call(
                self.bind(desc, ca, dc), [ref, o.cls], {}), default)
        if ca is not None:
            return self.bind(ca, ref, o.cls)
        ga = self.find_attr(o.cls, "__getattr__")
        if ga is not None:
            return self.try_default(lambda: self.call(ga, [ref, name], {}), default)
        if o.extra == "opaque-base":
            return Opq("attr", ref, name)
        for c in self.mro(o.cls):
            if isinstance(c, Ext) and c.path not in ("builtins.object", "abc.ABC"):
                return self.models.ext_inst_attr(self, ref, c, name, default)
        if name == "__init__":
            return Native("object.__init__", lambda i, a, k: None)
        if name in ("__setattr__", "__getattribute__", "__delattr__"):
            fn = {"__setattr__": lambda i, a, k: i.set_raw(ref, a[0], a[1]),
                  "__getattribute__": lambda i, a, k: i.getattr(ref, a[0]),
                  "__delattr__": lambda i, a, k: i.delattr(ref, a[0])}[name]
            return Native(name, fn)
        return self.noattr(ref, name, default)

    def try_default(self, f, default, exc="AttributeError"):
        """Evaluate f; AttributeErrors yield the default (getattr with default)."""
        if default is _b:
            return f()
        s0 = self.st
        saved, self.collector = self.collector, []
        res = []
        try:
            v = f()
            res.append((self.st, v))
        except Dead:
            pass
        coll, self.collector = self.collector, saved
        for st, e in coll:
            if self.exc_matches(e, Ext("builtins." + exc)):
                res.append((st, default))
            else:
                self.collector.append((st, e))
        if not res:
            raise Dead()
        self.st, v = merge_states([r[0] for r in res], [r[1] for r in res])
        return v

    def bind(self, ca, ref, cls):
        if isinstance(ca, (Func, Cached, Native)) or isinstance(ca, CtxFactory):
            return Bound(ca, ref)
        if isinstance(ca, StaticM):
            return ca.func
        if isinstance(ca, ClassM):
            return Bound(ca.func, cls)
        return ca

    def class_attr(self, ref, name, default=_b):
        o = self.st.get(ref)
        if name == "__mro__":
            return tuple(c for c in self.mro(ref) if not (isinstance(
                c, Ext) and c.path == "builtins.object")) + (Ext("builtins.object"),)
        if name == "__bases__":
            return o.extra["bases"]
        if name == "__dict__":
            return DictView(ref)
        if name in ("__qualname__",):
            return o.name
        v = self.find_attr(ref, name)
        if name == "__doc__":
            v = o.data.get("__doc__")
            return v
        if v is None:
            if name in o.data:
                return None
            for c in self.mro(ref):
                if isinstance(c, Ext) and c.path != "builtins.object":
                    return self.ext_attr(c, name)
            if name == "__init__":
                return Native("object.__init__", lambda i, a, k: None)
            if name == "__new__":
                return Native("object.__new__",
                              lambda i, a, k: i.st.new("inst", {}, cls=a[0]))
            return self.noattr(ref, name, default)
        if isinstance(v, StaticM):
            return v.func
        if isinstance(v, ClassM):
            return Bound(v.func, ref)
        if isinstance(v, Ref) and self.st.get(v).kind == "inst":
            dc = self.st.get(v).cls
            g = self.find_attr(dc, "__get__")
            if g is not None:
                return self.call(self.bind(g, v, dc), [None, ref], {})
        return v

    def ext_attr(self, m, name):
        return self.models.ext_getattr(self, m, name)

    def set_raw(self, obj, name, v):
        self.event("setattr", obj, name, v)
        self.st.mut(obj).data[name] = v

    def setattr(self, obj, name, v):
        obj = self.prune(obj)
        if isinstance(obj, Gate):
            self.each_leaf(obj, lambda o: self.setattr(o, name, v))
            return
        if isinstance(obj, Ref):
            o = self.st.get(obj)
            if o.kind == "inst":
                ca = self.find_attr(o.cls, name)
                if isinstance(ca, Prop):
                    if ca.fset is None:
                        self.raise_("AttributeError", f"can't set {name}")
                    self.call(ca.fset, [obj, v], {})
                    return
                if isinstance(ca, Ref) and self.st.get(ca).kind == "inst":
                    dc = self.st.get(ca).cls
                    ds = self.find_attr(dc, "__set__")
                    if ds is not None and self.find_attr(o.cls, "__setattr__") is None:
                        self.call(self.bind(ds, ca, dc), [obj, v], {})
                        return
                sa = self.find_attr(o.cls, "__setattr__")
                if sa is not None:
                    self.call(sa, [obj, name, v], {})
                    return
            if name == "__dict__" and isinstance(v, Ref):
                c = self.content(v)
                if isinstance(c, DictC):
                    self.st.mut(obj).data = {k: x for k, x in c.d.values()}
                    return
            if o.kind == "module":
                self.event("setglobal", obj, name)
            self.set_raw(obj, name, v)
            return
        if isinstance(obj, (Func, Cached, Native, Bound, Partial)):
            f = obj
            while isinstance(f, (Bound, Cached)):
                f = f.func
            if isinstance(f, Func):
                f.attrs[name] = v
                self.event("setfuncattr", f, name, v)
            return
        if isinstance(obj, (Opq, Ext)):
            self.event("setattr-ext", obj, name, v)
            return
        if isinstance(obj, Exc):
            return
        raise Inconclusive(f"attribute assignment to {obj!r}")

    def delattr(self, obj, name):
        obj = self.prune(obj)
        if isinstance(obj, Ref):
            o = self.st.get(obj)
            if o.kind == "inst":
                ca = self.find_attr(o.cls, name)
                if isinstance(ca, Prop):
                    if ca.fdel is None:
                        self.raise_("AttributeError", name)
                    self.call(ca.fdel, [obj], {})
                    return
                da = self.find_attr(o.cls, "__delattr__")
                if da is not None:
                    self.call(self.bind(da, obj, o.cls), [name], {})
                    return
            d = self.st.mut(obj).data
            if name not in d:
                self.raise_("AttributeError", name)
            self.event("setattr", obj, name, UNDEF)
            del d[name]

    # ------------------------------------------------------------------ items
    def getitem(self, obj, key):
        return self.models.getitem(self, obj, key)

    def setitem(self, obj, key, v):
        return self.models.setitem(self, obj, key, v)

    def delitem(self, obj, key):
        return self.models.delitem(self, obj, key)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.prune(f)
        if isinstance(f, Gate):
            return self.each_leaf(f, lambda g: self.call(g, args, kwargs))
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, Cached):
            return self.call_cached(f, args, kwargs)
        if isinstance(f, Native):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, CtxFactory):
            return CtxObj(f.func, args, kwargs)
        if isinstance(f, Lam):
            return self.models.call_lam(self, f, args, kwargs)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f, args, kwargs)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Ref):
            o = self.st.get(f)
            if o.kind == "class":
                return self.instantiate(f, args, kwargs)
            if o.kind == "inst":
                m = self.find_attr(o.cls, "__call__")
                if m is not None:
                    return self.call(self.bind(m, f, o.cls), args, kwargs)
            self.raise_("TypeError", "object is not callable")
        if isinstance(f, Opq):
            return self.models.call_opaque(self, f, args, kwargs)
        if f is None or isinstance(f, (str, int, tuple, Num)):
            self.raise_("TypeError", f"{f!r} is not callable")
        raise Inconclusive(f"call of {f!r} at {self.where()}")

    def instantiate(self, cls, args, kwargs):
        o = self.st.get(cls)
        if self.find_attr(cls, "$members") is not None:
            return self.models.enum_lookup(self, cls, args[0])
        if self.find_attr(cls, "$fields") is not None:
            return self.models.named_tuple_new(self, cls, args, kwargs)
        if isinstance(o.extra, dict) and o.extra.get("abstract"):
            names = {n for c in self.mro(cls) if isinstance(c, Ref)
                     for n in self.st.get(c).data}
            if any(_is_abstract(self.find_attr(cls, n)) for n in names):
                self.raise_("TypeError",
                            f"Can't instantiate abstract class {o.name}")
        base = self.exc_base(cls)
        obj = self.st.new("inst", {}, cls=cls)
        self.event("new", obj, cls)
        new = self.find_attr(cls, "__new__")
        if new is not None:
            obj = self.call(new, [cls] + list(args), kwargs)
        init = self.find_attr(cls, "__init__")
        if base:
            self.st.mut(obj).data["args"] = tuple(args)
        if init is not None:
            self.call(init, [obj] + list(args), kwargs)
        elif (args or kwargs) and not base:
            nb = [b for b in self.mro(cls) if isinstance(b, Ext)
                  and b.path not in ("builtins.object",)]
            if not nb:
                self.raise_("TypeError", f"{o.name}() takes no arguments")
            return self.models.init_ext_base(self, obj, nb[0], args, kwargs)
        else:
            nb = [b for b in self.mro(cls) if isinstance(b, Ext)
                  and b.path not in ("builtins.object", "abc.ABC")]
            if nb and not base:
                return self.models.init_ext_base(self, obj, nb[0], args, kwargs)
        return obj

    def exc_base(self, cls):
        return any(isinstance(c, Ext) and c.path.split(".")[-1] in BUILTIN_EXC
                   for c in self.mro(cls))

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        res = {}
        args = list(args)
        kwargs = dict(kwargs)
        if any(isinstance(x, Star) for x in args):
            raise Inconclusive(f"call of {f.qualname} with unknown positional arguments")
        if "**" in kwargs:
            raise Inconclusive(f"call of {f.qualname} with unknown keyword arguments")
        for n, v in zip(names, args):
            res[n] = v
        extra = args[len(names):]
        if extra and not a.vararg:
            self.raise_("TypeError", f"{f.name}() takes {len(names)} positional "
                        f"arguments but {len(args)} were given")
        if a.vararg:
            res[a.vararg.arg] = tuple(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        rest = {}
        for k, v in kwargs.items():
            if k in names and k not in posonly or k in kwonly:
                if k in res:
                    self.raise_("TypeError",
                                f"{f.name}() got multiple values for argument {k!r}")
                res[k] = v
            else:
                rest[k] = v
        if rest and not a.kwarg:
            self.raise_("TypeError", f"{f.name}() got an unexpected keyword argument "
                        f"{next(iter(rest))!r}")
        nd = len(names) - len(f.defaults)
        for i, n in enumerate(names):
            if n not in res:
                if i >= nd:
                    res[n] = f.defaults[i - nd]
                else:
                    self.raise_("TypeError",
                                f"{f.name}() missing required argument {n!r}")
        for n in kwonly:
            if n not in res:
                if n in f.kwdefaults:
                    res[n] = f.kwdefaults[n]
                else:
                    self.raise_("TypeError",
                                f"{f.name}() missing required argument {n!r}")
        if a.kwarg:
            res[a.kwarg.arg] = self.new_dict(list(rest.items()))
        return res

    def call_func(self, f, args, kwargs, yield_cb=None):
        vars_ = self.bind_args(f, args, kwargs)
        if self.depth > MAX_DEPTH:
            raise Inconclusive(f"recursion in {f.qualname}")
        self.calls[f.qualname] = (f.path, getattr(f.node, "lineno", 0))
        fr = self.st.new("frame", vars_, name=f.name, extra={
            "parent": f.frame, "locals": _locals(f.node)})
        saved = (self.frame, self.collector, self.loc)
        self.frame = fr
        self.collector = []
        self.stack.append(f)
        self.depth += 1
        ylist = None
        if f.is_gen:
            if yield_cb is None:
                ylist = self.new_list()

                def yield_cb(v):
                    ob = self.st.mut(ylist)
                    ob.data = lift(lambda t: t + (v,), ob.data)
                    return None
        self.yield_cb.append(yield_cb)
        try:
            if isinstance(f.node, ast.Lambda):
                o = Out(None)
                try:
                    v = self.ev(f.node.body)
                    o.rets.append((self.st, v))
                except Dead:
                    pass
                o.raises = self.collector
            else:
                o = self.block(f.node.body)
        finally:
            self.stack.pop()
            self.depth -= 1
            self.yield_cb.pop()
            self.frame, self.collector, self.loc = saved
        self.collector = self.collector + o.raises
        rets = list(o.rets)
        if o.normal is not None:
            rets.append((o.normal, None))
        if not rets:
            raise Dead()
        self.st, v = merge_states([r[0] for r in rets], [r[1] for r in rets])
        if ylist is not None:
            if isinstance(self.content(ylist), Gate):
                return ylist
            it = self.new_iter(self.iterate(ylist))
            self.st.mut(it).name = ("returned", v)
            return it
        return v

    def call_cached(self, f, args, kwargs):
        try:
            key = tuple(self.hkey(a) for a in args) + tuple(
                ("kw", k, self.hkey(v)) for k, v in kwargs.items())
        except Dead:
            raise
        old = self.st.get(f.ref).data.get(key, UNDEF)
        if isinstance(old, Gate):
            old = self.prune(old)
        if isinstance(old, Gate) and any(x is UNDEF for _, x in leaves(old)):
            # filled on some of the paths that lead here
            return self.each_leaf(
                restrict(old, self.st.pc),
                lambda x: self.fill_cached(f, key, args, kwargs) if x is UNDEF else x)
        if old is not UNDEF:
            self.event("cache-hit", f)
            return old
        return self.fill_cached(f, key, args, kwargs)

    def fill_cached(self, f, key, args, kwargs):
        v = self.call(f.func, args, kwargs)
        v = self.mark_stored(v, f"cache of {f.name}")
        self.st.mut(f.ref).data[key] = v
        self.event("cache-fill", f, key)
        return v

    def mark_stored(self, v, name):
        def m(x):
            if isinstance(x, Num) and x.kind == "array":
                return x.with_(alias=x.alias | {name})
            if isinstance(x, Arr):
                return Arr(lift(m, i) for i in x.items)
            return x
        return lift(m, v)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        self.loc = e if hasattr(e, "lineno") else self.loc
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Inconclusive(f"expression {type(e).__name__} at {self.where()}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return Num(sp.Rational(repr(v)) if v == v and abs(v) != float("inf")
                       else sp.Symbol("inf"), "float")
        if isinstance(v, complex):
            return Num(sp.I * sp.Rational(repr(v.imag)), "float")
        return v

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.store_name(e.target.id, v)
        return v

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.getattr(o, e.attr)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev(e.slice)
        return self.getitem(o, k)

    def e_Slice(self, e):
        return slice(*(self.ev(x) if x is not None else None
                       for x in (e.lower, e.upper, e.step)))

    def e_Starred(self, e):
        raise Inconclusive("starred expression")

    def seq(self, elts):
        res = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.prune(self.iterate(self.ev(x.value)))
                if isinstance(items, Gate):
                    raise Inconclusive("unpacking of a gated sequence")
                res += items
            else:
                res.append(self.ev(x))
        return res

    def e_Tuple(self, e):
        return tuple(self.seq(e.elts))

    def e_List(self, e):
        return self.new_list(self.seq(e.elts))

    def e_Set(self, e):
        return self.new_set(self.seq(e.elts))

    def e_Dict(self, e):
        ref = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.call_method(self, ref, "update", [self.ev(v)], {})
            else:
                kk = self.ev(k)
                self.setitem(ref, kk, self.ev(v))
        return ref

    def e_JoinedStr(self, e):
        parts = [self.ev(v) for v in e.values]
        return lift(self._join, *parts)

    def _join(self, *parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return Opq("fstr", *parts)

    def e_FormattedValue(self, e):
        v = self.ev(e.value)
        spec = self.ev(e.format_spec) if e.format_spec is not None else ""

        def f(x):
            if e.conversion in (97, 114):
                x = self.models.to_str(self, x, rep=True)
            elif e.conversion == 115:
                x = self.models.to_str(self, x)
            return self.models.format_(self, x, spec)
        return self.models.pure(self, f, v)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.loc = e
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return t_not(self.truth(v))
        return self.models.unop(self, type(e.op).__name__, v)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def rest(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: rest(i + 1), lambda: v)
            return self.branch(c, lambda: v, lambda: rest(i + 1))
        return rest(0)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None

        def step(i, left):
            right = self.ev(e.comparators[i])
            r = self.compare(type(e.ops[i]).__name__, left, right)
            if i == len(e.ops) - 1:
                return r
            c = self.truth(r)
            return self.branch(c, lambda: step(i + 1, right), lambda: r)
        return step(0, left)

    def compare(self, op, a, b):
        return self.models.compare(self, op, a, b)

    def truth(self, v):
        return self.models.truth(self, v)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_Call(self, e):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super()
        f = self.ev(e.func)
        args = self.seq(e.args)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.prune(self.ev(k.value))
                self.add_kwargs(kwargs, v)
            else:
                if k.arg in kwargs:
                    self.raise_("TypeError", f"multiple values for {k.arg!r}")
                kwargs[k.arg] = self.ev(k.value)
        self.loc = e
        if f is self.builtins.get("locals"):
            d = self.st.get(self.frame).data
            return self.new_dict(list(d.items()))
        return self.call(f, args, kwargs)

    def add_kwargs(self, kwargs, v):
        if isinstance(v, Ref) and self.st.get(v).kind == "dict":
            c = self.content(v)
            if isinstance(c, Gate):
                raise Inconclusive("gated keyword arguments")
            for k, x in c.d.values():
                if not isinstance(k, str):
                    if isinstance(k, Opq):
                        kwargs["**"] = v
                        return
                    self.raise_("TypeError", "keywords must be strings")
                if k in kwargs:
                    self.raise_("TypeError", f"multiple values for {k!r}")
                kwargs[k] = x
            return
        if isinstance(v, DictView):
            for k, x in self.st.get(v.ref).data.items():
                kwargs[k] = x
            return
        if isinstance(v, Opq):
            kwargs["**"] = v
            return
        raise Inconclusive(f"keyword arguments from {v!r}")

    def make_super(self):
        for fr in self.frame_chain():
            o = self.st.get(fr)
            if o.kind == "frame":
                break
        # the function that owns the frame
        for f in reversed(self.stack):
            if f.cls is not None:
                args = f.node.args
                first = (args.posonlyargs + args.args)[0].arg
                for fr in self.frame_chain():
                    d = self.st.get(fr).data
                    if first in d:
                        return SuperObj(f.cls, d[first])
        raise Inconclusive("super() outside of a method")

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        return self.yield_cb[-1](v)

    def e_YieldFrom(self, e):
        src = self.ev(e.value)
        for i in self.iterate(src):
            self.yield_cb[-1](i)
        if isinstance(src, Ref):
            n = self.st.get(src).name
            if isinstance(n, tuple) and n[0] == "returned":
                return n[1]
        return None

    def e_Await(self, e):
        raise Inconclusive("await")

    # comprehensions
    def comp(self, gens, emit):
        fr = self.st.new("frame", {}, name="<comp>", extra={"parent": self.frame})
        saved = self.frame

        def run(i):
            if i == len(gens):
                emit()
                return None
            g = gens[i]
            if i == 0:
                self.frame = saved
                it = self.ev(g.iter)
                self.frame = fr
            else:
                it = self.ev(g.iter)
            items = self.iterate(it)

            def loop(items):
                for x in items:
                    if isinstance(x, Star):
                        self.event("loop-begin", x.value)
                        x = Opq("elem", x.value)
                        self.star_depth += 1
                        try:
                            self.assign(g.target, x)
                            conds(0)
                        finally:
                            self.star_depth -= 1
                        self.event("loop-end", None)
                        continue
                    self.assign(g.target, x)
                    conds(0)

            def conds(j):
                if j == len(g.ifs):
                    return run(i + 1)
                c = self.truth(self.ev(g.ifs[j]))
                return self.branch(c, lambda: conds(j + 1), lambda: None)
            self.each_leaf(items, loop)
            return None
        self.frame = fr
        try:
            run(0)
        finally:
            self.frame = saved

    star_depth = 0

    def e_ListComp(self, e):
        ref = self.new_list()

        def emit():
            v = self.ev(e.elt)
            if self.star_depth:
                from . import models
                v = Star(Opq("map", models.freeze(self, v)))
            ob = self.st.mut(ref)
            ob.data = lift(lambda t: t + (v,), ob.data)
        self.comp(e.generators, emit)
        return ref

    def e_GeneratorExp(self, e):
        ref = self.e_ListComp(e)
        c = self.content(ref)
        if isinstance(c, Gate):
            return ref
        return self.new_iter(c)

    def e_SetComp(self, e):
        ref = self.new_set()

        def emit():
            v = self.ev(e.elt)
            self.models.call_method(self, ref, "add", [v], {})
        self.comp(e.generators, emit)
        return ref

    def e_DictComp(self, e):
        ref = self.new_dict()

        def emit():
            k = self.ev(e.key)
            self.setitem(ref, k, self.ev(e.value))
        self.comp(e.generators, emit)
        return ref


def _is_abstract(v):
    while isinstance(v, (StaticM, ClassM, Cached)):
        v = v.func
    if isinstance(v, Prop):
        return any(_is_abstract(f) for f in (v.fget, v.fset, v.fdel) if f is not None)
    return isinstance(v, Func) and v.attrs.get("__isabstractmethod__") is True


_LOCALS = {}


def _locals(node):
    """Names that are local variables of a function."""
    r = _LOCALS.get(id(node))
    if r is not None:
        return r[1]
    names, outer = set(), set()

    def visit(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d, comp)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            comp = True
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and not comp:
            names.add(n.id)
        if isinstance(n, ast.NamedExpr):
            names.add(n.target.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            outer.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            names.update((a.asname or a.name.split(".")[0]) for a in n.names)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        if isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c, comp)
    if not isinstance(node, ast.Lambda):
        for st in node.body:
            visit(st)
    r = frozenset(names - outer - {"*"})
    _LOCALS[id(node)] = (node, r)
    return r


def _is_generator(node):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True

        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        visit_Lambda = visit_AsyncFunctionDef = visit_FunctionDef
    v = V()
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        v.visit(s)
    return v.found


def _inner_funcs(v):
    if isinstance(v, Func):
        yield v
    elif isinstance(v, (Cached, StaticM, ClassM, CachedProp, CtxFactory)):
        yield from _inner_funcs(v.func)
    elif isinstance(v, Prop):
        for f in (v.fget, v.fset, v.fdel):
            if f is not None:
                yield from _inner_funcs(f)
