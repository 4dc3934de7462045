"""Symbolic interpreter of the *real* Python source of the functions under contract.

The AST is parsed on every run from the file the imported function object came from; names are
resolved through the function's real globals and closure.  Nothing is transcribed by hand.
"""
from __future__ import annotations
import ast, builtins, inspect, os, sys, types, operator, functools, itertools, abc, warnings as _warnings
import numpy as np
from .terms import *
from . import terms as T
from .terms import _theatom
from . import prover
from .sym import *
from .sym import SArr, Store, E, Num, Bl, TSize, Dead, topoly, tob, dim, dval, deq, wrap, unbool, pyof, is_sym
from .values import *
from . import textmodel
from .values import Poison, PList, PDict, PSet, Rope, Fmt, Seg, Subst, Limits, freeze, vmerge, lift, concretize, deep_sym, is_instance_obj, stamp_obj, has_app, norm_segs
from . import npmodel as N

N_REG = None
ROOTS = {"ramannoodle"}        # packages whose functions are interpreted from source
MISSING = object()


def registry():
    global N_REG
    if N_REG is None:
        N_REG = N.build_registry()
        if "torch" in sys.modules:
            from . import torchmodel
            N_REG.update(torchmodel.build_registry())
    return N_REG


# source ----------------------------------------------------------------------------------------
_trees: dict = {}
USED: dict = {}              # qualified name -> file:line of every function interpreted


def tree_of(fn):
    t = _trees.get(fn)
    if t is None:
        src = open(fn, encoding="utf-8").read()
        t = {}
        for n in ast.walk(ast.parse(src, fn)):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])])
                t.setdefault((line, getattr(n, "name", "<lambda>")), n)
        _trees[fn] = t
    return t


def node_of(f: types.FunctionType):
    co = f.__code__
    t = tree_of(co.co_filename)
    n = t.get((co.co_firstlineno, co.co_name))
    if n is None: raise Unsupported(f"no source for {f.__qualname__}")
    return n


class Frame:
    def __init__(self, globs, parent=None, name="?"):
        self.vars = {}; self.globs = globs; self.parent = parent; self.name = name
        self.stamp = next(values_stamp); self.cls = None; self.yields = None; self.nonloc = set(); self.glob = set()

    def get(self, n):
        f = self
        while f is not None:
            v = f.vars.get(n, MISSING)
            if v is not MISSING:
                if isinstance(v, Poison): raise Unsupported(v.why)
                return v
            f = f.parent
        v = self.globs.get(n, MISSING)
        if v is not MISSING: return lift_global(v)
        v = getattr(builtins, n, MISSING)
        if v is MISSING: raise NameError(f"name '{n}' is not defined")
        return v

    def set(self, n, v):
        f = self
        if n in self.nonloc:
            f = self.parent
            while n not in f.vars: f = f.parent
        if n in self.glob: raise Unsupported("assignment to a global")
        old = f.vars.get(n, MISSING)

        def undo():
            if old is MISSING: f.vars.pop(n, None)
            else: f.vars[n] = old
        E.record(undo, ("local", f, n))
        f.vars[n] = v

    def delete(self, n):
        old = self.vars.pop(n)
        def undo(): self.vars[n] = old
        E.record(undo, ("local", self, n))


from .values import _stamp as values_stamp


def lift_global(v):
    return v


class IFunc:
    """Function or lambda created by interpreted code."""
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.__name__ = node, frame, defaults, kwdefaults, name

    def __call__(self, *a, **k): return call(self, a, k)


class IBound:
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_
    @property
    def __name__(self): return getattr(self.fn, "__name__", "?")
    def __call__(self, *a, **k): return call(self.fn, (self.self_,) + a, k)


class ISuper:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class Signal:
    def __init__(self, kind, value=None): self.kind, self.value = kind, value


BREAK = Signal("break"); CONTINUE = Signal("continue")


def in_roots(mod): return (mod or "").split(".")[0] in ROOTS


# attribute access --------------------------------------------------------------------------------
def get_attr(o, name, default=MISSING):
    if isinstance(o, ISuper):
        mro = type(o.obj).__mro__ if not isinstance(o.obj, type) else o.obj.__mro__
        for c in mro[mro.index(o.cls) + 1:]:
            if name in c.__dict__: return bind(c.__dict__[name], o.obj, c)
        raise AttributeError(name)
    if is_instance_obj(o):
        d = o.__dict__
        for c in type(o).__mro__:
            if name in c.__dict__:
                raw = c.__dict__[name]
                if isinstance(raw, property):
                    if in_roots(c.__module__): return call(raw.fget, (o,), {})
                    break
                if isinstance(raw, functools.cached_property):
                    if name in d: return d[name]
                    v = call(raw.func, (o,), {}); set_attr(o, name, v); return v
                if name in d: break
                return bind(raw, o, c)
        if name in d:
            v = d[name]
            if isinstance(v, Poison): raise Unsupported(v.why)
            return v
    if isinstance(o, Poison): raise Unsupported(o.why)
    if isinstance(o, (np.ndarray,)) and name in N.METHODS and o.dtype.kind in "fiub" and deep_native_ok(o):
        pass
    if isinstance(o, (IFunc, IBound)) and name in ("__name__", "__qualname__"): return o.__name__
    if isinstance(o, type) and in_roots(getattr(o, "__module__", "")):
        raw = inspect.getattr_static(o, name, MISSING)
        if isinstance(raw, staticmethod): return raw.__func__
        if isinstance(raw, classmethod): return IBound(raw.__func__, o)
    if isinstance(o, PList):
        if name in ("append", "extend", "insert", "pop", "remove", "clear", "copy", "reverse", "sort", "index", "count"):
            return getattr(o, name)
        raise AttributeError(f"'list' object has no attribute '{name}'")
    if isinstance(o, (Num,)):
        if name in ("shape", "ndim", "dtype", "size", "copy", "item") and not o.py.startswith("np"):
            raise AttributeError(f"'{o.py}' object has no attribute '{name}'")
        if name == "real": return o
        if name == "astype": return lambda dt: wrap(topoly(o), "npfloat" if N.dtype_code(dt) == "f" else "npint")
    try:
        v = getattr(o, name)
    except AttributeError:
        if default is not MISSING: return default
        raise
    return lift_attr(o, v)


def lift_attr(o, v):
    if isinstance(o, (types.ModuleType, type)): return v
    if type(v) is list or (type(v) is np.ndarray and isinstance(v, np.ndarray)) or type(v) is dict:
        if isinstance(o, SArr): return v
        return lift(v)
    return v


def deep_native_ok(o): return True


def bind(raw, obj, cls):
    if isinstance(raw, staticmethod): return raw.__func__
    if isinstance(raw, classmethod): return IBound(raw.__func__, obj if isinstance(obj, type) else type(obj))
    if isinstance(raw, property): return call(raw.fget, (obj,), {})
    if isinstance(raw, types.FunctionType):
        return IBound(raw, obj) if in_roots(raw.__module__) else types.MethodType(raw, obj)
    if hasattr(raw, "__get__"): return raw.__get__(obj, type(obj))
    return raw


def set_field(o, name, v):
    d = o.__dict__
    old = d.get(name, MISSING)

    def undo():
        if old is MISSING: d.pop(name, None)
        else: d[name] = old
    E.record(undo, ("attr", o, name))
    d[name] = v


def set_attr(o, name, v):
    if is_instance_obj(o):
        for c in type(o).__mro__:
            raw = c.__dict__.get(name)
            if isinstance(raw, property):
                if raw.fset is None: raise AttributeError(f"property '{name}' of '{type(o).__name__}' object has no setter")
                call(raw.fset, (o, v), {}); return
        return set_field(o, name, v)
    if isinstance(o, SArr) and name == "shape": raise Unsupported("assignment to shape")
    if hasattr(o, "vc_setattr"): o.vc_setattr(name, v); return
    raise Unsupported(f"attribute assignment on {type(o).__name__}")


# calls -------------------------------------------------------------------------------------------
CALLSTACK = []


def call(f, args=(), kw=None):
    kw = kw or {}
    sub = E.substitute.get(f) if _hashable(f) else None
    if sub is not None:
        E.subused.add(f)
        return sub(*args, **kw)
    if isinstance(f, IFunc): return call_node(f.node, f.frame, f.frame.globs, f.defaults, f.kwdefaults, args, kw, f.__name__, f.frame.cls)
    if isinstance(f, IBound): return call(f.fn, (f.self_,) + tuple(args), kw)
    if isinstance(f, types.MethodType):
        if f.__func__ in E.substitute: return call(f.__func__, (f.__self__,) + tuple(args), kw)
        if isinstance(f.__func__, types.FunctionType) and in_roots(f.__func__.__module__):
            return call(f.__func__, (f.__self__,) + tuple(args), kw)
        if is_instance_obj(f.__self__) and registry().get(f.__func__) is not None: return registry()[f.__func__](f.__self__, *args, **kw)
        return native(f, args, kw)
    if isinstance(f, types.FunctionType) and in_roots(f.__module__): return call_real(f, args, kw)
    if _hashable(f):
        sh = SHIMS.get(f)
        if sh is not None: return sh(*args, **kw)
        m = registry().get(f)
        if m is not None: return m(*args, **kw)
    if isinstance(f, functools.partial):
        return call(f.func, tuple(f.args) + tuple(args), {**f.keywords, **kw})
    if isinstance(f, type):
        if in_roots(f.__module__):
            if issubclass(f, BaseException): return make_exc(f, args, kw)
            return instantiate(f, args, kw)
        if issubclass(f, BaseException): return make_exc(f, args, kw)
    if is_instance_obj(f):
        return call(get_attr(f, "__call__"), args, kw)
    if isinstance(f, type) and f is super: raise Unsupported("super")
    return native(f, args, kw)


def make_exc(f, args, kw):
    e = f(*[exc_arg(a) for a in args], **kw)
    if len(args) == 1 and isinstance(args[0], (Rope, textmodel.OText)) and "__str__" not in f.__dict__: e._vc_text = args[0]
    return e


def exc_arg(a):
    if isinstance(a, textmodel.OText): return "<text>"
    return a if isinstance(a, (str, int, float)) else str(a) if isinstance(a, (Rope, Num)) else concretize(a) if not deep_sym(a) else "<symbolic>"


def _hashable(f):
    try:
        hash(f); return True
    except TypeError: return False


TRUSTED_NATIVE = {"vc"}


def native(f, args, kw):
    """Call library code natively: only with fully concrete arguments."""
    if not callable(f): raise TypeError(f"'{tyname(f)}' object is not callable")
    mod = getattr(f, "__module__", None) or ""
    self_ = getattr(f, "__self__", None)
    own = (isinstance(f, types.FunctionType) and (mod.startswith("vc") or mod.startswith("contracts"))) or \
          (self_ is not None and type(self_).__module__.startswith(("vc", "contracts"))) or getattr(f, "_vc_native_", False) or \
          (isinstance(f, type) and mod.startswith(("vc", "contracts"))) or type(f).__module__.startswith(("vc", "contracts"))
    if own: return f(*args, **kw)
    if outside(f, mod, self_): raise Unsupported(f"call that may touch files or the system: {mod}.{getattr(f, '__qualname__', f)}")
    if isinstance(self_, (list, dict, set)) and not isinstance(self_, (PDict, PSet)) and getattr(f, "__name__", "") in MUTATORS:
        raise Unsupported(f"mutation of a native {type(self_).__name__}")
    if isinstance(self_, str) and any(isinstance(a, Rope) for a in args): raise Unsupported("string method with symbolic text")
    if isinstance(self_, str) and getattr(f, "__name__", "") == "join":
        xs = args[0]
        if isinstance(xs, PList) and not xs.is_concrete_len():
            if self_ == "":
                return Rope.make([p for s in xs.segs for p in (s.vals if s.n is None else [textmodel.rep(P(s.n), s.at)])])
            if len(xs.segs) == 1:
                g = xs.segs[0]
                if E.decide(mk_le(P(g.n))): return ""
                return Rope.make([g.at(PZERO), textmodel.rep(P(g.n) - 1, lambda k: Rope.make([self_, g.at(k + 1)]))])
            raise Unsupported("join of a symbolic list")
        xs = [Rope([x.part()]) if isinstance(x, textmodel.OText) else x for x in (xs.values() if isinstance(xs, PList) else list(xs))]
        if any(isinstance(x, Rope) for x in xs):
            out = []
            for i, x in enumerate(xs):
                if i: out.append(self_)
                out.append(x)
            return Rope.make(out)
    if any(deep_sym(a) for a in args) or any(deep_sym(a) for a in kw.values()) or (self_ is not None and not isinstance(self_, types.ModuleType) and deep_sym(self_)):
        if isinstance(self_, (PDict, PSet)) or isinstance(self_, dict): return f(*args, **kw)
        raise Unsupported(f"library call on symbolic data: {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)}")
    return lift(f(*[concretize(a) for a in args], **{k: concretize(v) for k, v in kw.items()}))


PURE_PATH = {"joinpath", "with_suffix", "with_name", "with_stem", "as_posix", "is_absolute", "relative_to", "match", "__truediv__", "__str__", "__fspath__"}


def outside(f, mod, self_):
    """May the library call read or change anything outside the program?"""
    import pathlib
    if isinstance(self_, pathlib.PurePath): return getattr(f, "__name__", "") not in PURE_PATH
    if f is open: return True
    if f in (os.fspath, os.path.join, os.path.basename, os.path.dirname, os.path.splitext, os.path.normpath): return False
    top = mod.split(".")[0]
    return top in ("os", "posix", "posixpath", "shutil", "io", "_io", "tempfile", "subprocess", "socket", "pathlib", "codecs", "glob", "fcntl") and not (isinstance(f, type) and top == "pathlib")


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "add", "discard", "popitem"}


def instantiate(cls, args, kw):
    if getattr(cls, "__abstractmethods__", None): raise TypeError(f"Can't instantiate abstract class {cls.__name__}")
    ctor = INSTANTIATE.get(cls)
    if ctor is not None: return ctor(cls, args, kw)
    for c in cls.__mro__:
        if not in_roots(c.__module__) and c not in (object, abc.ABC) and c.__module__ not in ("abc", "typing", "collections.abc"):
            base = c
            hook = BASE_NEW.get(f"{c.__module__}.{c.__qualname__}")
            if hook is None: raise Unsupported(f"instance of a class derived from {c.__module__}.{c.__qualname__}")
            break
    o = object.__new__(cls)
    stamp_obj(o)
    init = MISSING
    for c in cls.__mro__:
        if "__init__" in c.__dict__:
            init = c.__dict__["__init__"]; break
    if isinstance(init, types.FunctionType):
        if init.__code__.co_filename.startswith("<"): init(o, *args, **kw)       # dataclass-generated
        elif in_roots(init.__module__): call(init, (o,) + tuple(args), kw)
        else: raise Unsupported("native __init__")
    elif args or kw: raise TypeError(f"{cls.__name__}() takes no arguments")
    return o


INSTANTIATE: dict = {}
BASE_NEW: dict = {"torch.nn.modules.module.Module": 1, "torch.utils.data.dataset.Dataset": 1, "typing.Generic": 1}


def call_real(f, args, kw):
    node = node_of(f)
    parent = None
    if f.__closure__:
        parent = Frame(f.__globals__, None, "<closure>")
        for n, c in zip(f.__code__.co_freevars, f.__closure__):
            try: parent.vars[n] = c.cell_contents
            except ValueError: pass
    USED[f"{f.__module__}.{f.__qualname__}"] = f"{f.__code__.co_filename}:{f.__code__.co_firstlineno}"
    cls = None
    if "." in f.__qualname__:
        cn = f.__qualname__.split(".")[-2]
        cls = f.__globals__.get(cn)
    return call_node(node, parent, f.__globals__, f.__defaults__ or (), f.__kwdefaults__ or {}, args, kw, f.__qualname__, cls)


def bind_args(a: ast.arguments, defaults, kwdefaults, args, kw, name):
    pos = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    args = list(args); kw = dict(kw)
    if len(args) > len(pos) and a.vararg is None:
        raise TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")
    for n, v in zip(pos, args): env[n] = v
    if a.vararg is not None: env[a.vararg.arg] = tuple(args[len(pos):])
    for n in pos:
        if n in kw:
            if n in env: raise TypeError(f"{name}() got multiple values for argument '{n}'")
            env[n] = kw.pop(n)
    for n, d in zip(pos[len(pos) - len(defaults):], defaults):
        if n not in env: env[n] = d
    for x in a.kwonlyargs:
        if x.arg in kw: env[x.arg] = kw.pop(x.arg)
        elif x.arg in kwdefaults: env[x.arg] = kwdefaults[x.arg]
        else: raise TypeError(f"{name}() missing keyword-only argument '{x.arg}'")
    for n in pos:
        if n not in env: raise TypeError(f"{name}() missing 1 required positional argument: '{n}'")
    if a.kwarg is not None: env[a.kwarg.arg] = PDict(kw)
    elif kw: raise TypeError(f"{name}() got an unexpected keyword argument '{next(iter(kw))}'")
    return env


def call_node(node, parent, globs, defaults, kwdefaults, args, kw, name, cls):
    if len(CALLSTACK) > 60: raise Unsupported("recursion too deep")
    env = bind_args(node.args, defaults, kwdefaults, args, kw, name)
    fr = Frame(globs, parent, name)
    fr.vars = env; fr.cls = cls; fr.first = next(iter(env.values()), None)
    if isinstance(node, ast.Lambda): return ev(node.body, fr)
    if node.decorator_list and any(_dec_unsupported(d) for d in node.decorator_list):
        raise Unsupported(f"decorator on {name}")
    isgen = _is_generator(node)
    if isgen: fr.yields = PList()
    CALLSTACK.append(name)
    try:
        s = run_block(node.body, fr)
    finally:
        CALLSTACK.pop()
    if isgen: return GenList(fr.yields)
    return s.value if s is not None and s.kind == "return" else None


class GenList(PList):
    """Result of a generator, evaluated eagerly."""
    def __init__(self, l):
        self.segs = l.segs; self.stamp = next(values_stamp); self.pos = 0


def _dec_unsupported(d):
    s = ast.unparse(d)
    return not (s in ("property", "staticmethod", "classmethod", "abstractmethod", "override", "typing.override", "cached_property", "functools.cached_property") or s.endswith((".setter", ".getter")) or "no_grad" in s)


_gencache = {}


def _is_generator(node):
    r = _gencache.get(node)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)): r = True; break
            todo += list(ast.iter_child_nodes(n))
        _gencache[node] = r
    return r


# statements --------------------------------------------------------------------------------------
def run_block(stmts, fr):
    for s in stmts:
        r = STMT[type(s)](s, fr) if type(s) in STMT else unsupported(s)
        if r is not None: return r
    return None


def unsupported(n):
    raise Unsupported(f"{type(n).__name__} at line {getattr(n, 'lineno', '?')}")


def s_expr(s, fr):
    if isinstance(s.value, ast.Constant): return None
    ev(s.value, fr)


def s_assign(s, fr):
    v = ev(s.value, fr)
    for t in s.targets: assign(t, v, fr)


def s_annassign(s, fr):
    if s.value is not None: assign(s.target, ev(s.value, fr), fr)


def assign(t, v, fr):
    if isinstance(t, ast.Name): fr.set(t.id, v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        n = len(t.elts)
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if isinstance(v, PList) and not star:
            L = v.length()
            if not isinstance(L, int):
                if not E.decide(mk_eq(topoly(L) - n)): raise ValueError(f"not enough/too many values to unpack (expected {n})")
                vals = [v.get(i) for i in range(n)]
            else: vals = v.values()
        elif isinstance(v, SArr) and v.ndim and not isinstance(v.shape_[0], int):
            if not deq(v.shape_[0], n): raise ValueError("too many values to unpack")
            vals = [v[i] for i in range(n)]
        else:
            if isinstance(v, (Num, Bl, int, float)) or v is None: raise TypeError(f"cannot unpack non-iterable {tyname(v)} object")
            vals = list(iter_native(v))
        if star:
            i = star[0]; m = n - 1
            if len(vals) < m: raise ValueError("not enough values to unpack")
            vals = vals[:i] + [PList(vals[i: len(vals) - (n - 1 - i)])] + vals[len(vals) - (n - 1 - i):]
        if len(vals) < n: raise ValueError(f"not enough values to unpack (expected {n}, got {len(vals)})")
        if len(vals) > n: raise ValueError(f"too many values to unpack (expected {n})")
        for x, y in zip(t.elts, vals): assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
    elif isinstance(t, ast.Attribute): set_attr(ev(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript): set_item(ev(t.value, fr), ev_index(t.slice, fr), v)
    else: unsupported(t)


def set_item(o, k, v):
    if isinstance(o, np.ndarray): raise Unsupported("assignment into a native array")
    if isinstance(o, (PList, PDict, SArr)): o[k] = v; return
    if is_instance_obj(o): call(get_attr(o, "__setitem__"), (k, v)); return
    if isinstance(o, tuple): raise TypeError("'tuple' object does not support item assignment")
    if isinstance(o, (Num, int, float)): raise TypeError(f"'{tyname(o)}' object does not support item assignment")
    if hasattr(o, "vc_setitem"): return o.vc_setitem(k, v)
    raise Unsupported(f"item assignment on {type(o).__name__}")


AUG = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
       ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.MatMult: "matmul"}


def s_aug(s, fr):
    t = s.target
    if isinstance(t, ast.Name): old = fr.get(t.id); put = lambda v: fr.set(t.id, v)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, fr); old = get_attr(o, t.attr); put = lambda v: set_attr(o, t.attr, v)
    else:
        o = ev(t.value, fr); k = ev_index(t.slice, fr); old = subscript(o, k); put = lambda v: set_item(o, k, v)
    rhs = ev(s.value, fr)
    op = AUG[type(s.op)]
    if isinstance(old, SArr) and op != "matmul":
        put(N.inplace(op, old, rhs)); return
    if isinstance(old, PList) and op == "add":
        old += rhs
        if not isinstance(t, ast.Name): put(old)          # the name keeps its value
        return
    put(binop(op, old, rhs))


def s_if(s, fr):
    return run_block(s.body if truth(ev(s.test, fr)) else s.orelse, fr)


def s_return(s, fr): return Signal("return", ev(s.value, fr) if s.value is not None else None)


def s_raise(s, fr):
    if s.exc is None:
        exc = fr.vars.get("$exc")
        if exc is None: raise RuntimeError("No active exception to reraise")
        raise exc
    e = ev(s.exc, fr)
    if isinstance(e, type): e = e()
    if s.cause is not None:
        c = ev(s.cause, fr)
        e.__cause__ = c
    raise e


def s_try(s, fr):
    def finish():
        return run_block(s.finalbody, fr) if s.finalbody else None
    try:
        r = run_block(s.body, fr)
        if r is None and s.orelse: r = run_block(s.orelse, fr)
    except (Dead, Unsupported): raise
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, SystemExit, RecursionError, MemoryError, AssertionError)) and not isinstance(exc, AssertionError): raise
        for h in s.handlers:
            if h.type is None: ok = True
            else:
                ty = ev(h.type, fr)
                ok = isinstance(exc, tuple(ty) if isinstance(ty, (tuple, PList)) else ty)
            if ok:
                old = fr.vars.get("$exc")
                fr.vars["$exc"] = exc
                if h.name: fr.set(h.name, exc)
                try:
                    r = run_block(h.body, fr)
                except (Dead, Unsupported): raise
                except BaseException:
                    r2 = finish()
                    if r2 is not None: return r2
                    raise
                finally:
                    fr.vars["$exc"] = old
                r2 = finish()
                return r2 if r2 is not None else r
        r2 = finish()
        if r2 is not None: return r2
        raise
    r2 = finish()
    return r2 if r2 is not None else r


def s_with(s, fr):
    def go(i):
        if i == len(s.items): return run_block(s.body, fr)
        it = s.items[i]
        cm = ev(it.context_expr, fr)
        v = cm_enter(cm)
        if it.optional_vars is not None: assign(it.optional_vars, v, fr)
        try:
            r = go(i + 1)
        except (Dead, Unsupported): raise
        except BaseException as exc:
            if cm_exit(cm, exc): return None
            raise
        cm_exit(cm, None)
        return r
    return go(0)


def cm_enter(cm):
    if is_instance_obj(cm): return call(get_attr(cm, "__enter__"))
    if hasattr(cm, "vc_enter"): return cm.vc_enter()
    if type(cm).__module__.startswith("torch"): return None       # no_grad / device contexts
    if type(cm).__name__ in ("suppress", "nullcontext", "catch_warnings"): return cm.__enter__()
    if hasattr(cm, "read"): return cm.__enter__()
    raise Unsupported(f"context manager {type(cm).__name__}")


def cm_exit(cm, exc):
    if is_instance_obj(cm): return truth(call(get_attr(cm, "__exit__"), (type(exc) if exc else None, exc, None)))
    if hasattr(cm, "vc_exit"): return cm.vc_exit(exc)
    if type(cm).__module__.startswith("torch"): return False
    return cm.__exit__(type(exc) if exc else None, exc, None)


def s_assert(s, fr):
    if not truth(ev(s.test, fr)): raise AssertionError(str(ev(s.msg, fr)) if s.msg is not None else "")


def s_funcdef(s, fr):
    if s.decorator_list: unsupported(s)
    fr.set(s.name, make_func(s, fr, s.name))


def make_func(node, fr, name):
    a = node.args
    d = tuple(ev(x, fr) for x in a.defaults)
    kd = {x.arg: ev(y, fr) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None}
    return IFunc(node, fr, d, kd, name)


def s_import(s, fr):
    for al in s.names:
        m = __import__(al.name)
        if al.asname:
            for p in al.name.split(".")[1:]: m = getattr(m, p)
        fr.set(al.asname or al.name.split(".")[0], m)


def s_importfrom(s, fr):
    import importlib
    m = importlib.import_module(("." * s.level) + (s.module or ""), fr.globs.get("__package__"))
    for al in s.names: fr.set(al.asname or al.name, getattr(m, al.name))


def s_delete(s, fr):
    for t in s.targets:
        if isinstance(t, ast.Name): fr.delete(t.id)
        elif isinstance(t, ast.Subscript):
            o = ev(t.value, fr); k = ev_index(t.slice, fr)
            if isinstance(o, PDict): del o[k]
            elif isinstance(o, PList):
                x = o.values(); del x[k]; o._set([Seg(vals=x)])
            else: unsupported(t)
        else: unsupported(t)


def s_while(s, fr):
    n = 0
    if isinstance(s.test, ast.Constant) and s.test.value:
        r = sym_loop1(E.fresh("fuel", True, (PONE, None)), lambda j: j, lambda j: run_block(s.body, fr), diverge=True)
        return None if r is BREAK else r
    while truth(ev(s.test, fr)):
        n += 1
        if n > 400: raise Unsupported("while loop without a bound")
        r = run_block(s.body, fr)
        if r is not None:
            if r is BREAK: return None
            if r is CONTINUE: continue
            return r
    return run_block(s.orelse, fr) if s.orelse else None


def s_for(s, fr):
    it = ev(s.iter, fr)

    def body(v):
        assign(s.target, v, fr)
        return run_block(s.body, fr)
    r = run_loop(it, body)
    if r is BREAK: return None
    if r is not None: return r
    return run_block(s.orelse, fr) if s.orelse else None


STMT = {
    ast.Expr: s_expr, ast.Assign: s_assign, ast.AnnAssign: s_annassign, ast.AugAssign: s_aug, ast.If: s_if, ast.Return: s_return,
    ast.Raise: s_raise, ast.Try: s_try, ast.With: s_with, ast.Assert: s_assert, ast.FunctionDef: s_funcdef, ast.Import: s_import,
    ast.ImportFrom: s_importfrom, ast.Delete: s_delete, ast.While: s_while, ast.For: s_for, ast.Pass: lambda s, f: None,
    ast.Break: lambda s, f: BREAK, ast.Continue: lambda s, f: CONTINUE,
    ast.Nonlocal: lambda s, f: f.nonloc.update(s.names), ast.Global: lambda s, f: f.glob.update(s.names),
}


# expressions -------------------------------------------------------------------------------------
def truth(v) -> bool:
    if isinstance(v, Poison): raise Unsupported(v.why)
    if isinstance(v, textmodel.OText): return v.vc_truth()
    if is_instance_obj(v):
        for c in type(v).__mro__:
            if "__bool__" in c.__dict__: return truth(call(c.__dict__["__bool__"], (v,)))
            if "__len__" in c.__dict__: return truth(binop_cmp("ne", call(c.__dict__["__len__"], (v,)), 0))
        return True
    return bool(v)


def ev(e, fr):
    f = EXPR.get(type(e))
    if f is None: unsupported(e)
    return f(e, fr)


def e_const(e, fr): return e.value
def e_name(e, fr): return fr.get(e.id)


def e_attr(e, fr):
    return get_attr(ev(e.value, fr), e.attr)


def ev_index(s, fr):
    if isinstance(s, ast.Slice):
        return slice(*[ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
    if isinstance(s, ast.Tuple): return tuple(ev_index(x, fr) for x in s.elts)
    return ev(s, fr)


def e_subscript(e, fr):
    return subscript(ev(e.value, fr), ev_index(e.slice, fr))


def subscript(o, k):
    if isinstance(o, SArr): return o[k]
    if isinstance(o, PList): return o[k]
    if isinstance(o, np.ndarray) and deep_sym(k): return N.asarr(o)[k]
    if isinstance(o, (tuple, list, str)) and isinstance(k, (Num, SArr)):
        i = topoly(k); c = i.const()
        if c is not None: return o[int(c)]
        return PList(list(o)).get(i)
    if isinstance(o, (tuple, str)) and isinstance(k, int): return o[k]
    if isinstance(o, (tuple, list, str)) and isinstance(k, slice): return o[concretize(k)]
    if isinstance(o, Rope) and isinstance(k, slice): return o.slice(k)
    if isinstance(o, dict):
        if isinstance(k, textmodel.OText):
            h, v = k.vc_key(o)
            if not E.decide(h): raise KeyError("<text>")
            return v
        if isinstance(k, Num) and deep_sym(k) and textmodel.KText.fits(o):
            if not E.decide(one_of(k.p, o)): raise KeyError("<number>")
            return textmodel.KText(o, k.p)
        if deep_sym(k):
            for kk, vv in o.items():
                if interp_eq(kk, k): return vv
            raise KeyError(k)
        return o[concretize(k)]
    if is_instance_obj(o): return call(get_attr(o, "__getitem__"), (k,))
    if hasattr(o, "vc_getitem"): return o.vc_getitem(k)
    if isinstance(o, TSize): return o[k]
    if isinstance(o, (Num, Bl, int, float)) or o is None: raise TypeError(f"'{tyname(o)}' object is not subscriptable")
    if N.is_torch(o): return N.asarr(o)[k]
    if deep_sym(o) or deep_sym(k): raise Unsupported(f"subscript of {type(o).__name__}")
    if isinstance(o, types.GenericAlias) or isinstance(o, type): return o
    return lift(o[concretize(k)])


def e_tuple(e, fr):
    return tuple(ev_star(e.elts, fr))


def ev_star(elts, fr):
    out = []
    for x in elts:
        if isinstance(x, ast.Starred): out += list(iter_native(ev(x.value, fr)))
        else: out.append(ev(x, fr))
    return out


def e_list(e, fr): return PList(ev_star(e.elts, fr))
def e_set(e, fr): return PSet(ev_star(e.elts, fr))


def e_dict(e, fr):
    d = PDict()
    for k, v in zip(e.keys, e.values):
        if k is None: dict.update(d, ev(v, fr))
        else: dict.__setitem__(d, ev(k, fr), ev(v, fr))
    return d


BOP = dict(AUG)


def e_binop(e, fr):
    return binop(BOP[type(e.op)] if type(e.op) in BOP else unsupported(e), ev(e.left, fr), ev(e.right, fr))


PYOP = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv, "floordiv": operator.floordiv,
        "mod": operator.mod, "pow": operator.pow, "and": operator.and_, "or": operator.or_, "xor": operator.xor, "matmul": operator.matmul}


def binop(op, a, b):
    for v in (a, b):
        if isinstance(v, Poison): raise Unsupported(v.why)
    if isinstance(a, N.CArr) or isinstance(b, N.CArr): raise Unsupported("complex arithmetic")
    if isinstance(a, type) or isinstance(b, type) or isinstance(a, types.GenericAlias): return PYOP[op](a, b)
    if N.is_arr(a) or N.is_arr(b):
        if isinstance(a, SArr) or isinstance(b, SArr) or is_sym(a) or is_sym(b) or True:
            if op == "matmul": return N.matmul(a, b)
            if isinstance(a, (str, Rope)) and op == "mod": raise Unsupported("string formatting")
            return N.binop(op, a, b)
    if op == "mod" and isinstance(a, str):
        if deep_sym(b): return Rope.make([Fmt(b, a)]) if False else _percent(a, b)
        return a % concretize(b)
    if op == "mul" and isinstance(a, (tuple, str)) and isinstance(b, Num): return a * int(b)
    if op == "add" and isinstance(a, PList) and not isinstance(b, (PList, list)): raise TypeError(f'can only concatenate list (not "{tyname(b)}") to list')
    if isinstance(a, (np.generic,)) and isinstance(b, Num):
        return getattr(b, {"add": "__radd__", "sub": "__rsub__", "mul": "__rmul__", "truediv": "__rtruediv__", "floordiv": "__rfloordiv__", "mod": "__rmod__", "pow": "__rpow__"}[op])(a)
    if op == "matmul": raise TypeError("unsupported operand type(s) for @")
    return PYOP[op](a, b)


def _percent(a, b): raise Unsupported("% formatting of symbolic value")


def e_unary(e, fr):
    v = ev(e.operand, fr)
    if isinstance(e.op, ast.Not): return unbool(mk_not(v.b)) if isinstance(v, Bl) else not truth(v)
    if isinstance(v, np.ndarray): v = N.asarr(v)
    if isinstance(e.op, ast.USub): return -v
    if isinstance(e.op, ast.UAdd): return +v
    return ~v


def e_boolop(e, fr):
    isand = isinstance(e.op, ast.And)
    for x in e.values[:-1]:
        v = ev(x, fr)
        if truth(v) != isand: return v
    return ev(e.values[-1], fr)


CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}
PYCMP = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne}


def binop_cmp(op, a, b):
    if N.is_arr(a) or N.is_arr(b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if op in ("eq", "ne"):
                x = a if N.is_arr(a) else b
                return SArr.new(N.asarr(x).shape_, lambda J: bconst(op == "ne"), "b") if N.asarr(x).ndim else op == "ne"
            raise TypeError(f"'{op}' not supported between instances of array and {tyname(b)}")
        return N.binop(op, a, b)
    if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported("loop-carried value")
    if isinstance(a, TSize): a = tuple(a)
    if isinstance(b, TSize): b = tuple(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op in ("eq", "ne"):
        r = eq_term(a, b)
        return unbool(r if op == "eq" else mk_not(r))
    if is_instance_obj(a) and op in ("eq", "ne"):
        for c in type(a).__mro__:
            if "__eq__" in c.__dict__ and c is not object and in_roots(c.__module__):
                r = call(c.__dict__["__eq__"], (a, b))
                return r if op == "eq" else (not truth(r))
    if isinstance(a, (int, float, np.number)) and isinstance(b, (Num, Bl)):
        return PYCMP[{"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}[op]](b, a)
    return PYCMP[op](a, b)


def e_compare(e, fr):
    l = ev(e.left, fr); res = None
    for op, x in zip(e.ops, e.comparators):
        r = ev(x, fr)
        t = compare(op, l, r)
        res = t
        if len(e.ops) > 1:
            if op is not e.ops[-1] or True:
                if not truth(t): return False
        l = r
    return res


def compare(op, a, b):
    if isinstance(op, ast.Is): return ident(a, b)
    if isinstance(op, ast.IsNot): return not ident(a, b)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(b, a)
        return r if isinstance(op, ast.In) else (unbool(mk_not(r.b)) if isinstance(r, Bl) else not r)
    return binop_cmp(CMP[type(op)], a, b)


def one_of(p, keys):
    """Is the number one of the keys (runs of consecutive keys as intervals)."""
    ks = sorted(keys); b = FALSE; i = 0
    while i < len(ks):
        j = i
        while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1: j += 1
        b = mk_or(b, mk_and(mk_le(P(ks[i]) - p), mk_le(p - ks[j]))); i = j + 1
    return b


def ident(a, b):
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, (Num, int)) and isinstance(b, (Num, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        # CPython caches -5..256; identity of larger equal ints is False (distinct objects)
        pa, pb = topoly(a), topoly(b)
        if not E.decide(mk_eq(pa - pb)): return False
        return E.decide(mk_and(mk_le(-pa - 5), mk_le(pa - 256)))
    if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
        if isinstance(a, Bl) or isinstance(b, Bl): raise Unsupported("identity of symbolic booleans")
    return a is b


def contains(c, v):
    if isinstance(c, Rope): return textmodel.text_in(v, c)
    if isinstance(c, dict) and not deep_sym(v): return concretize(v) in c
    if isinstance(c, (str,)):
        if isinstance(v, (Rope, textmodel.OText)): raise Unsupported("in on symbolic text")
        return v in c
    if hasattr(c, "vc_contains"): return c.vc_contains(v)
    if isinstance(v, textmodel.OText) and isinstance(c, dict): return unbool(v.vc_key(c)[0])
    if isinstance(v, textmodel.OText) and type(c).__name__ in ("dict_keys", "set", "frozenset") and all(isinstance(x, str) for x in c):
        if type(c).__name__ == "dict_keys":
            import gc
            for d in gc.get_referents(c):
                if isinstance(d, dict): return unbool(v.vc_key(d)[0])
        raise Unsupported("in on a set of texts")
    if is_instance_obj(c): return truth(call(get_attr(c, "__contains__"), (v,)))
    if isinstance(c, range) and isinstance(v, Num):
        if c.step != 1: raise Unsupported("in range")
        return unbool(mk_and(mk_le(P(c.start) - v.p), mk_lt(v.p - c.stop)))
    if isinstance(c, SRange):
        p = topoly(v) - c.start
        if c.step != 1: raise Unsupported("in range")
        return unbool(mk_and(mk_le(-p), mk_lt(p - c.n)))
    if isinstance(c, SArr):
        return N.aany(N.asarr(N.binop("eq", c, v)))
    if isinstance(c, PList) and not c.is_concrete_len():
        if len(c.segs) == 1:
            s = c.segs[0]
            return unbool(exists(P(s.n), lambda k: eq_term(s.at(k), v)))
        raise Unsupported("in on symbolic list")
    xs = c.values() if isinstance(c, PList) else (list(c) if not isinstance(c, (set, frozenset)) else list(c))
    b = FALSE
    if len(xs) > 8 and isinstance(v, Num) and v.p.isint and all(type(x) is int for x in xs): return unbool(one_of(v.p, xs))
    for x in xs: b = mk_or(b, eq_term(x, v))
    return unbool(b)


def e_ifexp(e, fr): return ev(e.body if truth(ev(e.test, fr)) else e.orelse, fr)


def e_lambda(e, fr): return make_func(e, fr, "<lambda>")


def e_call(e, fr):
    f = e.func
    if isinstance(f, ast.Name) and f.id == "super" and not e.args:
        cls = fr.cls
        return ISuper(cls, fr.first)
    if isinstance(f, ast.Name) and f.id == "locals": unsupported(e)
    fn = ev(f, fr)
    args = ev_star(e.args, fr)
    kw = {}
    for k in e.keywords:
        if k.arg is None:
            kw.update(ev(k.value, fr))
        else: kw[k.arg] = ev(k.value, fr)
    return call(fn, args, kw)


def e_joined(e, fr):
    parts = []
    for v in e.values:
        if isinstance(v, ast.Constant): parts.append(v.value); continue
        x = ev(v.value, fr)
        spec = ev(v.format_spec, fr) if v.format_spec is not None else ""
        conv = {-1: None, 115: str, 114: repr, 97: ascii}[v.conversion]
        parts.append(fmt_value(x, spec, conv))
    return Rope.make(parts)


def fmt_value(x, spec="", conv=None):
    if isinstance(x, textmodel.OText):
        if spec == "s": spec = ""
        if spec: raise Unsupported("format of symbolic text")
        return Rope([x.part()])
    if isinstance(x, BaseException): return b_str(x)
    if isinstance(x, Rope):
        if spec: raise Unsupported("format of symbolic text")
        return x
    if deep_sym(x):
        if isinstance(x, Num) or isinstance(x, SArr) and x.ndim == 0:
            return Rope([Fmt(x, str(spec))])
        if isinstance(spec, Rope): raise Unsupported("symbolic format")
        return Rope([Fmt("?", "opaque")]) if not is_instance_obj(x) else "<object>"
    x = concretize(x)
    if conv: x = conv(x)
    return format(x, spec)


def comp_loop(gens, fr, emit):
    """Comprehension as nested loops."""
    f2 = Frame(fr.globs, fr, "<comp>")
    f2.cls = fr.cls; f2.first = getattr(fr, "first", None)

    def go(i):
        if i == len(gens):
            emit(f2); return None
        g = gens[i]
        it = ev(g.iter, f2 if i else fr)

        def body(v):
            assign(g.target, v, f2)
            for c in g.ifs:
                if not truth(ev(c, f2)): return CONTINUE
            return go(i + 1)
        return run_loop(it, body)
    go(0)


def e_listcomp(e, fr):
    out = PList()
    comp_loop(e.generators, fr, lambda f: out.append(ev(e.elt, f)))
    return out


def e_setcomp(e, fr):
    out = PSet()
    comp_loop(e.generators, fr, lambda f: out.add(ev(e.elt, f)))
    return out


def e_dictcomp(e, fr):
    out = PDict()
    comp_loop(e.generators, fr, lambda f: out.__setitem__(ev(e.key, f), ev(e.value, f)))
    return out


def e_yield(e, fr):
    f = fr
    fr.yields.append(ev(e.value, fr) if e.value is not None else None)


def e_named(e, fr):
    v = ev(e.value, fr)
    f = fr
    while f.name == "<comp>": f = f.parent
    f.set(e.target.id, v)
    return v


EXPR = {
    ast.Constant: e_const, ast.Name: e_name, ast.Attribute: e_attr, ast.Subscript: e_subscript, ast.Tuple: e_tuple, ast.List: e_list,
    ast.Set: e_set, ast.Dict: e_dict, ast.BinOp: e_binop, ast.UnaryOp: e_unary, ast.BoolOp: e_boolop, ast.Compare: e_compare,
    ast.IfExp: e_ifexp, ast.Lambda: e_lambda, ast.Call: e_call, ast.JoinedStr: e_joined, ast.ListComp: e_listcomp,
    ast.GeneratorExp: e_listcomp, ast.SetComp: e_setcomp, ast.DictComp: e_dictcomp, ast.Yield: e_yield, ast.NamedExpr: e_named,
    ast.Slice: lambda e, fr: ev_index(e, fr),
}


def tyname(v):
    if isinstance(v, Num): return {"int": "int", "float": "float", "npint": "int64", "npfloat": "float64"}.get(v.py, v.py)
    if isinstance(v, Bl): return "bool"
    if isinstance(v, SArr): return "ndarray" if v.kind == "np" else "Tensor"
    if isinstance(v, PList): return "list"
    if isinstance(v, Rope): return "str"
    return type(v).__name__


# loops ---------------------------------------------------------------------------------------------
class SRange:
    """range() with symbolic bounds."""
    _is_sym_ = True

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = P(start), P(stop), step
        n = self.stop - self.start
        if step != 1: n = -pfloor(-n.scale(Fraction(1, step)))
        c = mk_le(-n)
        if not (c is TRUE or E.known(c) is True) and not E.decide(c): n = PZERO
        self.n = n

    def at(self, k): return wrap(self.start + k.scale(self.step), "int")

    def vc_getitem(self, k):
        if isinstance(k, slice): raise Unsupported("slice of range")
        from .indexing import norm_index
        return self.at(norm_index(k, self.n))


class SSeq:
    """Iterable given as segments."""
    _is_sym_ = True

    def __init__(self, segs): self.segs = segs


def iter_native(v):
    """Iterate values natively (constant lengths only)."""
    for s in to_segs(v):
        if s.n is not None: raise Unsupported("native iteration over a symbolic length")
        yield from s.vals


def to_segs(v):
    if isinstance(v, GenList):
        return v.segs
    if isinstance(v, PList): return v.segs
    if isinstance(v, SSeq): return v.segs
    if isinstance(v, SRange):
        d = dim(v.n)
        if isinstance(d, int): return [Seg(vals=[v.at(P(i)) for i in range(d)])]
        return [Seg(d, at=v.at)]
    if isinstance(v, np.ndarray) and v.dtype.kind in "fiub": v = N.asarr(v)
    if isinstance(v, SArr):
        if v.ndim == 0: raise TypeError("iteration over a 0-d array")
        n = v.shape_[0]
        if isinstance(n, int): return [Seg(vals=[v[i] for i in range(n)])]
        return [Seg(n, at=lambda k: v[Num(k, "int")])]
    if is_instance_obj(v):
        for c in type(v).__mro__:
            if c.__module__ == "collections.abc": continue
            if "__iter__" in c.__dict__: return to_segs(call(c.__dict__["__iter__"], (v,)))
        if any("__getitem__" in c.__dict__ for c in type(v).__mro__):
            if any("__len__" in c.__dict__ for c in type(v).__mro__):
                # sequence protocol: iterates until IndexError; the length bounds it
                n = dim(b_len(v)); get = get_attr(v, "__getitem__")
                try:
                    call(get, (wrap(P(n), "int"),))
                    raise Unsupported("sequence protocol: no IndexError at the length")
                except IndexError: pass
                if isinstance(n, int): return [Seg(vals=[call(get, (i,)) for i in range(n)])]
                return [Seg(n, at=lambda k: call(get, (Num(k, "int"),)))]
        raise TypeError(f"'{tyname(v)}' object is not iterable")
    if hasattr(v, "vc_segs"): return v.vc_segs()
    if isinstance(v, (Num, Bl, int, float)) or v is None: raise TypeError(f"'{tyname(v)}' object is not iterable")
    if isinstance(v, Rope): raise Unsupported("iteration over symbolic text")
    if isinstance(v, dict): return [Seg(vals=list(v))]
    return [Seg(vals=[lift(x) for x in v])]


def seg_len(segs):
    r = PZERO
    for s in segs: r = r + s.length()
    return r


def zip_segs(lists, strict=False):
    if not lists: return [Seg(vals=[])]
    if all(s.n is None for l in lists for s in l):
        vs = [[v for s in l for v in s.vals] for l in lists]
        if strict and len({len(v) for v in vs}) > 1: raise ValueError("zip() argument 2 is shorter/longer than argument 1")
        return [Seg(vals=list(zip(*vs)))]
    # aligned segments
    lists = [norm_segs(l) for l in lists]
    if all(len(l) == len(lists[0]) for l in lists):
        ok = True
        for ss in zip(*lists):
            p = ss[0].length()
            for s in ss[1:]:
                if (s.n is None) != (ss[0].n is None) or (s.length() - p) is not PZERO and E.known(mk_eq(s.length() - p)) is not True: ok = False
        if ok:
            out = []
            for ss in zip(*lists):
                if ss[0].n is None: out.append(Seg(vals=list(zip(*[s.vals for s in ss]))))
                else: out.append(Seg(ss[0].n, at=lambda k, ss=ss: tuple(s.at(k) for s in ss)))
            return out
    lens = [seg_len(l) for l in lists]
    m = lens[0]
    for x in lens[1:]:
        if E.decide(mk_eq(x - m)): 
            if x.const() is not None: m = x
            continue
        if strict: raise ValueError("zip() argument 2 is shorter/longer than argument 1")
        if E.decide(mk_lt(x - m)): m = x
    ps = [PList.of_segs(l) for l in lists]
    c = m.const()
    if c is not None: return [Seg(vals=[tuple(p.get(i) for p in ps) for i in range(int(c))])]
    return [Seg(m, at=lambda k: tuple(p.get(k) for p in ps))]


def run_loop(it, body):
    """Execute body for every element; returns a non-None signal if the loop was left early."""
    segs = list(to_segs(it))
    for s in segs:
        if s.n is None:
            for v in list(s.vals):
                r = body(v)
                if r is None or r is CONTINUE: continue
                return r
        else:
            r = sym_loop(P(s.n), s.at, body)
            if r is not None: return r
    return None


LOOPS = []


class FirstIteration(Unsupported): pass


def sym_loop(n: Poly, at, body):
    """The loop rule, peeling the first iteration when the loop carries a value that only it assigns."""
    if E.decide(mk_le(n)): return None
    E.assume(mk_lt(-n))
    mark = len(E.trail)
    try: return sym_loop1(n, at, body)
    except Unsupported as e:
        if "read before it is assigned" not in str(e): raise
    E.rollback(mark); E.advance("peeled")
    r = body(at(PZERO))
    if r is not None and r is not CONTINUE: return r
    if E.decide(mk_le(n - 1)): return None
    return sym_loop1(n - 1, lambda k: at(k + 1), body)


def sym_loop1(n: Poly, at, body, diverge=False):
    """The loop rule: infer loop-carried state, summarise it by closed forms, check abnormal exits first."""
    E.assume(mk_lt(-n))
    lim = Limits()
    k = E.fresh("k", True, (PZERO, n)); ka = _theatom(k)
    E.binders.append(k)
    try: return sym_loop2(n, at, body, diverge, lim, k, ka)
    finally: E.binders.remove(k) if k in E.binders else None


def skolem(name):
    """A fresh integer that depends on the enclosing iterations."""
    return T.app(f"{name}!{E.uid()}", tuple(E.binders), True) if E.binders else E.fresh(name, True)


def is_plain_num(v): return isinstance(v, (Num, int, float, np.number)) and not isinstance(v, (bool, np.bool_))


def sym_loop2(n, at, body, diverge, lim, k, ka):
    mods: dict = {}          # location key -> (kind, holder, name, entry value)
    guess, noguess = {}, set()         # location key -> increment per iteration (checked on every path)
    for rnd in range(10):
        havoc, undo_mark = {}, len(E.trail)
        for key, (kind, h, nm, v0) in mods.items():
            if key in guess:
                write_loc(kind, h, nm, wrap(topoly(v0) + guess[key] * k, guess_py(v0, guess[key])))
                havoc[key] = ("lin", guess[key])
            else: havoc[key] = install_havoc(kind, h, nm, v0)
        newlocs = {}; ends = []; wrong = set()

        def once():
            mark = len(E.trail)
            sig, exc = None, None
            try:
                sig = body(at(k))
                if sig is CONTINUE: sig = None
            except (Dead, Unsupported): raise
            except Exception as e: exc = e
            for undo, loc in E.trail[mark:]:
                if loc is None: continue
                key = lockey(loc, lim)
                if key is not None and key not in mods: newlocs[key] = loc
            if sig is not None or exc is not None: return ("abrupt", sig, exc, None)
            st = {}
            memo = {}
            ends.append({key: read_loc(loc[0], loc[1], loc[2]) for key, loc in newlocs.items() if loc[0] in ("local", "attr")})
            for key, c in guess.items():
                kind, h, nm, v0 = mods[key]; v = read_loc(kind, h, nm)
                if not is_plain_num(v): wrong.add(key); continue
                d = topoly(v) - topoly(v0) - c * (k + 1)
                if d is not PZERO and not E.entails(mk_eq(d)): wrong.add(key)
            for key, (kind, h, nm, v0) in mods.items():
                if kind == "store": st[key] = ("content", snapshot_store(h))
                elif kind == "plist":
                    st[key] = [s if s.n is not None else Seg(vals=[freeze(x, lim, memo) for x in s.vals]) for s in strip_prefix(h.segs, v0)]
                else: st[key] = freeze(read_loc(kind, h, nm), lim, memo)
            return ("normal", None, None, st)
        try:
            paths = E.explore(once)
        finally:
            E.rollback(undo_mark)
        for key in wrong:
            guess.pop(key); noguess.add(key)
        if not newlocs and not wrong: break
        for key, loc in newlocs.items():
            mods[key] = entry(loc)
            v0 = mods[key][3]
            if key in noguess or not is_plain_num(v0) or mods[key][0] not in ("local", "attr") or not ends or any(key not in e for e in ends): continue
            vs = [e[key] for e in ends]
            if not all(is_plain_num(v) for v in vs): continue
            ds = [topoly(v) - topoly(v0) for v in vs]
            if any(d is not ds[0] and (d - ds[0]) is not PZERO for d in ds) or ds[0] is PZERO or ka in ds[0].vars or pyof(v0) not in ("int", "npint") or any(pyof(v) not in ("int", "npint") for v in vs): continue
            guess[key] = ds[0]
    else:
        raise Unsupported("loop state does not stabilise")
    E.binders.remove(k)
    return summarise(n, k, ka, mods, havoc, paths, at, body, lim, diverge)


def guess_py(v0, c): return pyof(v0)


def strip_prefix(segs, pre):
    """What follows the entry contents; a loop may append but not alter what was there."""
    some = lambda s: s.n is not None or s.vals
    segs, pre = [s for s in segs if some(s)], [s for s in pre if some(s)]
    for s, t in zip(segs, pre):
        if s is t or (s.n is None and t.n is None and len(s.vals) == len(t.vals) and all(x is y for x, y in zip(s.vals, t.vals))): continue
        raise Unsupported("loop replaces list contents")
    return segs[len(pre):]


def snapshot_store(st):
    return st.snapshot()


def lockey(loc, lim):
    kind = loc[0]
    if kind == "local":
        return ("local", id(loc[1]), loc[2]) if loc[1].stamp < lim.stamp and not loc[2].startswith("$") else None
    if kind == "attr":
        return ("attr", id(loc[1]), loc[2]) if lim.old(loc[1]) else None
    if kind == "store":
        return ("store", id(loc[1])) if loc[1].id < lim.store else None
    o = loc[1]
    return (kind, id(o)) if o.stamp < lim.stamp else None


def entry(loc):
    kind = loc[0]
    if kind == "local": return ("local", loc[1], loc[2], loc[1].vars.get(loc[2], MISSING))
    if kind == "attr": return ("attr", loc[1], loc[2], loc[1].__dict__.get(loc[2], MISSING))
    if kind == "store": return ("store", loc[1], None, loc[1].snapshot())
    if kind == "plist": return ("plist", loc[1], None, list(loc[1].segs))
    if kind == "file": return ("file", loc[1], None, loc[1].loop_entry())
    if kind == "effects": return ("effects", loc[1], None, list(loc[1].segs))
    raise Unsupported(f"loop modifies a {kind}")


def write_loc(kind, h, nm, v):
    if kind == "local":
        if v is MISSING:
            if nm in h.vars: h.delete(nm)
        else: h.set(nm, v)
    elif kind == "attr":
        d = h.__dict__; old = d.get(nm, MISSING)

        def undo():
            if old is MISSING: d.pop(nm, None)
            else: d[nm] = old
        E.record(undo, ("attr", h, nm))
        d[nm] = v
    else: raise AssertionError


def read_loc(kind, h, nm):
    if kind == "local": return h.vars.get(nm, MISSING)
    if kind == "attr": return h.__dict__.get(nm, MISSING)
    if kind == "plist": return h
    if kind == "file": return h.loop_state()
    raise AssertionError


def install_havoc(kind, h, nm, v0):
    """Replace the loop-carried value by an arbitrary one; returns its description."""
    if kind == "store":
        name = f"H!{E.uid()}"
        old = h.snapshot()
        probe_b = [None]

        def content(J):
            t = old(J)
            if isinstance(t, B): return T.bapp(name, J)
            return app(name, J, t.isint and h_isint(h))
        h.update(content)
        return ("store", name, h.content)
    if kind == "plist":
        base = Seg(E.fresh("len", True, (PZERO, None)), at=_hvat)
        h._set(list(v0) + [base])
        return ("plist", base)
    if kind == "file": return ("file", h.loop_havoc())
    if v0 is MISSING: 
        return ("missing", None)
    if isinstance(v0, (bool, np.bool_, Bl)):
        x = E.fresh("hb", True, (PZERO, P(2))); b = mk_eq(x - 1)
        write_loc(kind, h, nm, Bl(b)); return ("bool", b, x)
    if isinstance(v0, (Num, int, float, np.number)):
        py = pyof(v0)
        x = E.fresh("h", py in ("int", "npint"))
        # an int start with float increments becomes float later: only intness of the entry value is assumed when kept
        write_loc(kind, h, nm, Num(x, py)); return ("num", x, py)
    if isinstance(v0, SArr):
        name = f"H!{E.uid()}"; dt = v0.dtype_
        a = SArr.new(v0.shape_, (lambda J: T.bapp(name, J)) if dt == "b" else (lambda J: app(name, J, dt == "i")), dt, v0.kind)
        write_loc(kind, h, nm, a); return ("arr", name, a)
    if isinstance(v0, (str, Rope)):
        hole = textmodel.Hole(f"text!{E.uid()}")
        write_loc(kind, h, nm, Rope([hole])); return ("text", hole)
    p = Poison(f"loop-carried {type(v0).__name__} {nm!r} is read before it is assigned")
    write_loc(kind, h, nm, p)
    return ("poison", p)


def h_isint(st): return True


def _hvat(k): raise Unsupported("loop reads the list it is building")


def cond_of(dec): return mk_and(*dec)


def taken(paths, d=0):
    """The condition on which an iteration takes one of the marked paths [(decisions, marked)]."""
    if all(m for _, m in paths): return TRUE
    if not any(m for _, m in paths): return FALSE
    b = paths[0][0][d] if len(paths[0][0]) > d else None
    yes = [p for p in paths if b is not None and len(p[0]) > d and p[0][d] is b]
    no = [p for p in paths if b is not None and len(p[0]) > d and p[0][d] is mk_not(b)]
    if len(yes) + len(no) < len(paths): return mk_or(*[mk_and(*dec[d:]) for dec, m in paths if m])
    if not no: return taken(yes, d + 1)
    y, n = taken(yes, d + 1), taken(no, d + 1)
    if y is TRUE: return mk_or(b, n)
    if n is TRUE: return mk_or(mk_not(b), y)
    return mk_or(mk_and(b, y), mk_and(mk_not(b), n))


def which(decs):
    """What tells each of these paths from the others: its decisions where the others part from it."""
    out = []
    for x in decs:
        keep = [b for d, b in enumerate(x) if any(len(y) > d and y[d] is mk_not(b) and all(p is q for p, q in zip(x[:d], y[:d])) for y in decs)]
        out.append(mk_and(*keep))
    return out


def summarise(n, k, ka, mods, havoc, paths, at, body, lim, diverge=False):
    normal = [(r[3], cond_of(dec), defs) for r, dec, defs in paths if r[0] == "normal"]
    abrupt = [(r, cond_of(dec), defs) for r, dec, defs in paths if r[0] == "abrupt"]
    if not normal and not abrupt: raise Dead()
    if diverge and not abrupt: raise Dead()          # never leaves: nothing to establish (partial correctness)
    closed_map = {}          # var atom -> Poly in k      (scalar havocs)
    closed_apps = {}         # app name -> fn(args)->Poly in k
    final = {}
    pend = dict(mods)
    conds = which([dec for r, dec, _ in paths if r[0] == "normal"])
    leaving = taken([(dec, r[0] == "abrupt") for r, dec, _ in paths])

    def merged_term(key, get):
        ts = [get(st) for st, _, _ in normal]
        if all(t is ts[0] for t in ts): return ts[0]
        if isinstance(ts[0], B):
            return mk_or(*[mk_and(c, t) for c, t in zip(conds, ts)])
        r = P(ts[-1])
        for c, t in zip(conds[:-1], ts[:-1]): r = ite(c, P(t), r)
        return r
    names = {}
    for key, hv in havoc.items():
        if hv[0] in ("store", "arr"): names[hv[1]] = key
    hvars = {_theatom(hv[1]): key for key, hv in havoc.items() if hv[0] == "num"}
    hvars.update({_theatom(hv[1].n): key for key, hv in havoc.items() if hv[0] == "plist"})
    for hv in havoc.values():
        if hv[0] == "plist": hv[1].used = any(_theatom(hv[1].n) in c.vars for _, c, _ in normal + abrupt)
    hvars.update({_theatom(hv[2]): key for key, hv in havoc.items() if hv[0] == "bool"})

    def sub(x):
        """Apply the closed forms found so far; None if other loop-carried symbols remain."""
        x = subst(x, closed_map) if closed_map else x
        if closed_apps:
            try: x = replace_apps_v(x, closed_apps)
            except Unsupported: return None
        return x

    def dirty(x, allow=()):
        for a in x.vars:
            if a in hvars and hvars[a] not in allow and a not in closed_map: return True
        left = {nm for nm, key in names.items() if key not in allow and nm not in closed_apps}
        return bool(left) and has_app(x, left)

    recs = []
    if normal:
        progress = True
        while pend and progress:
            progress = False
            for key in list(pend):
                kind, h, nm, v0 = pend[key]; hv = havoc[key]
                r = try_solve(key, kind, h, nm, v0, hv, n, k, ka, normal, conds, merged_term, sub, dirty, closed_map, closed_apps, lim)
                if r is None: continue
                final[key] = r
                del pend[key]; progress = True
            if pend and not progress:
                key = next((q for q in pend if havoc[q][0] == "bool" and all(isinstance(st[q], (Bl, bool, np.bool_)) for st, _, _ in normal)), None)
                if key is not None:
                    kind, h, nm, v0 = pend.pop(key); R = f"iterb!{E.uid()}"; progress = True
                    it = lambda q, R=R: T.bapp(R, tuple(E.binders) + (P(q),))
                    closed_map[_theatom(havoc[key][2])] = ind(it(k)); recs.append((it, tob(v0), merged_term(key, lambda st: tob(st[key]))))
                    final[key] = lambda j, early, kind=kind, h=h, nm=nm, it=it: write_loc(kind, h, nm, unbool(it(j)))
                    continue
                key = next((q for q in pend if havoc[q][0] == "num" and all(is_plain_num(st[q]) for st, _, _ in normal)), None)
                if key is not None:
                    kind, h, nm, v0 = pend.pop(key); X = havoc[key][1]; R = f"iter!{E.uid()}"; progress = True
                    t = merged_term(key, lambda st: topoly(st[key])); ints = X.isint and t.isint; py = pyof(v0)
                    if X.isint and not ints: raise Unsupported("loop-carried number changes type")
                    it = lambda q, R=R, ints=ints: app(R, tuple(E.binders) + (P(q),), ints)
                    closed_map[_theatom(X)] = it(k); recs.append((it, topoly(v0), t))
                    final[key] = lambda j, early, kind=kind, h=h, nm=nm, it=it, py=py: write_loc(kind, h, nm, wrap(it(j), py))
        if pend:
            key = next(iter(pend)); kind, h, nm, v0 = pend[key]
            raise Unsupported(f"no invariant template for loop-carried {kind} {nm or ''}")
    for it, x0, t in recs:         # a number with no closed form: the sequence its recurrence defines
        t = sub(t)
        if t is None or dirty(t): raise Unsupported("recurrence depends on loop-carried state")
        same = lambda a, b: mk_eq(a - b) if isinstance(t, Poly) else mk_and(mk_implies(a, b), mk_implies(b, a))
        E.assume_once(same(it(PZERO), x0)); E.assume_once(forall(n, lambda q: same(it(q + 1), subst(t, {ka: q}))))
    # abnormal exits first ----------------------------------------------------------------------
    if abrupt:
        if normal:
            abn = sub(leaving)
            if abn is None or dirty(abn): raise Unsupported("loop exit condition depends on loop-carried state")
        else:
            abn = TRUE
        at_k = lambda j: subst(abn, {ka: j})
        none = mk_not(abn)
        allnone = forall(n, lambda j: mk_not(at_k(j)))
        for r, c, defs in abrupt:
            add_defs(defs, n, ka, sub, dirty)
        if not normal or diverge or not E.decide(allnone):
            if normal:
                ks = skolem("kx")
                for f in (mk_le(-ks), mk_lt(ks - n), at_k(ks), forall(ks, lambda j: mk_not(at_k(j)))): E.assume_once(f)
                install_final(mods, final, ks, lim, early=True)
                v = at(ks)
            else:
                v = at(PZERO)          # the first iteration already leaves the loop
            sig = body(v)
            if sig is None or sig is CONTINUE:
                raise Dead() if normal else Unsupported("loop exit mismatch")
            return sig
    for st, c, defs in normal:
        add_defs(defs, n, ka, sub, dirty)
    install_final(mods, final, n, lim)
    E.loopinfo.append((str(n), len(paths), [f"{m[0]}:{m[2] or ''}" for m in mods.values()]))
    return None


def add_defs(defs, n, ka, sub, dirty):
    """Definitional facts about the opaque terms of iteration k hold for every iteration that gets there."""
    for d, dec in defs:
        d = sub(d)
        c = sub(cond_of(dec))
        if d is None or c is None or dirty(d) or dirty(c): continue
        E.assume_once(forall(n, lambda j: subst(mk_implies(c, d), {ka: j})))


def replace_apps_v(x, apps):
    return replace_apps(x, apps)


def only_iteration(cnd, k, ka):
    """The iteration k = floor(e) that a condition c*k <= e (c >= 2) singles out, if it is the only one with cnd."""
    for l in (cnd.args[0] if cnd.kind == "and" else [cnd]):
        if l.kind != "le": continue
        p = l.args[0]; c = p.t.get(((ka, 1),))
        if c is None or c < 2: continue
        e = p - k.scale(c)
        if ka in e.vars: continue
        at = pfloor(e.scale(Fraction(-1) / c))
        if prover.prove(mk_eq(k - at), E.pc + [cnd]).status == "proved": return at
    return None


def decided(d, facts, J):
    """d without the conditions that the facts (and the path) decide, other than those on the indexes J."""
    facts = E.pc + facts; js = {_theatom(j) for j in J}; mp = {}
    for a in prover.atoms_of(d):
        if a.kind != "ind" or len(mp) > 12: continue
        if any(j in a.args[0].vars for j in js): continue
        if prover.prove(a.args[0], facts).status == "proved": mp[a] = PONE
        elif prover.prove(mk_not(a.args[0]), facts).status == "proved": mp[a] = PZERO
    return prover.replace_atoms(d, mp) if mp else d


def not_last(d, n, k):
    """d for an iteration k that is followed by another one: conditions decided by k <= n-2 are dropped."""
    inds = [a for a in prover.atoms_of(d) if a.kind == "ind"]
    if not inds or len(inds) > 6: return d
    facts = E.pc + [mk_le(-k), mk_le(k + 2 - P(n))]; mp = {}
    for a in inds:
        if prover.prove(mk_not(a.args[0]), facts).status == "proved": mp[a] = PZERO
        elif prover.prove(a.args[0], facts).status == "proved": mp[a] = PONE
    return prover.replace_atoms(d, mp) if mp else d


def try_solve(key, kind, h, nm, v0, hv, n, k, ka, normal, conds, merged_term, sub, dirty, closed_map, closed_apps, lim):
    """Closed form of one location: returns install(j, early) giving its value before iteration j."""
    if kind in ("store",):
        name = hv[1]; old = v0
        nargs = None
        rds = [st[key][1] for st, _, _ in normal]
        return solve_array(name, rds, old, n, k, ka, conds, merged_term, sub, dirty, closed_apps, key, ("store", h), lim, None)
    if hv[0] == "lin":
        c = hv[1]
        return lambda j, early: write_loc(kind, h, nm, wrap(topoly(v0) + c * j, guess_py(v0, c)))
    if kind == "plist":
        base = hv[1]
        return solve_plist(h, v0, base, [st[key] for st, _, _ in normal], n, k, ka, conds, sub, dirty, lim, closed_map, closed_apps)
    if kind == "file":
        return h.loop_solve(v0, hv[1], [st[key] for st, _, _ in normal], n, k, ka, conds, closed_map, closed_apps, lim)
    vals = [st[key] for st, _, _ in normal]
    if hv[0] == "num":
        X = hv[1]; xa = _theatom(X)
        if all(isinstance(v, (Num, int, float, np.number)) and not isinstance(v, bool) for v in vals):
            t = merged_term(key, lambda st: topoly(st[key]))
            d = sub(t - X)
            if d is not None and not dirty(d):
                x0 = topoly(v0)
                pys = [pyof(v) for v in vals]
                py = "npfloat" if "npfloat" in pys else "float" if "float" in pys else pyof(v0)
                f = lambda j: x0 + psum(j, lambda q: subst(d, {ka: q}))
                closed_map[xa] = x0 + sum_to(k, not_last(d, n, k), ka)
                return lambda j, early: write_loc(kind, h, nm, wrap(f(j), py if j.const() is None or True else py))
            if d is not None:
                t2 = sub(t)
                if t2 is not None and not dirty(t2):        # overwritten each iteration
                    return temp_install(kind, h, nm, v0, [Num(t2, pyof(vals[0]))], [TRUE], k, ka, closed_map, closed_apps, lim)
                # conditional overwrite by a constant:  x' = ite(c, v, x)
                r = flag_form(t, X, k, ka, n, sub, dirty, topoly(v0))
                if r is not None:
                    closed_map[xa] = r(k)
                    return lambda j, early: write_loc(kind, h, nm, wrap(r(j), pyof(vals[0])))
        return None
    if hv[0] == "bool":
        if all(isinstance(v, (Bl, bool, np.bool_)) for v in vals):
            t = merged_term(key, lambda st: tob(st[key]))
            t2 = sub(t)
            if t2 is not None and not dirty(t2):
                return temp_install(kind, h, nm, v0, [unbool(t2)], [TRUE], k, ka, closed_map, closed_apps, lim)
            b = hv[1]
            # b' = b or c   /  b' = b and c
            on = bsub(t, b, TRUE); off = bsub(t, b, FALSE)
            on, off = sub(on), sub(off)
            if on is None or off is None or dirty(on) or dirty(off): return None
            b0 = tob(v0)
            if on is TRUE: fb = lambda j: mk_or(b0, exists(j, lambda q: subst(off, {ka: q})))
            elif off is FALSE: fb = lambda j: mk_and(b0, forall(j, lambda q: subst(on, {ka: q})))
            else: return None
            closed_map[_theatom(hv[2])] = ind(fb(k))
            return lambda j, early: write_loc(kind, h, nm, unbool(fb(j)))
        return None
    if hv[0] == "arr":
        name = hv[1]
        if all(isinstance(v, SArr) and len(v.shape_) == len(v0.shape_) for v in vals):
            if all(all(p is q or p == q for p, q in zip(v.shape_, v0.shape_)) for v in vals):
                r = solve_array(name, [v.reader() for v in vals], v0.reader(), n, k, ka, conds, merged_term, sub, dirty, closed_apps, key, ("var", kind, h, nm, v0), lim, [v.dtype_ for v in vals])
                if r is not None: return r
        if not any(value_dirty(v, {name}, ()) for v in vals):
            return temp_install(kind, h, nm, v0, vals, conds, k, ka, closed_map, closed_apps, lim)
        return None
    if hv[0] == "text":
        hole = hv[1]
        if all(isinstance(v, Rope) and v.parts == [hole] for v in vals): return lambda j, early: write_loc(kind, h, nm, v0)
        if all(isinstance(v, Rope) and v.parts and v.parts[0] is hole for v in vals):
            rest = [Rope.make(v.parts[1:]) for v in vals]
            if any(textmodel.has_hole(r, hole) for r in rest) or any(r is not rest[0] and len(vals) > 1 for r in rest): return None
            pre = Subst(dict(closed_map), dict(closed_apps), lim)
            add = pre(rest[0])
            if text_dirty(add, dirty): return None
            f = lambda j: Rope.make([v0, textmodel.rep(j, lambda q: Subst({ka: q}, {}, lim)(add))])
            return lambda j, early: write_loc(kind, h, nm, f(j))
        if any(isinstance(v, Rope) and textmodel.has_hole(v, hole) for v in vals): return None
        return temp_install(kind, h, nm, v0, vals, conds, k, ka, closed_map, closed_apps, lim)
    # missing / poison: must be overwritten on every path
    if hv[0] == "poison" and any(v is hv[1] for v in vals):
        if all(v is hv[1] for v in vals): return lambda j, early: None
        return None
    if any(v is MISSING for v in vals):
        if all(v is MISSING for v in vals): return lambda j, early: None
        return lambda j, early: write_loc(kind, h, nm, Poison(f"{nm} is only assigned on some iterations"))
    return temp_install(kind, h, nm, v0, vals, conds, k, ka, closed_map, closed_apps, lim)


def text_dirty(x, dirty):
    for p in textmodel.parts(x):
        if isinstance(p, Fmt) and isinstance(p.v, Num) and dirty(p.v.p): return True
        if isinstance(p, textmodel.Rep) and (dirty(p.n) or text_dirty(p.at(E.fresh("q", True, (PZERO, p.n))), dirty)): return True
    return False


def bsub(t: B, b: B, val: B) -> B:
    from . import prover as PR
    if t is b: return val
    k = t.kind
    if k == "not": return mk_not(bsub(t.args[0], b, val))
    if k == "and": return mk_and(*[bsub(x, b, val) for x in t.args[0]])
    return t


def sum_to(k, d, ka):
    q = E.fresh("q", True, (PZERO, k))
    return T.psum_var(k, q, subst(d, {ka: q}))


def flag_form(t, X, k, ka, n, sub, dirty, x0):
    xa = _theatom(X)
    # t = v*[c] + X*(1-[c])
    coef = PZERO; rest = PZERO
    for m, c in t.t.items():
        d = dict(m)
        if xa in d:
            if d[xa] != 1: return None
            del d[xa]
            coef = coef + mkpoly({tuple(sorted(d.items(), key=lambda z: z[0].id)): c})
        else: rest = rest + mkpoly({m: c})
    if xa in coef.vars or xa in rest.vars: return None
    ic = PONE - coef                     # = [c]
    if len(ic.t) != 1: return None
    (m, c), = ic.t.items()
    if c != 1 or not all(a.kind == "ind" for a, e in m): return None
    cnd = mk_and(*[a.args[0] for a, e in m])
    v = prover.replace_atoms(rest, {a: PONE for a, e in m})
    v, cnd = sub(v), sub(cnd)
    if v is None or cnd is None or dirty(v) or dirty(cnd) or ka in v.vars: return None
    return lambda j: ite(exists(j, lambda q: subst(cnd, {ka: q})), v, x0)


def value_dirty(v, names, vars_):
    return False


def temp_install(kind, h, nm, v0, vals, conds, k, ka, closed_map, closed_apps, lim):
    """Variable assigned afresh in every iteration: its value after j iterations is that of iteration j-1."""
    def install(j, early):
        c = j.const()
        try:
            v = vmerge(conds, vals) if len(vals) > 1 else vals[0]
        except Unsupported as e:
            write_loc(kind, h, nm, Poison(f"{nm} after the loop: {e}")); return
        s = Subst({ka: j - 1}, {}, lim)
        pre = Subst(dict(closed_map), dict(closed_apps), lim)
        if early:
            # at the exit iteration the old value may be the entry value (j = 0)
            write_loc(kind, h, nm, Poison(f"{nm} is carried into the exit iteration"))
        else:
            write_loc(kind, h, nm, s(pre(v)))
    return install


def solve_array(name, rds, old, n, k, ka, conds, merged_term, sub, dirty, closed_apps, key, target, lim, dts):
    """Array state  a'(J) as a function of a(J):  accumulation or unique overwrite."""
    nd = target[4].ndim if target[0] == "var" else None
    cache = {}

    def analyse(nargs, isb):
        if nargs in cache: return cache[nargs]
        J = tuple(E.fresh("j", True) for _ in range(nargs))
        terms = [rd(J) for rd in rds]
        if isinstance(terms[0], B): cache[nargs] = None; return None
        terms = [N._num(t) for t in terms]
        t = terms[-1] if all(x is terms[0] for x in terms) else None
        if t is None:
            t = terms[-1]
            for c, x in zip(conds[:-1], terms[:-1]): t = ite(c, x, t)
        ha = [a for a in prover.atoms_of(t) if a.kind == "app" and a.args[0] == name]
        H = None
        if ha:
            H = [a for a in ha if a.args[1] == J]
            if len(H) != len(ha): raise Unsupported("loop reads other elements of the array it writes")
            H = H[0]
        h = patom(H) if H is not None else app(name, J)
        d = sub(t - (h if H is not None else app(name, J, h_isint(None) and False)))
        cache[nargs] = (J, t, h, H)
        return cache[nargs]
    res = {}

    def solved(nargs):
        if nargs in res: return res[nargs]
        an = analyse(nargs, None)
        if an is None: raise Unsupported("loop writes a boolean array")
        J, t, h, H = an
        if H is None:
            # completely overwritten each iteration, independent of the old contents
            t2 = sub(t)
            if t2 is None or dirty(t2): raise Unsupported("array state")
            res[nargs] = (J, "last", t2); return res[nargs]
        d = sub(t - h)
        if d is None or dirty(d, (key,)): raise Unsupported("array state depends on other loop-carried state")
        if not has_app(d, {name}):
            res[nargs] = (J, "acc", d); return res[nargs]
        ha = _theatom(h)

        def split(d):
            coef = PZERO; rest = PZERO
            for m, c in d.t.items():
                dd = dict(m)
                if ha in dd:
                    if dd[ha] != 1: raise Unsupported("nonlinear array recurrence")
                    del dd[ha]; coef = coef + mkpoly({tuple(sorted(dd.items(), key=lambda z: z[0].id)): c})
                else: rest = rest + mkpoly({m: c})
            # common indicator condition
            common = None
            for m in list(coef.t) + list(rest.t):
                s = {a for a, e in m if a.kind == "ind"}
                common = s if common is None else common & s
            return coef, rest, common

        def once(common):
            cnd = mk_and(*[a.args[0] for a in common])
            k2 = E.fresh("k", True, (PZERO, n))
            return cnd, prover.prove(mk_eq(k - k2), E.pc + [cnd, subst(cnd, {ka: k2})]).status == "proved"
        coef, rest, common = split(d)
        cnd, single = once(common) if common else (None, False)
        if not single:      # once more, with the conditions that hold in every iteration out of the way
            d3 = decided(d, [mk_le(-k), mk_lt(k - P(n))], J)
            if d3 is not d:
                c3 = split(d3); r3 = once(c3[2]) if c3[2] else (None, False)
                if r3[1] or not common: d, (coef, rest, common), (cnd, single) = d3, c3, r3
        if has_app(coef, {name}) or has_app(rest, {name}): raise Unsupported("array recurrence")
        if not common: raise Unsupported("array overwritten without a condition on the index")
        if single:
            at = only_iteration(cnd, k, ka)                     # at most one iteration touches J; a known one?
            if at is not None: res[nargs] = (J, "at", (d, at)); return res[nargs]
            res[nargs] = (J, "acc", d); return res[nargs]       # at most one iteration touches J
        # idempotent overwrite: value independent of k
        if len(coef.t) == 1 and next(iter(coef.t.values())) == -1 and coef is ind(cnd).scale(-1):
            v = prover.replace_atoms(rest, {a: PONE for a in common})
            if ka not in v.vars and not has_app(v, {name}):
                res[nargs] = (J, "flag", (cnd, v)); return res[nargs]
        raise Unsupported("array element written by several iterations")

    def content_after(j):
        def content(I):
            J, how, d = solved(len(I))
            mp = dict(zip([_theatom(x) for x in J], I))
            if how == "last":
                o = old(I); new = subst(subst(d, {ka: j - 1}), mp)
                return ite(mk_le(j), o, new)
            if how == "flag":
                cnd, v = d
                return ite(exists(j, lambda q: subst(cnd, {**mp, ka: q})), subst(v, mp), N._num(old(I)))
            o = N._num(old(I))
            at = None
            if how == "at": d, at = d; at = subst(at, mp)
            d2 = subst(d, mp)
            if has_app(d2, {name}):
                d2 = prover.replace_atoms(d2, {a: o for a in prover.atoms_of(d2) if a.kind == "app" and a.args[0] == name})
            if at is not None: return o + ind(mk_and(mk_le(-at), mk_lt(at - P(j)))) * subst(d2, {ka: at})
            return o + psum(j, lambda q: subst(d2, {ka: q}))
        return content
    # force the analysis now for the known arity so that failures surface here
    try:
        arity = nd if nd is not None else target[1].arity if hasattr(target[1], "arity") else None
        if arity is None: arity = guess_arity(rds)
        solved(arity)
    except Unsupported as e:
        if "other loop-carried" in str(e) or str(e) == "array state": return None
        raise
    closed_apps[name] = lambda args: content_after(k)(tuple(args))
    if target[0] == "store":
        st = target[1]
        return lambda j, early: st.update(content_after(j))
    _, kind, h, nm, v0 = target
    dt = dts[0]

    def install(j, early):
        write_loc(kind, h, nm, SArr.new(v0.shape_, content_after(j), dt, v0.kind))
    return install


def guess_arity(rds):
    for m in range(0, 7):
        try:
            J = tuple(E.fresh("j", True) for _ in range(m))
            for rd in rds: rd(J)
            return m
        except (IndexError, ValueError, TypeError): continue
    raise Unsupported("array rank")


def solve_plist(h, v0, base, outs, n, k, ka, conds, sub, dirty, lim, closed_map, closed_apps):
    news = []
    for segs in outs:
        if not segs or segs[0] is not base: raise Unsupported("loop replaces list contents")
        rest = segs[1:]
        if any(s.n is not None for s in rest): return flattened(h, v0, base, [o[1:] for o in outs], n, k, ka, conds, sub, dirty, lim, closed_map, closed_apps)
        news.append([v for s in rest for v in s.vals])
    ms = {len(x) for x in news}
    if ms == {0, 1}:
        return filtered(h, v0, base, news, n, k, ka, conds, sub, dirty, lim, closed_map, closed_apps)
    if len(ms) != 1:
        raise Unsupported("loop appends a varying number of items")
    m = ms.pop()
    closed_map[_theatom(base.n)] = k.scale(m)
    if m == 0: return lambda j, early: None
    vals = [vmerge(conds, [x[i] for x in news]) if len(news) > 1 else news[0][i] for i in range(m)]
    cache = {}

    def item(i, q):
        pre = Subst(dict(closed_map), dict(closed_apps), lim)
        if i not in cache: cache[i] = pre(vals[i])
        return Subst({ka: q}, {}, lim)(cache[i])

    def install(j, early):
        c = j.const()
        if m == 1: seg = Seg(j, at=lambda q: item(0, q))
        else:
            def at2(q):
                b = N.int_div(q, P(m)); r = q - b.scale(m)
                for i in range(m - 1):
                    if E.decide(mk_eq(r - i)): return item(i, b)
                return item(m - 1, b)
            seg = Seg(j.scale(m), at=at2)
        if c is not None:
            seg = Seg(vals=[seg.at(P(i)) for i in range(int(c) * m)])
        h._set(norm_segs(list(v0) + [seg]))
    return install


def flattened(h, v0, base, outs, n, k, ka, conds, sub, dirty, lim, closed_map, closed_apps):
    """Loop appending a list of varying length in every iteration: the concatenation, by an index of the iteration each item comes from."""
    lens = PZERO
    for i, rest in enumerate(outs):
        m = sum((s.length() for s in rest), PZERO)
        lens = m if i == 0 else ite(conds[i], m, lens)
    lens = sub(lens)
    if lens is None or dirty(lens): return None
    cs = [sub(c) for c in conds]
    if len(outs) > 1 and any(c is None or dirty(c) for c in cs): return None
    L = lambda q: subst(lens, {ka: q})
    off = lambda q: psum(q, L)
    closed_map[_theatom(base.n)] = off(k)

    def pick(lst, r):
        if len(lst.segs) != 1: return lst.get(Num(r, "int"))
        s = lst.segs[0]
        return s.at(r) if s.n is not None else s.vals[0] if len(s.vals) == 1 else lst._in(s, r)

    def item(q, r):
        pre = Subst(dict(closed_map), dict(closed_apps), lim); at = Subst({ka: q}, {}, lim)
        live = [i for i, rest in enumerate(outs) if any(s.n is not None or s.vals for s in rest)]
        vals = [pick(at(pre(PList.of_segs(outs[i]))), r) for i in live]
        return vals[0] if len(vals) == 1 else vmerge([subst(cs[i], {ka: q}) for i in live], vals)

    def install(j, early):
        if early: j = P(j)
        key = T.pred("flat", j, L)
        g = lambda t: app("flatgroup", (key, P(t)), True)
        for least in (1, 0):
            if E.entails(forall(j, lambda q: mk_le(least - L(q))), 1000):
                E.assume_once(mk_le(P(j).scale(least) - off(j))); break      # by induction
        E.assume_once(forall(off(j), lambda t: mk_and(mk_le(-g(t)), mk_lt(g(t) - j), mk_le(off(g(t)) - t), mk_lt(t - off(g(t)) - L(g(t))))))
        h._set(norm_segs(list(v0) + [Seg(off(j), at=lambda t: item(g(t), P(t) - off(g(t))))]))
    return install


def filtered(h, v0, base, news, n, k, ka, conds, sub, dirty, lim, closed_map, closed_apps):
    """Loop appending at most one item per iteration: the items of the iterations that append, in order."""
    app_ = [(c, x[0]) for c, x in zip(conds, news) if x]
    # an iteration that is not left early appends exactly if it takes one of these paths, or none of the others
    lits = [set(c.args[0]) if c.kind == "and" else {c} for c in conds]; common = set.intersection(*lits)
    cut = [mk_and(*sorted(l - common, key=lambda x: x.id)) for l in lits]
    for cnd in (mk_or(*[c for c, x in zip(cut, news) if x]), mk_not(mk_or(*[c for c, x in zip(cut, news) if not x]))):
        cnd = sub(cnd)
        if cnd is not None and not dirty(cnd): break
    else: return None
    cnd = simp_known(cnd)
    if base.used: closed_map[_theatom(base.n)] = filter_index(k, lambda q: subst(cnd, {ka: q}))[0]
    vals = [v for _, v in app_]
    cache = []

    def item(q):
        if not cache:
            v = vmerge([c for c, _ in app_], vals) if len(vals) > 1 else vals[0]
            cache.append(Subst(dict(closed_map), dict(closed_apps), lim)(v))
        return Subst({ka: q}, {}, lim)(cache[0])

    def install(j, early):
        at_ = lambda q: subst(cnd, {ka: q})
        K, pos = filter_index(j, at_)
        h._set(norm_segs(list(v0) + [Seg(K, at=lambda t: item(pos(t)))]))
    return install


def simp_known(b):
    """Drop the parts of a condition that the path already decides."""
    k = E.known(b)
    if k is not None: return TRUE if k else FALSE
    if b.kind == "not": return mk_not(simp_known(b.args[0]))
    if b.kind == "and": return mk_and(*[simp_known(x) for x in sorted(b.args[0], key=lambda x: x.id)])
    if b.kind in ("le", "eq") and not E.active: return b
    if b.kind == "le":
        if prover.prove(b, E.pc, 500).status == "proved": return TRUE
        if prover.prove(mk_not(b), E.pc, 500).status == "proved": return FALSE
    return b


def filter_index(j, c):
    """Number of q < j with c(q), and the increasing enumeration of those q (with its defining facts)."""
    j = P(j)
    key = T.pred("fil", j, lambda q: ind(c(q)))
    K = app("fcount", (key,), True)
    pos = lambda t: app("fpos", (key, P(t)), True)
    rank = lambda q: app("frank", (key, P(q)), True)
    E.assume_once(mk_le(-K)); E.assume_once(mk_le(K - j))
    E.assume_once(forall(K, lambda t: mk_and(mk_le(-pos(t)), mk_lt(pos(t) - j), c(pos(t)), mk_eq(rank(pos(t)) - t))))
    E.assume_once(forall(j, lambda q: mk_implies(c(q), mk_and(mk_le(-rank(q)), mk_lt(rank(q) - K), mk_eq(pos(rank(q)) - q)))))
    E.assume_once(forall(K - 1, lambda t: mk_lt(pos(t) - pos(t + 1))))
    return K, pos


def install_final(mods, final, j, lim, early=False):
    for key in mods:
        final[key](j, early)


# builtins ------------------------------------------------------------------------------------------
def b_len(x):
    if isinstance(x, PList): return x.length()
    if isinstance(x, SArr):
        if x.ndim == 0: raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, SRange): return wrap(x.n, "int")
    if isinstance(x, (Num, Bl, int, float)) or x is None: raise TypeError(f"object of type '{tyname(x)}' has no len()")
    if is_instance_obj(x): return call(get_attr(x, "__len__"))
    if isinstance(x, Rope): raise Unsupported("len of symbolic text")
    if hasattr(x, "vc_len"): return x.vc_len()
    return len(x)


def b_range(*a):
    for x in a:
        if isinstance(x, (float, str)) or x is None or (isinstance(x, Num) and "float" in x.py):
            raise TypeError(f"'{tyname(x)}' object cannot be interpreted as an integer")
    vals = [topoly(x) for x in a]
    if all(v.const() is not None for v in vals): return range(*[int(v.const()) for v in vals])
    if len(vals) == 1: return SRange(PZERO, vals[0])
    if len(vals) == 2: return SRange(vals[0], vals[1])
    st = vals[2].const()
    if st is None:
        s = vals[2]
        if not E.decide(mk_le(1 - s)): 
            if E.decide(mk_eq(s)): raise ValueError("range() arg 3 must not be zero")
            raise Unsupported("range with a negative symbolic step")
        d = vals[1] - vals[0]
        if not E.decide(mk_lt(-d)): return range(0)
        m = skolem("steps")              # ceil(d / s)
        for f in (mk_le(1 - m), mk_le(d - m * s), mk_lt((m - 1) * s - d), mk_le(m - d)): E.assume_once(f)
        return SSeq([Seg(m, at=lambda k: wrap(vals[0] + k * s, "int"))])
    if st < 0:
        n = vals[0] - vals[1]
        if st != -1: raise Unsupported("range step")
        if not E.decide(mk_le(-n)): return range(0)
        return SSeq([Seg(dim(n), at=lambda k: wrap(vals[0] - k, "int"))])
    return SRange(vals[0], vals[1], int(st))


def b_zip(*its, strict=False):
    return SSeq(zip_segs([to_segs(i) for i in its], strict))


def b_enumerate(it, start=0):
    segs = to_segs(it); out = []; off = topoly(start)
    for s in segs:
        if s.n is None:
            out.append(Seg(vals=[(wrap(off + i, "int"), v) for i, v in enumerate(s.vals)]))
        else:
            out.append(Seg(s.n, at=lambda k, s=s, off=off: (wrap(off + k, "int"), s.at(k))))
        off = off + s.length()
    return SSeq(out)


def b_reversed(it):
    l = PList.of_segs(to_segs(it)).copy(); l2 = PList.of_segs(l.segs)
    l2.reverse()
    return l2


def b_list(it=()):
    return PList.of_segs(list(to_segs(it)) or [Seg(vals=[])])


def b_tuple(it=()):
    if isinstance(it, tuple): return it
    l = PList.of_segs(to_segs(it))
    if not l.is_concrete_len(): return l
    return tuple(l.values())


def b_isinstance(o, cls):
    if isinstance(cls, (tuple, PList)): return any(b_isinstance(o, c) for c in cls)
    if isinstance(cls, types.UnionType): return any(b_isinstance(o, c) for c in cls.__args__)
    if isinstance(cls, types.GenericAlias): raise TypeError("isinstance() argument 2 cannot be a parameterized generic")
    if isinstance(o, PList): return issubclass(list, cls)
    if isinstance(o, SRange): return issubclass(range, cls)
    if isinstance(o, Num):
        return issubclass({"int": int, "float": float, "npint": np.int64, "npfloat": np.float64}[o.py], cls)
    if isinstance(o, Bl): return issubclass(bool, cls)
    if isinstance(o, Rope): return issubclass(str, cls)
    if isinstance(o, SArr):
        if o.kind == "np": return issubclass(np.ndarray, cls)
        import torch
        return issubclass(torch.Tensor, cls)
    t = getattr(o, "vc_isinstance", None)
    if t is not None: return t(cls)
    return isinstance(o, cls)


def b_type(o, *rest):
    if rest: raise Unsupported("type()")
    if isinstance(o, PList): return list
    if isinstance(o, Num): return {"int": int, "float": float, "npint": np.int64, "npfloat": np.float64}[o.py]
    if isinstance(o, Bl): return bool
    if isinstance(o, Rope): return str
    if isinstance(o, PDict): return dict
    if isinstance(o, SArr):
        if o.kind == "np": return np.ndarray
        import torch
        return torch.Tensor
    return type(o)


def b_float(x=0.0):
    if isinstance(x, Num): return Num(x.p, "float")
    if isinstance(x, Bl): return Num(ind(x.b), "float")
    if isinstance(x, SArr):
        return b_float(x.item()) if not isinstance(x.item(), SArr) else Num(topoly(x.at()), "float")
    if isinstance(x, Rope): return rope_float(x)
    if isinstance(x, textmodel.OText): return x.vc_float()
    if isinstance(x, (PList, tuple, dict)) or x is None: raise TypeError(f"float() argument must be a string or a real number, not '{tyname(x)}'")
    return float(x)


def rope_float(x):
    from . import textmodel
    return textmodel.parse_float(x)


def b_int(x=0, *a):
    if isinstance(x, SArr): x = x.item()
    if isinstance(x, SArr): x = Num(topoly(x.at()), "float")
    if isinstance(x, Bl): return wrap(ind(x.b), "int")
    if isinstance(x, Num):
        p = x.p
        if p.isint: return wrap(p, "int")
        return wrap(ite(mk_le(-p), pfloor(p), -pfloor(-p)), "int")
    if isinstance(x, Rope): return textmodel.parse_int(x)
    if isinstance(x, textmodel.OText): return x.vc_int()
    if isinstance(x, PList) or x is None: raise TypeError(f"int() argument must be a string, a bytes-like object or a real number, not '{tyname(x)}'")
    return int(x, *a)


def b_bool(x=False):
    if isinstance(x, Bl): return x
    if isinstance(x, Num): return unbool(tob(x))
    return truth(x)


def b_str(x=""):
    if isinstance(x, textmodel.OText): return x
    if isinstance(x, BaseException):
        a = x.__dict__.get("_vc_text")
        return a if a is not None else str(x)
    if isinstance(x, Rope): return x
    if deep_sym(x): return fmt_value(x)
    if isinstance(x, PList): return str(concretize(x))
    return str(concretize(x))


def b_sum(it, start=0):
    acc = start
    for s in to_segs(it):
        if s.n is None:
            for v in s.vals: acc = binop("add", acc, v)
        else:
            box = Frame({}, None, "<sum>"); box.vars["acc"] = acc

            def body(v, box=box):
                box.set("acc", binop("add", box.get("acc"), v))
            # arrays are rebound, not mutated
            sym_loop(P(s.n), s.at, body)
            acc = box.get("acc")
    return acc


def b_minmax(which):
    def f(*a, key=None, default=MISSING):
        if len(a) == 1:
            l = PList.of_segs(to_segs(a[0]))
            if not l.is_concrete_len():
                if key is not None: raise Unsupported("min/max key")
                return (N.amin if which == "min" else N.amax)(N.asarr(l))
            xs = l.values()
        else: xs = list(a)
        if not xs:
            if default is not MISSING: return default
            raise ValueError(f"{which}() iterable argument is empty")
        best = xs[0]
        for x in xs[1:]:
            kx, kb = (x, best) if key is None else (call(key, (x,)), call(key, (best,)))
            if key is None and isinstance(kx, (Num, int, float)) and isinstance(kb, (Num, int, float)):
                px, pb = topoly(kx), topoly(kb)
                c = mk_lt(px - pb) if which == "min" else mk_lt(pb - px)
                if c is TRUE: best = x
                elif c is not FALSE: best = wrap(ite(c, px, pb), pyof(x) if pyof(x) == pyof(best) else "float")
                continue
            if truth(binop_cmp("lt", kx, kb) if which == "min" else binop_cmp("lt", kb, kx)): best = x
        return best
    return f


def b_any(it):
    b = FALSE
    for s in to_segs(it):
        if s.n is None:
            for v in s.vals:
                t = truth_term(v)
                if t is TRUE: return True
                b = mk_or(b, t)
        else: b = mk_or(b, exists(P(s.n), lambda k: truth_term(s.at(k))))
    return unbool(b)


def b_all(it):
    b = TRUE
    for s in to_segs(it):
        if s.n is None:
            for v in s.vals:
                t = truth_term(v)
                if t is FALSE: return False
                b = mk_and(b, t)
        else: b = mk_and(b, forall(P(s.n), lambda k: truth_term(s.at(k))))
    return unbool(b)


def truth_term(v):
    if isinstance(v, (Num, Bl, bool, int, float, np.generic)): return tob(v)
    if isinstance(v, SArr) and v.ndim == 0: return tob(v.at())
    return bconst(truth(v))


def b_sorted(it, key=None, reverse=False):
    l = PList.of_segs(to_segs(it))
    if not l.is_concrete_len(): raise Unsupported("sorted of symbolic list")
    xs = l.values()
    keys = [call(key, (x,)) if key is not None else x for x in xs]
    if any(deep_sym(q) for q in keys): raise Unsupported("sorted of symbolic values")
    order = sorted(range(len(xs)), key=lambda i: concretize(keys[i]), reverse=bool(reverse))
    return PList([xs[i] for i in order])


def b_abs(x):
    if isinstance(x, SArr) or isinstance(x, np.ndarray): return N.np_abs(x)
    return abs(x)


def b_round(x, nd=None):
    if isinstance(x, Num):
        s = Fraction(10) ** (nd or 0)
        return wrap(N._rint(x.p.scale(s)).scale(1 / s), "int" if nd is None else x.py)
    return round(x, nd) if nd is not None else round(x)


def b_map(f, *its):
    out = PList()
    segs = zip_segs([to_segs(i) for i in its])
    def body(v): out.append(call(f, v))
    run_loop(SSeq(segs), body)
    return out


def b_filter(f, it):
    out = PList()
    def body(v):
        if truth(v if f is None else call(f, (v,))): out.append(v)
    run_loop(it, body)
    return out


def b_getattr(o, n, *d):
    try: return get_attr(o, n)
    except AttributeError:
        if d: return d[0]
        raise


def b_hasattr(o, n):
    try: get_attr(o, n); return True
    except AttributeError: return False


def b_iter(x):
    l = GenList(PList.of_segs(list(to_segs(x))))
    return l


def b_next(it, *d):
    if isinstance(it, GenList):
        n = it.length()
        if E.decide(mk_lt(P(it.pos) - topoly(n))):
            v = it.get(it.pos)
            old = it.pos

            def undo(): it.pos = old
            E.record(undo, ("iterator", it))
            it.pos += 1
            return v
        if d: return d[0]
        raise StopIteration
    if hasattr(it, "vc_next"): return it.vc_next(*d)
    if isinstance(it, (SSeq, SRange)): raise Unsupported("next() on an iterable")
    return next(it, *d)


def b_print(*a, **k):
    f = k.get("file")
    if f is not None and not isinstance(f, type(__import__("sys").stderr)):
        sep = k.get("sep", " "); out = []
        for i, x in enumerate(a): out += ([sep] if i else []) + [b_str(x)]
        call(get_attr(f, "write"), (Rope.make(out + [k.get("end", "\n")]),))
    return None


def b_repr(x):
    if isinstance(x, Rope) and len(x.parts) == 1 and isinstance(x.parts[0], textmodel.Word): return Rope.make(["'", textmodel.Word("repr " + x.parts[0].name), "'"])
    if deep_sym(x): raise Unsupported("repr of a symbolic value")
    return repr(concretize(x))


def b_divmod(a, b): return (binop("floordiv", a, b), binop("mod", a, b))
def b_pow(a, b): return binop("pow", a, b)


def b_dict(*a, **k):
    if a and isinstance(a[0], (PList, SSeq)): return PDict([tuple(iter_native(x)) for x in iter_native(a[0])], **k)
    return PDict(*a, **k)


def b_set(it=()): 
    vals = list(iter_native(it))
    if any(deep_sym(v) for v in vals):
        if not all(isinstance(v, (Num, int)) for v in vals) or len(vals) > 4: raise Unsupported("set of symbolic values")
        out = []
        for v in vals:          # one path per pattern of equal elements
            if not any(E.decide(mk_eq(topoly(v) - topoly(w))) for w in out): out.append(v)
        if len(out) > 1: raise Unsupported("order of a set of symbolic values")
        return PList(out)
    return PSet(concretize(v) for v in vals)


def b_warn(*a, **k):
    E.notes.add("warnings.warn calls have no effect on results")
    ev = getattr(E, "warned", None)
    return None


SHIMS = {
    len: b_len, range: b_range, zip: b_zip, enumerate: b_enumerate, reversed: b_reversed, list: b_list, tuple: b_tuple, isinstance: b_isinstance,
    type: b_type, float: b_float, int: b_int, bool: b_bool, str: b_str, sum: b_sum, min: b_minmax("min"), max: b_minmax("max"), any: b_any, all: b_all,
    sorted: b_sorted, abs: b_abs, round: b_round, map: b_map, filter: b_filter, getattr: b_getattr, hasattr: b_hasattr, iter: b_iter, next: b_next,
    print: b_print, repr: b_repr, divmod: b_divmod, pow: b_pow, dict: b_dict, set: b_set, _warnings.warn: b_warn, setattr: set_attr,
    callable: lambda x: isinstance(x, (IFunc, IBound)) or callable(x),
    operator.add: lambda a, b: binop("add", a, b), operator.mul: lambda a, b: binop("mul", a, b), operator.sub: lambda a, b: binop("sub", a, b),
    np.float64: b_float, np.int64: b_int,
}
import copy as _copy


def b_copy(x):
    if isinstance(x, (PList, SArr)): return x.copy()
    if isinstance(x, PDict): return PDict(x)
    if is_instance_obj(x):
        r = object.__new__(type(x)); stamp_obj(r); r.__dict__.update(x.__dict__); return r
    return x


def b_deepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo: return memo[id(x)]
    if isinstance(x, SArr): r = x.copy()
    elif isinstance(x, PList):
        r = PList.of_segs([Seg(vals=[b_deepcopy(v, memo) for v in s.vals]) if s.n is None else Seg(s.n, at=lambda k, s=s: b_deepcopy(s.at(k))) for s in x.segs])
    elif type(x) is tuple: r = tuple(b_deepcopy(v, memo) for v in x)
    elif isinstance(x, PDict): r = PDict({k: b_deepcopy(v, memo) for k, v in x.items()})
    elif is_instance_obj(x):
        r = object.__new__(type(x)); stamp_obj(r); memo[id(x)] = r
        for k, v in x.__dict__.items(): r.__dict__[k] = b_deepcopy(v, memo)
    elif isinstance(x, (np.ndarray, list, dict)) : r = _copy.deepcopy(x)
    else: r = x
    memo[id(x)] = r
    return r


import typing as _typing
class _Bar:
    """A progress bar: no effect on data."""
    def __init__(self, it=None): self.it = it
    def vc_segs(self): return to_segs(self.it)
    def update(self, *a): return None
    def close(self): return None
    def set_description(self, *a, **k): return None
    def vc_enter(self): return self
    def vc_exit(self, exc): return False


def _tqdm():
    try: import tqdm
    except ImportError: return
    f = lambda it=None, *a, **k: _Bar(k.get("iterable", it))
    SHIMS[tqdm.tqdm] = f
    try:
        import tqdm.auto; SHIMS[tqdm.auto.tqdm] = f
    except Exception: pass


_tqdm()
SHIMS[_typing.cast] = lambda t, v: v
SHIMS[_copy.copy] = b_copy; SHIMS[_copy.deepcopy] = b_deepcopy
import math as _math
for _f, _m in ((_math.sqrt, N.np_sqrt), (_math.exp, N.np_exp), (_math.floor, lambda x: b_int(N.np_floor(x))), (_math.ceil, lambda x: b_int(N.np_ceil(x))), (_math.fabs, N.np_abs)):
    SHIMS[_f] = (lambda f, m: lambda x: m(x) if deep_sym(x) else f(concretize(x)))(_f, _m)
SHIMS[_math.prod] = lambda it, start=1: functools.reduce(lambda a, b: binop("mul", a, b), list(iter_native(it)), start)
SHIMS[functools.reduce] = lambda f, it, *i: functools.reduce(lambda a, b: call(f, (a, b)), list(iter_native(it)), *i)
