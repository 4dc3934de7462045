"""Symbolic values (scalars, booleans, arrays with symbolic dimensions) and the path engine."""
from __future__ import annotations
import operator, math, itertools
import numpy as np
from .terms import *
from .terms import _theatom, _has
from . import terms as T
from . import prover
from .prover import Unsupported


class Dead(BaseException):
    """Current path is infeasible."""


_roots = itertools.count()


class Engine:
    def __init__(self): self.reset()

    def reset(self):
        self.pc = []; self.pcset = set(); self.trail = []; self.prefix = []; self.pos = 0
        self.pending = []; self.npaths = 0; self.active = False; self.assumed_nonzero = set()
        self.notes = set(); self.fs = None; self.depth = 0; self.max_paths = 3000
        self.calls = {}; self.loopinfo = []; self.substitute = {}; self.subused = set(); self.effects = None
        self.deflog = []; self.declog = []; self.epoch = 0; self._epochs = itertools.count(1)
        self.binders = []         # iteration variables of the enclosing symbolic loops
        self.pathid = next(_roots); self.ord = 0; self._pathids = {}
        self.side = []          # (name, B) obligations raised by the interpreter itself

    # Names of fresh terms are a function of the decisions taken so far and the number of names made
    # since, so that a path that is executed again (to take its last decision the other way) builds
    # the very same terms and finds the earlier answers of the solver.
    def uid(self):
        if not self.active: return f"{next(T._vn)}"
        self.ord += 1
        return f"{self.pathid}.{self.ord}"

    def fresh(self, name, isint=False, rng=None): return T.var(f"{name}!{self.uid()}", isint, rng)

    def advance(self, what):
        key = (self.pathid, self.ord, what)
        r = self._pathids.get(key)
        if r is None: r = self._pathids[key] = next(_roots)
        self.pathid, self.ord = r, 0

    def assume(self, b: B):
        if b is TRUE: return
        if b is FALSE: raise Dead()
        if b.kind == "and":
            for x in b.args[0]: self.assume(x)
            return
        if b not in self.pcset:
            self.pc.append(b); self.pcset.add(b)

    def assume_once(self, b: B):
        """Assume a fact that defines a fresh / opaque term (true in every state)."""
        if b is TRUE or b in self.pcset: return
        self.deflog.append((b, len(self.declog)))
        self.assume(b)

    def known(self, b: B):
        if b is TRUE or b in self.pcset: return True
        n = mk_not(b)
        if b is FALSE or n in self.pcset: return False
        if b.kind == "and":
            vs = [self.known(x) for x in b.args[0]]
            if all(v is True for v in vs): return True
            if any(v is False for v in vs): return False
        if n.kind == "and":
            vs = [self.known(x) for x in n.args[0]]
            if all(v is True for v in vs): return False
            if any(v is False for v in vs): return True
        return None

    def decide(self, b: B) -> bool:
        k = self.known(b)
        if k is not None: return k
        if not self.active: raise Unsupported(f"branch on symbolic value outside a path: {b}")
        if self.pos < len(self.prefix):
            c, forked = self.prefix[self.pos]; self.pos += 1
            if forked: self.declog.append(b if c else mk_not(b))
            self.assume(b if c else mk_not(b)); self.advance(c)
            return c
        ft = prover.feasible(self.pc, goal=b)
        ff = prover.feasible(self.pc, goal=mk_not(b))
        if not ft and not ff: raise Dead()
        if ft and ff:
            self.pending.append(self.prefix[: self.pos] + [(False, True)])
            self.declog.append(b)
        c = ft
        self.prefix.append((c, ft and ff)); self.pos += 1
        self.assume(b if c else mk_not(b)); self.advance(c)
        return c

    def entails(self, b: B, timeout=3000) -> bool:
        if self.known(b) is True: return True
        return prover.prove(b, self.pc, timeout).status == "proved"

    # mutation trail ----------------------------------------------------------------------------
    def record(self, undo, loc=None): self.trail.append((undo, loc))

    def rollback(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()[0]()

    def explore(self, fn, max_paths=None):
        """Run fn() on every feasible path from the current state; returns [(result, decisions, definitional facts, each with
        the decisions before it)].

        fn's effects are undone between paths through the trail; the caller sees each result before
        the rollback by passing a callback inside fn.
        """
        saved = (self.pc, self.pcset, self.prefix, self.pos, self.pending, self.active, self.epoch, self.deflog, self.declog)
        base = list(self.pc)
        pend = [[]]
        n = 0
        out = []
        limit = max_paths or self.max_paths
        here = (self.pathid, self.ord + 1)
        try:
            while pend:
                pre = pend.pop()
                n += 1; self.npaths += 1
                if n > limit: raise Unsupported("too many paths")
                self.pc = list(base); self.pcset = set(base)
                self.prefix = list(pre); self.pos = 0; self.pending = []; self.active = True
                self.pathid, self.ord = here; self.advance("path")
                mark = len(self.trail); self.deflog = []; self.declog = []; self.epoch = next(self._epochs)
                try:
                    r = fn()
                    dec = list(self.declog)
                    out.append((r, dec, [(d, dec[:m]) for d, m in self.deflog]))
                except Dead:
                    pass
                finally:
                    self.rollback(mark)
                pend += self.pending
        finally:
            (self.pc, self.pcset, self.prefix, self.pos, self.pending, self.active, self.epoch, self.deflog, self.declog) = saved
            self.pathid, self.ord = here
        return out


E = Engine()


# ---------------------------------------------------------------------------------------------
def is_sym(x):
    return isinstance(x, (Num, Bl, SArr)) or getattr(x, "_is_sym_", False)


def unbool(b: B):
    k = E.known(b)
    return k if k is not None else Bl(b)


def wrap(p: Poly, py="float"):
    """Scalar value of the program from a term; integer constants become Python ints."""
    if py in ("int", "npint"):
        c = p.const()
        if c is not None and c.denominator == 1: return int(c)
    return Num(p, py)


def topoly(x) -> Poly:
    if isinstance(x, Num): return x.p
    if isinstance(x, Bl): return ind(x.b)
    if isinstance(x, Poly): return x
    if isinstance(x, B): return ind(x)
    if isinstance(x, (bool, int, float, Fraction, np.number, np.bool_)): return P(x)
    if isinstance(x, SArr) and x.ndim == 0: return topoly(x.item())
    if isinstance(x, np.ndarray) and x.ndim == 0: return P(x.item())
    v = getattr(x, "item", None)
    if v is not None and getattr(x, "ndim", 1) == 0: return topoly(x.item())
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def tob(x) -> B:
    """Truth term of a scalar."""
    if isinstance(x, B): return x
    if isinstance(x, Bl): return x.b
    if isinstance(x, Num): return mk_not(mk_eq(x.p))
    if isinstance(x, Poly): return mk_not(mk_eq(x))
    if isinstance(x, (bool, np.bool_)): return bconst(bool(x))
    if isinstance(x, (int, float, np.number)): return bconst(bool(x))
    if isinstance(x, SArr) and x.ndim == 0: return tob(x.item())
    raise Unsupported(f"truth of {type(x).__name__}")


def pyof(x):
    if isinstance(x, Num): return x.py
    if isinstance(x, Bl): return "bool"
    if isinstance(x, (bool, np.bool_)): return "bool"
    if isinstance(x, int): return "int"
    if isinstance(x, float) and not isinstance(x, np.floating): return "float"
    if isinstance(x, np.integer): return "npint"
    if isinstance(x, np.floating): return "npfloat"
    return "float"


def _respy(a, b, div=False):
    if a.startswith("np") or b.startswith("np"):
        return "npfloat" if div or "float" in a or "float" in b else "npint"
    if div or "float" in (a, b): return "float"
    return "int"


def check_nonzero(q: Poly, pyscalar=False):
    """Side condition of a division: proved, or forked (Python scalars), or recorded."""
    if q.const() is not None:
        if q.const() == 0:
            if pyscalar: raise ZeroDivisionError("division by zero")
            raise Unsupported("array division by zero")
        return
    z = mk_eq(q)
    if E.known(z) is False: return
    if pyscalar:
        if E.active and E.decide(z): raise ZeroDivisionError("division by zero")
        return


def _num_op(fn):
    def op(self, o):
        if isinstance(o, (SArr, np.ndarray)) or hasattr(o, "__array_priority__") and not isinstance(o, np.generic):
            return NotImplemented
        try: q = topoly(o)
        except Unsupported:
            return NotImplemented
        return fn(self, o, q)
    return op


class Num:
    """A symbolic Python/numpy scalar."""
    __slots__ = ("p", "py")
    __array_ufunc__ = None
    _is_sym_ = True

    def __init__(self, p, py="float"):
        self.p = p; self.py = py

    def __repr__(self): return f"‹{self.p}›"
    __str__ = __repr__

    def __format__(self, spec): return f"‹{self.p}›"

    @_num_op
    def __add__(self, o, q): return wrap(self.p + q, _respy(self.py, pyof(o)))
    __radd__ = __add__

    @_num_op
    def __sub__(self, o, q): return wrap(self.p - q, _respy(self.py, pyof(o)))

    @_num_op
    def __rsub__(self, o, q): return wrap(q - self.p, _respy(self.py, pyof(o)))

    def __mul__(self, o):
        if isinstance(o, (list, str)) : return NotImplemented
        return self._mul(o)

    @_num_op
    def _mul(self, o, q): return wrap(self.p * q, _respy(self.py, pyof(o)))

    def __rmul__(self, o):
        return self.__mul__(o)

    @_num_op
    def __truediv__(self, o, q):
        check_nonzero(q, not (self.py.startswith("np") or pyof(o).startswith("np")))
        return wrap(self.p / q, _respy(self.py, pyof(o), True))

    @_num_op
    def __rtruediv__(self, o, q):
        check_nonzero(self.p, not (self.py.startswith("np") or pyof(o).startswith("np")))
        return wrap(q / self.p, _respy(self.py, pyof(o), True))

    @_num_op
    def __floordiv__(self, o, q):
        check_nonzero(q, True)
        return wrap(pfloor(self.p / q), _respy(self.py, pyof(o)))

    @_num_op
    def __rfloordiv__(self, o, q):
        check_nonzero(self.p, True)
        return wrap(pfloor(q / self.p), _respy(self.py, pyof(o)))

    @_num_op
    def __mod__(self, o, q):
        check_nonzero(q, True)
        return wrap(self.p - q * pfloor(self.p / q), _respy(self.py, pyof(o)))

    @_num_op
    def __rmod__(self, o, q):
        check_nonzero(self.p, True)
        return wrap(q - self.p * pfloor(q / self.p), _respy(self.py, pyof(o)))

    @_num_op
    def __pow__(self, o, q):
        return wrap(ppow(self.p, q), _respy(self.py, pyof(o)))

    @_num_op
    def __rpow__(self, o, q):
        return wrap(ppow(q, self.p), _respy(self.py, pyof(o)))

    def __neg__(self): return wrap(-self.p, self.py)
    def __pos__(self): return self
    def __abs__(self): return wrap(pabs(self.p), self.py)

    def __lt__(self, o): return self._cmp(o, lambda a, b: mk_lt(a - b))
    def __le__(self, o): return self._cmp(o, lambda a, b: mk_le(a - b))
    def __gt__(self, o): return self._cmp(o, lambda a, b: mk_lt(b - a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: mk_le(b - a))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)): return False
        return self._cmp(o, lambda a, b: mk_eq(a - b))

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)): return True
        return self._cmp(o, lambda a, b: mk_not(mk_eq(a - b)))

    def _cmp(self, o, f):
        if isinstance(o, (SArr, np.ndarray)): return NotImplemented
        if o is None or isinstance(o, (str, tuple, list)): raise TypeError("unorderable types")
        return unbool(f(self.p, topoly(o)))

    def __hash__(self): return hash(self.p.id)
    def __bool__(self): return E.decide(mk_not(mk_eq(self.p)))

    def __int__(self):
        c = self.p.const()
        if c is None: raise Unsupported("int() of symbolic")
        return int(c)

    def __index__(self):
        c = self.p.const()
        if c is None or c.denominator != 1: raise Unsupported("index of symbolic")
        return int(c)

    def __float__(self):
        c = self.p.const()
        if c is None: raise Unsupported("float() of symbolic")
        return float(c)

    def item(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    def copy(self): return self
    def is_integer(self): return unbool(mk_eq(self.p - pfloor(self.p)))


class Bl:
    """A symbolic boolean."""
    __slots__ = ("b",)
    __array_ufunc__ = None
    _is_sym_ = True

    def __init__(self, b): self.b = b
    def __repr__(self): return f"‹{self.b}›"
    def __bool__(self): return E.decide(self.b)

    def __and__(self, o):
        if isinstance(o, SArr): return NotImplemented
        return unbool(mk_and(self.b, tob(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SArr): return NotImplemented
        return unbool(mk_or(self.b, tob(o)))
    __ror__ = __or__

    def __invert__(self): return unbool(mk_not(self.b))

    def _n(self): return Num(ind(self.b), "int")
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __neg__(self): return -self._n()

    def __eq__(self, o):
        if isinstance(o, (SArr, np.ndarray)): return NotImplemented
        try: q = topoly(o)
        except Unsupported: return False
        return unbool(mk_eq(ind(self.b) - q))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self): return self.b.id
    def item(self): return self
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0


# arrays --------------------------------------------------------------------------------------
class Store:
    _n = itertools.count()
    __slots__ = ("content", "memo", "label", "id", "writes")

    def __init__(self, content, label=None):
        self.content = content; self.memo = {}; self.label = label; self.id = next(Store._n); self.writes = 0

    def get(self, J):
        key = (E.epoch, J)
        r = self.memo.get(key)
        if r is None:
            r = self.content(J)
            self.memo[key] = r
        return r

    def snapshot(self):
        """Reader of the current contents, unaffected by later writes."""
        content, memo = self.content, self.memo

        def rd(J):
            key = (E.epoch, J)
            r = memo.get(key)
            if r is None:
                r = content(J); memo[key] = r
            return r
        return rd

    def update(self, content):
        if self.label == "template": raise Unsupported("write to an element of a symbolically built list")
        old = (self.content, self.memo)

        def undo(): 
            self.content, self.memo = old; self.writes -= 1
        E.record(undo, ("store", self))
        self.content = content; self.memo = {}; self.writes += 1


def dim(n):
    """Normalise a dimension to a Python int or Poly."""
    if isinstance(n, Num): n = n.p
    if isinstance(n, Poly):
        c = n.const()
        if c is not None: return int(c)
        return n
    if isinstance(n, Bl): raise Unsupported("bool dim")
    return operator.index(n)


def dval(n):
    """Dimension as program value."""
    return n if isinstance(n, int) else Num(n, "int")


def deq(a, b) -> bool:
    """Are two dimensions equal (forks)?"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    return E.decide(mk_eq(P(a) - P(b)))


def dprod(ds):
    r = 1
    for d in ds:
        r = r * d if isinstance(r, int) and isinstance(d, int) else dim(P(r) * P(d))
    return r


def bshape(*shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for i in range(nd):
        cur = 1
        for s in shapes:
            j = i - (nd - len(s))
            if j < 0: continue
            d = s[j]
            if isinstance(d, int) and d == 1: continue
            if isinstance(cur, int) and cur == 1: cur = d; continue
            if d is cur or d == cur: continue
            if deq(cur, d): 
                if isinstance(d, int): cur = d
                continue
            if not isinstance(d, int) and deq(d, 1): continue
            if not isinstance(cur, int) and deq(cur, 1): cur = d; continue
            raise ValueError("operands could not be broadcast together with shapes " +
                             " ".join(str(s) for s in shapes))
        out.append(cur)
    return tuple(out)


def bread(a: "SArr", shape):
    """Reader of a broadcast to shape."""
    rd = a.reader(); nd = len(shape); k = nd - a.ndim
    one = []
    for i, d in enumerate(a.shape_):
        D = shape[i + k]
        if isinstance(d, int):
            one.append(d == 1 and not (isinstance(D, int) and D == 1))
        else:
            one.append(not (d is D or d == D) and E.known(mk_eq(P(d) - 1)) is True and E.known(mk_eq(P(d) - P(D))) is not True)
    z = PZERO

    def f(I):
        return rd(tuple(z if one[i] else I[i + k] for i in range(len(one))))
    return f


class SArr:
    """numpy array (or torch tensor, kind='torch') with symbolic elements and possibly symbolic dims."""
    __slots__ = ("store", "axes", "shape_", "dtype_", "kind", "fn", "__weakref__", "extra")
    __array_ufunc__ = None
    __array_priority__ = 1000
    _is_sym_ = True

    def __init__(self, store, shape, dtype="f", axes=None, kind="np", fn=None):
        self.store = store; self.shape_ = tuple(shape); self.dtype_ = dtype
        self.axes = tuple(("v", i, PZERO, 1) for i in range(len(self.shape_))) if axes is None and fn is None else axes
        self.kind = kind; self.fn = fn; self.extra = None

    # construction ----------------------------------------------------------------------------
    @staticmethod
    def new(shape, f, dtype="f", kind="np", label=None):
        return SArr(Store(f, label), tuple(dim(d) for d in shape), dtype, kind=kind)

    @property
    def shape(self):
        t = tuple(dval(d) for d in self.shape_)
        return t

    @property
    def ndim(self): return len(self.shape_)
    def dim(self): return len(self.shape_)

    @property
    def size(self):
        if self.kind == "torch":
            return lambda d=None: (TSize(self.shape) if d is None else self.shape[d])
        return dval(dprod(self.shape_))

    @property
    def dtype(self):
        if self.kind == "torch":
            import torch
            return {"f": torch.get_default_dtype(), "i": torch.int64, "b": torch.bool}[self.dtype_] if self.extra is None else self.extra
        return np.dtype({"f": "float64", "i": "int64", "b": "bool"}[self.dtype_])

    # reading ---------------------------------------------------------------------------------
    def _map(self, I):
        if self.fn is not None: return self.fn(I)
        out = []
        for ax in self.axes:
            if ax[0] == "c": out.append(ax[1])
            else:
                _, v, off, step = ax
                i = I[v]
                out.append(i if (step == 1 and not off.t) else off + i.scale(step))
        return tuple(out)

    def at(self, *I):
        I = tuple(P(i) if not isinstance(i, Poly) else i for i in I)
        return self.store.get(self._map(I))

    def reader(self):
        rd = self.store.snapshot()
        m = self._map
        if self.fn is None and all(a[0] == "v" and a[1] == i and a[3] == 1 and not a[2].t for i, a in enumerate(self.axes)) and len(self.axes) == self.ndim:
            return rd
        return lambda I: rd(m(I))

    def item(self):
        if self.ndim == 0: return self._scalar(self.at())
        if dprod(self.shape_) == 1: return self._scalar(self.at(*[PZERO] * self.ndim))
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def _scalar(self, t):
        if self.dtype_ == "b": return unbool(t if isinstance(t, B) else mk_not(mk_eq(t)))
        if self.kind == "torch": return SArr.new((), lambda J: t, self.dtype_, "torch")
        return Num(t, "npint" if self.dtype_ == "i" else "npfloat") if t.const() is None or self.dtype_ != "i" else int(t.const())

    def tolist(self):
        if self.ndim == 0: return self.item()
        if not isinstance(self.shape_[0], int): raise Unsupported("tolist of symbolic length")
        return [self[i].tolist() if self.ndim > 1 else self[i] for i in range(self.shape_[0])]

    def is_concrete(self):
        return all(isinstance(d, int) for d in self.shape_) and all(
            (x in (TRUE, FALSE)) if isinstance(x, B) else x.const() is not None for x in self.elems())

    def elems(self):
        for I in itertools.product(*[range(d) for d in self.shape_]):
            yield self.at(*[P(i) for i in I])

    def concrete(self):
        vals = [(x is TRUE) if isinstance(x, B) else (int(x.const()) if self.dtype_ == "i" else float(x.const())) for x in self.elems()]
        r = np.array(vals, dtype=np.dtype({"f": "float64", "i": "int64", "b": "bool"}[self.dtype_])).reshape(self.shape_)
        if self.kind == "torch":
            import torch
            return torch.tensor(r)
        return r

    # iteration (constant length only; symbolic lengths are handled by the loop rule) --------
    def __len__(self):
        if self.ndim == 0: raise TypeError("len() of unsized object")
        n = self.shape_[0]
        if not isinstance(n, int): raise Unsupported("len of symbolic dimension used natively")
        return n

    def __iter__(self):
        if self.ndim == 0: raise TypeError("iteration over a 0-d array")
        n = self.shape_[0]
        if not isinstance(n, int): raise Unsupported("native iteration over symbolic dimension")
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        n = dprod(self.shape_)
        if isinstance(n, int) and n == 1 or self.ndim == 0:
            return E.decide(tob(self.at(*[PZERO] * self.ndim)))
        if not isinstance(n, int) and deq(n, 1):
            return E.decide(tob(self.at(*[PZERO] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        return float(self.item())

    def __int__(self): return int(self.item())
    def __index__(self): return operator.index(self.item())
    def __hash__(self): return id(self)

    # indexing --------------------------------------------------------------------------------
    def _view_axes(self):
        if self.fn is not None: return None
        return self.axes

    def __getitem__(self, key):
        from . import indexing
        return indexing.getitem(self, key)

    def __setitem__(self, key, value):
        from . import indexing
        indexing.setitem(self, key, value)

    # everything else is provided by npmodel / torchmodel
    def __getattr__(self, name):
        from . import npmodel
        return npmodel.array_attr(self, name)

    def __repr__(self):
        return f"SArr{self.shape_}"

    def view_of(self, shape, fn):
        """Non-affine view (reshape): reads through, writes unsupported."""
        m = self._map
        return SArr(self.store, shape, self.dtype_, axes=None, kind=self.kind, fn=lambda I: m(fn(I)))


class TSize(tuple):
    def numel(self):
        r = 1
        for d in self: r = r * d
        return r


def _install_ops():
    from . import npmodel as N

    def mk(opname):
        def op(self, o):
            if isinstance(o, (str, type(None), dict)) : 
                return NotImplemented
            return N.binop(opname, self, o)
        def rop(self, o):
            if isinstance(o, (str, type(None), dict)) : 
                return NotImplemented
            return N.binop(opname, o, self)
        return op, rop
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
        op, rop = mk(n)
        setattr(SArr, f"__{n}__", op); setattr(SArr, f"__r{n}__", rop)
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        op, _ = mk(n)
        setattr(SArr, f"__{n}__", op)
    SArr.__hash__ = lambda self: id(self)
    SArr.__matmul__ = lambda self, o: N.matmul(self, o)
    SArr.__rmatmul__ = lambda self, o: N.matmul(o, self)
    SArr.__neg__ = lambda self: N.emap(lambda x: -x, self)
    SArr.__pos__ = lambda self: self
    SArr.__abs__ = lambda self: N.emap(pabs, self)
    SArr.__invert__ = lambda self: N.emapb(lambda x: mk_not(x), self) if self.dtype_ == "b" else N.emap(lambda x: -x - 1, self)
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or"):
        def mki(n):
            def iop(self, o):
                return N.inplace(n, self, o)
            return iop
        setattr(SArr, f"__i{n}__", mki(n))
