"""Models (assumed contracts) of the numpy / scipy functions used by the verified code.

Each model states the mathematical meaning of a library function on SArr values.  They are part of
the trusted base; `selftest.py` cross-checks every one of them against the real library.
"""
from __future__ import annotations
import itertools, math
from fractions import Fraction
import numpy as np
from .terms import *
from . import terms as T
from .terms import _theatom
from . import prover
from .sym import *
from .sym import SArr, Store, E, Num, Bl, topoly, tob, dim, dval, dprod, deq, bshape, bread, wrap, unbool
from . import indexing as IX

DT = {"f": "f", "i": "i", "u": "i", "b": "b"}


def is_torch(x):
    return type(x).__module__.split(".")[0] == "torch" and type(x).__name__ in ("Tensor", "Parameter")


def is_arr(x):
    return isinstance(x, (SArr, np.ndarray)) or is_torch(x)


def asarr(x, kind="np") -> SArr:
    if isinstance(x, SArr): return x
    if isinstance(x, Num):
        return SArr.new((), lambda J: x.p, "i" if x.py in ("int", "npint") else "f", kind)
    if isinstance(x, Bl): return SArr.new((), lambda J: x.b, "b", kind)
    if isinstance(x, (bool, np.bool_)): return SArr.new((), lambda J: bconst(bool(x)), "b", kind)
    if isinstance(x, (int, np.integer)): return SArr.new((), lambda J: P(int(x)), "i", kind)
    if isinstance(x, (float, np.floating)):
        if x != x or x in (math.inf, -math.inf): raise Unsupported("non-finite constant")
        return SArr.new((), lambda J: P(x), "f", kind)
    if is_torch(x):
        r = from_concrete(x.detach().cpu().numpy(), "torch")
        return r
    if isinstance(x, np.ndarray): return from_concrete(x, kind)
    if isinstance(x, (list, tuple)):
        return stack_list(list(x), kind)
    if getattr(x, "_is_slist_", False): return stack_slist(x, kind)
    if isinstance(x, range): return stack_list(list(x), kind)
    if hasattr(x, "stop") and hasattr(x, "at"):                 # symbolic range
        st, step = x.start, x.step
        return SArr.new((dim(x.n),), lambda J: st + J[0].scale(step), "i", kind)
    raise TypeError(f"cannot make an array of {type(x).__name__}")


def from_concrete(x: np.ndarray, kind="np") -> SArr:
    k = DT.get(x.dtype.kind)
    if k is None: raise Unsupported(f"array of dtype {x.dtype}")
    x = x.copy()
    conv = (lambda v: bconst(bool(v))) if k == "b" else (lambda v: P(v.item()))

    def f(J):
        cs = [j.const() for j in J]
        if all(c is not None for c in cs):
            return conv(x[tuple(int(c) for c in cs)])
        # symbolic index into a table: case split over the table
        if x.size > 4096: raise Unsupported("symbolic index into large constant array")
        res = None
        if k == "b":
            acc = FALSE
            for I in np.ndindex(*x.shape):
                if x[I]: acc = mk_or(acc, mk_and(*[mk_eq(j - i) for j, i in zip(J, I)]))
            return acc
        r = PZERO
        if x.size and (x == x.flat[0]).all(): return conv(x.flat[0])
        if x.ndim == 1 and x.size > 2 and np.array_equal(x, np.arange(x.size) + x[0]): return J[0] + conv(x[0])
        for I in np.ndindex(*x.shape):
            if x[I] != 0:
                r = r + conv(x[I]) * ind(mk_and(*[mk_eq(j - i) for j, i in zip(J, I)]))
        return r
    a = SArr.new(x.shape, f, k, kind)
    if k == "f" and x.dtype != np.float64 and kind == "np": pass
    return a


def _merge_dtype(ds):
    if "f" in ds: return "f"
    if "i" in ds: return "i"
    return "b" if ds and all(d == "b" for d in ds) else "f"


def _num(e):
    return ind(e) if isinstance(e, B) else e


def stack_list(xs, kind="np") -> SArr:
    if not xs: return SArr.new((0,), lambda J: PZERO, "f", kind)
    for x in xs:
        if isinstance(x, (str, bytes)) or x is None: raise Unsupported("array of objects")
    arrs = [asarr(x, kind) for x in xs]
    sh = arrs[0].shape_
    for a in arrs[1:]:
        if a.ndim != len(sh):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        for d1, d2 in zip(sh, a.shape_):
            if not deq(d1, d2):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    dt = _merge_dtype([a.dtype_ for a in arrs])
    if kind == "np" and any(a.kind == "torch" for a in arrs): kind = "np"
    rds = [a.reader() for a in arrs]
    n = len(xs)
    return SArr.new((n,) + sh, lambda J: _pick(J[0], n, lambda i: rds[i](J[1:]), dt), dt, kind)


def _pick(i: Poly, n, f, dt):
    c = i.const()
    if c is not None: return f(int(c)) if dt == "b" else _num(f(int(c)))
    vals = [f(j) for j in range(n)]
    if all(v is vals[0] for v in vals): return vals[0] if dt == "b" else _num(vals[0])
    if dt == "b":
        r = FALSE
        for j, v in enumerate(vals): r = mk_or(r, mk_and(mk_eq(i - j), v))
        return r
    r = _num(vals[-1])
    for j in range(n - 1):
        r = r + (_num(vals[j]) - _num(vals[-1])) * ind(mk_eq(i - j))
    return r


def stack_slist(x, kind="np") -> SArr:
    """np.array of a list with symbolic segments (interp.PList)."""
    if x.is_concrete_len():
        return stack_list(list(x.values()), kind)
    segs = []
    sh = None; dts = []
    for s in x.segs:
        if s.n is None:
            for v in s.vals:
                a = asarr(v, kind)
                segs.append((1, a.reader(), None)); shp = a.shape_; dts.append(a.dtype_)
                if sh is None: sh = shp
                elif len(sh) != len(shp) or not all(deq(p, q) for p, q in zip(sh, shp)):
                    raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        else:
            k = E.fresh("k", True, (PZERO, P(s.n)))
            tmpl = s.at(k)
            if isinstance(tmpl, (str, bytes)) or tmpl is None: raise Unsupported("array of objects")
            a = asarr(tmpl, kind)
            shp = a.shape_; dts.append(a.dtype_)
            ka = _theatom(k)
            for d in shp:
                if isinstance(d, Poly) and ka in d.vars: raise Unsupported("ragged list")
            if sh is None: sh = shp
            elif len(sh) != len(shp) or not all(deq(p, q) for p, q in zip(sh, shp)):
                raise ValueError("setting an array element with a sequence: inhomogeneous shape")
            rd = a.reader()
            segs.append((s.n, lambda J, rd=rd, ka=ka: rd(J), ka))
    total = dim(sum((P(s[0]) for s in segs), PZERO))
    dt = _merge_dtype(dts)
    if sh is None: sh = ()

    def f(J):
        i = J[0]; off = PZERO; res = None
        parts = []
        for n, rd, ka in segs:
            j = i - off
            if ka is None: v = rd(J[1:])
            else: v = _sub_reader(rd, J[1:], ka, j)
            parts.append((off, n, v)); off = off + P(n)
        if len(parts) == 1: return parts[0][2]
        if dt == "b":
            r = FALSE
            for off, n, v in parts: r = mk_or(r, mk_and(mk_le(off - i), mk_lt(i - off - P(n)), v))
            return r
        r = _num(parts[-1][2])
        for off, n, v in reversed(parts[:-1]):
            r = ite(mk_lt(i - off - P(n)), _num(v), r)
        return r
    return SArr.new((total,) + sh, f, dt, kind)


def _sub_reader(rd, J, ka, j):
    """Read template element at J, then instantiate the loop variable ka := j.

    J may mention ka's own name only if capture occurs; template variables are globally fresh, so it cannot."""
    v = rd(J)
    return subst(v, {ka: j})


# elementwise -----------------------------------------------------------------------------------
def _out(a: SArr):
    """numpy returns scalars for 0-d results."""
    if a.ndim == 0 and a.kind == "np": return a._scalar(a.at())
    return a


def kind_of(*xs):
    return "torch" if any((isinstance(x, SArr) and x.kind == "torch") or is_torch(x) for x in xs) else "np"


def emap(f, a, dtype=None):
    a = asarr(a)
    rd = a.reader()
    dt = dtype or ("i" if a.dtype_ == "b" else a.dtype_)
    return _out(SArr.new(a.shape_, lambda J: f(_num(rd(J))), dt, a.kind))


def emapb(f, a):
    a = asarr(a); rd = a.reader()
    return _out(SArr.new(a.shape_, lambda J: f(tob(rd(J))), "b", a.kind))


def _fdiv(x, y):
    return pfloor(x / y)


_ARITH = {
    "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
    "truediv": lambda x, y: x / y, "floordiv": _fdiv,
    "mod": lambda x, y: x - y * pfloor(x / y), "pow": lambda x, y: ppow(x, y),
}
_CMP = {
    "lt": lambda x, y: mk_lt(x - y), "le": lambda x, y: mk_le(x - y), "gt": lambda x, y: mk_lt(y - x),
    "ge": lambda x, y: mk_le(y - x), "eq": lambda x, y: mk_eq(x - y), "ne": lambda x, y: mk_not(mk_eq(x - y)),
}
_BOOL = {"and": mk_and, "or": mk_or, "xor": lambda x, y: mk_or(mk_and(x, mk_not(y)), mk_and(y, mk_not(x)))}


def _unhandled_operand(x):
    return isinstance(x, (str, bytes, dict)) or x is None or callable(x) and not is_arr(x)


def note_div(a: SArr):
    """Array divisions assume nonzero denominators (numpy yields inf/nan with a warning instead)."""
    if not a.is_concrete() if all(isinstance(d, int) for d in a.shape_) and dprod(a.shape_) < 64 else True:
        E.notes.add("array divisions: denominators assumed nonzero (a zero denominator yields inf/nan in numpy, not modelled)")


def binop(op, a, b):
    if _unhandled_operand(a) or _unhandled_operand(b):
        raise TypeError(f"unsupported operand type(s) for {op}")
    kind = kind_of(a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if kind == "torch": raise TypeError("unsupported operand type(s): Tensor and list")
    a = asarr(a, kind); b = asarr(b, kind)
    sh = bshape(a.shape_, b.shape_)
    ra, rb = bread(a, sh), bread(b, sh)
    da, db = a.dtype_, b.dtype_
    if op in _ARITH:
        f = _ARITH[op]
        if op == "truediv": dt = "f"; note_div(b)
        else: dt = "f" if "f" in (da, db) else "i"
        if da == db == "b":
            if op == "mul": return _out(SArr.new(sh, lambda J: mk_and(ra(J), rb(J)), "b", kind))
            if op == "add": return _out(SArr.new(sh, lambda J: mk_or(ra(J), rb(J)), "b", kind))
            if op == "sub": raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        if op in ("floordiv", "mod"): note_div(b)
        def g(J):
            y = _num(rb(J))
            if op in ("truediv", "floordiv", "mod") and not y.t: raise Unsupported("array division by zero constant")
            if op == "pow" and y.const() is None: return app("pow", (_num(ra(J)), y))
            return f(_num(ra(J)), y)
        return _out(SArr.new(sh, g, dt, kind))
    if op in _CMP:
        f = _CMP[op]
        return _out(SArr.new(sh, lambda J: f(_num(ra(J)), _num(rb(J))), "b", kind))
    if op in _BOOL:
        if da != "b" or db != "b":
            if "f" in (da, db): raise TypeError(f"ufunc 'bitwise_{op}' not supported for the input types")
            raise Unsupported("integer bit operations")
        f = _BOOL[op]
        return _out(SArr.new(sh, lambda J: f(ra(J), rb(J)), "b", kind))
    raise Unsupported(op)


def inplace(op, a: SArr, o):
    v = asarr(binop(op, a, o), a.kind)
    if a.dtype_ == "i" and v.dtype_ == "f":
        raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
    if a.dtype_ == "b" and v.dtype_ != "b": raise TypeError("Cannot cast ufunc output to bool")
    if len(v.shape_) > a.ndim: raise ValueError("non-broadcastable output operand")
    for d, e in zip(v.shape_, a.shape_[a.ndim - len(v.shape_):]):
        if not deq(d, e): raise ValueError("non-broadcastable output operand")
    # elementwise with identical index map: safe even when o aliases a only if read before write
    IX.write_view(a, v)
    return a


def matmul(a, b):
    if _unhandled_operand(a) or _unhandled_operand(b): raise TypeError("unsupported operand type(s) for @")
    kind = kind_of(a, b)
    a = asarr(a, kind); b = asarr(b, kind)
    if a.ndim == 0 or b.ndim == 0: raise ValueError("matmul: Input operand does not have enough dimensions")
    va, vb = a.ndim == 1, b.ndim == 1
    if va: a = IX.basic_view(a, [None, slice(None)])
    if vb: b = IX.basic_view(b, [slice(None), None])
    n = a.shape_[-1]
    if not deq(n, b.shape_[-2]):
        if kind == "torch": raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension")
    if not isinstance(n, int) and isinstance(b.shape_[-2], int): n = b.shape_[-2]
    bs = bshape(a.shape_[:-2], b.shape_[:-2])
    ra = bread(a, bs + a.shape_[-2:]); rb = bread(b, bs + b.shape_[-2:])
    nb = len(bs)
    sh = bs + (() if va else (a.shape_[-2],)) + (() if vb else (b.shape_[-1],))

    def f(J):
        BI = J[:nb]; r = list(J[nb:])
        i = PZERO if va else r.pop(0)
        j = PZERO if vb else r.pop(0)
        return psum(n, lambda k: _num(ra(BI + (i, k))) * _num(rb(BI + (k, j))))
    return _out(SArr.new(sh, f, "f" if "f" in (a.dtype_, b.dtype_) else "i", kind))


# reductions ------------------------------------------------------------------------------------
def _axes(a, axis):
    if axis is None: return tuple(range(a.ndim))
    if not isinstance(axis, (tuple, list)): axis = (axis,)
    out = []
    for x in axis:
        x = int(x)
        if x < -a.ndim or x >= a.ndim: raise IndexError("axis out of bounds") if a.kind == "torch" else np.exceptions.AxisError(x, a.ndim)
        out.append(x % a.ndim)
    return tuple(out)


def _reduce(a, axis, keepdims, fold, dt):
    """fold(dims, reader over reduced indexes) -> element"""
    a = asarr(a)
    ax = _axes(a, axis)
    keep = [i for i in range(a.ndim) if i not in ax]
    sh = tuple((1 if i in ax else a.shape_[i]) for i in range(a.ndim)) if keepdims else tuple(a.shape_[i] for i in keep)
    rd = a.reader(); dims = [a.shape_[i] for i in ax]

    def f(J):
        base = [None] * a.ndim
        for p, i in enumerate(keep): base[i] = J[i] if keepdims else J[p]

        def at(K):
            I = list(base)
            for p, i in enumerate(ax): I[i] = K[p]
            return rd(tuple(I))
        return fold(dims, at)
    return _out(SArr.new(sh, f, dt, a.kind))


def sum_over(dims, at, K=()):
    if not dims: return _num(at(K))
    return psum(dims[0], lambda k: sum_over(dims[1:], at, K + (k,)))


def all_over(dims, at, K=()):
    if not dims: return tob(at(K))
    return forall(dims[0], lambda k: all_over(dims[1:], at, K + (k,)))


def asum(a, axis=None, dtype=None, keepdims=False, **kw):
    if kw: raise Unsupported(f"sum {kw}")
    a = asarr(a)
    return _reduce(a, axis, keepdims, sum_over, "f" if a.dtype_ == "f" else "i")


def count_over(dims):
    r = PONE
    for d in dims: r = r * P(d)
    return r


def amean(a, axis=None, dtype=None, keepdims=False, **kw):
    if kw: raise Unsupported(f"mean {kw}")
    note_mean(a, axis)
    return _reduce(a, axis, keepdims, lambda d, at: sum_over(d, at) / count_over(d), "f")


def note_mean(a, axis):
    E.notes.add("mean/variance over an empty axis (nan in the library) is not modelled: counts assumed nonzero")


def avar(a, axis=None, dtype=None, ddof=0, keepdims=False, correction=None, **kw):
    if kw: raise Unsupported(f"var {kw}")
    dd = topoly(ddof if correction is None else correction)
    note_mean(a, axis)

    def fold(d, at):
        n = count_over(d); m = sum_over(d, at) / n
        return sum_over(d, lambda K: (_num(at(K)) - m) * (_num(at(K)) - m)) / (n - dd)
    return _reduce(a, axis, keepdims, fold, "f")


def astd(a, axis=None, dtype=None, ddof=0, keepdims=False, **kw):
    r = avar(a, axis, dtype, ddof, keepdims, **kw)
    return np_sqrt(r)


def aall(a, axis=None, keepdims=False, **kw):
    return _reduce(a, axis, keepdims, all_over, "b")


def aany(a, axis=None, keepdims=False, **kw):
    return _reduce(a, axis, keepdims, lambda d, at: mk_not(all_over(d, lambda K: mk_not(tob(at(K))))), "b")


def _minmax(which):
    def f(a, axis=None, keepdims=False, **kw):
        if kw: raise Unsupported(which)
        a = asarr(a)
        if axis is None and a.ndim != 1:
            a = reshape(a, (-1,))
        axis = 0 if axis is None else axis
        ax = _axes(a, axis)
        if len(ax) != 1: raise Unsupported("min/max over several axes")
        n = a.shape_[ax[0]]
        z = mk_le(P(n))
        if z is not FALSE and E.active:
            if E.decide(z): raise ValueError(f"zero-size array to reduction operation {which}imum which has no identity")

        def fold(d, at):
            c = P(d[0]).const()
            if c is not None and c <= 9:
                r = _num(at((PZERO,)))
                for i in range(1, int(c)):
                    v = _num(at((P(i),)))
                    r = ite(mk_le(v - r) if which == "min" else mk_le(r - v), v, r)
                return r
            r = pred(which, d[0], lambda k: _num(at((k,))))
            E.assume_once(forall(d[0], lambda k: mk_le((r - _num(at((k,)))) if which == "min" else (_num(at((k,))) - r))))
            w = patom(mkatom("app", (f"wit{_theatom(r).id}", ()), True))      # attained somewhere
            E.assume_once(mk_le(-w)); E.assume_once(mk_lt(w - P(d[0])))
            E.assume_once(mk_eq(_num(at((w,))) - r))
            return r
        return _reduce(a, axis, keepdims, fold, a.dtype_)
    return f


amin = _minmax("min"); amax = _minmax("max")


def argminmax(which):
    def f(a, axis=None, **kw):
        if kw: raise Unsupported("arg" + which)
        a = asarr(a)
        if axis is None:
            if a.ndim != 1: a = reshape(a, (-1,))
            axis = 0
        ax = _axes(a, axis)

        def fold(d, at):
            n = P(d[0])
            c = n.const()
            val = lambda k: _num(at((k,)))
            r = pred("arg" + which, n, val)
            E.assume_once(mk_le(-r)); E.assume_once(mk_lt(r - n))
            best = val(r)
            sgn = 1 if which == "max" else -1
            E.assume_once(forall(n, lambda k: mk_le((val(k) - best).scale(sgn))))
            # first occurrence
            E.assume_once(forall(n, lambda k: mk_or(mk_le(r - k), mk_lt((val(k) - best).scale(sgn)))))
            return r
        z = mk_le(P(a.shape_[ax[0]]))
        if z is not FALSE and E.active and E.decide(z):
            raise ValueError(f"attempt to get arg{which} of an empty sequence")
        return _reduce(a, axis, False, fold, "i")
    return f


def np_argsort(a, axis=-1, **kw):
    """A permutation of the index range that sorts the array (uninterpreted choice among ties)."""
    a = asarr(a)
    if a.ndim != 1 or kw: raise Unsupported("argsort")
    n = a.shape_[0]; rd = a.reader()
    if isinstance(n, int) and n <= 3:
        pass
    k0 = E.fresh("k", True, (PZERO, P(n)))
    body, h = T._close(_num(rd((k0,))), k0)
    name = f"perm{P(n).id}_{body.id}"
    pm = lambda i: app(name, (i,), True)
    inv = lambda i: app(name + "_inv", (i,), True)
    E.assume_once(forall(n, lambda k: mk_and(mk_le(-pm(k)), mk_lt(pm(k) - P(n)), mk_eq(inv(pm(k)) - k))))
    E.assume_once(forall(n, lambda k: mk_and(mk_le(-inv(k)), mk_lt(inv(k) - P(n)), mk_eq(pm(inv(k)) - k))))
    E.assume_once(forall(P(n) - 1, lambda k: mk_le(_num(rd((pm(k),))) - _num(rd((pm(k + 1),))))))
    r = SArr.new((n,), lambda J: pm(J[0]), "i")
    return r


# constructors ----------------------------------------------------------------------------------
def shape_of(s):
    if isinstance(s, (int, np.integer, Num)): s = (s,)
    if getattr(s, "_is_slist_", False): s = list(s.values())
    if isinstance(s, SArr): s = s.tolist()
    out = []
    for d in s:
        if isinstance(d, (float, str)) or d is None: raise TypeError(f"'{type(d).__name__}' object cannot be interpreted as an integer")
        d = dim(d)
        neg = mk_lt(P(d))
        if neg is TRUE or (neg is not FALSE and E.active and E.decide(neg)): raise ValueError("negative dimensions are not allowed")
        out.append(d)
    return tuple(out)


def dtype_code(dt, default="f"):
    if dt is None: return default
    if dt in (float, np.float64, np.float32, "float64", "float32", "float", "f"): return "f"
    if dt in (int, np.int64, np.int32, "int", "int64", "i"): return "i"
    if dt in (bool, np.bool_, "bool"): return "b"
    s = str(dt)
    if "float" in s: return "f"
    if "int" in s: return "i"
    if "bool" in s: return "b"
    raise Unsupported(f"dtype {dt}")


def full_const(v, kind="np"):
    def mk(shape, dtype=None, **kw):
        dt = dtype_code(dtype)
        x = P(v) if dt != "b" else bconst(bool(v))
        return SArr.new(shape_of(shape), lambda J: x, dt, kind)
    return mk


np_zeros = full_const(0); np_ones = full_const(1)


def np_full(shape, fill_value, dtype=None, **kw):
    v = asarr(fill_value)
    if v.ndim: raise Unsupported("full with array value")
    dt = v.dtype_ if dtype is None else dtype_code(dtype)
    x = _cast_elem(v.at(), dt)
    return SArr.new(shape_of(shape), lambda J: x, dt)


def np_empty(shape, dtype=None, **kw):
    dt = dtype_code(dtype)
    if dt == "b": raise Unsupported("empty bool")
    name = f"empty!{E.uid()}"
    return SArr.new(shape_of(shape), lambda J: app(name, J, dt == "i"), dt)


def _cast_elem(x, dt):
    if dt == "b": return tob(x)
    x = _num(x)
    if dt == "i" and not x.isint: return ite(mk_le(-x), pfloor(x), -pfloor(-x))
    return x


def like(v):
    def f(a, dtype=None, **kw):
        a = asarr(a)
        dt = a.dtype_ if dtype is None else dtype_code(dtype)
        x = P(v) if dt != "b" else bconst(bool(v))
        return SArr.new(a.shape_, lambda J: x, dt, a.kind)
    return f


def np_eye(n, m=None, dtype=None, kind="np", **kw):
    if kw.get("k"): raise Unsupported("eye k")
    dt = dtype_code(dtype)
    n = dim(n); m = n if m is None else dim(m)
    return SArr.new((n, m), lambda J: ind(mk_eq(J[0] - J[1])), dt, kind)


def np_arange(*args, dtype=None, kind="np", **kw):
    vals = [topoly(a) for a in args]
    start, stop, step = (PZERO, vals[0], PONE) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else PONE)
    n = -pfloor(-((stop - start) / step))
    isint = all(pyof(a) in ("int", "npint") for a in args)
    if not (mk_le(-n) is TRUE) and E.active and not E.decide(mk_le(-n)): n = PZERO
    return SArr.new((dim(n),), lambda J: start + step * J[0], "i" if isint and dtype is None else dtype_code(dtype), kind)


def np_linspace(start, stop, num=50, endpoint=True, kind="np", **kw):
    if any(v for k, v in kw.items() if k not in ("dtype", "device")): raise Unsupported("linspace")
    a, b = topoly(start), topoly(stop)
    if pyof(num) not in ("int", "npint"): raise TypeError("'float' object cannot be interpreted as an integer")
    n = topoly(num)
    if not E.known(mk_le(-n)) is True and E.active and not E.decide(mk_le(-n)):
        raise ValueError(f"Number of samples, {num}, must be non-negative.")
    div = n - 1 if endpoint else n
    if E.active and E.decide(mk_le(div)):        # single (or no) sample
        return SArr.new((dim(n),), lambda J: a, "f", kind)
    step = (b - a) / div
    return SArr.new((dim(n),), lambda J: a + J[0] * step, "f", kind)


def np_array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, (str, bytes, dict)) or x is None: raise Unsupported("array of objects")
    a = asarr(x)
    a = acopy(a)
    if a.kind != "np": a = SArr.new(a.shape_, a.reader(), a.dtype_, "np")
    if dtype is not None: a = aastype(a, dtype)
    return a


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, SArr) and x.kind == "np" and (dtype is None or dtype_code(dtype) == x.dtype_): return x
    return np_array(x, dtype)


def acopy(a, *args, **kw):
    a = asarr(a)
    rd = a.reader()
    return SArr.new(a.shape_, rd, a.dtype_, a.kind)


def aastype(a, dtype, copy=True, **kw):
    a = asarr(a)
    dt = dtype_code(dtype)
    rd = a.reader()
    return SArr.new(a.shape_, lambda J: _cast_elem(rd(J), dt), dt, a.kind)


# structural ------------------------------------------------------------------------------------
def transpose(a, *axes):
    a = asarr(a)
    if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list)) or getattr(axes[0], "_is_slist_", False)):
        axes = axes[0] if not getattr(axes[0], "_is_slist_", False) else list(axes[0].values())
    if not axes: axes = tuple(reversed(range(a.ndim)))
    axes = tuple(int(x) % a.ndim for x in axes)
    if sorted(axes) != list(range(a.ndim)): raise ValueError("axes don't match array")
    sh = tuple(a.shape_[x] for x in axes)
    if a.fn is not None:
        fn = a.fn

        def f(I):
            J = [None] * len(axes)
            for p, x in enumerate(axes): J[x] = I[p]
            return fn(tuple(J))
        return SArr(a.store, sh, a.dtype_, axes=None, kind=a.kind, fn=f)
    new = []
    for ax in a.axes:
        if ax[0] == "c": new.append(ax)
        else: new.append(("v", axes.index(ax[1]), ax[2], ax[3]))
    return SArr(a.store, sh, a.dtype_, axes=tuple(new), kind=a.kind)


def swapaxes(a, i, j):
    a = asarr(a); p = list(range(a.ndim)); p[i], p[j] = p[j], p[i]
    return transpose(a, tuple(p))


def moveaxis(a, s, d):
    a = asarr(a); s %= a.ndim; d %= a.ndim
    p = [i for i in range(a.ndim) if i != s]; p.insert(d, s)
    return transpose(a, tuple(p))


def expand_dims(a, axis):
    a = asarr(a)
    if isinstance(axis, (tuple, list)):
        for x in sorted(axis): a = expand_dims(a, x)
        return a
    nd = a.ndim + 1
    if axis < -nd or axis >= nd: raise np.exceptions.AxisError(axis, nd)
    axis %= nd
    ks = [slice(None)] * a.ndim
    ks.insert(axis, None)
    return IX.basic_view(a, ks)


def squeeze(a, axis=None):
    a = asarr(a)
    if axis is None:
        drop = [i for i, d in enumerate(a.shape_) if deq(d, 1)]
    else:
        axis %= a.ndim
        if not deq(a.shape_[axis], 1):
            if a.kind == "torch": return a
            raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
        drop = [axis]
    return IX.basic_view(a, [0 if i in drop else slice(None) for i in range(a.ndim)])


def reshape(a, *shape):
    a = asarr(a)
    if len(shape) == 1 and (isinstance(shape[0], (tuple, list)) or getattr(shape[0], "_is_slist_", False)):
        shape = shape[0] if not getattr(shape[0], "_is_slist_", False) else list(shape[0].values())
    sh = []
    unk = None
    total = dprod(a.shape_)
    for i, d in enumerate(shape):
        d = dim(d)
        if isinstance(d, int) and d == -1: unk = i; sh.append(None)
        else: sh.append(d)
    if unk is not None:
        rest = dprod([d for d in sh if d is not None])
        if isinstance(total, int) and isinstance(rest, int):
            if rest == 0 or total % rest: raise (RuntimeError if a.kind == "torch" else ValueError)("cannot reshape array")
            sh[unk] = total // rest
        else:
            q = P(total) / P(rest)
            if not q.isint: raise Unsupported("reshape with unknown quotient")
            sh[unk] = dim(q)
    elif not deq(dprod(sh), total):
        raise (RuntimeError if a.kind == "torch" else ValueError)("cannot reshape array")
    sh = tuple(sh)
    old = a.shape_
    if sh == old: return IX.basic_view(a, [slice(None)] * a.ndim)
    # common structure: match leading / trailing equal dims, merge or split the middle
    i = 0
    while i < len(sh) and i < len(old) and (sh[i] is old[i] or sh[i] == old[i]): i += 1
    j = 0
    while j < len(sh) - i and j < len(old) - i and (sh[-1 - j] is old[-1 - j] or sh[-1 - j] == old[-1 - j]): j += 1
    mo, mn = old[i: len(old) - j], sh[i: len(sh) - j]

    def f(I):
        lead, mid, tail = I[:i], I[i: len(sh) - j], I[len(sh) - j:]
        lin = PZERO
        for d, x in zip(mn, mid): lin = lin * P(d) + x
        # unravel lin over mo
        out = []
        rem = lin
        for t, d in enumerate(mo):
            if t == len(mo) - 1: out.append(rem); break
            stride = count_over(mo[t + 1:])
            if isinstance(d, int) and d == 1: out.append(PZERO); continue
            q = int_div(rem, stride)
            out.append(q); rem = rem - q * stride
        return lead + tuple(out) + tail
    if not mo:      # new axes of length one
        f = lambda I: I[:i] + I[len(sh) - j:]
    return a.view_of(sh, f)


def int_div(x: Poly, s: Poly) -> Poly:
    """floor(x / s) for index arithmetic x = q*s + r with 0 <= r < s syntactically."""
    c = s.const()
    if c is not None:
        if c == 1: return x
        return pfloor(x.scale(Fraction(1) / c))
    # split x = q*s + r
    (ms) = list(s.t.items())
    if len(ms) == 1:
        m, c = ms[0]
        q = PZERO; r = x
        for mm, cc in x.t.items():
            d = dict(mm); ok = True
            for a, e in m:
                if d.get(a, 0) < e: ok = False; break
                d[a] -= e
                if d[a] == 0: del d[a]
            if ok:
                k = cc / c
                if k.denominator == 1:
                    term = mkpoly({tuple(sorted(d.items(), key=lambda z: z[0].id)): k})
                    q = q + term; r = r - term * s
        if E.entails(mk_and(mk_le(-r), mk_lt(r - s)), 2000): return q
    return pfloor(x / s)


def ravel(a, *args): return reshape(a, (-1,))


def flatten(a, *args):
    return acopy(reshape(a, (-1,)))


def concatenate(xs, axis=0, kind=None, **kw):
    xs = list(xs.values()) if getattr(xs, "_is_slist_", False) and xs.is_concrete_len() else xs
    if getattr(xs, "_is_slist_", False): return concat_slist(xs, axis, kind or "np")
    if isinstance(xs, SArr):
        if not isinstance(xs.shape_[0], int): raise Unsupported("concatenate symbolic count")
        xs = [xs[i] for i in range(xs.shape_[0])]
    xs = [asarr(x) for x in xs]
    if not xs: raise ValueError("need at least one array to concatenate")
    kind = kind or kind_of(*xs)
    if axis is None: xs = [reshape(x, (-1,)) for x in xs]; axis = 0
    nd = xs[0].ndim
    if nd == 0: raise ValueError("zero-dimensional arrays cannot be concatenated")
    ax = _axes(xs[0], axis)[0]
    for x in xs[1:]:
        if x.ndim != nd: raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        for i in range(nd):
            if i != ax and not deq(x.shape_[i], xs[0].shape_[i]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    dt = _merge_dtype([x.dtype_ for x in xs])
    rds = [x.reader() for x in xs]
    offs = [PZERO]
    for x in xs: offs.append(offs[-1] + P(x.shape_[ax]))
    sh = list(xs[0].shape_); sh[ax] = dim(offs[-1])

    def f(J):
        r = None
        for t in range(len(xs) - 1, -1, -1):
            I = J[:ax] + (J[ax] - offs[t],) + J[ax + 1:]
            if r is None: r = rds[t](I); continue
            c = mk_lt(J[ax] - offs[t + 1])
            k = E.known(c) if E.active else (True if c is TRUE else False if c is FALSE else None)
            if k is True: r = rds[t](I)
            elif k is None:
                v = rds[t](I)
                r = mk_or(mk_and(c, v), mk_and(mk_not(c), r)) if dt == "b" else ite(c, _num(v), _num(r))
        return r
    return SArr.new(sh, f, dt, kind)


def concat_slist(x, axis, kind):
    """Concatenation of a list with symbolic segments (all blocks of one segment equally long)."""
    if axis != 0: raise Unsupported("concatenate symbolic list on inner axis")
    parts = []
    for s in x.segs:
        if s.n is None:
            parts += [asarr(v) for v in s.vals]
        else:
            k = E.fresh("k", True, (PZERO, P(s.n)))
            a = asarr(s.at(k)); ka = _theatom(k)
            if any(isinstance(d, Poly) and ka in d.vars for d in a.shape_): raise Unsupported("ragged concatenate")
            m = a.shape_[0]; rd = a.reader()

            def f(J, rd=rd, ka=ka, m=m):
                q = int_div(J[0], P(m))
                return _sub_reader(rd, (J[0] - q * P(m),) + J[1:], ka, q)
            parts.append(SArr.new((dim(P(s.n) * P(m)),) + a.shape_[1:], f, a.dtype_, a.kind))
    return parts[0] if len(parts) == 1 else concatenate(parts, 0, kind)


def np_stack(xs, axis=0, kind=None, **kw):
    a = asarr(xs if not isinstance(xs, tuple) else list(xs))
    kind = kind or a.kind
    if a.kind != kind: a = SArr.new(a.shape_, a.reader(), a.dtype_, kind)
    return a if axis == 0 else moveaxis(a, 0, axis)


def np_append(arr, values, axis=None):
    if axis is None: return concatenate([reshape(asarr(arr), (-1,)), reshape(asarr(values), (-1,))])
    return concatenate([asarr(arr), asarr(values)], axis)


def np_vstack(xs, **kw):
    xs = list(xs.values()) if getattr(xs, "_is_slist_", False) else list(xs)
    return concatenate([x if asarr(x).ndim > 1 else reshape(asarr(x), (1, -1)) for x in xs], 0)


def np_repeat(a, repeats, axis=None, **kw):
    a = asarr(a)
    if axis is None:
        a = reshape(a, (-1,)); axis = 0
    r = topoly(repeats); ax = _axes(a, axis)[0]
    sh = list(a.shape_); sh[ax] = dim(P(sh[ax]) * r)
    rd = a.reader()
    return SArr.new(sh, lambda J: rd(J[:ax] + (int_div(J[ax], r),) + J[ax + 1:]), a.dtype_, a.kind)


def np_tile(a, reps, **kw):
    a = asarr(a)
    if isinstance(reps, (tuple, list)) or getattr(reps, "_is_slist_", False):
        reps = list(reps.values()) if getattr(reps, "_is_slist_", False) else list(reps)
    else: reps = [reps]
    reps = [topoly(r) for r in reps]
    while len(reps) < a.ndim: reps.insert(0, PONE)
    while a.ndim < len(reps): a = expand_dims(a, 0)
    rd = a.reader(); old = a.shape_
    sh = tuple(dim(P(d) * r) for d, r in zip(old, reps))
    return SArr.new(sh, lambda J: rd(tuple(j if r.const() == 1 else j - int_div(j, P(d)) * P(d) for j, d, r in zip(J, old, reps))), a.dtype_, a.kind)


def np_broadcast_to(a, shape, **kw):
    a = asarr(a); sh = shape_of(shape)
    bshape(a.shape_, sh)
    rd = bread(a, sh)
    return SArr.new(sh, rd, a.dtype_, a.kind)


def np_diff(a, n=1, axis=-1, **kw):
    if n != 1 or kw: raise Unsupported("diff n")
    a = asarr(a)
    ax = _axes(a, axis)[0]
    L = P(a.shape_[ax]) - 1
    if not E.known(mk_le(-L)) is True and E.active and not E.decide(mk_le(-L)): L = PZERO
    sh = list(a.shape_); sh[ax] = dim(L)
    rd = a.reader()
    return SArr.new(sh, lambda J: _num(rd(J[:ax] + (J[ax] + 1,) + J[ax + 1:])) - _num(rd(J)), a.dtype_, a.kind)


def np_where(c, *xy):
    if not xy: return np_nonzero(c)
    a, b = xy
    kind = kind_of(c, a, b)
    c = asarr(c, kind); a = asarr(a, kind); b = asarr(b, kind)
    sh = bshape(c.shape_, a.shape_, b.shape_)
    rc, ra, rb = bread(c, sh), bread(a, sh), bread(b, sh)
    dt = _merge_dtype([a.dtype_, b.dtype_])
    if dt == "b":
        return SArr.new(sh, lambda J: mk_or(mk_and(tob(rc(J)), ra(J)), mk_and(mk_not(tob(rc(J))), rb(J))), "b", kind)
    r = SArr.new(sh, lambda J: ite(tob(rc(J)), _num(ra(J)), _num(rb(J))), dt, kind)
    return r


def np_nonzero(a):
    a = asarr(a)
    if a.ndim != 1: raise Unsupported("nonzero of matrix")
    idx = np_arange(dval(a.shape_[0]))
    m = emapb(lambda x: x, a)
    return (IX.getitem(idx, m),)


def np_einsum(spec, *ops, kind=None, **kw):
    if kw.get("optimize") is not None: kw.pop("optimize")
    if kw: raise Unsupported("einsum kwargs")
    kind = kind_of(*ops)
    ops = [asarr(o, kind) for o in ops]
    spec = spec.replace(" ", "")
    if "." in spec: raise Unsupported("einsum ellipsis")
    if "->" in spec: ins, out = spec.split("->")
    else:
        ins = spec
        letters = ins.replace(",", "")
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops): raise ValueError("more operands provided to einstein sum function than specified in the subscripts string")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim: raise ValueError("einstein sum subscripts string does not match operand dimensions")
        for c, d in zip(s, o.shape_):
            if c in dims:
                if not deq(dims[c], d): raise ValueError("operands could not be broadcast together")
                if isinstance(d, int): dims[c] = d
            else: dims[c] = d
    free = [c for c in dims if c not in out]
    rds = [o.reader() for o in ops]

    def f(J):
        env = dict(zip(out, J))

        def rec(i):
            if i == len(free):
                r = PONE
                for s, rd in zip(ins, rds): r = r * _num(rd(tuple(env[c] for c in s)))
                return r

            def body(k):
                env[free[i]] = k
                return rec(i + 1)
            return psum(dims[free[i]], body)
        return rec(0)
    return _out(SArr.new(tuple(dims[c] for c in out), f, _merge_dtype([o.dtype_ for o in ops]), kind))


def np_dot(a, b, **kw):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: return binop("mul", a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        try: return matmul(a, b)
        except ValueError: raise ValueError("shapes not aligned")
    raise Unsupported("dot of high-dimensional arrays")


def np_tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        xa = list(range(a.ndim - axes, a.ndim)); xb = list(range(axes))
    else:
        xa, xb = [list(x.values()) if getattr(x, "_is_slist_", False) else ([x] if isinstance(x, int) else list(x)) for x in axes]
    L = "abcdefghijklmnopqrstuvwxyz"
    sa = list(L[: a.ndim]); sb = list(L[a.ndim: a.ndim + b.ndim])
    for i, j in zip(xa, xb): sb[j] = sa[i]
    out = [c for i, c in enumerate(sa) if i not in [x % a.ndim for x in xa]] + [c for j, c in enumerate(sb) if j not in [x % b.ndim for x in xb]]
    return np_einsum("".join(sa) + "," + "".join(sb) + "->" + "".join(out), a, b)


def np_outer(a, b, **kw):
    return np_einsum("i,j->ij", ravel(a), ravel(b))


def np_cross(a, b, **kw):
    kind = kind_of(a, b)
    a, b = asarr(a, kind), asarr(b, kind)
    dimk = kw.get("dim", kw.get("axis", -1))
    if dimk not in (-1, None, a.ndim - 1) : raise Unsupported("cross axis")
    sh = bshape(a.shape_, b.shape_)
    if not deq(sh[-1], 3): raise ValueError("cross of non 3-vectors")
    ra, rb = bread(a, sh), bread(b, sh)

    def comp(J, i):
        j, k = (i + 1) % 3, (i + 2) % 3
        B_ = J[:-1]
        return ra(B_ + (P(j),)) * rb(B_ + (P(k),)) - ra(B_ + (P(k),)) * rb(B_ + (P(j),))
    return SArr.new(sh[:-1] + (3,), lambda J: _pick(J[-1], 3, lambda i: comp(J, i), "f"), "f", kind)


def np_trace(a, *args, **kw):
    a = asarr(a)
    if args or kw: raise Unsupported("trace axes")
    if a.ndim != 2: raise Unsupported("trace")
    n = a.shape_[0]
    if not deq(n, a.shape_[1]): raise Unsupported("trace non-square")
    rd = a.reader()
    return _out(SArr.new((), lambda J: psum(n, lambda k: _num(rd((k, k)))), a.dtype_, a.kind))


# elementary functions --------------------------------------------------------------------------
def ufunc1(f, dt=None):
    def g(x, *args, **kw):
        if args or kw: raise Unsupported("ufunc out/where")
        if isinstance(x, (str, bytes, dict)) or x is None: raise TypeError("ufunc not supported for the input types")
        return emap(f, x, dt)
    return g


np_sqrt = ufunc1(psqrt, "f")
np_exp = ufunc1(pexp, "f")
np_abs = ufunc1(pabs)
np_floor = ufunc1(pfloor, "f")
np_ceil = ufunc1(lambda x: -pfloor(-x), "f")


def _rint(x: Poly):
    """Round half to even."""
    if x.isint: return x
    h = pfloor(x + Fraction(1, 2))
    tie = mk_eq(x + Fraction(1, 2) - h)
    odd = mk_not(mk_eq(h - pfloor(h.scale(Fraction(1, 2))).scale(2)))
    return h - ind(mk_and(tie, odd))


np_rint = ufunc1(_rint, "f")


def np_round(x, decimals=0, **kw):
    d = int(decimals)
    s = Fraction(10) ** d
    return emap(lambda v: _rint(v.scale(s)).scale(1 / s), x)


def np_sign(x, **kw):
    return emap(lambda v: ind(mk_lt(-v)) - ind(mk_lt(v)), x)


def np_log(x, **kw): return emap(lambda v: app("log", (v,)), x, "f")


def uf1(name):
    def g(x, *a, **kw):
        if a or kw: raise Unsupported(name)
        return emap(lambda v: P(float(getattr(np, name)(float(v.const())))) if v.const() is not None else app(name, (v,)), x, "f")
    return g


def np_real(a):
    if isinstance(a, CArr): return a.real
    return a if isinstance(a, SArr) else asarr(a)


def np_square(a): return binop("mul", a, a)


def np_maximum(a, b, **kw):
    return np_where(binop("ge", a, b), a, b)


def np_minimum(a, b, **kw):
    return np_where(binop("le", a, b), a, b)


def np_clip(a, lo=None, hi=None, **kw):
    if lo is not None: a = np_maximum(a, lo)
    if hi is not None: a = np_minimum(a, hi)
    return a


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    kind = kind_of(a, b)
    if isinstance(a, (str, dict)) or a is None or isinstance(b, (str, dict)) or b is None:
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    a, b = asarr(a, kind), asarr(b, kind)
    sh = bshape(a.shape_, b.shape_)
    ra, rb = bread(a, sh), bread(b, sh)
    rt, at = topoly(rtol), topoly(atol)
    return _out(SArr.new(sh, lambda J: mk_le(pabs(_num(ra(J)) - _num(rb(J))) - at - rt * pabs(_num(rb(J)))), "b", kind))


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return aall(np_isclose(a, b, rtol, atol))


def np_array_equal(a, b, **kw):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim: return False
    for d, e in zip(a.shape_, b.shape_):
        if not deq(d, e): return False
    return aall(asarr(binop("eq", a, b)))


def np_norm(a, ord=None, axis=None, keepdims=False, dim=None, **kw):
    if ord not in (None, 2, "fro") or kw: raise Unsupported("norm ord")
    a = asarr(a)
    axis = dim if dim is not None else axis
    if axis is None and ord == 2 and a.ndim == 2: raise Unsupported("spectral norm")
    return _reduce(a, axis, keepdims, lambda d, at: psqrt(sum_over(d, lambda K: _num(at(K)) * _num(at(K)))), "f")


def adj3(rd, i, j):
    """Adjugate entry (i,j) of a 3x3 matrix reader."""
    r = [x for x in range(3) if x != j]; c = [x for x in range(3) if x != i]
    v = rd(r[0], c[0]) * rd(r[1], c[1]) - rd(r[0], c[1]) * rd(r[1], c[0])
    return v if (i + j) % 2 == 0 else -v


def det3(rd):
    return (rd(0, 0) * (rd(1, 1) * rd(2, 2) - rd(1, 2) * rd(2, 1)) - rd(0, 1) * (rd(1, 0) * rd(2, 2) - rd(1, 2) * rd(2, 0))
            + rd(0, 2) * (rd(1, 0) * rd(2, 1) - rd(1, 1) * rd(2, 0)))


def np_inv(a, *args, **kw):
    a = asarr(a)
    if a.ndim < 2: raise np.linalg.LinAlgError("array must be at least two-dimensional")
    if not deq(a.shape_[-1], 3) or not deq(a.shape_[-2], 3):
        if not deq(a.shape_[-1], a.shape_[-2]): raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        raise Unsupported("inverse of non-3x3")
    rd = a.reader()

    def f(J):
        B_ = J[:-2]
        at = lambda i, j: _num(rd(B_ + (P(i), P(j))))
        d = det3(at)
        if not d.t: raise np.linalg.LinAlgError("Singular matrix")

        def pick(i):
            return _pick(J[-1], 3, lambda j: adj3(at, i, j) / d, "f")
        return _pick(J[-2], 3, pick, "f")
    if a.ndim == 2:
        d = det3(lambda i, j: _num(rd((P(i), P(j)))))
        z = mk_eq(d)
        if E.active and z is not FALSE:
            if E.decide(z): raise np.linalg.LinAlgError("Singular matrix")
        E.notes.add("np.linalg.inv: exact inverse of matrices with nonzero determinant")
    else: note_div(a)
    return SArr.new(a.shape_, f, "f", a.kind)


def np_det(a):
    a = asarr(a)
    if a.ndim != 2 or not deq(a.shape_[0], 3): raise Unsupported("det")
    rd = a.reader()
    return Num(det3(lambda i, j: _num(rd((P(i), P(j))))), "npfloat")


def np_matrix_rank(a, *args, **kw):
    a = asarr(a)
    if a.ndim != 2 or not deq(a.shape_[0], 3) or not deq(a.shape_[1], 3) or args or kw: raise Unsupported("matrix_rank")
    rd = a.reader(); d = det3(lambda i, j: _num(rd((P(i), P(j)))))
    E.notes.add("np.linalg.matrix_rank: 3 exactly for matrices with nonzero determinant")
    if not E.decide(mk_eq(d)): return 3
    r = app("rank", (d,), True); E.assume_once(mk_le(-r)); E.assume_once(mk_le(r - 2)); return wrap(r, "npint")


def np_unravel_index(idx, shape, order="C"):
    sh = shape_of(shape)
    rem = topoly(idx); out = []
    for t in range(len(sh)):
        if t == len(sh) - 1: out.append(rem); break
        st = count_over(sh[t + 1:])
        q = int_div(rem, st); out.append(q); rem = rem - q * st
    return tuple(wrap(o, "npint") for o in out)


def finite(t):
    """Real arithmetic is finite; numbers read from text need not be."""
    if isinstance(t, B): return TRUE
    nums = lambda m: [a for x, _ in m for a in prover.atoms_of(patom(x)) if a.kind == "app" and a.args[0] == "num"]
    coef = {}
    for m, c in t.t.items():          # the terms by their factors other than indicators of conditions
        rest = tuple((a, e) for a, e in m if a.kind != "ind")
        if not nums(rest): continue
        coef[rest] = coef.get(rest, PZERO) + mkpoly({tuple((a, e) for a, e in m if a.kind == "ind"): c})
    need = [mk_or(mk_eq(c), mk_and(*[T.bapp("finite", a.args[1]) for a in nums(rest)])) for rest, c in coef.items()]
    return mk_and(*need) if need else TRUE


def np_isfinite(x):
    x = asarr(x)
    if x.dtype_ == "f":
        rd = x.reader()
        return _out(SArr.new(x.shape_, lambda J: finite(rd(J)), "b"))
    return emapb(lambda b: TRUE, asarr(x)) if asarr(x).dtype_ == "b" else _out(SArr.new(asarr(x).shape_, lambda J: TRUE, "b"))


def np_isnan(x):
    x = asarr(x)
    if E.active and x.ndim == 0 and finite(x.at()) is not TRUE: raise Unsupported("isnan of a number read from text")
    return _out(SArr.new(asarr(x).shape_, lambda J: FALSE, "b"))


def np_iscloselike_shape(a): return asarr(a).shape


def np_flip(a, axis=None):
    a = asarr(a)
    ax = _axes(a, axis)
    return IX.basic_view(a, [slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim)])


def np_roll(a, shift, axis=None):
    a = asarr(a)
    if axis is None or isinstance(axis, tuple): raise Unsupported("roll")
    ax = _axes(a, axis)[0]; n = P(a.shape_[ax]); s = topoly(shift); rd = a.reader()

    def f(J):
        i = J[ax] - s
        i = i - n * pfloor(i / n)
        return rd(J[:ax] + (i,) + J[ax + 1:])
    return SArr.new(a.shape_, f, a.dtype_, a.kind)


def np_cumsum(a, axis=None, **kw):
    a = asarr(a)
    if a.ndim != 1: raise Unsupported("cumsum")
    rd = a.reader()
    return SArr.new(a.shape_, lambda J: psum(J[0] + 1, lambda k: _num(rd((k,)))), a.dtype_, a.kind)


def np_copyto(dst, src, **kw):
    if kw: raise Unsupported("copyto")
    IX.write_view(dst, asarr(src))


# scipy -----------------------------------------------------------------------------------------
def sp_correlate(a, v, mode="full", method="auto"):
    """correlate(x, y)[i] = sum_l x[l] y[l - i + N_y - 1]  (documented definition, real input)."""
    a, v = asarr(a), asarr(v)
    if a.ndim != 1 or v.ndim != 1: raise Unsupported("correlate nd")
    na, nv = P(a.shape_[0]), P(v.shape_[0])
    ra, rv = a.reader(), v.reader()

    def zero(i):       # x[l] y[l - i + nv - 1]
        def term(l):
            j = l - i + nv - 1
            g = mk_and(mk_le(-j), mk_lt(j - nv))
            return _num(ra((l,))) * _num(rv((j,))) * ind(g)
        return psum(na, term)
    if mode == "full": off, n = PZERO, na + nv - 1
    elif mode == "same": off, n = pfloor((nv - 1).scale(Fraction(1, 2))), na
    elif mode == "valid": off, n = nv - 1, na - nv + 1
    else: raise ValueError("mode must be full, valid or same")
    if mode == "same": raise Unsupported("correlate same")
    return SArr.new((dim(n),), lambda J: zero(J[0] + off), "f")


def sp_fft(a, n=None, axis=-1, **kw):
    """Discrete Fourier transform, kept as (real part) array plus imaginary reader: only real parts are used."""
    a = asarr(a)
    if n is not None or a.ndim != 1 or kw: raise Unsupported("fft arguments")
    N = P(a.shape_[0]); rd = a.reader()

    def re(J):
        return psum(N, lambda k: _num(rd((k,))) * pcos(J[0] * k * 2 / N))
    r = SArr.new((a.shape_[0],), re, "f")
    im = SArr.new((a.shape_[0],), lambda J: -psum(N, lambda k: _num(rd((k,))) * app("sinpi", (J[0] * k * 2 / N,))), "f")
    return CArr(r, im)


def pcos(x):
    """cos(pi x)"""
    c = x.const()
    if c is not None and c.denominator == 1: return P(1 if c.numerator % 2 == 0 else -1)
    return app("cospi", (x,))


class CArr:
    """Complex array: only its real and imaginary parts can be observed."""
    _is_sym_ = True

    def __init__(self, re, im): self.real, self.imag = re, im
    @property
    def shape(self): return self.real.shape
    def __getitem__(self, k): return CArr(self.real[k], self.imag[k])
    def __len__(self): return len(self.real)


def sp_fftfreq(n, d=1.0, **kw):
    N = topoly(n); D = topoly(d)
    half = pfloor((N - 1).scale(Fraction(1, 2))) + 1
    check_nonzero(D)
    E.notes.add("fftfreq: sample spacing and length assumed nonzero")
    return SArr.new((dim(N),), lambda J: (J[0] - N * ind(mk_le(half - J[0]))) / (N * D), "f")


def sp_cspl(*a, **k): raise Unsupported("spline construction")


# ----------------------------------------------------------------------------------------------
def _bool_or_count(a):
    return a


def count_nonzero(a, axis=None, **kw):
    a = asarr(a)
    return _reduce(a, axis, False, lambda d, at: sum_over(d, lambda K: ind(tob(at(K)))), "i")


def array_attr(a: SArr, name):
    if a.kind == "torch":
        from . import torchmodel
        r = torchmodel.attr(a, name)
        if r is not NotImplemented: return r
    if name == "T":
        return transpose(a)
    if name == "real": return a
    if name == "flat": return flatten(a)
    m = METHODS.get(name)
    if m is not None:
        def bound(*args, **kw): return m(a, *args, **kw)
        bound.__name__ = name
        return bound
    raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}' (or it is not modelled)") if not hasattr(np.ndarray, name) and a.kind == "np" else Unsupported(f"ndarray.{name}")


def m_fill(a, v):
    IX.write_view(a, asarr(v))


METHODS = {
    "copy": acopy, "astype": aastype, "sum": asum, "mean": amean, "std": astd, "var": avar, "min": amin, "max": amax,
    "all": aall, "any": aany, "reshape": reshape, "ravel": ravel, "flatten": flatten, "transpose": transpose,
    "swapaxes": swapaxes, "squeeze": squeeze, "dot": np_dot, "argmax": argminmax("max"), "argmin": argminmax("min"),
    "round": np_round, "clip": np_clip, "fill": m_fill, "argsort": np_argsort, "nonzero": np_nonzero, "trace": np_trace,
    "repeat": np_repeat, "cumsum": np_cumsum, "conj": lambda a: a, "conjugate": lambda a: a,
}


def build_registry():
    import scipy, scipy.signal, scipy.fftpack, scipy.fft
    R = {}

    def reg(fn, model, name=None): R[fn] = model
    for n, m in {
        "zeros": np_zeros, "ones": np_ones, "full": np_full, "empty": np_empty, "zeros_like": like(0), "ones_like": like(1),
        "empty_like": like(0), "eye": np_eye, "identity": np_eye, "arange": np_arange, "linspace": np_linspace, "array": np_array,
        "asarray": np_asarray, "asanyarray": np_asarray, "ascontiguousarray": np_asarray, "copy": acopy, "transpose": transpose, "swapaxes": swapaxes,
        "moveaxis": moveaxis, "expand_dims": expand_dims, "squeeze": squeeze, "reshape": reshape, "ravel": ravel,
        "concatenate": concatenate, "stack": np_stack, "append": np_append, "vstack": np_vstack, "repeat": np_repeat, "tile": np_tile,
        "broadcast_to": np_broadcast_to, "diff": np_diff, "where": np_where, "nonzero": np_nonzero, "einsum": np_einsum,
        "dot": np_dot, "matmul": matmul, "tensordot": np_tensordot, "outer": np_outer, "cross": np_cross, "trace": np_trace,
        "sum": asum, "mean": amean, "std": astd, "var": avar, "min": amin, "max": amax, "amin": amin, "amax": amax, "all": aall, "any": aany,
        "argmax": argminmax("max"), "argmin": argminmax("min"), "argsort": np_argsort, "sqrt": np_sqrt, "exp": np_exp, "abs": np_abs,
        "absolute": np_abs, "fabs": np_abs, "floor": np_floor, "ceil": np_ceil, "rint": np_rint, "round": np_round, "sign": np_sign, "real": np_real,
        "square": np_square, "maximum": np_maximum, "minimum": np_minimum, "clip": np_clip, "isclose": np_isclose,
        "allclose": np_allclose, "array_equal": np_array_equal, "unravel_index": np_unravel_index, "isfinite": np_isfinite, "isnan": np_isnan,
        "flip": np_flip, "roll": np_roll, "cumsum": np_cumsum, "count_nonzero": count_nonzero, "copyto": np_copyto,
        "cos": uf1("cos"), "sin": uf1("sin"), "log": uf1("log"), "arccos": uf1("arccos"),
        "add": lambda a, b: binop("add", a, b), "subtract": lambda a, b: binop("sub", a, b), "multiply": lambda a, b: binop("mul", a, b),
        "divide": lambda a, b: binop("truediv", a, b), "true_divide": lambda a, b: binop("truediv", a, b), "mod": lambda a, b: binop("mod", a, b),
        "remainder": lambda a, b: binop("mod", a, b), "floor_divide": lambda a, b: binop("floordiv", a, b), "power": lambda a, b: binop("pow", a, b),
        "logical_and": lambda a, b: binop("and", emapb(lambda x: x, a), emapb(lambda x: x, b)),
        "logical_or": lambda a, b: binop("or", emapb(lambda x: x, a), emapb(lambda x: x, b)),
        "logical_not": lambda a: emapb(mk_not, a), "negative": lambda a: emap(lambda x: -x, a),
        "shape": lambda a: asarr(a).shape, "ndim": lambda a: asarr(a).ndim, "size": lambda a: asarr(a).size,
        "less": lambda a, b: binop("lt", a, b), "greater": lambda a, b: binop("gt", a, b),
        "atleast_1d": lambda a: asarr(a) if asarr(a).ndim else reshape(asarr(a), (1,)),
        "atleast_2d": lambda a: asarr(a) if asarr(a).ndim > 1 else reshape(asarr(a), (1, -1)),
    }.items():
        R[getattr(np, n)] = m
    L = np.linalg
    R[L.norm] = np_norm; R[L.inv] = np_inv; R[L.det] = np_det; R[L.matrix_rank] = np_matrix_rank
    R[scipy.signal.correlate] = sp_correlate
    R[scipy.fftpack.fft] = sp_fft; R[scipy.fftpack.fftfreq] = sp_fftfreq
    R[np.fft.fft] = sp_fft; R[np.fft.fftfreq] = sp_fftfreq; R[scipy.fft.fft] = sp_fft; R[scipy.fft.fftfreq] = sp_fftfreq
    return R


def sp_get_symmetry(cell, symprec=1e-5, angle_tolerance=-1.0, **kw):
    """Assumed contract of spglib.get_symmetry: a non-empty list of operations (integer rotations,
    translations) and representatives of equivalent atoms (a representative represents itself and
    is not after its equivalents)."""
    from .values import PDict
    lat, pos, nums = cell
    n = topoly(I_len(nums))
    k = E.uid()
    ns = T.var(f"nsym{k}", True, (PONE, None))
    R = SArr.new((dim(ns), 3, 3), lambda J: app(f"symrot{k}", J, True), "i")
    t = SArr.new((dim(ns), 3), lambda J: app(f"symtrans{k}", J), "f")
    nm = f"symequiv{k}"
    T.APP_RNG[nm] = (PZERO, n)

    def eq(J):
        v = app(nm, J, True)
        E.assume_once(mk_le(v - J[0]))
        E.assume_once(mk_eq(app(nm, (v,), True) - v))
        return v
    e = SArr.new((dim(n),), eq, "i")
    E.notes.add("assumed: spglib.get_symmetry returns a non-empty list of operations")
    d = PDict()
    for a, b in (("rotations", R), ("translations", t), ("equivalent_atoms", e)): dict.__setitem__(d, a, b)
    return d


_symcount = itertools.count()


def I_len(x):
    from . import interp
    return interp.b_len(x)


_build0 = build_registry


def build_registry():
    R = _build0()
    try:
        import spglib
        R[spglib.get_symmetry] = sp_get_symmetry
    except ImportError: pass
    return R
