"""numpy/torch indexing semantics on SArr: views for basic indexing, copies for advanced indexing."""
from __future__ import annotations
import numpy as np
from .sym import *
from .sym import SArr, Store
from .terms import *


def _isint(k):
    if isinstance(k, (bool, np.bool_)): return False
    if isinstance(k, (int, np.integer)): return True
    if isinstance(k, Num) and k.py in ("int", "npint"): return True
    if isinstance(k, SArr) and k.ndim == 0 and k.dtype_ == "i": return True
    if type(k).__module__.startswith("torch") and getattr(k, "ndim", 1) == 0 and "int" in str(k.dtype): return True
    return False


def norm_index(i, n, axis=0):
    """In-range, non-negative index term (forks to IndexError)."""
    i = topoly(i); n = P(n)
    nonneg = mk_le(-i)
    if nonneg is not TRUE:
        if nonneg is FALSE or not E.decide(nonneg):
            i = i + n
            if not E.decide(mk_le(-i)):
                raise IndexError(f"index is out of bounds for axis {axis} with size {n}")
    if not E.decide(mk_lt(i - n)):
        raise IndexError(f"index is out of bounds for axis {axis} with size {n}")
    return i


def norm_slice(s: slice, n):
    """-> (start, step, length)."""
    n = P(n)
    step = 1 if s.step is None else s.step
    if isinstance(step, Num): step = int(step)
    step = int(step)
    if step == 0: raise ValueError("slice step cannot be zero")

    def clip(v, lo, hi):
        v = topoly(v)
        if not E.decide(mk_le(-v)):
            v = v + n
        if not E.decide(mk_le(lo - v)): return lo
        if not E.decide(mk_le(v - hi)): return hi
        return v
    if step > 0:
        start = PZERO if s.start is None else clip(s.start, PZERO, n)
        stop = n if s.stop is None else clip(s.stop, PZERO, n)
        ln = stop - start
        if step != 1: ln = pfloor((ln + (step - 1)).scale(Fraction(1, step)))
    else:
        start = n - 1 if s.start is None else clip(s.start, P(-1), n - 1)
        stop = P(-1) if s.stop is None else clip(s.stop, P(-1), n - 1)
        ln = pfloor((start - stop + (-step - 1)).scale(Fraction(1, -step)))
    c = mk_le(-ln)
    if c is not TRUE and not E.decide(c): ln = PZERO
    return start, step, dim(ln)


def _as_adv(k, kind):
    """Advanced index component -> SArr of ints or bools, or None."""
    from . import npmodel as N
    if isinstance(k, SArr): return k
    if isinstance(k, (list, np.ndarray)) or getattr(k, "_is_slist_", False) or type(k).__module__.startswith("torch"):
        a = N.asarr(k)
        if a.dtype_ == "f" and dprod(a.shape_) == 0: a = SArr(a.store, a.shape_, "i")
        return a
    if isinstance(k, (Bl, bool, np.bool_)):
        return None
    if isinstance(k, range): return N.asarr(list(k))
    return None


def expand_key(a, key):
    if not isinstance(key, tuple): key = (key,)
    out = []
    nused = 0
    for k in key:
        if k is None or k is Ellipsis: continue
        adv = _as_adv(k, a.kind)
        nused += adv.ndim if (adv is not None and adv.dtype_ == "b") else 1
    if nused > a.ndim: raise IndexError("too many indices for array")
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen: raise IndexError("an index can only have a single ellipsis ('...')")
            seen = True
            out += [slice(None)] * (a.ndim - nused)
        else: out.append(k)
    if not seen: out += [slice(None)] * (a.ndim - nused)
    return out


def getitem(a: SArr, key):
    if isinstance(key, str): raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    ks = expand_key(a, key)
    for k in ks:
        if not (k is None or isinstance(k, slice) or _isint(k) or _as_adv(k, a.kind) is not None):
            if isinstance(k, (Bl, bool, np.bool_)): raise Unsupported("boolean scalar index")
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if any(_as_adv(k, a.kind) is not None and not _isint(k) for k in ks):
        return _adv_get(a, ks)
    v = basic_view(a, ks)
    if v.ndim == 0 and a.kind == "np" and not (isinstance(key, tuple) and Ellipsis in [k for k in key if k is Ellipsis]):
        return v._scalar(v.at())
    return v


def basic_view(a: SArr, ks):
    # per source axis: ('c', idx) or ('v', newaxis, start, step)
    src = []; shape = []; ax = 0
    for k in ks:
        if k is None:
            shape.append(1); continue
        n = a.shape_[ax]
        if isinstance(k, slice):
            st, step, ln = norm_slice(k, n)
            src.append(("v", len(shape), st, step)); shape.append(ln)
        else:
            src.append(("c", norm_index(k, n, ax)))
        ax += 1
    if a.fn is not None:
        fn = a.fn

        def f(I):
            J = []
            for s in src:
                J.append(s[1] if s[0] == "c" else s[2] + I[s[1]].scale(s[3]))
            return fn(tuple(J))
        r = SArr(a.store, shape, a.dtype_, axes=None, kind=a.kind, fn=f)
        return r
    axes = []
    for x in a.axes:
        if x[0] == "c": axes.append(x)
        else:
            _, v, off, step = x
            s = src[v]
            if s[0] == "c": axes.append(("c", off + s[1].scale(step)))
            else: axes.append(("v", s[1], off + s[2].scale(step), step * s[3]))
    return SArr(a.store, shape, a.dtype_, axes=tuple(axes), kind=a.kind)


def _adv_get(a: SArr, ks):
    """Advanced indexing (result is a copy)."""
    kinds = []
    for k in ks:
        adv = None if (k is None or isinstance(k, slice)) else _as_adv(k, a.kind)
        kinds.append(adv)
    # boolean masks
    bools = [i for i, x in enumerate(kinds) if x is not None and x.dtype_ == "b"]
    if bools:
        if len(bools) > 1 or any(x is not None and x.dtype_ != "b" for x in kinds):
            raise Unsupported("mixed boolean indexing")
        return _compress(a, ks, bools[0], kinds[bools[0]])
    # integer arrays: move scalar ints along
    idxs = []; pos = []
    ax = 0
    plan = []                # per source axis: ('s', slice) or ('a', k)
    out_nonadv = []
    first = None; contiguous = True; last = None
    for i, k in enumerate(ks):
        if k is None:
            plan.append(("n",)); continue
        if isinstance(k, slice):
            st, step, ln = norm_slice(k, a.shape_[ax])
            plan.append(("s", st, step, ln)); ax += 1; continue
        if kinds[i] is None or _isint(k):
            arr = SArr.new((), lambda J, v=norm_index(k, a.shape_[ax], ax): v, "i")
        else:
            arr = kinds[i]
            if arr.dtype_ != "i": raise IndexError("arrays used as indices must be of integer (or boolean) type")
            arr = _wrapneg(arr, a.shape_[ax], ax)
        plan.append(("a", arr)); ax += 1
        if first is None: first = i
        elif last != i - 1: contiguous = False
        last = i
    advs = [p[1] for p in plan if p[0] == "a"]
    bs = bshape(*[x.shape_ for x in advs])
    rds = [bread(x, bs) for x in advs]
    shape = []; where = None
    layout = []
    if not contiguous:
        where = 0; shape += list(bs)
    for p in plan:
        if p[0] == "a":
            if contiguous and where is None:
                where = len(shape); shape += list(bs)
        elif p[0] == "n": shape.append(1)
        else:
            layout.append(len(shape)); shape.append(p[3])
    nb = len(bs); rd = a.reader()

    def f(I):
        BI = I[where: where + nb]
        J = []; li = 0; ai = 0
        for p in plan:
            if p[0] == "a":
                J.append(P(rds[ai](BI))); ai += 1
            elif p[0] == "s":
                J.append(p[1] + I[layout[li]].scale(p[2])); li += 1
        return rd(tuple(J))
    return SArr.new(shape, f, a.dtype_, a.kind)


def _wrapneg(arr: SArr, n, axis):
    """Bounds-check an index array; negative entries wrap (forks to IndexError)."""
    rd = arr.reader(); n = P(n)
    sh = arr.shape_

    def allidx(pred):
        def rec(i, I):
            if i == len(sh): return pred(rd(I))
            return forall(sh[i], lambda k: rec(i + 1, I + (k,)))
        return rec(0, ())
    inb = allidx(lambda v: mk_and(mk_le(-v - n), mk_lt(v - n)))
    if inb is not TRUE:
        if E.known(inb) is None and E.entails(inb, 1500): E.assume(inb)
        elif not E.decide(inb):
            raise IndexError(f"index is out of bounds for axis {axis} with size {n}")
    nonneg = allidx(lambda v: mk_le(-v))
    if nonneg is TRUE or E.known(nonneg) is True or E.entails(nonneg, 1500): return arr
    return SArr.new(sh, lambda J: ite(mk_lt(rd(J)), rd(J) + n, rd(J)), "i", arr.kind)


def mask_prefix(n, mask_at):
    """If mask is exactly {k < m} for a simple m, return m (proved), else None."""
    n = P(n)
    cands = [n, PZERO, pfloor((n + 1).scale(Fraction(1, 2))), pfloor(n.scale(Fraction(1, 2))),
             pfloor(n.scale(Fraction(1, 2))) + 1, n - 1]
    k = E.fresh("k", True, (PZERO, n))
    b = mask_at(k)
    for m in cands:
        want = mk_lt(k - m)
        iff = mk_and(mk_or(mk_not(b), want), mk_or(b, mk_not(want)))
        if iff is TRUE or prover.prove(iff, E.pc + [mk_le(-k), mk_lt(k - n)], 3000).status == "proved":
            return dim(m)
    return None


def _compress(a: SArr, ks, pos, mask: SArr):
    if mask.ndim != 1: raise Unsupported("multi-dimensional boolean index")
    ax = sum(1 for k in ks[:pos] if k is not None)
    n = a.shape_[ax]
    if not deq(n, mask.shape_[0]):
        raise IndexError("boolean index did not match indexed array along axis")
    mrd = mask.reader()
    m = mask_prefix(n, lambda k: mrd((k,)))
    if m is not None:
        ks = list(ks)
        r = basic_view(a, [slice(0, dval(m)) if i == pos else k for i, k in enumerate(ks)])
        return r.copy()
    if isinstance(n, int):
        # constant length: fork on every element
        keep = [i for i in range(n) if E.decide(tob(mrd((P(i),))))]
        return _adv_get(a, [keep if i == pos else k for i, k in enumerate(ks)]) if keep else \
            basic_view(a, [slice(0, 0) if i == pos else k for i, k in enumerate(ks)]).copy()
    # general: opaque order-preserving selection, identified by the mask
    k0 = E.fresh("k", True, (PZERO, P(n)))
    body, h = T._close(ind(tob(mrd((k0,)))), k0)
    name = f"sel{P(n).id}_{body.id}"
    cnt = psum(n, lambda k: ind(tob(mrd((k,)))))
    E.notes.add("boolean-mask selection modelled as an uninterpreted order-preserving index map")
    ln = app(name + "_n", (), True)
    E.assume(mk_eq(ln - cnt)); E.assume(mk_le(-ln)); E.assume(mk_le(ln - n))
    rd = a.reader()

    def f(I):
        J = list(I); j = app(name, (I[pos],), True)
        J[pos] = j
        return rd(tuple(J))
    sh = list(a.shape_); sh[pos] = ln
    if any(k is None or (isinstance(k, slice) and k != slice(None)) or _isint(k) for i, k in enumerate(ks) if i != pos):
        raise Unsupported("boolean index combined with others")
    return SArr.new(sh, f, a.dtype_, a.kind)


# assignment -----------------------------------------------------------------------------------
def _cast(a: SArr, v: SArr):
    """Reader of v converted to a's dtype."""
    if a.dtype_ == v.dtype_: return lambda x: x
    if a.dtype_ == "f": return lambda x: ind(x) if isinstance(x, B) else x
    if a.dtype_ == "b": return lambda x: x if isinstance(x, B) else mk_not(mk_eq(x))
    if a.dtype_ == "i":
        if v.dtype_ == "b": return lambda x: ind(x)

        def trunc(x):
            if x.isint: return x
            return ite(mk_le(-x), pfloor(x), -pfloor(-x))
        return trunc
    raise Unsupported("cast")


def setitem(a: SArr, key, value):
    from . import npmodel as N
    ks = expand_key(a, key)
    adv = [(i, _as_adv(k, a.kind)) for i, k in enumerate(ks) if not (k is None or isinstance(k, slice) or _isint(k))]
    for i, x in adv:
        if x is None: raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    v = N.asarr(value)
    if adv: return _adv_set(a, ks, adv, v)
    t = basic_view(a, ks)
    write_view(t, v)


def write_view(t: SArr, v: SArr):
    """t[...] = v through the view t."""
    if t.fn is not None: raise Unsupported("write through reshaped view")
    # value must broadcast to t.shape (leading ones of v may be dropped)
    vs = v.shape_
    while len(vs) > t.ndim and isinstance(vs[0], int) and vs[0] == 1:
        v = basic_view(v, [0] + [slice(None)] * (len(vs) - 1)); vs = v.shape_
    if len(vs) > t.ndim:
        raise ValueError("could not broadcast input array from shape into shape")
    off = t.ndim - len(vs)
    for i, d in enumerate(vs):
        D = t.shape_[off + i]
        if isinstance(d, int) and d == 1: continue
        if d is D or d == D: continue
        if not deq(d, D):
            if not isinstance(d, int) and deq(d, 1): continue
            raise ValueError("could not broadcast input array from shape into shape")
    rd = bread(v, t.shape_)
    cast = _cast(t, v)
    old = t.store.snapshot()
    axes = t.axes; shape = t.shape_
    isb = t.dtype_ == "b"

    def content(J):
        conds = []; I = [PZERO] * len(shape)
        for s, x in enumerate(axes):
            if x[0] == "c": conds.append(mk_eq(J[s] - x[1]))
            else:
                _, ax, off, step = x
                i = (J[s] - off)
                if step != 1:
                    i = i.scale(Fraction(1, step))
                    if abs(step) != 1:
                        conds.append(mk_eq(i - pfloor(i))); i = pfloor(i)
                I[ax] = i
                if not (x[2] is PZERO and step == 1 and False):
                    lo, hi = mk_le(-i), mk_lt(i - P(shape[ax]))
                    conds += [lo, hi]
        c = mk_and(*conds)
        if E.active:
            # bounds of index variables introduced by readers are carried by the variables themselves
            kn = E.known(c)
            if kn is True: c = TRUE
            elif kn is False: c = FALSE
        if c is FALSE: return old(J)
        nv = cast(rd(tuple(I)))
        if c is TRUE: return nv
        ov = old(J)
        if isb: return mk_and(mk_or(mk_not(c), nv), mk_or(c, ov))
        return ite(c, nv, ov)
    t.store.update(content)


def _adv_set(a: SArr, ks, adv, v: SArr):
    if a.fn is not None: raise Unsupported("write through reshaped view")
    if len(adv) != 1: raise Unsupported("assignment with several index arrays")
    pos, idx = adv[0]
    ax = sum(1 for k in ks[:pos] if k is not None)
    if any(k is None for k in ks) or any(isinstance(k, slice) and k != slice(None) for i, k in enumerate(ks) if i != pos) or any(_isint(k) for k in ks):
        raise Unsupported("assignment mixing index kinds")
    if not all(x[0] == "v" and x[1] == i and x[3] == 1 and not x[2].t for i, x in enumerate(a.axes)) or len(a.axes) != a.ndim:
        raise Unsupported("advanced assignment through a view")
    old = a.store.snapshot(); cast = _cast(a, v); isb = a.dtype_ == "b"

    def merge(c, nv, ov):
        if isb: return mk_and(mk_or(mk_not(c), nv), mk_or(c, ov))
        return ite(c, nv, ov)
    if idx.dtype_ == "b":
        if ax != 0: raise Unsupported("boolean assignment on inner axis")
        for i in range(idx.ndim):
            if not deq(idx.shape_[i], a.shape_[i]): raise IndexError("boolean index did not match indexed array")
        mrd = idx.reader(); m = idx.ndim
        rest = a.shape_[m:]
        if v.ndim > len(rest):
            # leading dimension must be broadcastable (1), else element-wise assignment in order
            if v.ndim == len(rest) + 1 and isinstance(v.shape_[0], int) and v.shape_[0] == 1:
                v = basic_view(v, [0] + [slice(None)] * (v.ndim - 1))
            else: raise Unsupported("boolean assignment of array values")
        bs = bshape(v.shape_, rest)
        rd = bread(v, rest)
        a.store.update(lambda J: merge(tob(mrd(J[:m])), cast(rd(J[m:])), old(J)))
        return
    idx = _wrapneg(idx, a.shape_[ax], ax)
    ird = idx.reader()
    if v.ndim == 0:
        vv = v.reader()

        def content(J):
            def rec(i, I):
                if i == idx.ndim: return mk_eq(ird(I) - J[ax])
                return exists(idx.shape_[i], lambda k: rec(i + 1, I + (k,)))
            c = rec(0, ())
            return merge(c, cast(vv(())), old(J))
        a.store.update(content)
        return
    if idx.ndim == 1 and isinstance(idx.shape_[0], int):
        n = idx.shape_[0]
        tshape = a.shape_[:ax] + (n,) + a.shape_[ax + 1:]
        bshape(v.shape_, tshape)
        rd = bread(v, tshape)

        def content(J):
            r = old(J)
            for i in range(n):
                c = mk_eq(ird((P(i),)) - J[ax])
                if c is FALSE: continue
                r = merge(c, cast(rd(J[:ax] + (P(i),) + J[ax + 1:])), r)
            return r
        a.store.update(content)
        return
    raise Unsupported("assignment through a symbolic index array")
