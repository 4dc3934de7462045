"""Models (assumed contracts) of the torch functions used by the verified code, on SArr values of
kind "torch".  Tensors are arrays of reals (or integers, or booleans); device placement and
gradients are not modelled; float precision is treated as real arithmetic."""
from __future__ import annotations
import sys
import numpy as np
from .terms import *
from . import terms as T
from .sym import *
from .sym import SArr, E, TSize, topoly, dim, dval, deq, tob, dprod, bshape, bread
from . import npmodel as N, indexing as IX, sym


def t_(x):
    """Tensor operand."""
    if isinstance(x, SArr) and x.kind == "torch": return x
    if N.is_torch(x): return N.asarr(x)
    raise TypeError(f"argument must be Tensor, not {type(x).__name__}")


def retag(a: SArr, kind): return SArr(a.store, a.shape_, a.dtype_, axes=a.axes, kind=kind, fn=a.fn)


def tensor(x, dtype=None, **kw):
    a = N.acopy(N.asarr(x, "torch"))
    a = SArr.new(a.shape_, a.reader(), a.dtype_, "torch")
    return a if dtype is None else as_type(a, dtype)


def as_tensor(x, dtype=None, **kw):
    a = N.asarr(x, "torch")
    if isinstance(x, (SArr, np.ndarray)) and (dtype is None or N.dtype_code(dtype) == a.dtype_): return retag(a, "torch")
    return tensor(x, dtype)


def from_numpy(x): return retag(N.asarr(x), "torch")


def as_type(a, dtype=None, *args, **kw):
    a = t_(a)
    if dtype is None: raise Unsupported("Tensor.type()")
    if is_dtype(dtype):
        dt = N.dtype_code(dtype)
        if dt == a.dtype_: return a          # the same tensor when the dtype agrees (precision not modelled)
        rd = a.reader()
        return SArr.new(a.shape_, lambda J: N._cast_elem(rd(J), dt), dt, "torch")
    return a                                  # device


def is_dtype(x):
    import torch
    return isinstance(x, torch.dtype) or x in (float, int, bool)


def to(a, *args, **kw):
    for x in list(args) + list(kw.values()):
        if is_dtype(x): return as_type(a, x)
    return a


def shp(args):
    if len(args) == 1 and (isinstance(args[0], (tuple, list)) or getattr(args[0], "_is_slist_", False)): args = args[0]
    return N.shape_of(args) if not getattr(args, "_is_slist_", False) else N.shape_of(args)


def const(v):
    def f(*args, dtype=None, size=None, **kw):
        s = shp(args if size is None else (size,))
        dt = "f" if dtype is None else N.dtype_code(dtype)
        x = P(v) if dt != "b" else bconst(bool(v))
        return SArr.new(s, lambda J: x, dt, "torch")
    return f


def full(size, fill_value, dtype=None, **kw):
    a = N.np_full(shp((size,)), fill_value, dtype=dtype)
    return retag(a, "torch")


def like(v):
    def f(a, dtype=None, **kw): return N.like(v)(t_(a), dtype)
    return f


def eye(n, m=None, dtype=None, **kw): return N.np_eye(n, m, dtype="float64" if dtype is None else dtype, kind="torch") if dtype is None or N.dtype_code(dtype) != "b" else _booleye(n, m)


def _booleye(n, m):
    n = dim(n); m = n if m is None else dim(m)
    return SArr.new((n, m), lambda J: mk_eq(J[0] - J[1]), "b", "torch")


def diag(a, diagonal=0):
    a = t_(a)
    if diagonal: raise Unsupported("diag offset")
    rd = a.reader()
    if a.ndim == 1:
        n = a.shape_[0]
        if isinstance(n, int): return SArr.new((n, n), lambda J: ite(mk_eq(J[0] - J[1]), N._num(rd((J[0],))), PZERO), a.dtype_, "torch")
        return SArr.new((n, n), lambda J: ite(mk_eq(J[0] - J[1]), N._num(rd((J[0],))), PZERO), a.dtype_, "torch")
    if a.ndim == 2: return SArr.new((a.shape_[0],), lambda J: rd((J[0], J[0])), a.dtype_, "torch")
    raise RuntimeError("diag(): Supports 1D or 2D tensors")


def arange(*args, dtype=None, **kw): return N.np_arange(*args, dtype=dtype, kind="torch")
def linspace(a, b, steps, **kw): return N.np_linspace(a, b, steps, kind="torch")


def size(a, d=None): return TSize(t_(a).shape) if d is None else t_(a).shape[d]


def unsqueeze(a, dim):
    a = t_(a); nd = a.ndim + 1
    if not -nd <= int(dim) < nd: raise IndexError("Dimension out of range")
    return N.expand_dims(a, int(dim))


def squeeze(a, dim=None): return N.squeeze(t_(a), dim)


def expand(a, *sizes):
    a = t_(a)
    if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)): sizes = tuple(sizes[0])
    k = len(sizes) - a.ndim
    if k < 0: raise RuntimeError("the number of sizes provided must be greater or equal to the number of dimensions in the tensor")
    sh = []; one = []
    for i, s in enumerate(sizes):
        d = dim(s)
        if i < k:
            if isinstance(d, int) and d < 0: raise RuntimeError("expand: -1 in a leading, non-existing dimension")
            sh.append(d); continue
        o = a.shape_[i - k]
        if isinstance(d, int) and d == -1: sh.append(o); one.append(False); continue
        if isinstance(o, int) and o == 1: sh.append(d); one.append(not (isinstance(d, int) and d == 1)); continue
        if deq(o, d): sh.append(o); one.append(False)
        elif not isinstance(o, int) and deq(o, 1): sh.append(d); one.append(True)
        else: raise RuntimeError("The expanded size of the tensor must match the existing size")
    return a.view_of(tuple(sh), lambda I: tuple(PZERO if one[i] else I[i + k] for i in range(len(one))))


def repeat(a, *sizes):
    a = t_(a)
    if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)): sizes = tuple(sizes[0])
    if len(sizes) < a.ndim: raise RuntimeError("Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor")
    k = len(sizes) - a.ndim
    old = (1,) * k + a.shape_
    rep = [dim(s) for s in sizes]
    sh = tuple(dprod([o, r]) for o, r in zip(old, rep))
    rd = a.reader()

    def f(J):
        out = []
        for j, o, r in zip(J, old, rep):
            if isinstance(r, int) and r == 1: out.append(j)
            elif isinstance(o, int) and o == 1: out.append(PZERO)
            else:
                q = N.int_div(j, P(o)); out.append(j - q * P(o))
        return rd(tuple(out[k:]))
    return SArr.new(sh, f, a.dtype_, "torch")


def repeat_interleave(a, repeats, dim=None, **kw):
    a = t_(a)
    if dim is None: a = N.reshape(a, (-1,)); dim = 0
    d = int(dim) % a.ndim; r = IXdim(repeats)
    sh = list(a.shape_); sh[d] = dprod([sh[d], r]); rd = a.reader()

    def f(J):
        J = list(J); J[d] = J[d] if isinstance(r, int) and r == 1 else N.int_div(J[d], P(r))
        return rd(tuple(J))
    return SArr.new(tuple(sh), f, a.dtype_, "torch")


def IXdim(x):
    if isinstance(x, SArr) and x.ndim: raise Unsupported("repeat_interleave with a tensor of repeats")
    return globals()["dim"](x)


def red(f):
    def g(a, dim=None, keepdim=False, axis=None, **kw):
        kw.pop("dtype", None)
        return f(t_(a), axis=dim if axis is None else axis, keepdims=keepdim, **kw)
    return g


def std(a, dim=None, unbiased=True, keepdim=False, correction=None, **kw):
    dd = (1 if unbiased else 0) if correction is None else correction
    if isinstance(dim, bool): dd = 1 if dim else 0; dim = None
    return N.astd(t_(a), axis=dim, ddof=int(dd), keepdims=keepdim)


def var(a, dim=None, unbiased=True, keepdim=False, correction=None, **kw):
    dd = (1 if unbiased else 0) if correction is None else correction
    return N.avar(t_(a), axis=dim, ddof=int(dd), keepdims=keepdim)


def norm(a, *args, dim=None, keepdim=False, ord=None, **kw):
    if args: raise Unsupported("norm with order")
    return N.np_norm(t_(a), axis=dim, keepdims=keepdim)


def cross(a, b, dim=-1): return N.np_cross(t_(a), t_(b))
def vecdot(a, b, dim=-1): return N.asum(N.binop("mul", t_(a), t_(b)), axis=-1)


def where(c, *xy):
    if not xy: return nonzero_tuple(c)
    return N.np_where(c, *xy)


def nonzero(a, as_tuple=False):
    """The multi-indexes where a is true, in row-major order."""
    if as_tuple: return nonzero_tuple(a)
    return E.nonzero(t_(a)) if getattr(E, "nonzero", None) else _nz(a)


def _nz(a): raise Unsupported("nonzero of a symbolic tensor")


def nonzero_tuple(a):
    r = nonzero(a)
    return tuple(N.transpose(r)[i] for i in range(r.ndim and r.shape_[1]))


def split_half(a, chunks, dim=0):
    a = t_(a); d = int(dim) % a.ndim; n = a.shape_[d]
    if not isinstance(n, int):
        w = n.scale(Fraction(1, int(chunks)))
        if not w.isint or not E.entails(mk_le(1 - w)): raise Unsupported("chunk of a symbolic dimension")
        return tuple(IX.basic_view(a, [slice(dval(w * k), dval(w * (k + 1))) if i == d else slice(None) for i in range(a.ndim)]) for k in range(int(chunks)))
    w = -(-n // chunks)
    out = []
    for s in range(0, n, w):
        out.append(IX.basic_view(a, [slice(s, min(s + w, n)) if i == d else slice(None) for i in range(a.ndim)]))
    return tuple(out)


def cat(xs, dim=0, **kw): return N.concatenate(xs, axis=dim, kind="torch")
def stack(xs, dim=0, **kw): return N.np_stack(xs, axis=dim, kind="torch")


def get_default_device():
    import torch
    return torch.device("cpu")


class _Ctx:
    def __init__(self, *a, **k): pass
    def vc_enter(self): return self
    def vc_exit(self, exc): return False


def numel(a): return dval(dprod(t_(a).shape_))


def copy_(a, src, *args):
    IX.write_view(t_(a), N.asarr(src, "torch")); return a


METHODS = {
    "size": size, "unsqueeze": unsqueeze, "squeeze": squeeze, "expand": expand, "repeat": repeat, "repeat_interleave": repeat_interleave,
    "type": as_type, "to": to, "float": lambda a: as_type(a, float), "double": lambda a: as_type(a, float), "long": lambda a: as_type(a, int), "int": lambda a: as_type(a, int), "bool": lambda a: as_type(a, bool),
    "cpu": lambda a: a, "detach": lambda a: retag(a, "torch"), "clone": lambda a, **k: N.acopy(a), "contiguous": lambda a: a,
    "numpy": lambda a, **k: retag(a, "np"), "view": N.reshape, "reshape": N.reshape, "flatten": lambda a: N.reshape(a, (-1,)), "ravel": lambda a: N.reshape(a, (-1,)),
    "matmul": N.matmul, "mm": N.matmul, "bmm": N.matmul, "sum": red(N.asum), "mean": red(N.amean), "std": std, "var": var, "all": red(N.aall), "any": red(N.aany), "min": red(N.amin), "max": red(N.amax), "amin": red(N.amin), "amax": red(N.amax),
    "pow": lambda a, k: N.binop("pow", a, k), "mul": lambda a, b: N.binop("mul", a, b), "add": lambda a, b: N.binop("add", a, b), "sub": lambda a, b: N.binop("sub", a, b), "div": lambda a, b: N.binop("truediv", a, b),
    "transpose": lambda a, i, j: N.swapaxes(a, i, j), "permute": lambda a, *ax: N.transpose(a, *ax), "t": lambda a: N.transpose(a),
    "tanh": lambda a: unary("tanh")(a), "sigmoid": lambda a: unary("sigmoid")(a), "abs": lambda a: N.np_abs(a), "exp": lambda a: N.np_exp(a), "sqrt": lambda a: N.np_sqrt(a), "floor": lambda a: N.np_floor(a), "round": lambda a: N.np_round(a),
    "chunk": split_half, "numel": numel, "nonzero": nonzero, "copy_": copy_, "dim": lambda a: a.ndim, "ndimension": lambda a: a.ndim,
    "add_": lambda a, o: N.inplace("add", a, o), "sub_": lambda a, o: N.inplace("sub", a, o), "mul_": lambda a, o: N.inplace("mul", a, o), "div_": lambda a, o: N.inplace("truediv", a, o),
    "fill_": lambda a, v: (IX.write_view(a, N.asarr(v, "torch")), a)[1], "zero_": lambda a: (IX.write_view(a, N.asarr(0.0, "torch")), a)[1],
    "tolist": lambda a: a.tolist() if a.is_concrete() else _tolist(a), "item": lambda a: _item(a), "expand_as": lambda a, b: expand(a, *b.shape), "diagonal": None,
    "requires_grad_": lambda a, *k: a, "logical_and": lambda a, b: N.binop("and", a, b), "logical_or": lambda a, b: N.binop("or", a, b), "logical_not": lambda a: N.emapb(mk_not, a),
}


def _item(a):
    r = retag(a, "np")
    v = r.item()
    return v


def _tolist(a):
    from .values import PList
    if a.ndim == 0: return _item(a)
    return PList.build(dval(a.shape_[0]), lambda k: _tolist(IX.basic_view(a, [dval(k) if isinstance(k, Poly) else k] + [slice(None)] * (a.ndim - 1))))


def attr(a, name):
    if name == "T" or name == "mT":
        return N.transpose(a) if name == "T" else N.swapaxes(a, -1, -2)
    if name == "device": return get_default_device()
    if name == "requires_grad": return False
    if name == "data": return retag(a, "torch")
    m = METHODS.get(name)
    if m is None: 
        if name in ("real",): return NotImplemented
        import torch
        if not hasattr(torch.Tensor, name): raise AttributeError(f"'Tensor' object has no attribute '{name}'")
        raise Unsupported(f"Tensor.{name}")

    def bound(*args, **kw): return m(a, *args, **kw)
    bound.__name__ = name
    return bound


def unary(name): return lambda a: N.emap(lambda x: app(name, (x,)), t_(a))


def radix_eq(x, y):
    """x == y; split into quotients and remainders where both are q*v + r with 0 <= r < v."""
    for m in x.t:
        if len(m) < 2: continue
        for v, e in m:
            if e != 1 or v.kind != "var" or not v.isint or not any(o.kind == "floor" for o, _ in m): continue
            pv = patom(v); (qx, rx), (qy, ry) = divide(x, v), divide(y, v)
            if rx.isint and ry.isint and E.entails(mk_and(mk_le(-rx), mk_lt(rx - pv), mk_le(-ry), mk_lt(ry - pv)), 1500): return mk_and(mk_eq(qx - qy), mk_eq(rx - ry))
    return mk_eq(x - y)


def divide(x, v):
    q = PZERO; r = PZERO
    for m, c in x.t.items():
        d = dict(m)
        if d.get(v) == 1:
            del d[v]; q = q + mkpoly({tuple(sorted(d.items(), key=lambda z: z[0].id)): c})
        else: r = r + mkpoly({m: c})
    return q, r


def scatter(src, index, dim=0, dim_size=None, reduce="sum"):
    """torch_geometric.utils.scatter: out[q] = sum of src[r] over the rows r with index[r] == q."""
    src, index = t_(src), t_(index)
    if reduce not in ("sum", "add") or int(dim) % src.ndim != 0 or index.ndim != 1 or dim_size is None: raise Unsupported("scatter of this kind")
    if not sym.deq(src.shape_[0], index.shape_[0]): raise RuntimeError("The size of the index does not match the source")
    n = P(src.shape_[0]); rs, ri = src.reader(), index.reader()
    size = globals()["dim"](dim_size)

    def el(J): return psum(n, lambda r: ind(radix_eq(topoly(ri((r,))), J[0])) * rs((r,) + tuple(J[1:])))
    return SArr.new((size,) + tuple(src.shape_[1:]), el, "f", "torch")


def train(m, mode=True):
    """Modules keep their mode in `training`; so do the modules among their attributes."""
    from . import interp as I
    import torch
    I.set_field(m, "training", mode)
    for v in list(m.__dict__.values()):
        if isinstance(v, torch.nn.Module) or hasattr(v, "vc_module"): train(v, mode)
    return m


def module_call(m, *args, **kw):
    from . import interp as I
    return I.call(I.get_attr(m, "forward"), args, kw)


def build_registry():
    try: import torch
    except ImportError: return {}
    R = {}
    for n, m in {
        "tensor": tensor, "as_tensor": as_tensor, "from_numpy": from_numpy, "zeros": const(0), "ones": const(1), "empty": const(0), "full": full, "zeros_like": like(0), "ones_like": like(1), "empty_like": like(0),
        "eye": eye, "diag": diag, "arange": arange, "linspace": linspace, "where": where, "nonzero": nonzero, "cat": cat, "concat": cat, "concatenate": cat, "stack": stack,
        "sum": red(N.asum), "mean": red(N.amean), "std": std, "var": var, "all": red(N.aall), "any": red(N.aany), "amin": red(N.amin), "amax": red(N.amax),
        "sqrt": N.np_sqrt, "exp": N.np_exp, "abs": N.np_abs, "floor": N.np_floor, "ceil": N.np_ceil, "round": N.np_round, "square": N.np_square, "sign": N.np_sign,
        "matmul": N.matmul, "bmm": N.matmul, "mm": N.matmul, "einsum": lambda s, *o: N.np_einsum(s, *o, kind="torch"), "cross": cross, "norm": norm, "outer": N.np_outer,
        "logical_and": lambda a, b: N.binop("and", a, b), "logical_or": lambda a, b: N.binop("or", a, b), "logical_not": lambda a: N.emapb(mk_not, a),
        "unsqueeze": unsqueeze, "squeeze": squeeze, "transpose": lambda a, i, j: N.swapaxes(a, i, j), "permute": lambda a, d: N.transpose(a, d), "reshape": N.reshape, "flatten": lambda a: N.reshape(a, (-1,)),
        "clone": lambda a, **k: N.acopy(a), "repeat_interleave": repeat_interleave, "tile": lambda a, d: repeat(a, *d), "chunk": split_half, "broadcast_to": lambda a, s: expand(a, *s), "numel": numel,
        "add": lambda a, b: N.binop("add", a, b), "sub": lambda a, b: N.binop("sub", a, b), "mul": lambda a, b: N.binop("mul", a, b), "div": lambda a, b: N.binop("truediv", a, b),
        "pow": lambda a, b: N.binop("pow", a, b), "remainder": lambda a, b: N.binop("mod", a, b), "minimum": N.np_minimum, "maximum": N.np_maximum, "clamp": lambda a, min=None, max=None: N.np_clip(a, min, max),
        "allclose": N.np_allclose, "isclose": N.np_isclose, "get_default_device": get_default_device, "device": _Ctx, "no_grad": _Ctx, "is_tensor": lambda x: (isinstance(x, SArr) and x.kind == "torch") or N.is_torch(x),
    }.items():
        f = getattr(torch, n, None)
        if f is not None: R[f] = m
    for n in ("tanh", "sigmoid"): R[getattr(torch, n)] = unary(n)
    if "torch_geometric.utils" in sys.modules:
        from torch_geometric.utils import scatter as sc
        R[sc] = scatter
    M = torch.nn.Module
    R[M.train] = train; R[M.eval] = lambda m: train(m, False); R[M.__call__] = module_call; R[M.requires_grad_] = lambda m, *a: m
    R[torch.linalg.norm] = norm; R[torch.linalg.vector_norm] = norm; R[torch.linalg.cross] = cross; R[torch.linalg.vecdot] = vecdot; R[torch.linalg.inv] = N.np_inv; R[torch.linalg.det] = N.np_det; R[torch.inverse] = N.np_inv
    return R
