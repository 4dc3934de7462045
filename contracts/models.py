"""Interpolation models with arbitrary degrees of freedom."""
from contracts.common import *
from ramannoodle.pmodel import InterpolationModel, ARTModel
from ramannoodle.pmodel import _interpolation as MI
from vc.terms import Unsupported
from scipy.interpolate import make_interp_spline

_FIELDS = {}


def fields(cls=InterpolationModel):
    """Names of the attributes behind the public accessors, found by probing a real object."""
    if cls in _FIELDS: return _FIELDS[cls]
    st = ReferenceStructure([1, 2], np.diag([3., 4., 5.]), np.array([[.1, .2, .3], [.6, .1, .7]]))
    out = {}
    for prop, probe, same in [("cart_basis_vectors", [np.full((2, 3), 7.)], lambda g: len(g) == 1 and np.all(g[0] == 7)),
                              ("interpolations", ["probe"], lambda g: list(g) == ["probe"]),
                              ("mask", np.array([True, False, True]), lambda g: np.array_equal(g, [True, False, True]))]:
        for a in list(vars(cls(st, np.eye(3)))):
            m = cls(st, np.eye(3))
            setattr(m, a, probe)
            try:
                if same(getattr(m, prop)): out[prop] = a; break
            except Exception: pass
        else: raise Unsupported(f"no attribute found behind {prop}")
    _FIELDS[cls] = out
    return out


class OpaqueInterp:
    """Interpolation of degree of freedom j: an arbitrary function from amplitudes to tensors."""

    def __init__(self, C, j, tag="f"):
        self.C, self.j, self.tag = C, j, tag

    def __call__(self, a):
        return self.C.amp_tensors(a, self.j, self.tag)

    def __deepcopy__(self, memo): return self


def model(C, cls=InterpolationModel, dofs=True, st=None, J=None, masked=True, tag=""):
    """A model of class cls with J degrees of freedom, each with an arbitrary basis vector and
    interpolation, and an arbitrary mask."""
    if st is None: st, n, L, p, z = structure(C)
    else: st, n, L, p, z = st
    ref = C.arr(tag + "ref", (3, 3))
    m = C.new(cls, st, ref)
    J = (C.dim(tag + "J") if dofs else 0) if J is None else J
    V = C.arr(tag + "V", (J, n, 3)); mk = C.arr(tag + "mask", (J,), dtype="b")
    F = fields(cls)
    C.set(m, F["cart_basis_vectors"], C.list(J, lambda j: C.item(V, j)))
    C.set(m, F["interpolations"], C.list(J, lambda j: OpaqueInterp(C, j, tag + "f")))
    C.set(m, F["mask"], mk)
    return dict(model=m, st=st, n=n, L=L, p=p, z=z, ref=ref, J=J, V=V, mask=mk, tag=tag + "f")


def minimg(C, x):
    """Minimum image of a fractional displacement component."""
    f = x - C.floor(x)
    return C.ite(C.lt(0.5 if C.mode == "con" else Fraction(1, 2), f), f - 1, f)


def amplitude(C, M, j, x):
    """Projection of the minimum-image Cartesian displacement of configuration x on basis vector j."""
    L, p, V, n = M["L"], M["p"], M["V"], M["n"]
    def atom(i):
        u = [minimg(C, x(i, c) - C.at(p, i, c)) for c in range(3)]
        return sum(sum(u[c] * C.at(L, c, d) for c in range(3)) * C.at(V, j, i, d) for d in range(3))
    return C.sum(n, atom)


def predicted(C, M, x, a, b, mask=None):
    mask = M["mask"] if mask is None else mask
    return C.at(M["ref"], a, b) + C.sum(M["J"], lambda j: C.ite(mask_at(C, mask, j), 0, C.amp_tensor(amplitude(C, M, j, x), j, M["tag"], a, b)))


def mask_at(C, mask, j):
    return C.at(mask, j)


from fractions import Fraction
