"""Shared builders for contracts: arbitrary valid objects, made by the real constructors."""
import numpy as np
from vc.contract import Discard, CheckFail
from ramannoodle.structure import ReferenceStructure
from ramannoodle.exceptions import SymmetryException


def lattice(C, name="lat", det=True):
    """An invertible lattice (right- or left-handed, any angles)."""
    if C.mode == "sym":
        L = C.arr(name, (3, 3))
        if det: C.assume(C.not_(C.eq(det3(C, L), 0)))
        return L
    def style(r, size):
        k = r.integers(0, 5)
        a = r.normal(0, 1, size) + np.eye(3) * r.choice([3., 4., 6.])
        if k == 0: a = np.diag(r.uniform(2.5, 8, 3))
        elif k == 1: a = np.eye(3) * r.uniform(2.5, 8)
        elif k == 2: a = np.array([[3., 0, 0], [-1.5, 3 * 3 ** .5 / 2, 0], [0, 0, r.uniform(3, 6)]])
        elif k == 3: a = r.uniform(2.5, 5) * np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]) * 1.6
        return a
    L = C.arr(name, (3, 3), style=style)
    if abs(np.linalg.det(L)) < 1e-3: raise Discard()
    return L


def det3(C, L):
    a = lambda i, j: C.at(L, i, j)
    return (a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0))
            + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)))


def positions(C, name, shape):
    """In-cell fractional positions."""
    if C.mode == "sym": return C.arr(name, shape, lo=0, hi=1)
    return C.arr(name, shape, style=lambda r, s: r.uniform(0, .999, s))


def atomic_numbers(C, name, n):
    z = C.arr(name, (n,), lo=1, hi=118, integer=True) if C.mode == "sym" else C.arr(name, (n,), style=lambda r, s: r.choice([1., 8., 22., 38., 57., 118.], s), integer=True)
    if C.mode == "sym": return C.list(n, lambda k: C.at(z, k))
    return [int(x) for x in z]


def structure(C, n=None, name=""):
    """A reference structure through the real constructor (symmetry search: assumed contract)."""
    n = C.dim(name + "N", 1) if n is None else n
    L = lattice(C, name + "lat")
    p = positions(C, name + "pos", (n, 3))
    z = atomic_numbers(C, name + "Z", n)
    if C.mode == "con":
        d = p[:, None] - p[None]; d -= np.rint(d)
        c = np.linalg.norm(d @ L, axis=-1) + np.eye(len(p)) * 9
        if c.min() < 1e-2: raise Discard()
    try:
        return C.new(ReferenceStructure, z, L, p), n, L, p, z
    except SymmetryException:
        raise Discard()


from ramannoodle.abstract import PolarizabilityModel


class OpaqueModel(PolarizabilityModel):
    """Any polarizability model: the tensor of a configuration is an arbitrary function of it."""

    def __init__(self, C, n=None, tag="alpha", shift=None):
        self._C, self._n, self._tag, self._shift = C, n, tag, shift
        self.seen = []

    def calc_polarizabilities(self, positions_batch):
        r = self._C.model_tensors(positions_batch, self._tag, (self._n,))
        return r if self._shift is None else r + self._shift
