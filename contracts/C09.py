"""C09: phonon Raman tensors."""
from vc.contract import contract
from contracts.common import *
from ramannoodle.dynamics import Phonons
import ramannoodle.constants as K

DELTA = float(K.RAMAN_TENSOR_CENTRAL_DIFFERENCE)


def phonons(C, lo=1):
    m = C.dim("M", lo); n = C.dim("N", 1)
    r = C.arr("r", (n, 3)); w = C.arr("w", (m,)); u = C.arr("u", (m, n, 3))
    return m, n, r, w, u


def stack(C, r, u, m, n, sign):
    """Configurations r + sign * delta * u[k]."""
    return r + (sign * DELTA) * u


@contract("C09", "step", targets=[Phonons.get_raman_spectrum])
def _(C):
    C.check("the fixed multiple is small and positive", C.and_(C.lt(0, DELTA), C.le(DELTA, 0.1)))


@contract("C09", "central differences", targets=[Phonons.get_raman_spectrum])
def _(C):
    m, n, r, w, u = phonons(C)
    snaps = [C.snapshot(x) for x in (r, w, u)]
    o = C.run(C.get(C.new(Phonons, r, w, u), "get_raman_spectrum"), OpaqueModel(C, n))
    if o.raised: C.check(f"accepted ({o!r})", False); return
    t = C.get(o.value, "raman_tensors"); wn = C.get(o.value, "phonon_wavenumbers")
    if not C.check_shape("one tensor per phonon", t, (m, 3, 3)): return
    C.check_eq_arr("wavenumbers unchanged", wn, w)
    plus = C.model_tensors(stack(C, r, u, m, n, 1), "alpha", (n,)); minus = C.model_tensors(stack(C, r, u, m, n, -1), "alpha", (n,))
    C.forall("difference along the phonon", (m, 3, 3), lambda k, i, j: C.eq(C.at(t, k, i, j) * DELTA, C.at(plus, k, i, j) - C.at(minus, k, i, j), 1e-6))
    for nm, x, y in zip(("reference positions", "wavenumbers", "displacements"), (r, w, u), snaps): C.unchanged(f"argument {nm}", x, y)


@contract("C09", "polarizability shift", targets=[Phonons.get_raman_spectrum])
def _(C):
    m, n, r, w, u = phonons(C); c = C.arr("c", (3, 3))
    ph = C.new(Phonons, r, w, u)
    a = C.get(C.meth(ph, "get_raman_spectrum", OpaqueModel(C, n)), "raman_tensors")
    b = C.get(C.meth(ph, "get_raman_spectrum", OpaqueModel(C, n, shift=c)), "raman_tensors")
    if not C.check_shape("shape", b, C.shape(a)): return
    C.forall("changes nothing", (m, 3, 3), lambda k, i, j: C.eq(C.at(a, k, i, j), C.at(b, k, i, j), 1e-6))


@contract("C09", "phonon reversed", targets=[Phonons.get_raman_spectrum])
def _(C):
    m, n, r, w, u = phonons(C)
    a = C.get(C.meth(C.new(Phonons, r, w, u), "get_raman_spectrum", OpaqueModel(C, n)), "raman_tensors")
    b = C.get(C.meth(C.new(Phonons, r, w, -u), "get_raman_spectrum", OpaqueModel(C, n)), "raman_tensors")
    if not C.check_shape("shape", b, C.shape(a)): return
    C.forall("tensor reversed", (m, 3, 3), lambda k, i, j: C.eq(C.at(a, k, i, j), -C.at(b, k, i, j), 1e-6))


@contract("C09", "incompatible model", targets=[Phonons.get_raman_spectrum])
def _(C):
    m, n, r, w, u = phonons(C); d = C.int("d", 1, 3)
    C.check("reported as ValueError", C.run(C.get(C.new(Phonons, r, w, u), "get_raman_spectrum"), OpaqueModel(C, n + d)).is_(ValueError))
