"""C02: fractional/Cartesian conversions."""
from vc.contract import contract
from contracts.common import *

RS = ReferenceStructure


@contract("C02", "get_cart_displacement", targets=[RS.get_cart_displacement])
def _(C):
    s, n, L, p, z = structure(C)
    batched = C.flag("batched"); B = C.dim("B")
    sh = (B, n, 3) if batched else (n, 3)
    d = C.arr("d", sh); ds = C.snapshot(d)
    r = C.meth(s, "get_cart_displacement", d)
    if not C.check_shape("shape", r, sh): return
    from ramannoodle.structure.utils import apply_pbc_displacement
    w = C.call(apply_pbc_displacement, d)
    C.forall("minimum image in lattice coordinates", sh, lambda *J: C.eq(
        C.at(r, *J), C.sum(3, lambda k: C.at(w, *J[:-1], k) * C.at(L, k, J[-1]))))
    C.unchanged("argument", d, ds)


def frac_of(C, L, c, idx, j):
    """Column j of c @ inv(L), by Cramer's rule."""
    D = det3(C, L)
    class R: pass
    rows = [[C.at(L, a, b) for b in range(3)] for a in range(3)]
    x = [C.at(c, *idx, b) for b in range(3)]
    def det(M): return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
                        + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))
    return det([x if a == j else rows[a] for a in range(3)]) / D


@contract("C02", "get_frac_displacement", targets=[RS.get_frac_displacement])
def _(C):
    s, n, L, p, z = structure(C)
    d = C.arr("d", (n, 3)); ds = C.snapshot(d)
    r = C.meth(s, "get_frac_displacement", d)
    if not C.check_shape("shape", r, (n, 3)): return
    C.forall("> -1/2", (n, 3), lambda *J: C.lt(-.5, C.at(r, *J)))
    C.forall("<= 1/2", (n, 3), lambda *J: C.le(C.at(r, *J), .5))
    for j in range(3):
        C.forall(f"lattice coordinate {j} up to whole cells", (n,), lambda i: C.isint(C.at(r, i, j) - frac_of(C, L, d, (i,), j)))
    C.unchanged("argument", d, ds)


@contract("C02", "displacements round trip", targets=[RS.get_cart_displacement, RS.get_frac_displacement])
def _(C):
    s, n, L, p, z = structure(C)
    d = C.arr("d", (n, 3))
    r = C.meth(s, "get_frac_displacement", C.meth(s, "get_cart_displacement", d))
    if not C.check_shape("shape", r, (n, 3)): return
    C.forall("frac(cart(d)) = d up to whole cells", (n, 3), lambda *J: C.isint(C.at(r, *J) - C.at(d, *J)))


def vec(C, a):
    """A direction returned as (3,) or as a single row."""
    sh = C.shape(a)
    if len(sh) == 2:
        C.check_shape("one direction", a, (1, 3))
        return lambda j: C.at(a, 0, j)
    C.check_shape("one direction", a, (3,))
    return lambda j: C.at(a, j)


@contract("C02", "directions", targets=[RS.get_cart_direction, RS.get_frac_direction])
def _(C):
    s, n, L, p, z = structure(C)
    d = C.arr("d", (3,)); ds = C.snapshot(d)
    c = vec(C, C.meth(s, "get_cart_direction", d))
    C.forall("cart is linear", (3,), lambda j: C.eq(c(j), C.sum(3, lambda k: C.at(d, k) * C.at(L, k, j))))
    f = vec(C, C.meth(s, "get_frac_direction", d))
    for j in range(3): C.check(f"frac is linear [{j}]", C.eq(f(j), frac_of(C, L, d, (), j)))
    x = C.call(np.array, C.lst(c(0), c(1), c(2)))
    back = vec(C, C.meth(s, "get_frac_direction", x))
    C.forall("frac(cart(d)) = d", (3,), lambda j: C.eq(back(j), C.at(d, j), 1e-6))
    y = C.call(np.array, C.lst(f(0), f(1), f(2)))
    back2 = vec(C, C.meth(s, "get_cart_direction", y))
    for j in range(3): C.check(f"cart(frac(d)) = d [{j}]", C.eq(back2(j), C.at(d, j), 1e-6))
    C.unchanged("argument", d, ds)
