"""C01: periodic wrapping."""
from vc.contract import contract
from ramannoodle.structure import utils as U


@contract("C01", "apply_pbc", targets=[U.apply_pbc])
def _(C):
    for nd in (1, 2, 3):
        x = arr(C, f"p{nd}", nd)
        r = C.call(U.apply_pbc, x)
        sh = C.shape(x)
        if not C.check_shape("same shape", r, sh): continue
        C.forall("lower bound 0", sh, lambda *J: C.le(0, C.at(r, *J)))
        C.forall("upper bound 1 (exclusive)", sh, lambda *J: C.lt(C.at(r, *J), 1))
        C.forall("moved by whole cells", sh, lambda *J: C.isint(C.at(r, *J) - C.at(x, *J)))


def arr(C, name, nd):
    dims = [C.dim(f"S{name}{i}") for i in range(nd - 1)]
    return C.arr(name, (*dims, 3))


@contract("C01", "apply_pbc_displacement", targets=[U.apply_pbc_displacement])
def _(C):
    x = arr(C, "d", 2)
    r = C.call(U.apply_pbc_displacement, x)
    sh = C.shape(x)
    C.check_shape("same shape", r, sh)
    C.forall("lower bound -1/2 (exclusive)", sh, lambda *J: C.lt(-.5, C.at(r, *J)))
    C.forall("upper bound 1/2", sh, lambda *J: C.le(C.at(r, *J), .5))
    C.forall("moved by whole cells", sh, lambda *J: C.isint(C.at(r, *J) - C.at(x, *J)))


@contract("C01", "displace_positions", targets=[U.displace_positions])
def _(C):
    B = C.dim("B"); n = C.dim("N")
    batched = C.flag("batched")
    p = C.arr("p", (B, n, 3) if batched else (n, 3)); d = C.arr("d", (n, 3))
    m = C.arr("m", (n, 3), integer=True); k = C.arr("k", (B, n, 3) if batched else (n, 3), integer=True)
    ps, ds = C.snapshot(p), C.snapshot(d)
    r = C.call(U.displace_positions, p, d)
    sh = C.shape(p)
    if not C.check_shape("shape", r, sh): return
    C.forall("in the cell: >= 0", sh, lambda *J: C.le(0, C.at(r, *J)))
    C.forall("in the cell: < 1", sh, lambda *J: C.lt(C.at(r, *J), 1))
    C.forall("p + d up to whole cells", sh, lambda *J: C.isint(C.at(r, *J) - C.at(p, *J) - C.at(d, *J[-2:])))
    r2 = C.call(U.displace_positions, p + k, d + m)
    C.forall("whole cells change nothing", sh, lambda *J: congruent(C, C.at(r2, *J), C.at(r, *J)))
    C.unchanged("positions not modified", p, ps); C.unchanged("displacement not modified", d, ds)


def congruent(C, a, b):
    """Equal (run on machine floats: equal up to rounding across the cell boundary)."""
    return C.eq(a, b) if C.mode == "sym" else C.isint(a - b)


@contract("C01", "calc_displacement", targets=[U.calc_displacement])
def _(C):
    B = C.dim("B"); n = C.dim("N")
    p = C.arr("p", (n, 3)); q = C.arr("q", (B, n, 3))
    m = C.arr("m", (n, 3), integer=True); k = C.arr("k", (B, n, 3), integer=True)
    r = C.call(U.calc_displacement, p, q)
    sh = C.shape(q)
    if not C.check_shape("shape", r, sh): return
    C.forall("> -1/2", sh, lambda *J: C.lt(-.5, C.at(r, *J)))
    C.forall("<= 1/2", sh, lambda *J: C.le(C.at(r, *J), .5))
    C.forall("from the first set to the second", sh, lambda *J: C.isint(C.at(q, *J) - C.at(p, *J[-2:]) - C.at(r, *J)))
    r2 = C.call(U.calc_displacement, p + m, q + k)
    C.forall("whole cells change nothing", sh, lambda *J: congruent(C, C.at(r2, *J), C.at(r, *J)))
    back = C.call(U.displace_positions, p, r)
    w = C.call(U.apply_pbc, q)
    C.forall("applying it to the first set gives the second", sh, lambda *J: congruent(C, C.at(back, *J), C.at(w, *J)))


@contract("C01", "transform_positions", targets=[U.transform_positions])
def _(C):
    n = C.dim("N")
    p = C.arr("p", (n, 3), lo=0, hi=1); R = C.arr("R", (3, 3), integer=True); t = C.arr("t", (3,))
    r = C.call(U.transform_positions, p, R, t)
    if not C.check_shape("shape", r, (n, 3)): return
    C.forall("in the cell: >= 0", (n, 3), lambda i, j: C.le(0, C.at(r, i, j)))
    C.forall("in the cell: < 1", (n, 3), lambda i, j: C.lt(C.at(r, i, j), 1))
    C.forall("rotation, then translation, modulo whole cells", (n, 3), lambda i, j: C.isint(
        C.at(r, i, j) - C.sum(3, lambda k: C.at(p, i, k) * C.at(R, k, j)) - C.at(t, j)))
