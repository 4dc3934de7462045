"""C20: edge rotations map the reference axis onto every target direction."""
from vc.contract import contract, private
from contracts.common import *
from contracts.C17 import precision
import ramannoodle.pmodel.torch._utils as TU
import ramannoodle.pmodel.torch._gnn as G
import torch


def targets(C, s, kind="any"):
    """Nonzero vectors of any length."""
    def style(r, size):
        a = r.normal(0, 1, size) * r.choice([1., 1e-3, 1e3], size[:1] + (1,))
        for k in range(size[0]):
            c = r.integers(0, 8)
            if c == 0: a[k] = [r.uniform(.1, 5), 0, 0]
            elif c == 1: a[k] = [-r.uniform(.1, 5), 0, 0]
            elif c == 2: a[k] = np.eye(3)[r.integers(0, 3)] * r.choice([1., -1., 2.5, -.5])
            elif c == 3: a[k, 0] = 0
            elif c >= 6 and torch.get_default_dtype() == torch.float64: a[k] = np.array([r.choice([-1., 1.]), *(r.normal(0, 1, 2) * 10 ** r.uniform(-4, -1))]) * r.uniform(.1, 5)
        return a
    t = C.arr("t", (s, 3), kind="torch", **({} if C.mode == "sym" else dict(style=style)))
    if C.mode == "con":
        for v in t.numpy():
            if np.linalg.norm(v) < 1e-4: raise Discard()
            u = v / np.linalg.norm(v)
            if 0 < np.hypot(u[1], u[2]) < (3e-3 if t.dtype == torch.float32 else 1e-5): raise Discard()       # rounding of the half turn in single precision
    return t


def det(C, R, k):
    a = lambda i, j: C.at(R, k, i, j)
    return (a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0))
            + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)))


@contract("C20", "shape", targets=[TU.get_rotations])
def _(C):
    with precision(C):
        s = C.dim("S"); t = targets(C, s); k = C.snapshot(t)
        R = C.call(TU.get_rotations, t)
        C.check_shape("one rotation per target", R, (s, 3, 3))
        C.unchanged("targets", t, k)


@contract("C20", "maps (1,0,0) onto the direction", targets=[TU.get_rotations])
def _(C):
    with precision(C):
        s = C.dim("S", 1); t = targets(C, s); q = C.int("q", 0, s - 1)
        x, y, z = [C.at(t, q, c) for c in range(3)]
        n2 = x * x + y * y + z * z; C.assume(C.lt(0, n2)); n = C.sqrt(n2)
        R = C.call(TU.get_rotations, t)
        for c, v in enumerate((x, y, z)): C.check(f"component {c}", C.eq(C.at(R, q, c, 0), v / n))


@contract("C20", "orthogonal", targets=[TU.get_rotations])
def _(C):
    with precision(C):
        s = C.dim("S", 1); t = targets(C, s); q = C.int("q", 0, s - 1)
        x, y, z = [C.at(t, q, c) for c in range(3)]
        n2 = x * x + y * y + z * z; C.assume(C.lt(0, n2))
        R = C.call(TU.get_rotations, t)
        for i in range(3):
            for j in range(i, 3): C.check(f"rows {i}, {j}", C.eq(sum(C.at(R, q, i, c) * C.at(R, q, j, c) for c in range(3)), 1 if i == j else 0))


@contract("C20", "determinant one", targets=[TU.get_rotations])
def _(C):
    with precision(C):
        s = C.dim("S", 1); t = targets(C, s); q = C.int("q", 0, s - 1)
        x, y, z = [C.at(t, q, c) for c in range(3)]
        n2 = x * x + y * y + z * z; C.assume(C.lt(0, n2))
        R = C.call(TU.get_rotations, t)
        C.check("determinant", C.eq(det(C, R, q), 1))


@contract("C20", "independent of the rest of the batch", targets=[TU.get_rotations])
def _(C):
    with precision(C):
        s = C.dim("S", 1); t = targets(C, s); q = C.int("q", 0, s - 1)
        x, y, z = [C.at(t, q, c) for c in range(3)]
        C.assume(C.lt(0, x * x + y * y + z * z))
        R = C.call(TU.get_rotations, t); one = C.call(TU.get_rotations, C.item(t, slice(q, q + 1)))
        if not C.check_shape("shape", one, (1, 3, 3)): return
        for i in range(3):
            for j in range(3): C.check(f"entry {i}{j}", C.eq(C.at(R, q, i, j), C.at(one, 0, i, j)))


@contract("C20", "edge polarizabilities are defined for every direction", targets=[private(G, "_get_edge_polarizability_vectors"), TU.get_rotations], mode="bounded", cases=80,
          note="Frame by frame: R diag(..) R^T assembled component-wise, compared with an independent assembly.")
def _(C):
    with precision(C):
        s = C.dim("S", 1); t = targets(C, s)
        e = C.arr("e", (s, 12), kind="torch")
        u = t / torch.linalg.norm(t, dim=1)[:, None]
        v = C.call(private(G, "_get_edge_polarizability_vectors"), e, u)
        if not C.check_shape("shape", v, (s, 6)): return
        C.check("finite", bool(torch.isfinite(v).all()))
        R = TU.get_rotations(u).numpy().astype(float); E_ = e.numpy().astype(float)
        A = [np.einsum("sij,sj,skj->sik", R, E_[:, [2 * m, 2 * m + 1, 2 * m + 1]], R) for m in range(6)]
        want = np.stack([A[3][:, 0, 0], A[4][:, 1, 1], A[5][:, 2, 2], A[0][:, 0, 1], A[1][:, 0, 2], A[2][:, 1, 2]], 1)
        C.check("each component from its own tensor, rotated into the edge frame", np.allclose(v.numpy(), want, atol=3e-4 if e.dtype == torch.float32 else 1e-8))


@contract("C20", "edge polarizabilities: each component from its own tensor in the edge frame", targets=[private(G, "_get_edge_polarizability_vectors")])
def _(C):
    with precision(C):
        s = C.dim("S", 1); u = targets(C, s); e = C.arr("e", (s, 12), kind="torch")
        R = C.arr("R", (s, 3, 3), kind="torch") if C.mode == "sym" else TU.get_rotations(u)
        C.replace(TU.get_rotations, lambda t: R)
        v = C.call(private(G, "_get_edge_polarizability_vectors"), e, u)
        if not C.check_shape("shape", v, (s, 6)): return
        Ri = C.call(torch.linalg.inv, R)
        q = C.int("q", 0, s - 1)
        for c, (m, i, j) in enumerate([(3, 0, 0), (4, 1, 1), (5, 2, 2), (0, 0, 1), (1, 0, 2), (2, 1, 2)]):
            C.check(f"component {c}", C.eq(C.at(v, q, c), sum(C.at(R, q, i, k) * C.at(e, q, 2 * m + min(k, 1)) * C.at(Ri, q, k, j) for k in range(3))))
