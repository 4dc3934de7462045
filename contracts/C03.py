"""C03: displaced structures."""
from vc.contract import contract
from contracts.common import *
from ramannoodle.structure import _displace as D
from ramannoodle.structure import ReferenceStructure
import ramannoodle.structure as S


def amplitudes(C): return C.arr("a", (C.dim("M"),))


def norm2(C, n, u): return C.sum(n, lambda i: C.at(u, i, 0) ** 2 + C.at(u, i, 1) ** 2 + C.at(u, i, 2) ** 2)


def inverse(C, L): return C.call(np.linalg.inv, L)


def moved(C, r, p, L, n, m, a, cart, name):
    """Every returned configuration is the reference plus a[k] * cart (Cartesian), modulo whole cells."""
    C.check(f"{name}: one configuration per amplitude", C.eq(C.len(r), m))
    inv = inverse(C, L)

    def one(k, i, c):
        x = C.item(r, k)
        f = sum(cart(i, d) * C.at(inv, d, c) for d in range(3))
        return C.isint(C.at(x, i, c) - C.at(p, i, c) - C.at(a, k) * f)
    C.forall(f"{name}: shifted by the amplitude along the unit vector", (m, n, 3), one)
    if C.mode == "sym": C.forall(f"{name}: shape", (m,), lambda k: C.eq(C.shape(C.item(r, k))[0], n))
    else: C.forall(f"{name}: shape", (m,), lambda k: C.shape(C.item(r, k)) == (n, 3))


def nonzero(C, q):
    C.assume(C.lt(0, q))
    if C.mode == "con" and q < 1e-10: raise Discard()


@contract("C03", "get_displaced_positions", targets=[D.get_displaced_positions])
def _(C):
    st, n, L, p, z = structure(C)
    u = C.arr("u", (n, 3)); a = amplitudes(C); m = C.shape(a)[0]
    snaps = [C.snapshot(x) for x in (u, a)]; ss = C.snapshot(st)
    q = norm2(C, n, u); nonzero(C, q)
    o = C.run(D.get_displaced_positions, st, u, a)
    if o.raised: C.check(f"accepted ({o!r})", False); return
    moved(C, o.value, p, L, n, m, a, lambda i, d: C.at(u, i, d) / C.sqrt(q), "configurations")
    for nm, x, s in zip(("displacement", "amplitudes"), (u, a), snaps): C.unchanged(f"argument {nm}", x, s)
    C.unchanged("structure", st, ss)


@contract("C03", "the length of the displacement does not matter", targets=[D.get_displaced_positions])
def _(C):
    st, n, L, p, z = structure(C)
    u = C.arr("u", (n, 3)); a = amplitudes(C); m = C.shape(a)[0]; c = C.real("c")
    if C.mode == "con": c = abs(c) + 1e-3
    C.assume(C.lt(0, c)); nonzero(C, norm2(C, n, u))
    x = C.call(D.get_displaced_positions, st, u, a); y = C.call(D.get_displaced_positions, st, u * c, a)
    C.check("same number", C.eq(C.len(x), C.len(y)))
    C.forall("same configurations", (m, n, 3), lambda k, i, d: C.isint(C.at(C.item(x, k), i, d) - C.at(C.item(y, k), i, d)))


@contract("C03", "get_ast_displaced_positions", targets=[D.get_ast_displaced_positions])
def _(C):
    st, n, L, p, z = structure(C)
    d = C.arr("d", (3,)); a = amplitudes(C); m = C.shape(a)[0]; atom = C.int("atom", -5, 6)
    snaps = [C.snapshot(x) for x in (d, a)]
    q = C.at(d, 0) ** 2 + C.at(d, 1) ** 2 + C.at(d, 2) ** 2; nonzero(C, q)
    o = C.run(D.get_ast_displaced_positions, st, atom, d, a)
    if C.decide(C.or_(C.le(n, atom), C.lt(atom, -n))):
        C.check("IndexError for an atom that does not exist", o.is_(IndexError)); return
    if o.raised: C.check(f"accepted ({o!r})", False); return
    at = atom if C.decide(C.le(0, atom)) else n + atom
    moved(C, o.value, p, L, n, m, a, lambda i, c: C.ite(C.eq(i, at), C.at(d, c) / C.sqrt(q), 0), "configurations")
    for nm, x, s in zip(("direction", "amplitudes"), (d, a), snaps): C.unchanged(f"argument {nm}", x, s)


@contract("C03", "refusals", targets=[D.get_displaced_positions, D.get_ast_displaced_positions])
def _(C):
    st, n, L, p, z = structure(C)
    m = C.dim("M", 1)
    a2 = C.arr("a2", (m, 2)); a = C.arr("a", (m,))
    u = C.arr("u", (n, 3)); d = C.arr("d", (3,)); nonzero(C, norm2(C, n, u)); nonzero(C, C.at(d, 0) ** 2 + C.at(d, 1) ** 2 + C.at(d, 2) ** 2)
    C.check("two-dimensional amplitudes", C.run(D.get_displaced_positions, st, u, a2).is_(ValueError))
    C.check("two-dimensional amplitudes, one atom", C.run(D.get_ast_displaced_positions, st, 0, d, a2).is_(ValueError))
    w = C.arr("w", (n, 2)); nonzero(C, C.sum(n, lambda i: C.at(w, i, 0) ** 2 + C.at(w, i, 1) ** 2))
    C.check("displacement with two components", C.run(D.get_displaced_positions, st, w, a).is_(ValueError))
    v = C.arr("v", (4,)); nonzero(C, sum(C.at(v, i) ** 2 for i in range(4)))
    C.check("direction with four components", C.run(D.get_ast_displaced_positions, st, 0, v, a).is_(ValueError))


# ---------------------------------------------------------------------------- the written variants
import ramannoodle.io.generic as G
import ramannoodle.io.vasp.poscar as PO
from pathlib import Path


class Written:
    """Callee generic.write_structure: what it was asked to write, in order."""
    def __init__(self, C):
        from vc.values import PList
        self.C = C; self.rows = PList()
        C.replace(G.write_structure, self.spec); C.replace(Path, self.path)

    def spec(self, lattice, atomic_numbers, positions, filepath, file_format, overwrite=False):
        """generic.write_structure: writes one file (its own contracts: C14, C15)"""
        self.rows.append((lattice, atomic_numbers, positions, filepath, file_format, overwrite))

    def path(self, p):
        """Path(p): the path p"""
        return p


def written(C, write, args, a, p, L, n, z, cart, name):
    m = C.shape(a)[0]; over = C.flag("overwrite")
    if C.mode == "con":
        import os
        d = C.scratch(); names = [os.path.join(d, f"f{k}") for k in range(m)]
        if over and m: open(names[-1], "w").write("old")
        o = C.run(write, *args, a, names, "poscar", overwrite=over)
        if m == 0: C.check(f"{name}: no files for no amplitudes (got {o!r})", o.is_(ValueError)); return
        if o.raised: C.check(f"{name}: accepted ({o!r})", False); return
        C.check(f"{name}: one file per path", sorted(os.listdir(d)) == sorted(f"f{k}" for k in range(m)))
        got = [PO.read_structure(f) for f in names]
        for k, (l2, z2, x) in enumerate(got):
            C.check(f"{name}: lattice and atomic numbers of file {k}", np.allclose(l2, L, atol=1e-12) and list(z2) == list(z))
        moved(C, [g[2] for g in got], p, L, n, m, a, cart, name); return
    w = Written(C); ids = C.arr("path", (m,), integer=True); paths = C.list(m, lambda k: C.at(ids, k))
    o = C.run(write, *args, a, paths, "poscar", over)
    if C.decide(C.eq(m, 0)):
        C.check(f"{name}: nothing is written for no amplitudes", C.eq(C.len(w.rows), 0)); return
    if o.raised: C.check(f"{name}: accepted ({o!r})", False); return
    C.check(f"{name}: one file per amplitude", C.eq(C.len(w.rows), m))
    C.forall(f"{name}: files in the order of the paths", (m,), lambda k: C.eq(C.item(w.rows, k)[3], C.at(ids, k)))
    C.forall(f"{name}: format and overwriting as asked", (m,), lambda k: C.item(w.rows, k)[4] == "poscar" and bool(C.item(w.rows, k)[5]) == over)
    C.forall(f"{name}: the structure's lattice", (m, 3, 3), lambda k, i, j: C.eq(C.at(C.item(w.rows, k)[0], i, j), C.at(L, i, j)))
    C.forall(f"{name}: the structure's atoms", (m, n), lambda k, i: C.and_(C.eq(C.len(C.item(w.rows, k)[1]), n), C.eq(C.item(C.item(w.rows, k)[1], i), C.item(z, i))))
    moved(C, C.list(m, lambda k: C.item(w.rows, k)[2]), p, L, n, m, a, cart, name)


def writable(C):
    """A structure whose atoms are grouped (the file formats need that)."""
    if C.mode == "sym": return structure(C)
    st, n, L, p, z = structure(C)
    z = sorted(z)
    try: return C.new(ReferenceStructure, z, L, p), n, L, p, z
    except SymmetryException: raise Discard()


@contract("C03", "write_displaced_structures", targets=[D.write_displaced_structures])
def _(C):
    st, n, L, p, z = writable(C); u = C.arr("u", (n, 3)); a = amplitudes(C); q = norm2(C, n, u); nonzero(C, q)
    written(C, D.write_displaced_structures, (st, u), a, p, L, n, z, lambda i, d: C.at(u, i, d) / C.sqrt(q), "written")


@contract("C03", "write_ast_displaced_structures", targets=[D.write_ast_displaced_structures])
def _(C):
    st, n, L, p, z = writable(C); d = C.arr("d", (3,)); a = amplitudes(C); atom = C.int("atom", 0, 6)
    q = C.at(d, 0) ** 2 + C.at(d, 1) ** 2 + C.at(d, 2) ** 2; nonzero(C, q); C.assume(C.lt(atom, n))
    if C.mode == "con" and atom >= n: raise Discard()
    written(C, D.write_ast_displaced_structures, (st, atom, d), a, p, L, n, z, lambda i, c: C.ite(C.eq(i, atom), C.at(d, c) / C.sqrt(q), 0), "written")


@contract("C03", "as many paths as amplitudes", targets=[D.write_displaced_structures, D.write_ast_displaced_structures], cases=20)
def _(C):
    st, n, L, p, z = writable(C); u = C.arr("u", (n, 3)); d = C.arr("d", (3,)); a = amplitudes(C); m = C.shape(a)[0]
    nonzero(C, norm2(C, n, u)); nonzero(C, C.at(d, 0) ** 2 + C.at(d, 1) ** 2 + C.at(d, 2) ** 2)
    k = C.dim("K", 0); C.assume(C.not_(C.eq(k, m))); ast = C.flag("one atom")
    if C.mode == "con":
        import os
        if k == m: raise Discard()
        folder = C.scratch(); paths = [os.path.join(folder, f"f{i}") for i in range(k)]
    else: w = Written(C); ids = C.arr("path", (k,), integer=True); paths = C.list(k, lambda i: C.at(ids, i))
    o = C.run(D.write_ast_displaced_structures, st, 0, d, a, paths, "poscar") if ast else C.run(D.write_displaced_structures, st, u, a, paths, "poscar")
    C.check(f"ValueError for another number of paths ({o!r})", o.is_(ValueError))
    C.check("nothing is written", C.eq(C.len(w.rows), 0) if C.mode == "sym" else not os.listdir(folder))
