"""C21: datasets assembled from several sources keep every sample aligned."""
import os
from vc.contract import contract, private
from contracts.common import *
from contracts.C17 import precision
from contracts import iofiles as F
from ramannoodle.dataset.torch import PolarizabilityDataset as DS
from ramannoodle.exceptions import IncompatibleStructureException
import ramannoodle.io._utils as IU
import ramannoodle.io.pymatgen as PM
import ramannoodle.io.generic as G
import ramannoodle.io.vasp as V

BUILD = PM.construct_polarizability_dataset


class Lat:
    def __init__(self, m): self.matrix = m


class Source:
    """What a pymatgen structure or a file provides."""
    def __init__(self, L, z, p, a): self.lattice, self.atomic_numbers, self.frac_coords, self.a, self.L = Lat(L), z, p, a, L


def source(C, L, z, p, a):
    if C.mode == "sym": return Source(L, z, p, a)
    import pymatgen.core
    return pymatgen.core.Structure(pymatgen.core.Lattice(np.array(L)), list(z), np.array(p))


def reader(C, rows):
    """A format-specific reader: the k-th path yields the k-th row."""
    def read(path):
        r = C.item(rows, path)
        return (r.L, r.atomic_numbers, r.frac_coords, r.a)
    return read


def files(C, m):
    C.replace(IU.pathify, lambda f: f)
    return C.list(m, lambda k: k)


def build_files(C, rows, m):
    """_read_polarizability_dataset over rows (the paths are symbolic numbers; at run time a list of paths)."""
    f = private(IU, "_read_polarizability_dataset")
    if C.mode == "sym": return C.run(f, files(C, m), reader(C, rows))
    names = [f"/nowhere/{k}" for k in range(m)]
    by = {p: r for p, r in zip(names, rows)}
    return C.run(f, names, lambda p: (np.array(by[str(p)].L), list(by[str(p)].atomic_numbers), np.array(by[str(p)].frac_coords), np.array(by[str(p)].a)))


def aligned(C, d, s, n, L, z, P_, A_):
    C.check("one sample per source", C.eq(C.len(d), s))
    pos, pol = C.get(d, "positions"), C.get(d, "polarizabilities")
    if not C.check_shape("positions", pos, (s, n, 3)) or not C.check_shape("polarizabilities", pol, (s, 3, 3)): return
    C.forall("positions of the source of the same index", (s, n, 3), lambda q, i, c: C.eq(C.at(pos, q, i, c), C.at(P_, q, i, c)))
    C.forall("polarizability of the source of the same index", (s, 3, 3), lambda q, i, j: C.eq(C.at(pol, q, i, j), C.at(A_, q, i, j)))
    q = C.int("q", 0, s - 1)
    it = C.item(d, q)
    if not C.check_shape("lattice", it[0], (3, 3)) or not C.check_shape("atomic numbers", it[1], (n,)): return
    C.forall("common lattice", (3, 3), lambda i, j: C.eq(C.at(it[0], i, j), C.at(L, i, j)))
    C.forall("common atomic numbers", (n,), lambda i: C.eq(C.at(it[1], i), C.item(z, i)))


def data(C):
    s, n = C.dim("S", 1), C.dim("N", 1)
    L = lattice(C); z = atomic_numbers(C, "Z", n)
    p = positions(C, "p", (s, n, 3)); a = C.arr("a", (s, 3, 3))
    return s, n, L, z, p, a


@contract("C21", "pymatgen structures: one aligned sample each", targets=[BUILD, PM.get_structure, PM.get_positions])
def _(C):
    with precision(C):
        s, n, L, z, p, a = data(C); k = C.snapshot(a)
        d = C.call(BUILD, C.list(s, lambda q: source(C, L, z, C.item(p, q), None)), a)
        aligned(C, d, s, n, L, z, p, a)
        C.unchanged("argument", a, k)


@contract("C21", "files: one aligned sample each", targets=[private(IU, "_read_polarizability_dataset"), IU.pathify_as_list])
def _(C):
    with precision(C):
        s, n, L, z, p, a = data(C)
        o = build_files(C, C.list(s, lambda q: Source(L, z, C.item(p, q), C.item(a, q))), s)
        C.check("accepted", not o.raised)
        if o.raised: return
        aligned(C, o.value, s, n, L, z, p, a)


def deviant(C, n, L, z):
    """The data of a source that differs in its lattice, its atomic numbers or its number of atoms."""
    kind = C.choice("difference", ["lattice", "numbers", "order", "atoms"])
    if kind == "lattice":
        if C.mode == "con":
            i, j = C.int("row", 0, 2), C.int("column", 0, 2); M = L.copy(); M[i, j] += C.rng.choice([1, -1]) * 10 ** C.rng.uniform(-2, .5)
            if abs(np.linalg.det(M)) < 1e-3: raise Discard()
            C.inputs["deviant lattice"] = M.tolist()
            return M, z, n
        M = C.arr("M", (3, 3))
        e = C.choice("differing entry", list(range(9))); x, y = C.at(M, e // 3, e % 3), C.at(L, e // 3, e % 3)
        far = lambda x, y: C.and_(*[C.lt(Fraction(1, 1000) * (1 + u * x + v * y), x - y) for u in (1, -1) for v in (1, -1)])
        C.assume(far(x, y) if C.flag("larger") else far(y, x))
        return M, z, n
    if kind == "numbers":
        i = C.int("i", 0, n - 1)
        if C.mode == "con":
            y = list(z); y[i] = y[i] % 100 + 1
            return L, y, n
        y = atomic_numbers(C, "Y", n); C.assume(C.not_(C.eq(C.item(y, i), C.item(z, i))))
        return L, y, n
    if kind == "order":
        if C.mode == "con":
            y = z[::-1]
            if y == z: raise Discard()
            return L, y, n
        i = C.int("i", 0, n - 1); C.assume(C.not_(C.eq(C.item(z, i), C.item(z, n - 1 - i))))
        return L, C.list(n, lambda k: C.item(z, n - 1 - k)), n
    m = C.dim("other N", 1)
    if C.decide(C.eq(m, n)): 
        if C.mode == "con": raise Discard()
        return None
    return L, (atomic_numbers(C, "Y", m) if C.mode == "sym" else [z[k % n] for k in range(m)]), m


from fractions import Fraction


def with_deviant(C, make):
    """rows before, the differing one, rows after: at any place, with at least one other source."""
    n = C.dim("N", 1); L = lattice(C); z = atomic_numbers(C, "Z", n)
    s1, s2 = C.dim("before"), C.dim("after")
    if C.decide(C.eq(s1 + s2, 0)): raise Discard() if C.mode == "con" else Skip()
    r = deviant(C, n, L, z)
    if r is None: raise Skip()
    M, y, m = r
    p1, p2, pm = positions(C, "p1", (s1, n, 3)), positions(C, "p2", (s2, n, 3)), positions(C, "pm", (m, 3))
    a = C.arr("a", (s1 + s2 + 1, 3, 3))
    rows = C.list(s1, lambda k: make(C, L, z, C.item(p1, k), C.item(a, k))) + C.lst(make(C, M, y, pm, C.item(a, s1))) + C.list(s2, lambda k: make(C, L, z, C.item(p2, k), C.item(a, s1 + 1 + k)))
    return rows, s1 + s2 + 1, a


class Skip(Exception): pass


def rejected(C, o): C.check("a source that differs is rejected", o.is_(IncompatibleStructureException, ValueError))


@contract("C21", "pymatgen structures: a differing source is rejected wherever it occurs", targets=[BUILD], cases=80)
def _(C):
    try: rows, s, a = with_deviant(C, source)
    except Skip: return
    rejected(C, C.run(BUILD, rows, a))


@contract("C21", "files: a differing source is rejected wherever it occurs", targets=[private(IU, "_read_polarizability_dataset")], cases=80)
def _(C):
    try: rows, s, a = with_deviant(C, lambda C, *r: Source(*r))
    except Skip: return
    rejected(C, build_files(C, rows, s))


def any_rows(C, make):
    """Sources with arbitrary lattices and numbers of a common number of atoms."""
    s, n = C.dim("S", 1), C.dim("N", 1)
    p = positions(C, "p", (s, n, 3)); a = C.arr("a", (s, 3, 3))
    if C.mode == "con":
        z = atomic_numbers(C, "Z", n); L = lattice(C); step = 10 ** C.rng.uniform(-7, -3)
        s = s + C.rng.randint(0, 12); p = np.array([p[k % len(p)] for k in range(s)]); a = np.array([a[k % len(a)] for k in range(s)])
        Ls = [L + step * k * np.eye(3) for k in range(s)]; zs = [z] * s
        C.inputs.update(lattices=[x.tolist() for x in Ls])
        return [make(C, *r) for r in zip(Ls, zs, p, a)], Ls, zs, s, n, a
    LL = C.arr("L", (s, 3, 3)); ZZ = C.arr("Z", (s, n), integer=True, lo=1, hi=118)
    zl = lambda k: C.list(n, lambda i: C.at(ZZ, k, i))
    return C.list(s, lambda k: make(C, C.item(LL, k), zl(k), C.item(p, k), C.item(a, k))), LL, ZZ, s, n, a


def all_agree(C, o, LL, ZZ, s, n):
    if o.raised: C.check("refused as incompatible", o.is_(IncompatibleStructureException, ValueError)); return
    q, i, j = C.int("q", 0, s - 1), C.int("i", 0, 2), C.int("j", 0, 2); at = C.int("at", 0, n - 1)
    x, y = C.at(LL, q, i, j), C.at(LL, 0, i, j)
    C.check("accepted sources share the lattice of the first", C.le(C.abs(x - y), Fraction(3, 100000) * (1 + C.abs(x) + C.abs(y)) if C.mode == "sym" else 3e-5 * (1 + abs(x) + abs(y))))
    C.check("accepted sources share the atomic numbers of the first", C.eq(C.at(ZZ, q, at), C.at(ZZ, 0, at)))


@contract("C21", "pymatgen structures: what is accepted agrees throughout", targets=[BUILD])
def _(C):
    rows, LL, ZZ, s, n, a = any_rows(C, source)
    all_agree(C, C.run(BUILD, rows, a), LL, ZZ, s, n)


@contract("C21", "files: what is accepted agrees throughout", targets=[private(IU, "_read_polarizability_dataset")])
def _(C):
    rows, LL, ZZ, s, n, a = any_rows(C, lambda C, *r: Source(*r))
    all_agree(C, build_files(C, rows, s), LL, ZZ, s, n)


@contract("C21", "real files, every format and entry point", targets=[V.outcar.read_polarizability_dataset, V.vasprun.read_polarizability_dataset, G.read_polarizability_dataset, IU.pathify_as_list], mode="bounded", cases=50,
          note="Files written by contracts/iofiles.py; the parsing itself is C16.")
def _(C):
    s = C.choice("sources", [1, 2, 3, 5]); fmt = C.choice("format", ["outcar", "vasprun.xml"]); generic = C.flag("generic")
    n1, n2 = C.choice("n1", [1, 2]), C.choice("n2", [0, 1, 3])
    z = [22] * n1 + [8] * n2; n = len(z); L = np.round(lattice(C), 6); bad = C.choice("deviation", ["", "", "lattice", "numbers", "atoms", "missing"]); where = C.choice("at", [0, 1, 2, 4]) % s
    if abs(np.linalg.det(L)) < 1: raise Discard()
    t = C.scratch(); paths = []; pp, aa = [], []
    for k in range(s):
        p = np.round(positions(C, f"p{k}", (n, 3)), 6); a = np.round(C.arr(f"a{k}", (3, 3)), 4); a = (a + a.T) / 2; M, y = L, z
        if bad and k == where and s > 1:
            if bad == "lattice": M = L + .01 * np.eye(3)
            if bad == "numbers": y = [22] * n1 + [16] * n2 if n2 else [8] * n1
            if bad == "atoms": y = z + [z[-1]]; p = np.vstack([p, [[.1, .2, .3]]])
        f = os.path.join(t, f"f{k}")
        if not (bad == "missing" and k == where): open(f, "w").write(F.outcar_text(M, y, p, a) if fmt == "outcar" else F.vasprun_text(M, y, p, a))
        paths.append(f); pp.append(p); aa.append(a)
    fn = (lambda x: G.read_polarizability_dataset(x, fmt)) if generic else (V.outcar if fmt == "outcar" else V.vasprun).read_polarizability_dataset
    arg = paths if s > 1 or C.flag("list") else paths[0]
    o = C.run(fn, arg)
    if bad == "missing": C.check("missing file", o.is_(FileNotFoundError)); return
    if bad and s > 1: C.check("a source that differs is rejected", o.is_(IncompatibleStructureException)); return
    C.check(f"accepted ({o})" if o.raised else "accepted", not o.raised)
    if o.raised: return
    d = o.value
    C.check("one sample per file", len(d) == s and d.positions.shape == (s, n, 3))
    C.check("positions in order", np.allclose(d.positions, pp, atol=2e-6)); C.check("polarizabilities in order", np.allclose(d.polarizabilities, aa, atol=1e-6))
    C.check("atomic numbers", d.atomic_numbers == z); C.check("lattice", all(np.allclose(d[k][0].numpy(), L, atol=1e-4) for k in range(s)))


@contract("C21", "wrong argument shapes are refused", targets=[BUILD])
def _(C):
    s, n, L, z, p, a = data(C); k = C.dim("K")
    if C.decide(C.eq(k, s)): return
    rows = C.list(s, lambda q: source(C, L, z, C.item(p, q), None))
    C.check("another number of polarizabilities", C.run(BUILD, rows, C.arr("b", (k, 3, 3))).is_(ValueError))
    C.check("no files", C.run(IU.pathify_as_list, C.lst()).is_(ValueError))
