"""C14: written structures and trajectories read back unchanged."""
import os
from vc.contract import contract, private
from contracts.common import *
from ramannoodle.constants import ATOM_SYMBOLS
from ramannoodle.exceptions import InvalidFileException
from ramannoodle.dynamics import Trajectory
import ramannoodle.io.generic as G
import ramannoodle.io.vasp.poscar as PO
import ramannoodle.io.vasp.xdatcar as XD

LABELS = ["POSCAR written by ramannoodle", "", " ", "x", "Direct", "two\nlines", "\n", "a\r\nb", "tab\there", "'quoted'", 'say "hi"', "it's \"both\"", "back\\slash\\n", "unicode é ∞ 原子", "\x0b\x0c\x1c\x85\u2028\u2029", "\ufeffbom", "\x00null", "lone \udc80", "1.0", "9" * 3000, "{0} %s %d", "# comment", "   1.00000000000000"]
NUMBERS = sorted(ATOM_SYMBOLS)


def grouped(C, n, name="Z"):
    """Atomic numbers in contiguous groups."""
    cuts = C.arr(name + " cuts", (n,), integer=True, lo=0, hi=2)
    pool = [NUMBERS[int(k) % len(NUMBERS)] for k in C.arr(name + " pool", (n,), integer=True, lo=0, hi=10 ** 4, distinct=True)]
    out = []; used = set()
    for i in range(n):
        if i == 0 or cuts[i] == 0 and len(used) < len(NUMBERS):
            k = pool[i]
            while k in used: k = NUMBERS[(NUMBERS.index(k) + 1) % len(NUMBERS)]
            used.add(k); out.append(k)
        else: out.append(out[-1])
    return out


SPECIAL = [0., 1., .5, 1 / 3, 2 / 3, 1e-16, 4e-17, 1e-300, 1 - 2 ** -53, 1 - 1e-15, .1, 1e-10, .25, 0.3333333333333333, -0.0]


def in_cell(C, name, shape):
    def style(r, s): return np.where(r.random(s) < .4, r.choice(SPECIAL, s), r.random(s))
    return C.arr(name, shape, style=style)


def basis(C, name="lat"):
    L = lattice(C, name)
    k = C.choice("scale of the lattice", [0, 0, 0, 1, 2, 3])
    if k == 1: L = L * 1e4
    elif k == 2: L = L * 1e-2
    elif k == 3: L = np.round(L, 1)
    if np.linalg.matrix_rank(L) < 3 or not np.isfinite(L).all(): raise Discard()
    return L


def target(C, name="out"):
    p = os.path.join(C.scratch(), C.choice("file name", ["POSCAR", "a b", "é.vasp", "x.poscar"]) + name)
    if C.flag("as Path"):
        from pathlib import Path
        return Path(p)
    return p


def close(a, b):
    """Equal to 16 decimals (half a unit) up to the spacing of doubles."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 0.5001e-16 + 1.01 * np.spacing(np.maximum(np.abs(a), np.abs(b)))))


def views(C, x):
    """The same values as another kind of array."""
    k = C.choice("array kind", [0, 0, 0, 1, 2, 3])
    if k == 1: return np.asfortranarray(x)
    if k == 2: return np.concatenate([x, x])[:len(x)] if x.ndim else x
    if k == 3: y = x.copy(); y.flags.writeable = False; return y
    return x


def atoms(C): return C.dim("N", 1)


def same(C, name, got, L, z, x):
    C.check(f"{name}: lattice", close(got[0], L)); C.check(f"{name}: atomic numbers", got[1] == z); C.check(f"{name}: positions", close(got[2], x))


@contract("C14", "structures", targets=[PO.write_structure, PO.read_structure, G.write_structure, G.read_positions], mode="bounded", cases=400)
def _(C):
    n = atoms(C); L = basis(C); z = grouped(C, n); x = in_cell(C, "x", (n, 3)); f = target(C)
    if C.flag("something is there already"): open(f, "w").write("junk\n" * 400); over = dict(overwrite=True)
    else: over = {}
    how = C.choice("writer", ["direct", "label", "poscar", "xdatcar"])
    if how == "direct": o = C.run(PO.write_structure, views(C, L), list(z), views(C, x), f, **over)
    elif how == "label": o = C.run(PO.write_structure, L, list(z), x, f, label=C.choice("label", LABELS), **over)
    else: o = C.run(G.write_structure, views(C, L), list(z), views(C, x), f, how, **over)
    if o.raised: C.check(f"written ({o!r})", False); return
    same(C, "read_structure", PO.read_structure(f), L, z, x)
    C.check("read_positions", close(PO.read_positions(f), x))
    C.check("generic read_positions", close(G.read_positions(f, "poscar"), x) and close(G.read_positions(str(f), "xdatcar"), x))


@contract("C14", "reference structures", targets=[PO.write_structure, PO.read_ref_structure, G.read_ref_structure], mode="bounded", cases=60)
def _(C):
    st, n, L, p, z = structure(C)
    z = sorted(z)
    if n > 8: raise Discard()
    try: st = ReferenceStructure(z, L, p)
    except SymmetryException: raise Discard()
    f = target(C)
    C.call(PO.write_structure, st.lattice, st.atomic_numbers, st.positions, f)
    for nm, r in (("direct", PO.read_ref_structure(f)), ("generic", G.read_ref_structure(f, "poscar")), ("as xdatcar", G.read_ref_structure(f, "xdatcar"))):
        same(C, nm, (r.lattice, r.atomic_numbers, r.positions), L, z, p)


@contract("C14", "ungrouped atoms are refused", targets=[PO.write_structure, XD.write_trajectory], mode="bounded", cases=150)
def _(C):
    n = C.dim("N", 3); L = basis(C); z = grouped(C, n); x = in_cell(C, "x", (n, 3)); f = target(C)
    if len(set(z)) < 2: raise Discard()
    i = C.int("from", 0, n - 1); j = C.int("to", 0, n - 1); z[i], z[j] = z[j], z[i]
    if C.flag("one more"): z[C.int("at", 0, n - 1)] = z[C.int("like", 0, n - 1)]
    runs = [k for q, k in enumerate(z) if q == 0 or z[q - 1] != k]
    if len(set(runs)) == len(runs): raise Discard()
    o = C.run(XD.write_trajectory, L, z, x[None], f) if C.flag("trajectory") else C.run(PO.write_structure, L, z, x, f)
    C.check(f"ValueError (got {o!r})", o.is_(ValueError)); C.check("no file", not os.path.lexists(f))


@contract("C14", "trajectories", targets=[XD.write_trajectory, XD.read_positions_ts, XD.read_trajectory, G.write_trajectory], mode="bounded", cases=600)
def _(C):
    n = atoms(C); s = C.dim("S", 1); L = basis(C); z = grouped(C, n); x = in_cell(C, "x", (s, n, 3)); f = target(C)
    over = {}
    if C.flag("something is there already"): open(f, "w").write("junk\n" * 4000); over = dict(overwrite=True)
    how = C.choice("writer", ["direct", "label", "xdatcar"])
    if how == "direct": o = C.run(XD.write_trajectory, L, list(z), views(C, x), f, **over)
    elif how == "label": o = C.run(XD.write_trajectory, L, list(z), x, f, label=C.choice("label", LABELS), **over)
    else: o = C.run(G.write_trajectory, L, list(z), views(C, x), f, "xdatcar", **over)
    if o.raised: C.check(f"written ({o!r})", False); return
    C.check("every configuration, in order", close(XD.read_positions_ts(f), x))
    dt = C.real("dt", lo=.1, hi=9); t = XD.read_trajectory(f, dt)
    C.check("trajectory", len(t) == s and t.timestep == dt and close(t.positions_ts, x % 1))
    same(C, "first configuration", PO.read_structure(f), L, z, x[0])


@contract("C14", "long trajectories", targets=[XD.write_trajectory, XD.read_positions_ts], mode="bounded", cases=3)
def _(C):
    n = C.int("N", 1, 3); s = C.choice("S", [1000, 2345, 10001]); L = basis(C); z = grouped(C, n); x = in_cell(C, "x", (s, n, 3)); f = target(C)
    C.call(XD.write_trajectory, L, z, x, f)
    C.check("every configuration, in order", close(XD.read_positions_ts(f), x))


@contract("C14", "many atoms", targets=[PO.write_structure, XD.write_trajectory], mode="bounded", cases=10)
def _(C):
    n = C.choice("N", [100, 1000, 1001, 2500, 11000]); L = basis(C); a = C.choice("species", [8, 22, 118]); q = C.choice("part", [2, 3, 50])
    z = sorted(grouped(C, n)) if C.flag("many species") else sorted(a if i * q < n else 38 for i in range(n)); x = in_cell(C, "x", (n, 3)); f = target(C)
    C.call(PO.write_structure, L, z, x, f); same(C, "structure", PO.read_structure(f), L, z, x)
    y = in_cell(C, "y", (2, n, 3)); C.call(XD.write_trajectory, L, z, y, f, overwrite=True); C.check("trajectory", close(XD.read_positions_ts(f), y))


@contract("C14", "trajectory objects", targets=[XD.write_trajectory, Trajectory.positions_ts.fget], mode="bounded", cases=20)
def _(C):
    n = atoms(C); s = C.dim("S", 1); L = basis(C); z = grouped(C, n); x = C.arr("x", (s, n, 3)); f = target(C)
    t = Trajectory(x, 1.); C.call(XD.write_trajectory, L, z, t.positions_ts, f)
    u = XD.read_trajectory(f, 1.)
    C.check("same length", len(u) == len(t))
    C.check("same configurations", np.abs(u.positions_ts - t.positions_ts - np.rint(u.positions_ts - t.positions_ts)).max(initial=0) <= 1e-15)


# ---------------------------------------------------------------------------- for all structures: the text written, read back
from contracts import ghost


def species(C, g):
    """Atomic numbers in g groups: any different elements, any numbers of atoms."""
    from vc.values import PList, Seg
    from vc.sym import topoly, E
    from vc.terms import mk_le
    e = [C.int(f"element {k}", 1, 118) for k in range(g)]; c = [C.dim(f"atoms of {k}", 1) for k in range(g)]; segs = []
    for i in range(g):
        for j in range(i): C.assume(C.not_(C.eq(e[i], e[j])))
        segs += [Seg(vals=[e[i]]), Seg(topoly(c[i]) - 1, at=lambda k, i=i: e[i])]
    n = c[0]
    for x in c[1:]: n = n + x
    z = PList.of_segs(segs)
    return e, c, n, z


def number(C, e, c, i):
    """Atomic number of atom i."""
    v = e[-1]; end = c[0]; ends = []
    for k in c: ends.append(k if not ends else ends[-1] + k)
    for k in range(len(e) - 2, -1, -1): v = C.ite(C.lt(i, ends[k]), e[k], v)
    return v


def off(C, a, b): return C.le(C.abs(a - b) * 2 * 10 ** 16, 1)


def read_back(C, name, got, L, e, c, n, at):
    C.check(f"{name}: three parts", len(got) == 3)
    lat, num, pos = got
    if not C.check_shape(f"{name}: lattice", lat, (3, 3)) or not C.check_shape(f"{name}: positions", pos, (n, 3)): return
    for i in range(3):
        for j in range(3): C.check(f"{name}: lattice {i}{j} to 16 decimals", off(C, C.at(lat, i, j), C.at(L, i, j)))
    C.check(f"{name}: number of atoms", C.eq(C.len(num), n))
    C.forall(f"{name}: atomic numbers in order", (n,), lambda i: C.eq(C.item(num, i), number(C, e, c, i)))
    for j in range(3): C.forall(f"{name}: positions to 16 decimals, column {j}", (n,), lambda i: off(C, C.at(pos, i, j), at(i, j)))


def in_text(C, L):
    """The lattice vectors still span space once they are rounded to 16 decimals."""
    s = 10 ** 16
    from contracts.common import det3
    R = lambda i, j: C.floor(C.at(L, i, j) * s + .5) / s
    d = 0
    for a, b, k, sg in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (2, 1, 0, -1), (0, 2, 1, -1), (1, 0, 2, -1)): d = d + sg * R(0, a) * R(1, b) * R(2, k)
    C.assume(C.not_(C.eq(d, 0)))


def structure_round_trip(g):
    @contract("C14", f"structures of {g} species of any size", targets=[PO.write_structure, PO.read_structure, private(PO, "_get_symbols_str"), private(PO, "_get_positions_str"), private(PO, "_get_lattice_str"), private(PO, "_read_lattice"), private(PO, "_read_atomic_symbols"), private(PO, "_read_positions")], cases=1, timeout=150)
    def _(C):
        if C.mode == "con": return
        from vc.textmodel import Word
        from vc.values import Rope
        e, c, n, z = species(C, g); L = C.arr("L", (3, 3)); x = C.arr("x", (n, 3)); label = Rope([Word("label", True)])
        C.assume(C.all(n, lambda i: C.all(3, lambda j: C.and_(C.le(0, C.at(x, i, j)), C.le(C.at(x, i, j), 1)))))
        in_text(C, L); ghost.Disk(C, "/nowhere/POSCAR")
        C.call(PO.write_structure, L, z, x, "/nowhere/POSCAR", False, label)
        read_back(C, "read_structure", C.call(PO.read_structure, "/nowhere/POSCAR"), L, e, c, n, lambda i, j: C.at(x, i, j))


for g in (1, 2, 3): structure_round_trip(g)
