"""C17: polarizability vectors, tensors and dataset scaling agree."""
import contextlib
from vc.contract import contract, private
from contracts.common import *
from ramannoodle.dataset.torch import PolarizabilityDataset as DS
import ramannoodle.dataset.torch.utils as DU
import ramannoodle.dataset.torch._dataset as DD
import torch

COMP = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
WHICH = [[0, 3, 4], [3, 1, 5], [4, 5, 2]]


@contextlib.contextmanager
def precision(C):
    """Runtime cases run under either default precision."""
    if C.mode == "sym": yield; return
    old = torch.get_default_dtype()
    d = torch.float64 if C.choice("default dtype", [0, 1]) else torch.float32
    torch.set_default_dtype(d)
    C.TOL = 2e-4 if d == torch.float32 else 1e-7
    try: yield
    finally: torch.set_default_dtype(old)


def tensor(C, name, shape): return C.arr(name, shape, kind="torch")


@contract("C17", "vectors to tensors", targets=[DU.polarizability_vectors_to_tensors])
def _(C):
    with precision(C):
        s = C.dim("S"); v = tensor(C, "v", (s, 6)); k = C.snapshot(v)
        t = C.call(DU.polarizability_vectors_to_tensors, v)
        if not C.check_shape("shape", t, (s, 3, 3)): return
        for i in range(3):
            for j in range(3): C.forall(f"component {i}{j}", (s,), lambda q: C.eq(C.at(t, q, i, j), C.at(v, q, WHICH[i][j])))
        C.forall("symmetric", (s, 3, 3), lambda q, i, j: C.eq(C.at(t, q, i, j), C.at(t, q, j, i)))
        C.unchanged("argument", v, k)
        b = C.call(DU.polarizability_tensors_to_vectors, t)
        C.check_eq_arr("back to the same vector", b, v)


@contract("C17", "tensors to vectors", targets=[DU.polarizability_tensors_to_vectors])
def _(C):
    with precision(C):
        s = C.dim("S"); a = tensor(C, "a", (s, 3, 3)); t = (a + a.transpose(1, 2)) / 2; k = C.snapshot(t)
        v = C.call(DU.polarizability_tensors_to_vectors, t)
        if not C.check_shape("shape", v, (s, 6)): return
        for c, (i, j) in enumerate(COMP): C.forall(f"component {c}", (s,), lambda q: C.eq(C.at(v, q, c), C.at(t, q, i, j)))
        C.unchanged("argument", t, k)
        C.check_eq_arr("back to the same tensor", C.call(DU.polarizability_vectors_to_tensors, v), t)


@contract("C17", "wrong sizes are refused", targets=[DU.polarizability_vectors_to_tensors, DU.polarizability_tensors_to_vectors, DU.verify_tensor_size])
def _(C):
    s = C.dim("S"); w = C.dim("W")
    o = C.run(DU.polarizability_vectors_to_tensors, tensor(C, "v", (s, w)))
    C.check("vectors of another length", o.raised if not C.decide(C.eq(w, 6)) else not o.raised)
    if not C.decide(C.eq(w, 6)): C.check("ValueError", o.is_(ValueError))
    o = C.run(DU.polarizability_tensors_to_vectors, tensor(C, "t", (s, 3, w)))
    C.check("tensors of another size", o.is_(ValueError) if not C.decide(C.eq(w, 3)) else not o.raised)
    C.check("vector without samples axis", C.run(DU.polarizability_vectors_to_tensors, tensor(C, "u", (6,))).is_(ValueError))
    C.check("tensor without samples axis", C.run(DU.polarizability_tensors_to_vectors, tensor(C, "x", (3, 3))).is_(ValueError))


def dataset(C, lo=1):
    s = C.dim("S", lo); n = C.dim("N", 1)
    L = lattice(C); p = C.arr("p", (s, n, 3)); z = atomic_numbers(C, "Z", n)
    a = C.arr("pol", (s, 3, 3)); a = (a + C.call(np.swapaxes, a, 1, 2)) / 2
    return C.new(DS, L, z, p, a), s, n, L, z, p, a


def moments(C, a, s):
    mu = lambda i, j: C.sum(s, lambda q: C.at(a, q, i, j)) / s
    sd = lambda i, j: C.sqrt(C.sum(s, lambda q: (C.at(a, q, i, j) - mu(i, j)) * (C.at(a, q, i, j) - mu(i, j))) / s)
    return mu, sd


def spread(C, a, s):
    """Samples differ in every component (the standard deviation is not zero)."""
    mu, sd = moments(C, a, s)
    for i, j in COMP:
        if C.mode == "con":
            if sd(i, j) < 1e-3: raise Discard()
        else: C.assume(C.not_(C.eq(sd(i, j), 0)))


@contract("C17", "standard scaling with the dataset's own moments", targets=[DS.__init__, private(DD, "_scale_and_flatten_polarizabilities"), DS.scaled_polarizabilities])
def _(C):
    with precision(C):
        d, s, n, L, z, p, a = dataset(C); spread(C, a, s)
        mu, sd = moments(C, a, s)
        f = C.get(d, "scaled_polarizabilities")
        if not C.check_shape("shape", f, (s, 6)): return
        for c, (i, j) in enumerate(COMP): C.forall(f"component {c}", (s,), lambda q: C.eq(C.at(f, q, c) * sd(i, j), C.at(a, q, i, j) - mu(i, j)))


@contract("C17", "moments", targets=[DS.mean_polarizability, DS.stddev_polarizability])
def _(C):
    with precision(C):
        d, s, n, L, z, p, a = dataset(C); mu, sd = moments(C, a, s)
        m = C.get(d, "mean_polarizability"); v = C.get(d, "stddev_polarizability")
        if not C.check_shape("mean", m, (3, 3)) or not C.check_shape("standard deviation", v, (3, 3)): return
        for i in range(3):
            for j in range(3):
                C.check(f"mean {i}{j}", C.eq(C.at(m, i, j), mu(i, j)))
                C.check(f"population standard deviation {i}{j}", C.eq(C.at(v, i, j), sd(i, j)))


@contract("C17", "rescaling", targets=[DS.scale_polarizabilities])
def _(C):
    with precision(C):
        d, s, n, L, z, p, a = dataset(C)
        mu = C.arr("mu", (3, 3)); sd = C.arr("sd", (3, 3)); mu = (mu + mu.T) / 2; sd = (sd + sd.T) / 2
        if C.mode == "con": sd = (abs(sd) + .1) * C.choice("spread", [1, 1, 1e-4, 1e-7, 1e5])
        times = 2 if C.flag("twice") else 1
        for i, j in COMP: C.assume(C.not_(C.eq(C.at(sd, i, j), 0)))
        if times == 2: C.meth(d, "scale_polarizabilities", mu + 1, sd * 2)
        C.meth(d, "scale_polarizabilities", mu, sd)
        f = C.get(d, "scaled_polarizabilities")
        if not C.check_shape("shape", f, (s, 6)): return
        for c, (i, j) in enumerate(COMP): C.forall(f"component {c}", (s,), lambda q: C.eq(C.at(f, q, c) * C.at(sd, i, j), C.at(a, q, i, j) - C.at(mu, i, j)) if C.mode == "sym" else C.eq(C.at(f, q, c), (C.at(a, q, i, j) - C.at(mu, i, j)) / C.at(sd, i, j)))
        C.check_eq_arr("stored polarizabilities untouched", C.get(d, "polarizabilities"), a)
        m, v = moments(C, a, s)
        own = C.get(d, "mean_polarizability")
        for i, j in COMP: C.check(f"own mean unchanged {i}{j}", C.eq(C.at(own, i, j), m(i, j)))
        q = C.int("q", 0, s - 1)
        it = C.item(d, q)
        for c in range(6): C.check(f"items carry the new scaling {c}", C.eq(C.at(it[3], c), C.at(f, q, c)))


@contract("C17", "rescaling: wrong shapes refused", targets=[DS.scale_polarizabilities])
def _(C):
    d, s, n, L, z, p, a = dataset(C); b = C.get(d, "scaled_polarizabilities")
    k = C.dim("K")
    good = C.arr("good", (3, 3)); bad = C.arr("bad", (3, k))
    if C.decide(C.eq(k, 3)): return
    for x, y in ((good, bad), (bad, good)): C.check("ValueError", C.run(C.get(d, "scale_polarizabilities"), x, y).is_(ValueError))
    C.check_eq_arr("scaling unchanged", C.get(d, "scaled_polarizabilities"), b) if C.mode == "sym" else C.check("scaling unchanged", np.array_equal(d.scaled_polarizabilities, b, equal_nan=True))


@contract("C17", "items and length", targets=[DS.__len__, DS.__getitem__, DS.num_samples, DS.num_atoms, DS.positions, DS.polarizabilities, DS.atomic_numbers])
def _(C):
    with precision(C):
        d, s, n, L, z, p, a = dataset(C)
        C.check("length", C.eq(C.len(d), s)); C.check("num_samples", C.eq(C.get(d, "num_samples"), s)); C.check("num_atoms", C.eq(C.get(d, "num_atoms"), n))
        C.check_eq_arr("positions", C.get(d, "positions"), p); C.check_eq_arr("polarizabilities", C.get(d, "polarizabilities"), a)
        zz = C.get(d, "atomic_numbers")
        C.check("number of atomic numbers", C.eq(C.len(zz), n))
        C.forall("atomic numbers", (n,), lambda i: C.eq(C.item(zz, i), C.item(z, i)))
        q = C.int("q", 0, s - 1)
        it = C.item(d, q)
        C.check("four parts", len(it) == 4)
        if not C.check_shape("lattice", it[0], (3, 3)) or not C.check_shape("numbers", it[1], (n,)) or not C.check_shape("positions", it[2], (n, 3)) or not C.check_shape("vector", it[3], (6,)): return
        C.forall("item lattice", (3, 3), lambda i, j: C.eq(C.at(it[0], i, j), C.at(L, i, j)))
        C.forall("item numbers", (n,), lambda i: C.eq(C.at(it[1], i), C.item(z, i)))
        C.forall("item positions", (n, 3), lambda i, j: C.eq(C.at(it[2], i, j), C.at(p, q, i, j)))
        f = C.get(d, "scaled_polarizabilities")
        if C.mode == "sym": C.forall("item vector", (6,), lambda c: C.eq(C.at(it[3], c), C.at(f, q, c)))
        else: C.check("item vector", np.array_equal(it[3].numpy(), f[q], equal_nan=True))


@contract("C17", "constructor arguments that do not match are refused", targets=[DS.__init__])
def _(C):
    s = C.dim("S", 1); n = C.dim("N", 1); k = C.dim("K", 1)
    L = lattice(C); z = atomic_numbers(C, "Z", n)
    if C.decide(C.eq(n, k)) or C.decide(C.eq(s, k)): return
    C.check("positions of another number of atoms", C.run(DS, L, z, C.arr("p1", (s, k, 3)), C.arr("a1", (s, 3, 3))).is_(ValueError))
    C.check("another number of polarizabilities", C.run(DS, L, z, C.arr("p2", (s, n, 3)), C.arr("a2", (k, 3, 3))).is_(ValueError))
    C.check("lattice shape", C.run(DS, C.arr("L2", (2, 3)), z, C.arr("p3", (s, n, 3)), C.arr("a3", (s, 3, 3))).is_(ValueError))
    C.check("atomic numbers not a list", C.run(DS, L, C.arr("zz", (n,)), C.arr("p4", (s, n, 3)), C.arr("a4", (s, 3, 3))).is_(TypeError))
