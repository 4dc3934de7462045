"""C18: batched graph construction depends only on the batch size requested."""
from vc.contract import contract, private
from contracts.common import *
from contracts.C17 import precision
import ramannoodle.pmodel.torch._utils as TU
import torch

NODES = (0, 1, 2, 3, 4)             # entries of a triplet result that hold node indexes; 5 and 6 hold edge indexes


def graph(C, name=""):
    """Edge indexes of one structure: random directed graphs at run time, any integers in the proof."""
    n = C.dim(name + "N", 1)
    if C.mode == "sym":
        e = C.dim(name + "E"); return n, e, C.arr(name + "edges", (3, e), kind="torch", integer=True, lo=0)
    n = 2 + n % 5
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b and C.rng.random() < C.density]
    e = torch.tensor([[0, a, b] for a, b in pairs], dtype=torch.long).reshape(-1, 3).T
    C.inputs[name + "edges"] = e.tolist(); C.inputs[name + "nodes"] = n
    return n, e.shape[1], e


def triplets(C, name=""):
    """The real object over arbitrary single-structure triplets: (object, nodes, the seven of them)."""
    if C.mode == "con": C.density = C.choice(name + "density", [.3, .7, 1.])
    n, e, edges = graph(C, name)
    if C.mode == "sym":
        t = C.dim(name + "T")
        ref = tuple(C.arr(f"{name}ref{k}", (e if k < 2 else t,), kind="torch", integer=True) for k in range(7))
        C.replace(TU.dimenet_triplets, lambda edge_index=None, num_nodes=None, **kw: ref)
    else: ref = tuple(x.clone() for x in TU.dimenet_triplets(edge_index=edges[[1, 2]], num_nodes=n))
    return C.new(TU.BatchTriplets, n, edges), n, ref, edges


def right(C, tag, got, ref, n, b):
    """got is the batch-of-b version of the single-structure triplets ref."""
    C.check(f"{tag}: seven parts", len(got) == 7)
    e = C.shape(ref[0])[0]
    if C.decide(C.eq(b, 1)): b = 1
    for k in range(7):
        w = C.shape(ref[k])[0]
        if not C.check_shape(f"{tag}: size of part {k}", got[k], (b * w,)): return
        C.forall(f"{tag}: part {k}", (b, w), lambda g, i: C.eq(C.at(got[k], g * w + i), C.at(ref[k], i) + g * (n if k in NODES else e)))


@contract("C18", "triplets for any batch size", targets=[TU.BatchTriplets.__init__, TU.BatchTriplets.get_triplets])
def _(C):
    bt, n, ref, edges = triplets(C); b = C.dim("B", 1)
    k = C.snapshot(edges)
    right(C, "result", C.call(bt.get_triplets, b) if C.mode == "con" else C.meth(bt, "get_triplets", b), ref, n, b)
    C.unchanged("edge indexes given", edges, k)


@contract("C18", "independent of earlier requests", targets=[TU.BatchTriplets.get_triplets])
def _(C):
    bt, n, ref, edges = triplets(C)
    b = [C.dim(f"B{i}", 1) for i in range(3)]
    if C.mode == "con" and C.flag("return to an earlier size"): b[2] = b[0]
    if C.mode == "con" and C.flag("single first"): b[0] = 1
    for i in range(1, 3):
        for j in range(i):
            if C.decide(C.eq(b[i], b[j])): b[i] = b[j]
    out = []; snaps = []
    for i in range(3):
        r = C.meth(bt, "get_triplets", b[i]); out.append(r); snaps.append([C.snapshot(x) for x in r])
    for i in range(3):
        right(C, f"request {i}", out[i], ref, n, b[i])
        for k in range(7): C.unchanged(f"request {i} part {k} not modified by later requests", out[i][k], snaps[i][k])


@contract("C18", "the same size again", targets=[TU.BatchTriplets.get_triplets])
def _(C):
    bt, n, ref, edges = triplets(C); b = C.dim("B", 1); c = C.dim("D", 1)
    C.meth(bt, "get_triplets", b); r1 = C.meth(bt, "get_triplets", b)
    right(C, "second request", r1, ref, n, b)
    C.meth(bt, "get_triplets", c); right(C, "and after another size", C.meth(bt, "get_triplets", b), ref, n, b)


@contract("C18", "two graphs do not interfere", targets=[TU.BatchTriplets.get_triplets])
def _(C):
    b = C.dim("B", 1); c = C.dim("D", 1)
    if C.decide(C.eq(b, c)): b = c
    one, n1, ref1, _e = triplets(C, "a"); two, n2, ref2, _f = triplets(C, "b")
    C.meth(one, "get_triplets", b); C.meth(two, "get_triplets", c)
    right(C, "first", C.meth(one, "get_triplets", b), ref1, n1, b)
    right(C, "second", C.meth(two, "get_triplets", b), ref2, n2, b)


@contract("C18", "batches of positions", targets=[TU.batch_positions])
def _(C):
    s = C.dim("S"); n = C.dim("N"); b = C.dim("B", 1)
    p = C.arr("p", (s, n, 3)); k = C.snapshot(p)
    out = C.call(list, C.call(TU.batch_positions, p, b))
    m = C.len(out)
    C.check("number of chunks", C.and_(C.le((m - 1) * b + 1, s) if True else 0, C.le(s, m * b)) if C.decide(C.lt(0, s)) else C.eq(m, 0))
    if C.decide(C.le(s, 0)): return
    if C.mode == "con":
        C.check("every configuration once, in order", np.array_equal(np.concatenate([np.zeros((0, n, 3))] + out), p))
        C.check("chunk sizes", all(len(x) == b for x in out[:-1]) and all(0 < len(x) <= b for x in out))
    else:
        q = C.int("q", 0, m - 1)
        ck = C.item(out, q); last = C.eq(q, m - 1)
        C.check("chunk size", C.eq(C.shape(ck)[0], C.ite(last, s - (m - 1) * b, b)))
        C.check("chunk shape", C.and_(C.eq(C.shape(ck)[1], n), C.eq(C.shape(ck)[2], 3)))
        C.forall("chunk contents", (C.shape(ck)[0], n, 3), lambda i, j, c: C.eq(C.at(ck, i, j, c), C.at(p, q * b + i, j, c)))
    C.unchanged("argument", p, k)


@contract("C18", "graph info", targets=[TU.get_graph_info])
def _(C):
    with precision(C):
        s, n, x = C.dim("S", 1), C.dim("N", 1), C.dim("X")
        d = C.arr("d", (s, n, n, 3), kind="torch"); r = C.arr("r", (s, n, n), kind="torch")
        g = [C.arr("e0", (x,), kind="torch", integer=True, lo=0, hi=s - 1), C.arr("e1", (x,), kind="torch", integer=True, lo=0, hi=n - 1), C.arr("e2", (x,), kind="torch", integer=True, lo=0, hi=n - 1)]
        e = C.call(torch.stack, g)
        kd, kr = C.snapshot(d), C.snapshot(r)
        ei, u, dist = C.call(TU.get_graph_info, d, e, r, n)
        if not C.check_shape("edge indexes", ei, (3, x)) or not C.check_shape("unit vectors", u, (x, 3)) or not C.check_shape("distances", dist, (x, 1)): return
        C.unchanged("displacements", d, kd); C.unchanged("distances", r, kr)
        if C.decide(C.eq(x, 0)): return
        q = C.int("q", 0, x - 1); a, i, j = [C.at(y, q) for y in g]
        C.check("graph index kept", C.eq(C.at(ei, 0, q), a))
        C.check("first node in its own graph", C.eq(C.at(ei, 1, q), i + a * n)); C.check("second node in its own graph", C.eq(C.at(ei, 2, q), j + a * n))
        v = [C.at(d, a, i, j, c) for c in range(3)]; n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
        C.check("distance", C.eq(C.at(dist, q, 0), C.at(r, a, i, j)))
        C.assume(C.lt(0, n2))
        for c in range(3): C.check(f"unit vector {c}", C.eq(C.at(u, q, c) * C.sqrt(n2), v[c]))


def cell(C, s):
    """Lattices of a batch of structures, and positions (anywhere, any number of cells away)."""
    n = C.dim("N", 1)
    if C.mode == "sym": return n, C.arr("lat", (s, 3, 3), kind="torch"), C.arr("p", (s, n, 3), kind="torch")
    L = np.stack([lattice(C, f"lat{k}") for k in range(s)]) if s else np.zeros((0, 3, 3))
    p = C.arr("p", (s, n, 3), style=lambda r, z: r.uniform(0, 1, z) if r.integers(0, 2) else r.uniform(-3, 3, z))
    C.inputs["lat"] = L.tolist()
    return n, torch.tensor(L, dtype=torch.get_default_dtype()), torch.tensor(p, dtype=torch.get_default_dtype())


def min_image(C, x):
    f = x - C.floor(x)
    return C.ite(C.lt(Fraction(1, 2) if C.mode == "sym" else .5, f), f - 1, f)


from fractions import Fraction


@contract("C18", "the candidate matrix selects distinct atoms within the cutoff", targets=[private(TU, "_radius_graph_pbc")])
def _(C):
    seen = {}
    s = C.dim("S", 1); n, L, p = cell(C, s); cut = C.real("cutoff")
    if C.mode == "con":                 # torch.nonzero is not replaced at run time: see the bounded contract below
        e, u, d = C.call(private(TU, "_radius_graph_pbc"), L, p, cut)
        C.check("one direction and one length per edge", e.shape[0] == 3 and tuple(u.shape) == (e.shape[1], 3) and tuple(d.shape) == (e.shape[1], 1))
        return
    e = C.arr("found", (3, C.dim("X")), kind="torch", integer=True)
    def nonzero(mask, as_tuple=False): seen["mask"] = mask; return e.T
    def info(cart, edges, dist, num): seen.update(cart=cart, edges=edges, dist=dist, num=num); return "edges", "vectors", "distances"
    C.replace(torch.nonzero, nonzero); C.replace(TU.get_graph_info, info)
    r = C.call(private(TU, "_radius_graph_pbc"), L, p, cut)
    C.check("result of get_graph_info returned", tuple(r) == ("edges", "vectors", "distances"))
    for k in ("mask", "cart", "edges", "dist", "num"):
        if k not in seen: C.check(f"{k} used", False); return
    a, i, j = C.int("a", 0, s - 1), C.int("i", 0, n - 1), C.int("j", 0, n - 1)
    u = [min_image(C, C.at(p, a, j, c) - C.at(p, a, i, c)) for c in range(3)]
    v = [sum(u[c] * C.at(L, a, c, d) for c in range(3)) for d in range(3)]
    d2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    if not (C.check_shape("mask", seen["mask"], (s, n, n)) and C.check_shape("displacements", seen["cart"], (s, n, n, 3)) and C.check_shape("distances", seen["dist"], (s, n, n))): return
    C.check("edge iff distinct and within the cutoff", C.iff(C.at(seen["mask"], a, i, j), C.and_(C.not_(C.eq(i, j)), C.le(C.sqrt(d2), cut))))
    for c in range(3): C.check(f"displacement of the minimum image {c}", C.eq(C.at(seen["cart"], a, i, j, c), v[c]))
    C.check("distance of the minimum image", C.eq(C.at(seen["dist"], a, i, j), C.sqrt(d2)))
    C.check("number of atoms", C.eq(seen["num"], n))
    if C.check_shape("edges", seen["edges"], (3, C.shape(e)[1])): C.forall("edges as found", (3, C.shape(e)[1]), lambda x, y: C.eq(C.at(seen["edges"], x, y), C.at(e, x, y)))


@contract("C18", "edges of periodic structures", targets=[private(TU, "_radius_graph_pbc"), TU.get_graph_info], mode="bounded", cases=150,
          note="The whole function at run time; torch.nonzero has an assumed contract in the proof of the candidate matrix.")
def _(C):
    with precision(C):
        s = C.choice("samples", [1, 2, 3]); n, L, p = cell(C, s); cut = C.choice("cutoff", [.5, 1.5, 3., 4.5, 9.])
        kL, kp = C.snapshot(L), C.snapshot(p)
        e, u, d = C.call(private(TU, "_radius_graph_pbc"), L, p, cut)
        C.unchanged("lattice", L, kL); C.unchanged("positions", p, kp)
        LL, pp = L.numpy().astype(float), p.numpy().astype(float)
        want = []
        for a in range(s):
            for i in range(n):
                for j in range(n):
                    x = (pp[a, j] - pp[a, i]) % 1; 
                    if np.any(abs(x - .5) < 1e-4) or np.any(abs(x) < 1e-4) and i != j: raise Discard()
                    x = np.where(x > .5, x - 1, x); v = x @ LL[a]; r = np.linalg.norm(v)
                    if i != j and (abs(r - cut) < 1e-3 or r < 1e-3): raise Discard()
                    if i != j and r <= cut: want.append((a, i + a * n, j + a * n, v / r, r))
        got = {tuple(int(x) for x in e[:, k]): (u[k].numpy(), float(d[k, 0])) for k in range(e.shape[1])}
        C.check("one entry per edge", len(got) == e.shape[1] and e.shape[0] == 3 and tuple(u.shape) == (e.shape[1], 3) and tuple(d.shape) == (e.shape[1], 1))
        C.check("exactly the ordered pairs of distinct atoms within the cutoff", set(got) == {w[:3] for w in want})
        for w in want:
            g = got.get(w[:3])
            if g: C.check("direction and length of the edge", np.allclose(g[0], w[3], atol=2e-3) and abs(g[1] - w[4]) < 2e-3)


@contract("C18", "large batches", targets=[TU.BatchTriplets.get_triplets], mode="bounded", cases=3, note="Numbers of edges, triplets and batches beyond 16-bit indexes.")
def _(C):
    n = C.choice("nodes", [9, 14, 30]); e = torch.tensor([[0, a, b] for a in range(n) for b in range(n) if a != b and (n < 30 or (a + b) % 3 == 0)]).T
    ref = tuple(x.clone() for x in TU.dimenet_triplets(edge_index=e[[1, 2]], num_nodes=n)); bt = C.new(TU.BatchTriplets, n, e)
    for b in (3, 40000 // e.shape[1] + 3, 40000 // n + 3 if n < 30 else 700):
        got = C.meth(bt, "get_triplets", b)
        for k in range(7):
            if not C.check_shape(f"size of part {k} for {b}", got[k], (b * len(ref[k]),)): return
            C.check(f"part {k} for {b}", bool((got[k].reshape(b, -1) == ref[k][None].long() + torch.arange(b, dtype=torch.long)[:, None] * (n if k in NODES else e.shape[1])).all()))
