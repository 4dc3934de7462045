"""C19: GNN predictions are per-configuration and rescaled to physical units."""
from vc.contract import contract, private
from contracts.common import *
from contracts.models import minimg
from contracts.C17 import precision, WHICH
import ramannoodle.pmodel.torch._gnn as G
import ramannoodle.pmodel.torch._utils as TU
from ramannoodle.pmodel.torch import PotGNN
import torch
from vc.terms import Unsupported

CALC = PotGNN.calc_polarizabilities


# ---------------------------------------------------------------------------- whole models, at run time
def network(C, train=True):
    """A small network with random weights, whose normalisation statistics have seen training batches."""
    n = C.choice("atoms", [2, 3, 5]); seed = C.int("weights", 0, 10 ** 6); torch.manual_seed(seed)
    L = np.round(lattice(C), 4); p = positions(C, "p", (n, 3))
    if abs(np.linalg.det(L)) < 5: raise Discard()
    d = p[:, None] - p[None]; d -= np.rint(d); r = np.linalg.norm(d @ L, axis=-1) + 9 * np.eye(n)
    if r.min() < .1 or np.abs(np.abs(d) - .5).min() < 1e-3: raise Discard()
    z = [C.choice("element", [22, 8]), 8, 38, 22, 8][:n]
    cut = C.choice("cutoff", [3.1, 5.2, 30.]); edges = (r <= cut).sum()
    if edges == 0 or np.abs(r - cut).min() < 1e-3: raise Discard()
    try: st = ReferenceStructure(z, L, p)
    except SymmetryException: raise Discard()
    mean, std = C.arr("mean", (3, 3)), C.arr("std", (3, 3)); mean = mean + mean.T; std = np.abs(std + std.T) + .1
    m = C.new(PotGNN, st, cut, C.choice("node size", [3, 5]), C.choice("edge size", [4, 6]), C.choice("passes", [1, 2]), 0, 5, mean, std)
    if C.flag("reset"): m.reset_parameters()
    m.train()
    for k in range(C.choice("training batches", [0, 3])): raw(m, st, np.array([p + .05 * C.np.normal(size=p.shape) for _ in range(4)]))
    if C.flag("eval"): m.eval()
    return m, st, n, L, p, mean, std, cut


def raw(m, st, batch):
    t = torch.get_default_dtype(); b = len(batch)
    return m.forward(torch.tensor(st.lattice).type(t).expand(b, 3, 3), torch.tensor(st.atomic_numbers, dtype=torch.int).expand(b, -1), torch.tensor(np.array(batch)).type(t))


def around(C, p, b):
    q = np.array([p + .06 * C.np.normal(size=p.shape) for _ in range(b)])
    if b > 1 and C.flag("repeat"): q[-1] = q[0]
    if C.flag("wrapped"): q = q % 1
    return q


def alone(m, st, x, mean, std):
    m.eval(); v = raw(m, st, x[None]).detach().numpy().astype(float)[0]
    return v[np.array(WHICH)] * std + mean


def tie(p, batch):
    """Rounding decides the image of displacements close to half a cell."""
    d = batch[:, :, None] - batch[:, None]
    return np.abs(d % 1 - .5).min() < 1e-4 if d.size else False


def near(C, a, b, scale): return np.allclose(a, b, rtol=0, atol=(2e-4 if torch.get_default_dtype() == torch.float32 else 1e-8) * (1 + np.abs(scale).max()))


@contract("C19", "whole models: each configuration alone, rescaled", targets=[CALC, PotGNN.forward, PotGNN.__init__], mode="bounded", cases=60,
          note="Random small networks; batches up to 230 configurations across the internal chunks of 100; float32 and float64.")
def _(C):
    with precision(C):
        m, st, n, L, p, mean, std, cut = network(C)
        b = C.choice("batch", [1, 2, 3, 7, 100, 101, 230] if C.rng.random() < .3 else [1, 2, 3, 5]); x = around(C, p, b)
        if tie(p, x): raise Discard()
        for k in range(C.choice("earlier predictions", [0, 1, 2])): m.calc_polarizabilities(around(C, p, C.choice(f"earlier {k}", [1, 2, 4])))
        s, ms, ss = x.copy(), mean.copy(), std.copy()
        got = C.call(m.calc_polarizabilities, x)
        if not C.check_shape("one tensor per configuration", got, (b, 3, 3)): return
        for k in (range(b) if b < 10 else [0, 1, 57, 98, 99, 100, b - 1]):
            if k < b: C.check("raw output of the configuration alone times stddev plus mean", near(C, got[k], alone(m, st, x[k], mean, std), std))
        C.check("symmetric", np.allclose(got, got.transpose(0, 2, 1), atol=1e-9))
        C.check("arguments unchanged", (x == s).all() and (mean == ms).all() and (std == ss).all())
        C.check("same again", np.array_equal(C.call(m.calc_polarizabilities, x), got))
        o = C.np.permutation(b)
        C.check("batch order", near(C, m.calc_polarizabilities(x[o]), got[o], std))
        y = x + C.np.integers(-3, 4, x.shape)
        C.check("whole cells", near(C, m.calc_polarizabilities(y), got, std))


@contract("C19", "whole models: in training mode beforehand", targets=[CALC], mode="bounded", cases=20)
def _(C):
    with precision(C):
        m, st, n, L, p, mean, std, cut = network(C); x = around(C, p, C.choice("batch", [1, 2, 5]))
        if tie(p, x): raise Discard()
        m.train(); one = [C.call(m.calc_polarizabilities, x[k:k + 1])[0] for k in range(len(x))]
        m.train(); C.check("same as one at a time", near(C, C.call(m.calc_polarizabilities, x), one, std))


@contract("C19", "whole models: average over the structure's edges", targets=[PotGNN.forward, private(PotGNN, "_batch_graph")], mode="bounded", cases=50)
def _(C):
    with precision(C):
        m, st, n, L, p, mean, std, cut = network(C); b = C.choice("batch", [1, 2, 4]); x = around(C, p, b); m.eval()
        if tie(p, x): raise Discard()
        f = private(G, "_get_edge_polarizability_vectors"); seen = []
        def record(e, u):
            r = f(e, u); seen.append((u.detach().numpy().astype(float), r.detach().numpy().astype(float))); return r
        setattr(G, f.__name__, record)
        try: v = raw(m, st, x).detach().numpy()
        finally: setattr(G, f.__name__, f)
        if len(seen) != 1: raise Discard()
        u, e = seen[0]
        d = p[None] - p[:, None]; d = d % 1; d = np.where(d > .5, d - 1, d); r = np.linalg.norm(d @ L, axis=-1)
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j and r[i, j] <= cut]; E_ = len(pairs)
        if not C.check_shape("edges of every structure", u, (b * E_, 3)): return
        for k in range(b):
            w = []
            for i, j in pairs:
                y = (x[k, j] - x[k, i]) % 1; y = np.where(y > .5, y - 1, y) @ L; w.append(y / np.linalg.norm(y))
            mine = u[k * E_:(k + 1) * E_]
            C.check("directions of the edges of the structure", np.allclose(mine, w, atol=1e-4))
            C.check("average of the contributions", near(C, v[k], e[k * E_:(k + 1) * E_].mean(axis=0), e))


@contract("C19", "whole models: wrong number of atoms", targets=[CALC], mode="bounded", cases=30)
def _(C):
    with precision(C):
        m, st, n, L, p, mean, std, cut = network(C)
        k = C.choice("other", [0, 1, n - 1, n + 1, 2 * n]); b = C.choice("batch", [1, 2, 5])
        if k == n: raise Discard()
        C.check("other number of atoms", C.run(m.calc_polarizabilities, np.full((b, k, 3), .3)).is_(ValueError))
        for s in [(n, 3), (b, n, 2), (b, n * 3)]: C.check(f"shape {s}", C.run(m.calc_polarizabilities, np.zeros(s)).is_(ValueError))
        C.check("works afterwards", C.run(m.calc_polarizabilities, p[None]).raised is False)


@contract("C19", "whole models: two models do not interfere", targets=[CALC], mode="bounded", cases=15)
def _(C):
    with precision(C):
        m, st, n, L, p, mean, std, cut = network(C); x = around(C, p, 3)
        if tie(p, x): raise Discard()
        a = m.calc_polarizabilities(x); q = np.array([[.1, .2, .3], [.4, .55, .62]]); st2 = ReferenceStructure([22, 8], np.eye(3) * 5, q)
        o = PotGNN(st2, 6., 3, 4, 1, 0, 5, mean * 2, std * 3); o.calc_polarizabilities(np.array([q] * 2))
        C.check("unaffected", np.array_equal(m.calc_polarizabilities(x), a))


# ---------------------------------------------------------------------------- proofs
_NAMES = {}


def names():
    """Names of the attributes of a model, found by probing a real one."""
    if _NAMES: return _NAMES
    q = np.array([[.1, .2, .3], [.4, .55, .62], [.8, .1, .9]]); st = ReferenceStructure([22, 8, 8], np.eye(3) * 5, q)
    mean, std = np.arange(9.).reshape(3, 3) + 70, np.arange(9.).reshape(3, 3) + 90
    m = PotGNN(st, 6., 3, 4, 2, 0, 5, mean, std); v = dict(vars(m)); v.update(m._modules); v.update(m._buffers); v.update(m._parameters)
    is_a = lambda t, k=None: lambda x: isinstance(x, t) and (k is None or k(x))
    same = lambda a: lambda x: isinstance(x, np.ndarray) and x.shape == a.shape and (x == a).all()
    rules = dict(structure=lambda x: x is st, mean=same(mean), std=same(std), triplets=is_a(TU.BatchTriplets), edges=is_a(torch.Tensor, lambda x: x.ndim == 2 and len(x) == 3),
                 types=is_a(torch.Tensor, lambda x: x.ndim == 1 and len(x) == 119),
                 node=is_a(torch.nn.Sequential, lambda x: isinstance(x[0], torch.nn.Embedding)), last=is_a(torch.nn.Sequential, lambda x: not isinstance(x[0], torch.nn.Embedding)),
                 filter=is_a(G._GaussianFilter), node_blocks=is_a(torch.nn.ModuleList, lambda x: isinstance(x[0], G._NodeBlock)), edge_blocks=is_a(torch.nn.ModuleList, lambda x: isinstance(x[0], G._EdgeBlock)))
    out = {}
    for k, f in rules.items():
        hits = [n for n, x in v.items() if f(x)]
        if len(hits) != 1: raise Unsupported(f"attribute of a model for {k}: {hits}")
        out[k] = hits[0]
    _NAMES.update(out); return _NAMES


def config(C, rd_lat, rd_z, rd_pos, n, s):
    """Everything the network is told about structure s."""
    lat = [C.at(rd_lat, s, i, j) for i in range(3) for j in range(3)]
    return [*lat, C.row_key(n, lambda k: [C.at(rd_z, s, k)]), C.row_key(n, lambda k: [C.at(rd_pos, s, k, c) for c in range(3)])]


@contract("C19", "raw output times stddev plus mean, configuration by configuration", targets=[CALC])
def _(C):
    """forward is used by its contract: row s is a function of the lattice, atomic numbers and positions of structure s alone, in evaluation mode."""
    if C.mode == "con":
        with precision(C):
            m, st, n, L, p, mean, std, cut = network(C); x = around(C, p, C.choice("batch", [1, 2, 4]))
            if tie(p, x): raise Discard()
            got = C.call(m.calc_polarizabilities, x)
            for k in range(len(x)): C.check("raw output of the configuration alone times stddev plus mean", near(C, got[k], alone(m, st, x[k], mean, std), std))
        return
    F = names(); st, n, L, p, z = structure(C)
    mean, std = C.arr("mean", (3, 3)), C.arr("std", (3, 3)); S = C.dim("S")
    m = C.blank(PotGNN)
    for k, v in (("structure", st), ("mean", mean), ("std", std)): C.set(m, F[k], v)
    C.set(m, "training", C.flag("training"))
    def forward(self, lat, nums, pos):
        if self is not m: raise Unsupported("forward of another model")
        mode = C.get(m, "training")
        b = C.shape(pos)[0]
        if not (C.check_shape("lattices given to the network", lat, (b, 3, 3)) and C.check_shape("atomic numbers given to the network", nums, (b, n)) and C.check_shape("positions given to the network", pos, (b, n, 3))): raise Unsupported("shapes")
        C.check("evaluation mode", mode is False)
        return C.build((b, 6), lambda s, c: C.opaque("gnn", *config(C, lat, nums, pos, n, s), c), kind="torch")
    C.replace(PotGNN.forward, forward)
    x = C.arr("x", (S, n, 3)); kx, km, ks = C.snapshot(x), C.snapshot(mean), C.snapshot(std)
    got = C.call(CALC, m, x)
    if not C.check_shape("one tensor per configuration", got, (S, 3, 3)): return
    C.unchanged("positions", x, kx); C.unchanged("mean", mean, km); C.unchanged("stddev", std, ks); C.fresh("result", got, x, mean, std)
    if C.decide(C.le(S, 0)): return
    s = C.int("s", 0, S - 1)
    lat = C.build((S, 3, 3), lambda q, i, j: C.t_at(L, i, j)); zz = C.build((S, n), lambda q, k: C.t_at(z, k))
    key = config(C, lat, zz, x, n, s)
    for i in range(3):
        for j in range(3):
            C.check(f"component {i}{j}", C.eq(C.at(got, s, i, j), C.num(C.opaque("gnn", *key, WHICH[i][j])) * C.at(std, i, j) + C.at(mean, i, j)))


def blank(C, **attrs):
    F = names(); m = C.blank(PotGNN)
    for k, v in attrs.items(): C.set(m, F[k], v)
    C.set(m, "training", False)
    return m


def ref_edges(C, n, X):
    """Edges of the reference structure: pairs of distinct atoms of graph 0."""
    return C.call(torch.stack, [C.arr("e0", (X,), kind="torch", integer=True, lo=0, hi=0), C.arr("e1", (X,), kind="torch", integer=True, lo=0, hi=n - 1), C.arr("e2", (X,), kind="torch", integer=True, lo=0, hi=n - 1)])


@contract("C19", "edges of a batch: each from its own configuration", targets=[private(PotGNN, "_batch_graph")])
def _(C):
    f = private(PotGNN, "_batch_graph")
    if C.mode == "con":
        with precision(C):
            m, st, n, L, p, mean, std, cut = network(C); b = C.choice("batch", [1, 2, 4]); x = around(C, p, b)
            if tie(p, x): raise Discard()
            t = torch.get_default_dtype(); lat = torch.tensor(L).type(t)
            e, u, d = C.call(f, m, lat.expand(b, 3, 3), torch.tensor(x).type(t))
            for k in range(b):
                e1, u1, d1 = f(m, lat[None], torch.tensor(x[k:k + 1]).type(t)); X = e1.shape[1]
                C.check("graph", bool((e[0, k * X:(k + 1) * X] == k).all()) and e.shape[1] == b * X)
                C.check("nodes", bool((e[1:, k * X:(k + 1) * X] == e1[1:] + k * n).all()))
                C.check("vectors and lengths", torch.allclose(u[k * X:(k + 1) * X], u1, atol=1e-5) and torch.allclose(d[k * X:(k + 1) * X], d1, atol=1e-5))
        return
    n, X, S = C.dim("N", 1), C.dim("X", 1), C.dim("S", 1)
    ref = ref_edges(C, n, X); m = blank(C, edges=ref)
    L, p = C.arr("lat", (S, 3, 3), kind="torch"), C.arr("p", (S, n, 3), kind="torch")
    kr, kl, kp = C.snapshot(ref), C.snapshot(L), C.snapshot(p)
    e, u, d = C.call(f, m, L, p)
    if not (C.check_shape("edge indexes", e, (3, S * X)) and C.check_shape("unit vectors", u, (S * X, 3)) and C.check_shape("distances", d, (S * X, 1))): return
    C.unchanged("reference edges", ref, kr); C.unchanged("lattices", L, kl); C.unchanged("positions", p, kp)
    s, q = C.int("s", 0, S - 1), C.int("q", 0, X - 1); r = s * X + q
    i, j = C.at(ref, 1, q), C.at(ref, 2, q)
    C.check("graph", C.eq(C.at(e, 0, r), s)); C.check("first node", C.eq(C.at(e, 1, r), i + s * n)); C.check("second node", C.eq(C.at(e, 2, r), j + s * n))
    w = [minimg(C, C.at(p, s, j, c) - C.at(p, s, i, c)) for c in range(3)]
    v = [sum(w[c] * C.at(L, s, c, k) for c in range(3)) for k in range(3)]; n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    C.check("distance", C.eq(C.at(d, r, 0), C.sqrt(n2)))
    C.assume(C.lt(0, n2))
    for k in range(3): C.check(f"unit vector {k}", C.eq(C.at(u, r, k) * C.sqrt(n2), v[k]))


class Opaque:
    """A module of the network used by its contract."""
    vc_module = True

    def __init__(self, f, children=()): self.f, self.children = f, children
    def __call__(self, *a, **k): return self.f(*a, **k)
    def __iter__(self): return iter(self.children)
    def __len__(self): return len(self.children)
    def __getitem__(self, k): return self.children[k]


def rows(C, tag, width):
    """A module that works row by row (in evaluation mode)."""
    def f(x): return C.build((C.shape(x)[0], width), lambda r, c: C.opaque(tag, *([C.at(x, r)] if len(C.shape(x)) == 1 else [C.row_key(C.shape(x)[1], lambda k: [C.at(x, r, k)])]), c), kind="torch")
    return Opaque(f)


def forward_contract(passes):
    @contract("C19", f"network output of a configuration: {passes} message passes", targets=[PotGNN.forward, private(PotGNN, "_convert_to_atom_type")],
              cases=12, note="Message passing blocks, embeddings and the rotation into edge frames are used by their contracts: blocks work structure by structure (proved below), the others row by row.")
    def _(C):
        """The edges of a batch (proved above) and triplets (proved in C18) are used by their contracts."""
        if C.mode == "con":
            with precision(C):
                m, st, n, L, p, mean, std, cut = network(C); b = C.choice("batch", [1, 2, 4]); x = around(C, p, b); m.eval()
                if tie(p, x): raise Discard()
                v = raw(m, st, x).detach().numpy()
                for k in range(b): C.check("same as alone", near(C, v[k], raw(m, st, x[k:k + 1]).detach().numpy()[0], v))
            return
        n, X, T_, S = C.dim("N", 1), C.dim("X", 1), C.dim("T"), C.dim("S", 1); dn, de = C.dim("nodes", 1), C.dim("embedding", 1)
        lat, nums, pos = C.arr("lat", (S, 3, 3), kind="torch"), C.arr("Z", (S, n), kind="torch", integer=True, lo=1, hi=118), C.arr("p", (S, n, 3), kind="torch")
        kinds = C.arr("types", (119,), kind="torch", integer=True, lo=0, hi=117)
        cfg = lambda L, P_, s: [C.at(L, s, i, j) for i in range(3) for j in range(3)] + [C.row_key(n, lambda k: [C.at(P_, s, k, c) for c in range(3)])]
        ref = ref_edges(C, n, X)
        def batch_graph(self, L, P_):
            b = C.shape(P_)[0]
            if not (C.check_shape("lattices", L, (b, 3, 3)) and C.check_shape("positions", P_, (b, n, 3))): raise Unsupported("shapes")
            g = C.call(torch.repeat_interleave, C.call(torch.arange, b), X)
            a = [C.meth(C.item(ref, k), "repeat", b) + g * n for k in (1, 2)]
            e = C.call(torch.stack, [g, *a])
            at = lambda tag, w: C.build((b * X, w), lambda r, c: C.opaque(tag, *cfg(L, P_, r // X), r - (r // X) * X, *([c] if w > 1 else [])), kind="torch")
            return e, at("unit", 3), at("dist", 1)
        C.replace(private(PotGNN, "_batch_graph"), batch_graph)
        C.replace(private(G, "_get_edge_polarizability_vectors"), lambda emb, u: C.build((C.shape(emb)[0], 6), lambda r, c: C.opaque("edgepol", C.row_key(12, lambda k: [C.at(emb, r, k)]), *[C.at(u, r, k) for k in range(3)], c), kind="torch"))
        class Triplets:
            def get_triplets(self, batch_size):
                C.check("triplets of this batch", C.eq(batch_size, S)); return tuple(f"triplet {k}" for k in range(7))
        def per_structure(tag, count, width):
            def f(ne, ee, *t):
                want = [f"triplet {k}" for k in range(1 if tag.startswith("node") else 7)]
                C.check(f"{tag}: triplets in order", list(t) == want)
                if not (C.check_shape(f"{tag}: node embedding", ne, (S * n, dn)) and C.check_shape(f"{tag}: edge embedding", ee, (S * X, de))): raise Unsupported("shapes")
                def el(r, c):
                    s = r // count
                    return C.opaque(tag, C.row_key(n, lambda k: [C.row_key(dn, lambda q: [C.at(ne, s * n + k, q)])]), C.row_key(X, lambda k: [C.row_key(de, lambda q: [C.at(ee, s * X + k, q)])]), r - s * count, c)
                return C.build((S * count, width), el, kind="torch")
            return Opaque(f)
        m = blank(C, edges=ref, types=kinds, triplets=Triplets(), node=rows(C, "embed", dn), last=rows(C, "last", 12), filter=rows(C, "filter", de),
                  node_blocks=Opaque(None, [per_structure(f"node{k}", n, dn) for k in range(passes)]), edge_blocks=Opaque(None, [per_structure(f"edge{k}", X, de) for k in range(passes)]))
        v = C.call(PotGNN.forward, m, lat, nums, pos)
        if not C.check_shape("one vector per structure", v, (S, 6)): return
        s = C.int("s", 0, S - 1); c = C.int("c", 0, 5)
        # specification, for structure s alone
        ne = lambda k, q: C.opaque("embed", C.at(kinds, C.at(nums, s, k)), q)
        key = cfg(lat, pos, s)
        ee = lambda k, q: C.opaque("filter", C.row_key(1, lambda _: [C.opaque("dist", *key, k)]), q)
        for t in range(passes):
            a, b = (C.row_key(n, lambda k: [C.row_key(dn, lambda q: [ne(k, q)])]), C.row_key(X, lambda k: [C.row_key(de, lambda q: [ee(k, q)])]))
            ne = lambda k, q, a=a, b=b, t=t: C.opaque(f"node{t}", a, b, k, q)
            a = C.row_key(n, lambda k: [C.row_key(dn, lambda q: [ne(k, q)])])
            ee = lambda k, q, a=a, b=b, t=t: C.opaque(f"edge{t}", a, b, k, q)
        out = lambda k: C.opaque("edgepol", C.row_key(12, lambda w: [C.opaque("last", C.row_key(de, lambda q: [ee(k, q)]), w)]), *[C.opaque("unit", *key, k, i) for i in range(3)], c)
        C.check("average of the structure's edges", C.eq(C.at(v, s, c) * X, C.sum(X, lambda k: C.num(out(k)))))


for k in (1, 2, 3): forward_contract(k)


def reference_triplets(C, n, X, T_):
    """Node and edge indexes of the triplets of the reference structure, and those of a batch of S structures (contract of get_triplets, C18)."""
    hi = dict(i=(X, n), j=(X, n), index_i=(T_, n), index_j=(T_, n), index_k=(T_, n), index_ji=(T_, X), index_kj=(T_, X))
    one = {k: C.arr(k, (a,), kind="torch", integer=True, lo=0, hi=h - 1) for k, (a, h) in hi.items()}
    def batch(S): return {k: C.meth(one[k], "repeat", S) + C.call(torch.repeat_interleave, C.call(torch.arange, S), a) * h for k, (a, h) in hi.items()}
    return one, batch


def block(C, cls, **modules):
    m = C.blank(cls); C.set(m, "training", False)
    for k, v in modules.items(): C.set(m, k, v)
    return m


def layers(cls, dn, de):
    """Attributes of a block that are layers, and the widths of their outputs in symbolic sizes."""
    real = cls(2, 3); out = {}
    for k, v in real._modules.items():
        w = v.out_features if isinstance(v, torch.nn.Linear) else v.normalized_shape[0] if isinstance(v, torch.nn.LayerNorm) and len(v.normalized_shape) == 1 else None
        if w not in (2, 3, 4, 6): raise Unsupported(f"layer {k}")
        out[k] = {2: dn, 3: de, 4: 2 * dn, 6: 2 * de}[w]
    return out


@contract("C19", "node blocks work structure by structure", targets=[private(G, "_NodeBlock").forward])
def _(C):
    B = private(G, "_NodeBlock")
    if C.mode == "con": return blocks_at_run_time(C, B)
    n, X, S = C.dim("N", 1), C.dim("X", 1), C.dim("S", 1); dn, de = C.dim("nodes", 1), C.dim("embedding", 1)
    m = block(C, B, **{k: rows(C, k, w) for k, w in layers(B, dn, de).items()})
    one, batch = reference_triplets(C, n, X, C.dim("T"))
    ne, ee = C.arr("ne", (S * n, dn), kind="torch"), C.arr("ee", (S * X, de), kind="torch")
    got = C.call(B.forward, m, ne, ee, batch(S)["i"])
    if not C.check_shape("embedding of every node", got, (S * n, dn)): return
    s, a, c = C.int("s", 0, S - 1), C.int("a", 0, n - 1), C.int("c", 0, dn - 1)
    alone = C.call(B.forward, m, C.item(ne, slice(s * n, (s + 1) * n)), C.item(ee, slice(s * X, (s + 1) * X)), one["i"])
    C.check("same as the structure alone", C.eq(C.at(got, s * n + a, c), C.at(alone, a, c)))


@contract("C19", "edge blocks work structure by structure", targets=[private(G, "_EdgeBlock").forward])
def _(C):
    B = private(G, "_EdgeBlock")
    if C.mode == "con": return blocks_at_run_time(C, B)
    n, X, T_, S = C.dim("N", 1), C.dim("X", 1), C.dim("T", 1), C.dim("S", 1); dn, de = C.dim("nodes", 1), C.dim("embedding", 1)
    m = block(C, B, **{k: rows(C, k, w) for k, w in layers(B, dn, de).items()})
    one, batch = reference_triplets(C, n, X, T_)
    ne, ee = C.arr("ne", (S * n, dn), kind="torch"), C.arr("ee", (S * X, de), kind="torch")
    got = C.call(B.forward, m, ne, ee, *batch(S).values())
    if not C.check_shape("embedding of every edge", got, (S * X, de)): return
    s, a, c = C.int("s", 0, S - 1), C.int("a", 0, X - 1), C.int("c", 0, de - 1)
    alone = C.call(B.forward, m, C.item(ne, slice(s * n, (s + 1) * n)), C.item(ee, slice(s * X, (s + 1) * X)), *one.values())
    C.check("same as the structure alone", C.eq(C.at(got, s * X + a, c), C.at(alone, a, c)))


def blocks_at_run_time(C, B):
    with precision(C):
        t = torch.get_default_dtype(); g = C.np; n, X, T_, S = C.choice("N", [1, 2, 4]), C.choice("X", [1, 3, 6]), C.choice("T", [1, 2, 9]), C.choice("S", [1, 2, 5]); dn, de = C.choice("nodes", [2, 5]), C.choice("embedding", [3, 4])
        torch.manual_seed(C.int("weights", 0, 10 ** 6)); m = B(dn, de).eval()
        hi = [(X, n), (X, n), (T_, n), (T_, n), (T_, n), (T_, X), (T_, X)]
        one = [torch.tensor(g.integers(0, h, a)) for a, h in hi]; many = [torch.cat([o + s * h for s in range(S)]) for o, (a, h) in zip(one, hi)]
        ne, ee = torch.tensor(g.normal(size=(S * n, dn))).type(t), torch.tensor(g.normal(size=(S * X, de))).type(t)
        k = 1 if B.__name__ == "_NodeBlock" else 7; w = n if k == 1 else X
        got = C.call(m.forward, ne, ee, *many[:k])
        if not C.check_shape("embedding of every row", got, (S * w, dn if k == 1 else de)): return
        for s in range(S):
            a = m.forward(ne[s * n:(s + 1) * n], ee[s * X:(s + 1) * X], *one[:k])
            C.check("same as the structure alone", torch.allclose(got[s * w:(s + 1) * w], a, atol=1e-4 if t == torch.float32 else 1e-9))
