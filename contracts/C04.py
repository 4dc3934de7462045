"""C04: symmetry-equivalent degrees of freedom follow the crystal's symmetry.

The search over the operations found by spglib is compared, on concrete crystals of every lattice
system, with an oracle which applies the operations x -> R x + t itself."""
import warnings
from vc.contract import contract, private
from contracts.common import *
from contracts import crystals as X
from ramannoodle.pmodel import InterpolationModel
from ramannoodle.structure import _symmetry_utils as SU
import spglib
from fractions import Fraction

ORTHO = ["rutile", "anatase", "perovskite", "rocksalt", "tetragonal", "orthorhombic", "polar_orthorhombic", "dimer", "slab"]
OTHER = ["triclinic_inversion", "triclinic", "fcc_primitive", "zincblende_primitive", "monoclinic", "hexagonal", "graphene", "tetragonal_screw", "slab_oblique"]


def ops_of(name):
    """Space-group operations with the Cartesian rotation and the atom each atom is moved to."""
    st, z, L, p = X.get(name)
    d = spglib.get_symmetry((L, p, z), symprec=1e-5)
    out = []
    for R, t in zip(d["rotations"], d["translations"]):
        q = p @ R.T + t
        u = q[:, None] - p[None]; u -= np.rint(u)
        near = np.abs(u).max(-1) < 1e-3
        assert (near.sum(1) == 1).all() and (near.sum(0) == 1).all()
        to = near.argmax(1)
        assert all(z[i] == z[to[i]] for i in range(len(z)))
        Q = L.T @ R @ np.linalg.inv(L.T)
        out.append((R, to, Q))
    return out


_ops = {}


def ops(name):
    if name not in _ops: _ops[name] = ops_of(name)
    return _ops[name]


def image(op, d):
    """Fractional displacement of the moved crystal: atom i goes to atom to[i] and carries R d[i]."""
    R, to, _ = op
    out = np.zeros_like(d); out[to] = d @ R.T
    return out


def produces(L, p, z, d, e, R, t, row):
    """Does x -> R x + t move every atom of p + s d onto an atom of p + s e of the same kind?"""
    s = 5e-3 / np.abs(d).max()
    M = R if row else R.T
    def dist(a, b):
        u = a[:, None] - b[None]; u -= np.rint(u)
        return np.abs(u).max(-1)
    e = np.asarray(e); k = np.linalg.norm(d @ L) / np.linalg.norm(e @ L)
    near = dist((p + s * d) @ M + t, p + s * k * e) < 1e-5
    return bool((near.sum(1) == 1).all() and (near.sum(0) == 1).all() and all(z[i] == z[j] for i, j in zip(*np.nonzero(near))))


def cart_image(op, u):
    _, to, Q = op
    out = np.zeros_like(u); out[to] = u @ Q.T
    return out


def displacement(C, name, kind):
    st, z, L, p = X.get(name); n = len(p)
    d = np.zeros((n, 3))
    if kind == "atom along x": d[C.int("atom", 0, n - 1), 0] = 1
    elif kind == "atom along z": d[C.int("atom", 0, n - 1), 2] = 1
    elif kind == "atom along xy": d[C.int("atom", 0, n - 1)] = [1, 1, 0]
    elif kind == "atom, any direction": d[C.int("atom", 0, n - 1)] = C.arr("d", (3,), style=lambda r, s: r.normal(0, 1, s))
    else: d = C.arr("d", (n, 3), style=lambda r, s: r.normal(0, 1, s))
    if kind == "atom along z" and C.flag("second"): d[C.int("other", 0, n - 1), 2] += 1
    return d * C.choice("length", [1e-3, .01, .1])


KINDS = ["atom along x", "atom along z", "atom along xy", "atom, any direction", "collective"]


def groups_contract(name, kind):
    @contract("C04", f"{name}, {kind}: equivalent displacements", targets=[ReferenceStructure.get_equivalent_displacements], mode="bounded", cases=6,
              note="Concrete crystal; the operations of the group are enumerated.")
    def _(C):
        st, z, L, p = X.get(name)
        d = displacement(C, name, kind)
        d0 = d.copy()
        groups = st.get_equivalent_displacements(d)
        C.check("argument unchanged", np.array_equal(d, d0))
        unit = d / np.linalg.norm(d)
        images = [image(o, unit) for o in ops(name)]
        dirs = []
        for k, g in enumerate(groups):
            D, Tr = g["displacements"], g["transformations"]
            C.check("as many operations as displacements", len(D) == len(Tr) and len(D) > 0)
            c0 = D[0] @ L
            for e, (R, t) in zip(D, Tr):
                v = np.asarray(e) / np.linalg.norm(e)
                if not any(np.abs(im / np.linalg.norm(im) - v).max() < 1e-4 for im in images): C.check("every displacement is the image under an operation of the group", False); return
                c = e @ L
                cos = np.sum(c * c0) / np.linalg.norm(c) / np.linalg.norm(c0)
                C.check("displacements of one group are collinear", abs(abs(cos) - 1) < 1e-4)
            for a in range(len(D)):
                for b in range(a):
                    C.check("no displacement is reported twice", np.abs(D[a] - D[b]).max() > 1e-6)
            dirs.append(c0 / np.linalg.norm(c0))
        # the reported operation takes the displaced crystal to the reported one (rotations written for rows or for columns)
        C.check("every displacement comes with the operation that produces it",
                any(all(produces(L, p, z, d, e, np.asarray(R), np.asarray(t), row) for g in groups for e, (R, t) in zip(g["displacements"], g["transformations"])) for row in (True, False)))
        for a in range(len(dirs)):
            for b in range(a): C.check("distinct groups are orthogonal", abs(np.sum(dirs[a] * dirs[b])) < 1e-3)
        cart = unit @ L; cart /= np.linalg.norm(cart)
        C.check("the displacement itself is reported", any(abs(np.sum(cart * u)) > 1 - 1e-4 for u in dirs))
        # an image which can be a degree of freedom of its own is not left out
        for im in images:
            c = im @ L; c /= np.linalg.norm(c)
            C.check("images orthogonal to every group are reported", any(abs(np.sum(c * u)) > 1e-6 for u in dirs))
            # every direction along a reported degree of freedom is reported with its sign
            for k, u in enumerate(dirs):
                cos = np.sum(c * u)
                if abs(cos) > 1 - 1e-7:
                    C.check("every collinear image is reported", any(np.abs(e / np.linalg.norm(e) - im / np.linalg.norm(im)).max() < 1e-3 for e in groups[k]["displacements"]))


def equivariant(name, seed):
    """A random smooth polarizability of Cartesian displacements which obeys every operation."""
    st, z, L, p = X.get(name); n = len(p)
    r = np.random.default_rng(seed)
    w = r.normal(size=(n, 3, 3, 3)); q = r.normal(size=(n, 3, 3, 3)); c = r.normal(size=(3, 3))

    def beta(u): return c + np.einsum("nc,ncij->ij", np.sin(2 * u), w) + np.einsum("nc,ncij->ij", u * u, q)

    def alpha(u): return np.mean([o[2].T @ beta(cart_image(o, u)) @ o[2] for o in ops(name)], axis=0)
    return alpha


def model_contract(name, kind):
    @contract("C04", f"{name}, {kind}: predictions along images", targets=[InterpolationModel.add_dof, private(InterpolationModel, "_get_dof")], mode="bounded", cases=4,
              note="Concrete crystal with a random polarizability which obeys its symmetry.")
    def _(C):
        from ramannoodle.exceptions import InvalidDOFException
        st, z, L, p = X.get(name)
        d = displacement(C, name, kind)
        alpha = equivariant(name, C.int("field", 0, 10 ** 6))
        u = d @ L; u /= np.linalg.norm(u)
        amps = np.array(C.choice("amplitudes", [[.1], [.05, .1], [.1, .02], [.03, .06, .11]]))
        order = C.choice("order", [1, 1, 2]) if len(amps) > 1 else 1
        scale = C.choice("given length", [1., .01, 7.])
        m = InterpolationModel(st, alpha(np.zeros_like(u)))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try: m.add_dof(u * scale, amps, np.array([alpha(a * u) for a in amps]), order)
            except InvalidDOFException as e:
                C.check(f"accepted ({e})", False); return
        seen = []
        for o in ops(name):
            v = cart_image(o, u)
            if not any(abs(np.sum(v * b)) > 1 - 1e-9 for b in m.cart_basis_vectors): continue
            if any(np.abs(v - s).max() < 1e-6 for s in seen): continue
            seen.append(v)
            x = np.array([p + (a * v) @ np.linalg.inv(L) for a in amps])
            r = m.calc_polarizabilities(x)
            for k, a in enumerate(amps):
                want = o[2] @ alpha(a * u) @ o[2].T
                if not np.allclose(r[k], want, atol=1e-6): C.check("prediction is the rotated polarizability", False); return
        C.check("the degree of freedom itself", len(seen) > 0)


for name in ORTHO + OTHER:
    for kind in KINDS:
        groups_contract(name, kind)
    for kind in KINDS[:3] + KINDS[4:]:
        model_contract(name, kind)


def dot(C, u, v, M): return C.sum(M, lambda i: C.at(u, i) * C.at(v, i))


def nonzero(C, v, M): C.assume(C.lt(0, dot(C, v, v, M)))


def cosine(C, u, v, M): return dot(C, u, v, M) / (C.sqrt(dot(C, u, u, M)) * C.sqrt(dot(C, v, v, M)))




@contract("C04", "are_collinear", targets=[SU.are_collinear])
def _(C):
    M = C.dim("M", 1)
    u = C.arr("u", (M,), style=directions); v = C.arr("v", (M,), style=directions)
    nonzero(C, u, M); nonzero(C, v, M)
    r = C.call(SU.are_collinear, u, v)
    c = cosine(C, u, v, M); t = Fraction(1001, 10 ** 8) if C.mode == "sym" else 1.001e-5
    near = C.or_(C.le(C.abs(c - 1), t), C.le(C.abs(c + 1), t))
    C.check("true exactly when the angle is 0 or 180 degrees (within 1e-5)", C.iff(r, near))


def directions(r, s):
    k = r.integers(0, 3)
    e = np.zeros(s); e[0] = 1
    return [r.normal(0, 1, s), e, -e * r.uniform(.1, 9)][k]


@contract("C04", "is_orthogonal_to_all", targets=[SU.is_orthogonal_to_all])
def _(C):
    M = C.dim("M", 1); K = C.dim("K")
    u = C.arr("u", (M,), style=directions); V = C.arr("V", (K, M), style=directions2)
    nonzero(C, u, M)
    C.assume(C.all(K, lambda k: C.lt(0, C.sum(M, lambda i: C.at(V, k, i) * C.at(V, k, i)))))
    r = C.call(SU.is_orthogonal_to_all, u, C.list(K, lambda k: C.item(V, k)))
    t = Fraction(1001, 10 ** 8) if C.mode == "sym" else 1.001e-5
    cos = lambda k: C.sum(M, lambda i: C.at(u, i) * C.at(V, k, i)) / (C.sqrt(dot(C, u, u, M)) * C.sqrt(C.sum(M, lambda i: C.at(V, k, i) * C.at(V, k, i))))
    orth = lambda k: C.le(C.abs(cos(k)), t)
    if C.decide(C.lt(r, 0)):
        C.check("-1", C.eq(r, -1))
        C.forall("every vector is orthogonal", (K,), orth)
    else:
        C.check("index in range", C.lt(r, K))
        C.check("that vector is not orthogonal", C.not_(C.le(C.abs(cos(r)), t)))
        C.forall("earlier vectors are orthogonal", (K,), lambda k: C.or_(C.le(r, k), orth(k)))


def directions2(r, s):
    a = r.normal(0, 1, s)
    if r.random() < .5 and s[0]:
        a = np.eye(max(s))[:s[0], :s[1]] + (np.arange(s[0]) >= s[1])[:, None]
    return a
