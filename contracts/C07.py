"""C07: adding a degree of freedom is all-or-nothing and interpolates the given data."""
import warnings
from vc.contract import contract, private
from contracts.models import *
from contracts import crystals as X
from ramannoodle.exceptions import InvalidDOFException, UserError

SYMMETRIC = ["rutile", "perovskite", "tetragonal", "orthorhombic", "polar_orthorhombic", "dimer", "monoclinic", "triclinic_inversion"]


def crystal(C):
    if C.flag("symmetric"):
        return X.get(C.choice("crystal", SYMMETRIC))
    st, n, L, p, z = structure(C, C.int("n", 1, 5))
    return st, z, L, p


def existing(C, m, cls, n, avoid=None):
    """Degrees of freedom already there: orthonormal basis vectors, orthogonal to `avoid`."""
    J = C.int("J", 0, min(3, 3 * n - 1))
    B = C.arr("B", (J, n, 3), style=lambda r, s: r.normal(0, 1, s))
    out = []
    for b in B:
        for v in out + ([avoid] if avoid is not None else []): b = b - np.sum(b * v) * v
        if np.linalg.norm(b) < 1e-3: raise Discard()
        out.append(b / np.linalg.norm(b))
    F = fields(cls)
    C.set(m, F["cart_basis_vectors"], list(out))
    C.set(m, F["interpolations"], [] if m._is_dummy_model else [OpaqueInterp(C, j) for j in range(J)])
    C.set(m, F["mask"], C.arr("mask", (J,), dtype="b"))
    return out


def state(m):
    return dict(V=[v.copy() for v in m.cart_basis_vectors], vi=list(m.cart_basis_vectors), I=m.interpolations, mask=m.mask.copy(), ref=m.ref_polarizability.copy(), snap=csnap(m))


from vc.contract import csnap, csame


def same_interps(A, B):
    return len(A) == len(B) and all(a is b or (hasattr(a, "c") and hasattr(b, "c") and np.array_equal(a.t, b.t) and np.array_equal(a.c, b.c) and a.k == b.k) for a, b in zip(A, B))


def kept(C, m, s):
    C.check("model exactly as it was", csame(m, s["snap"]) and len(m.cart_basis_vectors) == len(s["V"]) and same_interps(m.interpolations, s["I"]))


def expected(st, L, u, amps, tens, ref, with_ref):
    """Independent account: one (basis vector, {amplitude: tensor}) per group of equivalent displacements."""
    out = []
    frac = u @ np.linalg.inv(L)
    frac = frac / np.linalg.norm(frac) / 10
    for g in st.get_equivalent_displacements(frac):
        D = [np.asarray(d) @ L for d in g["displacements"]]
        b = D[0] / np.linalg.norm(D[0])
        pts = [(0.0, np.zeros((3, 3)))] if with_ref else []
        for d, t in zip(D, g["transformations"]):
            s = np.sign(np.sum(d * b)); R = np.asarray(t[0], float)
            pts += [(s * a, np.linalg.solve(R, (y - ref)) @ R) for a, y in zip(amps, tens)]
        out.append((b, pts))
    return out


def added(C, m, s, exp, order, dummy):
    J = len(s["V"]); G = len(exp)
    V, I, k = m.cart_basis_vectors, m.interpolations, m.mask
    C.check("one basis vector per new degree of freedom", len(V) == J + G)
    C.check("one interpolation each, none for dummy models", len(I) == (0 if dummy else J + G))
    C.check("mask appended unmasked", k.shape == (J + G,) and k.dtype == bool and np.array_equal(k[:J], s["mask"]) and not k[J:].any())
    C.check("earlier basis vectors unchanged", all(np.array_equal(a, b) for a, b in zip(V, s["V"])))
    C.check("earlier interpolations unchanged", dummy or same_interps(I[:J], s["I"]))
    C.check("reference polarizability unchanged", np.array_equal(m.ref_polarizability, s["ref"]))
    if len(V) != J + G or len(I) != (0 if dummy else J + G): return
    for g, (b, pts) in enumerate(exp):
        v = V[J + g]
        C.check("basis vector", np.shape(v) == np.shape(b) and np.allclose(v, b, atol=1e-6))
        C.check("normalised", abs(np.linalg.norm(v) - 1) < 1e-9)
        if dummy: continue
        f = I[J + g]
        xs = np.array([x for x, _ in pts]); ys = np.array([y for _, y in pts]); o = np.argsort(xs)
        C.check("passes through every point", np.allclose(f(xs), ys, atol=1e-6, rtol=1e-6))
        ref = make_interp_spline(xs[o], ys[o], k=order)
        t = np.concatenate([np.linspace(xs.min(), xs.max(), 9), [xs.min() - .02, xs.max() + .03]])
        C.check("interpolation of the data at the requested order", np.allclose(f(t), ref(t), atol=1e-6, rtol=1e-5))


def direction(C, n, zero=True):
    if C.choice("kind", ["atom", "collective"]) == "atom":
        d = np.zeros((n, 3)); d[C.int("atom", 0, n - 1)] = C.arr("dir", (3,), style=lambda r, s: [np.eye(3)[r.integers(0, 3)], np.round(r.normal(0, 1, s), 1)][r.integers(0, 2)])
    else: d = C.arr("disp", (n, 3), style=lambda r, s: np.round(r.normal(0, 1, s), 1))
    if np.linalg.norm(d) < 1e-6: raise Discard()
    return d


def data(C, kmax=4, one_sided=None):
    M = C.int("M", 1, kmax)
    a = C.arr("amps", (M,), distinct=True, style=lambda r, s: (r.permutation(9)[:s[0]] + 1) * .03 * (r.choice([1, -1], s) if not one_sided else r.choice([1, -1])))
    y = C.arr("pols", (M, 3, 3), style=lambda r, s: r.normal(0, 2, s))
    return a, y


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


NOTE = "The B-spline is built by scipy and symmetry images come from the crystal; arbitrary models, data and crystals are drawn at random."


@contract("C07", "add_dof: data interpolated and appended", targets=[InterpolationModel.add_dof, private(InterpolationModel, "_get_dof"), private(InterpolationModel, "_construct_and_add_interpolations")], mode="bounded", cases=160, note=NOTE)
def _(C):
    st, z, L, p = crystal(C); n = len(p)
    ref = C.arr("ref", (3, 3)); dummy = C.choice("dummy", [False, False, True])
    m = InterpolationModel(st, ref, is_dummy_model=dummy)
    u = direction(C, n); u = u / np.linalg.norm(u)
    existing(C, m, InterpolationModel, n, avoid=u)
    amps, tens = data(C, one_sided=True)
    with_ref = C.flag("with reference")
    exp = expected(st, L, u, amps, np.zeros_like(tens) + (0 if dummy else tens), ref if not dummy else 0 * ref, with_ref)
    npts = min(len(q) for _, q in exp)
    if npts < 2: raise Discard()
    order = C.int("order", 1, npts - 1)
    s = state(m); args = [u * C.choice("length", [1., 1e-3, 40.]), amps, tens]; a0 = [a.copy() for a in args]
    o = C.run(lambda: quiet(m.add_dof, *args, order, with_ref))
    if o.raised:
        C.check(f"accepted ({o!r})", False); return
    C.check("arguments unchanged", all(np.array_equal(a, b) for a, b in zip(args, a0)))
    added(C, m, s, exp, order, dummy)


@contract("C07", "several additions in a row", targets=[InterpolationModel.add_dof], mode="bounded", cases=60, note=NOTE)
def _(C):
    st, z, L, p = crystal(C); n = len(p)
    ref = C.arr("ref", (3, 3)); m = InterpolationModel(st, ref)
    log = []
    for k in range(C.int("additions", 2, 4)):
        r = np.random.default_rng(C.int(f"seed{k}", 0, 10 ** 6))
        i, c = r.integers(0, n), r.integers(0, 3)
        u = np.zeros((n, 3)); u[i, c] = 1.0
        if r.random() < .3: u[(i + 1) % n, (c + 1) % 3] -= 1.0
        amps = (r.permutation(5)[:r.integers(1, 4)] + 1) * .02; tens = r.normal(size=(len(amps), 3, 3)); order = int(r.integers(1, 4)); wr = bool(r.random() < .5)
        s = state(m)
        w = u / np.linalg.norm(u)
        orth = all(abs(np.sum(w * v)) < 1e-9 for v in m.cart_basis_vectors)
        if not orth and any(1e-9 < abs(np.sum(w * v)) < 1e-3 for v in m.cart_basis_vectors): raise Discard()
        exp = expected(st, L, w, amps, tens, ref, wr)
        few = any(len(q) <= order for _, q in exp)
        o = C.run(lambda: quiet(m.add_dof, u, amps, tens, order, wr))
        if not orth or few:
            C.check(f"refused with InvalidDOFException (got {o!r})", o.is_(InvalidDOFException)); kept(C, m, s)
        else:
            if o.raised: C.check(f"accepted ({o!r})", False); return
            added(C, m, s, exp, order, False)


@contract("C07", "refused additions leave the model as it was", targets=[InterpolationModel.add_dof, private(InterpolationModel, "_construct_and_add_interpolations")], mode="bounded", cases=200, note=NOTE)
def _(C):
    st, z, L, p = crystal(C); n = len(p)
    ref = C.arr("ref", (3, 3)); dummy = C.choice("dummy", [False, False, True])
    m = InterpolationModel(st, ref, is_dummy_model=dummy)
    u = direction(C, n); u = u / np.linalg.norm(u)
    amps, tens = data(C, one_sided=True)
    order = 1; wr = C.flag("with reference"); want = InvalidDOFException
    bad = C.choice("defect", ["not orthogonal", "duplicate amplitude", "too few points", "order 0", "order type", "amplitude shape", "tensor count", "tensor shape",
                              "displacement atoms", "nan amplitude", "nan tensor", "symmetry duplicate", "zero reference amplitude", "second group fails", "list displacement", "list amplitudes"])
    J0 = existing(C, m, InterpolationModel, n, avoid=None if bad == "not orthogonal" else u)
    disp = u.copy()
    if bad == "not orthogonal":
        if not J0: raise Discard()
        disp = u + J0[C.int("which", 0, len(J0) - 1)] * C.choice("mix", [1., -.2, .01, 30.])
        w = disp / np.linalg.norm(disp)
        if max(abs(np.sum(w * v)) for v in J0) < 1e-3: raise Discard()
        wr = True
    elif bad == "duplicate amplitude":
        amps = np.append(amps, amps[C.int("dup", 0, len(amps) - 1)]); tens = np.concatenate([tens, tens[:1] + 1])
    elif bad == "too few points":
        k = max(len(q) for _, q in expected(st, L, u, amps, tens, ref, wr)); order = k + C.int("more", 0, 2)
        if order < 1: raise Discard()
    elif bad == "order 0": order = C.int("o", -2, 0); want = ValueError
    elif bad == "order type": order = C.choice("o", [1.0, "1", None]); want = TypeError
    elif bad == "amplitude shape": amps = amps[:, None]; want = ValueError
    elif bad == "tensor count":
        if dummy: raise Discard()
        tens = np.concatenate([tens, tens[:1]]); want = ValueError
    elif bad == "tensor shape":
        if dummy: raise Discard()
        tens = tens[:, :2]; want = ValueError
    elif bad == "displacement atoms": disp = np.concatenate([u, u]); want = Exception
    elif bad == "nan amplitude": amps = np.append(amps, np.nan); tens = np.concatenate([tens, tens[:1]]); want = Exception
    elif bad == "nan tensor": tens = tens.copy(); tens[0, 0, 0] = np.nan; want = Exception; wr = True
    elif bad == "symmetry duplicate":
        amps = np.concatenate([amps, -amps]); tens = np.concatenate([tens, tens + 1])
        if not any(len(g["displacements"]) > 1 for g in st.get_equivalent_displacements(u @ np.linalg.inv(L))): raise Discard()
    elif bad == "zero reference amplitude": amps = np.append(amps, 0.0); tens = np.concatenate([tens, tens[:1]]); wr = True
    elif bad == "second group fails":
        # groups with different numbers of points: an order that suits only some of them
        ks = sorted(len(q) for _, q in expected(st, L, u, amps, tens, ref, wr))
        if ks[0] == ks[-1]: raise Discard()
        order = ks[0]
    elif bad == "list displacement": disp = u.tolist(); want = TypeError
    elif bad == "list amplitudes": amps = amps.tolist(); want = TypeError
    s = state(m)
    o = C.run(lambda: quiet(m.add_dof, disp, amps, tens, order, wr))
    if bad == "nan tensor" and dummy: return
    C.check(f"{bad}: refused with {want.__name__} (got {o!r})", o.is_(want))
    kept(C, m, s)


@contract("C07", "add_art", targets=[ARTModel.add_art], mode="bounded", cases=160, note=NOTE)
def _(C):
    st, z, L, p = crystal(C); n = len(p)
    ref = C.arr("ref", (3, 3)); dummy = C.choice("dummy", [False, False, True])
    m = ARTModel(st, ref, is_dummy_model=dummy)
    i = C.int("atom", 0, n - 1); dr = C.arr("dir", (3,), style=lambda r, s: [np.eye(3)[r.integers(0, 3)], np.round(r.normal(0, 1, s), 1)][r.integers(0, 2)])
    if np.linalg.norm(dr) < 1e-3: raise Discard()
    u = np.zeros((n, 3)); u[i] = dr / np.linalg.norm(dr)
    existing(C, m, ARTModel, n, avoid=u)
    amps, tens = data(C, 3, one_sided=C.flag("one-sided"))
    exp = expected(st, L, u, amps, 0 * tens if dummy else tens, 0 * ref if dummy else ref, False)
    dup = any(len({round(x, 9) for x, _ in q}) < len(q) for _, q in exp); few = any(len(q) < 2 for _, q in exp)
    s = state(m)
    a = [dr * C.choice("length", [1., 1e-2, 25.]), amps, tens]; a0 = [x.copy() for x in a]
    o = C.run(lambda: quiet(m.add_art, i, *a))
    C.check("arguments unchanged", all(np.array_equal(x, y) for x, y in zip(a, a0)))
    if len(amps) > 2: C.check(f"three amplitudes refused (got {o!r})", o.is_(ValueError)); kept(C, m, s); return
    if dup or few: C.check(f"refused with InvalidDOFException (got {o!r})", o.is_(InvalidDOFException)); kept(C, m, s); return
    if o.raised: C.check(f"accepted ({o!r})", False); return
    added(C, m, s, exp, 1, dummy)


@contract("C07", "add_art: refused additions leave the model as it was", targets=[ARTModel.add_art], mode="bounded", cases=80, note=NOTE)
def _(C):
    st, z, L, p = crystal(C); n = len(p)
    ref = C.arr("ref", (3, 3)); m = ARTModel(st, ref)
    i = C.int("atom", 0, n - 1); dr = np.eye(3)[C.int("axis", 0, 2)]
    u = np.zeros((n, 3)); u[i] = dr
    amps = np.array([.05, -.05]) if C.flag("two") else np.array([.05])
    tens = C.arr("pols", (len(amps), 3, 3)); want = Exception
    bad = C.choice("defect", ["atom out of range", "atom type", "again", "tensor shape", "tensor count", "amplitudes 2d", "amplitude type", "direction shape", "add_dof", "add_dof_from_files"])
    args = [i, dr, amps, tens]; f = m.add_art
    if bad == "atom out of range": args[0] = n + C.int("by", 0, 3)
    elif bad == "atom type": args[0] = float(i); want = TypeError
    elif bad == "again":
        if C.run(lambda: quiet(m.add_art, *args)).raised: raise Discard()
        want = InvalidDOFException
    elif bad == "tensor shape": args[3] = tens[:, :, :2]; want = ValueError
    elif bad == "tensor count": args[3] = np.concatenate([tens, tens]); want = ValueError
    elif bad == "amplitudes 2d": args[2] = amps[None]; want = ValueError
    elif bad == "amplitude type": args[2] = amps.tolist(); want = TypeError
    elif bad == "direction shape": args[1] = np.array([1., 0])
    elif bad == "add_dof": f = m.add_dof; args = [u, amps, tens, 1]; want = UserError
    elif bad == "add_dof_from_files": f = m.add_dof_from_files; args = ["x", "outcar", 1]; want = UserError
    s = state(m)
    o = C.run(lambda: quiet(f, *args))
    C.check(f"{bad}: refused (got {o!r})", o.is_(want))
    kept(C, m, s)


@contract("C07", "files and pymatgen structures", targets=[InterpolationModel.add_dof_from_files, InterpolationModel.add_dof_from_pymatgen, private(InterpolationModel, "_read_dof"), ARTModel.add_art_from_files, ARTModel.add_art_from_pymatgen],
          mode="bounded", cases=100, note=NOTE)
def _(C):
    import pymatgen.core
    from ramannoodle.io.vasp import poscar
    from contracts.iofiles import outcar_text, groups
    st, z, L, p = crystal(C); n = len(p)
    art = C.flag("art"); cls = ARTModel if art else InterpolationModel
    ref = C.arr("ref", (3, 3)); way = C.choice("source", ["pymatgen", "outcar", "poscar (dummy)"]); dummy = way.startswith("poscar")
    m = cls(st, ref, is_dummy_model=dummy)
    if dummy and len(groups(z)) != len(set(z)): raise Discard()
    u = np.zeros((n, 3))
    if art: u[C.int("atom", 0, n - 1)] = np.eye(3)[C.int("axis", 0, 2)]
    else: u = direction(C, n); u = u / np.linalg.norm(u)
    amps, tens = data(C, 3, one_sided=True)
    if art: amps, tens = amps[:2], tens[:2]
    if dummy: tens = tens * 0
    if not art and abs(amps).max() / np.abs(u).max() * 0 > 1: raise Discard()
    X_ = [p + (a * u) @ np.linalg.inv(L) for a in amps]
    for a in amps:
        if np.abs((a * u) @ np.linalg.inv(L)).max() > .45: raise Discard()
    X_ = [x % 1 for x in X_]
    s = state(m); wr = not art
    sgn = np.sign(amps[0])
    exp = expected(st, L, u * sgn, amps * sgn, tens, ref if not dummy else 0 * ref, wr)
    dup = any(len({round(x, 7) for x, _ in q}) < len(q) for _, q in exp)
    few = any(len(q) < 2 for _, q in exp); wrong = art and len(exp[0][1]) != 2
    d = None
    if way == "pymatgen":
        ps = [pymatgen.core.Structure(L, z, x) for x in X_]
        o = C.run(lambda: quiet(m.add_art_from_pymatgen if art else m.add_dof_from_pymatgen, ps, tens, *(() if art else (1,))))
    else:
        d = C.scratch(); fs = []
        for k, x in enumerate(X_):
            f = f"{d}/f{k}"; fs.append(f)
            if dummy: poscar.write_structure(L, z, x, f)
            else: open(f, "w").write(outcar_text(L, z, x, tens[k]))
        o = C.run(lambda: quiet(m.add_art_from_files if art else m.add_dof_from_files, fs, "poscar" if dummy else "outcar", *(() if art else (1,))))
    if dup or few or wrong: C.check(f"refused with InvalidDOFException (got {o!r})", o.is_(InvalidDOFException)); kept(C, m, s); return
    if o.raised: C.check(f"accepted ({o!r})", False); return
    if d is None or dummy: added(C, m, s, exp, 1, dummy)
    else: added_loose(C, m, s, exp)


def added_loose(C, m, s, exp):
    """As `added`, for data that went through the digits of a file."""
    J = len(s["V"]); G = len(exp)
    C.check("one entry each", len(m.cart_basis_vectors) == J + G and len(m.interpolations) == J + G and m.mask.shape == (J + G,) and not m.mask[J:].any())
    if len(m.interpolations) != J + G: return
    for g, (b, pts) in enumerate(exp):
        C.check("basis vector", np.allclose(m.cart_basis_vectors[J + g], b, atol=1e-4))
        xs = np.array([x for x, _ in pts]); ys = np.array([y for _, y in pts])
        C.check("passes through every point", np.allclose(m.interpolations[J + g](xs), ys, atol=2e-2, rtol=1e-2))


@contract("C07", "files that do not fit leave the model as it was", targets=[InterpolationModel.add_dof_from_files, ARTModel.add_art_from_files], mode="bounded", cases=40, note=NOTE)
def _(C):
    import pymatgen.core
    st, z, L, p = crystal(C); n = len(p)
    art = C.flag("art"); cls = ARTModel if art else InterpolationModel
    m = cls(st, C.arr("ref", (3, 3)))
    u = np.zeros((n, 3)); u[C.int("atom", 0, n - 1), C.int("axis", 0, 2)] = .05
    iL = np.linalg.inv(L); x = p + u @ iL
    bad = C.choice("defect", ["not collinear", "other number of atoms", "two atoms", "missing file", "count"])
    v = np.zeros((n, 3)); v[C.int("atom2", 0, n - 1)] = [.03, -.07, .05]
    if bad == "not collinear": X_ = [x, p + v @ iL]; zz = z
    elif bad == "other number of atoms": X_ = [x, np.concatenate([x, x[:1] + .5])]; zz = z
    elif bad == "two atoms":
        if not art or n < 2: raise Discard()
        w = np.zeros((n, 3)); w[0, 0] = w[1, 1] = .05
        X_ = [p + w @ iL, p - w @ iL]
    else: X_ = [x, p - u @ iL]
    T = C.arr("pols", (len(X_), 3, 3)); s = state(m)
    if bad == "missing file":
        o = C.run(lambda: quiet(m.add_art_from_files if art else m.add_dof_from_files, [C.scratch() + "/none"], "outcar", *(() if art else (1,))))
        C.check(f"FileNotFoundError (got {o!r})", o.is_(FileNotFoundError)); kept(C, m, s); return
    ps = [pymatgen.core.Structure(L, (list(z) * 2)[:len(q)], q) for q in X_]
    if bad == "count":
        if art: raise Discard()
        T = T[:1]
    o = C.run(lambda: quiet(m.add_art_from_pymatgen if art else m.add_dof_from_pymatgen, ps, T, *(() if art else (1,))))
    C.check(f"{bad}: refused (got {o!r})", o.is_(InvalidDOFException, ValueError)); kept(C, m, s)
