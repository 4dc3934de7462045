"""C06: masks."""
from vc.contract import contract
from contracts.models import *
from ramannoodle.constants import ATOM_SYMBOLS


def classes(C): return C.choice("class", [InterpolationModel, ARTModel])


def indexes(C, J, lo=None):
    k = C.dim("K", 0); ix = C.arr("idx", (k,), integer=True)
    if C.mode == "con":
        if J == 0 and k: raise Discard()
        ix = np.array([int(v) % J for v in ix], dtype=int) if lo is None else np.array([int(v) % (2 * J) - J for v in ix], dtype=int)
        return k, ix, [int(v) for v in ix]
    C.assume(C.all(k, lambda i: C.and_(C.le(0 if lo is None else -J, C.at(ix, i)), C.lt(C.at(ix, i), J))))
    return k, ix, C.list(k, lambda i: C.at(ix, i))


@contract("C06", "get_masked_model", targets=[InterpolationModel.get_masked_model])
def _(C):
    M = model(C, classes(C)); J = M["J"]; m = M["model"]
    k, ix, l = indexes(C, J, -1)
    s = C.snapshot(m); ls = C.snapshot(l)
    r = C.meth(m, "get_masked_model", l)
    C.check("same class", type(r) is type(m))
    mk = C.get(r, "mask")
    if not C.check_shape("one entry per degree of freedom", mk, (J,)): return
    C.forall("exactly the requested entries are masked", (J,), lambda j: C.iff(C.at(mk, j), C.any(k, lambda i: C.or_(C.eq(C.at(ix, i), j), C.eq(C.at(ix, i), j - J)))))
    C.unchanged("original model", m, s); C.unchanged("argument", l, ls)
    C.fresh("no shared mutable state", r, m)


@contract("C06", "predictions of a masked copy", targets=[InterpolationModel.get_masked_model, InterpolationModel.calc_polarizabilities])
def _(C):
    M = model(C, classes(C)); J = M["J"]; m = M["model"]
    k, ix, l = indexes(C, J)
    S = C.dim("S", 1); x = C.arr("x", (S, M["n"], 3))
    before = C.meth(m, "calc_polarizabilities", x)
    r = C.meth(m, "get_masked_model", l)
    q = C.meth(r, "calc_polarizabilities", x)
    after = C.meth(m, "calc_polarizabilities", x)
    masked = lambda j: C.any(k, lambda i: C.eq(C.at(ix, i), j))
    C.forall("only the degrees of freedom requested are excluded", (S, 3, 3), lambda s, a, b: C.eq(C.at(q, s, a, b), C.at(M["ref"], a, b) + C.sum(J, lambda j: C.ite(masked(j), 0, C.amp_tensor(amplitude(C, M, j, lambda i, c: C.at(x, s, i, c)), j, M["tag"], a, b)))))
    C.forall("the original predicts as before", (S, 3, 3), lambda s, a, b: C.eq(C.at(before, s, a, b), C.at(after, s, a, b)))


@contract("C06", "requests out of range", targets=[InterpolationModel.get_masked_model])
def _(C):
    M = model(C, classes(C)); J = M["J"]; m = M["model"]
    i = C.int("i", -9, 9)
    s = C.snapshot(m)
    o = C.run(C.get(m, "get_masked_model"), C.lst(i))
    if C.decide(C.and_(C.le(-J, i), C.lt(i, J))): C.check("accepted", not o.raised)
    else: C.check("IndexError", o.is_(IndexError))
    C.unchanged("original model", m, s)


@contract("C06", "masking a masked copy", targets=[InterpolationModel.get_masked_model])
def _(C):
    M = model(C, classes(C)); J = M["J"]; m = M["model"]
    k, ix, l = indexes(C, J)
    r = C.meth(C.meth(m, "get_masked_model", C.list(J, lambda j: j)), "get_masked_model", l)
    mk = C.get(r, "mask")
    C.forall("the previous mask is forgotten", (J,), lambda j: C.iff(C.at(mk, j), C.any(k, lambda i: C.eq(C.at(ix, i), j))))


@contract("C06", "unmask", targets=[InterpolationModel.unmask])
def _(C):
    M = model(C, classes(C)); J = M["J"]; m = M["model"]
    other = C.meth(m, "get_masked_model", C.lst())
    C.set(other, "mask", M["mask"]); C.set(m, "mask", M["mask"])
    s = C.snapshot(other)
    C.meth(m, "unmask")
    mk = C.get(m, "mask")
    if not C.check_shape("one entry per degree of freedom", mk, (J,)): return
    C.forall("no entry is masked", (J,), lambda j: C.not_(C.at(mk, j)))
    C.unchanged("other model", other, s)
    C.forall("basis vectors kept", (J, M["n"], 3), lambda j, i, c: C.eq(C.at(C.item(C.get(m, "cart_basis_vectors"), j), i, c), C.at(M["V"], j, i, c)))


@contract("C06", "unmask restores the full prediction", targets=[InterpolationModel.unmask, InterpolationModel.calc_polarizabilities])
def _(C):
    M = model(C, classes(C)); J = M["J"]; m = M["model"]
    S = C.dim("S", 1); x = C.arr("x", (S, M["n"], 3))
    C.meth(m, "unmask")
    q = C.meth(m, "calc_polarizabilities", x)
    C.forall("every degree of freedom counts", (S, 3, 3), lambda s, a, b: C.eq(C.at(q, s, a, b), C.at(M["ref"], a, b) + C.sum(J, lambda j: C.amp_tensor(amplitude(C, M, j, lambda i, c: C.at(x, s, i, c)), j, M["tag"], a, b))))


@contract("C06", "setting a mask", targets=[InterpolationModel.mask])
def _(C):
    M = model(C, classes(C)); J = M["J"]; m = M["model"]
    a = C.arr("new", (J,), dtype="b"); vs = C.snapshot(a)
    C.set(m, "mask", a)
    C.unchanged("argument", a, vs)
    mk = C.get(m, "mask")
    C.forall("kept", (J,), lambda j: C.iff(C.at(mk, j), C.at(a, j)))
    C.fresh("model and argument share nothing", m, a)
    C.fresh("model and returned mask share nothing", m, mk)
    # the model changes: the caller's array does not
    C.meth(m, "unmask"); C.unchanged("argument after unmask", a, vs)
    # the caller's array and the returned mask change: the model does not
    C.set(m, "mask", a)
    i = C.int("i", 0, 5); 
    if C.decide(C.lt(i, J)):
        s = C.snapshot(m); g = C.get(m, "mask")
        C.setitem(a, i, True); C.setitem(g, i, False); C.unchanged("model after the caller's arrays change", m, s)


@contract("C06", "masks of the wrong shape", targets=[InterpolationModel.mask])
def _(C):
    M = model(C, classes(C)); J = M["J"]; m = M["model"]; s = C.snapshot(m)
    K = C.dim("K"); C.assume(C.not_(C.eq(K, J)))
    C.check("wrong length: ValueError", C.run(C.get(type(m), "mask").fset, m, C.arr("w", (K,), dtype="b")).is_(ValueError))
    C.unchanged("model", m, s)
    C.check("two dimensions: ValueError", C.run(C.get(type(m), "mask").fset, m, C.arr("v", (J, 1), dtype="b")).is_(ValueError))
    C.unchanged("model", m, s)
    C.check("a list: TypeError", C.run(C.get(type(m), "mask").fset, m, C.list(J, lambda j: True)).is_(TypeError))
    C.unchanged("model", m, s)


def displaced(C, M, j, i):
    """Degree of freedom j displaces atom i."""
    V = M["V"]; tol = Fraction(1, 100000) if C.mode == "sym" else 1e-5
    return C.not_(C.and_(*[C.le(C.abs(C.at(V, j, i, c)), tol) for c in range(3)]))


def art_model(C):
    """An ART model; concretely, components are zero or well above the threshold of the search."""
    M = model(C, ARTModel)
    if C.mode == "con":
        V = np.where(np.abs(M["V"]) < 1e-3, 0, M["V"]) * (np.random.default_rng(len(C.inputs)).random((int(M["J"]), int(M["n"]), 1)) < .6)
        M["V"] = V; C.set(M["model"], fields()["cart_basis_vectors"], [v.copy() for v in V])
    return M


@contract("C06", "get_dof_indexes by atom", targets=[ARTModel.get_dof_indexes])
def _(C):
    M = art_model(C); J, n = M["J"], M["n"]; m = M["model"]
    i = C.int("i", -6, 6)
    form = C.choice("form", ["int", "list"])
    s = C.snapshot(m)
    o = C.run(C.get(m, "get_dof_indexes"), C.lst(i) if form == "list" else i)
    C.unchanged("model", m, s)
    if not C.decide(C.and_(C.le(-n, i), C.lt(i, n))): return
    if o.raised: C.check(f"accepted ({o!r})", False); return
    r = o.value; i = i if C.decide(C.le(0, i)) else n + i
    K = C.len(r)
    C.forall("only degrees of freedom that displace the atom", (K,), lambda k: C.and_(C.le(0, C.item(r, k)), C.lt(C.item(r, k), J), displaced(C, M, C.item(r, k), i)))
    C.forall("every degree of freedom that displaces the atom", (J,), lambda j: C.implies(displaced(C, M, j, i), C.any(K, lambda k: C.eq(C.item(r, k), j))))
    C.forall("each once, in order", (K - 1,), lambda k: C.lt(C.item(r, k), C.item(r, k + 1)))


def exactly(C, M, r, atoms):
    V = np.asarray(M["V"])
    want = {j for j in range(int(M["J"])) for i in atoms if not np.all(np.abs(V[j][i]) <= 1e-5)}
    got = [int(x) for x in r]
    C.check(f"exactly the degrees of freedom that displace the atoms (got {got}, expected {sorted(want)})", set(got) == want)


@contract("C06", "get_dof_indexes by symbol and mixture", targets=[ARTModel.get_dof_indexes], mode="bounded", cases=120,
          note="Lists mixing atom indexes and symbols, up to 7 atoms; lists of symbolic length inside a set are outside the verifier.")
def _(C):
    M = art_model(C); n = int(M["n"]); m = M["model"]; z = M["z"]
    syms = sorted({ATOM_SYMBOLS[v] for v in z}) + ["Pu"]
    k = C.dim("items")
    items = []
    for q in range(k):
        if C.rng.random() < .5: items.append(C.rng.choice(syms))
        else: items.append(C.rng.randrange(-n, n) if C.rng.random() < .3 else C.rng.randrange(n))
    C.inputs["items"] = items
    atoms = {i for it in items for i in ([a for a in range(n) if ATOM_SYMBOLS[z[a]] == it] if isinstance(it, str) else [it % n])}
    s = C.snapshot(m); its = C.snapshot(items)
    exactly(C, M, C.meth(m, "get_dof_indexes", items), atoms)
    C.unchanged("model", m, s); C.unchanged("argument", items, its)
    if len(items) == 1: exactly(C, M, C.meth(m, "get_dof_indexes", items[0]), atoms)
    C.check("atoms of a symbol", all(C.meth(M["st"], "get_atom_indexes", x) == [a for a in range(n) if ATOM_SYMBOLS[z[a]] == x] for x in syms))
    C.check("atoms of several symbols", C.meth(M["st"], "get_atom_indexes", syms) == list(range(n)))
