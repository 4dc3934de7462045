"""C05: predictions are the reference plus independent interpolations."""
from vc.contract import contract
from contracts.models import *
from ramannoodle.exceptions import UserError


@contract("C05", "calc_polarizabilities: formula", targets=[InterpolationModel.calc_polarizabilities])
def _(C):
    M = model(C, C.choice("class", [InterpolationModel, ARTModel]))
    S = C.dim("S", 1); x = C.arr("x", (S, M["n"], 3)); xs = C.snapshot(x); ms = C.snapshot(M["model"])
    o = C.run(C.get(M["model"], "calc_polarizabilities"), x)
    if o.raised: C.check(f"accepted ({o!r})", False); return
    if not C.check_shape("tensors", o.value, (S, 3, 3)): return
    C.forall("reference plus unmasked interpolations", (S, 3, 3), lambda s, a, b: C.eq(C.at(o.value, s, a, b), predicted(C, M, lambda i, c: C.at(x, s, i, c), a, b)))
    C.unchanged("argument", x, xs); C.unchanged("model", M["model"], ms)


@contract("C05", "each configuration is predicted independently", targets=[InterpolationModel.calc_polarizabilities])
def _(C):
    """Entry s of a batch is the prediction of configuration s alone, wherever it stands."""
    M = model(C)
    S = C.dim("S", 1); x = C.arr("x", (S, M["n"], 3)); s = C.int("s", 0, S - 1)
    T = C.dim("T", 1); y = C.arr("y", (T, M["n"], 3)); t = C.int("t", 0, T - 1)
    z = C.call(np.copy, y)
    C.setitem(z, t, C.item(x, s))
    f = C.get(M["model"], "calc_polarizabilities")
    r = C.call(f, x); q = C.call(f, z)
    C.forall("the same tensor in any batch", (3, 3), lambda a, b: C.eq(C.at(r, s, a, b), C.at(q, t, a, b)))


@contract("C05", "moving atoms by whole cells", targets=[InterpolationModel.calc_polarizabilities])
def _(C):
    M = model(C)
    S = C.dim("S", 1); x = C.arr("x", (S, M["n"], 3), style=off_boundary); k = C.arr("k", (S, M["n"], 3), integer=True)
    f = C.get(M["model"], "calc_polarizabilities")
    r = C.call(f, x); q = C.call(f, x + k)
    C.forall("same prediction", (S, 3, 3), lambda s, a, b: C.eq(C.at(r, s, a, b), C.at(q, s, a, b), tol=1e-6))


def off_boundary(r, s): return r.normal(0, .7, s)


@contract("C05", "reference configuration", targets=[InterpolationModel.calc_polarizabilities])
def _(C):
    """At the reference positions every amplitude is zero."""
    M = model(C)
    r = C.call(C.get(M["model"], "calc_polarizabilities"), C.call(np.array, C.lst(M["p"])))
    if not C.check_shape("tensors", r, (1, 3, 3)): return
    C.forall("reference plus interpolations at zero", (3, 3), lambda a, b: C.eq(C.at(r, 0, a, b), C.at(M["ref"], a, b) + C.sum(M["J"], lambda j: C.ite(C.at(M["mask"], j), 0, C.amp_tensor(0, j, M["tag"], a, b)))))


@contract("C05", "masked and constant parts", targets=[InterpolationModel.calc_polarizabilities])
def _(C):
    """A fully masked model predicts the reference polarizability."""
    M = model(C)
    C.set(M["model"], fields()["mask"], C.call(np.ones, (M["J"],), dtype=bool))
    S = C.dim("S", 1); x = C.arr("x", (S, M["n"], 3))
    r = C.call(C.get(M["model"], "calc_polarizabilities"), x)
    C.forall("reference", (S, 3, 3), lambda s, a, b: C.eq(C.at(r, s, a, b), C.at(M["ref"], a, b)))


@contract("C05", "dummy models refuse to predict", targets=[InterpolationModel.calc_polarizabilities])
def _(C):
    st, n, L, p, z = structure(C)
    cls = C.choice("class", [InterpolationModel, ARTModel])
    m = C.new(cls, st, C.arr("ref", (3, 3)), is_dummy_model=True)
    J = C.dim("J", 1); V = C.arr("V", (J, n, 3)); F = fields(cls)
    C.set(m, F["cart_basis_vectors"], C.list(J, lambda j: C.item(V, j))); C.set(m, F["mask"], C.arr("mask", (J,), dtype="b"))
    S = C.dim("S", 1); x = C.arr("x", (S, n, 3))
    C.check("UserError", C.run(C.get(m, "calc_polarizabilities"), x).is_(UserError))


@contract("C05", "wrong shapes refused", targets=[InterpolationModel.calc_polarizabilities])
def _(C):
    M = model(C)
    n = M["n"]; S = C.dim("S", 1); d = C.int("d", 1, 3)
    f = C.get(M["model"], "calc_polarizabilities")
    C.check("one configuration without batch dimension", C.run(f, C.arr("a", (n, 3))).is_(ValueError))
    C.check("two components", C.run(f, C.arr("b", (S, n, 2))).is_(ValueError))
    if C.decide(C.lt(1, n)): C.check("too many atoms", C.run(f, C.arr("c", (S, n + d, 3))).is_(ValueError))
