"""C22: trajectories and phonons keep what they are given."""
from vc.contract import contract
from contracts.common import *
from ramannoodle.dynamics import Trajectory, Phonons


def trajectory(C, lo=0):
    s = C.dim("S", lo); n = C.dim("N"); p = C.arr("p", (s, n, 3)); dt = C.real("dt")
    if C.mode == "con": dt = abs(dt) + .05
    C.assume(C.lt(0, dt))
    return C.new(Trajectory, p, dt), s, n, p, dt


def wrapped(C, x): return x - C.floor(x)


@contract("C22", "Trajectory", targets=[Trajectory.__init__, Trajectory.positions_ts, Trajectory.timestep, Trajectory.__len__])
def _(C):
    s = C.dim("S"); n = C.dim("N"); p = C.arr("p", (s, n, 3)); dt = C.real("dt"); ps = C.snapshot(p)
    o = C.run(Trajectory, p, dt)
    if C.decide(C.le(dt, 0)):
        C.check("non-positive timestep refused", o.is_(ValueError)); return
    if o.raised: C.check(f"accepted ({o!r})", False); return
    t = o.value
    C.check("length", C.eq(C.len(t), s))
    C.check("timestep kept", C.eq(C.get(t, "timestep"), dt))
    full = C.get(t, "positions_ts")
    if not C.check_shape("series", full, (s, n, 3)): return
    C.forall("every configuration, in order, wrapped", (s, n, 3), lambda k, i, c: C.or_(C.eq(C.at(full, k, i, c), wrapped(C, C.at(p, k, i, c))), False if C.mode == "sym" else C.isint(C.at(p, k, i, c) - C.at(full, k, i, c))))
    C.forall("inside the cell", (s, n, 3), lambda k, i, c: C.and_(C.le(0, C.at(full, k, i, c)), C.lt(C.at(full, k, i, c), 1)))
    C.unchanged("argument", p, ps)


@contract("C22", "integer timestep", targets=[Trajectory.__init__])
def _(C):
    s = C.dim("S"); n = C.dim("N"); p = C.arr("p", (s, n, 3)); dt = C.int("dt", -2, 5)
    o = C.run(Trajectory, p, dt)
    if C.decide(C.le(dt, 0)): C.check("refused", o.is_(ValueError)); return
    if o.raised: C.check(f"accepted ({o!r})", False); return
    C.check("kept", C.eq(C.get(o.value, "timestep"), dt))


@contract("C22", "indexing", targets=[Trajectory.__getitem__])
def _(C):
    t, s, n, p, dt = trajectory(C)
    k = C.int("k", -7, 7)
    full = C.get(t, "positions_ts")
    o = C.run(C.get(t, "__getitem__"), k)
    if C.decide(C.and_(C.le(-s, k), C.lt(k, s))):
        if o.raised: C.check(f"in range ({o!r})", False); return
        if not C.check_shape("configuration", o.value, (n, 3)): return
        kk = k if C.decide(C.le(0, k)) else s + k
        C.forall("the configuration of that index", (n, 3), lambda i, c: C.eq(C.at(o.value, i, c), C.at(full, kk, i, c)))
    else: C.check("IndexError when out of range", o.is_(IndexError))


@contract("C22", "indexing, any index", targets=[Trajectory.__getitem__])
def _(C):
    t, s, n, p, dt = trajectory(C)
    k = C.int("k")
    full = C.get(t, "positions_ts")
    o = C.run(C.get(t, "__getitem__"), k)
    if C.decide(C.and_(C.le(-s, k), C.lt(k, s))):
        if o.raised: C.check(f"in range ({o!r})", False); return
        if not C.check_shape("configuration", o.value, (n, 3)): return
        kk = k if C.decide(C.le(0, k)) else s + k
        C.forall("the configuration of that index", (n, 3), lambda i, c: C.eq(C.at(o.value, i, c), C.at(full, kk, i, c)))
    else: C.check("IndexError when out of range", o.is_(IndexError))


@contract("C22", "slicing", targets=[Trajectory.__getitem__])
def _(C):
    t, s, n, p, dt = trajectory(C)
    step = C.choice("step", [None, 1, 2, -1, 3, -2])
    a = C.choice("start", [None, "n"]); b = C.choice("stop", [None, "n"])
    a = C.int("a", -6, 6) if a else None; b = C.int("b", -6, 6) if b else None
    full = C.get(t, "positions_ts")
    key = slice(a, b, step)
    got = C.item(t, key); want = C.item(full, key)
    C.check_eq_arr("same as the full series", got, want)


@contract("C22", "iteration", targets=[Trajectory.__getitem__, Trajectory.__len__])
def _(C):
    t, s, n, p, dt = trajectory(C)
    full = C.get(t, "positions_ts")
    l = C.call(list, t)
    if C.mode == "con" or True: C.check("as many configurations", C.eq(C.len(l), s))
    C.forall("in order", (s, n, 3), lambda k, i, c: C.eq(C.at(C.item(l, k), i, c), C.at(full, k, i, c)))


@contract("C22", "wrong shapes refused", targets=[Trajectory.__init__, Phonons.__init__])
def _(C):
    s = C.dim("S"); n = C.dim("N"); m = C.dim("M"); d = C.int("d", 1, 3); w = C.choice("w", [1, 2, 4])
    C.check("trajectory: last dimension", C.run(Trajectory, C.arr("a", (s, n, w)), 1.).is_(ValueError))
    C.check("trajectory: one configuration", C.run(Trajectory, C.arr("b", (n, 3)), 1.).is_(ValueError))
    C.check("trajectory: four dimensions", C.run(Trajectory, C.arr("c", (s, n, 3, 1)), 1.).is_(ValueError))
    r = C.arr("r", (n, 3)); wn = C.arr("wn", (m,)); u = C.arr("u", (m, n, 3))
    C.check("phonons: reference positions", C.run(Phonons, C.arr("r2", (n, w)), wn, u).is_(ValueError))
    C.check("phonons: reference positions, one dimension", C.run(Phonons, C.arr("r3", (n,)), wn, u).is_(ValueError))
    C.check("phonons: wavenumbers", C.run(Phonons, r, C.arr("wn2", (m, 1)), u).is_(ValueError))
    C.check("phonons: too many wavenumbers", C.run(Phonons, r, C.arr("wn3", (m + d,)), u).is_(ValueError))
    C.check("phonons: too few wavenumbers", C.run(Phonons, r, wn, C.arr("u2", (m + d, n, 3))).is_(ValueError))
    C.check("phonons: number of atoms", C.run(Phonons, r, wn, C.arr("u3", (m, n + d, 3))).is_(ValueError))
    C.check("phonons: last dimension", C.run(Phonons, r, wn, C.arr("u4", (m, n, w))).is_(ValueError))


@contract("C22", "Phonons", targets=[Phonons.__init__, Phonons.ref_positions, Phonons.wavenumbers, Phonons.displacements])
def _(C):
    n = C.dim("N"); m = C.dim("M")
    r = C.arr("r", (n, 3)); wn = C.arr("wn", (m,)); u = C.arr("u", (m, n, 3))
    s = [C.snapshot(x) for x in (r, wn, u)]
    ph = C.new(Phonons, r, wn, u)
    C.check_eq_arr("reference positions", C.get(ph, "ref_positions"), r)
    C.check_eq_arr("wavenumbers", C.get(ph, "wavenumbers"), wn)
    C.check_eq_arr("displacements", C.get(ph, "displacements"), u)
    for nm, x, y in zip(("reference positions", "wavenumbers", "displacements"), (r, wn, u), s): C.unchanged(f"argument {nm}", x, y)
