"""C08: returned data are copies, arguments are never modified."""
from vc.contract import contract
from contracts.models import *
from contracts.C09 import phonons
from contracts.C10 import spectrum
from contracts.C12 import series, timestep
from contracts import C13 as conv13
from ramannoodle.dynamics import Phonons, Trajectory
from ramannoodle.spectrum import PhononRamanSpectrum, MDRamanSpectrum
from ramannoodle.spectrum.utils import convolve_spectrum, calc_signal_spectrum
from ramannoodle.structure import utils as SU, _displace as SD
from ramannoodle.dataset.torch import PolarizabilityDataset
import ramannoodle.dataset.torch.utils as DU


def same_value(C, name, a, b):
    """Two results of the same call agree."""
    if isinstance(a, (list, tuple)) or hasattr(a, "segs"):
        C.check(name + ": length", C.eq(C.len(a), C.len(b)))
        if C.mode == "con" or isinstance(a, (list, tuple)):
            for x, y in zip(a, b): same_value(C, name, x, y)
        return
    if isinstance(a, dict):
        C.check(name + ": keys", set(a) == set(b))
        for k in a: same_value(C, name, a[k], b[k])
        return
    C.check_eq_arr(name, a, b)


def spoil(v):
    """Overwrite everything in a returned value."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable: v[...] = ~v if v.dtype.kind == "b" else v + 7
    elif isinstance(v, list):
        for x in v: spoil(x)
        v.append(1)
    elif isinstance(v, tuple):
        for x in v: spoil(x)
    elif isinstance(v, dict):
        for x in v.values(): spoil(x)
        v["x"] = 1


def accessors(C, obj, names):
    for nm in names:
        v = C.get(obj, nm)
        if callable(v) and nm.startswith("get_"): v = v()
        C.fresh(f"{nm} hands out a copy", v, obj)
        if C.mode == "con":
            s = C.snapshot(obj); again = C.get(obj, nm)
            f = (lambda: getattr(obj, nm)()) if nm.startswith("get_") else (lambda: getattr(obj, nm))
            keep = C.snapshot(f())
            spoil(f() if not hasattr(v, "atomic_numbers") else None)
            C.unchanged(f"{nm}: writing to it changes nothing", f(), keep)
            C.unchanged(f"{nm}: the object is as before", obj, s)


def pure(C, name, f, *args, **kw):
    """f(*args) leaves its arguments alone, repeats, and returns nothing of them."""
    s = [C.snapshot(a) for a in args]; sk = {k: C.snapshot(a) for k, a in kw.items()}
    a = C.call(f, *args, **kw)
    for i, x in enumerate(args): C.unchanged(f"{name}: argument {i} not modified", x, s[i])
    for k, x in kw.items(): C.unchanged(f"{name}: argument {k} not modified", x, sk[k])
    b = C.call(f, *args, **kw)
    same_value(C, f"{name}: same again", a, b)
    return a


@contract("C08", "structures hand out copies", targets=[ReferenceStructure.atomic_numbers, ReferenceStructure.lattice, ReferenceStructure.positions])
def _(C):
    accessors(C, structure(C)[0], ["atomic_numbers", "lattice", "positions"])


@contract("C08", "structures: equivalent atoms", targets=[ReferenceStructure.get_equivalent_atom_dict, ReferenceStructure.get_equivalent_displacements, ReferenceStructure.get_atom_indexes], mode="bounded",
          note="Works on spglib's result for real crystals.")
def _(C):
    from contracts import crystals as X
    st, z, L, p = X.get(C.choice("crystal", sorted(X.BUILD)))
    accessors(C, st, ["atomic_numbers", "lattice", "positions", "get_equivalent_atom_dict"])
    u = np.zeros((len(p), 3)); u[C.int("atom", 0, 3) % len(p)] = C.arr("dir", (3,)) * .01
    s = C.snapshot(st)
    r = pure(C, "get_equivalent_displacements", st.get_equivalent_displacements, u)
    C.fresh("equivalent displacements are copies", [d for g in r for d in g["displacements"]], st, u)
    q = [1, C.choice("symbol", ["Ti", "O", "Si"])]
    if not C.run(st.get_atom_indexes, q).raised:
        pure(C, "get_atom_indexes", st.get_atom_indexes, q)
    C.unchanged("structure", st, s)


@contract("C08", "phonons hand out copies", targets=[Phonons.ref_positions, Phonons.wavenumbers, Phonons.displacements])
def _(C):
    m, n, r, w, u = phonons(C)
    accessors(C, C.new(Phonons, r, w, u), ["ref_positions", "wavenumbers", "displacements"])


@contract("C08", "trajectories hand out copies of the full series", targets=[Trajectory.positions_ts])
def _(C):
    s = C.dim("S"); n = C.dim("N")
    p = C.arr("p", (s, n, 3)); t = C.new(Trajectory, p, timestep(C)); k = C.snapshot(p)
    accessors(C, t, ["positions_ts"])
    C.fresh("the series is not the caller's array", C.get(t, "positions_ts"), p)
    C.unchanged("argument", p, k)


@contract("C08", "phonon spectra hand out copies", targets=[PhononRamanSpectrum.phonon_wavenumbers, PhononRamanSpectrum.raman_tensors, PhononRamanSpectrum.measure])
def _(C):
    s, m, w, t = spectrum(C)
    accessors(C, s, ["phonon_wavenumbers", "raman_tensors"])
    k = C.snapshot(s)
    r = C.meth(s, "measure")
    C.fresh("measured wavenumbers and intensities are copies", r, s)
    C.unchanged("measuring changes nothing", s, k)
    same_value(C, "measured again", r, C.meth(s, "measure"))


@contract("C08", "phonon spectra: corrections", targets=[PhononRamanSpectrum.measure])
def _(C):
    s, m, w, t = spectrum(C); wl, T = C.real("wl"), C.real("T"); k = C.snapshot(s)
    a, b = C.flag("laser"), C.flag("bose")
    f = lambda: C.run(C.get(s, "measure"), laser_correction=a, laser_wavelength=wl, bose_einstein_correction=b, temperature=T)
    o = f()
    C.unchanged("measuring changes nothing", s, k)
    if o.raised:
        C.check("refused again", f().raised); return
    C.fresh("copies", o.value, s)
    if C.mode == "con":
        with np.errstate(all="ignore"): q = f().value
        C.check("measured again", all(np.array_equal(x, y, equal_nan=True) for x, y in zip(o.value, q)))


@contract("C08", "molecular-dynamics spectra hand out copies", targets=[MDRamanSpectrum.polarizability_ts, MDRamanSpectrum.measure])
def _(C):
    n, a = series(C); dt = timestep(C)
    m = C.new(MDRamanSpectrum, a, dt)
    accessors(C, m, ["polarizability_ts"])
    k = C.snapshot(m); ka = C.snapshot(a)
    r = C.meth(m, "measure")
    C.fresh("measured wavenumbers and intensities are copies", r, m, a)
    C.unchanged("measuring changes nothing", m, k); C.unchanged("series given", a, ka)
    same_value(C, "measured again", r, C.meth(m, "measure"))


@contract("C08", "signal spectrum leaves its argument alone", targets=[calc_signal_spectrum])
def _(C):
    x = C.arr("x", (C.dim("M", 1),))
    r = pure(C, "calc_signal_spectrum", calc_signal_spectrum, x, timestep(C))
    C.fresh("result", r, x)


for _fn in ("gaussian", "lorentzian"):
    def mk(fn):
        @contract("C08", f"convolution ({fn})", targets=[convolve_spectrum])
        def _(C):
            m = C.dim("M", 1)
            w, i, width = conv13.args(C, m)
            if C.mode == "con": width = abs(width) + .1
            C.assume(C.lt(0, width))
            if C.mode == "con":
                r = pure(C, "convolve_spectrum", convolve_spectrum, w, i, fn, width)
            else:
                ws, is_ = C.snapshot(w), C.snapshot(i)
                r = C.call(convolve_spectrum, w, i, fn, width)
                C.unchanged("wavenumbers", w, ws); C.unchanged("intensities", i, is_)
            C.fresh("default grid and intensities are copies", r, w, i)

        @contract("C08", f"convolution ({fn}) on a supplied grid", targets=[convolve_spectrum])
        def _(C):
            m = C.dim("M"); l = C.dim("L")
            w, i, width = conv13.args(C, m); o = conv13.out(C, l)
            if C.mode == "con": width = abs(width) + .1
            C.assume(C.lt(0, width))
            r = pure(C, "convolve_spectrum", convolve_spectrum, w, i, fn, width, o)
            C.fresh("intensities are not the arguments", r[1], w, i, o)
    mk(_fn)


@contract("C08", "periodic helpers leave their arguments alone", targets=[SU.apply_pbc, SU.apply_pbc_displacement, SU.displace_positions, SU.transform_positions, SU.calc_displacement])
def _(C):
    n = C.dim("N"); p = positions(C, "p", (n, 3)); q = C.arr("q", (n, 3)); R = C.arr("R", (3, 3)); t = C.arr("t", (3,))
    for nm, f, a in [("apply_pbc", SU.apply_pbc, (p,)), ("apply_pbc_displacement", SU.apply_pbc_displacement, (p,)), ("displace_positions", SU.displace_positions, (p, q)),
                     ("calc_displacement", SU.calc_displacement, (p, q)), ("transform_positions", SU.transform_positions, (p, R, t))]:
        C.fresh(f"{nm}: result is new", pure(C, nm, f, *a), *a)


@contract("C08", "structure conversions leave their arguments alone", targets=[ReferenceStructure.get_cart_displacement, ReferenceStructure.get_frac_displacement, ReferenceStructure.get_cart_direction, ReferenceStructure.get_frac_direction])
def _(C):
    st, n, L, p, z = structure(C); u = C.arr("u", (n, 3)); d = C.arr("d", (3,)); s = C.snapshot(st)
    for nm, a in [("get_cart_displacement", u), ("get_frac_displacement", u), ("get_cart_direction", d), ("get_frac_direction", d)]:
        C.fresh(f"{nm}: result is new", pure(C, nm, C.get(st, nm), a), a, st)
    C.unchanged("structure", st, s)


@contract("C08", "displaced structures leave their arguments alone", targets=[SD.get_displaced_positions, SD.get_ast_displaced_positions])
def _(C):
    st, n, L, p, z = structure(C); k = C.dim("K", 1); amps = C.arr("amps", (k,)); s = C.snapshot(st)
    if C.flag("one atom"):
        d = C.arr("d", (3,)); f = SD.get_ast_displaced_positions; a = C.int("atom", 0, n - 1)
        C.assume(C.not_(C.and_(*[C.eq(C.at(d, c), 0) for c in range(3)])))
        if C.mode == "con" and np.linalg.norm(d) < 1e-6: raise Discard()
        args = (st, a, d, amps)
    else:
        u = C.arr("u", (n, 3)); f = SD.get_displaced_positions; args = (st, u, amps)
        C.assume(C.lt(0, C.sum(n, lambda i: sum(C.at(u, i, c) * C.at(u, i, c) for c in range(3)))))
        if C.mode == "con" and np.linalg.norm(u) < 1e-6: raise Discard()
    snaps = [C.snapshot(x) for x in args]
    r = C.call(f, *args)
    for i, x in enumerate(args): C.unchanged(f"argument {i} not modified", x, snaps[i])
    C.fresh("positions returned are new", r, *[x for x in args if x is not st], st)
    C.unchanged("structure", st, s)
    if C.mode == "con": same_value(C, "again", r, C.call(f, *args))


@contract("C08", "models hand out copies", targets=[InterpolationModel.ref_structure, InterpolationModel.ref_polarizability, InterpolationModel.cart_basis_vectors, InterpolationModel.mask])
def _(C):
    M = model(C, cls=C.choice("cls", [InterpolationModel, ARTModel]))
    accessors(C, M["model"], ["ref_polarizability", "cart_basis_vectors", "mask", "ref_structure"])


@contract("C08", "models: interpolations", targets=[InterpolationModel.interpolations], mode="bounded", note="splines are scipy objects")
def _(C):
    cls = C.choice("cls", [InterpolationModel, ARTModel])
    st, n, L, p, z = structure(C, C.int("n", 1, 3))
    m = cls(st, C.arr("ref", (3, 3)))
    F = fields(cls); J = C.int("J", 1, 3)
    setattr(m, F["cart_basis_vectors"], list(C.arr("V", (J, n, 3))))
    setattr(m, F["mask"], np.zeros(J, bool))
    sp = [make_interp_spline(np.array([0., .1]), C.arr(f"y{j}", (2, 3, 3)), k=1) for j in range(J)]
    setattr(m, F["interpolations"], sp)
    x = p[None] + C.arr("dx", (2, n, 3)) * .05
    a = m.calc_polarizabilities(x)
    got = m.interpolations
    for g in got: g.c[...] += 5; g.t[...] = 0
    got.clear()
    C.check_eq_arr("changing the returned interpolations changes nothing", m.calc_polarizabilities(x), a)


@contract("C08", "predictions leave everything alone", targets=[InterpolationModel.calc_polarizabilities])
def _(C):
    M = model(C); s = C.dim("S", 1); x = C.arr("x", (s, M["n"], 3)); k = C.snapshot(M["model"])
    r = pure(C, "calc_polarizabilities", C.get(M["model"], "calc_polarizabilities"), x)
    C.fresh("tensors are new", r, x, M["model"])
    C.unchanged("model", M["model"], k)


@contract("C08", "predictions without degrees of freedom", targets=[InterpolationModel.calc_polarizabilities])
def _(C):
    M = model(C, dofs=False); s = C.dim("S", 1); x = C.arr("x", (s, M["n"], 3)); k = C.snapshot(M["model"])
    r = pure(C, "calc_polarizabilities", C.get(M["model"], "calc_polarizabilities"), x)
    C.fresh("tensors are new", r, x, M["model"])
    C.unchanged("model", M["model"], k)


@contract("C08", "spectra from phonons and trajectories leave everything alone", targets=[Phonons.get_raman_spectrum, Trajectory.get_raman_spectrum])
def _(C):
    m, n, r, w, u = phonons(C)
    ph = C.new(Phonons, r, w, u); k = C.snapshot(ph)
    sp = C.meth(ph, "get_raman_spectrum", OpaqueModel(C, n))
    C.unchanged("phonons", ph, k)
    C.fresh("what the spectrum hands out is not the phonons'", C.list(2, lambda i: C.get(sp, "phonon_wavenumbers" if i == 0 else "raman_tensors")) if C.mode == "con" else C.get(sp, "phonon_wavenumbers"), ph)
    same_value(C, "again", C.get(sp, "raman_tensors"), C.get(C.meth(ph, "get_raman_spectrum", OpaqueModel(C, n)), "raman_tensors"))
    s = C.dim("S", 3)
    t = C.new(Trajectory, C.arr("p", (s, n, 3)), timestep(C)); kt = C.snapshot(t)
    sp = C.meth(t, "get_raman_spectrum", OpaqueModel(C, n))
    C.unchanged("trajectory", t, kt)


def dataset(C):
    s = C.dim("S", 1); n = C.dim("N", 1)
    L = C.arr("lat", (3, 3)); p = C.arr("p", (s, n, 3)); z = atomic_numbers(C, "Z", n)
    a = C.arr("pol", (s, 3, 3))
    return C.new(PolarizabilityDataset, L, z, p, a), (L, z, p, a), s, n


NAMES = ["atomic_numbers", "positions", "polarizabilities", "scaled_polarizabilities", "mean_polarizability", "stddev_polarizability"]


@contract("C08", "datasets hand out copies", targets=[getattr(PolarizabilityDataset, a) for a in NAMES])
def _(C):
    d, args, s, n = dataset(C)
    ks = [C.snapshot(x) for x in args]
    accessors(C, d, NAMES)
    for nm in NAMES[1:4]: C.fresh(f"{nm} is not the caller's array", C.get(d, nm), *args)
    for x, k in zip(args, ks): C.unchanged("constructor argument", x, k)


@contract("C08", "rescaling leaves its arguments alone", targets=[PolarizabilityDataset.scale_polarizabilities])
def _(C):
    d, args, s, n = dataset(C)
    mu = C.arr("mu", (3, 3)); sd = C.arr("sd", (3, 3)) if C.mode == "sym" else abs(C.arr("sd", (3, 3))) + .1
    k = [C.snapshot(x) for x in (mu, sd)]; before = C.get(d, "polarizabilities")
    C.meth(d, "scale_polarizabilities", mu, sd)
    C.unchanged("mean", mu, k[0]); C.unchanged("standard deviation", sd, k[1])
    same_value(C, "stored polarizabilities", C.get(d, "polarizabilities"), before)
    a = C.get(d, "scaled_polarizabilities")
    C.meth(d, "scale_polarizabilities", mu, sd)
    same_value(C, "again", C.get(d, "scaled_polarizabilities"), a)
    accessors(C, d, NAMES)
