"""C11: laser and Bose-Einstein corrections."""
from vc.contract import contract
from contracts.common import *
from ramannoodle.spectrum import PhononRamanSpectrum as PS, MDRamanSpectrum as MS
from ramannoodle.spectrum import _raman as R

HC_K = 1.438776877          # h c / k in cm K (CODATA); agreement to one part in 10^4 is required


def laser(w, wl):
    return ((w - wl) / 10000) ** 4 / w


def bose(C, w, T):
    return 1 / (1 - C.exp(-(HC_K * w) / T))


def wn(C, name, m):
    """Wavenumbers, of any sign but not zero (entries with w = 0 have no defined correction)."""
    if C.mode == "sym": return C.arr(name, (m,))
    return C.arr(name, (m,), style=lambda r, s: r.choice([-1., 1., 1., 1.], s) * r.uniform(1, 4000, s))


@contract("C11", "get_laser_correction", targets=[R.get_laser_correction])
def _(C):
    m = C.dim("M"); w = wn(C, "w", m); ws = C.snapshot(w)
    l = C.real("l")
    if C.mode == "con": l = l * 5000
    o = C.run(R.get_laser_correction, w, l)
    if C.decide(C.le(l, 0)):
        C.check("non-positive laser wavenumber refused", o.is_(ValueError)); return
    if o.raised: C.check(f"accepted ({o!r})", False); return
    if not C.check_shape("shape", o.value, (m,)): return
    C.forall("((w - l)/10^4)^4 / w", (m,), lambda k: C.eq(C.at(o.value, k), laser(C.at(w, k), l)))
    C.unchanged("argument", w, ws)


@contract("C11", "get_bose_einstein_correction", targets=[R.get_bose_einstein_correction])
def _(C):
    m = C.dim("M"); w = wn(C, "w", m); ws = C.snapshot(w)
    T = C.real("T")
    if C.mode == "con": T = T * 300
    o = C.run(R.get_bose_einstein_correction, w, T)
    if C.decide(C.le(T, 0)):
        C.check("non-positive temperature refused", o.is_(ValueError)); return
    if o.raised: C.check(f"accepted ({o!r})", False); return
    if C.mode == "con" and T < 5: raise Discard()
    if not C.check_shape("shape", o.value, (m,)): return
    C.forall("1/(1 - exp(-hcw/kT))", (m,), lambda k: C.eq(C.at(o.value, k), bose(C, C.at(w, k), T), 1e-3))
    C.unchanged("argument", w, ws)


def spectrum(C, md):
    if md:
        s = C.dim("S", 2)
        t = C.arr("t", (s, 3, 3)); dt = C.real("dt")
        if C.mode == "con": dt = abs(dt) + .05
        C.assume(C.lt(0, dt))
        return C.new(MS, t, dt)
    m = C.dim("M")
    return C.new(PS, wn(C, "w", m), C.arr("t", (m, 3, 3)))


def measured(md, laser_on, be_on):
    name = f"{'MD' if md else 'phonon'} spectrum, laser={laser_on}, BE={be_on}"

    @contract("C11", name, targets=[(MS if md else PS).measure])
    def _(C):
        s = spectrum(C, md)
        T, nm = C.real("T"), C.real("nm")
        if C.mode == "con": T, nm = T * 200, nm * 500
        if C.mode == "sym" or nm == 0: C.assume(C.not_(C.eq(nm, 0)))
        w0, i0 = C.meth(s, "measure", laser_correction=False, bose_einstein_correction=False)
        o = C.run(C.get(s, "measure"), laser_correction=laser_on, laser_wavelength=nm, bose_einstein_correction=be_on, temperature=T)
        bad = C.or_(C.and_(laser_on, C.lt(nm, 0)), C.and_(be_on, C.le(T, 0)))
        if C.decide(bad):
            C.check("non-positive laser wavenumber or temperature refused", o.is_(ValueError)); return
        if o.raised: C.check(f"accepted ({o!r})", False); return
        if C.mode == "con" and be_on and T < 5: raise Discard()
        w, i = o.value
        n = C.shape(w0)
        if not C.check_shape("wavenumbers shape", w, n) or not C.check_shape("shape", i, n): return
        C.forall("wavenumbers unchanged", n, lambda k: C.eq(C.at(w, k), C.at(w0, k)))

        def want(k):
            v = C.at(i0, k)
            if laser_on: v = v * laser(C.at(w0, k), 10000000 / nm)
            if be_on: v = v * bose(C, C.at(w0, k), T)
            return v
        C.forall("intensity times the factors of the same entry", n, lambda k: C.eq(C.at(i, k), want(k), 1e-3 if be_on else None))


for _md in (False, True):
    for _l, _b in ((True, False), (False, True), (True, True), (False, False)):
        measured(_md, _l, _b)
