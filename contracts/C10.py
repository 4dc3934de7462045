"""C10: polycrystalline intensities."""
from vc.contract import contract
from contracts.common import *
from ramannoodle.spectrum import PhononRamanSpectrum as S


def spectrum(C, m=None, t=None):
    m = C.dim("M") if m is None else m
    w = C.arr("w", (m,))
    if t is None:
        a = C.arr("t", (m, 3, 3))
        if C.mode == "con" and C.flag("scales"): a = a * 10. ** C.arr("scale", (m, 1, 1), lo=-9, hi=9)
        t = (a + C.call(np.swapaxes, a, 1, 2)) / 2
    return C.new(S, w, t), m, w, t


def inten(C, t, k):
    """45 a^2 + 7 g^2 of the symmetric tensor t[k]."""
    e = lambda i, j: C.at(t, k, i, j)
    return intensity(e)


def same(C, r, t, k):
    """r[k] is the intensity of t[k], relative to the size of t[k] at run time."""
    if C.mode == "con":
        u = abs(np.asarray(t)[int(k)]).max() ** 2
        if u: return C.eq(C.at(r, k) / u, inten(C, t, k) / u)
    return C.eq(C.at(r, k), inten(C, t, k))


def intensity(e):
    a = (e(0, 0) + e(1, 1) + e(2, 2)) / 3
    g2 = ((e(0, 0) - e(1, 1)) ** 2 + (e(1, 1) - e(2, 2)) ** 2 + (e(2, 2) - e(0, 0)) ** 2) / 2 + 3 * (e(0, 1) ** 2 + e(1, 2) ** 2 + e(0, 2) ** 2)
    return 45 * a ** 2 + 7 * g2


@contract("C10", "measure", targets=[S.measure])
def _(C):
    s, m, w, t = spectrum(C)
    wv, tv = C.snapshot(w), C.snapshot(t)
    r = C.meth(s, "measure")
    C.check("a pair", C.len(r) == 2)
    rw, ri = r
    if not C.check_shape("wavenumbers shape", rw, (m,)) or not C.check_shape("intensities shape", ri, (m,)): return
    C.forall("wavenumbers as given", (m,), lambda k: C.eq(C.at(rw, k), C.at(w, k)))
    C.forall("45 a^2 + 7 g^2", (m,), lambda k: same(C, ri, t, k))
    C.unchanged("wavenumbers not modified", w, wv); C.unchanged("tensors not modified", t, tv)


@contract("C10", "options that are off change nothing", targets=[S.measure])
def _(C):
    s, m, w, t = spectrum(C)
    T, wl = C.real("T"), C.real("wl")
    r = C.meth(s, "measure", orientation="polycrystalline", laser_correction=False, laser_wavelength=wl, bose_einstein_correction=False, temperature=T)
    C.forall("45 a^2 + 7 g^2", (m,), lambda k: same(C, r[1], t, k))
    C.forall("wavenumbers as given", (m,), lambda k: C.eq(C.at(r[0], k), C.at(w, k)))


@contract("C10", "other orientations refused", targets=[S.measure])
def _(C):
    s, m, w, t = spectrum(C)
    for o in ("x", "", "Polycrystalline", "single crystal", "polycrystalline ", "poly"):
        C.check(f"orientation {o!r}", C.run(C.get(s, "measure"), o).raised)


@contract("C10", "non-negative", targets=[S.measure])
def _(C):
    s, m, w, t = spectrum(C)
    ri = C.meth(s, "measure")[1]
    # the formula is a sum of squares with positive weights (lemma), so it is not negative
    def sos(k):
        e = lambda i, j: C.at(t, k, i, j)
        sq = [(5, e(0, 0) + e(1, 1) + e(2, 2)), (3.5, e(0, 0) - e(1, 1)), (3.5, e(1, 1) - e(2, 2)), (3.5, e(2, 2) - e(0, 0)),
              (21, e(0, 1)), (21, e(1, 2)), (21, e(0, 2))]
        v = 0
        for c, x in sq: v = v + c * x * x
        return C.and_(C.eq(C.at(ri, k), v), *[c >= 0 for c, x in sq])
    C.forall("sum of weighted squares", (m,), sos)


@contract("C10", "rotating the crystal changes nothing", targets=[S.measure])
def _(C):
    # every rotation is that of a quaternion q /= 0; improper operations differ by -1, which cancels in Q T Q^T
    q = [C.real(f"q{i}") for i in range(4)]
    n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
    C.assume(C.lt(1e-3, n2))
    a, b, c, d = q
    R = [[(a*a + b*b - c*c - d*d) / n2, 2 * (b*c - a*d) / n2, 2 * (b*d + a*c) / n2],
         [2 * (b*c + a*d) / n2, (a*a - b*b + c*c - d*d) / n2, 2 * (c*d - a*b) / n2],
         [2 * (b*d - a*c) / n2, 2 * (c*d + a*b) / n2, (a*a - b*b - c*c + d*d) / n2]]
    s, m, w, t = spectrum(C)
    Q = C.call(np.array, C.lst(*[C.lst(*row) for row in R]))
    t2 = Q @ t @ C.call(np.transpose, Q)
    s2 = C.new(S, w, t2)
    i1 = C.meth(s, "measure")[1]; i2 = C.meth(s2, "measure")[1]
    C.forall("same intensities", (m,), lambda k: C.eq(C.at(i1, k), C.at(i2, k)))


@contract("C10", "scales with the square of the tensor", targets=[S.measure])
def _(C):
    s, m, w, t = spectrum(C)
    c = C.real("c")
    s2 = C.new(S, w, t * c)
    i1 = C.meth(s, "measure")[1]; i2 = C.meth(s2, "measure")[1]
    C.forall("c^2 times the intensity", (m,), lambda k: C.eq(C.at(i2, k), c * c * C.at(i1, k)))
