"""C13: convolution."""
from vc.contract import contract
from contracts.common import *
from ramannoodle.spectrum.utils import convolve_spectrum as conv

PI = np.pi


def line(C, fn, x, c, w):
    if fn == "gaussian":
        s2pi = C.sqrt(2 * PI)
        return 1 / (w * s2pi) * C.exp(-((x - c) * (x - c)) / (2 * (w * w)))
    return (1 / PI) * (w / 2) / ((x - c) * (x - c) + (w / 2) * (w / 2))


def args(C, m):
    if C.mode == "sym": return C.arr("w", (m,)), C.arr("I", (m,)), C.real("width")
    w = C.arr("w", (m,), style=lambda r, s: r.uniform(0, 60, s)); i = C.arr("I", (m,))
    return w, i, C.real("width", style=lambda r, s: r.uniform(-1, 20, s))


def out(C, l):
    return C.arr("out", (l,)) if C.mode == "sym" else C.arr("out", (l,), style=lambda r, s: r.uniform(-30, 90, s))


for _fn in ("gaussian", "lorentzian"):
    def mk(fn):
        @contract("C13", f"{fn} on a supplied grid", targets=[conv])
        def _(C):
            m = C.dim("M"); l = C.dim("L")
            w, i, width = args(C, m); o = out(C, l)
            ws, is_, os_ = C.snapshot(w), C.snapshot(i), C.snapshot(o)
            r = C.run(conv, w, i, fn, width, o)
            if C.decide(C.le(width, 0)):
                C.check("non-positive width refused", r.is_(ValueError)); return
            if r.raised: C.check(f"accepted ({r!r})", False); return
            rw, ri = r.value
            if not C.check_shape("grid shape", rw, (l,)) or not C.check_shape("shape", ri, (l,)): return
            C.forall("supplied grid used as given", (l,), lambda k: C.eq(C.at(rw, k), C.at(o, k)))
            C.forall("sum of unit-area lines", (l,), lambda k: C.eq(C.at(ri, k), C.sum(m, lambda q: C.at(i, q) * line(C, fn, C.at(o, k), C.at(w, q), width))))
            C.unchanged("wavenumbers", w, ws); C.unchanged("intensities", i, is_); C.unchanged("grid", o, os_)

        @contract("C13", f"{fn} line shapes are not negative", targets=[conv])
        def _(C):
            w, i, width = args(C, 1); o = out(C, 1)
            C.assume(C.lt(0, width)); C.assume(C.le(0, C.at(i, 0)))
            C.check("one line", C.le(0, C.at(C.call(conv, w, i, fn, width, o)[1], 0)))

        @contract("C13", f"{fn}: default grid", targets=[conv])
        def _(C):
            m = C.dim("M", 1)
            w, i, width = args(C, m)
            C.assume(C.lt(0, width))
            rw, ri = C.call(conv, w, i, fn, width)
            l = C.shape(rw)[0]
            C.check_shape("shapes agree", ri, (l,))
            lo, hi = C.call(np.min, w), C.call(np.max, w)
            C.check("starts 100 below the lowest line", C.eq(C.at(rw, 0), lo - 100))
            C.check("ends 100 above the highest line", C.eq(C.at(rw, l - 1), hi + 100))
            C.check("at least one sample per wavenumber (rounded)", C.le(hi - lo + 200 - 1, l))
            C.forall("evenly spaced, in order", (l,), lambda k: C.eq(C.at(rw, k) * (l - 1), (lo - 100) * (l - 1) + (hi - lo + 200) * k))
            C.forall("sum of unit-area lines", (l,), lambda k: C.eq(C.at(ri, k), C.sum(m, lambda q: C.at(i, q) * line(C, fn, C.at(rw, k), C.at(w, q), width))))

        @contract("C13", f"{fn}: linear", targets=[conv])
        def _(C):
            m = C.dim("M"); l = C.dim("L")
            w, i, width = args(C, m); o = out(C, l); j = C.arr("J", (m,)); c = C.real("c")
            C.assume(C.lt(0, width))
            a = C.call(conv, w, i, fn, width, o)[1]; b = C.call(conv, w, j, fn, width, o)[1]
            s = C.call(conv, w, i + c * j, fn, width, o)[1]
            C.forall("linear in the intensities", (l,), lambda k: C.eq(C.at(s, k), C.at(a, k) + c * C.at(b, k)))
    mk(_fn)


@contract("C13", "rejections", targets=[conv])
def _(C):
    m = C.dim("M"); l = C.dim("L"); d = C.int("extra", 1, 4)
    w, i, width = args(C, m); o = out(C, l)
    C.assume(C.lt(0, width))
    j = C.arr("J", (m + d,))
    fn = C.choice("fn", ["gaussian", "lorentzian"])
    C.check("too many intensities", C.run(conv, w, j, fn, width, o).is_(ValueError))
    C.check("too few intensities", C.run(conv, j, w, fn, width, o).is_(ValueError))
    C.check("two-dimensional wavenumbers", C.run(conv, C.arr("w2", (m, 3)), i, fn, width, o).is_(ValueError))
    C.check("two-dimensional grid", C.run(conv, w, i, fn, width, C.arr("o2", (l, 3))).is_(ValueError))
    for bad in ("voigt", "", "Gaussian", "gauss"):
        r = C.run(conv, w, i, bad, width, o)
        if C.decide(C.lt(0, m)): C.check(f"unknown line shape {bad!r}", r.is_(ValueError))
