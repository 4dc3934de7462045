"""C12: molecular-dynamics spectra."""
from vc.contract import contract, private
from contracts.common import *
from ramannoodle.spectrum import MDRamanSpectrum as MS
from ramannoodle.spectrum import utils as U
from ramannoodle.dynamics import Trajectory

PER_FS = 33356.40951981521        # 1/(1 fs * c) in inverse centimetres


def power(C, m, x, k):
    """Real Fourier coefficient k of the autocorrelation (lags 0..m-1) of the m samples x(q)."""
    def lag(l):
        return C.sum(m, lambda q: C.ite(C.le(l, q), x(q) * (x(q - l) if C.mode == "sym" or q >= l else 0.), 0)) * C.cospi(2 * k * l / m)
    return C.sum(m, lag)


def series(C, name="t", lo=3):
    s = C.dim("S", lo)
    return s, C.arr(name, (s, 3, 3))


def timestep(C, name="dt"):
    dt = C.real(name)
    if C.mode == "con": dt = abs(dt) + .05
    C.assume(C.lt(0, dt))
    return dt


def half(C, m): return -((-m) // 2)          # ceiling


@contract("C12", "signal spectrum", targets=[U.calc_signal_spectrum, private(U, "_calc_autocorrelation")])
def _(C):
    m = C.dim("M", 1); x = C.arr("x", (m,)); dt = timestep(C); s = C.snapshot(x)
    w, i = C.call(U.calc_signal_spectrum, x, dt)
    n = half(C, m)
    if not C.check_shape("wavenumbers", w, (n,)) or not C.check_shape("intensities", i, (n,)): return
    C.forall("Fourier frequencies in inverse centimetres", (n,), lambda k: C.eq(C.at(w, k), k * PER_FS / (m * dt)))
    C.forall("transform of the autocorrelation", (n,), lambda k: C.eq(C.at(i, k), power(C, m, lambda q: C.at(x, q), k)))
    C.unchanged("signal", x, s)


@contract("C12", "measure", targets=[MS.measure])
def _(C):
    s, t = series(C); dt = timestep(C); ts = C.snapshot(t)
    w, i = C.meth(C.new(MS, t, dt), "measure")
    m = s - 1; n = half(C, m) - 1
    if not C.check_shape("wavenumbers", w, (n,)) or not C.check_shape("intensities", i, (n,)): return
    C.forall("positive Fourier frequencies, zero removed", (n,), lambda k: C.eq(C.at(w, k), (k + 1) * PER_FS / (m * dt)))
    d = lambda a, b: (lambda q: C.at(t, q + 1, a, b) - C.at(t, q, a, b))
    pw = lambda f, k: power(C, m, f, k + 1)

    def want(k):
        tr = lambda q: d(0, 0)(q) + d(1, 1)(q) + d(2, 2)(q)
        alpha = pw(tr, k) / 9
        diff = lambda a, b: (lambda q: d(a, a)(q) - d(b, b)(q))
        gamma = (pw(diff(0, 1), k) + pw(diff(1, 2), k) + pw(diff(2, 0), k)) / 2 + 3 * (pw(d(0, 1), k) + pw(d(1, 2), k) + pw(d(0, 2), k))
        return 45 * alpha + 7 * gamma
    C.forall("45 a + 7 g", (n,), lambda k: C.eq(C.at(i, k), want(k), 1e-6))
    C.unchanged("series", t, ts)


def pair(C, t, dt, t2, dt2=None):
    a = C.meth(C.new(MS, t, dt), "measure"); b = C.meth(C.new(MS, t2, dt if dt2 is None else dt2), "measure")
    n = C.shape(a[0])
    ok = C.check_shape("wavenumbers", b[0], n) and C.check_shape("intensities", b[1], n) and C.check_shape("both", a[1], n)
    return a, b, n, ok


def same_w(C, a, b, n): C.forall("same wavenumbers", n, lambda k: C.eq(C.at(a[0], k), C.at(b[0], k)))


@contract("C12", "constant tensor added", targets=[MS.measure])
def _(C):
    s, t = series(C); dt = timestep(C); c = C.arr("c", (3, 3))
    a, b, n, ok = pair(C, t, dt, t + c)
    if not ok: return
    same_w(C, a, b, n)
    C.forall("same intensities", n, lambda k: C.eq(C.at(a[1], k), C.at(b[1], k), 1e-6))


@contract("C12", "series scaled (in particular reversed in sign)", targets=[MS.measure])
def _(C):
    s, t = series(C); dt = timestep(C); c = C.choice("c", [None, -1])
    c = C.real("c2") if c is None else -1.
    a, b, n, ok = pair(C, t, dt, t * c)
    if not ok: return
    same_w(C, a, b, n)
    C.forall("scales with the square", n, lambda k: C.eq(C.at(b[1], k), c * c * C.at(a[1], k), 1e-6))


@contract("C12", "symmetric tensors transposed", targets=[MS.measure])
def _(C):
    s, t = series(C); dt = timestep(C)
    tt = C.call(np.transpose, t, (0, 2, 1))
    sy = t + tt
    a, b, n, ok = pair(C, sy, dt, C.call(np.transpose, sy, (0, 2, 1)))
    if not ok: return
    same_w(C, a, b, n)
    C.forall("same intensities", n, lambda k: C.eq(C.at(a[1], k), C.at(b[1], k), 1e-6))


@contract("C12", "timestep doubled", targets=[MS.measure])
def _(C):
    s, t = series(C); dt = timestep(C)
    a, b, n, ok = pair(C, t, dt, t, 2 * dt)
    if not ok: return
    C.forall("wavenumbers halved", n, lambda k: C.eq(2 * C.at(b[0], k), C.at(a[0], k)))
    C.forall("same intensities", n, lambda k: C.eq(C.at(a[1], k), C.at(b[1], k)))


@contract("C12", "trajectory", targets=[Trajectory.get_raman_spectrum])
def _(C):
    s = C.dim("S", 1); n = C.dim("N", 1); p = C.arr("p", (s, n, 3)); dt = timestep(C)
    tr = C.new(Trajectory, p, dt)
    full = C.get(tr, "positions_ts")
    o = C.run(C.get(tr, "get_raman_spectrum"), OpaqueModel(C, n))
    if o.raised: C.check(f"accepted ({o!r})", False); return
    C.check("own timestep", C.eq(C.get(o.value, "timestep"), dt))
    want = C.model_tensors(full, "alpha", (n,)); got = C.get(o.value, "polarizability_ts")
    if not C.check_shape("series", got, (s, 3, 3)): return
    C.forall("configurations in time order", (s, 3, 3), lambda k, i, j: C.eq(C.at(got, k, i, j), C.at(want, k, i, j)))


@contract("C12", "incompatible model", targets=[Trajectory.get_raman_spectrum])
def _(C):
    s = C.dim("S", 1); n = C.dim("N", 1); d = C.int("d", 1, 3)
    tr = C.new(Trajectory, C.arr("p", (s, n, 3)), 1.0)
    C.check("reported as ValueError", C.run(C.get(tr, "get_raman_spectrum"), OpaqueModel(C, n + d)).is_(ValueError))
