"""C16: readers return complete data or refuse the file."""
import os, re
from vc.contract import contract, private
from contracts.common import *
from contracts import iofiles as F
from contracts.C14 import grouped
from ramannoodle.constants import ATOM_SYMBOLS, ATOMIC_WEIGHTS
from ramannoodle.exceptions import InvalidFileException, SymmetryException
from ramannoodle.dynamics import Trajectory, Phonons
import ramannoodle.io.generic as G
import ramannoodle.io.vasp.poscar as PO
import ramannoodle.io.vasp.xdatcar as XD
import ramannoodle.io.vasp.outcar as OU
import ramannoodle.io.vasp.vasprun as VR

for _k, _v in ATOM_SYMBOLS.items(): F.SYM.setdefault(_k, _v)
XT = lambda p: XD.read_trajectory(p, 1.5)
# format -> reader kind -> (specific reader, generic reader or None)
READERS = {
    "poscar": {"positions": (PO.read_positions, lambda p: G.read_positions(p, "poscar")), "structure": (PO.read_structure, None), "reference": (PO.read_ref_structure, lambda p: G.read_ref_structure(p, "poscar"))},
    "xdatcar": {"positions": (PO.read_positions, lambda p: G.read_positions(p, "xdatcar")), "series": (XD.read_positions_ts, None), "trajectory": (XT, None), "reference": (PO.read_ref_structure, lambda p: G.read_ref_structure(p, "xdatcar"))},
}
for _f, _m in (("outcar", OU), ("vasprun.xml", VR)):
    READERS[_f] = {k: (getattr(_m, n), (lambda n, f: lambda p: getattr(G, n)(p, f))(n, _f)) for k, n in
                   dict(positions="read_positions", reference="read_ref_structure", pair="read_positions_and_polarizability", full="read_structure_and_polarizability", phonons="read_phonons", trajectory="read_trajectory").items()}
TARGETS = [G.read_positions, G.read_ref_structure, G.read_positions_and_polarizability, G.read_structure_and_polarizability, G.read_phonons, G.read_trajectory]
DIGITS = {"poscar": 2e-16, "xdatcar": 2e-16, "outcar": 6e-7, "vasprun.xml": 2e-9}


class World:
    """What a file says."""


def world(C, fmt, max_n=6):
    w = World(); w.fmt = fmt; n = C.int("N", 1, max_n); w.n = n
    w.L = np.round(lattice(C), 9); w.z = grouped(C, n); w.x = np.round(positions(C, "x", (n, 3)), 9)
    if abs(np.linalg.det(w.L)) < .5: raise Discard()
    w.a = np.round(C.arr("a", (3, 3)), 6)
    w.md = w.ph = w.dt = None
    if C.flag("phonons") or C.inputs.get("want") == "phonons":
        w.wave = np.round(np.abs(C.arr("wave", (3 * n,))) * 300 + 1, 6); w.e = np.round(C.arr("modes", (3 * n, n, 3)), 6)
        if C.flag("imaginary"): w.wave *= np.where(C.np.random(3 * n) < .3, -1, 1)      # imaginary modes
    else: w.wave = None
    s = C.int("S", 1, 5); w.xs = np.round(C.arr("xs", (s, n, 3), lo=0, hi=1), 9); w.dt = round(C.real("dt", lo=.2, hi=5.), 4)
    w.dft = [True] * s
    return w


def text(C, w):
    if w.fmt == "poscar":
        w.mode = C.choice("mode", ["Direct", "direct", "d", "Cartesian", "cart", "C"]); w.scale = C.choice("scale", ["1.0", "1.00000000", "2.5", "1e0", ".5"])
        sel = C.flag("selective"); L = w.L * float(w.scale)
        t = F.poscar_text(w.L, w.z, w.x if w.mode[0] in "dD" else w.x @ L, scale=w.scale, mode=w.mode, selective=sel, label=C.choice("label", ["made here", "", "Ti O2", "1.0"]))
        w.lat = L
        if C.flag("velocities"): t += "\n" + "".join("  0.0 0.0 0.0\n" for _ in range(w.n))
        return t
    w.lat = w.L
    if w.fmt == "xdatcar": return F.xdatcar_text(w.L, w.z, w.xs)
    if w.fmt == "outcar":
        md = None
        if C.flag("md") or C.inputs.get("want") == "trajectory":
            md = []; ml = C.flag("ml"); after = False
            for q in w.xs:      # an ab initio step that directly follows a machine-learned one repeats it
                if after or ml and C.np.random() < .5:
                    md.append(("ml", q @ w.L)); after = True
                    if C.np.random() < .5: md.append(("dft", q @ w.L)); after = False
                else: md.append(("dft", q @ w.L))
        w.has_md = md is not None
        return F.outcar_text(w.L, w.z, w.x, w.a, None if w.wave is None else list(zip(w.wave, w.e)), md, w.dt, C.choice("variant", ["", "_pv", "_sv"]))
    w.has_md = C.flag("md") or C.inputs.get("want") == "trajectory"
    ph = None if w.wave is None else (-np.sign(w.wave) * (w.wave * 0.0299792458) ** 2, w.e.reshape(3 * w.n, 3 * w.n))
    return F.vasprun_text(w.L, w.z, w.x, w.a, ph, list(w.xs) if w.has_md else None, w.dt)


def put(C, data):
    p = os.path.join(C.scratch(), "file")
    with open(p, "wb") as f: f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
    return p


def close(a, b, tol): return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol * (1 + np.abs(b))))


def wrap_close(a, b, tol):
    if np.shape(a) != np.shape(b): return False
    d = np.asarray(a) - np.asarray(b); return bool(np.all(np.abs(d - np.rint(d)) <= tol))


def finite(*arrays): return all(np.isfinite(a).all() for a in arrays)


def consistent(kind, v):
    """The value is complete and its parts agree; returns what is wrong."""
    if kind == "positions": return None if isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[0] > 0 and v.shape[1] == 3 and finite(v) else "positions"
    if kind == "series": return None if isinstance(v, np.ndarray) and v.ndim == 3 and v.shape[0] > 0 and v.shape[1] > 0 and v.shape[2] == 3 and finite(v) else "series"
    if kind == "pair": return consistent("positions", v[0]) or (None if v[1].shape == (3, 3) and finite(v[1]) else "polarizability")
    if kind in ("structure", "full"):
        L, z, x = v[:3]
        if np.shape(L) != (3, 3) or not finite(L) or np.linalg.matrix_rank(L) < 3: return "lattice"
        if not isinstance(z, list) or any(k not in ATOM_SYMBOLS for k in z): return "atomic numbers"
        if np.shape(x) != (len(z), 3) or not len(z) or not finite(x): return "positions"
        return None if kind == "structure" or v[3].shape == (3, 3) and finite(v[3]) else "polarizability"
    if kind == "reference": return consistent("structure", (v.lattice, list(v.atomic_numbers), v.positions))
    if kind == "trajectory": return consistent("series", v.positions_ts) or (None if np.isfinite(v.timestep) and v.timestep > 0 else "timestep")
    x, wv, d = v.ref_positions, v.wavenumbers, v.displacements
    n = len(x)
    return consistent("positions", x) or (None if wv.shape == (3 * n,) and d.shape == (3 * n, n, 3) and finite(wv, d) else "phonons")


def plain(kind, v):
    if kind == "reference": return [v.lattice, list(v.atomic_numbers), v.positions]
    if kind == "trajectory": return [v.positions_ts, v.timestep]
    if kind == "phonons": return [v.ref_positions, v.wavenumbers, v.displacements]
    return list(v) if isinstance(v, tuple) else [v]


def equal(kind, a, b):
    a, b = plain(kind, a), plain(kind, b)
    return len(a) == len(b) and all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a, b))


def refused(o, kind): return o.is_(InvalidFileException) or kind == "reference" and o.is_(SymmetryException)


def right(C, w, kind, v):
    """The value is what the file says; returns what is wrong."""
    t = DIGITS[w.fmt] * 3; inv = np.linalg.inv(w.lat); x = w.xs[0] if w.fmt == "xdatcar" else w.x
    tx = t * (1 + np.abs(inv).sum() * np.abs(w.lat).sum()) if w.fmt == "poscar" and w.mode[0] in "cC" else t
    if kind == "positions": return None if close(v, x, tx) else "positions"
    if kind == "series": return None if close(v, w.xs, t) else "series"
    if kind in ("structure", "full", "reference"):
        L, z, p = (v.lattice, v.atomic_numbers, v.positions) if kind == "reference" else v[:3]
        if not close(L, w.lat, t): return "lattice"
        if list(z) != w.z: return "atomic numbers"
        if not close(p, x, tx): return "positions"
        return None if kind != "full" or close(v[3], w.a, t) else "polarizability"
    if kind == "pair": return None if close(v[0], x, t) and close(v[1], w.a, t) else "pair"
    if kind == "trajectory":
        if w.fmt == "outcar":
            if not wrap_close(v.positions_ts, w.xs, 6e-6 * (1 + np.abs(inv).sum())): return "positions"
        elif not wrap_close(v.positions_ts, w.xs, t): return "positions"
        return None if w.fmt == "xdatcar" or close(v.timestep, w.dt, 1e-4 if w.fmt == "outcar" else 1e-9) else "timestep"
    m = np.array([ATOMIC_WEIGHTS[ATOM_SYMBOLS[k]] for k in w.z])
    if not close(v.ref_positions, x, t): return "positions"
    if not close(v.wavenumbers, w.wave, 1e-5): return "wavenumbers"
    return None if close(v.displacements, (w.e @ inv) / np.sqrt(m)[:, None], 3e-6 * (1 + np.abs(inv).sum())) else "displacements"


def available(w, kind): return kind != "phonons" or w.wave is not None and w.fmt != "poscar"


def both(C, w, kind, p):
    """The outcome of the specific reader, checked against the generic one."""
    f, g = READERS[w.fmt][kind]; o = C.run(f, p)
    if g is not None:
        q = C.run(g, p)
        C.check(f"generic {kind} reader agrees ({o!r}, {q!r})", o.raised == q.raised and (type(o.exc) is type(q.exc) if o.raised else equal(kind, o.value, q.value)))
    return o


def judge(C, w, kind, p, what):
    o = both(C, w, kind, p)
    if o.raised: C.check(f"{w.fmt} {kind}, {what}: InvalidFileException (got {o!r})", refused(o, kind)); return o
    bad = consistent(kind, o.value)
    C.check(f"{w.fmt} {kind}, {what}: complete data ({bad})", bad is None)
    return o


def setup(C):
    fmt = C.choice("format", sorted(READERS)); kind = C.choice("reader", sorted(READERS[fmt])); C.inputs["want"] = kind
    w = world(C, fmt); t = text(C, w)
    return fmt, kind, w, t


@contract("C16", "well-formed files", targets=TARGETS, mode="bounded", cases=400)
def _(C):
    fmt, kind, w, t = setup(C); p = put(C, t); o = both(C, w, kind, p)
    if o.raised:
        C.check(f"{fmt} {kind}: read ({o!r})", kind == "reference" and o.is_(SymmetryException)); return
    bad = consistent(kind, o.value) or right(C, w, kind, o.value)
    C.check(f"{fmt} {kind}: what the file says ({bad})", bad is None)


JUNK = ["", "nan", "inf", "-inf", "1e400", "-1", "0", "1.5", "abc", "1,5", "**********", "1e-400", "99999999999999999999", "0x10", "1_0", "T", "None", "٣", "\x00", "+", "1d0", "--", "2 3", "999999", "Xx", "Ti", "f/i=", "cm-1", "POTCAR:    ", "X", "(ML)"]


def mutate(C, t):
    """Some damage to a text; returns (name, new text or bytes)."""
    r = C.rng; lines = t.split("\n"); how = r.choice(["cut", "cut line", "token", "token", "token", "token", "drop token", "drop line", "drop line", "repeat line", "blank line", "swap lines", "junk line", "drop block", "byte", "bytes", "append", "number", "empty", "spaces", "crlf"])
    i = r.randrange(len(lines)); full = [k for k, s in enumerate(lines) if s.split()]
    if not full: return "nothing", t
    if how == "cut": k = r.randrange(len(t)); return f"cut at {k}", t[:k]
    if how == "cut line": return f"cut before line {i}", "\n".join(lines[:i]) + ("\n" if r.random() < .5 else "")
    if how in ("token", "drop token", "number"):
        k = r.choice(full)
        if r.random() < .5 and len(full) > 8: k = r.choice(full[:9])
        pieces = re.split(r"([\s<>]+)", lines[k]); at = [q for q in range(len(pieces)) if pieces[q].strip() and pieces[q][0] not in "<>"]
        if not at: return "nothing", t
        q = r.choice(at); old = pieces[q]
        pieces[q] = "" if how == "drop token" else r.choice(JUNK) if how == "token" else old + r.choice(["9", ".", "e", "-", "e9", " 7"])
        lines[k] = "".join(pieces); return f"line {k}: {old!r} -> {pieces[q]!r}", "\n".join(lines)
    if how == "drop line": del lines[i]; return f"line {i} dropped", "\n".join(lines)
    if how == "repeat line": lines.insert(i, lines[i]); return f"line {i} repeated", "\n".join(lines)
    if how == "blank line": lines.insert(i, r.choice(["", " ", "\t"])); return f"blank line before {i}", "\n".join(lines)
    if how == "swap lines": j = r.randrange(len(lines)); lines[i], lines[j] = lines[j], lines[i]; return f"lines {i}, {j} swapped", "\n".join(lines)
    if how == "junk line": lines.insert(i, r.choice(JUNK) + " " + r.choice(JUNK)); return f"line {lines[i]!r} before {i}", "\n".join(lines)
    if how == "drop block": j = min(len(lines), i + r.randint(2, 9)); return f"lines {i}-{j} dropped", "\n".join(lines[:i] + lines[j:])
    if how == "byte":
        b = bytearray(t.encode()); k = r.randrange(len(b)); b[k] = r.randrange(256); return f"byte {k} -> {b[k]}", bytes(b)
    if how == "bytes":
        b = bytearray(t.encode()); k = r.randrange(len(b)); b[k:k + r.randint(0, 30)] = bytes(r.randrange(256) for _ in range(r.randint(0, 30))); return f"bytes at {k}", bytes(b)
    if how == "append": return "text appended", t + r.choice(["junk", "\n\njunk\n", "1 2 3\n", "  \n", "Direct configuration= 9\n 0.1 0.2\n", "<x>", "\x00"])
    if how == "empty": return "empty", r.choice(["", "\n", " ", "\n" * 40, "\x00" * 50])
    if how == "spaces": lines[i] = "  " + lines[i]; return f"line {i} indented", "\n".join(lines)
    return "crlf", t.replace("\n", "\r\n")


@contract("C16", "damaged files", targets=TARGETS, mode="bounded", cases=2500, timeout=60)
def _(C):
    fmt, kind, w, t = setup(C)
    what, new = mutate(C, t)
    if C.rng.random() < .2 and isinstance(new, str) and new: b, new = mutate(C, new); what += "; " + b
    C.inputs["damage"] = what
    judge(C, w, kind, put(C, new), what)


@contract("C16", "files cut at the end of a line", targets=TARGETS, mode="bounded", cases=500)
def _(C):
    """A file that lacks its last lines is refused, or what is read from it is what the whole file says (the first configurations for a trajectory)."""
    fmt, kind, w, t = setup(C); lines = t.split("\n"); k = C.rng.randrange(len(lines))
    if C.flag("near the end"): k = len(lines) - 1 - C.rng.randrange(min(len(lines), 12))
    C.inputs["lines kept"] = k
    o = judge(C, w, kind, put(C, "\n".join(lines[:k]) + "\n"), f"first {k} lines")
    if o.raised: return
    if kind in ("series", "trajectory") and fmt != "vasprun.xml":
        m = len(o.value); w.xs = w.xs[:m]
    bad = right(C, w, kind, o.value)
    C.check(f"{fmt} {kind} of the first {k} lines: what the file says ({bad})", bad is None)


@contract("C16", "a value that is not a finite number", targets=TARGETS, mode="bounded", cases=500)
def _(C):
    """Each number the reader needs is needed: a missing, malformed or infinite one is refused, or does not matter to this reader."""
    fmt, kind, w, t = setup(C); spots = [m for m in re.finditer(r"(?<![\w.+-])-?\d+\.\d+", t)]
    m = C.rng.choice(spots); new = C.rng.choice(["nan", "inf", "-inf", "**********", "1e999", "abc", ""])
    C.inputs["damage"] = f"{m.group()} at {m.start()} -> {new!r}"
    o = judge(C, w, kind, put(C, t[:m.start()] + new + t[m.end():]), C.inputs["damage"])
    if o.raised or new == "": return
    bad = right(C, w, kind, o.value)
    C.check(f"{fmt} {kind}, {C.inputs['damage']}: what the file says ({bad})", bad is None)


@contract("C16", "counts and labels that disagree", targets=TARGETS, mode="bounded", cases=500)
def _(C):
    """One vector, atom, mode or configuration row too few, wherever it is."""
    fmt, kind, w, t = setup(C); lines = t.split("\n"); pat = r"^\s*(<v>)?\s*(-?\d+\.\d+\s+){2,}" if fmt != "vasprun.xml" else r"^\s*(<v>|<rc>)"
    rows = [k for k, s in enumerate(lines) if re.match(pat, s)]; k = C.rng.choice(rows); del lines[k]
    C.inputs["dropped"] = k
    o = judge(C, w, kind, put(C, "\n".join(lines)), f"row {k} dropped")
    if o.raised: return
    n = {"positions": lambda v: len(v), "series": lambda v: v.shape[1], "pair": lambda v: len(v[0]), "structure": lambda v: len(v[1]), "full": lambda v: len(v[1]), "reference": lambda v: len(v.positions), "trajectory": lambda v: v.positions_ts.shape[1], "phonons": lambda v: len(v.ref_positions)}[kind](o.value)
    C.check(f"{fmt} {kind}, row {k} dropped: every atom", n == w.n)
    if fmt in ("outcar", "vasprun.xml"):
        bad = right(C, w, kind, o.value)
        C.check(f"{fmt} {kind}, row {k} dropped: what the file says ({bad})", bad is None)


@contract("C16", "unsupported formats and missing files", targets=TARGETS + [G.read_polarizability_dataset], mode="bounded", cases=120)
def _(C):
    fmts = dict(read_positions=["poscar", "xdatcar", "outcar", "vasprun.xml"], read_ref_structure=["poscar", "xdatcar", "outcar", "vasprun.xml"], read_positions_and_polarizability=["outcar", "vasprun.xml"],
                read_structure_and_polarizability=["outcar", "vasprun.xml"], read_phonons=["outcar", "vasprun.xml"], read_trajectory=["outcar", "vasprun.xml"], read_polarizability_dataset=["outcar", "vasprun.xml"])
    nm = C.choice("reader", sorted(fmts)); f = getattr(G, nm)
    fmt = C.choice("format", ["poscar", "xdatcar", "outcar", "vasprun.xml", "", "OUTCAR", "vasprun", "cif", "contcar", "outcar "])
    p = os.path.join(C.scratch(), "nothing here")
    there = C.flag("exists")
    if there: open(p, "w").write("nothing useful\n" * 5)
    o = C.run(f, p, fmt)
    if fmt not in fmts[nm]: C.check(f"{nm} {fmt!r}: ValueError (got {o!r})", o.raised and type(o.exc) is ValueError)
    elif there: C.check(f"{nm} {fmt!r}: InvalidFileException (got {o!r})", o.is_(InvalidFileException))
    else: C.check(f"{nm} {fmt!r}: FileNotFoundError (got {o!r})", o.is_(FileNotFoundError))


# ---------------------------------------------------------------------------- for all file contents
from contracts import ghost


from contracts.readers import whole, PARTS
from contracts import readers


def numbers(C, z):
    C.check("at least one atom", C.le(1, C.len(z)))
    C.forall("known atomic numbers", (C.len(z),), lambda k: C.and_(C.le(1, C.item(z, k)), C.le(C.item(z, k), 118)))


def complete(C, kind, v, made):
    """The symbolic reading of `consistent`."""
    if kind == "positions": return whole(C, "positions", v, (None, 3))
    if kind == "series": return whole(C, "series", v, (None, None, 3))
    if kind == "pair": whole(C, "polarizability", v[1], (3, 3)); return complete(C, "positions", v[0], made)
    if kind == "reference":
        C.check("a new structure", len(made) > 0 and made[-1][0] is v)
        if not made: return
        v = (made[-1][2], made[-1][1], made[-1][3]); kind = "structure"
    if kind in ("structure", "full"):
        if whole(C, "lattice", v[0], (3, 3)): C.check("lattice vectors span space", C.not_(C.eq(det3(C, v[0]), 0)))
        numbers(C, v[1]); whole(C, "positions", v[2], (C.len(v[1]), 3))
        if kind == "full": whole(C, "polarizability", v[3], (3, 3))
        return
    if kind == "trajectory":
        whole(C, "series", C.get(v, "positions_ts"), (None, None, 3)); t = C.get(v, "timestep")
        from vc import npmodel as N
        C.check("timestep: finite and positive", C.and_(C.lt(0, t), N.finite(ghost.topoly(t)))); return
    n = C.shape(C.get(v, "ref_positions"))[0]
    whole(C, "positions", C.get(v, "ref_positions"), (None, 3)); whole(C, "wavenumbers", C.get(v, "wavenumbers"), (3 * n,)); whole(C, "displacements", C.get(v, "displacements"), (3 * n, n, 3))


def any_content(C, kind, read, *more):
    if C.mode == "con": return
    make, line = ghost.opaque_file(C); exists = C.flag("exists"); fs = ghost.Readable(C, "/nowhere/file", make, exists); made = []
    if kind == "reference":
        def build(self, *a):
            """ReferenceStructure(): accepts the structure or raises ValueError or SymmetryException"""
            bad = C.choice("the structure constructor", ["accepts", "ValueError", "SymmetryException"])
            if bad == "ValueError": raise ValueError("not a structure")
            if bad == "SymmetryException": raise SymmetryException("no symmetry")
            made.append((self,) + a)
        C.replace(ReferenceStructure.__init__, build)
    readers.use(C)
    o = C.run(read, "/nowhere/file", *more)
    if not exists: C.check(f"a missing file: FileNotFoundError (got {o!r})", o.is_(FileNotFoundError)); return
    if o.raised: C.check(f"InvalidFileException (got {o!r})", o.is_(InvalidFileException) or kind == "reference" and o.is_(SymmetryException))
    else: complete(C, kind, o.value, made)
    for f in fs.opened: C.check("the file is closed", f.closed)


for _o, _n, _a, _w in PARTS:
    @contract("C16", f"{_o.__name__.split('.')[-1]}.{_n}: any file content", targets=[private(_o, _n)], cases=1, timeout=200)
    def _(C, f=private(_o, _n), args=_a, what=_w):
        if C.mode == "con": return
        make, line = ghost.opaque_file(C); r = make(); n = C.dim("N"); C.assume(C.le(1, n)); more = []
        r.pos = ghost.wrap(ghost.topoly(C.int("position", 0, 10 ** 9)), "int")
        for c in args: more.append(n if c == "n" else lattice(C))
        o = C.run(f, r, *more)
        if o.raised: C.check(f"InvalidFileException (got {o!r})", o.is_(InvalidFileException))
        else: readers.holds(C, what, o.value, n)


LINE_READERS = [(f, k, READERS[f][k][0], ()) for f in ("poscar", "xdatcar", "outcar") for k in READERS[f] if k != "trajectory" or f != "xdatcar"] + [("xdatcar", "trajectory", XD.read_trajectory, (1.5,))]
for _f, _k, _fn, _more in LINE_READERS:
    contract("C16", f"{_f} {_k}: any file content", targets=[_fn], cases=1, timeout=200)(lambda C, k=_k, fn=_fn, more=_more: any_content(C, k, fn, *more))
