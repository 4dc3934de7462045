"""C15: writers never clobber files and rejected writes leave no trace."""
import os
from vc.contract import contract, private
from contracts.common import *
from contracts.C14 import grouped, in_cell, basis, NUMBERS
import ramannoodle.io.generic as G
import ramannoodle.io.vasp.poscar as PO
import ramannoodle.io.vasp.xdatcar as XD
import ramannoodle.structure as S

OLD = b"what was there\n\x00\xff not even text\n" * 50


def contents(d):
    """Everything below a directory: links, files and their bytes."""
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds: out[os.path.relpath(os.path.join(r, x), d)] = "dir"
        for x in fs:
            p = os.path.join(r, x)
            out[os.path.relpath(p, d)] = ("link", os.readlink(p)) if os.path.islink(p) else (open(p, "rb").read(), os.stat(p).st_mtime_ns)
    return out


def place(C, kinds):
    """A path in a directory of its own, with something or nothing at it."""
    d = C.scratch(); p = os.path.join(d, "target"); k = C.choice("at the path", kinds)
    open(os.path.join(d, "bystander"), "wb").write(OLD)
    if k == "file": open(p, "wb").write(OLD)
    elif k == "empty": open(p, "wb").close()
    elif k == "link": open(os.path.join(d, "other"), "wb").write(OLD); os.symlink("other", p)
    elif k == "dangling": os.symlink("nowhere", p)
    elif k == "dir": os.mkdir(p)
    return d, p


def writers(C, L, z, x, traj):
    """Every writer of one structure (or trajectory) as fn(path, overwrite)."""
    if traj:
        return [("xdatcar.write_trajectory", lambda p, **k: XD.write_trajectory(L, z, x, p, **k)), ("generic.write_trajectory", lambda p, **k: G.write_trajectory(L, z, x, p, "xdatcar", **k)),
                ("labelled", lambda p, **k: XD.write_trajectory(L, z, x, p, label="other", **k))]
    return [("poscar.write_structure", lambda p, **k: PO.write_structure(L, z, x, p, **k)), ("generic poscar", lambda p, **k: G.write_structure(L, z, x, p, "poscar", **k)),
            ("generic xdatcar", lambda p, **k: G.write_structure(L, z, x, p, "xdatcar", **k)), ("labelled", lambda p, **k: PO.write_structure(L, z, x, p, label="other", **k))]


def good(C):
    n = C.dim("N", 1); traj = C.flag("trajectory"); L = basis(C); z = grouped(C, n)
    x = in_cell(C, "x", (C.dim("S", 1), n, 3)) if traj else in_cell(C, "x", (n, 3))
    return n, traj, L, z, x


@contract("C15", "existing files are refused", targets=[PO.write_structure, XD.write_trajectory, G.write_structure, G.write_trajectory], mode="bounded", cases=120)
def _(C):
    n, traj, L, z, x = good(C); d, p = place(C, ["file", "empty", "link", "dangling", "dir"]); before = contents(d)
    nm, w = C.choice("writer", writers(C, L, z, x, traj)[:3 if traj else 4])
    o = C.run(w, p, **C.choice("overwrite", [{}, dict(overwrite=False)]))
    C.check(f"{nm} raises FileExistsError (got {o!r})", o.is_(FileExistsError)); C.check(f"{nm} leaves everything as it was", contents(d) == before)


@contract("C15", "overwriting replaces the content entirely", targets=[PO.write_structure, XD.write_trajectory, G.write_structure, G.write_trajectory], mode="bounded", cases=120)
def _(C):
    n, traj, L, z, x = good(C); d, p = place(C, ["file", "empty", "nothing", "big", "older"])
    nm, w = C.choice("writer", writers(C, L, z, x, traj)[:3 if traj else 4])
    if C.inputs["at the path"] == 3: open(p, "wb").write(OLD * 2000)
    if C.inputs["at the path"] == 4: C.call(XD.write_trajectory, L, z, in_cell(C, "y", (7, n, 3)), p)
    q = os.path.join(C.scratch(), "fresh"); C.call(w, q); before = contents(d); C.call(w, p, overwrite=True); after = contents(d)
    C.check(f"{nm}: the same content as a new file", after["target"][0] == after["fresh"][0] and len(after["target"][0]) > 0)
    C.check(f"{nm}: nothing else changes", {k: v for k, v in after.items() if k != "target"} == {k: v for k, v in before.items() if k != "target"})


def spoil(C, n, traj, L, z, x):
    """One invalid argument."""
    how = C.choice("invalid", ["lattice shape", "lattice rows", "not arrays", "columns", "one atom more", "dimensions", "below", "above", "far", "unknown", "unknown later", "ungrouped", "numbers too short", "numbers too long", "not a list", "wrong array"])
    L, z, x = L.copy(), list(z), x.copy(); r = C.np
    J = tuple(r.integers(0, k) for k in x.shape)
    if C.flag("last entry"): J = tuple(k - 1 for k in x.shape)
    if how == "lattice shape": L = C.choice("shape", [L[:2], L[:, :2], L.ravel(), np.eye(4), L[None]])
    elif how == "lattice rows": L = list(L)
    elif how == "not arrays": x = x.tolist()
    elif how == "columns": x = np.concatenate([x, x[..., :1]], -1) if C.flag("four") else x[..., :2]
    elif how == "one atom more": x = np.concatenate([x, x[..., :1, :]], -2)
    elif how == "dimensions": x = x[None] if C.flag("more") else x[0]
    elif how == "below": x[J] = C.choice("value", [-1e-3, -1e-12, -.5, -5e-324, -1.])
    elif how == "above": x[J] = C.choice("value", [1 + 1e-3, 1 + 2 ** -52, 1.5, 2.])
    elif how == "far": x[J] = C.choice("value", [1e9, -1e9, np.inf, -np.inf])
    elif how == "unknown": z[0] = C.choice("number", [0, -1, 119, 1000]); x = x
    elif how == "unknown later": z[-1] = C.choice("number", [0, -1, 119, 1000])
    elif how == "ungrouped":
        if n < 3: raise Discard()
        i = C.int("middle", 1, n - 2); z = [8] * n; z[i] = 22
    elif how == "numbers too short": z = z[:-1]
    elif how == "numbers too long": z = z + z[-1:]
    elif how == "not a list": z = C.choice("numbers", [tuple(z), np.array(z), 8, None, "O"])
    elif how == "wrong array": L, x = x, L
    if how == "wrong array" and (not traj and x.shape == (3, 3) or n == 3 and not traj): raise Discard()
    return how, L, z, x


@contract("C15", "invalid arguments leave no trace", targets=[PO.write_structure, XD.write_trajectory, G.write_structure, G.write_trajectory], mode="bounded", cases=500)
def _(C):
    n, traj, L, z, x = good(C); d, p = place(C, ["file", "nothing", "empty", "link"]); before = contents(d)
    how, L, z, x = spoil(C, n, traj, L, z, x)
    nm, w = C.choice("writer", writers(C, L, z, x, traj)[:3 if traj else 4])
    o = C.run(w, p, **C.choice("overwrite", [dict(overwrite=True), dict(overwrite=True), {}]))
    C.check(f"{nm} refuses ({how}: {o!r})", o.raised and o.is_((ValueError, TypeError, FileExistsError))); C.check(f"{nm} ({how}) leaves everything as it was", contents(d) == before)


@contract("C15", "unsupported formats leave no trace", targets=[G.write_structure, G.write_trajectory], mode="bounded", cases=40)
def _(C):
    n, traj, L, z, x = good(C); d, p = place(C, ["file", "nothing", "empty", "link"]); before = contents(d)
    fmt = C.choice("format", ["", "outcar", "vasprun.xml", "POSCAR", "XDATCAR", "cif", "poscar ", "contcar", "xyz"] + (["poscar"] if traj else []))
    o = C.run(G.write_trajectory if traj else G.write_structure, L, z, x, p, fmt, overwrite=C.flag("overwrite"))
    C.check(f"ValueError (got {o!r})", o.is_(ValueError)); C.check("everything as it was", contents(d) == before)


@contract("C15", "displaced structures", targets=[S.write_displaced_structures, S.write_ast_displaced_structures], mode="bounded", cases=60)
def _(C):
    st, n, L, p, z = structure(C, n=C.int("N", 1, 5)); z = sorted(z)
    try: st = ReferenceStructure(z, L, p)
    except SymmetryException: raise Discard()
    m = C.int("M", 1, 4); a = C.arr("a", (m,)); d = C.scratch(); names = [os.path.join(d, f"f{k}") for k in range(m)]
    ast = C.flag("one atom"); u = C.arr("u", (3,) if ast else (n, 3))
    if np.linalg.norm(u) < 1e-6: raise Discard()
    fn = (lambda *r, **k: S.write_ast_displaced_structures(st, 0, u, *r, **k)) if ast else (lambda *r, **k: S.write_displaced_structures(st, u, *r, **k))
    for k in range(m):
        if C.flag("existing"): open(names[k], "wb").write(OLD)
    before = contents(d); how = C.choice("case", ["exists", "too few", "too many", "format", "displacement", "amplitudes", "fine"])
    over = dict(overwrite=True) if C.flag("overwrite") else {}
    if how == "exists":
        if not before: raise Discard()
        o = C.run(fn, a, names, "poscar"); after = contents(d)
        C.check(f"FileExistsError (got {o!r})", o.is_(FileExistsError)); C.check("existing files stay", all(after[k] == v for k, v in before.items()))
        first = min(int(k[1:]) for k in before); C.check("nothing behind the existing file is written", all(int(k[1:]) < first or k in before for k in after)); return
    if how == "fine":
        o = C.run(fn, a, names, "poscar", overwrite=True); after = contents(d)
        if o.raised: C.check(f"accepted ({o!r})", False); return
        C.check("one file per amplitude", sorted(after) == [f"f{k}" for k in range(m)])
        for k in range(m): C.check("content replaced", after[f"f{k}"][0].decode().count("\n") == 8 + n); 
        return
    if how == "too few": o = C.run(fn, a, names[:-1], "poscar", **over) if m > 1 else C.run(fn, a, [], "poscar", **over)
    elif how == "too many": o = C.run(fn, a, names + [os.path.join(d, "more")], "poscar", **over)
    elif how == "format": o = C.run(fn, a, names, "cif", **over)
    elif how == "displacement": u = np.concatenate([u, u]); o = C.run(fn, a, names, "poscar", **over)
    else: a = C.choice("amplitudes", [a[None], a.tolist(), [0.1]]); o = C.run(fn, a, names, "poscar", **over)
    C.check(f"refused ({how}: {o!r})", o.raised and o.is_((ValueError, TypeError))); C.check(f"everything as it was ({how})", contents(d) == before)


@contract("C15", "displaced structures that cannot be written", targets=[S.write_displaced_structures, S.write_ast_displaced_structures], mode="bounded", cases=30)
def _(C):
    st, n, L, p, z = structure(C, n=C.int("N", 3, 5)); z = [8] * n; z[C.int("middle", 1, n - 2)] = 22
    try: st = ReferenceStructure(z, L, p)
    except SymmetryException: raise Discard()
    m = C.int("M", 1, 4); a = C.arr("a", (m,)); d = C.scratch(); names = [os.path.join(d, f"f{k}") for k in range(m)]
    for k in range(m):
        if C.flag("existing"): open(names[k], "wb").write(OLD)
    before = contents(d); u = np.ones((n, 3)) if C.flag("all") else np.ones(3)
    o = C.run(S.write_displaced_structures, st, u, a, names, "poscar", overwrite=True) if u.ndim == 2 else C.run(S.write_ast_displaced_structures, st, 1, u, a, names, "poscar", overwrite=True)
    C.check(f"ValueError (got {o!r})", o.is_(ValueError)); C.check("everything as it was", contents(d) == before)


# ---------------------------------------------------------------------------- for all arguments: nothing is opened before everything is accepted
from contracts import ghost


def valid_number(C, k): return C.and_(C.le(1, k), C.le(k, 118))


def grouping(C):
    """The callee that renders the atoms: refuses ungrouped numbers, otherwise yields two lines."""
    from vc.textmodel import Word
    from vc.values import Rope
    ok = C.flag("grouped")

    def spec(numbers):
        """_get_symbols_str: ValueError for ungrouped atomic numbers, otherwise two lines of text (checked by its own contract)"""
        if not ok: raise ValueError("atomic number not grouped")
        return Rope.make([Word("symbols"), "\n", Word("counts"), "\n"])
    C.replace(private(PO, "_get_symbols_str"), spec)
    if hasattr(XD, "_get_symbols_str"): C.replace(XD._get_symbols_str, spec)
    return ok


def arguments(C, traj):
    n = C.dim("N", 1); m = C.dim("M"); w = C.dim("W"); a = C.dim("A"); b = C.dim("B"); s = C.dim("S")
    L = C.arr("L", (a, b)); x = C.arr("x", (s, m, w) if traj else (m, w)); zz = C.arr("z", (n,), integer=True)
    z = C.list(n, lambda k: C.at(zz, k))
    good = C.and_(C.eq(a, 3), C.eq(b, 3), C.eq(w, 3), C.eq(m, n), C.all(n, lambda k: valid_number(C, C.at(zz, k))),
                  C.all(s, lambda q: C.all(m, lambda i: C.all(w, lambda c: C.and_(C.le(0, C.at(x, q, i, c)), C.le(C.at(x, q, i, c), 1))))) if traj else
                  C.all(m, lambda i: C.all(w, lambda c: C.and_(C.le(0, C.at(x, i, c)), C.le(C.at(x, i, c), 1)))))
    return L, z, x, good


def writer_contract(C, traj, write, fmt):
    if C.mode == "con": return
    L, z, x, good = arguments(C, traj); grouped_ = grouping(C); over = C.flag("overwrite"); exists = C.flag("exists")
    snaps = [C.snapshot(v) for v in (L, x)]
    fs = ghost.GhostFS(C, "/nowhere/target", exists)
    o = C.run(write, L, z, x, "/nowhere/target", *fmt, over)
    ev = fs.seen()
    C.check("refused: no file is opened, created or removed", not o.raised or not ev)
    C.check("an existing file is not touched without overwriting", not (exists and not over) or not ev)
    C.check("an existing file is refused without overwriting", not (exists and not over) or o.raised)
    C.check("only the documented exceptions", not o.raised or o.is_((ValueError, TypeError, FileExistsError)))
    if o.raised:
        if o.is_(FileExistsError): C.check("FileExistsError only for an existing file without overwriting", exists and not over)
        else: C.check("only invalid arguments are refused", C.not_(good) if grouped_ else True)
    else:
        C.check("invalid arguments are refused", C.and_(good, grouped_))
        C.check("exactly one file is opened", len(ev) == 1)
        if len(ev) == 1: C.check("it is truncated or new, and closed", ev[0][0] == "open" and ev[0][1].replace("t", "") in ("w", "x") and ev[0][2].closed)
    for nm, v, s in zip(("lattice", "positions"), (L, x), snaps): C.unchanged(f"argument {nm}", v, s)


WRITERS = [("poscar.write_structure", False, PO.write_structure, ()), ("xdatcar.write_trajectory", True, XD.write_trajectory, ()), ("generic.write_structure poscar", False, G.write_structure, ("poscar",)),
           ("generic.write_structure xdatcar", False, G.write_structure, ("xdatcar",)), ("generic.write_trajectory xdatcar", True, G.write_trajectory, ("xdatcar",))]
for _nm, _traj, _f, _fmt in WRITERS:
    contract("C15", f"{_nm}: nothing is opened before everything is accepted", targets=[_f], cases=1, timeout=150)(lambda C, traj=_traj, f=_f, fmt=_fmt: writer_contract(C, traj, f, fmt))
