"""Contracts of the functions that read one part of an open text file, used where the readers of
whole files call them and proved on their own bodies (C16)."""
from vc.contract import private
from vc.sym import E, SArr, Num, wrap, topoly
from vc.terms import P, app, mk_le, mk_not, mk_eq
from vc import terms as T, npmodel as N
from vc import textmodel as TM
from vc.values import PList
from vc.terms import Unsupported
from contracts import ghost
from contracts.common import det3
from ramannoodle.constants import ATOMIC_NUMBERS
from ramannoodle.exceptions import InvalidFileException
import ramannoodle.io.vasp.poscar as PO
import ramannoodle.io.vasp.outcar as OU

# owner, function, arguments after the file, what it returns
PARTS = [(PO, "_read_lattice", "", "lattice"), (PO, "_read_atomic_symbols", "", "symbols"), (PO, "_read_positions", "Ln", "rows"),
         (OU, "_read_lattice", "", "lattice"), (OU, "_read_atomic_symbols", "", "symbols"), (OU, "_read_positions", "n", "rows"), (OU, "_read_cart_positions", "n", "rows"),
         (OU, "_read_polarizability", "", "tensor"), (OU, "_read_eigenvector", "nL", "rows"), (OU, "_read_next_cart_positions_ts", "n", "rows"), (OU, "_read_timestep", "", "time")]


def fin(C, a, *J): return N.finite(a.at(*[topoly(j) for j in J]))


def whole(C, nm, a, shape):
    """An array of the given shape (None: at least one) whose entries are all finite numbers."""
    try: a = a if isinstance(a, SArr) else N.asarr(a)
    except TypeError: C.check(f"{nm}: an array", False); return None
    sh = C.shape(a)
    C.check(f"{nm}: {len(shape)} dimensions", len(sh) == len(shape))
    if len(sh) != len(shape): return None
    for k, (d, e) in enumerate(zip(sh, shape)): C.check(f"{nm}: axis {k}", C.le(1, d) if e is None else C.eq(d, e))
    C.forall(f"{nm}: finite", tuple(sh), lambda *J: fin(C, a, *J))
    return sh


def known(C, s):
    """Is the text an element symbol."""
    return C.decide(s.vc_key(ATOMIC_NUMBERS)[0]) if isinstance(s, TM.OText) else s in ATOMIC_NUMBERS


def given(owner, name, what, p, n):
    """An arbitrary result that satisfies the contract: a function of the position in the file."""
    tag = f"{owner.__name__}.{name}"
    if what in ("lattice", "tensor", "rows"):
        rows = P(3) if what != "rows" else topoly(n)
        a = SArr.new((N.dim(rows), 3), lambda J: app(tag, (p, J[0], J[1])), "f")
        if what == "lattice": E.assume_once(mk_not(mk_eq(N.det3(lambda i, j: app(tag, (p, P(i), P(j)))))))
        return a
    if what == "symbols":
        m = app(tag + ":len", (p,), True); E.assume_once(mk_le(1 - m))

        def at(j):
            t = TM.OText(app(tag, (p, P(j)), True)); E.assume_once(t.vc_key(ATOMIC_NUMBERS)[0]); E.assume_once(mk_not(t.empty()))
            return t
        return PList.build(m, at)
    if what == "time":
        t = app(tag, (p,)); E.assume_once(T.mk_lt(-t)); return Num(t, "float")


def holds(C, what, v, n):
    if what == "lattice":
        if whole(C, "lattice", v, (3, 3)): C.check("lattice vectors span space", C.not_(C.eq(det3(C, v), 0)))
    elif what == "tensor": whole(C, "tensor", v, (3, 3))
    elif what == "rows": whole(C, "rows", v, (n, 3))
    elif what == "symbols":
        C.check("at least one atom", C.le(1, C.len(v)))
        C.forall("known symbols", (C.len(v),), lambda k: C.t(C.item(v, k).vc_key(ATOMIC_NUMBERS)[0]))
    else: C.check("finite and positive", C.and_(C.lt(0, v), N.finite(topoly(v))))


def use(C, but=()):
    """The callers' view: each part is read by its contract."""
    for owner, name, args, what in PARTS:
        f = getattr(owner, name, None)
        if f is None or f in but: continue

        def spec(file, *a, owner=owner, name=name, what=what):
            if not isinstance(file, ghost.GhostReader): raise Unsupported("another file object")
            p = topoly(file.pos); n = None; tag = f"{owner.__name__}.{name}"
            for x in a:
                if isinstance(x, SArr): C.check(f"{name} is given a lattice", C.not_(C.eq(det3(C, x), 0)))
                elif isinstance(x, (int, Num)):
                    n = x; C.check(f"{name} is given a number of atoms", C.le(1, n))
            end = app(tag + ":end", (p,), True); E.assume_once(mk_le(p - end))
            ok = E.decide(T.bapp(tag + ":ok", (p,)))
            ghost.I.set_field(file, "pos", wrap(end, "int"))
            if not ok:
                e = InvalidFileException("<text>"); e._vc_text = TM.OText(app(tag + ":message", (p,), True)); raise e
            return given(owner, name, what, p, n)
        spec.__doc__ = f"{name}: complete {what}, or InvalidFileException"
        C.replace(f, spec, optional=True)
