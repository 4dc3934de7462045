"""Containers and text of the interpreted program: lists with symbolic segments, dicts, ropes."""
from __future__ import annotations
import itertools
import numpy as np
from .terms import *
from . import terms as T
from .terms import _theatom
from .sym import *
from .sym import SArr, Store, E, Num, Bl, topoly, tob, dim, dval, deq, wrap, unbool

_stamp = itertools.count()


class Poison:
    """Value that must not be read (loop-carried, outside the invariant templates)."""
    def __init__(self, why): self.why = why


POISON_TYPES = (Poison,)


class Seg:
    """List segment: literal values (n is None) or n elements given by at(k)."""
    __slots__ = ("n", "vals", "at", "used")

    def __init__(self, n=None, vals=None, at=None):
        self.n, self.vals, self.at = n, vals, at

    def length(self): return P(len(self.vals)) if self.n is None else P(self.n)


def _hv(k): raise Unsupported("loop reads the list it is building")


class PList:
    """Python list whose length may be symbolic; mutations are recorded on the engine trail."""
    _is_slist_ = True
    _is_sym_ = True
    __array_ufunc__ = None

    def __init__(self, vals=()):
        self.segs = [Seg(vals=list(vals))]
        self.stamp = next(_stamp)

    @staticmethod
    def of_segs(segs):
        r = PList(); r.segs = list(segs); return r

    @staticmethod
    def build(n, at):
        """n elements at(k); literal when n is constant."""
        n = dim(n)
        if isinstance(n, int): return PList([at(P(i)) for i in range(n)])
        return PList.of_segs([Seg(n, at=at)])

    # state -----------------------------------------------------------------------------------
    def _set(self, segs):
        old = self.segs

        def undo(): self.segs = old
        E.record(undo, ("plist", self))
        self.segs = segs

    def is_concrete_len(self): return all(s.n is None for s in self.segs)

    def values(self):
        if not self.is_concrete_len(): raise Unsupported("native use of a list of symbolic length")
        return [v for s in self.segs for v in s.vals]

    def length(self):
        r = PZERO
        for s in self.segs: r = r + s.length()
        return dval(dim(r))

    def __len__(self):
        n = self.length()
        if isinstance(n, int): return n
        raise Unsupported("native len of symbolic list")

    def __iter__(self): return iter(self.values())
    def __bool__(self):
        return E.decide(mk_lt(-topoly(self.length())))

    def __repr__(self):
        return "[" + ", ".join(repr(v) for s in self.segs for v in (s.vals if s.n is None else [f"<{s.n} items>"])) + "]"

    def get(self, i):
        i = topoly(i); n = topoly(self.length())
        if not E.decide(mk_le(-i)):
            i = i + n
            if not E.decide(mk_le(-i)): raise IndexError("list index out of range")
        if not E.decide(mk_lt(i - n)): raise IndexError("list index out of range")
        off = PZERO
        for s in self.segs[:-1]:
            L = s.length()
            if E.decide(mk_lt(i - off - L)): return self._in(s, i - off)
            off = off + L
        return self._in(self.segs[-1], i - off)

    def _in(self, s, j):
        if s.n is not None: return s.at(j)
        c = j.const()
        if c is not None: return s.vals[int(c)]
        for t, v in enumerate(s.vals[:-1]):
            if E.decide(mk_eq(j - t)): return v
        return s.vals[-1]

    def slice(self, sl):
        if self.is_concrete_len() and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
            return PList(self.values()[sl])
        from .indexing import norm_slice
        st, step, ln = norm_slice(sl, topoly(self.length()))
        if st is PZERO and step == 1 and (P(ln) - topoly(self.length())) is PZERO: return PList.of_segs(self.segs)
        segs = list(self.segs)
        snap = PList.of_segs(segs)
        return PList.build(ln, lambda k: snap.get(Num(st + k.scale(step), "int")))

    def __getitem__(self, i):
        if isinstance(i, slice): return self.slice(i)
        if isinstance(i, (float, str, tuple)) or i is None: raise TypeError("list indices must be integers or slices")
        return self.get(i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if self.is_concrete_len():
                x = self.values(); x[i] = list(v); self._set([Seg(vals=x)]); return
            raise Unsupported("slice assignment to symbolic list")
        if self.is_concrete_len():
            n = len(self); c = topoly(i).const()
            if c is None:
                for t in range(n):
                    if E.decide(mk_eq(topoly(i) - t)): c = t; break
                else: raise IndexError("list assignment index out of range")
            c = int(c)
            if c < -n or c >= n: raise IndexError("list assignment index out of range")
            x = self.values(); x[c] = v
            self._set([Seg(vals=x)]); return
        raise Unsupported("item assignment to symbolic list")

    def append(self, v):
        s = self.segs[-1] if self.segs else None
        if s is not None and s.n is None: self._set(self.segs[:-1] + [Seg(vals=s.vals + [v])])
        else: self._set(self.segs + [Seg(vals=[v])])

    def extend(self, o):
        if isinstance(o, PList): self._set(norm_segs(self.segs + o.segs)); return
        if isinstance(o, SArr) and not isinstance(o.shape_[0], int):
            self._set(norm_segs(self.segs + [Seg(o.shape_[0], at=lambda k: o[Num(k, "int")])])); return
        for v in list(o): self.append(v)

    def insert(self, i, v):
        x = self.values(); x.insert(i, v); self._set([Seg(vals=x)])

    def pop(self, i=-1):
        s = self.segs[-1]
        if i == -1 and s.n is None and s.vals:
            v = s.vals[-1]; self._set(self.segs[:-1] + [Seg(vals=s.vals[:-1])]); return v
        if i == -1 and not self.is_concrete_len():
            if s.n is None: self._set(self.segs[:-1]); return self.pop()
            if E.decide(mk_le(P(s.n))):
                self._set(self.segs[:-1] or [Seg(vals=[])]); return self.pop()
            n = P(s.n) - 1; self._set(norm_segs(self.segs[:-1] + [Seg(n, at=s.at)])); return s.at(n)
        x = self.values(); v = x.pop(i); self._set([Seg(vals=x)]); return v

    def remove(self, v):
        x = self.values(); x.remove(v); self._set([Seg(vals=x)])

    def clear(self): self._set([Seg(vals=[])])
    def copy(self): return PList.of_segs(self.segs)

    def reverse(self):
        if self.is_concrete_len(): self._set([Seg(vals=self.values()[::-1])]); return
        segs = []
        for s in reversed(self.segs):
            if s.n is None: segs.append(Seg(vals=s.vals[::-1]))
            else: segs.append(Seg(s.n, at=lambda k, s=s: s.at(P(s.n) - 1 - k)))
        self._set(segs)

    def sort(self, key=None, reverse=False):
        from . import interp
        self._set([Seg(vals=list(interp.b_sorted(self, key=key, reverse=reverse).values()))])

    def index(self, v):
        for t, x in enumerate(self.values()):
            if interp_eq(x, v): return t
        raise ValueError("x not in list")

    def count(self, v): return sum(1 for x in self.values() if interp_eq(x, v))

    def __add__(self, o):
        if isinstance(o, PList): return PList.of_segs(norm_segs(self.segs + o.segs))
        if isinstance(o, list): return PList.of_segs(norm_segs(self.segs + [Seg(vals=list(o))]))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list): return PList.of_segs(norm_segs([Seg(vals=list(o))] + self.segs))
        return NotImplemented

    def __iadd__(self, o):
        self.extend(o); return self

    def __mul__(self, n):
        if isinstance(n, bool) or isinstance(n, (float, PList, str)): raise TypeError("can't multiply sequence by non-int")
        p = topoly(n); c = p.const()
        if c is not None:
            return PList.of_segs(norm_segs(self.segs * max(0, int(c))))
        if not E.decide(mk_le(-p)): return PList()
        vals = self.values()
        if len(vals) == 1: return PList.of_segs([Seg(p, at=lambda k: vals[0])])
        if not vals: return PList()
        m = len(vals)
        def at(k):
            r = k - pfloor(k.scale(Fraction(1, m))).scale(m)
            for t in range(m - 1):
                if E.decide(mk_eq(r - t)): return vals[t]
            return vals[-1]
        return PList.of_segs([Seg(p.scale(m), at=at)])
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (PList, list)): return False
        return list_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    __hash__ = None

    def __contains__(self, v):
        for x in self.values():
            if interp_eq(x, v): return True
        return False


def norm_segs(segs):
    out = []
    for s in segs:
        if s.n is None and not s.vals: continue
        if out and s.n is None and out[-1].n is None: out[-1] = Seg(vals=out[-1].vals + s.vals)
        else: out.append(s)
    return out or [Seg(vals=[])]


def interp_eq(a, b):
    if a is b: return True
    if isinstance(a, SArr) or isinstance(b, SArr):
        r = a == b
        return bool(r)
    r = a == b
    if r is NotImplemented: return False
    return bool(r)


def list_eq(a, b):
    """Element-wise equality of lists; a Bl or bool."""
    na = topoly(a.length()) if isinstance(a, PList) else P(len(a))
    nb = topoly(b.length()) if isinstance(b, PList) else P(len(b))
    if not E.decide(mk_eq(na - nb)): return False
    if na.const() is not None or nb.const() is not None:
        n = int(na.const() if na.const() is not None else nb.const())
        r = TRUE
        for i in range(n):
            r = mk_and(r, eq_term(a[i], b[i]))
        return unbool(r)
    return unbool(forall(na, lambda k: eq_term(a[Num(k, "int")], b[Num(k, "int")])))


def eq_term(x, y) -> B:
    """Value equality of two program values as a boolean term."""
    if x is y: return TRUE
    if isinstance(x, (tuple, PList, list)) and isinstance(y, (tuple, PList, list)):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y): return FALSE
            return mk_and(*[eq_term(p, q) for p, q in zip(x, y)])
        if isinstance(x, tuple) != isinstance(y, tuple): return FALSE
        r = list_eq(x if isinstance(x, PList) else PList(x), y if isinstance(y, PList) else PList(y))
        return tob(r)
    r = x == y
    if isinstance(r, SArr): raise ValueError("The truth value of an array with more than one element is ambiguous")
    if r is NotImplemented: return FALSE
    return tob(r)


class PDict(dict):
    """dict with recorded mutation (keys concrete)."""
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.stamp = next(_stamp)

    def _rec(self):
        old = dict(self)

        def undo():
            dict.clear(self); dict.update(self, old)
        E.record(undo, ("pdict", self))

    def __setitem__(self, k, v): self._rec(); dict.__setitem__(self, k, v)
    def __delitem__(self, k): self._rec(); dict.__delitem__(self, k)
    def update(self, *a, **k): self._rec(); dict.update(self, *a, **k)
    def pop(self, *a): self._rec(); return dict.pop(self, *a)
    def setdefault(self, k, d=None):
        if k not in self: self[k] = d
        return self[k]
    def clear(self): self._rec(); dict.clear(self)
    __hash__ = None


class PSet(set):
    def __init__(self, *a):
        super().__init__(*a); self.stamp = next(_stamp)

    def _rec(self):
        old = set(self)

        def undo():
            set.clear(self); set.update(self, old)
        E.record(undo, ("pset", self))

    def add(self, v): self._rec(); set.add(self, v)
    def discard(self, v): self._rec(); set.discard(self, v)
    def remove(self, v): self._rec(); set.remove(self, v)
    def update(self, *a): self._rec(); set.update(self, *a)
    __hash__ = None


# text --------------------------------------------------------------------------------------------
class Fmt:
    """Text of a symbolic value under a format specification."""
    __slots__ = ("v", "spec")

    def __init__(self, v, spec): self.v, self.spec = v, spec
    def __repr__(self): return f"{{{self.v}:{self.spec}}}"


class Rope:
    """String with symbolic parts: list of str and Fmt."""
    _is_sym_ = True
    _is_rope_ = True

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Rope):
                for q in p.parts: self._add(out, q)
            else: self._add(out, p)
        self.parts = out

    @staticmethod
    def _add(out, q):
        if isinstance(q, str):
            if not q: return
            if out and isinstance(out[-1], str): out[-1] += q; return
        out.append(q)

    @staticmethod
    def make(parts):
        r = Rope(parts)
        if all(isinstance(p, str) for p in r.parts): return "".join(r.parts)
        return r

    def __add__(self, o):
        if isinstance(o, (str, Rope)): return Rope.make([self, o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str): return Rope.make([o, self])
        return NotImplemented

    def __str__(self): return "".join(p if isinstance(p, str) else "⟨…⟩" for p in self.parts)
    __repr__ = __str__
    def __format__(self, spec): return str(self)
    def __hash__(self): return id(self)

    def __eq__(self, o):
        if self is o: return True
        if any(type(p).__name__ == "Hole" for x in (self, o) if isinstance(x, Rope) for p in x.parts): raise Unsupported("loop-carried text is read before it is assigned")
        if isinstance(o, Rope) and len(o.parts) == len(self.parts):
            b = TRUE
            for p, q in zip(self.parts, o.parts):
                if isinstance(p, str) or isinstance(q, str):
                    if not (isinstance(p, str) and isinstance(q, str) and p == q): raise Unsupported("comparison of symbolic text")
                elif p is q: pass
                elif type(p) is not type(q): raise Unsupported("comparison of symbolic text")
                elif not isinstance(p, Fmt):
                    from .textmodel import Word, Rep
                    if isinstance(p, Word) and p.name == q.name:
                        if p.id is not None: b = mk_and(b, mk_eq(p.id - q.id))
                        continue
                    if not isinstance(p, Rep): raise Unsupported("comparison of symbolic text")
                    if not E.decide(mk_eq(p.n - q.n)): raise Unsupported("comparison of symbolic text")
                    b = mk_and(b, forall(p.n, lambda k: eq_term(p.at(k), q.at(k))))
                else:
                    if p.spec != q.spec: raise Unsupported("comparison of symbolic text")
                    b = mk_and(b, eq_term(p.v, q.v))
            return unbool(b)
        raise Unsupported("comparison of symbolic text")

    def split(self, sep=None):
        """Whitespace split: formatted numbers are single non-empty tokens without blanks inside."""
        if sep is not None: raise Unsupported("split of symbolic text on separator")
        toks = []; cur = []
        for p in self.parts:
            if isinstance(p, Fmt):
                if not p.atomic(): raise Unsupported("split of symbolic text")
                if cur: raise Unsupported("adjacent symbolic text without blank") if any(isinstance(c, Fmt) for c in cur) or cur else None
                cur.append(p)
                continue
            if not isinstance(p, str): raise Unsupported("split of text with unknown blanks")
            i = 0
            while i < len(p):
                if p[i].isspace():
                    if cur: toks.append(Rope.make(cur)); cur = []
                    i += 1
                else:
                    j = i
                    while j < len(p) and not p[j].isspace(): j += 1
                    cur.append(p[i:j]); i = j
        if cur: toks.append(Rope.make(cur))
        whole = lambda t: t.parts[0].v if isinstance(t, Rope) and len(t.parts) == 1 and hasattr(t.parts[0].v, "vc_key") else t
        return PList([whole(t) for t in toks])

    def strip(self, chars=None):
        parts = list(self.parts)
        if parts and isinstance(parts[0], str): parts[0] = parts[0].lstrip(chars)
        if parts and isinstance(parts[-1], str): parts[-1] = parts[-1].rstrip(chars)
        return Rope.make(parts)

    def lower(self): raise Unsupported("lower of symbolic text")

    def slice(self, k):
        """Slices that only cut literal text at the ends."""
        a, b, c = k.start, k.stop, k.step
        parts = list(self.parts)
        if c is None and (a is None or isinstance(a, int) and a >= 0) and (b is None or isinstance(b, int) and b < 0):
            if a:
                if not (isinstance(parts[0], str) and len(parts[0]) >= a): raise Unsupported("slice of symbolic text")
                parts[0] = parts[0][a:]
            if b:
                if not (isinstance(parts[-1], str) and len(parts[-1]) >= -b): raise Unsupported("slice of symbolic text")
                parts[-1] = parts[-1][:b]
            return Rope.make(parts)
        raise Unsupported("slice of symbolic text")


def fmt_atomic(self): return True


Fmt.atomic = fmt_atomic


# generic deep operations ------------------------------------------------------------------------
def is_instance_obj(v):
    return type(v).__module__.split(".")[0] == "ramannoodle" and hasattr(v, "__dict__") and not isinstance(v, (type, BaseException))


def deep_sym(v, seen=None):
    """Does the value contain anything symbolic?"""
    if isinstance(v, SArr): return not (all(isinstance(d, int) for d in v.shape_) and v.is_concrete())
    if isinstance(v, Num): return v.p.const() is None
    if isinstance(v, (Bl, Rope, Poison)): return True
    if isinstance(v, PList):
        return (not v.is_concrete_len()) or any(deep_sym(x, seen) for x in v.values())
    if isinstance(v, (list, tuple, set, frozenset)): return any(deep_sym(x, seen) for x in v)
    if isinstance(v, dict): return any(deep_sym(x, seen) for x in v.values())
    if isinstance(v, slice): return any(deep_sym(x, seen) for x in (v.start, v.stop, v.step))
    if getattr(v, "_is_sym_", False) is True: return True
    if is_instance_obj(v):
        seen = seen or set()
        if id(v) in seen: return False
        seen.add(id(v))
        return any(deep_sym(x, seen) for x in v.__dict__.values())
    return False


def concretize(v):
    if isinstance(v, SArr): return v.concrete()
    if isinstance(v, Num):
        c = v.p.const()
        return int(c) if v.py in ("int", "npint") else float(c)
    if isinstance(v, PList): return [concretize(x) for x in v.values()]
    if isinstance(v, tuple) and type(v) is tuple: return tuple(concretize(x) for x in v)
    if type(v) in (list, PSet, set): return type(v)(concretize(x) for x in v) if type(v) is list else {concretize(x) for x in v}
    if type(v) in (dict, PDict): return {k: concretize(x) for k, x in v.items()}
    if isinstance(v, slice): return slice(concretize(v.start), concretize(v.stop), concretize(v.step))
    return v


def lift(v):
    """Result of a native call, as a program value."""
    if type(v) is list: return PList([lift(x) for x in v])
    if type(v) is tuple: return tuple(lift(x) for x in v)
    if isinstance(v, np.ndarray) and type(v) is np.ndarray and v.dtype.kind in "fiub":
        from .npmodel import from_concrete
        if v.dtype.kind == "f" and not np.isfinite(v).all(): return v
        return from_concrete(v)
    if type(v) is dict: return PDict({k: lift(x) for k, x in v.items()})
    return v


OBJ_STAMP = {}      # id(obj) -> (stamp, obj) of instances created by the interpreter


def stamp_obj(o): OBJ_STAMP[id(o)] = (next(_stamp), o)


class Limits:
    """State older than a loop: stores and objects created before it."""
    def __init__(self):
        self.store = next(Store._n); self.stamp = next(_stamp)

    def old(self, v):
        if isinstance(v, SArr): return v.store.id < self.store
        s = getattr(v, "stamp", None)
        if s is not None and not is_instance_obj(v): return s < self.stamp
        s = OBJ_STAMP.get(id(v))
        return s is None or s[0] < self.stamp


class Subst:
    """Simultaneous instantiation of variables in program values."""

    def __init__(self, mp, apps=None, lim=None):
        self.mp = mp                  # atom -> Poly
        self.apps = apps or {}        # app name -> function(args)->Poly   (array havoc)
        self.lim = lim
        self.memo = {}

    def term(self, x):
        if self.apps: x = replace_apps(x, self.apps)
        return subst(x, self.mp) if self.mp else x

    def dims(self, d): return d if isinstance(d, int) else dim(self.term(d))

    def __call__(self, v):
        if v is None or isinstance(v, (int, float, str, bool, type)): return v
        if isinstance(v, Num):
            p = self.term(v.p)
            return v if p is v.p else wrap(p, v.py)
        if isinstance(v, Bl): return unbool(self.term(v.b))
        k = id(v)
        if k in self.memo: return self.memo[k][1]
        r = self._go(v)
        self.memo[k] = (v, r)
        return r

    def _go(self, v):
        if type(v).__name__ == "OText": return v.vc_subst(self)
        if isinstance(v, SArr):
            sh = tuple(self.dims(d) for d in v.shape_)
            if self.lim is not None and self.lim.old(v):
                if v.fn is None:
                    axes = tuple(("c", self.term(a[1])) if a[0] == "c" else ("v", a[1], self.term(a[2]), a[3]) for a in v.axes)
                    return SArr(v.store, sh, v.dtype_, axes=axes, kind=v.kind)
                fn = v.fn
                return SArr(v.store, sh, v.dtype_, axes=None, kind=v.kind, fn=lambda I: tuple(self.term(x) for x in fn(I)))
            rd = v.reader()
            return SArr(Store(lambda J: self.term(rd(J)), "template"), sh, v.dtype_, kind=v.kind)
        if isinstance(v, PList):
            if self.lim is not None and self.lim.old(v): return v
            segs = []
            for s in v.segs:
                if s.n is None: segs.append(Seg(vals=[self(x) for x in s.vals]))
                else: segs.append(Seg(self.dims(P(s.n)), at=lambda k, s=s: self(s.at(k))))
            return PList.of_segs(segs)
        if type(v) is tuple: return tuple(self(x) for x in v)
        if isinstance(v, Rope):
            from .textmodel import subst_part
            return Rope.make([subst_part(p, self) for p in v.parts])
        if isinstance(v, PDict):
            if self.lim is not None and self.lim.old(v): return v
            return PDict({a: self(b) for a, b in v.items()})
        if is_instance_obj(v):
            if self.lim is not None and self.lim.old(v): return v
            r = object.__new__(type(v)); stamp_obj(r)
            for a, b in v.__dict__.items(): r.__dict__[a] = self(b)
            return r
        h = getattr(v, "vc_subst", None)
        if h is not None: return h(self)
        return v


def replace_apps(x, apps):
    """Replace applications of the named functions (outside binders) by given terms."""
    from . import prover
    for _ in range(6):
        mp = {}
        for a in prover.atoms_of(x):
            if a.kind == "app" and a.args[0] in apps: mp[a] = apps[a.args[0]](a.args[1])
        if not mp: break
        x = prover.replace_atoms(x, mp)
    if has_app(x, set(apps)): raise Unsupported("loop-carried array read under a binder")
    return x


def has_app(x, names, _seen=None):
    seen = set() if _seen is None else _seen

    def go(x):
        if isinstance(x, (Poly, B)):
            if x in seen: return False
            seen.add(x)
        if isinstance(x, Poly):
            return any(ga(a) for m in x.t for a, e in m)
        if isinstance(x, B):
            if x.kind == "app" and x.args[0] in names: return True
            return any(go(y) for y in _flat(x.args))
        return False

    def ga(a):
        if a in seen: return False
        seen.add(a)
        if a.kind == "app" and a.args[0] in names: return True
        return any(go(y) for y in _flat(a.args))
    return go(x)


def _flat(args):
    for y in args:
        if isinstance(y, (Poly, B)): yield y
        elif isinstance(y, (tuple, frozenset)): yield from _flat(y)


def freeze(v, lim, memo=None):
    """Snapshot of a value at the end of a loop-body path.

    State older than the loop is kept by reference; arrays and lists created by the body are copied out
    (the trail rollback would undo their contents)."""
    memo = {} if memo is None else memo
    if v is None or isinstance(v, (int, float, str, bool, type, Num, Bl)): return v
    if id(v) in memo: return memo[id(v)][1]
    if type(v) is tuple: r = tuple(freeze(x, lim, memo) for x in v)
    elif isinstance(v, SArr):
        r = v if lim.old(v) else SArr(Store(v.reader(), "template"), v.shape_, v.dtype_, kind=v.kind)
    elif isinstance(v, PList):
        r = v if lim.old(v) else PList.of_segs([Seg(vals=[freeze(x, lim, memo) for x in s.vals]) if s.n is None else s for s in v.segs])
    elif isinstance(v, PDict): r = v if lim.old(v) else PDict({a: freeze(b, lim, memo) for a, b in v.items()})
    elif is_instance_obj(v):
        if lim.old(v): r = v
        else:
            r = object.__new__(type(v)); memo[id(v)] = (v, r); stamp_obj(r)
            for a, b in v.__dict__.items(): r.__dict__[a] = freeze(b, lim, memo)
    else: r = v
    memo[id(v)] = (v, r)
    return r


def vmerge(conds, vals):
    """Value that equals vals[i] under (mutually exclusive, exhaustive) conds[i]."""
    v0 = vals[0]
    if all(v is v0 for v in vals): return v0
    if all(isinstance(v, (str, type(None))) for v in vals):
        if all(v == v0 for v in vals): return v0
        raise Unsupported("merge of different constants")
    if all(isinstance(v, (Bl, bool, np.bool_)) for v in vals):
        return unbool(mk_or(*[mk_and(c, tob(v)) for c, v in zip(conds, vals)]))
    if all(isinstance(v, (Num, int, float, np.number)) for v in vals):
        pys = [pyof(v) for v in vals]
        py = "npfloat" if "npfloat" in pys else "float" if "float" in pys else pys[0]
        r = topoly(vals[-1])
        for c, v in zip(conds[:-1], vals[:-1]): r = ite(c, topoly(v), r)
        return wrap(r, py)
    if all(isinstance(v, SArr) for v in vals):
        sh = v0.shape_
        if all(len(v.shape_) == len(sh) and all(p is q or p == q for p, q in zip(sh, v.shape_)) for v in vals):
            rds = [v.reader() for v in vals]; dt = v0.dtype_
            if any(v.dtype_ != dt for v in vals): raise Unsupported("merge dtypes")
            if dt == "b": f = lambda J: mk_or(*[mk_and(c, rd(J)) for c, rd in zip(conds, rds)])
            else:
                def f(J):
                    r = rds[-1](J)
                    for c, rd in zip(conds[:-1], rds[:-1]): r = ite(c, rd(J), r)
                    return r
            return SArr(Store(f, "template"), sh, dt, kind=v0.kind)
    if all(type(v) is tuple and len(v) == len(v0) for v in vals):
        return tuple(vmerge(conds, [v[i] for v in vals]) for i in range(len(v0)))
    if all(isinstance(v, PList) and v.is_concrete_len() and len(v) == len(v0) for v in vals if isinstance(v0, PList)) and isinstance(v0, PList):
        return PList([vmerge(conds, [v.values()[i] for v in vals]) for i in range(len(v0))])
    if all(is_instance_obj(v) and type(v) is type(v0) and v.__dict__.keys() == v0.__dict__.keys() for v in vals):
        r = object.__new__(type(v0))
        for a in v0.__dict__: r.__dict__[a] = vmerge(conds, [v.__dict__[a] for v in vals])
        return r
    from .textmodel import OText, code
    if any(isinstance(v, OText) for v in vals) and all(isinstance(v, (OText, str)) for v in vals):
        ids = [v.id if isinstance(v, OText) else P(code(v)) for v in vals]
        r = ids[-1]
        for c, v in zip(conds[:-1], ids[:-1]): r = ite(c, v, r)
        return OText(r)
    raise Unsupported("merge of unlike values: " + ", ".join(type(v).__name__ + (str(v.shape_) + v.dtype_ if isinstance(v, SArr) else "") for v in vals))
