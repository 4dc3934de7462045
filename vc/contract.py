"""Contracts: one specification, two readings.

A contract is a Python function of a context C.  Read by `Sym`, its inputs are arbitrary (every
size, every value), the calls run the verifier's interpreter over the real source, and every check
is an obligation to be proved.  Read by `Con`, the same text draws concrete inputs, calls the real
code under CPython and evaluates the checks (replay of verifier models, and the bounded stand-in).
"""
from __future__ import annotations
import itertools, json, math, os, random, sys, time, traceback, signal
from fractions import Fraction
import numpy as np
from . import terms as T
from .terms import *
from .terms import _theatom
from . import prover, sym
from .sym import SArr, Store, E, Num, Bl, Dead, topoly, tob, dim, dval, wrap, unbool, _install_ops
from . import npmodel as N
from . import interp as I
from .values import PList, PDict, Rope, Seg, deep_sym, is_instance_obj, eq_term, stamp_obj, lift
_install_ops()

CONTRACTS: dict = {}          # property -> [Contract]


class Contract:
    def __init__(self, prop, name, fn, targets, cases, mode, note, timeout):
        self.prop, self.name, self.fn, self.targets, self.cases, self.mode, self.note, self.timeout = prop, name, fn, targets, cases, mode, note, timeout


def contract(prop, name, targets=(), cases=40, mode="proof", note="", timeout=240):
    """mode: proof (obligations + runtime cases) or bounded (runtime cases only, labelled so)."""
    def deco(fn):
        CONTRACTS.setdefault(prop, []).append(Contract(prop, name, fn, targets, cases, mode, note, timeout))
        return fn
    return deco


class Discard(Exception): pass
class Absent(Discard): pass


def private(owner, name):
    """A function that is not part of the public interface: its contracts are skipped (and listed as
    not decided) when a refactoring has removed it; the contracts of its callers remain."""
    f = getattr(owner, name, None)
    if f is not None: return f

    def absent(*a, **k):
        if E.active: raise Unsupported(f"{name} no longer exists")
        raise Absent(name)
    absent.__name__ = absent.__qualname__ = name; absent.__module__ = getattr(owner, "__name__", "?")
    return absent


class Outcome:
    def __init__(self, value=None, exc=None): self.value, self.exc = value, exc
    @property
    def raised(self): return self.exc is not None
    def is_(self, *types): return self.exc is not None and isinstance(self.exc, types)
    def __repr__(self): return f"raises {type(self.exc).__name__}: {self.exc}" if self.exc is not None else f"returns {type(self.value).__name__}"


# -------------------------------------------------------------------------------------------------
class Sym:
    mode = "sym"

    def __init__(self, ct):
        self.ct = ct; self.obls = []; self.inputs = {}; self.subs = {}

    # inputs
    def dim(self, name, lo=0, hi=None):
        if hi is not None and hi == lo: return lo
        v = T.var(f"{name}", True, (P(lo), P(hi) + 1 if hi is not None else None))
        self.inputs[name] = ("dim", v, lo, hi)
        return Num(v, "int")

    def int(self, name, lo=None, hi=None, py="int"):
        v = T.var(f"{name}", True, (None if lo is None else topoly(lo), None if hi is None else topoly(hi) + 1))
        self.inputs[name] = ("int", v, lo, hi)
        return Num(v, py)

    def real(self, name, lo=None, hi=None, py="float", **kw):
        v = T.var(f"{name}")
        self.inputs[name] = ("real", v)
        if lo is not None: E.assume(mk_le(topoly(lo) - v))
        if hi is not None: E.assume(mk_le(v - topoly(hi)))
        return Num(v, py)

    def const(self, x): return lift(x)

    def arr(self, name, shape, lo=None, hi=None, integer=False, style=None, dtype=None, kind="np", distinct=False):
        """Array of arbitrary reals (or integers in [lo,hi])."""
        shape = tuple(shape)
        dt = dtype or ("i" if integer else "f")
        self.inputs[name] = ("arr", tuple(topoly(d) for d in shape), dt)
        isint = dt == "i" or integer
        if lo is not None or hi is not None:
            l = topoly(lo) if lo is not None else None; h = topoly(hi) if hi is not None else None
            if isint: T.APP_RNG[name] = (l, h + 1 if h is not None else None)
            else: T.APP_BOUNDS[name] = (l, h)
        def el(J):
            if dt == "b": return T.bapp(name, J)
            return app(name, J, isint)
        a = SArr.new(tuple(dim(d) for d in shape), el, dt, kind)
        return a

    def flag(self, name):
        v = T.var(name, True, (PZERO, P(2)))
        self.inputs[name] = ("int", v, 0, 1)
        return E.decide(mk_eq(v - 1))

    def choice(self, name, options):
        options = list(options)
        v = T.var(name, True, (PZERO, P(len(options))))
        self.inputs[name] = ("int", v, 0, len(options) - 1)
        for i, o in enumerate(options[:-1]):
            if E.decide(mk_eq(v - i)): return o
        return options[-1]

    def assume(self, c): E.assume(self.t(c))

    # program
    def call(self, f, *a, **k): return I.call(f, tuple(lift_arg(x) for x in a), {n: lift_arg(x) for n, x in k.items()})
    new = call

    def run(self, f, *a, **k):
        try: return Outcome(self.call(f, *a, **k))
        except (Dead, Unsupported): raise
        except Exception as e: return Outcome(exc=e)

    def get(self, o, n): return I.get_attr(o, n)
    def blank(self, cls):
        """An object of class cls without any attribute (its fields are then set one by one)."""
        o = object.__new__(cls); stamp_obj(o); return o

    def row_key(self, n, f): return T.pred("cfg", topoly(n), lambda k: app("vec", [topoly(x) for x in f(k)]))
    def num(self, t): return Num(topoly(t), "npfloat")
    def t_at(self, a, *J): return topoly(self.at(a, *[Num(topoly(j), "int") for j in J]))
    def build(self, shape, f, kind="np"):
        """Array whose elements are given by a function of the (symbolic) indexes."""
        return SArr.new(tuple(s if isinstance(s, int) else topoly(s) for s in shape), lambda J: topoly(f(*[Num(topoly(j), "int") for j in J])), "f", kind=kind)
    def opaque(self, tag, *keys): return app(tag, tuple(topoly(k) for k in keys))

    def set(self, o, n, v): I.set_attr(o, n, lift_arg(v))
    def meth(self, o, n, *a, **k): return self.call(I.get_attr(o, n), *a, **k)
    def item(self, o, k): return I.subscript(o, k)
    def setitem(self, o, k, v): I.set_item(o, k, lift_arg(v))
    def list(self, n, f): return PList.build(topoly(n), lambda k: f(Num(k, "int") if k.const() is None else int(k.const())))
    def lst(self, *vals): return PList(list(vals))
    def len(self, o): return I.b_len(o)
    def shape(self, a): return tuple(a.shape) if isinstance(a, SArr) else np.shape(a)
    def replace(self, f, spec, optional=False):
        """Use `spec` as the contract of callee f (verified by its own contract)."""
        E.substitute[f] = spec
        if not optional: self.subs[f"{getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)}"] = getattr(spec, "__doc__", "") or ""

    # terms
    def t(self, c): return tob(c) if not isinstance(c, B) else c
    def at(self, a, *J):
        if isinstance(a, PList):
            v = a.get(J[0]) if not isinstance(J[0], int) or True else None
            return v if len(J) == 1 else self.at(v, *J[1:])
        if not isinstance(a, SArr): a = N.asarr(a)
        if len(J) != a.ndim: raise CheckFail(f"result has {a.ndim} dimensions, expected {len(J)}")
        return self._sc(a, a.at(*[topoly(j) for j in J]))

    def _sc(self, a, t):
        if isinstance(t, B): return Bl(t) if E.known(t) is None else E.known(t)
        return Num(t, "npint" if a.dtype_ == "i" else "npfloat")

    def eq(self, a, b, tol=None): return ("eq", topoly(a), topoly(b))
    def le(self, a, b): return mk_le(topoly(a) - topoly(b))
    def lt(self, a, b): return mk_lt(topoly(a) - topoly(b))
    def isint(self, a):
        p = topoly(a); return mk_eq(p - pfloor(p))
    def floor(self, a): return Num(pfloor(topoly(a)), "npfloat")
    def sqrt(self, a): return Num(psqrt(topoly(a)), "npfloat")
    def exp(self, a): return Num(pexp(topoly(a)), "npfloat")
    def abs(self, a): return Num(pabs(topoly(a)), "npfloat")
    def ite(self, c, a, b): return Num(ite(self.b(c), topoly(a), topoly(b)), "npfloat")
    def sum(self, n, f): return Num(psum(topoly(n), lambda k: topoly(f(wrap(k, "int")))), "npfloat")
    def all(self, n, f): return forall(topoly(n), lambda k: self.b(f(wrap(k, "int"))))
    def any(self, n, f): return exists(topoly(n), lambda k: self.b(f(wrap(k, "int"))))
    def b(self, c):
        if isinstance(c, tuple): return mk_eq(c[1] - c[2])
        return self.t(c)
    def and_(self, *cs): return mk_and(*[self.b(c) for c in cs])
    def or_(self, *cs): return mk_or(*[self.b(c) for c in cs])
    def not_(self, c): return mk_not(self.b(c))
    def implies(self, a, b): return mk_or(mk_not(self.b(a)), self.b(b))
    def iff(self, a, b):
        a, b = self.b(a), self.b(b)
        return mk_and(mk_implies(a, b), mk_implies(b, a))
    def decide(self, c):
        """Case split of the argument."""
        return E.decide(self.b(c))
    def func(self, name, *args): return Num(app(name, [topoly(a) for a in args]), "npfloat")
    def cospi(self, x): return Num(N.pcos(topoly(x)), "npfloat")

    def model_tensors(self, batch, tag, dims):
        """Tensor of each configuration: an arbitrary function of (all of) that configuration."""
        batch = N.asarr(batch, getattr(batch, "kind", "np"))
        if batch.ndim != 3: raise ValueError("positions have wrong shape")
        S, n, three = batch.shape_
        if not deq_(three, 3): raise ValueError("positions have wrong shape")
        for d, e in zip((n,), dims):
            if e is not None and not sym.deq(n, dim(e)): raise ValueError("positions have wrong number of atoms")
        rd = batch.reader()

        def el(J):
            key = T.pred("cfg", P(n), lambda k: app("vec3", [rd((J[0], k, P(c))) for c in range(3)]))
            return app(tag, (key, J[1], J[2]))
        return SArr.new((S, 3, 3), el, "f")

    def amp_tensors(self, amps, j, tag):
        """Interpolation j evaluated at each amplitude: an arbitrary function of (j, amplitude)."""
        amps = N.asarr(amps)
        rd = amps.reader(); k = amps.ndim
        return SArr.new(tuple(amps.shape_) + (3, 3), lambda J: app(tag, (topoly(j), rd(tuple(J[:k])), J[k], J[k + 1])), "f")

    def amp_tensor(self, amp, j, tag, a, b): return Num(app(tag, (topoly(j), topoly(amp), P(a) if isinstance(a, int) else topoly(a), topoly(b))), "npfloat")

    # checks
    def check(self, name, c):
        t0 = time.time()
        if isinstance(c, tuple): r = prover.prove_eq(c[1], c[2], E.pc); goal = mk_eq(c[1] - c[2])
        else:
            goal = self.t(c); r = prover.prove(goal, E.pc)
        self.obls.append(dict(name=name, status=r.status, how=r.how, s=round(time.time() - t0, 3),
                              decisions=[str(d)[:160] for d in E.declog]))
        if r.status != "proved":
            o = self.obls[-1]; o["goal"] = str(goal)[:2000]
            o["facts"] = [str(f)[:300] for f in E.pc][:60]
            o["model"] = self.model(goal)

    def forall(self, name, dims, fn):
        dims = tuple(dims); J = []
        for i, d in enumerate(dims):        # small constant dimensions: element by element
            c = topoly(d).const()
            if c is not None and 0 < c <= 4:
                for v in range(int(c)):
                    self.forall(f"{name}[{v}]" if i == 0 else f"{name}[..{v}]", dims[:i] + dims[i + 1:], lambda *K, i=i, v=v: fn(*K[:i], v, *K[i:]))
                return
        for i, d in enumerate(dims):
            d = topoly(d); c = d.const()
            if c is not None and c <= 0: return
            J.append(Num(E.fresh(f"i{i}", True, (PZERO, d)), "int"))
        # a fresh index: proved for it means proved for all
        saved = (list(E.pc), set(E.pcset))
        try:
            for d in dims:
                d = topoly(d)
                if d.const() is None: E.assume(mk_lt(-d))
            if len(E.pc) > len(saved[0]) and not prover.feasible(saved[0], goal=mk_and(*E.pc[len(saved[0]):])): return        # empty range
            self.check(name, fn(*J))
        finally:
            E.pc, E.pcset = saved

    def check_shape(self, name, a, shape):
        sh = self.shape(a)
        if len(sh) != len(shape): self.check(name, FALSE); return False
        self.check(name, mk_and(*[mk_eq(topoly(x) - topoly(y)) for x, y in zip(sh, shape)]))
        return True

    def check_eq_arr(self, name, a, b):
        """Same shape and the same elements."""
        a, b = N.asarr(a), N.asarr(b)
        if not self.check_shape(name + ":shape", a, b.shape): return
        if a.dtype_ == "b": self.forall(name, b.shape, lambda *J: self.iff(self.at(a, *J), self.at(b, *J)))
        else: self.forall(name, b.shape, lambda *J: self.eq(self.at(a, *J), self.at(b, *J)))

    def snapshot(self, v):
        return snap(v)

    def unchanged(self, name, v, s):
        goals = []
        same(v, s, goals, self)
        for i, g in enumerate(goals or [TRUE]): self.check(f"{name}", g)

    def fresh(self, name, a, *others):
        """a shares no storage with the others."""
        sa = stores(a)
        ok = all(not (sa & stores(o)) for o in others)
        self.check(name, bconst(ok))

    def model(self, goal):
        return extract_model(self.inputs, list(E.pc) + [mk_not(goal)])


class CheckFail(Exception): pass


def deq_(a, b): return sym.deq(a, b)


def lift_arg(x):
    if isinstance(x, np.ndarray) or type(x) in (list, dict): return lift(x)
    return x


def snap(v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo: return memo[id(v)]
    if isinstance(v, SArr): r = ("arr", v, v.reader(), v.shape_)
    elif isinstance(v, PList): r = ("list", v, list(v.segs), [snap(x, memo) for s in v.segs if s.n is None for x in s.vals])
    elif isinstance(v, PDict): r = ("dict", v, {k: snap(x, memo) for k, x in v.items()})
    elif type(v) is tuple: r = ("tuple", v, [snap(x, memo) for x in v])
    elif is_instance_obj(v):
        r = ("obj", v, {}); memo[id(v)] = r
        for k, x in v.__dict__.items(): r[2][k] = snap(x, memo)
    else: r = ("val", v)
    memo[id(v)] = r
    return r


def same(v, s, goals, C, seen=None):
    seen = seen if seen is not None else set()
    if id(s) in seen: return
    seen.add(id(s))
    k = s[0]
    if k == "arr":
        if not isinstance(v, SArr) or len(v.shape_) != len(s[3]): goals.append(FALSE); return
        for p, q in zip(v.shape_, s[3]): goals.append(mk_eq(P(p) - P(q)))
        J = [E.fresh("u", True, (PZERO, P(d))) for d in s[3]]
        x, y = v.at(*J), s[2](v._map(tuple(J)) if v is s[1] else tuple(J)) if False else (s[2](tuple(J)))
        if isinstance(x, B): goals.append(mk_and(mk_implies(x, y), mk_implies(y, x)))
        else: goals.append(mk_eq(x - y))
    elif k == "list":
        if v is s[1] and len(v.segs) == len(s[2]) and all(a is b or (a.n is None and b.n is None and len(a.vals) == len(b.vals) and all(p is q for p, q in zip(a.vals, b.vals))) for a, b in zip(v.segs, s[2])):
            for x, y in zip([x for g in v.segs if g.n is None for x in g.vals], s[3]): same(x, y, goals, C, seen)
            return
        if not isinstance(v, PList): goals.append(FALSE); return
        goals.append(eq_term(v, PList.of_segs(s[2])))
    elif k == "dict":
        if set(v) != set(s[2]): goals.append(FALSE); return
        for a in v: same(v[a], s[2][a], goals, C, seen)
    elif k == "tuple":
        if type(v) is not tuple or len(v) != len(s[2]): goals.append(FALSE); return
        for x, y in zip(v, s[2]): same(x, y, goals, C, seen)
    elif k == "obj":
        if type(v) is not type(s[1]) or set(v.__dict__) != set(s[2]): goals.append(FALSE); return
        for a in s[2]: same(v.__dict__[a], s[2][a], goals, C, seen)
    else:
        if v is s[1]: return
        if isinstance(v, (str, type(None))) or isinstance(s[1], (str, type(None))): goals.append(bconst(v == s[1])); return
        try: goals.append(eq_term(v, s[1]))
        except Exception: goals.append(FALSE)


def stores(v, seen=None):
    """Identity of the mutable storage reachable from v."""
    seen = set() if seen is None else seen
    if id(v) in seen: return set()
    seen.add(id(v))
    if isinstance(v, SArr): return {("s", id(v.store))}
    if isinstance(v, PList):
        r = {("l", id(v))}
        for s in v.segs:
            if s.n is None:
                for x in s.vals: r |= stores(x, seen)
        return r
    if isinstance(v, dict):
        r = {("d", id(v))}
        for x in v.values(): r |= stores(x, seen)
        return r
    if isinstance(v, tuple):
        r = set()
        for x in v: r |= stores(x, seen)
        return r
    if is_instance_obj(v):
        r = {("o", id(v))}
        for x in v.__dict__.values(): r |= stores(x, seen)
        return r
    return set()


def extract_model(inputs, facts):
    """Concrete inputs from a z3 model of the negated obligation (small sizes preferred)."""
    out = None
    dims = [v for v in inputs.values() if v[0] == "dim"]
    for cap in (2, 3, 5, None):
        extra = [mk_le(v[1] - (v[2] + cap)) for v in dims] if cap is not None else []
        try: ex, _ = prover.expand_facts(facts + extra)
        except Unsupported: return None
        st, m, c = prover.z3_check(ex, timeout=3000)
        if st == "sat": break
        if not dims: return None
    else: return None

    def num(e):
        v = m.eval(e, model_completion=True)
        try:
            if hasattr(v, "as_long"): return v.as_long()
            if hasattr(v, "as_fraction"): return float(v.as_fraction())
            v = v.approx(20); return float(v.as_fraction())
        except Exception: return 0
    out = {}
    for name, v in inputs.items():
        try:
            if v[0] in ("dim", "int", "real"):
                out[name] = num(c.poly(v[1]))
            elif v[0] == "arr":
                sh = [int(num(c.poly(d))) for d in v[1]]
                if math.prod(sh) > 20000: return None
                dt = v[2]
                a = np.zeros(sh)
                for J in np.ndindex(*sh):
                    if dt == "b":
                        a[J] = bool(m.eval(c.bool(T.bapp(name, J)), model_completion=True))
                    else: a[J] = num(c.poly(app(name, J, dt == "i")))
                out[name] = a.tolist()
        except Exception: return None
    return out


# -------------------------------------------------------------------------------------------------
class Con:
    mode = "con"

    def __init__(self, ct, rng, given=None):
        self.ct, self.rng, self.given = ct, rng, given or {}
        self.inputs = {}; self.fails = []; self.nchecks = 0
        self.np = np.random.default_rng(rng.randrange(2 ** 31))
        self.style = rng.choice(["mixed", "mixed", "uniform", "edge", "small", "big"])
        self.tmp = None; self.large = False

    def _given(self, name): return self.given.get(name)

    def scratch(self):
        """Directory of this case; removed when the case ends."""
        import tempfile
        if self.tmp is None: self.tmp = tempfile.mkdtemp(prefix="vc-case-")
        return self.tmp

    def dim(self, name, lo=0, hi=None):
        g = self._given(name)
        v = int(g) if g is not None else self.rng.choice([lo, lo, lo + 1, lo + 1, lo + 2, lo + 3, lo + 4])
        if g is None and not self.large and hi is None and self.rng.random() < .07:
            self.large = True; v = lo + self.rng.randint(5, 30)       # at most one large size per case
        if hi is not None: v = min(v, hi)
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, py="int"):
        g = self._given(name)
        l = -3 if lo is None else int(lo); h = l + 7 if hi is None else int(hi)
        if h < l: raise Discard()
        v = int(g) if g is not None else self.rng.randint(l, h)
        self.inputs[name] = v
        return v

    def _reals(self, size, lo, hi, integer, style=None):
        r = self.np
        if style is not None:
            return style(r, size)
        if integer:
            return r.integers(-3 if lo is None else int(lo), (4 if hi is None else int(hi) + 1), size).astype(float)
        if lo is not None or hi is not None:
            l = -10.0 if lo is None else float(lo); h = max(l, l + 10 if hi is None else float(hi))
            a = r.uniform(l, h, size)
            m = r.random(size)
            a = np.where(m < .08, l, np.where((m > .92) & (hi is not None), h, a))
            return a
        s = self.style
        a = r.normal(0, 1, size)
        if s == "big": a = a * 50
        elif s == "small": a = a * 1e-2
        elif s == "uniform": a = r.uniform(0, 1, size)
        e = r.choice([0., .5, -.5, 1., -1., 1.5, -1.5, 2., .25, .75, -2.25, 3.], size)
        if s == "edge": a = e
        elif s == "mixed": a = np.where(r.random(size) < .3, e, a)
        return a

    def _repeat(self, a, signs):
        """Now and then: equal rows, rows that differ in signs only, ordered entries."""
        r = self.rng; n = a.shape[0]
        if n < 2 or a.shape == (3, 3) or r.random() > .25: return a
        a = a.copy(); c = r.randrange(4); i = r.randrange(n - 1); j = r.choice([i + 1, r.randrange(n)])
        if c == 0 or c == 1 and (not signs or (a >= 0).all()): a[j] = a[i]
        elif c == 1: a[j] = a[i] * (-1 if a.ndim == 1 or r.random() < .5 else self.np.choice([1, -1], a[i].shape))
        elif a.ndim == 1: a = np.sort(a) if c == 2 else np.sort(a)[::-1].copy()
        return a

    def real(self, name, lo=None, hi=None, py="float", style=None):
        g = self._given(name)
        v = float(g) if g is not None else float(np.asarray(self._reals((), lo, hi, False, style)))
        self.inputs[name] = v
        return np.float64(v) if py == "npfloat" else v

    def const(self, x): return x

    def arr(self, name, shape, lo=None, hi=None, integer=False, style=None, dtype=None, kind="np", distinct=False):
        shape = tuple(int(s) for s in shape)
        g = self._given(name)
        if g is not None and np.size(g) == math.prod(shape): a = np.array(g, dtype=float).reshape(shape)
        elif dtype == "b": a = self.np.random(shape) < .5
        else: a = np.asarray(self._reals(shape, lo, hi, integer or dtype == "i", style), dtype=float).reshape(shape)
        if g is None and a.ndim and dtype != "b" and not distinct: a = self._repeat(a, lo is None and hi is None)
        if dtype == "b": a = a.astype(bool)
        elif integer or dtype == "i": a = np.rint(a).astype(np.int64)
        self.inputs[name] = a.tolist()
        if kind == "torch":
            import torch
            t = torch.tensor(a)
            return t if t.dtype in (torch.int64, torch.bool) else t.to(torch.get_default_dtype())
        return a

    def flag(self, name):
        g = self._given(name)
        v = bool(int(g)) if g is not None else self.rng.random() < .5
        self.inputs[name] = int(v)
        return v

    def choice(self, name, options):
        options = list(options)
        g = self._given(name)
        i = min(int(g), len(options) - 1) if g is not None else self.rng.randrange(len(options))
        self.inputs[name] = i
        return options[i]

    def assume(self, c):
        if not c: raise Discard()

    def call(self, f, *a, **k): return f(*a, **k)
    new = call

    def run(self, f, *a, **k):
        try: return Outcome(f(*a, **k))
        except Exception as e: return Outcome(exc=e)

    def get(self, o, n): return getattr(o, n)
    def set(self, o, n, v): setattr(o, n, v)
    def meth(self, o, n, *a, **k): return getattr(o, n)(*a, **k)
    def item(self, o, k): return o[k]
    def setitem(self, o, k, v): o[k] = v
    def list(self, n, f): return [f(k) for k in range(int(n))]
    def lst(self, *vals): return list(vals)
    def len(self, o): return len(o)
    def shape(self, a): return tuple(np.shape(a)) if not hasattr(a, "shape") else tuple(a.shape)
    def replace(self, f, spec, optional=False): pass

    def at(self, a, *J):
        if isinstance(a, (list, tuple)): 
            v = a[int(J[0])]
            return v if len(J) == 1 else self.at(v, *J[1:])
        if len(J) != a.ndim: raise CheckFail(f"result has {a.ndim} dimensions, expected {len(J)}")
        v = a[tuple(int(j) for j in J)]
        return v.item() if hasattr(v, "item") else v

    TOL = 1e-7

    def eq(self, a, b, tol=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b): return False
        if a == b: return True
        return abs(a - b) <= (tol or self.TOL) * (1 + max(abs(a), abs(b)))
    def le(self, a, b): return float(a) <= float(b) + self.TOL * (1 + abs(float(b)))
    def lt(self, a, b): return float(a) < float(b)
    def isint(self, a): return abs(float(a) - round(float(a))) <= self.TOL * (1 + abs(float(a)))
    def floor(self, a): return math.floor(a)
    def sqrt(self, a): return math.sqrt(a)
    def exp(self, a): return np.exp(np.float64(a))
    def abs(self, a): return abs(a)
    def ite(self, c, a, b): return a if c else b
    def sum(self, n, f): return sum((f(k) for k in range(int(n))), 0.0)
    def all(self, n, f): return all(f(k) for k in range(int(n)))
    def any(self, n, f): return any(f(k) for k in range(int(n)))
    def b(self, c): return bool(c)
    def and_(self, *cs): return all(cs)
    def or_(self, *cs): return any(cs)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def decide(self, c): return bool(c)

    def func(self, name, *args):
        """Some fixed smooth function standing for an uninterpreted one."""
        r = np.random.default_rng(abs(hash_str(name)) % 2 ** 31)
        x = np.asarray([float(a) for a in args])
        w = r.normal(size=(len(x),)); q = r.normal(size=(len(x), len(x)))
        return float(r.normal() + w @ x + .3 * x @ q @ x)

    def cospi(self, x): return math.cos(math.pi * x)

    def model_tensors(self, batch, tag, dims):
        batch = np.asarray(batch, dtype=float)
        if batch.ndim != 3 or batch.shape[2] != 3: raise ValueError("positions have wrong shape")
        if dims[0] is not None and batch.shape[1] != dims[0]: raise ValueError("positions have wrong number of atoms")
        r = np.random.default_rng(hash_str(tag) % 2 ** 31)
        w = r.normal(size=(batch.shape[1], 3, 3, 3)); q = r.normal(size=(batch.shape[1], 3, 3, 3))
        return np.einsum("snc,ncij->sij", np.sin(batch * 3), w) + np.einsum("snc,ncij->sij", batch ** 2, q)

    def amp_tensors(self, amps, j, tag):
        amps = np.asarray(amps, dtype=float)
        r = np.random.default_rng([hash_str(tag) % 2 ** 31, int(j)])
        w = r.normal(size=(3, 3, 3))
        t = amps[..., None, None]
        return w[0] * t + w[1] * np.sin(3 * t) + w[2]

    def amp_tensor(self, amp, j, tag, a, b): return float(self.amp_tensors(amp, j, tag)[int(a), int(b)])

    def check(self, name, c):
        self.nchecks += 1
        if not c: self.fails.append(name)

    def forall(self, name, dims, fn):
        dims = [int(d) for d in dims]
        self.nchecks += 1
        total = math.prod(dims); t0 = time.time()
        points = itertools.product(*[range(d) for d in dims])
        if total > 300: points = (tuple(self.rng.randrange(d) for d in dims) for _ in range(300))
        for k, J in enumerate(points):
            if k > 60 and time.time() - t0 > .3: break
            if not fn(*J):
                self.fails.append(f"{name} at {list(J)}"); return

    def check_shape(self, name, a, shape):
        ok = self.shape(a) == tuple(int(s) for s in shape)
        self.check(f"{name} (got {self.shape(a)}, expected {tuple(int(s) for s in shape)})" if not ok else name, ok)
        return ok

    def check_eq_arr(self, name, a, b):
        a, b = tonp(a), tonp(b)
        if not self.check_shape(name + ":shape", a, b.shape): return
        with np.errstate(all="ignore"):
            ok = np.array_equal(a, b) if a.dtype.kind in "biU" and b.dtype.kind in "biU" else bool(np.all(np.abs(a - b) <= self.TOL * (1 + np.maximum(np.abs(a), np.abs(b)))))
        self.check(name, ok)

    def snapshot(self, v): return csnap(v)
    def unchanged(self, name, v, s): self.check(name, csame(v, s))

    def fresh(self, name, a, *others):
        A = carrays(a)
        self.check(name, not any(x is y or np.shares_memory(x, y) if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) else x is y
                                 for x in A for o in others for y in carrays(o)))


def tonp(a):
    if type(a).__module__.startswith("torch") and not hasattr(a, "detach"): return np.asarray(a)
    if type(a).__module__.startswith("torch"): return a.detach().cpu().numpy()
    return np.asarray(a)


def hash_str(s):
    h = 7
    for ch in s: h = (h * 131 + ord(ch)) % (2 ** 61 - 1)
    return h


def csnap(v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, np.ndarray): return ("arr", v.copy(), v.dtype, v.shape)
    if type(v).__module__.startswith("torch") and hasattr(v, "detach"): return ("ten", v.detach().clone())
    if id(v) in memo: return memo[id(v)]
    if isinstance(v, (list, tuple)): r = (type(v).__name__, [csnap(x, memo) for x in v])
    elif isinstance(v, dict): r = ("dict", {k: csnap(x, memo) for k, x in v.items()})
    elif is_instance_obj(v):
        r = ("obj", {}); memo[id(v)] = r
        for k, x in v.__dict__.items(): r[1][k] = csnap(x, memo)
    else: r = ("val", v)
    memo[id(v)] = r
    return r


def csame(v, s, seen=None):
    seen = seen if seen is not None else set()
    if id(s) in seen: return True
    seen.add(id(s))
    k = s[0]
    if k == "arr": return isinstance(v, np.ndarray) and v.shape == s[3] and v.dtype == s[2] and np.array_equal(v, s[1], equal_nan=v.dtype.kind == "f")
    if k == "ten":
        import torch
        return isinstance(v, torch.Tensor) and v.shape == s[1].shape and v.dtype == s[1].dtype and np.array_equal(v.detach().numpy(), s[1].numpy(), equal_nan=v.dtype.is_floating_point)
    if k in ("list", "tuple"): return type(v).__name__ == k and len(v) == len(s[1]) and all(csame(x, y, seen) for x, y in zip(v, s[1]))
    if k == "dict": return isinstance(v, dict) and set(v) == set(s[1]) and all(csame(v[a], s[1][a], seen) for a in v)
    if k == "obj": return set(v.__dict__) >= set(s[1]) and all(csame(v.__dict__[a], s[1][a], seen) for a in s[1])
    return v is s[1] or v == s[1]


def carrays(v, seen=None):
    seen = set() if seen is None else seen
    if id(v) in seen: return []
    seen.add(id(v))
    if isinstance(v, np.ndarray): return [v]
    if isinstance(v, (list,)): return [v] + [a for x in v for a in carrays(x, seen)]
    if isinstance(v, tuple): return [a for x in v for a in carrays(x, seen)]
    if isinstance(v, dict): return [v] + [a for x in v.values() for a in carrays(x, seen)]
    if is_instance_obj(v): return [a for x in v.__dict__.values() for a in carrays(x, seen)]
    return []


# running -----------------------------------------------------------------------------------------
class Timeout(BaseException): pass


def _alarm(sec):
    def h(s, f): raise Timeout()
    signal.signal(signal.SIGALRM, h); signal.alarm(int(sec))


def prove_contract(ct, timeout=None):
    """Symbolic reading: returns dict(status, obligations, ...)."""
    E.reset(); E.subused = set(); I.USED.clear(); T.APP_RNG.clear(); T.APP_BOUNDS.clear(); prover.forget()
    st0 = dict(prover.STATS)
    t0 = time.time()
    sym_ctx = []
    res = dict(name=ct.name, status="proved", obligations=[], reason="", subs={})

    def once():
        C = Sym(ct); sym_ctx.append(C)
        E.substitute = {}; E.active = True
        try:
            ct.fn(C)
            return ("ok", C)
        except (Dead, Unsupported, Timeout): raise
        except AssertionError: raise
        except Exception as e:
            if not from_program(e):
                raise
            # the code raised (or returned something of the wrong form) on a feasible path
            C.obls.append(dict(name=f"no unexpected {type(e).__name__}", status="refuted", how="path", s=0,
                               decisions=[str(d)[:160] for d in E.declog], goal=f"{type(e).__name__}: {str(e)[:300]}",
                               model=C.model(FALSE)))
            return ("raise", C)
        finally:
            res["subs"].update(C.subs)
    _alarm(timeout or ct.timeout)
    try:
        out = E.explore(once)
        for (k, C), dec, defs in out: res["obligations"] += C.obls
        for nm, b in E.side: pass
        if not out: res.update(status="vacuous", reason="no feasible path: contradictory precondition")
        elif not res["obligations"]: res.update(status="vacuous", reason="no obligation generated")
        elif any(o["status"] != "proved" for o in res["obligations"]):
            res["status"] = "failed"
            if prover.STATS.get("wall", 0) > st0.get("wall", 0): res.update(status="unsupported", reason="solver stopped by the clock")
            idle = sorted(n for n in res["subs"] if n not in {f"{getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)}" for f in E.subused})
            if idle: res.update(status="unsupported", reason="callee no longer called through its contract: " + ", ".join(idle))
        res["paths"] = len(out)
    except Unsupported as e:
        for C in sym_ctx: res["obligations"] += C.obls
        res.update(status="unsupported", reason=str(e), where=where(e))
    except Timeout:
        for C in sym_ctx: res["obligations"] += C.obls
        res.update(status="unsupported", reason="verifier time limit")
    except RecursionError:
        res.update(status="unsupported", reason="recursion limit of the verifier")
    except Exception as e:
        res.update(status="engine-error", reason=f"{type(e).__name__}: {e}", where=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        E.rollback(0); E.active = False
    res["functions"] = dict(I.USED); res["notes"] = sorted(E.notes)
    res["solver_s"] = round(prover.STATS["z3_s"] - st0["z3_s"], 3); res["solver_calls"] = prover.STATS["z3_calls"] - st0["z3_calls"]
    res["wall_s"] = round(time.time() - t0, 2); res["loops"] = len(E.loopinfo)
    return res


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-6:]))


ENGINE_ERRORS = (CheckFail,)


def from_program(e):
    """Was the exception raised by the interpreted program (or by reading a result of the wrong form)?"""
    if isinstance(e, CheckFail): return True
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1]
    fn = os.path.basename(last.filename)
    if isinstance(e, (KeyError, AttributeError, TypeError, IndexError, ValueError, ZeroDivisionError, FileNotFoundError, FileExistsError, OSError, StopIteration, NameError)) or type(e).__module__.startswith("ramannoodle"):
        # raised inside the interpreter while running program code
        return any(os.path.basename(f.filename) == "interp.py" for f in tb)
    return False


def run_case(ct, seed, given=None):
    """One concrete execution against the real code: None (discarded) or list of failures."""
    rng = random.Random(seed)
    C = Con(ct, rng, given)
    try:
        ct.fn(C)
    except Absent as e:
        C.absent = str(e); return None, C
    except Discard: return None, C
    except Exception as e:
        C.fails.append(f"unexpected {type(e).__name__}: {str(e)[:300]}")
        C.trace = traceback.format_exc()[-1500:]
    finally:
        if C.tmp is not None:
            import shutil
            shutil.rmtree(C.tmp, ignore_errors=True)
    return C.fails, C
