"""Term language of the verifier: hash-consed polynomials over uninterpreted atoms, and booleans.

Every arithmetic term is kept in one normal form, a polynomial (with integer, possibly negative,
exponents) over *atoms*: variables, uninterpreted applications (array elements included), floor,
indicator [b] of a boolean literal, sqrt, reciprocals of sums, and the binder Sum_{k<n}.
`ite(c,a,b)` is b + (a-b)[c], so all of it is polynomial arithmetic; two terms that are equal by
ring laws, by  floor(x+m)=floor(x)+m  for integer m, by linearity of Sum and by alpha-renaming
have the same normal form.  Real numbers stand for machine floats (stated assumption).
"""
from __future__ import annotations
from fractions import Fraction
from math import floor as _mfloor, isqrt
import itertools

ZERO = Fraction(0); ONE = Fraction(1)


class Unsupported(BaseException):
    """Construct outside the verified subset (never a property failure)."""


# ----------------------------------------------------------------------------------------------
def tofrac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return Fraction(int(x))
        if isinstance(x, np.integer):
            return Fraction(int(x))
        if isinstance(x, np.floating):
            x = float(x)
    except ImportError:
        pass
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return Fraction(repr(x))
    raise Unsupported(f"not a number: {type(x).__name__}")


_BIG = 10 ** 15


def rnd(c: Fraction) -> Fraction:
    """Constants with unwieldy digits (float products) are rounded to 13 significant digits."""
    if abs(c.numerator) < _BIG and c.denominator < _BIG:
        return c
    if c.denominator == 1:
        return c
    f = float(c)
    if f == 0.0:
        return ZERO
    return Fraction(f"{f:.12e}")


class Atom:
    __slots__ = ("id", "kind", "args", "isint", "vars", "height", "rng", "__weakref__")

    def __repr__(self):
        return atom_str(self)


_atoms: dict = {}
_ids = itertools.count()


APP_RNG: dict = {}       # integer-valued functions: (lo, hi exclusive) known for every argument
APP_BOUNDS: dict = {}    # real-valued functions: (lo, hi) inclusive


def mkatom(kind, args, isint=False, rng=None):
    key = (kind, args, isint)
    a = _atoms.get(key)
    if a is None:
        if kind == "app" and APP_RNG: rng = APP_RNG.get(args[0], rng)
        a = Atom()
        a.id = next(_ids); a.kind = kind; a.args = args; a.isint = isint; a.rng = rng
        vs = frozenset(); h = 0
        if kind == "var":
            vs = frozenset((a,))
        elif kind == "bv":
            h = args[0]
        elif kind in ("sum", "red"):
            n, body = args[0], args[1]
            vs = n.vars | body.vars
            h = max(body.height, n.height)   # bound variable has height args[2]
            h = max(h, args[2])
        else:
            for x in args:
                if isinstance(x, (Poly, B)):
                    vs = vs | x.vars; h = max(h, x.height)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, (Poly, B)):
                            vs = vs | y.vars; h = max(h, y.height)
        a.vars = vs; a.height = h
        _atoms[key] = a
    elif kind == "var" and rng != a.rng: raise AssertionError(f"two variables of one name: {args[0]}")
    return a


class Poly:
    __slots__ = ("t", "id", "vars", "height", "isint", "_h", "pa")

    def __repr__(self):
        return poly_str(self)

    # arithmetic ------------------------------------------------------------------------------
    def __add__(self, o):
        o = P(o)
        if not o.t: return self
        if not self.t: return o
        d = dict(self.t)
        for m, c in o.t.items():
            s = d.get(m)
            if s is None:
                d[m] = c
            else:
                s = s + c
                if s == 0: del d[m]
                else: d[m] = s
        return mkpoly(d)
    __radd__ = __add__

    def __neg__(self):
        return mkpoly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def scale(self, k):
        k = tofrac(k)
        if k == 0: return PZERO
        if k == 1: return self
        return mkpoly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        return pmul(self, P(o))
    __rmul__ = __mul__

    def __pow__(self, n):
        return ppow(self, n)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t: return ZERO
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None

    def inv(self):
        return pinv(self)

    def __truediv__(self, o):
        return self * pinv(P(o))


_polys: dict = {}


def mkpoly(d: dict) -> Poly:
    for m, c in d.items():
        if (c.denominator >= _BIG or abs(c.numerator) >= _BIG) and c.denominator != 1:
            d = {m: rnd(c) for m, c in d.items()}
            d = {m: c for m, c in d.items() if c != 0}
            break
    key = frozenset(d.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = d
        p.id = next(_ids)
        vs = frozenset(); h = 0; isint = True; pa = False
        for m, c in d.items():
            if c.denominator != 1: isint = False
            for a, e in m:
                if a.kind == "pa": pa = True
                vs = vs | a.vars
                if a.height > h: h = a.height
                if not a.isint or e < 0: isint = False
        p.vars = vs; p.height = h; p.isint = isint
        p._h = p.id; p.pa = pa
        _polys[key] = p
    return p


def psum_of(ps) -> Poly:
    """Sum of many polynomials, adding up coefficients once."""
    d: dict = {}
    for p in ps:
        for m, c in p.t.items():
            c0 = d.get(m)
            d[m] = c if c0 is None else c0 + c
    return mkpoly({m: c for m, c in d.items() if c != 0})


PZERO = mkpoly({})
PONE = mkpoly({(): ONE})


def P(x) -> Poly:
    if isinstance(x, Poly): return x
    c = tofrac(x)
    return mkpoly({(): c}) if c else PZERO


def patom(a: Atom, e=1) -> Poly:
    return mkpoly({((a, e),): ONE})


_vn = itertools.count()


def var(name, isint=False, rng=None) -> Poly:
    """A variable; rng = (lo, hi_exclusive) Polys or None, known to hold (index ranges, dims)."""
    return patom(mkatom("var", (name,), isint, rng))


def fresh(name, isint=False, rng=None) -> Poly:
    return var(f"{name}!{next(_vn)}", isint, rng)


def app(name, args, isint=False) -> Poly:
    return patom(mkatom("app", (name, tuple(P(a) for a in args)), isint))


# multiplication -------------------------------------------------------------------------------
def _mono_mul(m1, m2):
    """Multiply two monomials -> (monomial, list of extra polynomials to multiply in)."""
    d = {}
    for a, e in m1: d[a] = e
    extra = None
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e == 0: continue
        k = a.kind
        if k == "ind":
            e = 1
        elif k == "sqrt":
            if e >= 2 or e < 0:
                q, r = divmod(e, 2)
                e = r
                if extra is None: extra = []
                base = a.args[0]
                extra.append(ppow(base, q))
                if e == 0: continue
        elif k == "pa" and e > 0:
            if extra is None: extra = []
            extra.append(ppow(a.args[0], e)); continue
        out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out), extra


_mulcache: dict = {}


def pmul(p: Poly, q: Poly) -> Poly:
    if not p.t or not q.t: return PZERO
    if p.is_const(): return q.scale(p.t[()])
    if q.is_const(): return p.scale(q.t[()])
    key = (p.id, q.id) if p.id < q.id else (q.id, p.id)
    r = _mulcache.get(key)
    if r is not None: return r
    if len(p.t) * len(q.t) > 400000:
        raise Unsupported("polynomial too large")
    d: dict = {}
    rest = None
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m, extra = _mono_mul(m1, m2)
            c = c1 * c2
            if extra is None:
                s = d.get(m)
                if s is None: d[m] = c
                else:
                    s = s + c
                    if s == 0: del d[m]
                    else: d[m] = s
            else:
                t = mkpoly({m: c})
                for x in extra: t = pmul(t, x)
                rest = t if rest is None else rest + t
    r = mkpoly(d)
    if rest is not None: r = r + rest
    if r.pa: r = reduce_pa(r)
    _mulcache[key] = r
    return r


_palead: dict = {}


def _pa_rule(a):
    """lead monomial of q and the rest, for the rewrite  lead * q^-1 -> 1 - rest * q^-1."""
    r = _palead.get(a)
    if r is None:
        q = a.args[0]
        r = ()
        if all(e > 0 for m in q.t for _, e in m) and len(q.t) <= 60:
            m = max(q.t, key=lambda m: (sum(e for _, e in m), sorted(((x.id, e) for x, e in m), reverse=True)))
            if m: r = (dict(m), q.t[m], q - mkpoly({m: q.t[m]}))
        _palead[a] = r
    return r


def reduce_pa(p: Poly) -> Poly:
    """Normal form modulo  q * q^-1 = 1  (q nonzero: recorded by pinv)."""
    for _ in range(60):
        out = None; keep = {}
        for m, c in p.t.items():
            hit = None
            for a, e in m:
                if a.kind == "pa" and e < 0:
                    rule = _pa_rule(a)
                    if not rule: continue
                    dm = dict(m)
                    if all(dm.get(x, 0) >= k for x, k in rule[0].items()):
                        hit = (a, dm, rule); break
            if hit is None: keep[m] = c; continue
            a, dm, (lead, lc, rest) = hit
            for x, k in lead.items(): dm[x] -= k
            base = mkpoly({tuple(sorted(((x, k) for x, k in dm.items() if k), key=lambda y: y[0].id)): c / lc})
            dm[a] += 1
            up = mkpoly({tuple(sorted(((x, k) for x, k in dm.items() if k), key=lambda y: y[0].id)): c / lc})
            t = up - _plainmul(rest, base)
            out = t if out is None else out + t
        if out is None: return p
        p = out + mkpoly(keep)
    return p


def _plainmul(p, q):
    d: dict = {}
    rest = None
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m, extra = _mono_mul(m1, m2)
            if extra is None: d[m] = d.get(m, ZERO) + c1 * c2
            else:
                t = mkpoly({m: c1 * c2})
                for x in extra: t = pmul(t, x)
                rest = t if rest is None else rest + t
    r = mkpoly({m: c for m, c in d.items() if c})
    return r if rest is None else r + rest


def ppow(p: Poly, n) -> Poly:
    if isinstance(n, Poly):
        c = n.const()
        if c is None: raise Unsupported("symbolic exponent")
        n = c
    n = tofrac(n)
    if n.denominator == 2:
        return psqrt(p) ** n.numerator
    if n.denominator != 1:
        return app("pow", (p, P(n)))
    n = int(n)
    if n < 0: return pinv(ppow(p, -n))
    r = PONE
    b = p
    while n:
        if n & 1: r = pmul(r, b)
        n >>= 1
        if n: b = pmul(b, b)
    return r


DIV_LOG: list = []      # denominators met on the current path (definedness side conditions)


def _lead(p: Poly):
    """Deterministic leading coefficient."""
    m = min(p.t, key=lambda m: (len(m), tuple((a.id, e) for a, e in m)))
    return p.t[m]


def pinv(p: Poly) -> Poly:
    if not p.t: raise ZeroDivisionError("division by zero")
    c = p.const()
    if c is not None: return P(1 / c)
    DIV_LOG.append(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(a.kind not in ("ind",) for a, e in m):
            if all(a.kind not in ("sqrt", "pa") for a, e in m):
                return mkpoly({tuple((a, -e) for a, e in m): 1 / c})
            r = P(1 / c)
            for a, e in m:
                if a.kind == "sqrt":
                    r = r * patom(a) * pinv(a.args[0])
                elif a.kind == "pa":
                    r = r * ppow(a.args[0], -e)
                else:
                    r = r * mkpoly({((a, -e),): ONE})
            return r
    # common monomial factor with integer exponents is pulled out
    common = None
    for m in p.t:
        d = dict(m)
        if common is None: common = d
        else:
            nd = {}
            for a in set(common) | set(d):
                e = min(common.get(a, 0), d.get(a, 0))
                if e: nd[a] = e
            common = nd
    common = {a: e for a, e in (common or {}).items() if a.kind not in ("ind",)}
    if common:
        f = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda x: x[0].id))
        q = pmul(p, mkpoly({f: ONE})) if all(a.kind not in ("sqrt", "pa") for a in common) else None
        if q is not None and q is not p:
            return pmul(mkpoly({f: ONE}), pinv(q))
    l = _lead(p)
    q = p.scale(1 / l)
    return mkpoly({((mkatom("pa", (q,)), -1),): 1 / l})


def _frac_sqrt(c: Fraction) -> Fraction | None:
    if c < 0: return None
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator: return Fraction(n, d)
    return None


def psqrt(p: Poly) -> Poly:
    c = p.const()
    if c is not None:
        if c < 0: raise Unsupported("sqrt of negative constant")
        s = _frac_sqrt(c)
        return P(s) if s is not None else P(Fraction(repr(float(c) ** 0.5)))
    l = abs(_lead(p))
    s = _frac_sqrt(l)
    if s is None: s = Fraction(repr(float(l) ** 0.5))
    q = p.scale(1 / l)
    # even common monomial factors come out as |.|
    common = None
    for m in q.t:
        d = dict(m)
        if common is None: common = d
        else:
            common = {a: min(common.get(a, 0), d.get(a, 0)) for a in set(common) & set(d)}
    out = P(s)
    for a, e in list((common or {}).items()):
        if a.kind in ("ind", "pa", "sqrt"): 
            if a.kind == "pa" and e <= -2 and e % 2 == 0:
                q = pmul(q, ppow(a.args[0], -e)) if False else q
            continue
        h = e // 2 if e > 0 else -((-e) // 2)
        if h:
            f = mkpoly({((a, -2 * h),): ONE})
            q = pmul(q, f)
            out = pmul(out, ppow(pabs(patom(a)), h) if h > 0 else pinv(ppow(pabs(patom(a)), -h)))
    if q.is_const():
        return out * psqrt(q)
    return out * patom(mkatom("sqrt", (q,)))


def pabs(p: Poly) -> Poly:
    c = p.const()
    if c is not None: return P(abs(c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(a.kind in ("sqrt", "ind") or (a.kind == "app" and a.args[0] in NONNEG) for a, e in m):
            return p.scale(1 if c > 0 else -1)
    b = mk_le(-p)     # p >= 0
    return ite(b, p, -p)


NONNEG = {"exp"}


# floor ----------------------------------------------------------------------------------------
def split_int(p: Poly):
    """p = i + r with i integer valued (syntactically)."""
    di, dr = {}, {}
    for m, c in p.t.items():
        if m == ():
            f = Fraction(_mfloor(c))
            if f: di[m] = f
            if c - f: dr[m] = c - f
            continue
        if all(a.isint and e > 0 for a, e in m):
            f = Fraction(_mfloor(c))
            if f: di[m] = f
            if c - f: dr[m] = c - f
        else:
            dr[m] = c
    return mkpoly(di), mkpoly(dr)


def pfloor(p: Poly) -> Poly:
    if p.isint: return p
    i, r = split_int(p)
    if not r.t: return i
    lo, hi = bounds(r)
    if lo is not None and hi is not None:
        if _mfloor(lo) == _mfloor(hi): return i + _mfloor(lo)
    if len(r.t) == 1:                  # floor(q/X) with 0 <= q < X
        (m, c), = r.t.items()
        if c == 1 and len(m) == 2 and m[0][1] + m[1][1] == 0:
            q, x = (m[0][0], m[1][0]) if m[0][1] == 1 else (m[1][0], m[0][0])
            if q.kind in ("var", "bv") and q.isint and q.rng is not None and q.rng[0] == PZERO and q.rng[1] is patom(x): return i
    half = Fraction(1, 2)              # floor((q+1)/2) = q - floor(q/2)
    if len(r.t) > 1 and r.t.get(()) == half and all(c == half and all(a.isint and e > 0 for a, e in m) for m, c in r.t.items()):
        q = r - half
        return i + q.scale(Fraction(2)) - pfloor(q)
    return i + patom(mkatom("floor", (r,), True))


def bounds(p: Poly, depth=0):
    """Constant (lower, upper) bounds of p from known atom ranges (None = unknown)."""
    lo = hi = ZERO
    for m, c in p.t.items():
        ml = mh = ONE
        for a, e in m:
            al, ah = atom_bounds(a, depth)
            if e < 0: al = ah = None
            elif e > 1:
                if al is not None and al >= 0 and ah is not None: al, ah = al ** e, ah ** e
                elif al is not None and al >= 0: al, ah = al ** e, None
                elif e % 2 == 0: al, ah = ZERO, None
                else: al = ah = None
            # product interval (nonnegative only, else single factor)
            if len(m) == 1: ml, mh = al, ah
            else:
                if ml is not None and ml >= 0 and al is not None and al >= 0:
                    ml = ml * al
                    mh = mh * ah if (mh is not None and ah is not None) else None
                else: ml = mh = None; break
        if c > 0: tl, th = (ml * c if ml is not None else None), (mh * c if mh is not None else None)
        else: tl, th = (mh * c if mh is not None else None), (ml * c if ml is not None else None)
        lo = None if (lo is None or tl is None) else lo + tl
        hi = None if (hi is None or th is None) else hi + th
        if lo is None and hi is None: return None, None
    return lo, hi


def atom_bounds(a: Atom, depth=0):
    if a.kind == "ind": return ZERO, ONE
    if a.kind == "sqrt": return ZERO, None
    if a.kind == "app":
        if a.args[0] in NONNEG: return ZERO, None
        b = APP_BOUNDS.get(a.args[0])
        if b is not None and depth < 4:
            return (bounds(b[0], depth + 1)[0] if b[0] is not None else None, bounds(b[1], depth + 1)[1] if b[1] is not None else None)
    if a.rng is not None and depth < 4:
        l, h = a.rng
        lo = hi = None
        if l is not None: lo = bounds(l, depth + 1)[0]
        if h is not None:
            hi = bounds(h, depth + 1)[1]
            if hi is not None: hi = hi - 1
        return lo, hi
    if a.kind == "floor":
        lo, hi = bounds(a.args[0], depth + 1) if depth < 4 else (None, None)
        return (None if lo is None else Fraction(_mfloor(lo)), None if hi is None else Fraction(_mfloor(hi)))
    return None, None


def upper(p: Poly, fuel=6):
    """Constant upper bound of p, substituting index variables by their (symbolic) range ends."""
    b = bounds(p)[1]
    if b is not None: return b
    if fuel == 0: return None
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("var", "bv", "app") and m[0][0].rng is not None:
            a = m[0][0]
            # a must occur only linearly on its own
            if any(m2 != m and any(x[0] is a for x in m2) for m2 in p.t): continue
            l, h = a.rng
            if c > 0 and h is not None: q = p + (h - 1 - patom(a)).scale(c)
            elif c < 0 and l is not None: q = p + (l - patom(a)).scale(c)
            else: continue
            if q is p: continue
            r = upper(q, fuel - 1)
            if r is not None and (best is None or r < best): best = r
            if best is not None and best < 0: return best
    return best


# booleans -------------------------------------------------------------------------------------
class B:
    __slots__ = ("kind", "args", "id", "vars", "height")

    def __repr__(self): return bool_str(self)


_bools: dict = {}


def mkB(kind, args):
    key = (kind, args)
    b = _bools.get(key)
    if b is None:
        b = B(); b.kind = kind; b.args = args; b.id = next(_ids)
        vs = frozenset(); h = 0
        it = args
        for x in it:
            if isinstance(x, (Poly, B)):
                vs = vs | x.vars; h = max(h, x.height)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    if isinstance(y, (Poly, B)):
                        vs = vs | y.vars; h = max(h, y.height)
        if kind == "all": h = max(h, args[2])
        b.vars = vs; b.height = h
        _bools[key] = b
    return b


TRUE = mkB("T", ())
FALSE = mkB("F", ())


def bconst(v): return TRUE if v else FALSE


def _norm_pos(p: Poly):
    l = abs(_lead(p))
    return p.scale(1 / l)


def _scale_int(p: Poly):
    """Scale an integer-atom polynomial so that coefficients are coprime integers."""
    from math import gcd
    l = 1
    for c in p.t.values(): l = l * c.denominator // gcd(l, c.denominator)
    q = p.scale(l)
    g = 0
    for m, c in q.t.items(): g = gcd(g, abs(c.numerator))
    return q.scale(Fraction(1, g)) if g > 1 else q


def _all_int_atoms(p: Poly):
    return all(a.isint and e > 0 for m in p.t for a, e in m)


def mk_le(p: Poly) -> B:
    """p <= 0"""
    p = P(p)
    c = p.const()
    if c is not None: return bconst(c <= 0)
    u = upper(p)
    if u is not None and u <= 0: return TRUE
    u = upper(-p)
    if u is not None and u < 0: return FALSE
    if _all_int_atoms(p):
        # integer: sum <= c  -> tighten
        from math import gcd
        c0 = p.t.get((), ZERO)
        q = p - c0
        l = 1
        for c in q.t.values(): l = l * c.denominator // gcd(l, c.denominator)
        q = q.scale(l); c0 = c0 * l
        g = 0
        for c in q.t.values(): g = gcd(g, abs(c.numerator))
        q = q.scale(Fraction(1, g))
        k = Fraction(_mfloor(-c0 / g))      # q <= k
        return mkB("le", (q - k,))
    return mkB("le", (_norm_pos(p),))


def mk_lt(p: Poly) -> B:
    p = P(p)
    if _all_int_atoms(p):
        # p < 0 ; scale to integers then p+1<=0
        q = _scale_int(p) if p.t else p
        if all(c.denominator == 1 for c in q.t.values()):
            return mk_le(q + 1)
    return mk_not(mk_le(-p))


def mk_eq(p: Poly) -> B:
    p = P(p)
    c = p.const()
    if c is not None: return bconst(c == 0)
    u = upper(p)
    if u is not None and u < 0: return FALSE
    u = upper(-p)
    if u is not None and u < 0: return FALSE
    if len(p.t) <= 2:                # the indicator of a condition against a constant
        ms = [m for m in p.t if m]
        if len(ms) == 1 and all(a.kind == "ind" for a, e in ms[0]):
            v = -p.t.get((), ZERO) / p.t[ms[0]]; b = mk_and(*[a.args[0] for a, e in ms[0]])
            return b if v == 1 else mk_not(b) if v == 0 else FALSE
    if _all_int_atoms(p):
        q = _scale_int(p)
        if any(c.denominator != 1 for c in q.t.values()): return FALSE
        c0 = q.t.get((), ZERO)
        if c0:
            from math import gcd
            g = 0
            for m, c in q.t.items():
                if m != (): g = gcd(g, abs(c.numerator))
            if g > 1 and c0 % g != 0: return FALSE
        l = _lead(q)
        return mkB("eq", (q if l > 0 else -q,))
    l = _lead(p)
    return mkB("eq", (p.scale(1 / l),))


def mk_not(b: B) -> B:
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.kind == "not": return b.args[0]
    return mkB("not", (b,))


def mk_and(*bs) -> B:
    s = set()
    for b in bs:
        if b is FALSE: return FALSE
        if b is TRUE: continue
        if b.kind == "and": s |= b.args[0]
        else: s.add(b)
    for b in s:
        if mk_not(b) in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return mkB("and", (frozenset(s),))


def mk_or(*bs) -> B:
    return mk_not(mk_and(*[mk_not(b) for b in bs]))


def mk_implies(a, b): return mk_or(mk_not(a), b)


def bapp(name, args) -> B:
    return mkB("app", (name, tuple(P(a) for a in args)))


def ind(b: B) -> Poly:
    if b is TRUE: return PONE
    if b is FALSE: return PZERO
    k = b.kind
    if k == "not": return PONE - ind(b.args[0])
    if k == "and":
        r = PONE
        for x in sorted(b.args[0], key=lambda x: x.id): r = r * ind(x)
        return r
    return patom(mkatom("ind", (b,), True))


def ite(c: B, a, b) -> Poly:
    a, b = P(a), P(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return b + (a - b) * ind(c)


# binders --------------------------------------------------------------------------------------
def bv(h, rng=None): return patom(mkatom("bv", (h,), True))


def _close(x, v: Poly):
    """Replace variable v in x by the bound variable of the next height; return (x', h)."""
    a = _theatom(v)
    h = x.height + 1
    return _rename(x, a, bv(h)), h


def _theatom(v: Poly) -> Atom:
    (m, c), = v.t.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1
    return m[0][0]


def _open(x, h, v: Poly):
    r = _rename(x, mkatom("bv", (h,), True), v if v.t and len(v.t) == 1 else None)
    return r if r is not None else subst(x, {mkatom("bv", (h,), True): v})


def _isvar(v):
    if len(v.t) != 1: return False
    (m, c), = v.t.items()
    return c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("var", "bv")


class _Ren(dict):
    """Pure renaming variable <-> bound variable: binders need not be reopened."""


def _rename(x, a, v):
    if v is None or not _isvar(v): return None
    return subst(x, _Ren({a: v}))


def _has(x, a: Atom):
    return a in x.vars


def psum(n, f, name="k", unroll=24) -> Poly:
    """Sum_{k<n} f(k)."""
    n = P(n)
    c = n.const()
    if c is not None and c <= unroll:
        r = PZERO
        for i in range(int(c)): r = r + P(f(P(i)))
        return r
    k = fresh(name, True, (PZERO, n))
    return psum_var(n, k, P(f(k)))


def psum_var(n: Poly, k: Poly, body: Poly) -> Poly:
    a = _theatom(k)
    # a dimension that is a multiple of a small constant is split: k = d*q + r
    d = _content(n)
    if d > 1 and d <= 9 and n.const() is None:
        q = fresh("q", True, (PZERO, n.scale(Fraction(1, d))))
        r = PZERO
        for j in range(d):
            r = r + psum_var(n.scale(Fraction(1, d)), q, subst(body, {a: q.scale(d) + j}))
        return r
    res = PZERO
    groups: dict = {}
    for m, c in body.t.items():
        inside, outside = [], []
        for x, e in m:
            (inside if _has(x, a) else outside).append((x, e))
        if not inside:
            res = res + mkpoly({m: c}) * n
            continue
        out = mkpoly({tuple(outside): c})
        res = res + out * _sum1(n, k, tuple(inside))
    return res


def _content(n: Poly) -> int:
    from math import gcd
    g = 0
    for c in n.t.values():
        if c.denominator != 1: return 1
        g = gcd(g, abs(c.numerator))
    return g


_sum1cache: dict = {}


def _sum1(n: Poly, k: Poly, mono) -> Poly:
    a = _theatom(k)
    # one-hot collapse:  [k == e] f(k)
    for x, e in mono:
        if x.kind == "ind" and x.args[0].kind == "eq":
            p = x.args[0].args[0]
            ck = p.t.get(((a, 1),))
            if ck is not None and abs(ck) == 1:
                rest = p - k.scale(ck)
                if not _has(rest, a) and rest.isint:
                    val = -rest.scale(1 / ck)
                    other = mkpoly({tuple(y for y in mono if y[0] is not x): ONE})
                    dom = mk_and(mk_le(-val), mk_lt(val - n))
                    return subst(other, {a: val}) * ind(dom)
    r = _one_block(n, k, mono)
    if r is not None: return r
    c = n.const()
    if c is not None and c <= 24:
        r = PZERO
        for i in range(int(c)): r = r + subst(mkpoly({mono: ONE}), {a: P(i)})
        return r
    # block collapse:  [d*k <= J][J < d*k + d] f(k)   (J free of k)
    r = _block_collapse(n, k, mono)
    if r is not None: return r
    body = mkpoly({mono: ONE})
    b2, h = _close(body, k)
    return patom(mkatom("sum", (n, b2, h), body.isint))


def _one_block(n, k, mono):
    """Sum_{k < X*M} [floor(k/X) = e] f(k)  =  [0 <= e < M] Sum_{q<X} f(e*X + q)."""
    a = _theatom(k)
    for x, _ in mono:
        if x.kind != "ind" or x.args[0].kind != "eq": continue
        p = x.args[0].args[0]
        for m, c in p.t.items():
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1 or m[0][0].kind != "floor": continue
            arg = m[0][0].args[0]
            if len(arg.t) != 1: continue
            (am, ac), = arg.t.items()
            if ac != 1 or len(am) != 2 or (a, 1) not in am: continue
            X, e = next(y for y in am if y[0] is not a)
            if e != -1 or not X.isint: continue
            rest = p - mkpoly({m: c})
            if _has(rest, a) or not rest.isint: continue
            val = -rest.scale(1 / c); px = patom(X)
            M = n * mkpoly({((X, -1),): ONE})
            if X in M.vars: continue
            other = mkpoly({tuple(y for y in mono if y[0] is not x): ONE})
            dom = ind(mk_and(mk_le(-val), mk_lt(val - M)))
            return dom * psum(px, lambda q: subst(other, {a: val * px + q}))
    return None


def _block_collapse(n, k, mono):
    a = _theatom(k)
    los = []; his = []
    for x, e in mono:
        if x.kind == "ind" and x.args[0].kind == "le":
            p = x.args[0].args[0]
            ck = p.t.get(((a, 1),))
            if ck is None: continue
            rest = p - k.scale(ck)
            if _has(rest, a) or not rest.isint or ck.denominator != 1: continue
            (los if ck > 0 else his).append((x, ck, rest))
    for lx, lc, lr in los:
        for hx, hc, hr in his:
            if hc == -lc and hr == -lr - lc + 1 and lc > 0:
                # lc*k + lr <= 0 and -lc*k - lr - lc + 1 <= 0  =>  k = floor(-lr/lc)
                val = pfloor(-lr.scale(1 / lc))
                other = mkpoly({tuple(y for y in mono if y[0] is not lx and y[0] is not hx): ONE})
                dom = mk_and(mk_le(-val), mk_lt(val - n))
                return subst(other, {a: val}) * ind(dom)
    return None


def forall(n, f, name="k") -> B:
    n = P(n)
    c = n.const()
    if c is not None and c <= 64:
        return mk_and(*[f(P(i)) for i in range(int(c))])
    k = fresh(name, True, (PZERO, n))
    body = f(k)
    if body is TRUE: return TRUE
    if not _has(body, _theatom(k)):
        return mk_or(mk_le(n), body)
    if body.kind == "and":
        return mk_and(*[_forall1(n, k, x) for x in body.args[0]])
    return _forall1(n, k, body)


def _forall1(n, k, body):
    if not _has(body, _theatom(k)):
        return mk_or(mk_le(n), body)
    b2, h = _close(body, k)
    return mkB("all", (n, b2, h))


def exists(n, f, name="k") -> B:
    return mk_not(forall(n, lambda k: mk_not(f(k)), name))


def open_all(b: B, val: Poly) -> B:
    n, body, h = b.args
    return _open(body, h, val)


def pred(kind, n, f, name="k") -> Poly:
    """Reduction binder (max, min, argmax, ...): opaque, identified up to alpha-equivalence."""
    n = P(n)
    k = fresh(name, True, (PZERO, n))
    body = P(f(k))
    b2, h = _close(body, k)
    return patom(mkatom("red", (n, b2, h, kind), kind.startswith("arg")))


# substitution ---------------------------------------------------------------------------------
def subst(x, mp: dict):
    """Substitute atoms (var/bv) by polynomials."""
    cache: dict = {}
    keys = set(mp)
    isbv = any(a.kind == "bv" for a in keys)
    return _subst(x, mp, keys, isbv, cache)


def _relevant(x, keys, isbv):
    if isbv: return True
    vs = x.vars
    if not vs: return False
    for a in keys:
        if a in vs: return True
    return False


def _subst(x, mp, keys, isbv, cache):
    if isbv:
        if x.height == 0: return x
    elif not _relevant(x, keys, False): return x
    r = cache.get(x)
    if r is not None: return r
    if isinstance(x, Poly):
        rs = []
        same = {}
        for m, c in x.t.items():
            touched = False
            for a, e in m:
                if (isbv and a.height) or (not isbv and _relevant(a, keys, False)):
                    touched = True; break
            if not touched:
                same[m] = c; continue
            t = P(c)
            for a, e in m:
                if (isbv and a.height) or (not isbv and _relevant(a, keys, False)):
                    t = t * ppow(_subst_atom(a, mp, keys, isbv, cache), e)
                else:
                    t = t * mkpoly({((a, e),): ONE})
            rs.append(t)
        if same: rs.append(mkpoly(same))
        r = rs[0] if len(rs) == 1 else psum_of(rs)
    else:
        r = _subst_b(x, mp, keys, isbv, cache)
    cache[x] = r
    return r


def _subst_atom(a: Atom, mp, keys, isbv, cache) -> Poly:
    if a in mp: return mp[a]
    if a.kind in ("var", "bv"): return patom(a)
    r = cache.get(a)
    if r is not None: return r
    S = lambda y: _subst(y, mp, keys, isbv, cache)
    k = a.kind
    if k == "app":
        r = patom(mkatom("app", (a.args[0], tuple(S(y) for y in a.args[1])), a.isint))
        r = simp_app(r)
    elif k == "floor": r = pfloor(S(a.args[0]))
    elif k == "ind": r = ind(S(a.args[0]))
    elif k == "sqrt": r = psqrt(S(a.args[0]))
    elif k == "pa":
        r = S(a.args[0])            # callers raise to the (negative) exponent
    elif k == "sum":
        n, body, h = a.args
        n2 = S(n)
        if isinstance(mp, _Ren):
            r = patom(mkatom("sum", (n2, S(body), h), a.isint))
            cache[a] = r
            return r
        v = fresh("k", True, (PZERO, n2))
        b2 = _open(body, h, v)
        b2 = subst(b2, mp)
        c = n2.const()
        if c is not None and c <= 24:
            r = PZERO
            for i in range(int(c)): r = r + subst(b2, {_theatom(v): P(i)})
        else:
            r = psum_var(n2, v, b2)
    elif k == "red":
        n, body, h, kind = a.args
        n2 = S(n)
        if isinstance(mp, _Ren):
            r = patom(mkatom("red", (n2, S(body), h, kind), a.isint))
            cache[a] = r
            return r
        v = fresh("k", True, (PZERO, n2))
        b2 = subst(_open(body, h, v), mp)
        b3, h3 = _close(b2, v)
        r = patom(mkatom("red", (n2, b3, h3, kind), a.isint))
    else:
        raise Unsupported(f"subst in {k}")
    cache[a] = r
    return r


SIMP_APP: dict = {}


def simp_app(p: Poly) -> Poly:
    (m, c), = p.t.items()
    a = m[0][0]
    f = SIMP_APP.get(a.args[0])
    if f is None: return p
    r = f(*a.args[1])
    return p if r is None else r


def _subst_b(b: B, mp, keys, isbv, cache) -> B:
    S = lambda y: _subst(y, mp, keys, isbv, cache)
    k = b.kind
    if k in ("T", "F"): return b
    if k == "le": return mk_le(S(b.args[0]))
    if k == "eq": return mk_eq(S(b.args[0]))
    if k == "not": return mk_not(S(b.args[0]))
    if k == "and": return mk_and(*[S(x) for x in b.args[0]])
    if k == "app": return mkB("app", (b.args[0], tuple(S(x) for x in b.args[1])))
    if k == "all":
        n, body, h = b.args
        n2 = S(n)
        if isinstance(mp, _Ren):
            return mkB("all", (n2, S(body), h))
        v = fresh("k", True, (PZERO, n2))
        b2 = subst(_open(body, h, v), mp)
        c = n2.const()
        if c is not None and c <= 64:
            return mk_and(*[subst(b2, {_theatom(v): P(i)}) for i in range(int(c))])
        if b2 is TRUE: return TRUE
        if b2.kind == "and": return mk_and(*[_forall1(n2, v, y) for y in b2.args[0]])
        return _forall1(n2, v, b2)
    raise Unsupported(f"subst in bool {k}")


# functions ------------------------------------------------------------------------------------
def pexp(p: Poly) -> Poly:
    if not p.t: return PONE
    return app("exp", (p,))


SIMP_APP["exp"] = lambda x: PONE if not x.t else None


def uf(name, *args):
    return app(name, args)


# printing -------------------------------------------------------------------------------------
def cstr(c):
    return str(c.numerator) if c.denominator == 1 else (str(c) if c.denominator < 10 ** 4 else repr(float(c)))


def atom_str(a: Atom, d=0):
    if d > 6: return "…"
    k = a.kind
    if k == "var": return a.args[0]
    if k == "bv": return f"#{a.args[0]}"
    if k == "app": return f"{a.args[0]}[{','.join(poly_str(x, d+1) for x in a.args[1])}]"
    if k == "sum": return f"Σ(#{a.args[2]}<{poly_str(a.args[0], d+1)}: {poly_str(a.args[1], d+1)})"
    if k == "red": return f"{a.args[3]}(#{a.args[2]}<{poly_str(a.args[0], d+1)}: {poly_str(a.args[1], d+1)})"
    if k == "ind": return f"[{bool_str(a.args[0], d+1)}]"
    if k == "pa": return f"({poly_str(a.args[0], d+1)})"
    return f"{k}({', '.join(poly_str(x, d+1) if isinstance(x, Poly) else str(x) for x in a.args)})"


def poly_str(p: Poly, d=0):
    if not p.t: return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda x: (len(x[0]), tuple(a.id for a, e in x[0])))):
        if i > 12: out.append(f"…({len(p.t)} terms)"); break
        s = "·".join(atom_str(a, d) + (f"^{e}" if e != 1 else "") for a, e in m)
        if not s: out.append(cstr(c))
        elif c == 1: out.append(s)
        elif c == -1: out.append("-" + s)
        else: out.append(cstr(c) + "·" + s)
    return " + ".join(out).replace("+ -", "- ")


def bool_str(b: B, d=0):
    k = b.kind
    if k == "T": return "true"
    if k == "F": return "false"
    if k == "le": return poly_str(b.args[0], d) + " ≤ 0"
    if k == "eq": return poly_str(b.args[0], d) + " = 0"
    if k == "not":
        x = b.args[0]
        if x.kind == "le": return poly_str(x.args[0], d) + " > 0"
        if x.kind == "eq": return poly_str(x.args[0], d) + " ≠ 0"
        return "¬(" + bool_str(x, d) + ")"
    if k == "and": return " ∧ ".join(sorted("(" + bool_str(x, d) + ")" for x in b.args[0]))
    if k == "app": return f"{b.args[0]}[{','.join(poly_str(x, d+1) for x in b.args[1])}]"
    if k == "all": return f"∀#{b.args[2]}<{poly_str(b.args[0], d+1)}: {bool_str(b.args[1], d+1)}"
    return k
