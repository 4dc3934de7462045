"""Symbolic text: formatted numbers, arbitrary words, repetitions, and line-structured contents.

Part kinds of a Rope: str; Fmt(v, spec), the text of a value (blanks, then one token without blanks);
Word(name, raw), an arbitrary text (raw: may contain line breaks and blanks); Rep(n, at), at(0)+...+at(n-1).
Assumed: float(format(v, ".<d>f")) is v rounded to d decimals; repr() of a string has no line break and a quote at either end."""
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from .sym import E, Unsupported, Num, Bl, topoly, wrap, unbool, tob
from .values import PList, Seg, Rope, Fmt, norm_segs


class Word:
    """An arbitrary text; without line breaks unless raw."""
    __slots__ = ("name", "raw", "id")
    def __init__(self, name, raw=False, id=None): self.name, self.raw, self.id = name, raw, id
    def atomic(self): return False
    def __repr__(self): return f"<{self.name}>"


class Hole:
    """The text a loop has accumulated so far."""
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def atomic(self): return False


class Rep:
    __slots__ = ("n", "at")
    def __init__(self, n, at): self.n, self.at = P(n), at
    def atomic(self): return False


def parts(x): return [x] if isinstance(x, str) else list(x.parts)


def rep(n, at):
    n = P(n); c = n.const()
    if c is not None: return Rope.make([at(P(i)) for i in range(int(c))])
    return Rope.make([Rep(n, at)])


def subst_part(p, f):
    if isinstance(p, Fmt): return Fmt(f(p.v), p.spec)
    if isinstance(p, Word) and p.id is not None: return Word(p.name, p.raw, f.term(p.id))
    if isinstance(p, Rep): return Rep(f.term(p.n), lambda k: f(p.at(k)))
    return p


def has_hole(x, h):
    for p in parts(x):
        if p is h: return True
        if isinstance(p, Rep) and has_hole(p.at(T.fresh("q", True, (PZERO, p.n))), h): return True
    return False


DEC = re.compile(r"^[<>]?\s?\d*\.(\d+)f$")


def parse_float(x):
    if not isinstance(x, Rope): return float(x)
    ps = [p.strip() if isinstance(p, str) else p for p in x.parts]
    ps = [p for p in ps if p != ""]
    if len(ps) == 1 and isinstance(ps[0], Fmt):
        v, spec = ps[0].v, ps[0].spec
        m = DEC.match(spec)
        if m and isinstance(v, Num):
            s = 10 ** int(m.group(1))
            return wrap(pfloor(topoly(v).scale(s) + Fraction(1, 2)).scale(Fraction(1, s)), "float")
        if isinstance(v, Num) and spec == "" and topoly(v).isint: return wrap(topoly(v), "float")
    raise Unsupported("number from symbolic text")


def parse_int(x):
    ps = [p.strip() if isinstance(p, str) else p for p in x.parts]
    ps = [p for p in ps if p != ""]
    if len(ps) == 1 and isinstance(ps[0], Fmt) and isinstance(ps[0].v, Num) and topoly(ps[0].v).isint and ps[0].spec in ("", "d"): return wrap(topoly(ps[0].v), "int")
    raise Unsupported("integer from symbolic text")


def lines(x):
    """(list of Ropes/str without their line ends, as a PList of possibly symbolic length; the unfinished rest)."""
    segs = []; cur = []
    def one(t): segs.append(Seg(vals=[t]))
    for p in parts(x):
        if isinstance(p, str):
            bits = p.split("\n")
            for b in bits[:-1]: cur.append(b); one(Rope.make(cur)); cur = []
            if bits[-1]: cur.append(bits[-1])
        elif isinstance(p, Fmt): cur.append(p)
        elif isinstance(p, Word):
            if p.raw: raise Unsupported("text with unknown line breaks")
            cur.append(p)
        elif isinstance(p, Rep):
            if cur: raise Unsupported("repeated text that starts inside a line")
            ls, rest = lines(p.at(T.fresh("q", True, (PZERO, p.n))))
            if rest != "" or not ls.is_concrete_len(): raise Unsupported("repeated text that is not made of lines")
            m = len(ls)
            if m == 1: segs.append(Seg(p.n, at=lambda k, p=p: lines(p.at(k))[0].get(0)))
            elif m: raise Unsupported("repeated text of several lines")
        else: raise Unsupported("lines of a partial text")
    return PList.of_segs(norm_segs(segs)), Rope.make(cur)


# arbitrary text ------------------------------------------------------------------------------------
# A text nothing is known about is an integer term, its identity; what the program can observe of it
# (its blank-separated tokens, whether it is a number and which, whether it contains some text) are
# uninterpreted functions of the identity.  Literal texts have known identities; "" is 0.
CODES = {"": 0}


def code(s): return CODES.setdefault(s, -len(CODES))


def setup():
    T.APP_RNG.update({"ntok": (PZERO, None), "textlen": (PZERO, None)})


class OText:
    _is_sym_ = True
    __slots__ = ("id",)
    def __init__(self, id): self.id = P(id)

    def _f(self, name, *a): return app(name, (self.id,) + a, True)

    def empty(self): return mk_eq(self.id)

    def vc_len(self):
        if not T.APP_RNG.get("textlen"): setup()
        n = self._f("textlen"); e = self.empty()
        E.assume_once(mk_or(mk_not(e), mk_eq(n))); E.assume_once(mk_or(e, mk_le(1 - n)))
        return wrap(n, "int")

    def vc_truth(self): return not E.decide(self.empty())

    def nonempty(self): return E.decide(mk_not(self.empty()))

    def split(self, sep=None, maxsplit=-1):
        if not T.APP_RNG.get("textlen"): setup()
        if maxsplit != -1: raise Unsupported("split with a limit")
        if sep is None:
            n = self._f("ntok")
            E.assume_once(mk_or(mk_not(self.empty()), mk_eq(n)))
            return PList.build(n, lambda j: self.token(j))
        if not isinstance(sep, str) or not sep: raise Unsupported("split on symbolic text")
        n = self._f(f"nsplit:{sep}"); E.assume_once(mk_le(1 - n))
        return PList.build(n, lambda j: OText(self._f(f"split:{sep}", P(j))))

    def token(self, j):
        t = OText(self._f("tok", P(j)))
        E.assume_once(mk_not(t.empty()))
        return t

    def strip(self, chars=None):
        r = OText(self._f("strip" if chars is None else f"strip:{chars}"))
        E.assume_once(mk_or(mk_not(self.empty()), r.empty()))
        return r

    def lstrip(self, chars=None): return OText(self._f(f"lstrip:{chars}"))
    def rstrip(self, chars=None): return OText(self._f(f"rstrip:{chars}"))
    def lower(self): return OText(self._f("lower"))
    def upper(self): return OText(self._f("upper"))
    def replace(self, a, b): return OText(self._f(f"replace:{a}:{b}"))
    def startswith(self, s): return unbool(T.bapp(f"starts:{s}", (self.id,)))
    def endswith(self, s): return unbool(T.bapp(f"ends:{s}", (self.id,)))
    def isdigit(self): return unbool(T.bapp("isdigit", (self.id,)))
    def isspace(self): return unbool(T.bapp("isspace", (self.id,)))

    def vc_contains(self, s):
        if not isinstance(s, str): raise Unsupported("in with symbolic text")
        if s == "": return True
        h = T.bapp(f"has:{s}", (self.id,))
        E.assume_once(mk_or(mk_not(self.empty()), mk_not(h)))
        return unbool(h)

    def vc_getitem(self, k):
        if isinstance(k, int):
            n = topoly(self.vc_len())
            if not E.decide(mk_le((k + 1 if k >= 0 else -k) - n)): raise IndexError("string index out of range")
            r = OText(self._f(f"char:{k}")); E.assume_once(mk_not(r.empty())); return r
        if isinstance(k, slice) and k.start in (None, 0) and k.stop == 1 and k.step is None:
            return self.vc_getitem(0) if self.nonempty() else ""
        if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)): return OText(self._f(f"cut:{k.start}:{k.stop}:{k.step}"))
        raise Unsupported("index of symbolic text")

    def vc_float(self):
        if not E.decide(mk_and(T.bapp("isnum", (self.id,)), mk_not(self.empty()))): raise ValueError("could not convert string to float")
        return Num(app("num", (self.id,)), "float")

    def vc_int(self):
        if not E.decide(mk_and(T.bapp("isintlit", (self.id,)), mk_not(self.empty()))): raise ValueError("invalid literal for int()")
        return Num(app("intval", (self.id,), True), "int")

    def vc_isinstance(self, cls): return issubclass(str, cls)
    def vc_subst(self, s): return OText(s.term(self.id))
    def __hash__(self): return id(self)

    def __eq__(self, o):
        if isinstance(o, str): return unbool(mk_eq(self.id - code(o)))
        if isinstance(o, OText): return unbool(mk_eq(self.id - o.id))
        if isinstance(o, Rope): raise Unsupported("comparison of symbolic text")
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else unbool(mk_not(r.b))

    def __bool__(self): return self.vc_truth()
    def __getattr__(self, name):
        if hasattr(str, name): raise Unsupported(f"str.{name} of symbolic text")
        raise AttributeError(f"'str' object has no attribute '{name}'")
    def __repr__(self): return "<text>"
    def part(self): return Word("text", True, self.id)

    def vc_key(self, d):
        """Is the text a key of a native dict, and the value then (numbers only)."""
        k = DICTS.setdefault(id(d), (f"dict{len(DICTS)}", d))[0]
        keys = frozenset(d)
        kin = KEYSETS.setdefault(keys, f"keys{len(KEYSETS)}")
        h = T.bapp(kin, (self.id,))
        E.assume_once(mk_or(mk_not(self.empty()), mk_not(h)))
        vals = list(d.values())
        if not all(isinstance(v, (int, float)) for v in vals): raise Unsupported("dict of non-numbers")
        isint = all(isinstance(v, int) for v in vals)
        v = app(f"{k}", (self.id,), isint)
        lo, hi = min(vals), max(vals)
        E.assume_once(mk_or(mk_not(h), mk_and(mk_le(Fraction(lo) - v), mk_le(v - Fraction(hi)))))
        return h, Num(v, "int" if isint else "float")


class KText(OText):
    """d[k], the text a native dict of texts holds for a number that is one of its keys."""
    __slots__ = ("d", "k")
    def __init__(self, d, k):
        DICTS.setdefault(id(d), (f"dict{len(DICTS)}", d)); self.d, self.k = d, P(k)
        self.id = app("text of " + DICTS[id(d)][0], (self.k,), True)
        E.assume_once(mk_not(mk_eq(self.id)))

    @staticmethod
    def fits(d):
        """Numbers to non-empty texts without blanks, all different."""
        vs = list(d.values())
        return len(d) > 8 and all(type(k) is int for k in d) and all(type(v) is str and v and not any(c.isspace() for c in v) for v in vs) and len(set(vs)) == len(vs)

    def vc_subst(self, s): return KText(self.d, s.term(self.k))
    def part(self): return Fmt(self, "")
    def strip(self, chars=None): return self if chars is None else OText.strip(self, chars)
    def split(self, sep=None, maxsplit=-1): return PList([self]) if sep is None and maxsplit == -1 else OText.split(self, sep, maxsplit)

    def vc_key(self, d):
        if not all(v in d for v in self.d.values()): return OText.vc_key(self, d)
        if all(d[v] == k for k, v in self.d.items()): return TRUE, Num(self.k, "int")
        return TRUE, OText.vc_key(self, d)[1]

    def __eq__(self, o):
        if isinstance(o, KText) and o.d is self.d: return unbool(mk_eq(self.k - o.k))
        if isinstance(o, str):
            ks = [k for k, v in self.d.items() if v == o]
            return unbool(mk_eq(self.k - ks[0])) if ks else False
        return OText.__eq__(self, o)
    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else unbool(mk_not(r.b))
    def __hash__(self): return id(self)


DICTS = {}
KEYSETS = {}


def text_in(content, x):
    """content in x, for a text with symbolic parts."""
    if not isinstance(content, str): raise Unsupported("in with symbolic text")
    ps = parts(x)
    if any(isinstance(p, str) and content in p for p in ps): return True
    if any(not isinstance(p, (str, Fmt, Word)) or isinstance(p, Word) and getattr(p, "id", None) is None for p in ps): raise Unsupported("in on symbolic text")
    if any(isinstance(p, Word) for p in ps):
        h = T.bapp(f"has:{content}", tuple(p.id for p in ps if isinstance(p, Word)) + (P(code("|".join(p if isinstance(p, str) else "?" for p in ps))),))
        return unbool(h)
    if any(c.isdigit() or c.isspace() for c in content): raise Unsupported("in on symbolic text")
    return False
