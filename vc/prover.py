"""Discharges obligations: normal forms, denominator clearing, case splits, then z3 (SMT)."""
from __future__ import annotations
import sys, time, math
from fractions import Fraction
from .terms import *
from .terms import _theatom, _subst, _has
from . import terms as T

try:
    import z3
except ImportError:                                     # the z3 bindings live in the tool venv
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

TOL = Fraction(1, 10 ** 9)
STATS = {"normal-form": 0, "z3": 0, "case-split": 0, "z3_s": 0.0, "z3_calls": 0}


def replace_atoms(x, mp):
    """Replace arbitrary atoms (not only variables) everywhere in x."""
    cache = {}

    def rp(x):
        r = cache.get(x)
        if r is not None: return r
        if isinstance(x, Poly):
            rs = []; same = {}
            for m, c in x.t.items():
                t = P(c); changed = False
                parts = []
                for a, e in m:
                    q = ra(a)
                    parts.append((q, e, a))
                    if q is not None: changed = True
                if not changed: same[m] = c; continue
                for q, e, a in parts:
                    t = t * (mkpoly({((a, e),): Fraction(1)}) if q is None else ppow(q, e))
                rs.append(t)
            if same: rs.append(mkpoly(same))
            r = rs[0] if len(rs) == 1 else T.psum_of(rs)
        else:
            k = x.kind
            if k in ("T", "F"): r = x
            elif k == "le": r = mk_le(rp(x.args[0]))
            elif k == "eq": r = mk_eq(rp(x.args[0]))
            elif k == "not": r = mk_not(rp(x.args[0]))
            elif k == "and": r = mk_and(*[rp(y) for y in x.args[0]])
            elif k == "app": r = T.mkB("app", (x.args[0], tuple(rp(y) for y in x.args[1])))
            else: r = x
        cache[x] = r
        return r

    def ra(a):
        if a in mp: return mp[a]
        k = a.kind
        if k in ("var", "bv", "sum", "red"): return None
        if k == "app":
            args = tuple(rp(y) for y in a.args[1])
            if args == a.args[1]: return None
            return T.simp_app(patom(mkatom("app", (a.args[0], args), a.isint)))
        if k == "floor":
            b = rp(a.args[0]); return None if b is a.args[0] else pfloor(b)
        if k == "ind":
            b = rp(a.args[0]); return None if b is a.args[0] else ind(b)
        if k == "sqrt":
            b = rp(a.args[0]); return None if b is a.args[0] else psqrt(b)
        if k == "pa":
            b = rp(a.args[0]); return None if b is a.args[0] else b
        return None
    return rp(x)


def atoms_of(x, acc=None, deep=True):
    if acc is None: acc = set()
    seen = set()

    def go(x):
        if x in seen: return
        seen.add(x)
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m: ga(a)
        else:
            for y in x.args:
                if isinstance(y, (Poly, B)): go(y)
                elif isinstance(y, (tuple, frozenset)):
                    for z in y:
                        if isinstance(z, (Poly, B)): go(z)

    def ga(a):
        if a in acc: return
        acc.add(a)
        if not deep or a.kind in ("sum", "red"): return
        for y in a.args:
            if isinstance(y, (Poly, B)): go(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, (Poly, B)): go(z)
    go(x)
    return acc


def close_enough(a: Poly, b: Poly) -> bool:
    d = a - b
    if not d.t: return True
    for m, c in d.t.items():
        ref = max(abs(a.t.get(m, 0)), abs(b.t.get(m, 0)))
        if abs(c) > TOL * ref: return False
    return True


def clear_denoms(p: Poly) -> Poly:
    """Multiply by all denominators (their non-zeroness is a recorded assumption)."""
    for _ in range(12):
        den = {}
        for m in p.t:
            for a, e in m:
                if e < 0: den[a] = min(den.get(a, 0), e)
        if not den: return p
        a = min(den, key=lambda a: (0 if a.kind == "pa" else 1, -a.id))
        e = -den[a]
        # multiply every monomial by a^e
        r = []
        for m, c in p.t.items():
            d = dict(m)
            k = d.pop(a, 0) + e
            rest = tuple(sorted(d.items(), key=lambda x: x[0].id))
            base = mkpoly({rest: c})
            if k == 0: r.append(base)
            elif a.kind == "pa": r.append(base * ppow(a.args[0], k))
            else: r.append(base * mkpoly({((a, k),): Fraction(1)}))
        p = T.psum_of(r)
    return p


def approx_zero(p: Poly, scale: Fraction) -> bool:
    return all(abs(c) <= TOL * scale for c in p.t.values())


# ---------------------------------------------------------------------------------------------
class Z3Ctx:
    def __init__(self):
        self.consts = {}; self.funs = {}; self.memo = {}; self.side = []; self.bmemo = {}
        self.amemo = {}

    def sort(self, isint): return z3.IntSort() if isint else z3.RealSort()

    def poly(self, p: Poly):
        """z3 expression of sort Int if p.isint else Real."""
        r = self.memo.get(p)
        if r is not None: return r
        isint = p.isint
        terms = []
        for m, c in p.t.items():
            fs = []
            for a, e in m:
                x = self.atom(a)
                if e < 0:
                    x = self.recip(a); e = -e
                elif not isint and a.isint: x = z3.ToReal(x)
                fs += [x] * e
            if isint: cc = z3.IntVal(int(c))
            else: cc = z3.RealVal(f"{c.numerator}/{c.denominator}" if c.denominator != 1 else str(c.numerator))
            t = cc
            if fs:
                t = fs[0]
                for f in fs[1:]: t = t * f
                if c != 1: t = cc * t
            terms.append(t)
        r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else (z3.IntVal(0) if isint else z3.RealVal(0)))
        self.memo[p] = r
        return r

    def real(self, p):
        e = self.poly(p)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def recip(self, a):
        key = ("recip", a)
        r = self.amemo.get(key)
        if r is None:
            r = z3.Real(f"recip_{a.id}")
            self.amemo[key] = r
            base = self.real(a.args[0]) if a.kind == "pa" else (z3.ToReal(self.atom(a)) if a.isint else self.atom(a))
            self.side.append(z3.Implies(base != 0, r * base == 1))
        return r

    def atom(self, a: Atom):
        r = self.amemo.get(a)
        if r is not None: return r
        k = a.kind
        if k == "var":
            r = z3.Int(a.args[0]) if a.isint else z3.Real(a.args[0])
            if a.rng is not None:
                self.amemo[a] = r
                lo, hi = a.rng
                if lo is not None: self.side.append(r >= self.poly(lo))
                if hi is not None: self.side.append(r < self.poly(hi))
        elif k == "bv":
            r = z3.Int(f"bv_{a.args[0]}")
        elif k == "app":
            args = a.args[1]
            if not args:
                r = z3.Int(a.args[0]) if a.isint else z3.Real(a.args[0])
            else:
                key = (a.args[0], tuple(x.isint for x in args), a.isint)
                f = self.funs.get(key)
                if f is None:
                    f = z3.Function(f"{a.args[0]}/{''.join('i' if i else 'r' for i in key[1])}",
                                    *[self.sort(i) for i in key[1]], self.sort(a.isint))
                    self.funs[key] = f
                r = f(*[self.poly(x) for x in args])
                if a.args[0] == "exp":
                    x = self.real(args[0])
                    self.side.append(r > 0)
                    self.side.append(z3.And(z3.Implies(x > 0, r > 1), z3.Implies(x < 0, r < 1), z3.Implies(x == 0, r == 1)))
                bd = T.APP_BOUNDS.get(a.args[0])
                if bd is not None:
                    self.amemo[a] = r
                    if bd[0] is not None: self.side.append(self.real(bd[0]) <= r)
                    if bd[1] is not None: self.side.append(r <= self.real(bd[1]))
                rg = a.rng
                if rg is not None:
                    self.amemo[a] = r
                    if rg[0] is not None: self.side.append(self.poly(rg[0]) <= r)
                    if rg[1] is not None: self.side.append(r < self.poly(rg[1]))
                ax = APP_AXIOMS.get(a.args[0])
                if ax is not None:
                    self.amemo[a] = r
                    for b in ax(*args): self.side.append(self.bool(b))
        elif k == "floor":
            x = self.real(a.args[0])
            r = z3.Int(f"floor_{a.id}")
            den = 1
            for c in a.args[0].t.values(): den = den * c.denominator // math.gcd(den, c.denominator)
            ip = a.args[0].scale(Fraction(den))
            if ip.isint:
                y = self.poly(ip)
                self.side.append(den * r <= y); self.side.append(y < den * r + den)
            else:
                self.side.append(z3.ToReal(r) <= x); self.side.append(x < z3.ToReal(r) + 1)
                qX = quotient(a.args[0])
                if qX is not None:          # r = floor(q/X): division with remainder
                    q, X, M = qX; zq, zX = self.poly(patom(q)), self.poly(patom(X))
                    self.side.append(z3.Implies(zX > 0, z3.And(zX * r <= zq, zq < zX * r + zX)))
                    if M is not None: self.side.append(z3.Implies(zX > 0, z3.And(r >= 0, r <= self.poly(M) - 1)))
        elif k == "ind":
            r = z3.If(self.bool(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        elif k == "sqrt":
            r = z3.Real(f"sqrt_{a.id}")
            b = self.real(a.args[0])
            self.side.append(r >= 0)
            self.side.append(z3.Implies(b >= 0, r * r == b))
            self.side.append((r == 0) == (b <= 0))
        elif k in ("sum", "red"):
            r = z3.Int(f"{k}_{a.id}") if a.isint else z3.Real(f"{k}_{a.id}")
        elif k == "pa":
            r = self.real(a.args[0])
        else:
            raise Unsupported(f"z3 {k}")
        self.amemo[a] = r
        return r

    def bool(self, b: B):
        r = self.bmemo.get(b)
        if r is not None: return r
        k = b.kind
        if k == "T": r = z3.BoolVal(True)
        elif k == "F": r = z3.BoolVal(False)
        elif k == "le": r = self.poly(b.args[0]) <= 0
        elif k == "eq": r = self.poly(b.args[0]) == 0
        elif k == "not": r = z3.Not(self.bool(b.args[0]))
        elif k == "and": r = z3.And(*[self.bool(x) for x in b.args[0]])
        elif k == "app":
            args = b.args[1]
            if not args: r = z3.Bool(b.args[0])
            else:
                key = (b.args[0], tuple(x.isint for x in args), "b")
                f = self.funs.get(key)
                if f is None:
                    f = z3.Function(f"{b.args[0]}/b{len(args)}", *[self.sort(i) for i in key[1]], z3.BoolSort())
                    self.funs[key] = f
                r = f(*[self.poly(x) for x in args])
        elif k == "all":
            r = z3.Bool(f"all_{b.id}")
        else: raise Unsupported(k)
        self.bmemo[b] = r
        return r


APP_AXIOMS: dict = {}


_apps: dict = {}


def apps_of(x):
    """(name, args) of every application in x, also inside sums and under quantifiers."""
    r = _apps.get(x)
    if r is not None: return r
    out = {}; seen = set()

    def go(y):
        if isinstance(y, (tuple, frozenset)):
            for z in y: go(z)
            return
        if not isinstance(y, (Poly, B, T.Atom)) or y in seen: return
        seen.add(y)
        if isinstance(y, Poly):
            for m in y.t:
                for a, e in m: go(a)
            return
        if y.kind == "app": out[y.args[0], y.args[1]] = None
        for z in y.args: go(z)
    go(x)
    r = _apps[x] = list(out)
    return r


def quotient(p):
    """p = q/X with integer atoms q and X; with 0 <= q < X*M where the range of q says so."""
    if len(p.t) != 1: return None
    (m, c), = p.t.items()
    if c != 1 or len(m) != 2 or m[0][1] + m[1][1] != 0 or abs(m[0][1]) != 1: return None
    q, X = (m[0][0], m[1][0]) if m[0][1] == 1 else (m[1][0], m[0][0])
    if not q.isint or not X.isint: return None
    M = None
    if q.kind == "var" and q.rng is not None and q.rng[0] == PZERO and q.rng[1] is not None:
        M = q.rng[1] * mkpoly({((X, -1),): Fraction(1)})
        if X in M.vars or not M.isint: M = None
    return q, X, M


def index_terms(xs):
    """Integer terms used as application arguments (instantiation candidates), also by position."""
    out = set(); at = {}
    for x in xs:
        for nm, args in apps_of(x):
            for i, y in enumerate(args):
                if y.isint and closed(y): out.add(y); at.setdefault((nm, i), {})[y] = None
        for a in atoms_of(x):
            if a.kind == "var" and a.isint: out.add(patom(a))
    return out, at


_closed: dict = {}


def closed(x):
    """No bound variable occurs free."""
    if x.height == 0: return True
    r = _closed.get(x)
    if r is None: r = _closed[x] = not free_bvs(x, {})
    return r


def free_bvs(x, memo):
    r = memo.get(x)
    if r is not None: return r
    r = set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, e in m: r |= free_bvs(a, memo)
    elif isinstance(x, T.Atom) and x.kind == "bv": r = {x.args[0]}
    else:
        own = None
        if (isinstance(x, T.Atom) and x.kind in ("sum", "red")) or (isinstance(x, B) and x.kind == "all"): own = x.args[2]
        for y in x.args:
            if isinstance(y, (Poly, B)):
                s = free_bvs(y, memo)
                r |= s - {own} if own is not None and y is x.args[1] else s
            elif isinstance(y, (tuple, frozenset)):
                for z in y:
                    if isinstance(z, (Poly, B)): r |= free_bvs(z, memo)
    memo[x] = r
    return r


_pats: dict = {}


def patterns(f):
    """Where the bound variable of a forall stands as an argument: [(function, position, offset)]."""
    r = _pats.get(f)
    if r is None:
        v = T.fresh("pat", True); va = T._theatom(v)
        r = set()
        for nm, args in apps_of(open_all(f, v)):
            for i, y in enumerate(args):
                d = y - v
                if va not in d.vars and (d.const() is not None or d.isint and closed(d)): r.add((nm, i, d))
        r = [x for x in r if x[2].const() is not None] or list(r); _pats[f] = r
    return r


_edges: dict = {}


def edges(f):
    """Values at which the conditions on the bound variable of a forall change."""
    r = _edges.get(f)
    if r is None:
        v = T.fresh("edge", True); va = T._theatom(v); r = {}
        for b in bools_of(open_all(f, v)):
            if b.kind not in ("le", "eq") or va not in b.args[0].vars: continue
            p = b.args[0]; c = p.t.get(((va, 1),))
            if c not in (1, -1): continue
            rest = (p - v.scale(c)).scale(-c)
            if va in rest.vars or not rest.isint: continue
            r[rest] = None
            if b.kind == "le": r[rest + c] = None
        r = _edges[f] = list(r)[:6]
    return r


def bools_of(x):
    acc = set()

    def go(b):
        if isinstance(b, B):
            if b in acc: return
            acc.add(b)
            for y in b.args:
                if isinstance(y, B): go(y)
                elif isinstance(y, frozenset):
                    for z in y: go(z)
    go(x)
    return acc


_norm: dict = {}


def has_all(b):
    return any(x.kind == "all" for x in bools_of(b))


def flatten(f, depth=0):
    """Equisatisfiable list of facts in which quantifiers stand only at the top of a fact."""
    if f is TRUE: return []
    if f.kind == "and": return [g for x in sorted(f.args[0], key=lambda x: x.id) for g in flatten(x, depth)]
    r = _norm.get(f)
    if r is not None: return r
    if f.kind == "not" and f.args[0].kind == "all":
        q = f.args[0]
        sk = skolem(q)
        r = flatten(mk_not(open_all(q, sk)), depth) + [mk_le(-sk), mk_lt(sk - q.args[0])]
    elif f.kind == "not" and f.args[0].kind == "and" and depth < 8 and has_all(f):
        lits = [mk_not(l) for l in sorted(f.args[0].args[0], key=lambda x: x.id)]     # the disjuncts
        r = [f]
        for i, l in enumerate(lits):
            rest = mk_or(*[x for x in lits if x is not l])
            if l.kind == "all":
                r = flatten(T.forall(l.args[0], lambda k: mk_or(rest, open_all(l, k))), depth + 1); break
            if l.kind == "not" and l.args[0].kind == "all":
                q = l.args[0]; sk = skolem(q)
                r = flatten(mk_or(rest, mk_and(mk_le(-sk), mk_lt(sk - q.args[0]), mk_not(open_all(q, sk)))), depth + 1); break
            if l.kind == "and" and has_all(l):
                r = [g for x in sorted(l.args[0], key=lambda x: x.id) for g in flatten(mk_or(rest, x), depth + 1)]; break
    else: r = [f]
    _norm[f] = r
    return r


_inst: dict = {}


def instance(f, n, c):
    r = _inst.get((f, c))
    if r is None: r = _inst[f, c] = mk_or(mk_lt(c), mk_le(n - c), open_all(f, c))
    return r


def expand_facts(facts, goal=None, rounds=3, around=None):
    """Split conjunctions, skolemise negated foralls, instantiate foralls on index terms (those of the
    facts and the goal, or only those reached from `around`)."""
    out = []; alls = []; seen = set()

    def add(fs, to):
        for f in fs:
            for g in flatten(f):
                if g in seen or g is TRUE: continue
                seen.add(g)
                (alls if g.kind == "all" else to).append(g)
    add(facts, out)
    near = None if around is None else [around]
    first = index_terms([goal])[0] if goal is not None else set()       # the terms of the goal come first
    order = lambda y: (y not in first, y.id)
    for _ in range(rounds):
        if not alls: break
        cands, at = index_terms(near if near is not None else out + ([goal] if goal is not None else []))
        new = []; before = len(alls)
        for f in list(alls):
            n = f.args[0]; pt = patterns(f)
            if pt:
                use = {}
                for (nm, i, off) in pt:
                    for c in at.get((nm, i), ()):
                        q = c - off if off.t else c
                        use[q] = use.get(q, True) and c not in first
                use = sorted(use, key=lambda y: (use[y], y.id))[:60]
                use += [c for c in edges(f) if c not in use]
                if pt[0][2].const() is None: use += [c for c in sorted(cands, key=order)[:40] if c not in use]
            else: use = edges(f) + sorted(cands, key=order)[:40]
            if len(alls) > 40: use = use[:12]
            add([instance(f, n, c) for c in use], new)
        if not new and len(alls) == before: break
        out += new
        if near is not None: near = near + new
    return out, alls


_sk: dict = {}


def skolem(b: B) -> Poly:
    s = _sk.get(b)
    if s is None:
        s = T.fresh("sk", True, (PZERO, b.args[0]))
        _sk[b] = s
    return s


_z3: dict = {}


def translated(f):
    """The fact and what its terms are known to satisfy, for the solver."""
    r = _z3.get(f)
    if r is None:
        c = Z3Ctx(); r = [c.bool(f)]; i = 0
        while i < len(c.side):
            r.append(c.side[i]); i += 1
        r = _z3[f] = [(x.get_id(), x) for x in r]
    return r


RATE = 1500                 # z3 steps per nominal millisecond


def z3_check(facts, extra=(), timeout=4000):
    """sat/unsat/unknown of the conjunction; returns (status, model, ctx)."""
    c = Z3Ctx()
    s = z3.Solver()
    # the budget is z3's own count of steps, so that the answer does not depend on how busy the machine is; the clock is
    # only a backstop, and a contract in which it struck fails no obligation (see WALL)
    s.set("rlimit", timeout * RATE)
    s.set("timeout", timeout * 8)
    s.set("random_seed", 1)
    seen = set(); v = z3.AstVector()
    for f in list(facts) + list(extra):
        for i, x in translated(f):
            if i not in seen: seen.add(i); v.push(x)
    s.add(v)
    t = time.time()
    r = s.check()
    STATS["z3_s"] += time.time() - t; STATS["z3_calls"] += 1
    if r == z3.sat: return "sat", s.model(), c
    if r == z3.unsat: return "unsat", None, c
    if "timeout" in s.reason_unknown() or "cancel" in s.reason_unknown(): STATS["wall"] = STATS.get("wall", 0) + 1
    return "unknown", None, c


class Result:
    def __init__(self, status, how, model=None, detail=""):
        self.status, self.how, self.model, self.detail = status, how, model, detail

    def __repr__(self): return f"<{self.status} by {self.how} {self.detail}>"


def subst_equalities(facts, goal):
    """Use  v = t  facts (v a variable) to eliminate v from goal and facts."""
    facts = list(facts)
    for _ in range(12):
        done = True
        facts = [mk_eq(f.args[0]) if f.kind == "le" and (T.bounds(f.args[0])[0] or -1) >= 0 or f.kind == "le" and T.bounds(f.args[0])[0] == 0 else f for f in facts]
        for i, f in enumerate(facts):
            if f.kind != "eq": continue
            p = f.args[0]
            pick = None
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
                    a = m[0][0]
                    rest = (p - mkpoly({m: c})).scale(-1 / c)
                    if _has(rest, a): continue
                    if a.isint and not rest.isint: continue
                    pick = (a, rest); break
            if pick is None: continue
            a, rest = pick
            extra = []
            if a.rng is not None:
                lo, hi = a.rng
                if lo is not None: extra.append(mk_le(lo - rest))
                if hi is not None: extra.append(mk_lt(rest - hi))
            ranged = {w for g in list(goal) + facts for w in atoms_of(g) if w.kind == "var" and w.isint and w is not a and w.rng is not None and w.rng[1] is not None and a in w.rng[1].vars}
            extra += [mk_lt(patom(w) - subst(w.rng[1], {a: rest})) for w in sorted(ranged, key=lambda w: w.id)]
            facts = [subst(g, {a: rest}) for j, g in enumerate(facts) if j != i] + extra
            facts = [g for g in facts if g is not TRUE]
            goal = tuple(subst(g, {a: rest}) for g in goal)
            done = False
            break
        if done: break
    return facts, goal


_syms: dict = {}


def syms(x):
    """Variables and function names in x."""
    r = _syms.get(x)
    if r is None:
        r = set(x.vars)
        names(x, r, set())
        r = _syms[x] = frozenset(r)
    return r


def names(x, acc, seen):
    if x in seen: return
    seen.add(x)
    if isinstance(x, Poly):
        for m in x.t:
            for a, e in m: names(a, acc, seen)
        return
    rg = getattr(x, "rng", None)
    if rg is not None:                      # the bounds of a variable are facts about it
        for y in rg:
            if y is not None and y.const() is None: acc |= syms(y)
    if x.kind == "app":
        acc.add(x.args[0])
    for y in x.args:
        if isinstance(y, (Poly, B)): names(y, acc, seen)
        elif isinstance(y, (tuple, frozenset)):
            for z in y:
                if isinstance(z, (Poly, B)): names(z, acc, seen)


def relevant(facts, goal):
    """The facts connected to the goal through shared symbols (the others cannot matter: they are satisfiable)."""
    if len(facts) < 2 or goal is FALSE: return list(facts)
    cur = set(syms(goal)); left = [(f, syms(f)) for f in facts]; keep = set()
    while True:
        nxt = []; grew = False
        for f, s in left:
            if not s or not cur.isdisjoint(s):
                keep.add(f); cur |= s; grew = True
            else: nxt.append((f, s))
        left = nxt
        if not grew: break
    return [f for f in facts if f in keep]


_heavy: dict = {}


def heavy(x):
    """Does x contain a product of three or more factors?"""
    r = _heavy.get(x)
    if r is None:
        if isinstance(x, Poly): r = any(sum(e for _, e in m) >= 3 or any(heavy(a) for a, _ in m) for m in x.t)
        else:
            r = False
            for y in x.args:
                for z in (y if isinstance(y, (tuple, frozenset)) else (y,)):
                    if isinstance(z, (Poly, B, Atom)) and heavy(z): r = True; break
        _heavy[x] = r
    return r


_preds: dict = {}


def predicates(x):
    """The ground boolean applications in x, and the names of those that mention a bound variable."""
    r = _preds.get(x)
    if r is None:
        g, q = set(), set()
        if isinstance(x, Poly): subs = [a for m in x.t for a, _ in m]
        else:
            subs = [z for y in x.args for z in (y if isinstance(y, (tuple, frozenset)) else (y,)) if isinstance(z, (Poly, B, Atom))]
            if x.kind == "app" and isinstance(x, B): g.add(x)
        for y in subs:
            a, b = predicates(y); g |= a; q |= b
        if x.__class__ is not Poly and x.kind == "all": q |= {f.args[0] for f in g}; g = set()
        r = _preds[x] = (frozenset(g), frozenset(q))
    return r


def unconstrained(facts, goal):
    """Is the goal an uninterpreted predicate (or its negation) that no fact mentions?  Then it may be
    true or false."""
    g = goal.args[0] if goal.kind == "not" else goal
    if g.kind != "app": return False
    for f in facts:
        a, q = predicates(f)
        if g in a or g.args[0] in q: return False
    return True


_feas: dict = {}


def feasible(facts, timeout=1500, goal=None):
    key = (frozenset(facts), goal)
    r = _feas.get(key)
    if r is None: r = _feas[key] = feasible1(facts, timeout, goal)
    return r


def feasible1(facts, timeout=1500, goal=None):
    """May the goal hold with the facts?  (True also when undecided: the path is then explored.)"""
    if any(f is FALSE for f in facts): return False
    if goal is not None:
        if goal is FALSE: return False
        if unconstrained(facts, goal): return True
        facts = relevant(facts, goal)
        if not heavy(goal): facts = [f for f in facts if not heavy(f)]
        facts = facts + [goal]
    big = goal is not None and len(facts) > 80
    ex, _ = expand_facts(facts, rounds=2 if big else 3, around=goal if big else None)
    if any(f is FALSE for f in ex): return False
    st, _, _ = z3_check(ex, timeout=timeout)
    return st != "unsat"


def feasible_model(facts, timeout=4000):
    ex, _ = expand_facts(facts)
    return z3_check(ex, timeout=timeout)


_proofs: dict = {}


def prove(goal: B, facts, timeout=8000) -> Result:
    key = (goal, frozenset(facts), timeout)
    r = _proofs.get(key)
    if r is None: r = _proofs[key] = prove1(goal, facts, timeout)
    return r


def prove1(goal: B, facts, timeout=8000) -> Result:
    if goal is TRUE:
        STATS["normal-form"] += 1
        return Result("proved", "normal-form")
    k = goal.kind
    if k == "and":
        how = set()
        for g in sorted(goal.args[0], key=lambda x: x.id):
            r = prove(g, facts, timeout)
            if r.status != "proved": return r
            how.add(r.how)
        return Result("proved", "+".join(sorted(how)))
    if k == "all":
        n = goal.args[0]
        v = T.fresh("i", True, (PZERO, n))
        return prove(open_all(goal, v), list(facts) + [mk_le(-v), mk_lt(v - n)], timeout)
    if k == "not" and goal.args[0].kind == "and":
        lits = sorted(goal.args[0].args[0], key=lambda x: x.id)
        fs = set(facts)
        if any(mk_not(l) in fs for l in lits):
            STATS["normal-form"] += 1
            return Result("proved", "normal-form")
        # goal: OR of negations; prefer an equality / forall as the remaining goal
        pick = None
        for l in lits:
            if l.kind == "not" and l.args[0].kind in ("eq", "all", "and"): pick = l
        if pick is None: pick = lits[-1]
        return prove(mk_not(pick), list(facts) + [l for l in lits if l is not pick], timeout)
    if goal in facts:
        return Result("proved", "normal-form")
    if k == "eq":
        r = prove_zero(goal.args[0], facts, timeout)
        if r.status == "proved": return r
        if r.status == "refuted" or r.how == "z3": return r
    return prove_z3(goal, facts, timeout)


def prove_z3(goal, facts, timeout):
    near = relevant(list(facts), goal)
    r = prove_z3_with(goal, near, timeout)
    if r.status != "refuted" or len(near) == len(facts): return r
    # the facts left out may contradict the rest
    r2 = prove_z3_with(goal, list(facts), timeout)
    return r2 if r2.status == "proved" else r


def prove_z3_with(goal, facts, timeout):
    if len(facts) > 20:                     # first with the instances around the goal only
        fs = [f for f in facts if not heavy(f)] if not heavy(goal) else facts
        for rounds in (2, 3):
            ex, _ = expand_facts(fs, mk_not(goal), rounds=rounds, around=goal)
            if z3_check(ex, [mk_not(goal)], min(timeout, 2000))[0] == "unsat":
                STATS["z3"] += 1
                return Result("proved", "z3")
    ex, alls = expand_facts(list(facts), goal)
    ex2, (g2,) = subst_equalities(ex, (goal,))
    if g2 is TRUE or any(f is FALSE for f in ex2):
        STATS["normal-form"] += 1
        return Result("proved", "normal-form")
    st, m, c = z3_check(ex2, [mk_not(g2)], timeout)
    if st == "unsat":
        STATS["z3"] += 1
        return Result("proved", "z3")
    if st == "sat":
        # get a model of the original vocabulary
        st2, m2, c2 = z3_check(ex, [mk_not(goal)], timeout)
        opaque = any(a.kind in ("sum", "red") for x in ex + [goal] for a in atoms_of(x)) or bool(alls)
        return Result("refuted", "z3", (m2, c2) if st2 == "sat" else (m, c), "opaque" if opaque else "")
    return Result("unknown", "z3")


CONST_TOL = Fraction(1, 10 ** 4)


def unify_exp(a: Poly, b: Poly):
    """exp(c x) and exp(c' x) with constants that differ by less than one part in 10^4 are the same
    (physical constants are not exact; stated tolerance)."""
    ea = [x for x in atoms_of(a) if x.kind == "app" and x.args[0] == "exp"]
    eb = [x for x in atoms_of(b) if x.kind == "app" and x.args[0] == "exp"]
    mp = {}
    for x in eb:
        if x in ea: continue
        for y in ea:
            p, q = x.args[1][0], y.args[1][0]
            if set(p.t) == set(q.t) and all(abs(p.t[m] - q.t[m]) <= CONST_TOL * max(abs(p.t[m]), abs(q.t[m])) for m in p.t):
                mp[x] = patom(y); break
    return replace_atoms(b, mp) if mp else b


def prove_eq(a: Poly, b: Poly, facts, timeout=8000) -> Result:
    a, b = P(a), P(b)
    b = unify_exp(a, b)
    if close_enough(a, b):
        STATS["normal-form"] += 1
        return Result("proved", "normal-form")
    return prove_zero(a - b, facts, timeout, max([abs(c) for c in list(a.t.values()) + list(b.t.values())] or [1]))


def prove_zero(d: Poly, facts, timeout=8000, scale=None) -> Result:
    if scale is None: scale = max([abs(c) for c in d.t.values()] or [Fraction(1)])
    if not d.t or approx_zero(d, scale):
        STATS["normal-form"] += 1
        return Result("proved", "normal-form")
    q = clear_denoms(d)
    if not q.t or (q is not d and approx_zero(q, max([abs(c) for c in d.t.values()] or [1]))):
        STATS["normal-form"] += 1
        return Result("proved", "normal-form")
    ex, alls = expand_facts(facts, mk_eq(d))
    ex2, (d2,) = subst_equalities(ex, (d,))
    if not d2.t or approx_zero(d2, scale):
        STATS["normal-form"] += 1
        return Result("proved", "normal-form")
    budget = [64]
    t0 = time.time()
    r = _split(d2, ex2, scale, budget, timeout, 0)
    if r.status == "proved":
        STATS["case-split"] += 1
    return r


def _split(d, facts, scale, budget, timeout, depth):
    if not d.t or approx_zero(d, scale): return Result("proved", "case-split")
    q = clear_denoms(d)
    if not q.t or approx_zero(q, scale): return Result("proved", "case-split")
    inds = [a for a in atoms_of(d) if a.kind == "ind"]
    # innermost conditions first
    inds = [a for a in inds if not any(b.kind == "ind" and b is not a for b in atoms_of(a.args[0]))]
    if inds and budget[0] > 0:
        budget[0] -= 1
        cnt = {}
        a = min(inds, key=lambda a: a.id)
        b = a.args[0]
        last = None
        for val, lit in ((1, b), (0, mk_not(b))):
            fs = facts + [lit]
            if not feasible(facts, goal=lit): continue
            d2 = replace_atoms(d, {a: P(val)})
            fs2, (d2,) = subst_equalities([replace_atoms(f, {a: P(val)}) if f is not lit else f for f in fs], (d2,))
            r = _split(d2, fs2, scale, budget, timeout, depth + 1)
            if r.status != "proved": return r
        return Result("proved", "case-split")
    st, m, c = z3_check(facts, [mk_not(mk_eq(d))], timeout)
    if st == "unsat": return Result("proved", "z3")
    if st == "sat":
        opaque = any(a.kind in ("sum", "red") for x in [d] for a in atoms_of(x))
        return Result("refuted", "z3", (m, c), "opaque" if opaque else "")
    return Result("unknown", "z3")


def forget():
    """Drop the answers that depend on what is known of the functions of one contract."""
    for d in (_z3, _feas, _proofs): d.clear()
