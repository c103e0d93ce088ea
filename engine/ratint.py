"""Numeric abstract interpreter for the fixed-width fast paths of an exact rational class.

Domain: every machine integer is a rational function over the inputs (numerators, denominators, gcds)
together with an interval; conditions are kept as polynomial (in)equalities; machine types wrap.
Objects are records of their fields; the `state` field is a concrete bit set, so the representation
typestate is followed exactly. GMP calls are modelled by their documented value semantics.
Paths are joined only at function exit (all of them are short and loop free); loops other than the
single-iteration `do ... while (0)` are reported as unsupported and leave the operation undecided.
An obligation that is not derivable is reported only together with input values that satisfy the
derived path condition and falsify it.
"""
from fractions import Fraction as Fr
from math import gcd as igcd
import itertools
import time
import facts as F

BIG = 10 ** 40
RANGE = {"int": (-2**31, 2**31 - 1), "unsigned int": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1),
         "long long": (-2**63, 2**63 - 1), "unsigned long long": (0, 2**64 - 1), "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1),
         "unsigned char": (0, 255), "signed char": (-128, 127), "char": (-128, 127), "bool": (0, 1), "__int128": (-2**127, 2**127 - 1),
         "unsigned __int128": (0, 2**128 - 1)}
OBJ = "yaga::Long_fraction"


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ polynomials and rational functions
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        d[s] = d.get(s, 0) + e
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ("t", "h")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}
        self.h = None

    def key(self):
        if self.h is None:
            self.h = frozenset(self.t.items())
        return self.h

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mono_mul(m, n)
                t[k] = t.get(k, 0) + c * d
        return Poly(t)

    def const(self):
        """The constant value, or None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def sym(self):
        """The symbol if this is +s or -s: (s, sign)."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                return m[0][0], c
        return None

    def syms(self):
        return {s for m in self.t for s, _ in m}

    def subst(self, s, p):
        if s not in self.syms():
            return self
        out = Poly({})
        for m, c in self.t.items():
            r = Poly({tuple(x for x in m if x[0] != s): c})
            for x, e in m:
                if x == s:
                    for _ in range(e):
                        r = r * p
            out = out + r
        return out

    def ev(self, val):
        r = 0
        for m, c in self.t.items():
            x = c
            for s, e in m:
                x = x * val[s] ** e
            r = r + x
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in self.t.items():
            f = "*".join(s + (f"^{e}" if e > 1 else "") for s, e in m)
            out.append(f if c == 1 and f else f"-{f}" if c == -1 and f else f"{c}*{f}" if f else str(c))
        return " + ".join(out)


def K(c):
    return Poly({(): c})


def S(s):
    return Poly({((s, 1),): 1})


ONE = K(1)


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=ONE):
        # cancel the common monomial factor and constants
        if d is not ONE and d != ONE:
            if not n.t:
                d = ONE
            else:
                common = None
                for m in itertools.chain(n.t, d.t):
                    x = dict(m)
                    common = x if common is None else {s: min(e, x[s]) for s, e in common.items() if s in x}
                    if not common:
                        break
                if common:
                    def cut(p):
                        return Poly({tuple((s, e - common.get(s, 0)) for s, e in m if e - common.get(s, 0)): c for m, c in p.t.items()})
                    n, d = cut(n), cut(d)
                k = d.const()
                if k == 0:
                    raise Infeasible
                if k is not None and k != 1:
                    n, d = Poly({m: Fr(c) / k if Fr(c) % k or True else c for m, c in n.t.items()}), ONE
                    n = Poly({m: int(c) if Fr(c).denominator == 1 else c for m, c in n.t.items()})
                elif n == d:
                    n, d = ONE, ONE
                elif n == -d:
                    n, d = K(-1), ONE
        self.n, self.d = n, d

    def __add__(self, o):
        if self.d == o.d:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        return Rat(self.n * o.d, self.d * o.n)

    def eq(self, o):
        return self.n * o.d == o.n * self.d

    def const(self):
        a, b = self.n.const(), self.d.const()
        if a is None or b is None:
            return None
        return Fr(a) / Fr(b) if b else None

    def syms(self):
        return self.n.syms() | self.d.syms()

    def subst(self, s, p):
        if s not in self.syms():
            return self
        return Rat(self.n.subst(s, p), self.d.subst(s, p))

    def ev(self, val):
        d = self.d.ev(val)
        if d == 0:
            raise ZeroDivisionError
        return Fr(self.n.ev(val)) / d

    def __repr__(self):
        return f"{self.n}" if self.d == ONE else f"({self.n})/({self.d})"


def RK(c):
    c = Fr(c)
    return Rat(K(int(c)) if c.denominator == 1 else Poly({(): c}))


def RS(s):
    return Rat(S(s))


class I:
    """A machine integer (or an enumerator)."""
    __slots__ = ("ty", "R", "lo", "hi")

    def __init__(self, ty, R, lo, hi):
        self.ty, self.R, self.lo, self.hi = ty, R, lo, hi

    def c(self):
        return int(self.lo) if self.lo == self.hi else None

    def __repr__(self):
        return f"{self.R}:[{self.lo},{self.hi}]"


def ik(ty, v):
    return I(ty, RK(v), v, v)


class St:
    def __init__(self):
        self.fr = []        # frames: dict var id -> value/binding
        self.objs = {}      # oid -> {state, num, den, mpq}
        self.hs = {}        # handle -> {"n": Rat|None, "d": Rat|None, "val": Rat|None, "canon": bool, "live": bool}
        self.b = {}         # symbol -> (lo, hi)
        self.facts = []     # (op, Rat): op in le (<=0) lt eq ne
        self.path = []      # the same, never substituted (for witnesses)
        self.gcds = {}      # symbol -> (x Rat, y Rat)
        self.cop = []       # pairs of Rats known coprime
        self.preds = []     # (kind, Rat, bool)
        self.defs = []      # (symbol, kind, args): in creation order
        self.nz = []        # Rats known nonzero
        self.subs = []      # substitutions made so far: (symbol, polynomial)
        self.canon = {}     # symbol of a numerator -> (n symbol, d symbol): unique representation

    def copy(self):
        s = St()
        s.fr = [dict(f) for f in self.fr]
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.hs = {k: dict(v) for k, v in self.hs.items()}
        s.b = dict(self.b)
        s.facts = list(self.facts)
        s.path = list(self.path)
        s.gcds = dict(self.gcds)
        s.cop = list(self.cop)
        s.preds = list(self.preds)
        s.defs = list(self.defs)
        s.nz = list(self.nz)
        s.canon = dict(self.canon)
        s.subs = list(self.subs)
        return s

    # -------------------------------------------------------------- intervals
    def bound(self, s, depth=0):
        lo, hi = self.b.get(s, (-BIG, BIG))
        if s in self.gcds and depth < 3:
            x, y = self.gcds[s]
            for r in (x, y):
                l2, h2 = self.interval(r, depth + 1)
                if l2 > 0 or self.nonzero(r):
                    hi = min(hi, max(abs(l2), abs(h2)))
        return lo, hi

    def pint(self, p, depth=0):
        lo = hi = 0
        for m, c in p.t.items():
            a = b = c
            for s, e in m:
                l, h = self.bound(s, depth)
                for _ in range(e):
                    v = (a * l, a * h, b * l, b * h)
                    a, b = min(v), max(v)
                if e == 2 and l <= 0 <= h and c > 0:
                    a = max(a, 0) if len(m) == 1 else a
            lo, hi = lo + a, hi + b
        return lo, hi

    def interval(self, R, depth=0):
        lo, hi = self.pint(R.n, depth)
        if R.d != ONE:
            dl, dh = self.pint(R.d, depth)
            if dl > 0:
                v = [Fr(a) / Fr(d) for a in (lo, hi) for d in (dl, dh)]
                lo, hi = min(v), max(v)
            elif dh < 0:
                v = [Fr(a) / Fr(d) for a in (lo, hi) for d in (dl, dh)]
                lo, hi = min(v), max(v)
            else:
                lo, hi = -BIG, BIG
        for op, f in self.facts:
            if op in ("le", "lt", "eq"):
                c = self.diff(f, R)
                if c is not None:      # f = R + c
                    hi = min(hi, -c)
                    if op == "eq":
                        lo = max(lo, -c)
                c = self.diff(f, -R)
                if c is not None:      # f = -R + c
                    lo = max(lo, c)
                    if op == "eq":
                        hi = min(hi, c)
        return lo, hi

    @staticmethod
    def diff(f, R):
        """c if f == R + c, else None."""
        if f.d == R.d:
            p = f.n - R.n
            k = p.const()
            if k is not None and R.d == ONE:
                return k
            if not p.t:
                return 0
            # p == c * d ?
            m = next(iter(p.t))
            if m in R.d.t:
                c = Fr(p.t[m]) / R.d.t[m]
                if all(Fr(p.t.get(x, 0)) == c * R.d.t.get(x, 0) for x in set(p.t) | set(R.d.t)):
                    return c
            return None
        return (f - R).const()

    def nonzero(self, R):
        if any(r.eq(R) or r.eq(-R) for r in self.nz):
            return True
        p = self.strip(R.n)
        return any(self.strip(r.n) in (p, -p) for r in self.nz)

    def strip(self, p):
        """Divide by the factors known to be positive."""
        if not p.t:
            return p
        common = None
        for m in p.t:
            x = dict(m)
            common = x if common is None else {s: min(e, x[s]) for s, e in common.items() if s in x}
        common = {s: e for s, e in (common or {}).items() if self.bound(s)[0] > 0}
        if not common:
            return p
        return Poly({tuple((s, e - common.get(s, 0)) for s, e in m if e - common.get(s, 0)): c for m, c in p.t.items()})

    def sign(self, R):
        """Set of possible signs of R."""
        out = {-1, 0, 1}
        for q in (R, Rat(self.strip(R.n))):
            lo, hi = self.interval(q)
            if q is not R:
                dl, dh = self.pint(R.d)
                if dl <= 0:
                    continue
            if lo > 0:
                out &= {1}
            elif lo >= 0:
                out &= {0, 1}
            if hi < 0:
                out &= {-1}
            elif hi <= 0:
                out &= {-1, 0}
        if self.nonzero(R):
            out.discard(0)
        return out

    # -------------------------------------------------------------- facts
    def add(self, op, R):
        """Assume R <= 0 / < 0 / == 0 / != 0. Raises Infeasible."""
        self.path.append((op, R))
        sg = self.sign(R)
        ok = {"le": {-1, 0}, "lt": {-1}, "eq": {0}, "ne": {-1, 1}}[op]
        if not sg & ok:
            raise Infeasible
        self.facts.append((op, R))
        if op == "ne":
            self.nz.append(R)
            self.edge(R)
            if self.distinct_canon(R):
                pass
        if op == "lt":
            self.nz.append(R)
        if op in ("le", "eq"):
            self.refine(op, R)
        if op == "eq":
            self.solve(R)
        return self

    def edge(self, R):
        """x != bound of x."""
        if R.d == ONE:
            syms = R.n.syms()
            if len(syms) == 1:
                s = next(iter(syms))
                c1 = R.n.t.get(((s, 1),))
                if c1 in (1, -1) and set(R.n.t) <= {((s, 1),), ()}:
                    v = -R.n.t.get((), 0) * c1
                    lo, hi = self.b.get(s, (-BIG, BIG))
                    if v == lo:
                        lo += 1
                    if v == hi:
                        hi -= 1
                    self.b[s] = (lo, hi)
                    if lo > hi:
                        raise Infeasible

    def distinct_canon(self, R):
        return False

    def refine(self, op, R):
        if R.d != ONE:
            return
        for m, c in R.n.t.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                s = m[0][0]
                rest = R.n - Poly({m: c})
                if s in rest.syms():
                    continue
                lo, hi = self.pint(rest)
                bl, bh = self.b.get(s, (-BIG, BIG))
                # c*s + rest <= 0
                if c == 1:
                    bh = min(bh, -lo)
                    if op == "eq":
                        bl = max(bl, -hi)
                else:
                    bl = max(bl, lo)
                    if op == "eq":
                        bh = min(bh, hi)
                if bl > bh:
                    raise Infeasible
                self.b[s] = (bl, bh)

    def solve(self, R):
        if R.d != ONE:
            R = Rat(R.n)
        best = None
        for m, c in R.n.t.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                s = m[0][0]
                rest = R.n - Poly({m: c})
                if s in rest.syms():
                    continue
                p = -rest if c == 1 else rest
                rank = (len(p.t), s)
                if best is None or rank < best[0]:
                    best = (rank, s, p)
        if best:
            self.substitute(best[1], best[2])
            return
        # equal reduced fractions have equal terms: p*q' = p'*q
        cs = [(u, v) for u, v in self.cop if u.d == ONE and v.d == ONE]
        for i, (p, q) in enumerate(cs):
            for p2, q2 in cs[i + 1:]:
                for a, b, c, d in ((p, q, p2, q2), (p, q, q2, p2), (p, q, -p2, q2), (p, q, -q2, p2)):
                    if self.strip(a.n * d.n - c.n * b.n) in (self.strip(R.n), -self.strip(R.n)) and self.sign(b) == {1} and self.sign(d) == {1}:
                        self.add("eq", a - c)
                        self.add("eq", b.subst(*self.subs[-1]) - d.subst(*self.subs[-1]) if self.subs else b - d)
                        return

    def substitute(self, s, p):
        lo, hi = self.b.get(s, (-BIG, BIG))
        sp = p.sym()
        if sp:
            t, c = sp
            l2, h2 = self.b.get(t, (-BIG, BIG))
            a, b = (lo, hi) if c == 1 else (-hi, -lo)
            self.b[t] = (max(a, l2), min(b, h2))
            if self.b[t][0] > self.b[t][1]:
                raise Infeasible
        else:
            k = p.const()
            if k is not None and not lo <= k <= hi:
                raise Infeasible

        def sub(x):
            if isinstance(x, Rat):
                return x.subst(s, p)
            if isinstance(x, I):
                R = x.R.subst(s, p)
                if R is x.R:
                    return x
                l2, h2 = self.interval(R)
                l2, h2 = max(l2, x.lo), min(h2, x.hi)
                return I(x.ty, R, l2, h2)
            return x
        self.fr = [{k: sub(v) for k, v in f.items()} for f in self.fr]
        self.objs = {o: {k: sub(v) for k, v in f.items()} for o, f in self.objs.items()}
        self.hs = {o: {k: sub(v) for k, v in f.items()} for o, f in self.hs.items()}
        self.facts = [(op, f.subst(s, p)) for op, f in self.facts]
        self.gcds = {g: (x.subst(s, p), y.subst(s, p)) for g, (x, y) in self.gcds.items()}
        if s in self.gcds and p.const() == 1:
            self.b[s] = (1, 1)
        self.cop = [(x.subst(s, p), y.subst(s, p)) for x, y in self.cop]
        self.preds = [(k, x.subst(s, p), v) for k, x, v in self.preds]
        self.nz = [x.subst(s, p) for x in self.nz]
        for op, f in self.facts:
            k = f.const()
            if k is not None and not {"le": k <= 0, "lt": k < 0, "eq": k == 0, "ne": k != 0}[op]:
                raise Infeasible
        if not (lo == -BIG and hi == BIG) and not sp:
            R = Rat(p)
            self.facts.append(("le", R - RK(hi)))
            self.facts.append(("le", RK(lo) - R))
        self.subs.append((s, p))
        for g, (x, y) in self.gcds.items():
            if x.d == ONE and x.eq(y) and g != s and not any(g == t for t, _ in self.subs) and g not in x.syms() and self.sign(x) == {1}:
                self.substitute(g, x.n)
                return

    def re(self, v):
        """A value read before later substitutions."""
        if not self.subs or not isinstance(v, I):
            return v
        R = self.norm(v.R)
        if R is v.R:
            return v
        lo, hi = self.interval(R)
        return I(v.ty, R, max(lo, v.lo), min(hi, v.hi))

    def norm(self, R):
        """R in the symbols that are left."""
        for s, p in self.subs:
            R = R.subst(s, p)
        return R

    # -------------------------------------------------------------- number theory
    def cops(self):
        return self.cop + [(x, y) for g, (x, y) in self.gcds.items() if self.b.get(g, (0, 0))[1] == 1]

    def coprime(self, x, y, depth=0):
        """Is gcd(|x|, |y|) == 1 derivable?"""
        for a, b in ((x, y), (y, x)):
            c = a.const()
            if c is not None and abs(c) == 1:
                return True
            if c is None and depth == 0 and self.interval(a) in ((1, 1), (-1, -1)):
                return True
        ca, cb = x.const(), y.const()
        if ca is not None and cb is not None:
            return igcd(int(abs(ca)), int(abs(cb))) == 1
        for u, v in self.cops():
            for a, b in ((x, y), (y, x)):
                if (u.eq(a) or u.eq(-a)) and (v.eq(b) or v.eq(-b)):
                    return True
        for g, (u, v) in self.gcds.items():
            G = RS(g)
            for a, b in ((x, y), (y, x)):
                if ((a * G).eq(u) or (a * G).eq(-u)) and ((b * G).eq(v) or (b * G).eq(-v)):
                    return True
        if depth > 6:
            return False
        # products: every factor of x against y
        for a, b in ((x, y), (y, x)):
            for f, rest in self.factors(a):
                if self.coprime(f, b, depth + 1) and self.coprime(rest, b, depth + 1):
                    return True
        # divisors: x = u/g divides u, so it suffices that u is coprime to y
        for a, b in ((x, y), (y, x)):
            for g, (u, v) in self.gcds.items():
                G = RS(g)
                for w in (u, v):
                    if (a * G).eq(w) or (a * G).eq(-w):
                        if not w.eq(a) and self.coprime(w, b, depth + 3):
                            return True
        # x = r + k*y
        for a, b in ((x, y), (y, x)):
            s = b.n.sym() if b.d == ONE else None
            if s and a.d == ONE:
                rest = Poly({m: c for m, c in a.n.t.items() if s[0] not in dict(m)})
                if rest != a.n and self.coprime(Rat(rest), b, depth + 1):
                    return True
        return False

    def factors(self, R):
        """Splittings of R into two integer factors."""
        out = []
        # group each gcd in the denominator with an argument it divides
        gs = [s for m in R.d.t for s, _ in m] if len(R.d.t) == 1 else None
        if len(R.n.t) != 1 or gs is None:
            return out
        (m, c), = R.n.t.items()
        syms = [s for s, e in m for _ in range(e)]
        if len(syms) < 2:
            return out
        if not gs:
            for s in syms:
                f = RS(s)
                out.append((f, R / f))
            return out
        for s in syms:
            for k in range(0, len(gs) + 1):
                for sub in itertools.combinations(gs, k):
                    f = RS(s)
                    ok = True
                    for g in sub:
                        if g in self.gcds and any(w.eq(RS(s)) or w.eq(-RS(s)) for w in self.gcds[g]):
                            f = f / RS(g)
                        else:
                            ok = False
                    if ok and k <= 1:
                        rest = R / f
                        # the rest must be an integer too: one symbol per gcd left
                        if self.integral(rest):
                            out.append((f, rest))
        return out

    def integral(self, R):
        if R.d == ONE:
            return True
        if len(R.d.t) != 1 or len(R.n.t) != 1:
            return False
        (m, _), = R.n.t.items()
        syms = [s for s, e in m for _ in range(e)]
        (dm, dc), = R.d.t.items()
        if dc != 1:
            return False
        gs = [s for s, e in dm for _ in range(e)]
        for perm in itertools.permutations(syms, min(len(gs), len(syms))):
            if len(perm) == len(gs) and all(g in self.gcds and any(w.eq(RS(s)) or w.eq(-RS(s)) for w in self.gcds[g]) for g, s in zip(gs, perm)):
                return True
        return False

    def divides(self, y, x):
        """Does the integer y divide x, as far as is known?"""
        c = y.const()
        if c is not None and abs(c) == 1:
            return True
        s = y.n.sym() if y.d == ONE else None
        if s and s[0] in self.gcds:
            for w in self.gcds[s[0]]:
                if w.eq(x) or w.eq(-x):
                    return True
                q = (x / w)
                if q.d == ONE and not w.n.const() == 0:
                    return True
        if x.eq(y) or x.eq(-y):
            return True
        return False

    def dump(self):
        return "; ".join(f"{f} {dict(le='<= 0', lt='< 0', eq='= 0', ne='!= 0')[op]}" for op, f in self.path)


class Interp:
    def __init__(self, P):
        self.P = P
        self.n = 0
        self.steps = 0
        self.visited = set()
        self.undecided = []
        self.spent = 0.0        # seconds in the search for witnesses
        self.viol = []
        self.proven = {}
        self.stack = []
        self.maxsteps = 4000000
        self.entry = None

    def fresh(self, base):
        self.n += 1
        return f"{base}{self.n}"

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, rule, what, node, proved, cond, detail):
        """proved: derivable. Otherwise search for input values under which cond(val) holds."""
        key = (rule, what)
        if proved:
            self.proven[key] = self.proven.get(key, 0) + 1
            return
        for g in st.gcds:
            lo, hi = st.bound(g)
            if lo > hi:          # no input takes this path
                return
        w = None
        if self.spent < 60 or not self.viol:
            t0 = time.time()
            w = self.witness(st, cond) if self.spent < 240 else None
            self.spent += time.time() - t0
        loc = f"{self.stack[-1][1] if self.stack else ''}:{node.get('l', 0) if node else 0}"
        if w is None:
            self.undecided.append((rule, what, loc, detail))
        else:
            self.viol.append((rule, what, loc, f"{detail}; for {w}"))

    def candidates(self, name, kind):
        raise NotImplementedError

    def witness(self, st, cond):
        """Input values meeting the path condition and cond."""
        ent = self.entry
        for val in ent.valuations(st):
            try:
                if self.extend(st, val) and all(self.holds(op, R.ev(val)) for op, R in st.path) and (cond is None or cond(val)):
                    return ent.describe(val)
            except (ZeroDivisionError, KeyError):
                continue
        return None

    @staticmethod
    def holds(op, v):
        return {"le": v <= 0, "lt": v < 0, "eq": v == 0, "ne": v != 0}[op]

    def extend(self, st, val):
        for s, kind, args in st.defs:
            a = [x.ev(val) if isinstance(x, Rat) else x for x in args]
            if kind == "gcd":
                val[s] = igcd(int(abs(a[0])), int(abs(a[1])))
            elif kind == "tdiv":
                if a[1] == 0:
                    return False
                q = abs(int(a[0])) // abs(int(a[1]))
                val[s] = q if (a[0] < 0) == (a[1] < 0) else -q
            elif kind == "tmod":
                if a[1] == 0:
                    return False
                r = abs(int(a[0])) % abs(int(a[1]))
                val[s] = r if a[0] >= 0 else -r
            elif kind == "wrap":
                mn, mx = RANGE[a[1]]
                val[s] = (int(a[0]) - mn) % (mx - mn + 1) + mn
            elif kind == "denof":
                val[s] = Fr(a[0]).denominator
            elif kind == "ceil":
                val[s] = -((-Fr(a[0])) // 1)
            elif kind == "floor":
                val[s] = Fr(a[0]) // 1
            elif kind == "any":
                raise KeyError(s)
        for kind, x, b in st.preds:
            v = Fr(x.ev(val))
            if kind == "fits_n":
                t = -2**31 <= v.numerator < 2**31
            elif kind == "fits_d":
                t = 0 <= v.denominator < 2**32
            elif kind == "fits_z":
                t = -2**31 <= v < 2**31
            elif kind == "fits_zu":
                t = 0 <= v < 2**32
            elif kind == "fitsl_s":
                t = -2**63 <= v.numerator < 2**63
            elif kind == "fitsl_u":
                t = 0 <= v.numerator < 2**64
            elif kind == "nofit":
                t = not (-2**31 <= v.numerator < 2**31 and v.denominator < 2**32)
            else:
                return False
            if t != b:
                return False
        return True

    # ---------------------------------------------------------------- helpers
    def mk(self, st, ty, R, lo=None, hi=None):
        l, h = st.interval(R)
        if lo is not None:
            l, h = max(l, lo), min(h, hi)
        if l > h:
            raise Infeasible
        if isinstance(l, Fr):
            l = -((-l) // 1)
        if isinstance(h, Fr):
            h = h // 1
        k = R.const()
        if k is None and l == h:
            pass
        return I(ty, R, l, h)

    def both(self, st, fs):
        """[(state, i)] for the alternatives fs[i]: list of facts."""
        out = []
        for i, f in enumerate(fs):
            s = st.copy()
            try:
                for op, R in f:
                    s.add(op, R)
            except Infeasible:
                continue
            out.append((s, i))
        return out

    def fit(self, st, ty, v, node, arith):
        """v (I of any width, ideal value) converted to type ty; arith: an arithmetic result (signed: overflow is an error)."""
        mn, mx = RANGE[ty]
        v = st.re(v)
        lo, hi = st.interval(v.R)
        lo, hi = max(lo, v.lo), min(hi, v.hi)
        if lo > hi:
            return []
        if mn <= lo and hi <= mx:
            return [(st, I(ty, v.R, lo, hi))]
        if arith and mn < 0:
            R = v.R
            self.oblige(st, "overflow", f"{self.op}: {self.fnname()} line {node.get('l', 0)}", node, False,
                        lambda val: not mn <= R.ev(val) <= mx, f"'{ty}' arithmetic overflows")
            s = st.copy()
            try:
                s.add("le", R - RK(mx))
                s.add("le", RK(mn) - R)
            except Infeasible:
                return []
            return [(s, I(ty, R, max(lo, mn), min(hi, mx)))]
        m = mx - mn + 1
        k0, k1 = int((lo - mn) // m), int((hi - mn) // m)
        if k1 - k0 <= 2:
            out = []
            for k in range(k0, k1 + 1):
                s = st.copy()
                try:
                    if k1 > k0:
                        s.add("le", v.R - RK(mx + k * m))
                        s.add("le", RK(mn + k * m) - v.R)
                except Infeasible:
                    continue
                out.append((s, I(ty, v.R - RK(k * m), max(lo - k * m, mn), min(hi - k * m, mx))))
            return out
        s = st.copy()
        t = self.fresh("wrap")
        s.b[t] = (mn, mx)
        s.defs.append((t, "wrap", (v.R, ty)))
        return [(s, I(ty, RS(t), mn, mx))]

    def unsup(self, why):
        raise Unsupported(why)

    def fnname(self):
        return self.stack[-1][0] if self.stack else "?"

    # ---------------------------------------------------------------- lvalues
    def lval(self, st, e):
        """[(st, lv)]; lv: ('var', frame, id) ('fld', oid, name) ('obj', oid)."""
        k = e["e"]
        if k == "var":
            if e.get("g"):
                return [(st, ("gl", e.get("q")))]
            fr = len(st.fr) - 1
            v = st.fr[fr].get(e["id"])
            if isinstance(v, tuple) and v and v[0] == "bind":
                return [(st, v[1])]
            if isinstance(v, tuple) and v and v[0] == "obj":
                return [(st, v)]
            return [(st, ("var", fr, e["id"]))]
        if k == "this":
            return [(st, st.fr[-1]["this"])]
        if k == "mem":
            out = []
            for s, o in self.lval(st, e["o"]):
                out.append((s, self.member(s, o, e)))
            return out
        if k == "un" and e["op"] == "*":
            out = []
            for s, v in self.ev(st, e["x"]):
                out.append((s, v[1] if isinstance(v, tuple) and v[0] == "addr" else v))
            return out
        if k in ("mcall", "call", "ctor", "list", "cond", "cast"):
            out = []
            for s, v in self.ev(st, e):
                if isinstance(v, tuple) and v[0] in ("obj", "bind"):
                    out.append((s, v[1] if v[0] == "bind" else v))
                else:
                    raise Unsupported(f"lvalue {k}")
            return out
        if k == "asg":
            return [(s, v) for s, v in self.assign(st, e, want_lv=True)]
        raise Unsupported(f"lvalue {k}")

    def member(self, st, o, e):
        if o[0] == "obj":
            return ("fld", o[1], e["n"])
        if o[0] == "fld":      # mpq->_mp_num
            h = self.load(st, o, e)
            if isinstance(h, tuple) and h and h[0] == "h" and e["n"] in ("_mp_num", "_mp_den"):
                return ("part", h[1], "n" if e["n"] == "_mp_num" else "d")
        if o[0] == "part" and e["n"] == "_mp_size" and o[2] == "n":
            return ("size", o[1])
        if o[0] == "var":
            h = self.load(st, o, e)
            if isinstance(h, tuple) and h and h[0] == "h" and e["n"] in ("_mp_num", "_mp_den"):
                return ("part", h[1], "n" if e["n"] == "_mp_num" else "d")
        raise Unsupported(f"member {e.get('n')}")

    def load(self, st, lv, node):
        if lv[0] == "var":
            v = st.fr[lv[1]].get(lv[2])
            if v is None:
                raise Unsupported("uninitialised variable")
            if isinstance(v, tuple) and v[0] == "bind":
                return self.load(st, v[1], node)
            return v
        if lv[0] == "fld":
            o = st.objs[lv[1]]
            v = o.get(lv[2])
            if lv[2] in ("num", "den") and v is None:
                raise Unsupported("uninitialised word part")
            if lv[2] == "mpq" and v is None:
                return ("h", None)
            return v
        if lv[0] == "obj":
            return lv
        if lv[0] == "part":
            return ("addrpart", lv)
        if lv[0] == "size":
            return ("sgn", self.content(st, ("h", lv[1]), node))
        if lv[0] == "gl":
            return ("gl", lv[1])
        raise Unsupported(f"load {lv[0]}")

    def store(self, st, lv, v):
        s = st.copy()
        if lv[0] == "var":
            cur = s.fr[lv[1]].get(lv[2])
            if isinstance(cur, tuple) and cur and cur[0] == "bind":
                return self.store(st, cur[1], v)
            s.fr[lv[1]][lv[2]] = v
        elif lv[0] == "fld":
            s.objs[lv[1]][lv[2]] = v
        else:
            raise Unsupported(f"store {lv[0]}")
        return s

    def word_check(self, st, lv, node):
        pass

    # ---------------------------------------------------------------- expressions
    def ev(self, st, e):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step limit")
        try:
            return self.ev1(st, e)
        except Infeasible:
            return []

    def ev1(self, st, e):
        k = e["e"]
        t = e.get("t", "")
        if k == "int":
            return [(st, ik(t.replace("const ", "") if t.replace("const ", "") in RANGE else "int", int(e["v"])))]
        if k == "bool":
            return [(st, e["v"])]
        if k == "enum":
            return [(st, ik("int", int(e["v"])))]
        if k == "null":
            return [(st, ("h", None))]
        if k == "str":
            return [(st, ("str",))]
        if k == "zero":
            return [(st, ik(t if t in RANGE else "int", 0))]
        if k == "var" and "cv" in e:
            return [(st, ik(t.replace("const ", "") if t.replace("const ", "") in RANGE else "int", int(e["cv"])))]
        if k in ("var", "mem", "this"):
            if k == "this":
                return [(st, ("addr", st.fr[-1]["this"]))]
            out = []
            for s, lv in self.lval(st, e):
                v = self.load(s, lv, e)
                if isinstance(v, I):
                    lo, hi = s.interval(v.R)
                    lo, hi = max(lo, v.lo), min(hi, v.hi)
                    if lo > hi:
                        continue
                    v = I(v.ty, v.R, lo, hi)
                out.append((s, v))
            return out
        if k == "cast":
            return self.cast(st, e)
        if k == "un":
            return self.unary(st, e)
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||", "<", "<=", ">", ">=", "==", "!="):
                return self.cond(st, e)
            if op == ",":
                return [r for s, _ in self.ev(st, e["x"]) for r in self.ev(s, e["y"])]
            out = []
            for s, x in self.ev(st, e["x"]):
                for s2, y in self.ev(s, e["y"]):
                    out += self.arith(s2, op, x, y, t, e)
            return out
        if k == "cond":
            if self.is_assert(e):
                return [(st, None)]
            out = []
            for s, b in self.cond(st, e["c"]):
                out += self.ev(s, e["x"] if b else e["y"])
            return out
        if k == "asg":
            return [(s, self.load(s, lv, e)) for s, lv in self.assign(st, e, True)]
        if k in ("call", "mcall"):
            return self.call(st, e)
        if k == "ctor":
            return self.ctor(st, e)
        if k == "list":
            if len(e["a"]) == 1:
                return self.ev(st, e["a"][0])
            if not e["a"]:
                return [(st, ik(t if t in RANGE else "int", 0))]
            raise Unsupported("aggregate")
        if k == "opaque" and e.get("a") and len(e["a"]) == 1:
            return self.ev(st, e["a"][0])
        raise Unsupported(f"expression {k} {e.get('why', '')}")

    @staticmethod
    def is_assert(e):
        for b in ("x", "y"):
            n = e.get(b)
            if isinstance(n, dict) and n.get("e") == "call" and n.get("n") == "__assert_fail":
                return True
        return False

    def cast(self, st, e):
        t = e["t"].replace("const ", "")
        out = []
        for s, v in self.ev(st, e["x"]):
            if t == "bool":
                if isinstance(v, bool):
                    out.append((s, v))
                else:
                    for s2, b in self.truth(s, v):
                        out.append((s2, b))
                continue
            if isinstance(v, bool):
                v = ik("int", int(v))
            if not isinstance(v, I):
                raise Unsupported("cast of " + str(v)[:20])
            if t not in RANGE:
                if F.strip_targs(t) in self.P.enums:
                    t = "int"
                else:
                    raise Unsupported("cast to " + t)
            for s2, w in self.fit(s, t, v, e, False):
                out.append((s2, w))
        return out

    def truth(self, st, v):
        if isinstance(v, bool):
            return [(st, v)]
        if isinstance(v, tuple) and v and v[0] == "pred":
            return self.pred(st, v[1], v[2])
        if isinstance(v, I):
            c = v.c()
            if c is not None:
                return [(st, c != 0)]
            return [(s, i == 0) for s, i in self.both(st, [[("ne", v.R)], [("eq", v.R)]])]
        if isinstance(v, tuple) and v and v[0] == "h":
            return [(st, v[1] is not None)]
        raise Unsupported("truth")

    def pred(self, st, kind, R):
        if kind == "fits_z":
            lo, hi = st.interval(R)
            if lo >= -2**31 and hi < 2**31:
                return [(st, True)]
            if lo > 2**31 - 1 or hi < -2**31:
                return [(st, False)]
        for k, x, b in st.preds:
            if k == kind and x.eq(R):
                return [(st, b)]
        out = []
        for b in (True, False):
            s = st.copy()
            s.preds.append((kind, R, b))
            if kind == "fits_z" and b:
                try:
                    s.add("le", R - RK(2**31 - 1))
                    s.add("le", RK(-2**31) - R)
                except Infeasible:
                    continue
            # a value that does not fit on entry
            if kind in ("fits_n", "fits_d") and b and any(k2 == "nofit" and x.eq(R) for k2, x, _ in s.preds):
                other = "fits_d" if kind == "fits_n" else "fits_n"
                if any(k2 == other and x.eq(R) and v for k2, x, v in s.preds):
                    continue
            out.append((s, b))
        return out

    def unary(self, st, e):
        op = e["op"]
        if op == "!":
            return [(s, not b) for s, b in self.cond(st, e["x"])]
        if op == "&":
            return [(s, ("addr", lv) if lv[0] != "part" else lv) for s, lv in self.lval(st, e["x"])]
        if op == "*":
            return [(s, self.load(s, lv, e)) for s, lv in self.lval(st, e)]
        if op in ("+", "__extension__"):
            return self.ev(st, e["x"])
        if op == "-":
            out = []
            for s, v in self.ev(st, e["x"]):
                if isinstance(v, tuple) and v and v[0] == "sgn":
                    out.append((s, ("sgn", -v[1])))
                    continue
                if isinstance(v, bool):
                    v = ik("int", int(v))
                if not isinstance(v, I):
                    raise Unsupported("negation")
                out += self.fit(s, e["t"].replace("const ", ""), I(v.ty, -v.R, -v.hi, -v.lo), e, True)
            return out
        if op == "~":
            out = []
            for s, v in self.ev(st, e["x"]):
                c = v.c() if isinstance(v, I) else None
                if c is None:
                    raise Unsupported("~")
                out += self.fit(s, e["t"], ik("__int128", ~c), e, False)
            return out
        if op in ("++", "--"):
            out = []
            for s, lv in self.lval(st, e["x"]):
                v = self.load(s, lv, e)
                d = 1 if op == "++" else -1
                t = e["t"].replace("const ", "")
                for s2, w in self.fit(s, t, I(v.ty, v.R + RK(d), v.lo + d, v.hi + d), e, True):
                    out.append((self.store(s2, lv, w), v if e.get("post") else w))
            return out
        raise Unsupported("unary " + op)

    def assign(self, st, e, want_lv):
        out = []
        op = e["op"]
        for s, v in self.ev(st, e["y"]):
            for s2, lv in self.lval(s, e["x"]):
                if op == "=":
                    if isinstance(v, I):
                        pass
                    out.append((self.store(s2, lv, v), lv))
                else:
                    cur = self.load(s2, lv, e)
                    t = e["x"]["t"].replace("const ", "")
                    for s3, w in self.arith(s2, op[:-1], cur, v, v.ty if RANGE[v.ty][1] > RANGE[cur.ty][1] else t, e):
                        for s4, w2 in self.fit(s3, t, w, e, False):
                            out.append((self.store(s4, lv, w2), lv))
        return out

    # ---------------------------------------------------------------- conditions
    def cond(self, st, e):
        self.steps += 1
        k = e["e"]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(st, e["x"]):
                if (e["op"] == "&&") == b:
                    out += self.cond(s, e["y"])
                else:
                    out.append((s, b))
            return out
        if k == "un" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(st, e["x"])]
        if k == "bin" and e["op"] in ("<", "<=", ">", ">=", "==", "!="):
            out = []
            for s, x in self.ev(st, e["x"]):
                for s2, y in self.ev(s, e["y"]):
                    out += self.compare(s2, e["op"], x, y)
            return out
        out = []
        for s, v in self.ev(st, e):
            out += self.truth(s, v)
        return out

    def compare(self, st, op, x, y):
        if isinstance(x, bool):
            x = ik("int", int(x))
        if isinstance(y, bool):
            y = ik("int", int(y))
        if isinstance(x, tuple) and x and x[0] == "sgn":
            return self.cmpsgn(st, op, x, y)
        if isinstance(x, tuple) and x and x[0] == "pred":
            return [r for s, b in self.truth(st, x) for r in self.compare(s, op, ik("int", int(b)), y)]
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "h":
            same = x[1] == y[1]
            return [(st, same if op == "==" else not same)]
        if not (isinstance(x, I) and isinstance(y, I)):
            raise Unsupported("comparison")
        x, y = st.re(x), st.re(y)
        D = x.R - y.R
        sg = st.sign(D)
        lo, hi = x.lo - y.hi, x.hi - y.lo
        if lo > 0:
            sg = sg & {1}
        if hi < 0:
            sg = sg & {-1}
        if lo >= 0:
            sg = sg - {-1}
        if hi <= 0:
            sg = sg - {1}
        want = {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {0, 1}, "==": {0}, "!=": {-1, 1}}[op]
        if not sg & want:
            return [(st, False)]
        if sg <= want:
            return [(st, True)]
        one = RK(1)
        T = {"<": ("le", D + one), "<=": ("le", D), ">": ("le", -D + one), ">=": ("le", -D), "==": ("eq", D), "!=": ("ne", D)}
        N = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
        return [(s, i == 0) for s, i in self.both(st, [[T[op]], [T[N[op]]]])]

    def cmpsgn(self, st, op, x, y):
        c = y.c() if isinstance(y, I) else None
        if c is None:
            raise Unsupported("sign comparison")
        out = []
        for s, v in self.signs(st, x[1]):
            out.append((s, {"<": v < c, "<=": v <= c, ">": v > c, ">=": v >= c, "==": v == c, "!=": v != c}[op]))
        if c not in (0,):
            if not (op in ("==", "!=") and abs(c) == 1) and c != 0:
                raise Unsupported("sign compared with a nonzero constant")
        return out

    def signs(self, st, R):
        sg = st.sign(R)
        if len(sg) == 1:
            return [(st, next(iter(sg)))]
        alts = {-1: [("lt", R)], 0: [("eq", R)], 1: [("lt", -R)]}
        out = []
        for v in sorted(sg):
            for s, _ in self.both(st, [alts[v]]):
                out.append((s, v))
        return out

    # ---------------------------------------------------------------- arithmetic
    def arith(self, st, op, x, y, t, node):
        if isinstance(x, bool):
            x = ik("int", int(x))
        if isinstance(y, bool):
            y = ik("int", int(y))
        if not (isinstance(x, I) and isinstance(y, I)):
            raise Unsupported("arithmetic on " + str(type(x)))
        x, y = st.re(x), st.re(y)
        t = t.replace("const ", "")
        if t not in RANGE:
            raise Unsupported("type " + t)
        if op in ("+", "-", "*"):
            R = x.R + y.R if op == "+" else x.R - y.R if op == "-" else x.R * y.R
            if op == "+":
                lo, hi = x.lo + y.lo, x.hi + y.hi
            elif op == "-":
                lo, hi = x.lo - y.hi, x.hi - y.lo
            else:
                v = [a * b for a in (x.lo, x.hi) for b in (y.lo, y.hi)]
                lo, hi = min(v), max(v)
            return self.fit(st, t, I(t, R, lo, hi), node, True)
        if op in ("&", "|", "^", "<<", ">>"):
            a, b = x.c(), y.c()
            if a is None or b is None:
                raise Unsupported("bit operation")
            if op in ("<<", ">>") and not 0 <= b < 200:
                raise Unsupported("shift")
            r = a & b if op == "&" else a | b if op == "|" else a ^ b if op == "^" else a << b if op == "<<" else a >> b
            return self.fit(st, t, ik(t, r), node, True)
        if op in ("/", "%"):
            return self.divide(st, op, x, y, t, node)
        raise Unsupported("operator " + op)

    def divide(self, st, op, x, y, t, node):
        sy = st.sign(y.R)
        if y.lo > 0 or y.hi < 0:
            sy = sy - {0}
        if 0 in sy:
            R = y.R
            self.oblige(st, "overflow", f"{self.op}: {self.fnname()} line {node.get('l', 0)}", node, False, lambda val: R.ev(val) == 0, "division by zero")
            st = st.copy()
            st.add("ne", R)
        cx, cy = x.c(), y.c()
        if cx is not None and cy is not None:
            q = abs(cx) // abs(cy)
            q = q if (cx < 0) == (cy < 0) else -q
            return self.fit(st, t, ik(t, q if op == "/" else cx - q * cy), node, True)
        if cy == 1:
            return [(st, I(t, x.R, x.lo, x.hi) if op == "/" else ik(t, 0))]
        if st.divides(y.R, x.R):
            if op == "%":
                return [(st, ik(t, 0))]
            R = x.R / y.R
            lo, hi = self.quot(x, y, True)
            return self.fit(st, t, I(t, R, lo, hi), node, True)
        # truncating division: x = q*y + r
        s = st.copy()
        q, r = self.fresh("quo"), self.fresh("rem")
        lo, hi = self.quot(x, y, False)
        s.b[q] = (lo, hi)
        m = max(abs(y.lo), abs(y.hi)) - 1
        s.b[r] = (0 if x.lo >= 0 else -m, 0 if x.hi <= 0 else m)
        s.defs.append((q, "tdiv", (x.R, y.R)))
        s.defs.append((r, "tmod", (x.R, y.R)))
        if st.coprime(x.R, y.R) and (y.lo >= 2 or y.hi <= -2):
            s.add("ne", RS(r))
        if y.lo > 0:
            s.add("le", RS(r) - y.R + RK(1))
            s.add("le", -RS(r) - y.R + RK(1))
        try:
            s.add("eq", x.R - RS(q) * y.R - RS(r))
        except Infeasible:
            return []
        out = I(t, RS(q), *s.bound(q)) if op == "/" else I(t, RS(r), *s.bound(r))
        return [(s, out)]

    @staticmethod
    def quot(x, y, exact):
        ys = [v for v in (y.lo, y.hi) if v]
        if y.lo < 0 < y.hi:
            ys += [1, -1]
        if y.lo == 0:
            ys.append(1)
        if y.hi == 0:
            ys.append(-1)
        vs = []
        for a in (x.lo, x.hi):
            for b in ys:
                q = abs(int(a)) // abs(int(b))
                vs.append(q if (a < 0) == (b < 0) else -q)
        lo, hi = min(vs), max(vs)
        if exact and (x.lo > 0 or x.hi < 0) and (y.lo > 0 or y.hi < 0):
            if (x.lo > 0) == (y.lo > 0):
                lo = max(lo, 1)
            else:
                hi = min(hi, -1)
        return lo, hi

    def gcd(self, st, x, y, t, node):
        """gcd of two nonnegative integers."""
        out = []
        for s, xz in self.compare(st, "==", x, ik(x.ty, 0)):
            if xz:
                out.append((s, s.re(y)))
                continue
            for s2, yz in self.compare(s, "==", y, ik(y.ty, 0)):
                if yz:
                    out.append((s2, s2.re(x)))
                    continue
                out += self.gcd2(s2, x, y, t, node)
        return out

    def gcd2(self, s, x, y, t, node):
        x, y = s.re(x), s.re(y)
        if s.coprime(x.R, y.R):
            return [(s, ik(t, 1))]
        if x.R.eq(y.R):
            return [(s, x)]
        for g, (u, v) in s.gcds.items():
            if (u.eq(x.R) and v.eq(y.R)) or (u.eq(y.R) and v.eq(x.R)):
                lo, hi = s.bound(g)
                return [(s, I(t, RS(g), lo, hi))]
        hi = min(x.hi, y.hi)
        # (n1*(q/g0) +- n2*(p/g0)) and p*(q/g0): the gcd divides g0 = gcd(p, q)
        cops = s.cops()
        pairs = [(RS(g), u, v) for g, (u, v) in s.gcds.items()] + [(RK(1), u, v) for u, v in cops] + [(v, v, v) for u, v in cops]
        for g0, p, q in pairs:
            if not (y.R * g0).eq(p * q):
                continue
            n1 = [u for u, v in cops if v.eq(p)] + [v for u, v in cops if u.eq(p)]
            n2 = [u for u, v in cops if v.eq(q)] + [v for u, v in cops if u.eq(q)]
            X = x.R * g0
            for a in n1:
                for b in n2:
                    if any(X.eq(c) or X.eq(-c) for c in (a * q + b * p, a * q - b * p)):
                        h = 1 if g0.const() == 1 else s.interval(g0)[1]
                        hi = min(hi, h)
        if hi == 1:
            s = s.copy()
            s.cop.append((x.R, y.R))
            return [(s, ik(t, 1))]
        s = s.copy()
        g = self.fresh("g")
        s.b[g] = (1, hi)
        s.gcds[g] = (x.R, y.R)
        s.defs.append((g, "gcd", (x.R, y.R)))
        lo, hi = s.bound(g)
        return [(s, I(t, RS(g), lo, hi))]

    # ---------------------------------------------------------------- calls
    def new_obj(self, st):
        s = st.copy()
        oid = self.fresh("o")
        s.objs[oid] = {"state": None, "num": None, "den": None, "mpq": None}
        return s, oid

    def new_handle(self, st):
        s = st.copy()
        h = self.fresh("h")
        s.hs[h] = {"n": None, "d": None, "val": None, "canon": False, "live": True}
        return s, h

    def args(self, st, e):
        """Evaluates arguments: [(st, [values])]; references and class objects become bindings."""
        res = [(st, [])]
        pts = e.get("pt", [])
        for i, a in enumerate(e["a"]):
            pt = pts[i] if i < len(pts) else ""
            ref = pt.endswith("&")
            nxt = []
            for s, vs in res:
                if ref and a["e"] in ("var", "mem", "this", "un", "mcall", "call", "ctor", "cond", "list", "cast"):
                    try:
                        for s2, lv in self.lval(s, a):
                            nxt.append((s2, vs + [("bind", lv) if lv[0] != "obj" else lv]))
                        continue
                    except Unsupported:
                        pass
                for s2, v in self.ev(s, a):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def val(self, st, v, node=None):
        if isinstance(v, tuple) and v and v[0] == "bind":
            return self.load(st, v[1], node or {})
        return v

    def call(self, st, e):
        n = F.strip_targs(e["n"])
        if n == "__assert_fail":
            return []
        if n in ("abort", "std::abort", "std::terminate", "exit", "std::unreachable", "__builtin_unreachable") or e.get("noret"):
            self.oblige(st, "overflow", f"{self.op}: {self.fnname()} line {e.get('l', 0)}", e, False, None, f"reaches {n}()")
            return []
        objs = [(st, None)]
        if e["e"] == "mcall":
            objs = []
            for s, lv in self.lval(st, e["o"]):
                if isinstance(lv, tuple) and lv[0] == "addr":
                    lv = lv[1]
                objs.append((s, lv))
        out = []
        for s, o in objs:
            for s2, vs in self.args(s, e):
                out += self.call1(s2, e, n, o, vs)
        return out

    def call1(self, st, e, n, o, vs):
        short = n.split("::")[-1]
        V = lambda i: self.val(st, vs[i], e)
        if n.startswith("std::swap") or n == "std::exchange":
            if n == "std::exchange":
                raise Unsupported("exchange")
            a, b = vs[0][1], vs[1][1]
            if vs[0][0] != "bind":
                raise Unsupported("swap of objects")
            x, y = self.load_raw(st, a), self.load_raw(st, b)
            return [(self.store(self.store(st, a, y), b, x), None)]
        if short in ("move", "forward", "as_const") and n.startswith("std::"):
            return [(st, vs[0])]
        if short in ("gcd", "__gcd", "lcm") and len(vs) == 2 and isinstance(V(0), I) and short != "lcm":
            x, y = V(0), V(1)
            if x.lo < 0 or y.lo < 0:
                raise Unsupported("gcd of a negative number")
            return self.gcd(st, x, y, e["t"].replace("const ", ""), e)
        if n in ("std::min", "std::max") and len(vs) == 2:
            out = []
            for s, b in self.compare(st, "<" if short == "min" else ">", V(0), V(1)):
                out.append((s, V(0) if b else V(1)))
            return out
        if n in ("std::abs", "abs", "labs", "std::labs") and len(vs) == 1 and isinstance(V(0), I):
            out = []
            x = V(0)
            for s, b in self.compare(st, "<", x, ik(x.ty, 0)):
                out += self.fit(s, x.ty, I(x.ty, -x.R, -x.hi, -x.lo), e, True) if b else [(s, x)]
            return out
        if short.startswith("__builtin_") and short.endswith("_overflow"):
            return self.builtin_overflow(st, short, vs, e)
        if n.startswith("__builtin_expect") or n.startswith("__builtin_assume"):
            return [(st, V(0) if vs else None)]
        if "mpqPool" in n:
            if short == "alloc":
                s, h = self.new_handle(st)
                return [(s, ("h", h))]
            if short == "release":
                h = V(0)
                s = st.copy()
                if h[1] is None or not s.hs[h[1]]["live"]:
                    self.oblige(st, "owner", f"{self.op}: release", e, False, None, "releases a number it does not own")
                    return []
                s.hs[h[1]]["live"] = False
                return [(s, None)]
        if short.startswith("__gmp") or short.startswith("mpq_") or short.startswith("mpz_"):
            return self.gmp(st, e, short.replace("__gmpq_", "mpq_").replace("__gmpz_", "mpz_"), [self.val(st, v, e) for v in vs])
        if short == "get_mpz_t":
            return [(st, ("z", "tmp"))]
        if short == "get_mpq_t":
            raise Unsupported("mpq_class")
        fn = self.P.fns.get(e["f"])
        if fn is None or fn.get("b") is None:
            raise Unsupported(f"call of {n}")
        return self.apply(st, fn, o, vs, e)

    def load_raw(self, st, lv):
        if lv[0] == "fld":
            return st.objs[lv[1]].get(lv[2])
        return self.load(st, lv, {})

    def builtin_overflow(self, st, short, vs, e):
        op = {"add": "+", "sub": "-", "mul": "*"}.get(short.split("_")[3].lstrip("us").replace("ll", "").replace("l", "") or "", None)
        for k, c in (("add", "+"), ("sub", "-"), ("mul", "*")):
            if k in short:
                op = c
        x, y, dst = self.val(st, vs[0], e), self.val(st, vs[1], e), vs[2]
        if dst[0] != "addr":
            raise Unsupported("overflow builtin")
        lv = dst[1]
        ty = e["a"][2]["t"].replace("const ", "").rstrip(" *")
        mn, mx = RANGE[ty]
        R = x.R + y.R if op == "+" else x.R - y.R if op == "-" else x.R * y.R
        out = []
        for s, i in self.both(st, [[("le", R - RK(mx)), ("le", RK(mn) - R)], [("le", RK(mx + 1) - R)], [("le", R - RK(mn - 1))]]):
            if i == 0:
                lo, hi = s.interval(R)
                out.append((self.store(s, lv, I(ty, R, max(lo, mn), min(hi, mx))), False))
            else:
                for s2, w in self.fit(s, ty, I(ty, R, *s.interval(R)), e, False):
                    out.append((self.store(s2, lv, w), True))
        return out

    def apply(self, st, fn, o, vs, e):
        if len(self.stack) > 14:
            raise Unsupported("call depth")
        self.visited.add(fn["id"])
        s = st.copy()
        fr = {}
        if o is not None:
            if o[0] not in ("obj", "gl"):
                raise Unsupported("receiver")
            fr["this"] = o
        for p, v in zip(fn["ps"], vs):
            if isinstance(v, tuple) and v and v[0] == "bind" and not p.get("ref"):
                v = self.val(s, v, e)
            if not p.get("ref") and isinstance(v, tuple) and v and v[0] == "obj":
                s, v = self.copy_obj(s, v, e)
            if p.get("ref") and isinstance(v, tuple) and v and v[0] == "bind" and v[1][0] == "obj":
                v = v[1]
            fr[p["id"]] = v
        s.fr.append(fr)
        self.stack.append((fn["q"].replace("yaga::", ""), F.rel(fn["file"]) if "file" in fn else "?"))
        try:
            res = self.body(s, fn["b"])
        finally:
            self.stack.pop()
        out = []
        for s2, r in res:
            s2.fr.pop()
            out.append((s2, r))
        return out

    def copy_obj(self, st, v, e):
        s, oid = self.new_obj(st)
        s.objs[oid] = dict(s.objs[v[1]])
        return s, ("obj", oid)

    def ctor(self, st, e):
        cls = F.strip_targs(e.get("cls", ""))
        if cls != OBJ:
            raise Unsupported("object of " + cls)
        if (e.get("copy") or e.get("move")) and e["a"]:
            a = e["a"][0]
            if a["e"] in ("ctor", "call", "mcall") and not a.get("lv"):
                return self.ev(st, a)
        fn = self.P.fns.get(e["f"])
        out = []
        for s, vs in self.args(st, e):
            s, oid = self.new_obj(s)
            out += self.construct(s, fn, oid, vs, e)
        return out

    def construct(self, st, fn, oid, vs, e):
        if fn is None:
            raise Unsupported("constructor without a body")
        s = st
        fr = {"this": ("obj", oid)}
        for p, v in zip(fn["ps"], vs):
            if isinstance(v, tuple) and v and v[0] == "bind" and not p.get("ref"):
                v = self.val(s, v, e)
            if p.get("ref") and isinstance(v, tuple) and v and v[0] == "bind" and v[1][0] == "obj":
                v = v[1]
            fr[p["id"]] = v
        s.fr.append(fr)
        self.visited.add(fn["id"])
        self.stack.append((fn["q"].replace("yaga::", ""), F.rel(fn["file"]) if "file" in fn else "?"))
        try:
            states = [s]
            for i in fn.get("inits", []):
                if "field" not in i:
                    # delegating constructor
                    x = i.get("x") or {}
                    tgt = self.P.fns.get(x.get("f"))
                    nxt = []
                    for s in states:
                        for s2, v2 in self.args(s, x):
                            nxt += [s3 for s3, _ in self.construct(s2, tgt, oid, v2, x)]
                    states = nxt
                    continue
                nxt = []
                for s in states:
                    x = i["x"]
                    for s2, v in self.ev(s, x):
                        if i["field"] in ("num", "den", "state") and isinstance(v, bool):
                            v = ik("int", int(v))
                        nxt.append(self.store(s2, ("fld", oid, i["field"]), None if v == ("h", None) else v))
                states = nxt
            out = []
            for s in states:
                out += self.body(s, fn["b"]) if fn.get("b") else [(s, None)]
        finally:
            self.stack.pop()
        res = []
        for s, _ in out:
            s.fr.pop()
            res.append((s, ("obj", oid)))
        return res

    # ---------------------------------------------------------------- statements
    def body(self, st, b):
        """[(state, return value)]"""
        out = []
        work = [(st, 0)]
        stmts = b["a"] if b.get("s") == "block" else [b]
        labels = {x["n"]: i for i, x in enumerate(stmts) if x and x.get("s") == "label"}
        n = 0
        while work:
            n += 1
            if n > 5000:
                raise Unsupported("too many paths")
            s, i = work.pop()
            if i >= len(stmts):
                out.append((s, None))
                continue
            for s2, o in self.run(s, stmts[i]):
                if o is None:
                    work.append((s2, i + 1))
                elif o[0] == "ret":
                    out.append((s2, o[1]))
                elif o[0] == "goto" and o[1] in labels:
                    work.append((s2, labels[o[1]]))
                else:
                    raise Unsupported("control flow " + str(o[0]))
        return out

    def run(self, st, n):
        try:
            return self.run1(st, n)
        except Infeasible:
            return []

    def run1(self, st, n):
        if n is None:
            return [(st, None)]
        k = n["s"]
        if k == "block":
            res = [(st, None)]
            for x in n["a"]:
                nxt = []
                for s, o in res:
                    if o is None:
                        nxt += self.run(s, x)
                    else:
                        nxt.append((s, o))
                res = nxt
            return res
        if k == "label":
            return self.run(st, n["x"])
        if k == "goto":
            return [(st, ("goto", n["n"]))]
        if k == "null":
            return [(st, None)]
        if k == "expr":
            x = n["x"]
            if x["e"] == "cond" and self.is_assert(x):
                return [(st, None)]
            return [(s, None) for s, _ in self.ev(st, x)]
        if k == "decl":
            res = [st]
            for d in n["a"]:
                nxt = []
                for s in res:
                    if "x" not in d:
                        nxt.append(s)
                        continue
                    t = d["t"].replace("const ", "")
                    if d.get("ref"):
                        for s2, lv in self.lval(s, d["x"]):
                            s2 = s2.copy()
                            s2.fr[-1][d["id"]] = ("bind", lv) if lv[0] != "obj" else lv
                            nxt.append(s2)
                        continue
                    for s2, v in self.ev(s, d["x"]):
                        if isinstance(v, tuple) and v and v[0] == "bind":
                            v = self.val(s2, v, d)
                        if isinstance(v, bool) and t != "bool":
                            v = ik(t, int(v))
                        s2 = s2.copy()
                        s2.fr[-1][d["id"]] = v
                        nxt.append(s2)
                res = nxt
            return [(s, None) for s in res]
        if k == "if":
            if n.get("init"):
                out = []
                for s, _ in self.run(st, n["init"]):
                    m = dict(n)
                    m.pop("init")
                    out += self.run(s, m)
                return out
            out = []
            for s, b in self.cond(st, n["c"]):
                br = n.get("x") if b else n.get("y")
                out += self.run(s, br) if br else [(s, None)]
            return out
        if k == "do":
            out = []
            for s, o in self.run(st, n["x"]):
                if o is not None and o[0] in ("brk",):
                    out.append((s, None))
                elif o is not None and o[0] != "cont":
                    out.append((s, o))
                else:
                    for s2, b in self.cond(s, n["c"]):
                        if b:
                            raise Unsupported("loop")
                        out.append((s2, None))
            return out
        if k == "ret":
            if n.get("x") is None:
                return [(st, ("ret", None))]
            x = n["x"]
            if x["e"] in ("un",) and x["op"] == "*":
                return [(s, ("ret", ("bind", lv) if lv[0] != "obj" else lv)) for s, lv in self.lval(st, x)]
            if x["e"] == "var" and F.strip_targs(x.get("t", "")).replace("const ", "") == OBJ:
                return [(s, ("ret", lv)) for s, lv in self.lval(st, x)]
            return [(s, ("ret", v)) for s, v in self.ev(st, x)]
        if k == "break":
            return [(st, ("brk",))]
        raise Unsupported("statement " + k)

    # ---------------------------------------------------------------- GMP
    def content(self, st, v, e):
        """Value of an mpq operand; reports a read of a number that holds nothing."""
        if not (isinstance(v, tuple) and v[0] == "h"):
            raise Unsupported("mpq operand")
        if v[1] is None or not st.hs[v[1]]["live"]:
            self.oblige(st, "repr", f"{self.op}: {self.fnname()}", e, False, None, "uses a big number that is not allocated")
            raise Infeasible
        h = st.hs[v[1]]
        if h["val"] is None:
            self.oblige(st, "repr", f"{self.op}: {self.fnname()}", e, False, None, "reads a big number that does not hold the current value")
            raise Infeasible
        return h["val"]

    def part(self, st, v, e):
        if v[0] == "z":
            r = st.hs.get("tmp", {}).get("val")
            if r is None:
                raise Unsupported("mpz value")
            return st, r
        if v[0] == "zsym":
            return st, v[1]
        _, h, w = v
        H = st.hs[h]
        if not H["live"] or H["val"] is None and H[w] is None:
            self.oblige(st, "repr", f"{self.op}: {self.fnname()}", e, False, None, "reads a big number that does not hold the current value")
            raise Infeasible
        if H["n"] is None or H["d"] is None:
            s = st.copy()
            H = s.hs[h]
            d = None
            for sym, kind, a in s.defs:
                if kind == "denof" and a[0].eq(H["val"]):
                    d = sym
            if d is None:
                d = self.fresh("D")
                s.b[d] = (1, BIG)
                s.defs.append((d, "denof", (H["val"],)))
                s.cop.append((H["val"] * RS(d), RS(d)))
            H["d"] = RS(d)
            H["n"] = H["val"] * RS(d)
            st = s
        return st, st.hs[h][w]

    def dest(self, st, v, e):
        if not (isinstance(v, tuple) and v[0] == "h") or v[1] is None or not st.hs[v[1]]["live"]:
            self.oblige(st, "repr", f"{self.op}: {self.fnname()}", e, False, None, "writes a big number that is not allocated")
            raise Infeasible
        return v[1]

    def gmp(self, st, e, n, a):
        if n in ("mpq_add", "mpq_sub", "mpq_mul", "mpq_div"):
            d = self.dest(st, a[0], e)
            x, y = self.content(st, a[1], e), self.content(st, a[2], e)
            if n == "mpq_div" and 0 in st.sign(y):
                self.oblige(st, "overflow", f"{self.op}: {self.fnname()}", e, False, lambda val: y.ev(val) == 0, "division by zero")
            v = {"mpq_add": lambda: x + y, "mpq_sub": lambda: x - y, "mpq_mul": lambda: x * y, "mpq_div": lambda: x / y}[n]()
            s = st.copy()
            s.hs[d].update(val=v, n=None, d=None, canon=st.hs[a[1][1]]["canon"] and st.hs[a[2][1]]["canon"])
            return [(s, None)]
        if n in ("mpq_neg", "mpq_set", "mpq_abs", "mpq_inv"):
            d = self.dest(st, a[0], e)
            x = self.content(st, a[1], e)
            s = st.copy()
            if n == "mpq_inv":
                v = RK(1) / x
            elif n == "mpq_abs":
                raise Unsupported(n)
            else:
                v = -x if n == "mpq_neg" else x
            src = st.hs[a[1][1]]
            s.hs[d].update(val=v, n=None, d=None, canon=src["canon"])
            if n == "mpq_set":
                s.hs[d].update(n=src["n"], d=src["d"])
            return [(s, None)]
        if n in ("mpq_set_ui", "mpq_set_si"):
            d = self.dest(st, a[0], e)
            s = st.copy()
            s.hs[d].update(val=a[1].R / a[2].R, n=a[1].R, d=a[2].R, canon=s.coprime(a[1].R, a[2].R))
            return [(s, None)]
        if n == "mpq_set_str":
            d = self.dest(st, a[0], e)
            s = st.copy()
            s.hs[d].update(val=RS("input"), n=None, d=None, canon=False)
            return [(s, ik("int", 0))]
        if n == "mpq_canonicalize":
            d = self.dest(st, a[0], e)
            self.content(st, a[0], e)
            s = st.copy()
            s.hs[d]["canon"] = True
            return [(s, None)]
        if n in ("mpq_cmp", "mpq_sgn", "mpq_equal"):
            x = self.content(st, a[0], e)
            if n == "mpq_sgn":
                return [(st, ("sgn", x))]
            y = self.content(st, a[1], e)
            if n == "mpq_cmp":
                return [(st, ("sgn", x - y))]
            D = x - y
            sg = st.sign(D)
            if sg == {0}:
                return [(st, True)]
            if 0 not in sg:
                return [(st, False)]
            return [(s, i == 0) for s, i in self.both(st, [[("eq", D)], [("ne", D)]])]
        if n in ("mpz_set_si", "mpz_set_ui", "mpz_set"):
            if n == "mpz_set":
                st, r = self.part(st, a[1], e)
            else:
                r = a[1].R
            s = st.copy()
            if a[0][0] == "part":
                H = s.hs[a[0][1]]
                if not H["live"]:
                    self.oblige(st, "repr", f"{self.op}: {self.fnname()}", e, False, None, "writes a big number that is not allocated")
                    raise Infeasible
                H[a[0][2]] = r
                H["fresh"] = tuple(sorted(set(H.get("fresh", ())) | {a[0][2]}))
                if set(H["fresh"]) == {"n", "d"}:
                    H["val"] = H["n"] / H["d"]
                    H["canon"] = s.coprime(H["n"], H["d"])
                    H["fresh"] = ()
                else:
                    H["val"] = None
                    H["n" if a[0][2] == "d" else "d"] = None
                return [(s, None)]
            s.hs["tmp"] = {"val": r, "n": None, "d": None, "canon": True, "live": True}
            return [(s, None)]
        if n in ("mpz_fits_slong_p", "mpz_fits_ulong_p") and a[0][0] == "part":
            H = st.hs[a[0][1]]
            if not H["live"] or H["val"] is None:
                raise Unsupported("mpz_fits of a stale number")
            return [(st, ("pred", "fitsl_" + n[9], H["val"] if a[0][2] == "n" else None)) if a[0][2] == "n" else self.unsup("mpz_fits of a denominator")]
        if n in ("mpz_fits_sint_p", "mpz_fits_uint_p"):
            v = a[0]
            if v[0] in ("z", "zsym"):
                s, r = self.part(st, v, e)
                return [(s, ("pred", "fits_z" if "sint" in n else "fits_zu", r))]
            H = st.hs[v[1]]
            if not H["live"] or H["val"] is None:
                self.oblige(st, "repr", f"{self.op}: {self.fnname()}", e, False, None, "tests a big number that does not hold the current value")
                raise Infeasible
            if (v[2] == "n") != ("sint" in n):
                s, r = self.part(st, v, e)
                return [(s, ("pred", "fits_z" if "sint" in n else "fits_zu", r))]
            return [(st, ("pred", "fits_" + v[2], H["val"]))]
        if n in ("mpz_get_si", "mpz_get_ui"):
            s, r = self.part(st, a[0], e)
            s = s.copy()
            t = "long" if n == "mpz_get_si" else "unsigned long"
            rng = None
            if a[0][0] == "part":
                kind = "fits_" + a[0][2]
                val = s.hs[a[0][1]]["val"]
                if any(k == kind and x.eq(val) and b for k, x, b in s.preds):
                    rng = RANGE["int" if a[0][2] == "n" else "unsigned int"]
            elif any(k == "fits_z" and x.eq(r) and b for k, x, b in s.preds):
                rng = RANGE["int"]
            lo, hi = s.interval(r)
            if rng:
                s.facts.append(("le", r - RK(rng[1])))
                s.facts.append(("le", RK(rng[0]) - r))
                lo, hi = max(lo, rng[0]), min(hi, rng[1])
                sym = r.n.sym() if r.d == ONE else None
                if sym and sym[1] == 1:
                    bl, bh = s.b.get(sym[0], (-BIG, BIG))
                    s.b[sym[0]] = (max(bl, rng[0]), min(bh, rng[1]))
            return self.fit(s, t, I(t, r, lo, hi), e, False)
        if n in ("mpz_cdiv_q", "mpz_fdiv_q"):
            s, x = self.part(st, a[1], e)
            s, y = self.part(s, a[2], e)
            s = s.copy()
            q = self.fresh("round")
            s.b[q] = (-BIG, BIG)
            s.defs.append((q, "ceil" if n == "mpz_cdiv_q" else "floor", (x / y,)))
            s.hs["tmp"] = {"val": RS(q), "n": None, "d": None, "canon": True, "live": True}
            return [(s, None)]
        if n in ("mpz_sgn", "mpz_cmp_ui", "mpz_gcd", "mpz_lcm", "mpz_divexact"):
            raise Unsupported(n)
        raise Unsupported("GMP " + n)
