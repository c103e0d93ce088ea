"""Linear constraints, bounds and rational numbers as symbols of the event analysis."""
from evlib import *
from linlib import rational_call, q_op, q_neg, LF

LC = "yaga::Linear_constraint"
BOUNDS = "yaga::Variable_bounds"


def unneg(c):
    """(constraint without negation, negated?)"""
    return (c[2][0], True) if c[:2] == ("call", "~c") else (c, False)


def clit(c):
    p, n = unneg(c)
    l = ("call", "clit", (p,))
    return neg(l) if n else l


def star(v):
    """Objects behind references by their name."""
    return v[1] if v[:1] == ("*",) else v


def mem(*v):
    return ("ref", (("M", ("call",) + v), ()))


class Lra(Core):
    """Adds constraints (`clit`, `pred`, `rhs`, coefficients), bounds and rational numbers to the core vocabulary."""
    skip_asserts = True
    unroll = True
    flat_unrolled = True

    def project(self, I, st, v, p):
        if v[0] == "*" and v[1][:1] == ("call",) and v[1][1] in ("vars", "coef") and p in ("first", "second"):
            return ("it", (("M", v[1]), ()), ("b", 0) if p == "first" else ("e", 0))

    def watched_container(self, I, obj):
        return "local" if obj[0][0] == "L" else super().watched_container(I, obj)

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        r = rational_call(I, st, node, q, obj, args)
        if r is not None:
            return r
        if q.startswith(LC + "::") and q.count("::") == 2 and obj is not None and q not in self.inline_these:
            me = pl(I.read(st, obj))
            p, n = unneg(me)
            vs = self.vals(I, st, args)
            if s == "lit":
                return [(st, clit(me))]
            if s in ("pred", "rhs"):
                return [(st, ("call", s, (p,)))]
            if s in ("vars", "coef"):
                return [(st, mem(s, (p,)))]
            if s == "size":
                return [(st, ("call", "size", (("call", "vars", (p,)),)))]
            if s == "empty":
                return [(st, I.cmp("==", ("call", "size", (("call", "vars", (p,)),)), C(0)))]
            if s == "operator~":
                return [(st, p if n else ("call", "~c", (me,)))]
            if s == "negate":
                return [(I.write(st, obj, p if n else ("call", "~c", (me,)), node), VOIDV)]
            if s == "implied_value":
                return [(st, ("call", "implied", (p,)))]
            if s == "is_strict":
                return [(st, ("call", "is_strict", (me,)))]
            if s == "eval":
                return [(st, ("call", "ceval", (me,)))]
        if q.startswith("yaga::Order_predicate::") and obj is not None:
            me = pl(I.read(st, obj))
            vs = self.vals(I, st, args)
            if s in ("operator==", "operator!=") and vs:
                return [(st, I.cmp(s[8:], me, vs[0]))]
            if s.startswith("operator ") or s == "operator Type":
                return [(st, me)]
            if s == "operator()" and len(vs) == 2:
                return [(st, ("call", "holds", (me,) + vs))]
        if q == "ctor:yaga::Order_predicate" and len(args) == 1:
            return [(st, self.vals(I, st, args)[0])]
        if q.startswith("yaga::Theory_models::") and s in ("boolean", "owned"):
            return [(st, mem(s, ()))]
        if q.startswith(("yaga::Model_base::", "yaga::Model::")) and obj is not None and self.owned(I, st, obj):
            vs = self.vals(I, st, args)
            if s == "is_defined":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "adef", vs[:1]))]
            if s == "value":
                return [(st, ("call", "val", vs[:1]))]
            if s == "timestamp":
                return [(st, ("call", "ts", vs[:1]))]
            if s in ("set_value", "clear", "resize"):
                return [(self.ev(st, "own." + s, *vs), VOIDV)]
        if q.startswith(("yaga::Model_base::", "yaga::Model::")) and obj is not None and s == "timestamp":
            return [(st, ("call", "bts", self.vals(I, st, args)[:1]))]
        if q.startswith("yaga::Implied_value::") and q.count("::") == 2 and obj is not None and (q not in self.inline_these or obj != (("M", THIS), ())):
            me = star(pl(I.read(st, obj)))
            if s in ("value", "reason", "var"):
                return [(st, ("call", "b" + s, (me,)))]
            if s == "bounds":
                return [(st, mem("bounds", (me,)))]
            if s in ("is_strict", "is_obsolete"):
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "b" + s, (me,)))]
        if q in ("std::less::operator()", "std::greater::operator()", "std::less_equal::operator()", "std::greater_equal::operator()") and len(args) == 2:
            vs = self.vals(I, st, args)
            return [(s2, C(b)) for s2, b in I.split(st, I.cmp({"less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">="}[q.split("::")[1]], *vs))]
        return super().call(I, st, node, q, obj, args)

    inline_these = ()

    def owned(self, I, st, obj):
        return obj[0] == ("M", ("call", "owned", ()))


def q_sign(st, I, v):
    """Sign of a nonzero rational on this path: 1, -1, 0 (not known) or None (no such path)."""
    m = I.mask(st, v, C(0)) & ~EQ
    return None if not m else 1 if m == absint.GT else -1 if m == LT else 0
