"""Exact rational numbers and linear forms as values of the abstract interpreter.

Rational objects are numbers (their own correctness is C10/C11). A sparse polynomial object is a linear
form: a tuple of (variable, coefficient) over opaque variables. Equality of forms is decided by polynomial
identity testing on the symbolic coefficients (random rational points that satisfy the path's equalities)."""
import random
from fractions import Fraction
from termlib import *

LF = "yaga::Long_fraction"
POLY = "yaga::Polynomial"
UNDEF = ("glob", NS + "term_t::Undef")
ONE = ("one",)


def q_op(op, a, b):
    """Rational arithmetic on values."""
    if is_c(a) and is_c(b) and isinstance(cval(a), (int, Fraction)) and isinstance(cval(b), (int, Fraction)):
        x, y = Fraction(cval(a)), Fraction(cval(b))
        if op == "/" and y == 0:
            return ("q", op, a, b)
        r = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
        return C(int(r)) if r.denominator == 1 else C(r)
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if x == C(1):
                return y
            if x == C(0):
                return x
            if x == C(-1):
                return q_neg(y)
    if op == "+" and C(0) in (a, b):
        return b if a == C(0) else a
    if op == "-" and b == C(0):
        return a
    if op == "/" and b == C(1):
        return a
    return ("q", op, a, b)


def q_neg(a):
    if is_c(a):
        return C(-cval(a))
    if a[:2] == ("q", "neg"):
        return a[2]
    return ("q", "neg", a)


def lin(items):
    acc = {}
    for v, c in items:
        acc[v] = q_op("+", acc[v], c) if v in acc else c
    return ("lin", tuple(sorted(((v, c) for v, c in acc.items() if c != C(0)), key=repr)))


def lin_of(v):
    return v[1] if v[0] == "lin" else ((("poly", v), C(1)),)


def lin_scale(l, c):
    return lin([(v, q_op("*", c, k)) for v, k in l])


def lin_add(a, b, c=C(1)):
    return lin(list(lin_of(a)) + list(lin_scale(lin_of(b), c)[1]))


def rational_call(I, st, node, q, obj, args):
    """Model of the rational class. None: not a rational operation."""
    if q == "ctor:" + LF:
        vs = [I.val(st, a) for a in args]
        if not vs:
            return [(st, C(0))]
        if len(vs) == 1:
            return [(st, vs[0])]
        return [(st, q_op("/", vs[0], vs[1]))]
    owner, _, s = q.rpartition("::")
    if owner == LF:
        me = I.read(st, obj) if obj is not None else None
        vs = [I.val(st, a) for a in args]
        if s in ("operator+", "operator-", "operator*", "operator/") and me is not None:
            if not vs:
                return [(st, q_neg(me))]
            return [(st, q_op(s[-1], me, vs[0]))]
        if s in ("operator+=", "operator-=", "operator*=", "operator/="):
            return [(I.write(st, obj, q_op(s[-2], me, vs[0]), node), ("ref", obj))]
        if s == "operator=":
            return [(I.write(st, obj, vs[0], node), ("ref", obj))]
        if s in ("operator<", "operator>", "operator<=", "operator>=", "operator==", "operator!="):
            return [(st, I.cmp(s[8:], me, vs[0]))]
        if s in ("compare", "sign"):
            return [(st, ("call", "q" + s, (me,) + tuple(vs)))]
        if s == "negate":
            return [(I.write(st, obj, q_neg(me), node), VOID)]
        if s in ("inv", "inverse"):
            return [(st, q_op("/", C(1), me))]
        if s == "isZero":
            return [(st, I.cmp("==", me, C(0)))]
        if s in ("isInteger", "ceil", "floor", "get_num", "get_den", "get_d", "getHashValue", "print"):
            return [(st, ("call", "q" + s, (me,)))]
        return [(st, ("call", q, ((me,) if me is not None else ()) + tuple(vs)))]
    if owner == "yaga" and args:
        vs = [I.val(st, a) for a in args]
        if s in ("addition", "substraction", "multiplication", "division") and len(args) == 3 and args[0][0] == "ref":
            op = {"addition": "+", "substraction": "-", "multiplication": "*", "division": "/"}[s]
            return [(I.write(st, args[0][1], q_op(op, vs[1], vs[2]), node), VOID)]
        if s in ("additionAssign", "substractionAssign", "multiplicationAssign", "divisionAssign") and args[0][0] == "ref":
            op = {"a": "+", "s": "-", "m": "*", "d": "/"}[s[0]]
            return [(I.write(st, args[0][1], q_op(op, vs[0], vs[1]), node), VOID)]
        if s in ("isNegative", "isPositive", "isNonNegative", "isNonPositive"):
            return [(st, I.cmp({"isNegative": "<", "isPositive": ">", "isNonNegative": ">=", "isNonPositive": "<="}[s], vs[0], C(0)))]
        if s == "is_zero":
            return [(st, I.cmp("==", vs[0], C(0)))]
        if s in ("gcd", "lcm", "abs"):
            return [(st, ("call", "q" + s, tuple(vs)))]
    return None


class LinHooks(TermHooks):
    """Term hooks plus rational numbers and Polynomial<term_t> objects."""

    def call(self, I, st, node, q, obj, args):
        r = rational_call(I, st, node, q, obj, args)
        if r is not None:
            return r
        s = q.split("::")[-1]
        if q == "ctor:" + POLY and not args:
            return [(st, ("lin", ()))]
        if q == "ctor:" + POLY and len(args) == 1:
            return [(st, I.val(st, args[0]))]
        if q.startswith(POLY + "::") and obj is not None and q.count("::") == 2:
            me = I.read(st, obj)
            vs = [I.val(st, a) for a in args]
            if s == "merge" and len(vs) >= 2:
                return [(I.write(st, obj, lin_add(me, vs[0], vs[1]), node), VOID)]
            if s == "negate":
                return [(I.write(st, obj, lin_scale(lin_of(me), C(-1)), node), VOID)]
            if s == "multiply_by":
                return [(I.write(st, obj, lin_scale(lin_of(me), vs[0]), node), VOID)]
            if s == "divide_by":
                return [(I.write(st, obj, lin_scale(lin_of(me), q_op("/", C(1), vs[0])), node), VOID)]
            if s == "add_term":
                v = elem(vs[0])
                while v[0] == "agg" and len(v[2]) == 1:
                    v = v[2][0][1]
                return [(I.write(st, obj, lin(list(lin_of(me)) + [(ONE if v == UNDEF else ("var", v), vs[1])]), node), VOID)]
            if s == "size":
                return [(st, ("call", "size", (me,)))]
            if s == "operator=":
                return [(I.write(st, obj, vs[0], node), ("ref", obj))]
        if q == TM + "term_to_poly" and q not in self.inline_these:
            return [(st, ("lin", ((("var", elem(I.val(st, args[0]))), C(1)),)))]
        if q == TM + "poly_to_term" and q not in self.inline_these:
            return [(st, ("call", "tp", (I.val(st, args[0]),)))]
        return super().call(I, st, node, q, obj, args)

    inline_these = ()


# ---------------------------------------------------------------- evaluation at random points
class Env:
    """Values for opaque names, consistent with a path's equalities where these can be solved."""

    def __init__(self, rnd, fixed=None):
        self.rnd, self.val = rnd, dict(fixed or {})

    def sym(self, k):
        if k not in self.val:
            x = 0
            while x == 0:
                x = Fraction(self.rnd.randint(-60, 60), self.rnd.choice((1, 2, 3, 5, 7)))
            self.val[k] = x
        return self.val[k]

    def num(self, v):
        """Value of a rational expression."""
        v = elem(v)
        if is_c(v) and isinstance(cval(v), (int, Fraction)) and not isinstance(cval(v), bool):
            return Fraction(cval(v))
        if v in self.val:
            return self.val[v]
        if v[0] == "q":
            if v[1] == "neg":
                return -self.num(v[2])
            a, b = self.num(v[2]), self.num(v[3])
            if v[1] == "/":
                if b == 0:
                    raise Unknown(v)
                return a / b
            return a + b if v[1] == "+" else a - b if v[1] == "-" else a * b
        if v[0] == "op" and len(v) == 4 and v[1] in "+-*":
            a, b = self.num(v[2]), self.num(v[3])
            return a + b if v[1] == "+" else a - b if v[1] == "-" else a * b
        if v[0] == "call" and v[1] == "arithmetic_constant_value":
            return self.term(v[2][0])
        return self.sym(v)

    def lin(self, l):
        if l[0] != "lin":
            k = ("poly", l)
            return self.val[k] if k in self.val else self.sym(k)
        t = Fraction(0)
        for v, c in l[1]:
            t += self.num(c) * (1 if v == ONE else self.term(v[1]) if v[0] == "var" else self.lin(v[1]))
        return t

    def term(self, t):
        """Value of a real term."""
        t = elem(t)
        while t[0] == "agg" and len(t[2]) == 1:
            t = t[2][0][1]
        if t in self.val:
            return self.val[t]
        if t == ZERO_T:
            return Fraction(0)
        if t[0] == "call":
            if t[1] == "tp":
                return self.lin(t[2][0])
            if t[1] == "arithmetic_constant":
                return self.num(t[2][0])
            if t[1] == "arithmetic_product":
                return self.num(t[2][0]) * self.term(t[2][1])
            if t[1] == "arithmetic_polynomial":
                it = flat(t[2][0])
                if it is None:
                    raise Unknown(t)
                return sum((self.term(x) for x in it), Fraction(0))
            if t[1] == "mk_arithmetic_minus":
                return self.term(t[2][0]) - self.term(t[2][1])
            if t[1] == "mk_unary_minus":
                return -self.term(t[2][0])
        return self.sym(t)
