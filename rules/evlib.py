"""Event analysis: what happens, in which order, per path and per loop iteration, with the vocabulary
of the solver core (literals, models, trail, watch lists) kept symbolic."""
from absint import *
import absint
import facts as F
from solverlib import size
from looplib import covered

VOIDV = C(None)
THIS = ("p", "this")
MUTATORS = ("push_back", "emplace_back", "pop_back", "clear", "erase", "insert", "emplace", "resize", "assign", "swap", "push", "pop", "append_range", "try_emplace", "insert_or_assign")


def pl(v):
    """Look through dereferenced parameters."""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "*" and isinstance(v[1], tuple) and v[1][:1] == ("p",):
            return v[1]
        return tuple(pl(x) for x in v)
    return v


def neg(v):
    return v[2][0] if v[:2] == ("call", "~") else ("call", "~", (v,))


def base(v):
    """(positive literal, negated?)"""
    return (v[2][0], True) if v[:2] == ("call", "~") else (v, False)


class Ev(Hooks):
    """st.auto = one tuple of events per open loop iteration (the last one is the innermost)."""
    merge_limit = 400
    max_depth = 8
    widen_counters = True
    forget = False          # nothing is remembered about memory from one iteration to the next
    nest = True             # events of inner loops are also (once) events of the outer ones
    flat_unrolled = False   # iterations of unrolled loops are straight-line code
    containers = ()         # last field names of containers whose changes are events

    def __init__(self, R):
        self.R = R
        self.ends, self.exits = [], []

    def start(self, **kw):
        return State(auto=((),), **kw)

    def keep(self, I, st):
        return st.auto

    def ev(self, st, *e):
        st = st.copy()
        if len(st.auto[-1]) < 12:
            st.auto = st.auto[:-1] + (st.auto[-1] + (e,),)
        return st

    def iter_begin(self, I, st, info):
        st = st.copy()
        st.auto = st.auto + ((),)
        return st

    def iter_end(self, I, st, info, how):
        self.ends.append((info, st.copy(), how, len(st.auto)))
        st = st.copy()
        outer = st.auto[-2]
        if info.get("unrolled") and self.flat_unrolled:
            outer = outer + tuple(e for e in st.auto[-1] if e[0] != "old")
            st.auto = st.auto[:-2] + (outer,)
            return st
        for e in () if not self.nest else st.auto[-1]:
            x = e if e[0] == "in" else ("in", info["site"]) + e
            if x not in outer:
                outer = outer + (x,)
        st.auto = st.auto[:-2] + (outer,)
        if self.forget and len(st.auto) <= self.forget:
            st.store = {k: v for k, v in st.store.items() if k[0][0] == "L"}
            st.facts = {}
            st.rel = {}
        return st

    def iter_leave(self, I, st, info):
        self.ends.append((info, st.copy(), "ret", len(st.auto)))
        st = st.copy()
        st.auto = st.auto[:-2] + (st.auto[-2] + st.auto[-1],)
        return st

    def loop_exit(self, I, st, info):
        self.exits.append((info, st.copy()))

    def vals(self, I, st, args):
        return tuple(pl(I.val(st, a)) for a in args)

    def watched_container(self, I, obj):
        """Name of the container for events, or None."""
        for i, p in enumerate(reversed(obj[1])):
            if isinstance(p, str):
                return p if p in self.containers else None
        return None


class Core(Ev):
    """Literals, variables, clauses, models and the trail as symbols."""

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q == "ctor:yaga::Literal" and len(args) == 1 and not node.get("copy") and not node.get("move"):
            return [(st, ("call", "lit", self.vals(I, st, args)))]
        if q.startswith("yaga::Literal_map::"):
            if s == "operator[]":
                return [(st, ("ref", I.sub(obj, ("at", self.vals(I, st, args)[0]))))]
            if s == "resize":
                return [(self.ev(st, "resize", obj, self.vals(I, st, args)), VOIDV)]
        if q.startswith("yaga::Literal::") or q in ("yaga::operator~", "yaga::operator==", "yaga::operator!="):
            vs = self.vals(I, st, args)
            me = pl(I.read(st, obj)) if obj is not None else None
            if s == "operator~":
                return [(st, neg(me if me is not None else vs[0]))]
            if s == "negate":
                return [(I.write(st, obj, neg(me), node), VOIDV)]
            if s == "is_negation":
                p, n = base(me)
                if p[:2] == ("call", "lit"):
                    return [(st, C(n))]
                return [(s2, C(b != n)) for s2, b in I.split(st, ("call", "negation", (p,)))]
            if s == "var":
                return [(st, ("call", "var", (base(me)[0],)))]
            if s == "operator==" and len(vs) + (me is not None) == 2:
                a, b = ((me,) + vs) if me is not None else vs
                return [(st, I.cmp("==", a, b))]
            if s == "operator!=" and len(vs) + (me is not None) == 2:
                a, b = ((me,) + vs) if me is not None else vs
                return [(st, I.cmp("!=", a, b))]
        if q.startswith("yaga::Variable::") and obj is not None and s in ("ord", "type"):
            me = pl(I.read(st, obj))
            if s == "ord":
                if me[:2] == ("call", "var") and me[2][0][:2] == ("call", "lit"):
                    return [(st, me[2][0][2][0])]
                return [(st, ("call", "ord", (me,)))]
            return [(st, ("call", "vtype", (me,)))]
        if q == "yaga::eval" and len(args) == 2:
            lit = self.vals(I, st, args)[1]
            if "Literal" in str(self.params(I, node)[-1]["t"] if self.params(I, node) else ""):
                p, n = base(lit)
                out = []
                for s2, d in I.split(st, ("call", "def", (("call", "var", (p,)),))):
                    if not d:
                        out.append((s2, ("none",)))
                    else:
                        out += [(s3, ("some", C(t != n))) for s3, t in I.split(s2, ("call", "true", (p,)))]
                return out
            return [(st, ("call", "evalclause", (lit,)))]
        if q.startswith(("yaga::Model_base::", "yaga::Model::")) and obj is not None:
            vs = self.vals(I, st, args)
            if s == "is_defined":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "def", (self.var_of(vs[0]),)))]
            if s == "value":
                return [(st, ("call", "value", (self.var_of(vs[0]),)))]
            if s in ("set_value", "clear", "resize"):
                return [(self.ev(st, s, self.var_of(vs[0]) if vs else None, *vs[1:]), VOIDV)]
            return [(st, ("call", s, vs))]
        if q.startswith("yaga::Trail::"):
            vs = self.vals(I, st, args)
            if s == "model":
                return [(st, ("ref", (("M", ("call", "model", vs)), ())))]
            if s in ("decide", "propagate", "backtrack", "clear"):
                return [(self.ev(st, "trail." + s, *vs), VOIDV)]
            if s == "empty":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "trail.empty", ()))]
            if s == "decision_level" and vs and not q.endswith("()"):
                return [(st, ("some", ("call", "level", vs)))]
            return [(st, ("ref", (("M", ("call", "trail." + s, vs)), ()))) if "&" in str(node.get("t", "")) else (st, ("call", "trail." + s, vs))]
        if q.startswith("yaga::Database::") and s in ("asserted", "learned"):
            return [(st, ("ref", (("M", ("call", "db." + s, ())), ())))]
        if obj is not None and s in MUTATORS and q.startswith("std::"):
            c = self.watched_container(I, obj)
            if c is not None:
                st = self.ev(st, s, obj, self.vals(I, st, args))
                return ("cont", st)
        return None

    def params(self, I, node):
        fn = I.P.fns.get(node.get("f"))
        return fn["ps"] if fn else []

    def var_of(self, o):
        """variable value of an ordinal"""
        return o[2][0] if o[:2] == ("call", "ord") else ("call", "var", (("call", "lit", (o,)),)) if o[0] != "c" else o


def truth(st, lit):
    """Value of a literal on this path: True, False, None (unassigned), or '?' when not known."""
    p, n = base(lit)
    d = st.facts.get(("call", "def", (("call", "var", (p,)),)))
    t = st.facts.get(("call", "true", (p,)))
    if d is False:
        return None
    if d and t is not None:
        return t != n
    return "?"


def nonfalse(st, lit):
    """Is the literal known not to be false?"""
    t = truth(st, lit)
    return True if t in (True, None) else False if t is False else None


def linear(v):
    """v = x + c"""
    if v[0] == "op" and v[1] in ("+", "-") and len(v) == 4 and isint(v[3]):
        b, c = linear(v[2])
        return b, c + (cval(v[3]) if v[1] == "+" else -cval(v[3]))
    if v[0] == "op" and v[1] == "+" and len(v) == 4 and isint(v[2]):
        b, c = linear(v[3])
        return b, c + cval(v[2])
    return v, 0


def relations(st, want):
    """Relations x ? y + k of the path with want(x): [(x, y, k, mask)]; y is None for constants."""
    out = []
    for (a, b), m in st.rel.items():
        for x, y, m2 in ((a, b, m), (b, a, absint.FLIP[m])):
            (x, cx) = linear(x)
            if not want(x):
                continue
            if isint(y):
                out.append((x, None, cval(y) - cx, m2))
            else:
                y, cy = linear(y)
                out.append((x, y, cy - cx, m2))
    return out


def possible(rels, n):
    """Can x be n, given relations of x with constants [(k, mask)]?"""
    return all(m & (LT if n < k else EQ if n == k else absint.GT) for k, m in rels)
