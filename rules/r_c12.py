"""C12: the clauses and constraints a term is translated to define it."""
import itertools
from linlib import *
from looplib import covered
import absint

EXPLANATION = ("Internalizer_config::visit is analysed once per term kind with a symbolic term. Every literal is read as a truth value (map entries as the truth of the term they stand for, constraints as a comparison of a linear form with 0), "
               "and the recorded literal / the asserted clauses are compared with the meaning of the kind at all sign patterns and truth assignments; loops over arguments are decided for a generic argument plus coverage of the index range. "
               "internalize_poly is decided monomial by monomial; the traversal is decided by the effect of one worklist step.")
ASSUMPTIONS = ["the linear-constraint factory returns a literal equivalent to the constraint it is given (C15)", "terms are what the builders build: polynomials list each variable once, ite conditions are positive (C13, C14)"]

CFG = "yaga::parser::Internalizer_config::"
KIND = NS + "Kind"
T = ("p", "t")


def lneg(v):
    return v[1] if v[0] == "lneg" else ("lneg", v)


class Lits(LinHooks):
    """Literals as truth values of terms. auto = (stack of iteration records, must, may, inserted)."""
    max_depth = 10
    widen_counters = True
    kind = None
    polys = True
    vtype = None

    def __init__(self, P, R, kind=None):
        super().__init__(R)
        self.P, self.kind, self.seen, self.loops, self.partial, self.cov, self.bad_key = P, kind, {}, {}, set(), set(), []

    def keep(self, I, st):
        return None

    def is_map(self, obj):
        n = obj[1][-1] if obj is not None and obj[1] else None
        return n if n in ("internal_bool_vars", "internal_rational_vars") else None

    def lookup(self, I, st, m, key):
        """The literal / variable stored for a term."""
        if key[:2] == ("call", "positive_term"):
            x = key[2][0]
            if m == "internal_rational_vars":
                return [(st, ("rv", x))]
            neg = ("call", "is_negated", (x,))
            return [(s, lneg(("T", x)) if b else ("T", x)) for s, b in I.split(st, neg)]
        if m == "internal_rational_vars":
            return [(st, ("rv", key))]
        # a raw key: only entries of positive terms exist
        return [(s, ("T", key)) for s, b in I.split(st, ("call", "is_negated", (key,))) if not b]

    def table(self, I, st, node, s, vs):
        if s == "get_kind" and self.kind is not None and self.same(vs[0]):
            return [(st, C(self.kind))]
        if s == "positive_term" and vs and vs[0][:2] == ("call", "positive_term"):
            return [(st, vs[0])]
        if s == "is_negated" and vs and vs[0][:2] == ("call", "positive_term"):
            return [(st, C(False))]
        if s in ("get_args", "get_type", "index_of") and vs and vs[0][:2] == ("call", "positive_term"):
            vs = (vs[0][2][0],)
        if s == "get_type" and self.vtype is not None and vs[0] == T:
            return [(st, self.vtype)]
        return [(st, ("call", s, vs))]

    @staticmethod
    def same(v):
        return v in (T, ("call", "positive_term", (T,)))

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q == "ctor:" + "yaga::Literal":
            return None
        if q.startswith("yaga::Literal::") and obj is not None:
            v = I.val(st, ("ref", obj))
            if s == "operator~":
                return [(st, lneg(v))]
            if s == "negate":
                return [(I.write(st, obj, lneg(v), node), VOID)]
        if q == CFG + "internalize_poly" and self.polys:
            return [(st, ("ipoly", I.val(st, args[0])))]
        if q.startswith("yaga::utils::Linear_polynomial::") and obj is not None:
            v = I.val(st, ("ref", obj))
            if v[0] in ("ipoly", "lin"):
                if s == "negate":
                    return [(I.write(st, obj, lin_scale(lin_of(v), C(-1)), node), VOID)]
                if s == "subtract_var":
                    return [(I.write(st, obj, lin(list(lin_of(v)) + [(("var", self.varname(I.val(st, args[0]))), C(-1))]), node), VOID)]
        if q.startswith("yaga::Yaga::"):
            vs = tuple(I.val(st, a) for a in args)
            if s == "assert_clause":
                return [(self.clause(I, st, node, vs), VOID)]
            if s == "linear_constraint":
                return [(st, ("con", node["l"]) + vs)]
            if s in ("make", "make_function_application", "make_bool"):
                return [(st, ("call", s, vs))]
        m = self.is_map(obj)
        if m:
            vs = [I.val(st, a) for a in args]
            if s in ("at", "operator[]") and len(vs) == 1 and node.get("lhs") is None:
                return self.lookup(I, st, m, elem(vs[0]))
            if s == "insert" and len(vs) == 1 and vs[0][0] == "agg":
                d = dict(vs[0][2])
                if set(d) == {"first", "second"}:
                    return [(self.inserted(I, st, node, m, d["first"], d["second"]), ("call", "inserted", ()))]
            if s in ("emplace", "insert_or_assign", "try_emplace") and len(vs) == 2:
                return [(self.inserted(I, st, node, m, vs[0], vs[1]), ("call", "inserted", ()))]
            if s in ("contains", "count", "end", "size", "empty", "cend"):
                return [(st, ("call", s, (("map", m),) + tuple(vs)))]
            if s == "find":
                return [(st, ("call", "find", (("map", m),) + tuple(vs)))]
        return super().call(I, st, node, q, obj, args)

    @staticmethod
    def varname(v):
        if v[0] == "agg":
            d = dict(v[2])
            if "number" in d:
                return d["number"]
        return v

    def inserted(self, I, st, node, m, key, val):
        stack, must, may, ins = st.auto
        st = st.copy()
        st.auto = (stack, must, may, ins | {(m, key, val)})
        return st

    def clause(self, I, st, node, vs):
        vs = tuple(vs)
        items = []
        for v in vs:
            it = v[1] if v[0] == "vec" else None
            items += list(it) if it is not None else [v]
        c = (tuple(items), node["l"])
        stack, must, may, ins = st.auto
        st = st.copy()
        if stack:
            st.auto = (stack[:-1] + ((stack[-1][0], stack[-1][1] | {c}),), must, may, ins)
            for cont, idx in indexed(vs):
                self.seen.setdefault(stack[-1][0], set()).add((cont, idx))
        else:
            st.auto = (stack, must | {c}, may | {c}, ins)
        return st

    def iter_begin(self, I, st, info):
        stack, *rest = st.auto
        st = st.copy()
        st.auto = (stack + ((info["site"], frozenset()),), *rest)
        return st

    def iter_end(self, I, st, info, how):
        stack, *rest = st.auto
        st = st.copy()
        site, cl = stack[-1]
        self.loops.setdefault(site, {"ends": [], "breaks": False})
        self.loops[site]["ends"].append(cl)
        self.loops[site]["breaks"] |= how == "break"
        for lv, v in st.store.items():      # element names used in this iteration
            for cont, idx in indexed((v,)):
                self.seen.setdefault(site, set()).add((cont, idx))
        st.auto = (stack[:-1], *rest)
        return st

    def loop_exit(self, I, st, info):
        site = info["site"]
        for cont, idx in self.seen.get(site, ()):
            if site in absint.tags(idx) or idx == site:
                c = covered(I, st, info, idx, cont)
                if c is not None:
                    self.cov.add((site, c))
        L = self.loops.get(site)
        if not L or not L["ends"]:
            return None
        stack, must, may, ins = st.auto
        allc = frozenset().union(*L["ends"])
        inter = frozenset.intersection(*[frozenset(e) for e in L["ends"]])
        if not allc:
            return None
        st = st.copy()
        if L["breaks"]:
            inter = frozenset()
        f = lambda s: {("each", c) for c in s}
        if stack:
            st.auto = (stack[:-1] + ((stack[-1][0], stack[-1][1] | f(inter)),), must, may, ins)
        else:
            st.auto = (stack, must | f(inter), may | f(allc), ins)
        return st


def indexed(vs):
    out = []

    def go(v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "at" and isinstance(v[2], tuple) and not isint(v[2]):
                out.append((v[1], v[2]))
            for x in v:
                go(x)
    go(vs)
    return out


def subst_index(v, i):
    """Instantiate every generic element of an argument list by argument i."""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "at" and v[1][:2] == ("call", "get_args"):
            if isint(v[2]):
                return v
            return ("at", v[1], C(i))
        if len(v) == 3 and v[0] == "at" and v[1][0] == "vec" and not isint(v[2]):
            es = {x[1] if x[0] == "each" else x for x in v[1][1]}
            if len(es) == 1:
                return subst_index(next(iter(es)), i)
        return tuple(subst_index(x, i) for x in v)
    return v


class Model(Env):
    """Truth of literals at one point."""

    def __init__(self, fixed, bools):
        super().__init__(random.Random(7), fixed)
        self.b = bools

    def lit(self, v):
        v = elem(v)
        if v[0] == "lneg":
            return not self.lit(v[1])
        if v in self.b:
            return self.b[v]
        if v[0] == "con":
            return self.con(v)
        raise Unknown(v)

    def con(self, v):
        _, _, vars_, coef, pred, rhs = v[:6]
        total = Fraction(0)
        if vars_[0] == "fld" and vars_[2] == "vars":
            if coef != ("fld", vars_[1], "coef"):
                raise Unknown(v)
            # the form without its constant
            total = self.lin(vars_[1] if vars_[1][0] == "lin" else ("lin", lin_of(vars_[1]))) - self.num(("fld", vars_[1], "constant"))
        else:
            vs, cs = flat(vars_), flat(coef)
            if vs is None or cs is None or len(vs) != len(cs):
                raise Unknown(v)
            for x, c in zip(vs, cs):
                total += self.num(c) * self.term(x[1] if x[0] == "rv" else x)
        total -= self.num(rhs)
        while pred[0] == "agg" and len(pred[2]) == 1:
            pred = pred[2][0][1]
        p = pred[-1] if pred[0] == "enum" else cval(pred) if isint(pred) else None
        p = self.preds.get(p, p)
        if p not in ("lt", "leq", "eq"):
            raise Unknown(pred)
        return total < 0 if p == "lt" else total <= 0 if p == "leq" else total == 0

    preds = {}

    def sym(self, k):
        # the constant of a form follows the scaling of the form
        if isinstance(k, tuple) and len(k) == 3 and k[0] == "fld" and k[2] == "constant" and k[1][0] == "lin":
            t = Fraction(0)
            for v, c in k[1][1]:
                if v[0] == "poly":
                    t += self.num(c) * self.sym(("fld", v[1], "constant"))
                elif v == ONE:
                    t += self.num(c)
            self.val[k] = t
            return t
        return super().sym(k)


def clause_true(M, c, n):
    """Truth of an asserted clause (with generic items instantiated for n arguments); None: several readings differ."""
    items, _ = c
    gen = [x[1] for x in items if x[0] == "each"]
    if any(M.lit(x) for x in items if x[0] != "each"):
        return True
    gen = list(dict.fromkeys(gen))
    if not gen:
        return False
    both = any(M.lit(subst_index(g, i)) for g in gen for i in range(n))
    if len(gen) == 1:
        return both
    some = {any(M.lit(subst_index(gen[k], i)) for i, k in enumerate(ch)) for ch in itertools.product(range(len(gen)), repeat=n)}
    return both if some == {both} else None


def clauses_value(M, cls, n):
    r = True
    for c in cls:
        for i in range(n) if c[0] == "each" else (0,):
            cc = (tuple(subst_index(x, i) if x[0] != "each" else x for x in c[1][0]), 0) if c[0] == "each" else c
            v = clause_true(M, cc, n)
            if v is None:
                return None
            r = r and v
    return r


def runs(P, R, kind):
    fn = P.fn(CFG + "visit")
    h = Lits(P, R, P.enum(KIND)[kind])
    if kind == "ITE_TERM":      # Boolean ones are translated away by the builders
        h.vtype = type_const(P, "real_type")
    I = Interp(P, h)
    out = [(s, k, v) for s, k, v in I.run(fn, State(auto=((), frozenset(), frozenset(), frozenset())))]
    R.saw(I)
    return fn, h, out


def key_ok(m, key):
    return key == ("call", "positive_term", (T,)) or m == "internal_rational_vars" and key == T


def keys(P, R, fn, kind, outs, rule="C12.recorded"):
    """Each path records exactly one entry for the term, under its positive form. -> [(state, map, value)]"""
    res = []
    for s, k, v in outs:
        if k != "ret":
            continue
        ins = list(s.auto[3])
        good = len(ins) == 1 and (key_ok(ins[0][0], ins[0][1]) or ins[0][1] == T and s_known(s, False))
        R.check(good, rule, kind, F.loc(fn), f"recorded: {', '.join(show(i[1]) for i in ins) or 'nothing'}; expected one entry for the positive term")
        if good:
            res.append((s, ins[0][0], ins[0][2]))
    return res


def s_known(s, val):
    neg = ("call", "is_negated", (T,))
    f = dict(s.facts) if not isinstance(s.facts, dict) else s.facts
    return f.get(neg) is val


def atoms(P, R):
    A0, A1 = (("at", ("call", "get_args", (T,)), C(i)) for i in (0, 1))
    ip = ("poly", ("ipoly", A0))
    half = Fraction(1, 2)
    specs = {
        "ARITH_GE_ATOM": [({ip: Fraction(x)}, x >= 0) for x in (-2, -half, 0, half, 3)],
        "ARITH_EQ_ATOM": [({ip: Fraction(x)}, x == 0) for x in (-2, -half, 0, half, 3)],
        "ARITH_BINEQ_ATOM": [({A0: Fraction(a), A1: Fraction(b)}, a == b) for a in (-1, 0, 2) for b in (-1, 0, 1, 2)],
    }
    for kind, points in specs.items():
        fn, h, outs = runs(P, R, kind)
        for s, m, v in keys(P, R, fn, kind, outs):
            R.check(m == "internal_bool_vars" and not s.auto[2], "C12.atom", kind + ": map", F.loc(fn), "an atom is recorded as a literal and asserts nothing")
            bad = None
            try:
                for fixed, want in points:
                    M = Model(dict(fixed), {})
                    if M.lit(v) != want:
                        bad = bad or (fixed, want)
            except Unknown:
                continue
            sign = "a negated" if s_known(s, True) else "the"
            R.check(bad is None, "C12.atom", kind, F.loc(fn),
                    bad and f"the literal recorded for {sign} atom is {not bad[1]} where the atom is {bad[1]}: " + ", ".join(f"{show(k)}={x}" for k, x in bad[0].items()))


def variables(P, R):
    types = {"bool_type": "internal_bool_vars", "real_type": "internal_rational_vars"}
    for kind in ("UNINTERPRETED_TERM", "APP_TERM"):
        fn, h, outs = runs(P, R, kind)
        for s, k, v in outs:
            if k != "ret":
                continue
            ty = [n for n in types for (a, b), mk in s.rel.items() if mk == EQ and any(x == ("glob", NS + "types::" + n) or x == type_const(P, n) for x in (a, b))
                  and any(x[:2] == ("call", "get_type") for x in (a, b))]
            ins = list(s.auto[3])
            if len(ty) != 1:
                continue
            m, key, val = ins[0] if len(ins) == 1 else (None, None, None)
            W = F.loc(fn)
            R.check(m == types[ty[0]] and key_ok(m, key), "C12.recorded", f"{kind} of {ty[0]}", W,
                    f"recorded: {', '.join(i[0] + '[' + show(i[1]) + ']' for i in ins) or 'nothing'}; expected one entry for the positive term in {types[ty[0]]}")
            if m is None:
                continue
            made = [t for t in walk(val) if t[:1] == ("call",) and t[1] in ("make", "make_function_application", "make_bool")]
            if len(set(made)) != 1:
                R.check(bool(made) or val[0] not in ("c",), "C12.fresh", f"{kind} of {ty[0]}", W, f"{show(val)} is recorded, not a new variable")
                continue
            c = made[0]
            want = "boolean" if ty[0] == "bool_type" else "rational"
            if c[1] != "make_bool":
                R.check(type_name(P, c[2][0]) in (want, None), "C12.fresh", f"{kind} of {ty[0]}", W, f"the new variable is {show(c[2][0])}")
            if kind == "APP_TERM":
                R.check(c[1] == "make_function_application", "C12.fresh", "application", W, "an application gets a variable the function plugin does not know")
                if c[1] == "make_function_application":
                    R.check(c[2][1] == ("call", "positive_term", (T,)) or s_known(s, False) and c[2][1] == T, "C12.fresh", "application term", W, f"the application is registered as {show(c[2][1])}, which may be negated")
            R.check(not negates(val), "C12.fresh", f"{kind} polarity", W, "the positive term is recorded as a negative literal")


def negates(v):
    return v[0] == "lneg"


def type_const(P, n):
    d = P.vars.get(NS + "types::" + n)
    try:
        r = Interp(P, Hooks()).eval(d["x"], State())
        return r[0][1]
    except Exception:
        return None


def type_name(P, v):
    if v[0] == "enum":
        return v[-1]
    try:
        for q in P.enums:
            if q.endswith("Variable::Type"):
                return {x: n for n, x in P.enum(q).items()}.get(cval(v)) if isint(v) else None
    except Exception:
        return None
    return None


def walk(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from walk(x)


def or_term(P, R):
    fn, h, outs = runs(P, R, "OR_TERM")
    for s, m, lit in keys(P, R, fn, "OR_TERM", outs):
        stack, must, may, ins = s.auto
        args = [("T", ("at", ("call", "get_args", (T,)), C(i))) for i in range(2)]
        var = lit[1] if lit[0] == "lneg" else lit
        for what, cls in (("is implied by the asserted clauses", must), ("implies the asserted clauses", may)):
            bad, unknown = None, False
            for bits in itertools.product((False, True), repeat=3):
                M = Model({}, {var: bits[0], args[0]: bits[1], args[1]: bits[2]})
                try:
                    have = clauses_value(M, cls, 2)
                    want = M.lit(lit) == (bits[1] or bits[2])
                except Unknown:
                    unknown = True
                    break
                if have is None or (cls is must and have and not want) or (cls is may and want and not have):
                    bad = (bits, have, want)
                    break
            if not unknown:
                R.check(bad is None, "C12.define", f"or: definition {what}", F.loc(fn),
                        bad and f"with the or-literal {bad[0][0]}, arguments {bad[0][1:]} the asserted clauses are {'ambiguous' if bad[1] is None else bad[1]} but the definition is {bad[2]}")
    for site, c in h.cov:
        R.check(c, "C12.define", "or: every argument takes part", F.loc(fn), "the loop does not range over every argument")


def ite_term(P, R):
    fn, h, outs = runs(P, R, "ITE_TERM")
    A = [("at", ("call", "get_args", (T,)), C(i)) for i in range(3)]
    for s, m, val in keys(P, R, fn, "ITE_TERM", outs):
        made = [t for t in walk(val) if t[:1] == ("call",) and t[1] == "make"]
        if m != "internal_rational_vars" or len(set(made)) != 1:
            continue
        stack, must, may, ins = s.auto
        for what, cls in (("is implied by the asserted clauses", must), ("implies the asserted clauses", may)):
            bad = None
            try:
                for c in (False, True):
                    for a, b, v in itertools.product((0, 1, -2), repeat=3):
                        pts = {("poly", ("ipoly", A[1])): Fraction(a), ("poly", ("ipoly", A[2])): Fraction(b), made[0]: Fraction(v), val: Fraction(v)}
                        M = Model(pts, {("T", A[0]): c})
                        have = clauses_value(M, cls, 1)
                        want = v == (a if c else b)
                        if have is None or (cls is must and have and not want) or (cls is may and want and not have):
                            bad = bad or (c, a, b, v, have, want)
            except Unknown:
                continue
            R.check(bad is None, "C12.define", f"ite: definition {what}", F.loc(fn),
                    bad and f"condition {bad[0]}, branches {bad[1]} and {bad[2]}, value {bad[3]}: the asserted clauses are {bad[4]} but the definition is {bad[5]}")


def handled(P, R):
    fn = None
    for kind in ("CONSTANT_TERM", "ARITH_CONSTANT", "ARITH_PRODUCT", "ARITH_POLY"):
        fn, h, outs = runs(P, R, kind)
        for s, k, v in outs:
            if k == "throw" and kind == "CONSTANT_TERM":
                continue
            R.check(k != "throw", "C12.handled", kind, F.loc(fn), "a term kind the builders produce is rejected")
            if k == "ret":
                R.check(not s.auto[2] and not s.auto[3], "C12.handled", kind + ": no effect", F.loc(fn), "a constant, product or sum gets clauses of its own")


# ---------------------------------------------------------------- polynomials
def added(x):
    """What is added to the constant so far."""
    if x[:2] == ("q", "+"):
        return next((y for x0, y in ((x[2], x[3]), (x[3], x[2])) if x0[0] == "phi"), x)
    return x


def poly(P, R):
    fn = P.fn(CFG + "internalize_poly")
    p = fn["ps"][0]
    t = ("p", p["n"])
    K = P.enum(KIND)

    def mono(kind, x):
        """The monomial of an item of the given kind: (variable or ONE, coefficient)."""
        if kind == "ARITH_CONSTANT":
            return ONE, ("call", "arithmetic_constant_value", (x,))
        if kind == "ARITH_PRODUCT":
            return ("rv", ("call", "var_of_product", (x,))), ("call", "coeff_of_product", (x,))
        return ("rv", x), C(1)

    class H(Lits):
        polys = False

        def table(self, I, st, node, s, vs):
            if s == "get_kind" and vs[0] == t:
                return [(st, C(self.kind))]
            if s == "get_kind" and self.item is not None and vs[0][0] == "at" and vs[0][1] == ("call", "get_args", (t,)):
                return [(st, C(self.item))]
            return super().table(I, st, node, s, vs)

        def write(self, I, st, node, lv, val):
            if lv[1] and lv[1][-1] == "constant":
                self.consts.add(val)
            return None
        item = None

    W = F.loc(fn)
    for kind in ("ARITH_CONSTANT", "UNINTERPRETED_TERM", "ITE_TERM", "APP_TERM", "ARITH_PRODUCT"):
        h = H(P, R, K[kind])
        I = Interp(P, h)
        for s, k, v in I.run(fn, State(auto=((), frozenset(), frozenset(), frozenset()))):
            if k == "throw":
                R.bad("C12.poly", kind, W, "rejected")
            if k != "ret" or v[0] != "agg":
                continue
            d = dict(v[2])
            vs, cs = flat(d.get("vars", VOID)), flat(d.get("coef", VOID))
            if vs is None or cs is None:
                continue
            x, c = mono(kind, t)
            want = ([], [], c) if x == ONE else ([x], [c], C(0))
            R.check((vs, cs, d.get("constant")) == want, "C12.poly", kind, W,
                    f"gives variables {[show(z) for z in vs]}, coefficients {[show(z) for z in cs]}, constant {show(d.get('constant'))}")
        R.saw(I)
    for item in ("ARITH_CONSTANT", "UNINTERPRETED_TERM", "ITE_TERM", "APP_TERM", "ARITH_PRODUCT"):
        h = H(P, R, K["ARITH_POLY"])
        h.item = K[item]
        h.consts = set()
        I = Interp(P, h)
        for s, k, v in I.run(fn, State(auto=((), frozenset(), frozenset(), frozenset()))):
            if k == "throw":
                R.bad("C12.poly", "sum of " + item, W, "rejected")
            if k != "ret" or v[0] != "agg":
                continue
            d = dict(v[2])
            lists = []
            for f in ("vars", "coef"):
                x = d.get(f)
                lists.append([y[1] if y[0] == "each" else ("once", y) for y in x[1]] if x is not None and x[0] == "vec" else None)
            if None in lists:
                continue
            con = d.get("constant")
            if con is not None and con[0] == "phi":     # set in some iteration
                cs = {added(x) for x in h.consts if mentions_any(x, lambda z: isinstance(z, tuple) and z[:2] == ("call", "get_args"))}
                con = next(iter(cs)) if len(cs) == 1 else con
            a = [y for z in (lists[0] + lists[1] + [con]) for y in walk(z) if y[:1] == ("at",) and y[1] == ("call", "get_args", (t,))]
            el = a[0] if a else None
            if el is None:
                if (lists[0], lists[1], con) == ([], [], C(0)):
                    continue   # the empty sum
                R.bad("C12.poly", "sum of " + item, W, f"a {item} contributes variables {len(lists[0])}, constant {show(con)} not taken from it")
                continue
            x, c = mono(item, el)
            ok = (lists[0], lists[1]) == ([], []) and con == c if x == ONE else (lists[0], lists[1]) == ([x], [c]) and con == C(0)
            R.check(ok, "C12.poly", "sum of " + item, W, f"an item contributes variables {[show(z) for z in lists[0]]}, coefficients {[show(z) for z in lists[1]]}, constant {show(con)}")
        for site, c in h.cov:
            R.check(c, "C12.poly", "every monomial", W, "the loop does not range over every monomial")
        R.saw(I)


# ---------------------------------------------------------------- traversal
def traversal(P, R):
    VIS = NS + "Visitor::"
    fns = [f for f in P.fns.values() if f["q"] == VIS + "visit" and f.get("b") is not None and "span" not in f["ps"][0]["t"]]
    for fn in fns:
        class H(TermHooks):
            def keep(self, I, st):
                return st.auto

            def call(self, I, st, node, q, obj, args):
                s = q.split("::")[-1]
                vs = [I.val(st, a) for a in args]
                tgt = obj[1][-1] if obj is not None and obj[1] else None
                if tgt == "processed" and s in ("find", "count", "contains", "end"):
                    return [(st, ("call", s, tuple(elem(v) for v in vs)))]
                if tgt == "processed" and s in ("insert", "emplace"):
                    return [(self.ev(st, ("done", vs[0])), VOID)]
                if obj is not None and s == "visit" and tgt == "config" or q.endswith("Internalizer_config::visit") or q.endswith("_config::visit"):
                    return [(self.ev(st, ("visit", vs[0])), VOID)]
                return super().call(I, st, node, q, obj, args)

            def ev(self, st, e):
                st = st.copy()
                st.auto = (st.auto or ()) + (e,)
                return st

            def iter_begin(self, I, st, info):
                st = st.copy()
                st.auto = ()
                return st

            def iter_end(self, I, st, info, how):
                self.ends.append((info, st.copy(), how))
                st = st.copy()
                st.auto = ()
                return st

        h = H(R)
        h.ends = []
        I = Interp(P, h)
        try:
            I.run(fn, State(auto=()))
        except Limit:
            continue
        R.saw(I)
        for info, st, how in h.ends:
            vis = [e for e in st.auto if e[0] == "visit"]
            done = [e for e in st.auto if e[0] == "done"]
            more, late = more_children(st)
            if vis:
                R.check(more is False or more is None and not late, "C12.order", "children first", F.loc(fn), "a term is translated although a child has not been looked at")
                R.check(len(vis) == 1 and len(done) == 1, "C12.order", "once", F.loc(fn), f"{len(vis)} translations, {len(done)} marks")
                if len(done) == 1 and done[0][1][:2] == ("call", "index_of"):
                    R.check(done[0][1][2] == (vis[0][1],), "C12.order", "marked", F.loc(fn), "another term is marked as translated")
            else:
                R.check(not done, "C12.order", "mark only after translation", F.loc(fn), "a term is marked although it was not translated")


def check(P, R):
    R.rule("C12.recorded", "each translated term is recorded once, under its positive form, in the map of its type")
    R.rule("C12.atom", "the literal recorded for an arithmetic atom is true exactly when the atom is, also when the term handed over is the negated one")
    R.rule("C12.fresh", "variables and applications get a new variable of their type; applications are registered positively with the function plugin")
    R.rule("C12.define", "the clauses asserted for a disjunction / if-then-else are together equivalent to its definition")
    R.rule("C12.handled", "every kind of term the builders produce is accepted; constants, products and sums have no effect of their own")
    R.rule("C12.poly", "a real term is translated to the linear form it denotes")
    R.rule("C12.order", "children are translated before their parent, each term once")
    Model.preds = next(({x: n for n, x in P.enum(q).items()} for q in P.enums if q.endswith("Order_predicate::Type")), {})
    atoms(P, R)
    variables(P, R)
    or_term(P, R)
    ite_term(P, R)
    handled(P, R)
    poly(P, R)
    traversal(P, R)
    R.need(3, "C12.atom")
    R.need(3, "C12.define")
    R.need(3, "C12.recorded")
    R.need(8, "C12.poly")
    R.need(2, "C12.order")
