"""C19: conflicts of linear constraints are explained by constraints they follow from."""
from fractions import Fraction
import itertools
from lralib import *
from r_c15 import rmask, enum_of, subterms, flat
from r_c16 import part, qdiff, qterms, old_of, plain, rel_is, bound_of

EXPLANATION = ("The Fourier-Motzkin steps are interpreted on symbolic polynomials: every path of a resolution step is judged by evaluating, as rational functions of the two coefficients of the eliminated variable, "
               "the factors it applies to both sides (they cancel the variable, apply to the coefficients and the constant alike, and keep the direction of inequalities). "
               "The conflict analyses are interpreted on symbolic bounds: every path that reports a conflict is compared with the facts known on it and the literals it adds.")
ASSUMPTIONS = ["the constraints resolved bound the variable from opposite sides unless one is an equality (C16)", "rational arithmetic (C10, C11)", "constraints made from coefficients mean what was passed (C15)", "every polynomial resolved contains the variable"]

FM = "yaga::Fm_elimination"


class H(Lra):
    merge_limit = 300
    nest = False

    def __init__(self, keep=()):
        super().__init__(None)
        self.inline_these = set(keep)

    def iter_begin(self, I, st, info):
        st = super().iter_begin(I, st, info)
        return self.ev(st, "old", tuple(sorted(st.store.items(), key=repr)))

    def watched_container(self, I, obj):
        return super().watched_container(I, obj) or "any"

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q in self.inline_these:
            return super().call(I, st, node, q, obj, args)
        vs = self.vals(I, st, args)
        if q.startswith(BOUNDS + "::") and obj is not None:
            if s in ("lower_bound", "upper_bound", "inequality"):
                v = ("call", s, (("lv", obj),) + vs[1:])
                return [(s2, ("ref", (("M", v), ())) if b else C(None)) for s2, b in I.split(st, ("call", "hasb", (v,)))]
        if q.startswith(FM + "::") and s == "resolve":
            return [(self.ev(st, "resolve", obj, *vs), VOIDV)]
        if q.startswith(FM + "::") and s == "finish":
            return [(self.ev(st, "fmfinish", obj), ("call", "derived", (("lv", obj),)))]
        if q == "ctor:" + FM:
            return [(st, ("call", "fm", vs))] if not node.get("move") and not node.get("copy") else None
        if q.endswith("Lra_conflict_analysis::eliminate"):
            return [(self.ev(st, "eliminate", vs[-1]), ("call", "eliminated", (vs[-1],)))]
        if s in ("sort", "stable_sort") and q.startswith("std::"):
            return ("cont", self.ev(st, "sort", *vs[:2]))
        if q.endswith("Linear_polynomial::normalize"):
            return [(self.ev(st, "normalize", obj), VOIDV)]
        if q.startswith("yaga::Linear_arithmetic::"):
            if s == "constraint":
                return [(self.ev(st, "constraint", *vs), ("call", "made", vs))]
            if s == "propagate":
                return [(self.ev(st, "propagate", *vs), VOIDV)]
        return super().call(I, st, node, q, obj, args)


PREDS = ("eq", "leq", "lt")


def preds(st, t):
    """Predicates t may be on the path."""
    if show(t) in PREDS:
        return {show(t)}
    out = set(PREDS)
    for (a, b), m in st.rel.items():
        for u, w, mm in ((a, b, m), (b, a, absint.FLIP[m])):
            if u == t and show(w) in PREDS:
                out = {z for z in out if (z == show(w)) == bool(mm & EQ) or mm == EQ | LT | GT}
    return out


def join(a, b):
    return "eq" if a == b == "eq" else "lt" if "lt" in (a, b) else "leq"


class Unknown(Exception):
    pass


def value(v, env):
    """Value of a rational term at a point."""
    if is_c(v) and isinstance(cval(v), int):
        return Fraction(cval(v))
    if v[0] == "q":
        xs = [value(x, env) for x in v[2:]]
        if v[1] == "neg":
            return -xs[0]
        if v[1] == "/":
            if xs[1] == 0:
                raise Unknown(v)
            return xs[0] / xs[1]
        if v[1] in "+-*":
            return {"+": xs[0] + xs[1], "-": xs[0] - xs[1], "*": xs[0] * xs[1]}[v[1]]
    if v[:2] == ("call", "abs") or v[:2] == ("call", "std::abs"):
        return abs(value(v[2][0], env))
    k = env["leaf"](v)
    if k is None:
        raise Unknown(v)
    return env[k]


def at_point(st, env):
    """Do the relations known on the path allow the point?"""
    for (a, b), m in st.rel.items():
        try:
            x, y = value(a, env), value(b, env)
        except Unknown:
            continue
        if not m & (LT if x < y else EQ if x == y else GT):
            return False
    for f, val in st.facts.items():
        if f[:1] == ("call",) and f[1] in ("<", ">", "<=", ">=", "==") and len(f[2]) == 2:
            try:
                x, y = value(f[2][0], env), value(f[2][1], env)
            except Unknown:
                continue
            if {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y}[f[1]] != val:
                return False
    return True


def fields(v):
    """(root, list of steps) of a nested field / element value"""
    path = []
    while True:
        if v[0] == "fld":
            path.append(v[2])
            v = v[1]
        elif v[0] == "at":
            path.append(("at", v[2]))
            v = v[1]
        elif v[0] == "*" and len(v) == 2:
            v = v[1]
        else:
            return v, list(reversed(path))


def combine_rule(P, R):
    for fn in P.find(FM + "::combine"):
        h = H((FM + "::combine",))
        I = Interp(P, h)
        a, b = [("p", p["n"]) for p in fn["ps"]]
        seen = set()
        for st, k, v in I.run(fn, h.start()):
            if k != "ret":
                continue
            for x, y in itertools.product(sorted(preds(st, a)), sorted(preds(st, b))):
                m = rat(st, a, b)
                if m == EQ and x != y or not m & EQ and x == y:
                    continue
                w = x if v == a else y if v == b else show(v)
                seen.add((x, y))
                R.check(w == join(x, y), "C19.combine", "strictness of a combination of two constraints", F.loc(fn), f"{x} combined with {y} gives {w}")
        R.check(len(seen) == 9, "C19.combine", "every combination of predicates", F.loc(fn), "a combination of predicates has no result")
        R.saw(I)


def init_rule(P, R):
    for fn in sorted(P.find(FM + "::init"), key=lambda f: f["id"]):
        if not fn["ps"] or "Linear_constraint" not in fn["id"]:
            continue
        L = F.loc(fn)
        h = H((FM + "::init",))
        I = Interp(P, h)
        CONS = ("p", fn["ps"][0]["n"])
        given = len(fn["ps"]) == 3
        outs = I.run(fn, h.start())
        R.saw(I)
        n = ("call", "negation", (clit(CONS),))
        prd = ("call", "pred", (CONS,))

        def mults(st):
            """factor per (predicate, negation) possible on the path, with the predicate the result should have"""
            if given:
                return [(None, ("p", fn["ps"][2]["n"]), ("p", fn["ps"][1]["n"]))]
            neg_ = st.facts.get(n)
            res = []
            for p in preds(st, prd):
                for m in ((False, True) if neg_ is None else (neg_,)):
                    if p == "eq" and m:
                        continue
                    res.append((p, -1 if m else 1, {"lt": "leq", "leq": "lt"}[p] if m else p))
            return res

        def leaf(v):
            if v == ("call", "rhs", (CONS,)):
                return "rhs"
            if given and v == ("p", fn["ps"][2]["n"]):
                return "mult"
            if part(v, "coef") and part(v, "coef")[0] == CONS:
                return "coef"
            return None

        def scaled(v, unit, k):
            """Is v equal to k times the leaf `unit`?"""
            for u, m in ((2, 3), (-5, 7), (7, -2)):
                env = {"leaf": leaf, unit: Fraction(u), "mult": Fraction(m)}
                if value(v, env) != u * (m if given else k):
                    return False
            return True

        pairs = 0
        for info, st, how, lvl in h.ends:
            evs = [e for e in st.auto[-1] if e[0] in ("push_back", "emplace_back")]
            for e in evs:
                vs = e[2]
                if len(vs) == 1 and vs[0][:1] == ("rec",):
                    continue
                if len(vs) != 2:
                    continue
                xv = part(vs[0], "vars")
                cs = {part(t, "coef") for t in subterms(vs[1]) if part(t, "coef")}
                if xv is None or len(cs) != 1:
                    continue
                pairs += 1
                c = cs.pop()
                R.check(xv == c and xv[0] == CONS, "C19.init", "each variable keeps its own coefficient", L, "a variable is paired with the coefficient of another one")
                for p, k, want in mults(st):
                    try:
                        R.check(scaled(vs[1], "coef", k), "C19.init", "coefficients of a constraint and of its negation", L, f"the coefficients of a {'negated ' if k == -1 else ''}constraint ({p}) are not multiplied by {k}")
                    except Unknown:
                        pass
            if how == "next" and not info.get("unrolled"):
                R.check(len(evs) >= 1, "C19.init", "every variable is kept", L, "a variable of the constraint is left out") if pairs else None
        for st, k, v in outs:
            if k != "ret":
                continue
            pk = [z for key, z in st.store.items() if key[0] == ("M", THIS) and key[1][-1:] == ("pred",)]
            ck = [z for key, z in st.store.items() if key[0] == ("M", THIS) and key[1][-1:] == ("constant",)]
            for p, kk, want in mults(st):
                if pk:
                    got = {show(pk[0])} if show(pk[0]) in PREDS else {p} if pk[0] == prd else {pk[0]}
                    R.check(got == {want}, "C19.init", "the predicate of a constraint and of its negation", L, f"the negation of a constraint with {p} gets predicate {show(pk[0])}" if kk == -1 else f"a constraint with {p} gets predicate {show(pk[0])}")
                if ck:
                    try:
                        R.check(scaled(("q", "neg", ck[0]), "rhs", kk), "C19.init", "the constant of a constraint", L, "the constant is not the negated, multiplied right-hand side")
                    except Unknown:
                        pass
        R.check(pairs > 0, "C19.init", "terms copied", L, "no term of the constraint is copied")
    R.need(1, "C19.init")


class HR(H):
    """Marks finished loops of a resolution step on the path."""

    def loop_exit(self, I, st, info):
        st = super().loop_exit(I, st, info) or st
        return self.ev(st, "loop", info["site"])


def resolve_rule(P, R):
    for fn in P.find(FM + "::resolve"):
        L = F.loc(fn)
        h = HR((FM + "::resolve",))
        I = Interp(P, h)
        OTHER, VAR = [("p", p["n"]) for p in fn["ps"]]
        outs = I.run(fn, h.start())
        R.saw(I)

        def leaf(v):
            root, path = fields(v)
            names = [x for x in path if isinstance(x, str)]
            ats = [x[1] for x in path if not isinstance(x, str)]
            if root not in (THIS, OTHER) or "poly" not in names:
                return None
            if names[-1:] == ["constant"]:
                return "c" if root == THIS else "d"
            if names[-1:] != ["second"] or len(ats) != 1:
                return None
            if ats[0] in flips or ats[0] in adds:
                return "e" if root == THIS else "f"
            if isinstance(ats[0], tuple) and ats[0][:1] == ("fromend",):
                return None
            return "p" if root == THIS else "o"

        # loops that change the coefficients of this polynomial, and loops that add terms of the other
        flips, adds = {}, {}
        for info, st, how, lvl in h.ends:
            for key, z in st.store.items():
                if key[0] == ("M", THIS) and key[1][-1:] == ("second",) and any(x in (("at", info["site"]), ("elem", info["site"])) for x in key[1]):
                    flips.setdefault(info["site"], []).append((st, z))
            evs = [e for e in st.auto[-1] if e[0] in ("push_back", "emplace_back") and e[1][0] == ("M", THIS)]
            for e in evs:
                adds.setdefault(info["site"], []).append((st, e[2]))
            if how == "next" and info["site"] in adds and not evs:
                R.check(False, "C19.resolve", "every term is added", L, "a term of the other constraint is not added")
        if not adds:
            continue
        for site, l in adds.items():
            for st, vs in l:
                if len(vs) == 2:
                    r0, p0 = fields(vs[0])
                    R.check(r0 == OTHER and p0[-1:] == ["first"], "C19.resolve", "terms of the other constraint keep their variables", L, "a term is added for another variable")
        points = [(Fraction(a), Fraction(b)) for a in (2, -2, 3, -5) for b in (3, -3, 7, -7, 2)]
        judged = 0
        for st, k, v in outs:
            if k != "ret" or any("fromend" in repr(key) for key in st.rel):
                continue
            loops = [e[1] for e in st.auto[0] if e[0] == "loop"]
            body = [e for e in st.auto[0]]
            if not any(s in adds for s in loops):
                continue
            # iterations of this path are those that know the same relations
            def mine(l):
                out = [x for s1, x in l if "fromend" not in repr(list(s1.rel)) and all(st.rel.get(key, m) & m for key, m in s1.rel.items()) and all(st.facts.get(key, b) == b for key, b in s1.facts.items())]
                return out
            pk = [z for key, z in st.store.items() if key[0] == ("M", THIS) and key[1] == ("pred",)]
            ck = [z for key, z in st.store.items() if key[0] == ("M", THIS) and key[1][-1:] == ("constant",)]
            mypred, yourpred = ("fld", THIS, "pred"), ("fld", OTHER, "pred")
            norm = [i for i, e in enumerate(body) if e[0] == "normalize"]
            last = max(i for i, e in enumerate(body) if e[0] == "loop" and e[1] in adds)
            R.check(bool(norm) and norm[-1] > last, "C19.resolve", "equal variables are merged after the terms are added", L, "the terms of a variable are not merged after a resolution step")
            for p, o in points:
                base = {"leaf": leaf, "p": p, "o": o, "c": Fraction(11), "d": Fraction(13), "f": Fraction(17), "e": Fraction(19)}
                if not at_point(st, base):
                    continue
                try:
                    s, m = Fraction(1), None
                    for site in loops:
                        if site in flips:
                            zs = {value(z, base) / base["e"] for z in mine(flips[site])}
                            if len(zs) != 1:
                                raise Unknown(site)
                            z = zs.pop()
                            s, m = s * z, None if m is None else m * z
                        if site in adds:
                            ms = {value(vs[1], base) / base["f"] for vs in mine(adds[site]) if len(vs) == 2}
                            if len(ms) != 1:
                                raise Unknown(site)
                            m = ms.pop() if m is None else m + ms.pop()
                except Unknown:
                    continue
                for a, b in itertools.product(sorted(preds(st, mypred)), sorted(preds(st, yourpred))):
                    if a != "eq" and b != "eq" and (p > 0) == (o > 0):
                        continue    # two bounds of the same side are never resolved
                    mm = rat(st, mypred, yourpred)
                    if mm == EQ and a != b or not mm & EQ and a == b:
                        continue
                    judged += 1
                    R.check(s * p + m * o == 0, "C19.resolve", "the variable is eliminated", L, "the factors of a resolution step do not cancel the variable")
                    R.check(m > 0 or b == "eq", "C19.resolve", "the direction of the other constraint", L, "an inequality is multiplied by a number that is not positive")
                    R.check(s > 0 or a == "eq", "C19.resolve", "the direction of this constraint", L, "this inequality is multiplied by a number that is not positive")
                    if ck:
                        try:
                            R.check(value(ck[0], base) == s * base["c"] + m * base["d"], "C19.resolve", "constants are combined like the terms", L, "the constants are not combined with the factors of the terms")
                        except Unknown:
                            pass
                    else:
                        R.check(False, "C19.resolve", "constants are combined like the terms", L, "the constants are not combined")
                    w = pk[0] if pk else mypred
                    w = a if w == mypred else b if w == yourpred else show(w)
                    if w in PREDS:
                        R.check(w == join(a, b), "C19.resolve", "the predicate of the result", L, f"{a} resolved with {b} gives {w}")
            for t, what in ((THIS, "this"), (OTHER, "the other")):
                found = [key for key in st.rel if any(fields(z)[0] == t and fields(z)[1][-1:] == ["first"] for z in key)]
                for key in found:
                    other = key[1] if fields(key[0])[1][-1:] == ["first"] and fields(key[0])[0] == t else key[0]
                    if st.rel[key] == EQ and other[0] in ("p", "c"):
                        R.check(other == VAR, "C19.resolve", "the variable to eliminate is the one asked for", L, f"another variable is looked up in {what} constraint")
        R.check(judged > 0, "C19.resolve", "resolution step", L, "no path of the resolution step combines the two constraints")
    R.need(1, "C19.resolve")


def pos(v):
    return v[2] if v[:1] == ("it",) else None


def ahead(old, new):
    """Steps from one iterator position to another, or None."""
    if old == new:
        return 0
    if new[:1] == ("x",) and new[1] == old and is_c(new[2]):
        return cval(new[2])
    if old[:1] == new[:1] and old[0] in "be" and isinstance(old[1], int) and isinstance(new[1], int):
        return new[1] - old[1]
    if old[:1] == ("x",) and new[:1] == ("x",) and old[1] == new[1] and is_c(old[2]) and is_c(new[2]):
        return cval(new[2]) - cval(old[2])
    return None


def normalize_rule(P, R):
    for fn in P.find("yaga::detail::Linear_polynomial::normalize"):
        L = F.loc(fn)
        h = H(("yaga::detail::Linear_polynomial::normalize",))
        I = Interp(P, h)
        outs = I.run(fn, h.start())
        R.saw(I)
        for info, st, how, lvl in h.ends:
            if how != "next":
                continue
            old = old_of(st)
            its = [key for key, z in st.store.items() if key[0][0] == "L" and pos(z) is not None and key in old and pos(old[key]) is not None and z[1][0] == ("M", THIS)]
            if len(its) != 1:
                continue
            n = ahead(pos(old[its[0]]), pos(st.store[its[0]]))
            if n is None:
                continue
            # what is known about the current term and the one written last
            same_ = zero = None
            for (a, b), m in st.rel.items():
                (ra, pa), (rb, pb) = fields(a), fields(b)
                if pa[-1:] == ["first"] and pb[-1:] == ["first"]:
                    same_ = True if m == EQ else False if not m & EQ else None
                if pa[-1:] == ["second"] and b == C(0):
                    zero = True if m == EQ else False if not m & EQ else None
            news = {key[1][-1]: z for key, z in st.store.items() if key[0] == ("M", THIS) and len(key[1]) >= 2 and key[1][-1] in ("first", "second") and old.get(key) != z and z[0] != "phi"}
            for key, z in st.store.items():
                if key[0] == ("M", THIS) and key[1] and isinstance(key[1][-1], tuple) and key[1][-1][0] in ("at", "elem") and z[0] == "agg" and (old.get(key) != z or mentions(z, ("at", ("*", THIS), info["site"]))):
                    news.update(dict(z[2]))
            sums_ = {key: [x for x in subterms(z) if fields(x)[1][-1:] == ["second"]] for key, z in news.items()}
            if same_ is True:
                R.check(n == 0, "C19.merge", "terms of one variable are merged in place", L, "the position moves although the variable is the same")
                z = news.get("second")
                R.check(z is None or z[0] == "q" and z[1] == "+" and len(set(sums_["second"])) == 2, "C19.merge", "coefficients of one variable are added", L, "the coefficients of one variable are not added")
                R.check(z is not None or how != "next", "C19.merge", "coefficients of one variable are added", L, "a term of the same variable is dropped")
            elif same_ is False:
                R.check(zero is not None and n == (0 if zero else 1), "C19.merge", "a term is dropped exactly when its coefficient is zero", L, "a term with a nonzero coefficient is overwritten, or one with a zero coefficient is kept")
                for key in ("first", "second"):
                    z = news.get(key)
                    R.check(z is not None and fields(z)[1][-1:] == [key] and ("at", info["site"]) in fields(z)[1], "C19.merge", "the next term is taken over", L, "the next term is not written to the result")
        sorted_ = True
        for st, k, v in outs:
            if k != "ret":
                continue
            for e in st.auto[0]:
                if e[0] == "erase" and len(e[2]) == 2 and pos(e[2][0]) is not None:
                    nz = [m for (a, b), m in st.rel.items() if fields(a)[1][-1:] == ["second"] and b == C(0)]
                    if True:
                        p = pos(e[2][0])
                        kept = ahead(p[1], p) if p[:1] == ("x",) else p[1] if p[:1] == ("b",) else 0
                        empty = any(b == C(0) and a[:2] == ("call", "size") and m == EQ for (a, b), m in st.rel.items())
                        if not empty and len(nz) == 1:
                            R.check((kept != 0) == (not nz[0] & EQ), "C19.merge", "the last term is dropped exactly when its coefficient is zero", L, "the last term is dropped or kept wrongly")
                        elif not empty:
                            R.check(bool(nz), "C19.merge", "the last term is dropped exactly when its coefficient is zero", L, "the last term is kept without looking at its coefficient")
            small = any(a[:2] == ("call", "size") and is_c(b) and (cval(b) == 0 and m == EQ or cval(b) == 1 and not m & GT or cval(b) == 2 and m == LT) for (a, b), m in st.rel.items())
            sorted_ = sorted_ and (small or any(e[0] == "sort" for e in st.auto[0]))
        R.check(sorted_, "C19.merge", "terms are sorted by variable before they are merged", L, "the terms are merged without being sorted")
    R.need(1, "C19.merge")


def finish_rule(P, R):
    for fn in P.find(FM + "::finish"):
        L = F.loc(fn)
        h = H((FM + "::finish",))
        I = Interp(P, h)
        outs = I.run(fn, h.start())
        R.saw(I)
        polyv = (("M", THIS), ("poly", "variables"))
        for st, k, v in outs:
            if k != "ret":
                continue
            made = [e for e in st.auto[0] if e[0] == "constraint"]
            empty = None
            for (a, b), m in st.rel.items():
                if a[:2] == ("call", "size") and b == C(0):
                    empty = True if m == EQ else False if not m & EQ else empty
            if not made:
                R.check(empty is True, "C19.derived", "a derived constraint is dropped only when no variable is left", L, "a derived constraint with variables is dropped")
                continue
            e = made[-1]
            R.check(e[4] == ("fld", THIS, "pred"), "C19.derived", "the predicate of the derived constraint", L, "the derived constraint gets another predicate")
            try:
                env = {"leaf": lambda z: "c" if fields(z) == (THIS, ["poly", "constant"]) else None, "c": Fraction(5)}
                R.check(value(e[5], env) == -5, "C19.derived", "the right-hand side of the derived constraint", L, "the right-hand side is not the negated constant")
            except Unknown:
                pass
            c = ("call", "made", e[1:])
            R.check(star(pl(v)) == c or mentions(v, c), "C19.derived", "the constraint made is the one returned", L, "another constraint is returned")
            d = st.facts.get(("call", "def", (("call", "var", (clit(c),)),)))
            prop = [x for x in st.auto[0] if x[0] == "propagate"]
            R.check(d is True or any(pl(x[-1]) == c for x in prop), "C19.derived", "a derived literal without a value is propagated", L, "the literal of a derived constraint may stay unassigned")
            R.check(d is not True or not prop, "C19.derived", "an assigned literal is not propagated again", L, "a literal that has a value is propagated again")
        R.need(1, "C19.derived")


def eliminate_rule(P, R):
    name = "yaga::Lra_conflict_analysis::eliminate"
    for fn in P.find(name):
        L = F.loc(fn)
        h = H((name,))
        I = Interp(P, h)
        outs = I.run(fn, h.start())
        R.saw(I)
        BOUND = [("p", p["n"]) for p in fn["ps"]][-1]
        reason = ("call", "breason", (BOUND,))
        start = {}
        for st, k, v in outs:
            if k != "ret":
                continue
            evs = st.auto[0]
            adds = [e for e in evs if e[0] in ("push_back", "emplace_back") and e[1][1][-1:] == ("clause",)]
            R.check(any(e[2][0] == neg(clit(reason)) for e in adds), "C19.assumption", "the reason of an eliminated bound is an assumption of the conflict", L, "the constraint a bound comes from is not added to the conflict")
            R.check(all(e[2][0] == neg(clit(reason)) for e in adds), "C19.assumption", "nothing else becomes an assumption", L, "another literal is added to the conflict")
            R.check(v[:2] == ("call", "fm") and v[2][-1] == reason and len(v[2]) == 2, "C19.eliminate", "the elimination starts with the reason of the bound", L, "the elimination does not start with the reason of the bound")
        n = 0
        for info, st, how, lvl in h.ends:
            evs = st.auto[-1]
            res = [e for e in evs if e[0] == "resolve"]
            dep = ("at", ("call", "bounds", (BOUND,)), info["site"])
            deps = {t for f in list(st.facts) + [x for e in res for x in e[1:] if isinstance(x, tuple)] for t in subterms(f) if t[:2] == ("call", "bvar") and t[2][0][:1] == ("at",)}
            for t in sorted(deps, key=repr):
                d = st.facts.get(("call", "adef", (t,)))
                mine = [e for e in res if e[-1] == t]
                n += 1
                if d is False:
                    R.check(len(mine) == 1, "C19.eliminate", "every unassigned variable a bound depends on is eliminated", L, "a variable without a value is not eliminated")
                elif d is True:
                    R.check(not mine, "C19.eliminate", "only unassigned variables are eliminated", L, "a variable with a value is eliminated")
                for e in mine:
                    o = e[2]
                    ok = o[:1] == ("call",) and (o[1].endswith("eliminate") or o[1] == "eliminated") and star(o[2][-1]) == star(t[2][0])
                    R.check(ok, "C19.eliminate", "a variable is eliminated with its own bound", L, "a variable is eliminated with the bound of another")
            R.check(how != "break", "C19.eliminate", "every dependency of a bound is visited", L, "the dependencies of a bound are left early")
        R.check(n > 0, "C19.eliminate", "dependencies of a bound", L, "no dependency of a bound is eliminated")
    R.need(1, "C19.eliminate")


def rat(st, a, b):
    """Possible order of two rational terms."""
    m = LT | EQ | GT
    for (x, y), k in st.rel.items():
        if (x, y) == (a, b):
            m &= k
        elif (x, y) == (b, a):
            m &= absint.FLIP[k]
    return m


def conflict_literals(st):
    """literals added to a conflict on the path, and erased duplicates"""
    evs = [e for a in st.auto for e in a]
    return [e for e in evs if e[0] in ("push_back", "emplace_back") and e[1][1][-1:] == ("clause",)]


def bound_rule(P, R):
    name = "yaga::Bound_conflict_analysis::analyze"
    for fn in P.find(name):
        L = F.loc(fn)
        h = H((name,))
        I = Interp(P, h)
        outs = I.run(fn, h.start())
        R.saw(I)
        obj = None
        for st, k, v in outs:
            for f in st.facts:
                if f[:2] == ("call", "hasb") and f[2][0][1] in ("lower_bound", "upper_bound"):
                    obj = f[2][0][2]
        if obj is None:
            continue
        lb, ub = ("call", "lower_bound", obj), ("call", "upper_bound", obj)
        val = lambda b: ("call", "bvalue", (b,))
        for st, k, v in outs:
            if k != "ret":
                continue
            have = st.facts.get(("call", "hasb", (lb,))) is True and st.facts.get(("call", "hasb", (ub,))) is True
            m = rat(st, val(lb), val(ub)) if have else None
            strict = [st.facts.get(("call", "bis_strict", (b,))) for b in (lb, ub)]
            if v == ("none",):
                missing = False in (st.facts.get(("call", "hasb", (lb,))), st.facts.get(("call", "hasb", (ub,))))
                ok = missing or have and (m == LT or not m & GT and strict == [False, False])
                R.check(ok, "C19.detect", "crossing bounds are a conflict", L, "bounds that leave no value are not reported as a conflict")
                continue
            R.check(have, "C19.detect", "a conflict needs both bounds", L, "a conflict is reported although a bound is missing")
            if not have:
                continue
            R.check(m == GT or not m & LT and True in strict, "C19.detect", "only crossing bounds are a conflict", L, "a conflict is reported although the bounds leave a value")
            evs = st.auto[0]
            el = [star(e[1]) for e in evs if e[0] == "eliminate"]
            R.check(sorted(map(repr, el)) == sorted(map(repr, (lb, ub))), "C19.conflict", "both bounds are explained", L, "a conflict does not explain both bounds")
            res = [e for e in evs if e[0] == "resolve"]
            ok = len(res) == 1 and res[0][2][:2] == ("call", "eliminated") and star(res[0][2][2][0]) in (lb, ub) and res[0][3] in (("call", "bvar", (lb,)), ("call", "bvar", (ub,)), ("p", fn["ps"][-1]["n"]))
            R.check(ok, "C19.conflict", "the two bounds are resolved on their variable", L, "the two bounds are not resolved on their variable")
            derived_rule(R, st, evs, L)
    R.need(1, "C19.conflict")
    R.need(1, "C19.detect")


def derived_rule(R, st, evs, L):
    fin = [e for e in evs if e[0] == "fmfinish"]
    R.check(bool(fin), "C19.conflict", "a derived constraint is made for the conflict", L, "no constraint is derived from the eliminations")
    lits = [e[2][0] for e in evs if e[0] in ("push_back", "emplace_back") and e[1][1][-1:] == ("clause",)]
    for e in fin:
        d = ("call", "derived", (("lv", e[1]),))
        m = None
        for (a, b), mm in st.rel.items():
            if a == ("call", "size", (("call", "vars", (d,)),)) and b == C(0):
                m = mm
        R.check(clit(d) in lits or m == EQ, "C19.conflict", "the derived literal is part of the conflict", L, "the literal of the derived constraint is not part of the conflict")
        R.check(clit(d) not in lits or m is not None and not m & EQ, "C19.conflict", "an empty derivation adds no literal", L, "a literal is added for an empty derived constraint")
    R.check(all(any(l == clit(("call", "derived", (("lv", e[1]),))) for e in fin) or "breason" in repr(l) for l in lits), "C19.conflict", "only assumptions and derived literals are part of the conflict", L, "another literal is part of the conflict")


def inequality_rule(P, R):
    name = "yaga::Inequality_conflict_analysis::analyze"
    for fn in P.find(name):
        L = F.loc(fn)
        h = H((name,))
        I = Interp(P, h)
        outs = I.run(fn, h.start())
        R.saw(I)
        obj = None
        for st, k, v in outs:
            for f in st.facts:
                if f[:2] == ("call", "hasb") and f[2][0][1] in ("lower_bound", "upper_bound"):
                    obj = f[2][0][2]
        if obj is None:
            continue
        lb, ub = ("call", "lower_bound", obj), ("call", "upper_bound", obj)
        val = lambda b: ("call", "bvalue", (b,))
        rs = lambda b: [("call", "is_strict", (("call", "breason", (b,)),)), ("call", "bis_strict", (b,))]
        n = 0
        for st, k, v in outs:
            if k != "ret":
                continue
            have = all(st.facts.get(("call", "hasb", (b,))) is True for b in (lb, ub))
            m = rat(st, val(lb), val(ub)) if have else None
            neqs = [f[2][0] for f, b in st.facts.items() if f[:2] == ("call", "hasb") and f[2][0][1] == "inequality" and b is True]
            if v == ("none",):
                no = [f[2][0] for f, b in st.facts.items() if f[:2] == ("call", "hasb") and f[2][0][1] == "inequality" and b is False]
                missing = any(st.facts.get(("call", "hasb", (b,))) is False for b in (lb, ub))
                strict = any(st.facts.get(f) is True for b in (lb, ub) for f in rs(b))
                R.check(missing or have and (not m & EQ or strict) or bool(no), "C19.detect", "equal bounds at an excluded value are a conflict", L, "bounds that leave only an excluded value are not reported as a conflict")
                continue
            R.check(have and m == EQ and len(neqs) >= 1 and all(x[2][-1] in (val(lb), val(ub)) for x in neqs), "C19.detect", "only an excluded value between equal bounds is a conflict", L, "a conflict is reported although the bounds leave an allowed value")
            R.check(have and all(any(st.facts.get(f) is False for f in rs(b)) for b in (lb, ub)), "C19.detect", "strict bounds are left to the bound conflict", L, "an excluded value between strict bounds is reported")
            if not neqs:
                continue
            n += 1
            evs = [e for a in st.auto for e in a]
            nq = neqs[-1]
            lits = [e[2][0] for e in evs if e[0] in ("push_back", "emplace_back") and e[1][1][-1:] == ("clause",)]
            R.check(neg(clit(("call", "breason", (nq,)))) in lits, "C19.conflict", "the disequality is an assumption of the conflict", L, "the disequality is not part of the conflict")
        its = [(st, [e for e in st.auto[-1]]) for info, st, how, lvl in h.ends] + [(st, st.auto[0]) for st, k, v in outs if k == "ret" and v != ("none",)]
        sides = set()
        for st, evs in its:
            cur = []
            for e in evs:
                if e[0] == "eliminate":
                    cur.append(star(e[1]))
                if e[0] != "resolve":
                    continue
                mine = cur[-1] if cur else None
                o = e[2]
                if o[:2] != ("call", "fm") or len(o[2]) != 4 or mine not in (lb, ub):
                    continue
                _, reason, pr, mult = o[2]
                nq = reason[2][0] if reason[:2] == ("call", "breason") else None
                R.check(nq is not None and nq[:2] == ("call", "inequality"), "C19.split", "a bound is resolved with the disequality", L, "a bound is not resolved with the disequality")
                R.check(show(pr) == "lt", "C19.split", "one side of a disequality is strict", L, "one side of a disequality is used as a weak bound")
                if nq is None or not is_c(mult):
                    continue
                sg = None
                for (a, z), m in st.rel.items():
                    if z == C(0) and a[:1] == ("at",) and star(a[1])[:2] == ("call", "coef") and mentions(a, reason):
                        sg = 1 if m == GT else -1 if not m & GT else None
                        R.check(a[2] in (C(0), 0), "C19.split", "the sign is that of the coefficient of the variable", L, "the side of a disequality is chosen by the coefficient of another variable")
                if sg is None:
                    continue
                sides.add(mine[1])
                # with a lower bound, the disequality must act as an upper bound of the variable
                R.check((cval(mult) * sg > 0) == (mine == lb), "C19.split", "a bound is resolved with the opposite side of the disequality", L, "a bound is resolved with the side of the disequality that does not contradict it")
                R.check(e[3][:2] == ("call", "bvar") or e[3] == ("p", fn["ps"][-1]["n"]), "C19.split", "the variable of the bounds is resolved", L, "another variable is resolved")
        for info, st, how, lvl in h.ends:
            if any(e[0] == "eliminate" for e in st.auto[-1]):
                R.check(how != "break" or mentions_both(st, lb, ub), "C19.split", "both sides of a disequality are used", L, "the second bound is not resolved with the disequality")
                derived_rule(R, st, st.auto[-1], L)
        R.check(n == 0 or sides == {"lower_bound", "upper_bound"}, "C19.split", "both sides of a disequality are used", L, "only one of the two bounds is resolved with the disequality")
    R.need(1, "C19.split")


def mentions_both(st, lb, ub):
    got = {star(e[1]) for a in st.auto for e in a if e[0] == "eliminate"}
    return {lb, ub} <= got


def unique_rule(P, R):
    """Duplicates are removed from sorted literals only."""
    name = "yaga::Lra_conflict_analysis::finish"
    for fn in P.find(name):
        h = H((name,))
        I = Interp(P, h)
        for st, k, v in I.run(fn, h.start()):
            if k == "ret":
                R.check("clause" in show(v), "C19.conflict", "the conflict is returned", F.loc(fn), "another clause is returned")
        R.saw(I)


def check(P, R):
    combine_rule(P, R)
    init_rule(P, R)
    resolve_rule(P, R)
    normalize_rule(P, R)
    finish_rule(P, R)
    eliminate_rule(P, R)
    bound_rule(P, R)
    inequality_rule(P, R)
    unique_rule(P, R)
