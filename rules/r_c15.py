"""C15: a linear constraint made from terms means what was asked for."""
from lralib import *
from r_c16 import part, qdiff, qterms, old_of, plain, rel_is

LCS = "yaga::Linear_constraints"
OP = "yaga::Order_predicate"


class H(Lra):
    merge_limit = 300
    nest = False

    def __init__(self, keep=()):
        super().__init__(None)
        self.inline_these = set(keep)

    def owned(self, I, st, obj):
        return True

    def iter_begin(self, I, st, info):
        st = super().iter_begin(I, st, info)
        return self.ev(st, "old", tuple(sorted(st.store.items(), key=repr)))

    def watched_container(self, I, obj):
        n = super().watched_container(I, obj)
        return n or ("own" if obj[0] == ("M", THIS) and obj[1] else None)

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q.startswith(LCS + "::") and q not in self.inline_these and q.count("::") == 2:
            vs = self.vals(I, st, args)
            if s in ("vars", "coef") and vs:
                return [(st, mem(s, (unneg(vs[0])[0],)))]
            if s == "find_norm_constant":
                return [(s2, ("some", ("call", "mult", ())) if b else ("none",)) for s2, b in I.split(st, ("call", "hasvars", ()))]
            if s == "norm_pred":
                return [(st, ("call", "norm_pred", vs))]
            if s == "add":
                return [(self.ev(st, "add", *vs), ("call", "added", vs))]
            if s == "eval":
                return [(st, ("call", "ceval", vs[1:]))]
        return super().call(I, st, node, q, obj, args)


EXPLANATION = ("Every operation of a linear constraint and of the store of constraints is interpreted on symbolic constraints, with sums taken apart into the products each iteration adds, relations as masks over less, equal and greater, and the "
               "literal's polarity as a path fact; what make() returns is compared, per path, with the constraint asked for: predicate, right-hand side, polarity, coefficients, and, for duplicates, what is removed again.")
ASSUMPTIONS = ["no variable occurs twice in the terms given (C13, C14)", "rational arithmetic and its hash (C10, C11)", "standard containers behave as documented"]

PRED = {"eq": EQ, "lt": LT, "leq": LT | EQ}


def run(P, R, name, keep=(), **kw):
    for fn in sorted(P.find(name), key=lambda f: f["id"]):
        h = H({name} | set(keep))
        h.H_kw = kw
        I = Interp(P, h)
        outs = I.run(fn, h.start())
        R.saw(I)
        h.ends = [(i, plain(st), how, l) for i, st, how, l in h.ends]
        res = []
        for st, k, v in outs:
            if k != "ret":
                continue
            if v[0] in ("op", "not", "cmp") or v[:2] == ("call", "holds"):
                res += [(plain(s2), pl(C(b))) for s2, b in I.split(st, v)]
            else:
                res.append((plain(st), pl(v)))
        yield fn, h, I, res, outs


def sums(h, v):
    """v taken apart: (products at the start, [(iteration, products added)], atoms that are not sums)"""
    init, steps, phis = [], [], []
    for s, t in qterms(v):
        if len(t) == 1 and t[0][0] == "phi":
            ph = t[0]
            key, site = ph[2], ph[1]
            phis.append(ph)
            for info in {id(i): i for i, st, how, l in h.ends if i["site"] == site}.values():
                for st0 in info["entry"]:
                    if key in st0.store:
                        ini = [(s * s2, t2) for s2, t2 in qterms(pl(st0.store[key]))]
                        if ini not in init:
                            init.append(ini)
            for info, st, how, l in h.ends:
                if info["site"] == site and how == "next":
                    old = {k: pl(x) for k, x in old_of(st).items()}
                    new = pl(st.store.get(key, C(None)))
                    was = old.get(key)
                    if was is None or new == C(None):
                        steps.append((info, st, None))
                        continue
                    steps.append((info, st, [(s * k, t2) for k, t2 in qdiff(new, was)]))
        else:
            phis.append(None)
            init = [i + [(s, t)] for i in init] or [[(s, t)]]
    return init, steps, phis


def flat(terms):
    acc = {}
    for s, t in terms:
        acc[t] = acc.get(t, 0) + s
    return {t: k for t, k in acc.items() if k}


def summands(R, rule, L, h, v, cons, sign, first, what):
    """v = sign * (sum over the terms of cons from index `first` on of coefficient * value  -  rhs)"""
    init, steps, phis = sums(h, v)
    if not steps:
        return None
    base_ = {(("call", "rhs", (cons,)),): -sign}
    for i in init:
        R.check(flat(i) == base_, rule, f"{what}: starts from the right-hand side", L, f"{what} does not account for the right-hand side exactly once")
    for info, st, d in steps:
        if d is None:
            continue
        if len(d) != 1 or len(d[0][1]) != 2:
            if d and all(len(t) == 2 for s, t in d) or not d:
                R.check(False, rule, f"{what}: one product per variable", L, f"{what}: a variable does not contribute exactly one product")
            continue
        k, (a, b) = d[0]
        cf, y = (part(a, "coef"), b) if part(a, "coef") else (part(b, "coef"), a)
        if cf is None or y[:2] != ("call", "val"):
            continue
        v_ = part(y[2][0], "vars")
        if v_ is None:
            continue
        R.check(cf == (cons, cf[1]) and v_ == (cons, cf[1]), rule, f"{what}: coefficient and variable belong together", L, f"{what}: a coefficient is multiplied with the value of another variable")
        R.check(k == sign, rule, f"{what}: products have the right sign", L, f"{what}: a product is counted with the wrong sign or factor")
        if isint(cf[1]):
            # the first iteration of a loop by iterators
            R.check(cval(cf[1]) == first, rule, f"{what}: begins with the right variable", L, f"{what} begins with the wrong variable")
    return True


def evaluation(P, R):
    for name in (LCS + "::eval",):
        for fn, h, I, res, outs in run(P, R, name):
            L = F.loc(fn)
            cons = ("p", fn["ps"][-1]["n"])
            for st, v in res:
                hs = [(f, t) for f, t in st.facts.items() if f[:2] == ("call", "holds")]
                ng = st.facts.get(("call", "negation", (clit(cons),)))
                if len(hs) != 1 or not is_c(v):
                    continue
                (f, t), = hs
                p, a, b = f[2]
                R.check(p == ("call", "pred", (cons,)), "C15.eval", "the predicate of the constraint decides", L, "a constraint is evaluated with another predicate")
                if ng is None:
                    R.check(False, "C15.eval", "negation counts", L, "the polarity of the literal does not matter for the value of a constraint")
                else:
                    R.check(v[1] == (t != ng), "C15.eval", "negation counts", L, "the value of a negated constraint is not the opposite of the comparison")
                summands(R, "C15.eval", L, h, ("q", "-", a, b), cons, 1, 0, "the value of a constraint")
            R.need(1, "C15.eval")
    for fn, h, I, res, outs in run(P, R, LCS + "::implied_value"):
        L = F.loc(fn)
        cons = ("p", fn["ps"][-1]["n"])
        for st, v in res:
            if v == ("call", "rhs", (cons,)):
                continue
            summands(R, "C15.unit", L, h, v, cons, -1, 1, "the value implied by a unit constraint")
    for fn, h, I, res, outs in run(P, R, "yaga::eval"):
        if "Linear_constraint" not in str(fn["ps"][-1]["t"]):
            continue
        L = F.loc(fn)
        cons = ("p", fn["ps"][-1]["n"])
        und = lambda st: [f for f, t in st.facts.items() if f[:2] == ("call", "adef") and t is False]
        for st, v in res:
            if v == ("none",):
                R.check(bool(und(st)), "C15.undefined", "no value only if a variable is unassigned", L, "a constraint is undefined although all its variables are assigned")
            elif v[0] == "some" or v[:2] == ("call", "ceval"):
                R.check(not und(st), "C15.undefined", "a value only if all variables are assigned", L, "a constraint with an unassigned variable is evaluated")
        for info, st, how, l in h.ends:
            if how == "break" and und(st):
                continue
            if how in ("next", "break"):
                R.check(how == "next" and any(f[:2] == ("call", "adef") and part(f[2][0], "vars") for f in st.facts) and not und(st), "C15.undefined", "a value only if all variables are assigned", L, "a constraint is evaluated without looking at every variable")


def rmask(st, x, c):
    """How x compares with the number c, for rational numbers (no rounding to integers)."""
    m = LT | EQ | absint.GT
    for (a, b), mm in st.rel.items():
        for u, w, k in ((a, b, mm), (b, a, absint.FLIP[mm])):
            if u == x and is_c(w):
                d = cval(w)
                if d == c:
                    m &= k
                elif d > c:
                    m &= LT | EQ | absint.GT if k & LT else absint.GT
                else:
                    m &= LT | EQ | absint.GT if k & absint.GT else LT
    return m


def enum_of(st, t):
    """Predicates possible for term t on this path."""
    poss = set(PRED)
    for (a, b), m in st.rel.items():
        for u, w, mm in ((a, b, m), (b, a, absint.FLIP[m])):
            if u == t and w[0] == "en":
                n = w[1].split("::")[-1]
                if mm == EQ:
                    poss &= {n}
                elif not mm & EQ:
                    poss -= {n}
    return poss


def predicates(P, R):
    for fn, h, I, res, outs in run(P, R, OP + "::operator()", keep=[OP + "::operator Type"]):
        L = F.loc(fn)
        a, b = (("p", p["n"]) for p in fn["ps"])
        for st, k, v in outs:
            if k != "ret":
                continue
            v, st = pl(v), plain(st)
            for w in enum_of(st, ("fld", THIS, "type")):
                for m in (LT, EQ, absint.GT):
                    if not I.mask(st, a, b) & m:
                        continue
                    want = bool(PRED[w] & m)
                    if v[0] == "cmp" and set(v[2:]) == {a, b}:
                        mm = absint.MASKS[v[1]] if hasattr(absint, "MASKS") else {"==": EQ, "!=": LT | absint.GT, "<": LT, "<=": LT | EQ, ">": absint.GT, ">=": absint.GT | EQ}[v[1]]
                        got = bool((mm if v[2] == a else absint.FLIP[mm]) & m)
                    elif is_c(v):
                        got = bool(v[1])
                    else:
                        continue
                    R.check(got == want, "C15.predicate", f"{w}", L, f"the predicate {w} has the wrong value when its left side is {'less' if m == LT else 'equal' if m == EQ else 'greater'}")
    for fn, h, I, res, outs in run(P, R, LC + "::is_strict"):
        L = F.loc(fn)
        for st, v in res:
            n = st.facts.get(("call", "negation", (clit(THIS),)))
            if not is_c(v):
                continue
            for w in enum_of(st, ("call", "pred", (THIS,))):
                for nn in (False, True) if n is None else (n,):
                    want = {("lt", False), ("leq", True), ("eq", True)}
                    R.check(v[1] == ((w, nn) in want), "C15.strict", f"{'not ' if nn else ''}{w}", L, f"{'the negation of ' if nn else ''}{w} is {'not ' if (w, nn) in want else ''}reported as strict")
    for fn, h, I, res, outs in run(P, R, LC + "::operator~"):
        L = F.loc(fn)
        for st, v in res:
            if v[0] != "agg":
                continue
            d = dict(v[2])
            R.check(d.get("literal") == neg(clit(THIS)), "C15.negation", "the literal is negated", L, "the negation of a constraint does not have the opposite literal")
            rest = {"constant": ("call", "rhs", (THIS,)), "predicate": ("call", "pred", (THIS,))}
            R.check(all(d[k] in (rest.get(k), ("fld", THIS, k)) for k in d if k != "literal"), "C15.negation", "everything else is the same", L, "the negation of a constraint is about something else")
    for fn, h, I, res, outs in run(P, R, LC + "::negate"):
        for st, v in res:
            w = [x for k, x in st.store.items() if k[0] == ("M", THIS) and k[1] and k[1][-1] == "literal"]
            other = [k for k in st.store if k[0] == ("M", THIS) and k[1] and k[1][-1] != "literal" and st.store[k] != ("fld", THIS, k[1][-1])]
            if w or other:
                R.check(not other and all(x in (neg(("fld", THIS, "literal")), neg(clit(THIS))) for x in w), "C15.negation", "negate() flips the literal only", F.loc(fn), "negate() changes more or less than the literal")
    for fn, h, I, res, outs in run(P, R, LCS + "::norm_pred"):
        L = F.loc(fn)
        mult, pred = (("p", p["n"]) for p in fn["ps"])
        for st, v in res:
            m = rmask(st, mult, 0)
            for w in enum_of(st, ("fld", pred, "type")) & enum_of(st, pred):
                for s in (LT, absint.GT):
                    if not m & s:
                        continue
                    want = {"lt": "leq", "leq": "lt", "eq": "eq"}[w] if s == LT else w
                    got = w if v in (pred, ("fld", pred, "type")) else v[1].split("::")[-1] if v[0] == "en" else None
                    if got is None and v[0] == "agg":
                        t = dict(v[2]).get("type")
                        got = w if t == ("fld", pred, "type") else t[1].split("::")[-1] if t and t[0] == "en" else None
                    if got is None:
                        continue
                    R.check(got == want, "C15.flip", f"{w} times a {'negative' if s == LT else 'positive'} number", L, f"{w} multiplied by a {'negative' if s == LT else 'positive'} number becomes {got}")


def norm_constant(P, R):
    for fn, h, I, res, outs in run(P, R, LCS + "::find_norm_constant"):
        L = F.loc(fn)
        V, K = (("p", p["n"]) for p in fn["ps"])
        got = False
        for st, v in res:
            if v[0] == "some" and v[1][:2] == ("q", "/") and v[1][2] == C(1):
                c = v[1][3]
                R.check(not I.mask(st, c, C(0)) & EQ, "C15.norm", "never a division by zero", L, "the inverse of a coefficient that may be zero is used")
                if c[0] != "phi":
                    continue
                got = True
                ckey = c[2]
                for info, s1, how, l in h.ends:
                    if info["site"] != c[1] or how != "next":
                        continue
                    old = {k: pl(x) for k, x in old_of(s1).items()}
                    new, was = pl(s1.store.get(ckey, C(None))), old.get(ckey)
                    if new[0] == "at" and new[1] == K:
                        x = ("at", V, new[2])
                        mk = [k for k, z in s1.store.items() if pl(z) == x and k[0][0] == "L" and k[1] == () and k in old]
                        R.check(not I.mask(s1, new, C(0)) & EQ, "C15.norm", "a coefficient of zero is never used", L, "a coefficient that may be zero is taken for normalization")
                        R.check(any(I.mask(s1, x, old[k]) == LT or isint(old[k]) and cval(old[k]) >= 2**31 - 1 for k in mk), "C15.norm", "the smallest variable decides", L,
                                "the coefficient used for normalization depends on the order of the variables")
                    elif new == was:
                        j = [k2[2] for (a, b), m in s1.rel.items() for k2 in (a, b) if k2[0] == "at" and k2[1] in (V, K)]
                        ok = False
                        for i in j:
                            x, y = ("at", V, i), ("at", K, i)
                            ok = ok or I.mask(s1, y, C(0)) == EQ or any(not I.mask(s1, x, o) & LT and I.mask(s1, x, o) != LT | EQ | absint.GT for o in old.values() if o[0] in ("phi", "c"))
                        if j:
                            R.check(ok, "C15.norm", "no smaller variable is passed over", L, "a smaller variable with a nonzero coefficient is not used for normalization")
            elif v == ("none",):
                zero = [1 for (a, b), m in st.rel.items() if m == EQ and C(0) in (a, b)]
                R.check(bool(zero) or any(x[0] == "it" for p in st.rel for x in p) and not got, "C15.norm", "no constant only without variables", L, "a constraint with variables is treated as a constant")
        R.need(1, "C15.norm")


def made(v):
    """Parts of a constraint under construction: literal, range, predicate, right-hand side."""
    if v[:2] == ("call", "make") and len(v[2]) == 5:
        return v[2]
    if v[0] == "agg" and v[1].endswith("Linear_constraint"):
        d = dict(v[2])
        return tuple(d.get(k) for k in ("literal", "position", "predicate", "constant", "constraints"))
    return None


def make(P, R):
    for fn, h, I, res, outs in run(P, R, LCS + "::make"):
        L = F.loc(fn)
        V, K, PR, RHS = (("p", p["n"]) for p in fn["ps"])
        n = 0
        for st, v in res:
            if v[0] != "agg" or not v[1].endswith("Linear_constraint"):
                continue
            evs = st.auto[0]
            ins = [e for e in evs if e[0] in ("insert", "emplace") and e[2]]
            put = [e for e in evs if e[0] in ("emplace_back", "push_back") and "constraints" in e[1][1]]
            if len(ins) != 1 or len(put) != 1:
                continue
            X = made(ins[0][2][0])
            if X is None:
                continue
            d = dict(v[2])
            lit = d["literal"]
            negated = False
            if lit[:2] == ("call", "~"):
                negated, lit = True, lit[2][0]
            if not (lit[:2] == ("call", "clit") or lit == X[0]):
                continue
            src = lit[2][0] if lit[:2] == ("call", "clit") else None
            found = lambda z: z is not None and z[0] == "at" and z[2][:2] == ("call", "find") or z is not None and mentions(z, ins[0][2][0])
            inserted = st.facts.get(("call", "inserted", ()))
            if inserted is None:
                inserted = next((t for f, t in st.facts.items() if f[1] == "inserted"), None)
            R.check(src is None and inserted or found(src) or src == ins[0][2][0], "C15.dup", "the stored constraint is returned", L, "the literal returned is not that of the stored constraint")
            # the rest comes from the stored constraint (or, when new, from the one stored)
            same = lambda k, z, x: z == x or any(z == ("call", k, (s,)) or z == ("fld", s, {"rhs": "constant", "pred": "predicate", "pos": "position"}[k]) for s in [src]) and src is not None
            R.check(same("pos", d["position"], X[1] if inserted else None) and same("rhs", d["constant"], X[3]) and same("pred", d["predicate"], X[2]), "C15.dup", "the constraint returned has the terms of the stored one", L,
                    "the constraint returned differs from the stored one")
            pops = [e for e in evs if e[0] == "pop_back" and "constraints" in e[1][1]]
            er = {e[1][1][-1] for e in evs if e[0] == "erase"}
            if inserted is True:
                R.check(not pops and not er, "C15.dup", "a new constraint is kept", L, "parts of a new constraint are removed again")
            elif inserted is False:
                R.check(len(pops) == 1, "C15.dup", "a duplicate is removed again", L, "a duplicate constraint is left in the list of constraints, whose index is the variable of the constraint")
                for c in ("variables", "coefficients"):
                    R.check(c in er or not any(e[0] == "add" for e in evs), "C15.dup", f"the {c} of a duplicate are removed again", L, f"the {c} of a duplicate stay in the store while the others are removed")
            has = st.facts.get(("call", "hasvars", ()))
            n += 1
            mult = ("call", "mult", ())
            if has:
                added = next((e for e in evs if e[0] == "add"), None)
                if added is None:
                    continue
                R.check(added[1:] == (mult, V, K), "C15.scale", "all terms are stored, multiplied by the constant", L, "the terms stored are not the ones given times the normalization constant")
                A = ("call", "added", added[1:])
                R.check(X[0] == ("fld", A, "first") and X[1] == ("fld", A, "second"), "C15.scale", "the constraint names its own terms", L, "the constraint refers to other terms than the ones stored for it")
                R.check(flat(qterms(X[3])) == {tuple(sorted((mult, RHS), key=repr)): 1}, "C15.scale", "the right-hand side is multiplied too", L, "the right-hand side is not multiplied by the normalization constant exactly once")
                m = rmask(st, mult, 0)
                eq = enum_of(st, PR)
                for s in (LT, absint.GT):
                    if not m & s:
                        continue
                    for w in eq:
                        want = s == LT and w != "eq"
                        if X[2] == ("call", "norm_pred", (mult, PR)):
                            R.check(negated == want, "C15.polarity", f"{w} times a {'negative' if s == LT else 'positive'} number", L, f"the literal of {w} times a {'negative' if s == LT else 'positive'} number has the wrong polarity")
                        elif X[2] == PR:
                            R.check(negated is False and not want, "C15.polarity", f"{w} times a {'negative' if s == LT else 'positive'} number", L, f"{w} is not turned around when multiplied by a negative number")
            elif has is False:
                hs = [(f, t) for f, t in st.facts.items() if f[:2] == ("call", "holds")]
                R.check(len(hs) == 1 and hs[0][0][2] == (PR, C(0), RHS) and negated == (not hs[0][1]), "C15.trivial", "a constraint without variables has the value of its comparison", L,
                        "a constraint without variables has the wrong truth value")
                rg = dict(X[1][2]) if X[1][0] == "agg" else {}
                R.check(X[3] == C(0) and show(X[2]).split("::")[-1] == "eq" and rg and rg.get("first") == rg.get("second"), "C15.trivial", "it is stored as 0 = 0", L, "a constraint without variables is not stored as 0 = 0, of which its literal is the value")
            R.check(X[0] == ("call", "lit", (size_of("constraints"),)) or X[0][0] == "fld", "C15.index", "a new constraint gets the next variable", L, "the variable of a new constraint is not its place in the list")
        R.need(1, "C15.polarity")


def size_of(f):
    return ("call", "size", (("fld", THIS, f),))


def storing(P, R):
    for fn, h, I, res, outs in run(P, R, LCS + "::add"):
        L = F.loc(fn)
        MULT = ("p", fn["ps"][0]["n"])
        VARS, COEF = (("M", THIS), ("variables",)), (("M", THIS), ("coefficients",))
        for st, v in res:
            if v[0] == "agg":
                d = dict(v[2])
                R.check(d.get("first") == ("call", "lit", (size_of("constraints"),)), "C15.index", "a new constraint gets the next variable", L, "the variable of a new constraint is not its place in the list")
                rg = d.get("second")
                if rg is not None and rg[0] == "agg":
                    r = dict(rg[2])
                    R.check(r.get("first") == size_of("variables"), "C15.scale", "the terms begin where they are stored", L, "the range of a constraint does not begin with its first term")
                    e = r.get("second")
                    fin = st.store.get(VARS)
                    if fin is not None and e is not None:
                        R.check(e == ("call", "size", (pl(fin),)), "C15.scale", "the terms end where they are stored", L, "the range of a constraint does not end with its last term")
        for info, st, how, l in h.ends:
            if how != "next":
                continue
            old = {k: pl(x) for k, x in old_of(st).items()}
            # compaction: both copied together, exactly when the coefficient is not zero
            z = [(t, m) for (a, b), m in st.rel.items() for t in (a, b) if C(0) in (a, b) and t[0] == "at"]
            outs_ = [k for k in st.store if k[0][0] == "L" and st.store[k][0] == "it" and old.get(k, C(0))[0] == "it" and pl(st.store[k]) != old[k]]
            adv = {c for k in outs_ for c in [st.store[k][1]]}
            if z and any(st.store[k][0] == "it" for k in st.store) and len(z) == 1:
                t, m = z[0]
                if m == EQ:
                    R.check(not outs_, "C15.zero", "terms with coefficient zero are left out", L, "a term whose coefficient is zero is stored")
                elif not m & EQ:
                    R.check({VARS, COEF} <= adv, "C15.zero", "all other terms are kept", L, "a term is not kept with both its variable and its coefficient")
                    for k in outs_:
                        c, pos = old[k][1], old[k][2]
                        src = [x for kk, x in st.store.items() if kk[0] == c[0] and kk[1][:len(c[1])] == c[1] and kk[1] != c[1]]
                        if src and t[2] is not None:
                            R.check(any(pl(x)[0] == "at" and pl(x)[2] == t[2] for x in src) , "C15.zero", "variable and coefficient are moved together", L, "a variable is moved to the place of another one's coefficient")
        for info, st, how, l in h.ends:
            if how != "next":
                continue
            old = old_of(st)
            for k, x in st.store.items():
                x = pl(x)
                if k[0] == COEF[0] and k[1][:1] == ("coefficients",) and len(k[1]) == 2 and x[:1] == ("q",):
                    fs = qterms(x)
                    R.check(len(fs) == 1 and fs[0][0] == 1 and fs[0][1].count(MULT) == 1 and len(fs[0][1]) == 2, "C15.scale", "each coefficient is multiplied once", L, "a coefficient is not multiplied by the normalization constant exactly once")


def equality(P, R):
    EQN = "yaga::Linear_constraint_equal::"
    for fn, h, I, res, outs in run(P, R, EQN + "operator()"):
        L = F.loc(fn)
        A, B = (("p", p["n"]) for p in fn["ps"])
        size = lambda c: ("call", "size", (("call", "vars", (c,)),))
        base_ = [(size(A), size(B), "size"), (("call", "pred", (A,)), ("call", "pred", (B,)), "predicate"), (("call", "rhs", (A,)), ("call", "rhs", (B,)), "right-hand side")]
        judged = {i["site"] for i, st, how, l in h.ends if how in ("ret", "break")}
        for st, v in res:
            if not is_c(v):
                continue
            if v[1]:
                for a, b, w in base_:
                    R.check(I.mask(st, a, b) == EQ, "C15.equal", f"equal constraints have the same {w}", L, f"constraints that differ in their {w} are treated as the same")
            else:
                why = [1 for (a, b), m in st.rel.items() if not m & EQ] + [1 for (a, b), m in st.rel.items() if m == EQ and any(x[:1] == ("call",) and x[1].split("::")[-1] in ("find", "lower_bound") for x in (a, b))]
                R.check(bool(why), "C15.equal", "different constraints differ in something", L, "constraints are treated as different without a difference")
        for info, st, how, l in h.ends:
            if how != "next" or info["site"] not in judged:
                continue
            good = False
            for (a, b), m in st.rel.items():
                for x, y in ((a, b), (b, a)):
                    p = part(x, "coef")
                    if p is None or m != EQ or p[0] not in (A, B):
                        continue
                    me, i = p
                    other = B if me == A else A
                    isvar = lambda t: part(t, "vars") == (me, i)
                    q = part(y, "coef")
                    if q is not None:
                        fs = [t for t in subterms(q[1]) if t[:1] == ("call",) and t[1] in ("find", "std::find") and any(isvar(z) for z in subterms(t))]
                        ok = any(not I.mask(st, t, end_of(t)) & EQ and mentions(t, ("call", "vars", (other,))) for t in fs)
                        if not fs:
                            ok = any(mm == EQ and any(isvar(u) and part(w, "vars") == (other, q[1]) for u, w in ((u, w), (w, u))) for (u, w), mm in st.rel.items())
                        good = good or ok and q[0] == other
                    elif y[0] in ("fld", "project") and y[-1] in ("second", "first"):
                        twin = y[:-1] + ("first" if y[-1] == "second" else "second",)
                        good = good or any(mm == EQ and any(isvar(u) and w == twin for u, w in ((u, w), (w, u))) for (u, w), mm in st.rel.items())
                    else:
                        good = True         # looked up in some other way
            R.check(good, "C15.equal", "every variable has the same coefficient", L, "constraints with different coefficients or variables are treated as the same")
        R.need(1, "C15.equal")
    for fn, h, I, res, outs in run(P, R, "yaga::Linear_constraint_hash::operator()"):
        L = F.loc(fn)
        for info, st, how, l in h.ends:
            if how != "next":
                continue
            old = {k: pl(x) for k, x in old_of(st).items()}
            for k, x in st.store.items():
                x = pl(x)
                w = old.get(k)
                if w is None or w[0] != "phi" or x == w or x[0] != "op":
                    continue
                comm = ("+", "^", "|", "&", "*")
                ok = x[1] in comm and len(x) == 4 and (x[2] == w) != (x[3] == w) and not mentions(x[3] if x[2] == w else x[2], w)
                R.check(ok, "C15.hash", "the order of the variables does not matter", L, "the hash of a constraint depends on the order of its variables")


def end_of(t):
    """The end of the range a search goes over."""
    return t[2][1] if len(t[2]) > 1 else C(None)


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)


def access(P, R):
    for what, field in (("vars", "variables"), ("coef", "coefficients")):
        for fn, h, I, res, outs in run(P, R, LCS + "::" + what):
            L = F.loc(fn)
            cons = ("p", fn["ps"][0]["n"])
            for st, v in res:
                its = [t for t in subterms(v) if t[:1] == ("it",) and len(t) == 3]
                if len(its) != 2:
                    continue
                pos = ("fld", cons, "position")
                for t, side in zip(its, ("first", "second")):
                    R.check(t[1] == (("M", THIS), (field,)), "C15.range", f"{what} come from the {field}", L, f"{what}() of a constraint does not return its {field}")
                    ok = t[2][0] == "i" and pl(t[2][1]) in (("fld", pos, side), ("fld", ("call", "pos", (cons,)), side))
                    R.check(ok, "C15.range", f"{what}: exactly the terms of the constraint", L, f"{what}() of a constraint returns terms of another one")
    for fn, h, I, res, outs in run(P, R, LCS + "::operator[]"):
        L = F.loc(fn)
        i = ("p", fn["ps"][0]["n"])
        for st, v in res:
            if v == ("at", ("fld", THIS, "constraints"), i):
                inside = not I.mask(st, i, C(0)) & LT and I.mask(st, size_of("constraints"), i) == absint.GT
                R.check(inside, "C15.lookup", "only constraints that exist are looked up", L, "a variable beyond the list of constraints is looked up")
            elif v[0] == "agg":
                out = I.mask(st, i, C(0)) == LT or not I.mask(st, size_of("constraints"), i) & absint.GT
                R.check(out, "C15.lookup", "every constraint is found", L, "the constraint of a variable is not found")


def check(P, R):
    R.rule("C15.eval", "a constraint is true exactly when its comparison holds for the sum of coefficient times value, or does not, for a negated literal")
    R.rule("C15.unit", "the value implied is the right-hand side without the other variables' products")
    R.rule("C15.undefined", "a constraint has a value exactly when all its variables are assigned")
    R.rule("C15.predicate", "each predicate is the relation it is named after")
    R.rule("C15.strict", "exactly <, and the negations of <= and =, are strict")
    R.rule("C15.negation", "the negation of a constraint differs in its literal only")
    R.rule("C15.flip", "multiplication by a negative number turns < and <= around")
    R.rule("C15.norm", "constraints are normalized by the inverse of the nonzero coefficient of their smallest variable")
    R.rule("C15.scale", "coefficients and right-hand side are multiplied by the same constant, once")
    R.rule("C15.polarity", "the literal returned is negated exactly when the stored constraint is the negation of the one asked for")
    R.rule("C15.trivial", "a constraint without variables is 0 = 0 or its negation, by its value")
    R.rule("C15.dup", "a constraint that is there already is not stored again, and its own literal is returned")
    R.rule("C15.index", "a constraint is stored at the place of its variable")
    R.rule("C15.zero", "terms with coefficient zero are left out")
    R.rule("C15.equal", "constraints are the same exactly when predicate, right-hand side and all coefficients are")
    R.rule("C15.hash", "the hash does not depend on the order of the variables")
    R.rule("C15.range", "a constraint's variables and coefficients are its own")
    R.rule("C15.lookup", "the constraint of a variable is found, and nothing else")
    evaluation(P, R)
    predicates(P, R)
    norm_constant(P, R)
    make(P, R)
    storing(P, R)
    equality(P, R)
    access(P, R)
