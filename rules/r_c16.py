"""C16: the bounds kept for arithmetic variables are implied by the current assignment."""
from lralib import *

EXPLANATION = ("Bounds::update, deduce and is_implied are interpreted with one generic term of the linear constraint: the bound value is an accumulator whose change per term is compared with coefficient times "
               "the value (or the bound) of the variable, and the direction of each bound used and produced is decided from the signs and the negation known on the path. "
               "Variable_bounds and Implied_value are interpreted on a symbolic bound; every path of the comparisons, the obsolescence test and the time stamps is judged against its definition.")
ASSUMPTIONS = ["coefficients stored in constraints are nonzero (C15)", "rational arithmetic (C10, C11)", "assignment time stamps grow with every assignment (C05, C06)"]

ADD = {"add_lower_bound": "lower", "add_upper_bound": "upper", "add_inequality": "neq"}


class H(Lra):
    forget = 1
    nest = False
    merge_limit = 300

    def __init__(self, R=None):
        super().__init__(R)

    def iter_begin(self, I, st, info):
        st = super().iter_begin(I, st, info)
        return self.ev(st, "old", tuple(sorted(st.store.items(), key=repr)))

    def iter_end(self, I, st, info, how):
        facts, rel = st.facts, st.rel
        st = super().iter_end(I, st, info, how)
        if self.forget and len(st.auto) <= self.forget and not info.get("unrolled"):
            st.facts = {k: v for k, v in facts.items() if steady(k)}
            st.rel = {k: v for k, v in rel.items() if steady(k[0]) and steady(k[1])}
        return st

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q == "ctor:yaga::Implied_value" and len(args) >= 4:
            vs = self.vals(I, st, args)
            deps = C(None)
            if len(args) > 4:
                deps = ("lv", args[4][1]) if args[4][0] == "ref" else vs[4]
            return [(st, ("call", "iv", (vs[0], vs[1], vs[2], deps)))]
        if q.startswith(BOUNDS + "::") and obj is not None and q not in self.inline_these:
            vs = self.vals(I, st, args)
            if s in ADD:
                tok = ("fresh", s, I.site(node), sum(e[0] in ADD for e in st.auto[-1]))
                return [(self.ev(st, s, obj, vs[-1], tok), tok)]
            if s in ("lower_bound", "upper_bound"):
                v = ("call", s, (("lv", obj),))
                return [(s2, ("ref", (("M", v), ())) if b else C(None)) for s2, b in I.split(st, ("call", "hasb", (v,)))]
        if q in ("yaga::Bounds::depends_on", "yaga::Bounds::count_distinct_bounds"):
            return [(st, ("call", s, self.vals(I, st, args)))]
        if q.startswith("std::vector::") and s == "push_back" and obj is not None and obj[0] == ("M", THIS) and not self.watched_container(I, obj):
            return ("cont", self.ev(st, "note", obj, self.vals(I, st, args)[0]))
        return super().call(I, st, node, q, obj, args)


def steady(t):
    """Says nothing about elements or loop variables."""
    if isinstance(t, tuple):
        if t[:1] and t[0] in ("phi", "at", "it", "elem", "fresh", "mut"):
            return False
        return all(steady(x) for x in t)
    return True


def qterms(v, sgn=1, out=None):
    """v as a sum of signed products of atoms."""
    out = [] if out is None else out
    if v[0] == "q" and v[1] == "neg":
        qterms(v[2], -sgn, out)
    elif v[0] == "q" and v[1] in "+-":
        qterms(v[2], sgn, out)
        qterms(v[3], sgn if v[1] == "+" else -sgn, out)
    elif v[0] == "q" and v[1] == "*":
        for s1, a in qterms(v[2]):
            for s2, b in qterms(v[3]):
                out.append((sgn * s1 * s2, tuple(sorted(a + b, key=repr))))
    elif is_c(v) and v != C(0):
        out.append((sgn, (v,)))
    elif v != C(0):
        out.append((sgn, (star(v),)))
    return out


def qdiff(new, old):
    """new - old as signed products, cancelled."""
    acc = {}
    for s, t in qterms(new) + [(-s, t) for s, t in qterms(old)]:
        acc[t] = acc.get(t, 0) + s
    return [(k, t) for t, k in acc.items() if k]


def part(v, what):
    """(constraint, index) when v is an element of the coefficients / variables of a constraint."""
    if v[:1] == ("at",) and len(v) == 3 and star(v[1])[:2] == ("call", what):
        return star(v[1])[2][0], v[2]
    return None


def bound_of(v):
    """v = value of a bound: (kind, variable, the bound)"""
    if v[:2] == ("call", "bvalue"):
        b = v[2][0]
        if b[:1] == ("call",) and b[1] in ("lower_bound", "upper_bound"):
            lv = b[2][0][1]
            if lv[1] and isinstance(lv[1][-1], tuple) and lv[1][-1][0] == "at":
                return b[1][:5], lv[1][-1][1], b
    return None


def old_of(st):
    for e in st.auto[-1]:
        if e[0] == "old":
            return dict(e[1])
    return {}


class Sum:
    """An accumulator of one loop: what each iteration path adds to it."""

    def __init__(self, h, key, site):
        self.key, self.site, self.paths = key, site, []
        for info, st, how, lvl in h.ends:
            if info["site"] != site or how not in ("next",):
                continue
            old = old_of(st)
            d = None
            if key in st.store and key in old:
                d = qdiff(st.store[key], old[key])
            elif key not in st.store and key not in old:
                d = []
            self.paths.append((st, old, d))


def estimate(I, R, rule, L, cons, acc, deps=None, want_dep=True):
    """Judge every iteration; returns (types per negation, skip iterations) or None when not recognised."""
    types, skips, bad = [], [], []
    for st, old, d in acc.paths:
        if d is None:
            return None
        if not d:
            # nothing added: an unassigned variable that is left over
            skips.append((st, old))
            continue
        if len(d) != 1 or len(d[0][1]) != 2:
            bad.append((st, "more than one product is added per variable"))
            continue
        k, (a, b) = d[0]
        cf = part(a, "coef") or part(b, "coef")
        y = b if part(a, "coef") else a
        if cf is None:
            return None
        if cf[0] != cons:
            bad.append((st, "the coefficient is not one of the constraint"))
            continue
        coef = a if part(a, "coef") else b
        if k != -1:
            bad.append((st, "the known part of the constraint is not subtracted from its right-hand side"))
            continue
        if y[:2] == ("call", "val"):
            x = y[2][0]
            v = part(x, "vars")
            if v and v[1] != cf[1]:
                bad.append((st, "coefficient and variable do not belong together"))
            elif st.facts.get(("call", "adef", (x,))) is not True:
                bad.append((st, "the value of a variable that may be unassigned is used"))
            continue
        bd = bound_of(y)
        if bd is None:
            return None
        kind, x, b = bd
        v = part(x, "vars")
        if v and v[1] != cf[1]:
            bad.append((st, "coefficient and bound do not belong to the same variable"))
            continue
        if st.facts.get(("call", "hasb", (b,))) is not True:
            bad.append((st, "a bound that may be missing is used"))
        if st.facts.get(("call", "adef", (x,))) is not False:
            bad.append((st, "a bound is used for a variable that is assigned"))
        s = q_sign(st, I, coef)
        neg_ = st.facts.get(("call", "negation", (clit(cons),)))
        if s is None:
            continue
        if s == 0:
            types.append((neg_, "?"))
        else:
            types.append((neg_, "low" if (kind == "lower") == (s > 0) else "high"))
        if want_dep:
            pushes = [e for e in st.auto[-1] if e[0] in ("push_back", "emplace_back")]
            if not any(any(b in (star(z), z) or mentions(z, b) for z in e[2]) and (deps is None or e[1] == deps) for e in pushes):
                bad.append((st, "a bound is used but not recorded as a dependency of the result"))
            me = ("call", "ord", (("call", "var", (clit(cons),)),))
            dep = [v for f, v in st.facts.items() if f[:2] == ("call", "depends_on") and mentions(f[2][0], b) and len(f[2]) == 2 and pl(f[2][1]) == me]
            if False not in dep:
                bad.append((st, "a bound that may depend on the same constraint is used"))
    R.check(not bad, rule + ".term", "what each variable contributes", L, bad[0][1] if bad else "")
    return types, skips


def compatible(types, n):
    return {t for m, t in types if m is None or n is None or m == n}


def deduce(P, R):
    for fn in sorted(P.find("yaga::Bounds::deduce"), key=lambda f: f["id"]):
        L = F.loc(fn)
        h = H()
        I = Interp(P, h)
        CONS = ("p", fn["ps"][1]["n"])
        outs = I.run(fn, h.start())
        R.saw(I)
        lit = clit(CONS)
        found = set()
        evs = []
        for st, k, v in outs:
            if k == "ret":
                evs += [(st, e) for e in st.auto[0] if e[0] in ADD]
        for info, st, how, lvl in h.ends:
            evs += [(st, e) for e in st.auto[-1] if e[0] in ADD]
        for st, e in evs:
            iv = e[2]
            if iv[:2] != ("call", "iv"):
                continue
            x, val, cons, deps = iv[2]
            eq = rel_is(st, ("call", "pred", (CONS,)), "eq")
            n = st.facts.get(("call", "negation", (lit,)))
            R.check(unneg(cons) == (CONS, False), "C16.reason", "a deduced bound names the constraint it was deduced from", L, "a deduced bound names another constraint as its reason")
            if ADD[e[0]] == "neq" or eq and n is not False:
                R.check(False, "C16.direction", "a disequality gives no bound", L, "a bound is deduced from a disequality")
                continue
            if val[:2] != ("q", "/") or val[2][0] != "phi":
                continue
            K, U = val[2], val[3]
            acc = Sum(h, K[2], K[1])
            r = estimate(I, R, "C16", L, CONS, acc, deps[1] if deps[0] == "lv" else None)
            if r is None:
                continue
            types, skips = r
            # the start value
            ini = {st0.store.get(K[2]) for info in infos(h, K[1]) for st0 in info["entry"]}
            R.check(ini <= {("call", "rhs", (CONS,)), None}, "C16.start", "the sum starts with the right-hand side", L, "the bound is not computed from the right-hand side of the constraint")
            # variable and coefficient that are left
            if x[0] == "phi" and U[0] == "phi":
                for s1, old in skips:
                    xv, cv = s1.store.get(x[2]), s1.store.get(U[2])
                    if xv is None or cv is None:
                        continue
                    pv, pc = part(xv, "vars"), part(cv, "coef")
                    R.check(pv is not None and pc is not None and pv[1] == pc[1], "C16.left", "the variable left is remembered with its coefficient", L, "a variable is left over but not remembered together with its coefficient")
            lv_ok = e[1][1] and isinstance(e[1][1][-1], tuple) and e[1][1][-1] == ("at", x)
            R.check(lv_ok, "C16.target", "the bound is stored for the variable it is about", L, "the bound is stored for another variable")
            # exactly one variable is left
            counters = [k for k in (skips[0][0].store if skips else ()) if k[0][0] == "L" and all(step1(s1, o, k) for s1, o in skips) and all(same(s1, o, k) for s1, o, d in acc.paths if d)]
            if counters:
                one = False
                for k in counters:
                    ph = ("phi", acc.site, k)
                    rels = [(c, m) for a, b, c, m in relations(st, lambda z: z == ph) if b is None]
                    one = one or not any(possible(rels, i) for i in (0, 2, 3, 1000000))
                R.check(one, "C16.one", "a bound is deduced only when exactly one variable is left", L, "a bound is deduced although the number of variables left over is not known to be one")
            elif skips:
                for k in skips[0][0].store:
                    new = [s1.store.get(k) for s1, o in skips]
                    if k[0][0] == "L" and is_c(new[0]) and isinstance(cval(new[0]), int) and all(z == new[0] for z in new) and all(same(s1, o, k) for s1, o, d in acc.paths if d):
                        open_ = [1 for s1, o in skips if o.get(k) is None or o[k] == new[0] or not is_c(o[k]) and I.mask(s1, o[k], new[0]) & EQ and s1.facts.get(o[k]) is not (not cval(new[0]))]
                        if open_ and any(a == ("phi", acc.site, k) for a, b, c, m in relations(st, lambda z: True)):
                            R.check(False, "C16.one", "a bound is deduced only when exactly one variable is left", L, "a second variable left over is not noticed")
            # direction
            s = q_sign(st, I, U)
            if s is None:
                continue
            for nn in (False, True) if n is None and not eq else (n,):
                for t in compatible(types, nn) or {None}:
                    up = t == "low" or t is None and not eq and nn is False
                    if t is None and eq:
                        continue
                    ok = s != 0 and t != "?" and (ADD[e[0]] == "upper") == (up == (s > 0)) and (eq or (t is None) or (t == "low") == (nn is False))
                    R.check(ok, "C16.direction", "bounds used and produced point the right way", L, f"a deduced {ADD[e[0]]} bound does not follow from the constraint and the bounds used")
            if not types:
                continue
            found.add((eq, ADD[e[0]]))
            R.ok("C16.direction", f"{'equality' if eq else 'inequality'}: {ADD[e[0]]} bound")
        judge_notes(R, outs, h, L)
        R.need(1, "C16.direction")


def rel_is(st, t, name):
    """Is the relation t == constant `name` known on the path?"""
    for (a, b), m in st.rel.items():
        for u, w, mm in ((a, b, m), (b, a, absint.FLIP[m])):
            if u == t and show(w) == name:
                return True if mm == EQ else False if not mm & EQ else None
    return None


def infos(h, site):
    out = []
    for info, st, how, lvl in h.ends:
        if info["site"] == site and not any(info is x for x in out):
            out.append(info)
    return out


def step1(st, old, k):
    a, b = st.store.get(k), old.get(k)
    if a is None or b is None:
        return False
    (x, c), (y, d) = linear(a), linear(b)
    return x == y and c == d + 1 or isint(a) and isint(b) and cval(a) == cval(b) + 1


def same(st, old, k):
    return st.store.get(k) == old.get(k)


def judge_notes(R, outs, h, L):
    """A changed bound is announced to the conflict check."""
    seen = False
    for st, evs in [(st, st.auto[0]) for st, k, v in outs if k == "ret"] + [(st, st.auto[-1]) for i, st, how, l in h.ends]:
        adds = [e for e in evs if e[0] in ADD]
        if not adds:
            continue
        seen = True
        notes = [e for e in evs if e[0] == "note"]
        for a in adds:
            if not (ADD[a[0]] == "neq" or st.facts.get(a[3])) or a[2][:2] != ("call", "iv"):
                continue
            target = a[2][2][0]
            R.check(any(e[2] == target for e in notes), "C16.note", "a variable whose bounds change is listed for the conflict check", L, "a bound changes but its variable is not listed as changed")
    return seen


def update(P, R):
    for fn in sorted(P.find("yaga::Bounds::update"), key=lambda f: f["id"]):
        L = F.loc(fn)
        h = H()
        I = Interp(P, h)
        CONS = ("p", fn["ps"][1]["n"])
        outs = I.run(fn, h.start())
        R.saw(I)
        n = 0
        for st, k, v in outs:
            if k != "ret" or st.facts.get(("call", "def", (("call", "var", (clit(CONS),)),))) is not True:
                continue
            adds = [e for e in st.auto[0] if e[0] in ADD and e[2][:2] == ("call", "iv")]
            n += 1
            eq = rel_is(st, ("call", "pred", (CONS,)), "eq")
            true = truth(st, clit(CONS))
            for e in adds:
                x, val, cons, deps = e[2][2]
                cx = part(x, "vars")
                R.check(unneg(cons)[0] == CONS and truth(st, clit(cons)) is True, "C16.reason", "a bound names the true one of a constraint and its negation", L,
                        "the reason of a bound is not the literal that is true")
                R.check(cx is not None and cx[0] == CONS and cx[1] == C(0) and e[1][1][-1:] == (("at", x),), "C16.target", "a unit constraint bounds its unassigned variable", L, "the bound is stored for a variable other than the unassigned one")
                if val[0] in ("q", "call"):
                    pc = part(val[3], "coef") if val[:2] == ("q", "/") else None
                    R.check(val[:2] == ("q", "/") and val[2] == ("call", "implied", (CONS,)) and pc == (CONS, C(0)), "C16.value", "the bound is the implied value divided by the coefficient", L,
                            "the value of a unit constraint's bound is not its implied value divided by the coefficient of the variable")
            if true not in (True, False):
                continue
            # literal of cons, with its own polarity, is true/false: effective negation of the constraint on the trail
            ng = st.facts.get(("call", "negation", (clit(CONS),)))
            kinds = sorted(ADD[e[0]] for e in adds)
            for g in (False, True) if ng is None else (ng,):
                effneg = g if true else not g
                if eq:
                    want = ["neq"] if effneg else ["lower", "upper"]
                elif eq is False:
                    s = q_sign(st, I, adds[0][2][2][1][3]) if adds and adds[0][2][2][1][:2] == ("q", "/") else 0
                    if s is None:
                        continue
                    if s == 0:
                        R.check(False, "C16.unit", "the sign of the coefficient decides the direction", L, "the direction of a bound does not depend on the sign of the coefficient")
                        continue
                    want = ["lower" if (s > 0) == effneg else "upper"]
                else:
                    R.check(False, "C16.unit", "the relation decides the kind of the bound", L, "the kind of a bound does not depend on the relation of the constraint")
                    continue
                R.check(kinds == want, "C16.unit", "a unit constraint gives exactly the bounds it implies", L, f"a unit constraint gives {kinds or 'no bound'} where it implies {want}")
        judge_notes(R, outs, h, L)
        if n:
            R.need(1, "C16.unit")


def implied(P, R):
    for fn in sorted(P.find("yaga::Bounds::is_implied"), key=lambda f: f["id"]):
        L = F.loc(fn)
        h = H()
        I = Interp(P, h)
        CONS = ("p", fn["ps"][1]["n"])
        outs = I.run(fn, h.start())
        R.saw(I)
        for st, k, v in outs:
            if k != "ret":
                continue
            t = truth(st, clit(CONS))
            if t in (True, False) and is_c(v):
                R.check(v[1] is t, "C16.implied", "an assigned constraint is implied only when true", L, "a false constraint is reported as implied, or a true one is not")
                continue
            if is_c(v):
                R.check(not v[1], "C16.implied", "without bounds nothing is implied", L, "an unassigned constraint is reported as implied without evaluating it")
                continue
            nv = False
            w = v
            while w[:1] == ("not",) or w[:2] == ("op", "!") or w[:2] == ("call", "!"):
                nv, w = not nv, w[-1]
            if w[:2] != ("call", "holds"):
                continue
            p, a, b = w[2]
            n = st.facts.get(("call", "negation", (clit(CONS),)))
            R.check(n is not None and n == nv, "C16.implied", "the comparison is negated exactly for negated literals", L, "the comparison of an implied constraint ignores the negation of its literal")
            if b[0] != "phi":
                continue
            acc = Sum(h, b[2], b[1])
            r = estimate(I, R, "C16", L, CONS, acc, None, False)
            if r is None:
                continue
            types, skips = r
            R.check(not skips and a == C(0), "C16.implied", "every variable is accounted for", L, "a variable without bound or value is ignored")
            want = {"low"} if n else {"high"}
            R.check(compatible(types, n) <= want, "C16.implied", "the worst case of the constraint is evaluated", L, "a constraint is reported as implied although another value within the bounds violates it")
            R.need(1, "C16.implied")


class One(H):
    """One member function of a bound or of the bounds of a variable, on its own."""
    forget = False

    def __init__(self, keep=()):
        super().__init__()
        self.inline_these = set(keep)


def plain(st):
    """The state with parameters read through references."""
    st = st.copy()
    st.facts = {pl(k): v for k, v in st.facts.items()}
    st.rel = {(pl(a), pl(b)): m for (a, b), m in st.rel.items()}
    return st


def run(P, R, name, nargs=None, keep=()):
    for fn in sorted(P.find(name), key=lambda f: f["id"]):
        if nargs is not None and len(fn["ps"]) != nargs:
            continue
        h = One({name} | set(keep))
        I = Interp(P, h)
        outs = I.run(fn, h.start())
        R.saw(I)
        h.ends = [(i, plain(st), how, l) for i, st, how, l in h.ends]
        res = []
        for st, k, v in outs:
            if k != "ret":
                continue
            if v[0] in ("op", "not", "cmp"):
                res += [(plain(s2), k, C(b)) for s2, b in I.split(st, v)]
            else:
                res.append((plain(st), k, v))
        return fn, h, I, res
    return None, None, None, []


def variable_bounds(P, R):
    where = {}
    for side in ("lower", "upper"):
        name = f"{BOUNDS}::{side}_bound"
        fn, h, I, outs = run(P, R, name)
        for st, k, v in outs:
            if v[0] == "ref" and v[1][0] == ("M", THIS) and v[1][1]:
                where.setdefault(side, set()).add(v[1][1][0])
                old = [f for f, t in st.facts.items() if f[:2] == ("call", "bis_obsolete") and t is False]
                R.check(bool(old), "C16.current", "a bound handed out is not obsolete", F.loc(fn), "a bound is handed out without checking that it still holds")
        for info, st, how, lvl in h.ends if fn else ():
            if any(e[0] == "pop_back" for e in st.auto[-1]):
                R.check(any(f[:2] == ("call", "bis_obsolete") and t for f, t in st.facts.items()), "C16.current", "only obsolete bounds are dropped", F.loc(fn), "a bound that still holds is dropped")
        name = f"{BOUNDS}::add_{side}_bound"
        fn, h, I, outs = run(P, R, name)
        want = absint.GT if side == "lower" else LT
        for st, k, v in outs:
            pushes = [e for e in st.auto[0] if e[0] in ("note", "push_back", "emplace_back")]
            if not pushes and not is_c(v):
                continue
            if pushes:
                where.setdefault("add " + side, set()).add(pushes[0][1][1][0])
            NEW = ("p", fn["ps"][1]["n"])
            OLD = ("call", side + "_bound", (("lv", (("M", THIS), ())),))
            has = st.facts.get(("call", "hasb", (OLD,)))
            if has is None:
                R.check(bool(pushes) is False, "C16.better", "a new bound is compared with the current one", F.loc(fn), "a bound is added without looking at the current one")
                continue
            R.check(is_c(v) and bool(v[1]) == bool(pushes), "C16.better", "the result tells whether the bound was added", F.loc(fn), f"add_{side}_bound reports the opposite of what it did")
            if not has:
                R.check(bool(pushes), "C16.better", "the first bound is added", F.loc(fn), "a bound is not added although there is none")
                continue
            m = I.mask(st, ("call", "bvalue", (NEW,)), ("call", "bvalue", (OLD,)))
            sn, so = (st.facts.get(("call", "bis_strict", (b,))) for b in (NEW, OLD))
            if pushes:
                R.check(m == want or m & ~want == EQ and sn is True and so is False, "C16.better", "only a better bound replaces the current one", F.loc(fn), f"a {side} bound is replaced by one that is not tighter")
            else:
                R.check(not m & want and (not m & EQ or sn is False or so is True), "C16.better", "a better bound is not ignored", F.loc(fn), f"a tighter {side} bound is ignored")
        name = f"{BOUNDS}::check_{side}_bound"
        fn, h, I, outs = run(P, R, name)
        for st, k, v in outs:
            if not is_c(v):
                continue
            OLD = ("call", side + "_bound", (("lv", (("M", THIS), ())),))
            has = st.facts.get(("call", "hasb", (OLD,)))
            if has is False:
                R.check(v[1] is True, "C16.within", "without bound every value is allowed", F.loc(fn), "a value is refused without any bound")
            elif has:
                m = I.mask(st, ("p", fn["ps"][1]["n"]), ("call", "bvalue", (OLD,)))
                so = st.facts.get(("call", "bis_strict", (OLD,)))
                if v[1]:
                    R.check(m == want or m & ~want == EQ and so is False, "C16.within", f"a value allowed satisfies the {side} bound", F.loc(fn), f"a value that violates the {side} bound is allowed")
                else:
                    R.check(not m & want and (not m & EQ or so is True), "C16.within", f"a value refused violates the {side} bound", F.loc(fn), f"a value that satisfies the {side} bound is refused")
    for side in ("lower", "upper"):
        a, b = where.get(side, set()), where.get("add " + side, set())
        if a and b:
            R.check(a == b, "C16.current", f"the {side} bound returned is one of those added", F.loc(P.find(f"{BOUNDS}::{side}_bound")[0]), f"{side}_bound returns bounds that were not added as such")
    # disequalities
    fn, h, I, outs = run(P, R, f"{BOUNDS}::is_allowed")
    parts = ("inequality", "check_lower_bound", "check_upper_bound")
    seen = set()
    if fn:
        class All(One):
            def call(self, I, st, node, q, obj, args):
                s = q.split("::")[-1]
                if q.startswith(BOUNDS + "::") and s in parts:
                    vs = self.vals(I, st, args)
                    seen.add(s)
                    R.check(vs[-1] == ("p", fn["ps"][1]["n"]), "C16.within", "the value asked about is checked", F.loc(fn), "another value is checked")
                    out = []
                    for s2, b in I.split(st, ("call", s, ())):
                        out.append((s2, C(b) if s != "inequality" else ("ref", (("M", ("call", "neq", ())), ())) if b else C(None)))
                    return out
                return super().call(I, st, node, q, obj, args)
        h = All()
        I = Interp(P, h)
        for st, k, v in I.run(fn, h.start()):
            if k != "ret" or not is_c(v) or not seen:
                continue
            f = [st.facts.get(("call", s, ())) for s in parts]
            if v[1]:
                R.check(f == [False, True, True], "C16.within", "an allowed value satisfies both bounds and no disequality excludes it", F.loc(fn), "a value is allowed without checking both bounds and the excluded values")
            else:
                R.check(f[0] is True or False in f[1:], "C16.within", "a refused value violates a bound or is excluded", F.loc(fn), "a value is refused that satisfies all bounds")
    for fn in sorted(P.find(f"{BOUNDS}::add_inequality"), key=lambda f: f["id"])[:1]:
        class Neq(One):
            def call(self, I, st, node, q, obj, args):
                if q == f"{BOUNDS}::inequality":
                    n = ("call", "neq", self.vals(I, st, args)[-1:])
                    return [(s2, ("ref", (("M", n), ())) if b else C(None)) for s2, b in I.split(st, ("call", "hasb", (n,)))]
                return super().call(I, st, node, q, obj, args)
        h = Neq()
        I = Interp(P, h)
        NEW = ("p", fn["ps"][1]["n"])
        n = ("call", "neq", (("call", "bvalue", (NEW,)),))
        for st, k, v in [(plain(a), b, c) for a, b, c in I.run(fn, h.start())]:
            has = st.facts.get(("call", "hasb", (n,)))
            if k != "ret" or has is None:
                continue
            pushes = [e for e in st.auto[0] if e[0] in ("note", "push_back", "emplace_back")]
            lits = [clit(("call", "breason", (b,))) for b in (NEW, n)]
            m = I.mask(st, *lits)
            R.check(bool(pushes) or has and m == EQ, "C16.within", "a disequality is recorded unless it already is", F.loc(fn), "a disequality is dropped although it is not recorded yet")
    name = f"{BOUNDS}::inequality"
    fn, h, I, outs = run(P, R, name)
    for st, k, v in outs:
        if v[0] != "ref":
            continue
        V = ("p", fn["ps"][1]["n"])
        val = [b for (a, b), m in list(st.rel.items()) + [((y, x), absint.FLIP[m]) for (x, y), m in st.rel.items()] if a == V and m == EQ and b[:2] == ("call", "bvalue")]
        R.check(bool(val), "C16.within", "an excluded value is the one asked about", F.loc(fn), "a disequality with another value is reported")


def implied_value(P, R):
    name = "yaga::Implied_value::is_obsolete"
    fn, h, I, outs = run(P, R, name)
    if fn:
        L = F.loc(fn)
        CONS = ("call", "breason", (THIS,))
        lit = clit(CONS)
        bts = ("call", "bts", (("call", "ord", (("call", "var", (lit,)),)),))
        timed = set()
        for st, k, v in outs:
            if not is_c(v):
                continue
            t = truth(st, lit)
            rels = [(a, b, m) for (a, b), m in st.rel.items()] + [(b, a, absint.FLIP[m]) for (a, b), m in st.rel.items()]
            late = [m for a, b, m in rels if a == bts and isfield(b)]
            timed |= {b for a, b, m in rels if a == bts and isfield(b)}
            if not v[1]:
                R.check(t is True, "C16.obsolete", "a bound whose constraint is not true is obsolete", L, "a bound is kept although its constraint is no longer true")
                R.check(any(not m & absint.GT for m in late), "C16.obsolete", "a bound whose constraint was assigned again is obsolete", L, "a bound is kept although its constraint was assigned again since")
            else:
                vt = [(a, b, m) for a, b, m in rels if a[:2] == ("call", "ts") and isfield(b)]
                undef = any(f[:2] == ("call", "adef") and x is False for f, x in st.facts.items())
                dep = any(f[:2] == ("call", "bis_obsolete") and x for f, x in st.facts.items())
                ok = t in (None, False) or absint.GT in late or undef or dep or any(m == absint.GT for a, b, m in vt)
                R.check(ok, "C16.obsolete", "a bound dropped as obsolete is one", L, "a bound that still holds is reported as obsolete")
        judged = False
        for info, st, how, lvl in h.ends:
            if how != "next":
                continue
            rng = info.get("range")
            if rng and rng[0] == ("M", ("call", "vars", (CONS,))):
                judged = True
                x = [a for (a, b), m in st.rel.items() for a in (a, b) if part(a, "vars")] + [f[2][0] for f in st.facts if f[:2] in (("call", "adef"), ("call", "ts")) and part(f[2][0], "vars")]
                x = x[0] if x else None
                own = any(m == EQ and x in (a, b) and isbvar((a, b), THIS) for (a, b), m in st.rel.items())
                dep = any(m == EQ and x in (a, b) and not isbvar((a, b), THIS) for (a, b), m in st.rel.items())
                ts = [m for (a, b), m in st.rel.items() if a == ("call", "ts", (x,)) and isfield(b)] + [absint.FLIP[m] for (a, b), m in st.rel.items() if b == ("call", "ts", (x,)) and isfield(a)]
                good = own or dep or st.facts.get(("call", "adef", (x,))) is True and any(not m & absint.GT for m in ts)
                R.check(good, "C16.obsolete", "variables used for a bound still have the same value", L, "a bound is kept although a variable it was computed from is unassigned or was assigned again")
            elif rng and any(f[:2] == ("call", "bis_obsolete") for f in st.facts):
                judged = True
                R.check(all(x is False for f, x in st.facts.items() if f[:2] == ("call", "bis_obsolete")), "C16.obsolete", "the bounds used for a bound still hold", L, "a bound is kept although a bound it was deduced from is obsolete")
        kinds = set()
        for info, st, how, lvl in h.ends:
            kinds |= {f[1] for f in st.facts if f[:2] == ("call", "bis_obsolete")}
        for st, k, v in outs:
            kinds |= {f[1] for f in st.facts if f[:2] == ("call", "bis_obsolete")}
        R.check(bool(kinds), "C16.obsolete", "the bounds used for a bound are looked at", L, "the bounds a bound was deduced from are not looked at")
        # time stamps
        fn2, h2, I2, outs2 = run(P, R, "yaga::Implied_value::compute_timestamps")
        for st, k, v in outs2:
            for b in timed:
                key = (("M", THIS), (b[2],))
                val = st.store.get(key)
                R.check(val is not None and val[:2] == ("call", "bts"), "C16.stamp", "the time stamp of the constraint is recorded", F.loc(fn2), "the time stamp recorded for the constraint is not that of its literal")
        for info, st, how, lvl in h2.ends if fn2 else ():
            if how != "next" or not (info.get("range") and info["range"][0][1][:2] == ("call", "vars")):
                continue
            old = old_of(st)
            xs = [f[2][0] for f in st.facts if f[:2] == ("call", "adef")]
            for key, new in st.store.items():
                if key[0] != ("M", THIS) or len(key[1]) != 1 or ("fld", THIS, key[1][0]) in timed or key not in old:
                    continue
                was = old[key]
                x = xs[0] if xs else None
                if x is None or st.facts.get(("call", "adef", (x,))) is not True:
                    R.check(new == was, "C16.stamp", "unassigned variables leave no time stamp", F.loc(fn2), "the time stamp of an unassigned variable is recorded")
                else:
                    ts = ("call", "ts", (x,))
                    m = I2.mask(st, ts, was)
                    R.check(new == ts and not m & LT or new == was and not m & absint.GT, "C16.stamp", "the latest time stamp of the variables is recorded", F.loc(fn2), "the time stamp recorded is not the latest one of the variables used")
    fn, h, I, outs = run(P, R, "yaga::Implied_value::is_strict")
    for st, k, v in outs:
        if not is_c(v):
            continue
        own = [x for f, x in st.facts.items() if f[:2] == ("call", "is_strict") and f[2][0] == ("call", "breason", (THIS,))]
        any_ = [x for f, x in st.facts.items() if f[1] in ("is_strict", "bis_strict")]
        if v[1]:
            R.check(True in any_, "C16.strict", "a strict bound has a strict reason", F.loc(fn), "a bound is reported as strict without a strict reason")
        else:
            R.check(own == [False], "C16.strict", "a bound with a strict reason is strict", F.loc(fn), "a bound with a strict reason is reported as not strict")
    if fn:
        deps = any(f[1] in ("is_strict", "bis_strict") and f[2][0] != ("call", "breason", (THIS,)) for st, k, v in outs for f in st.facts)
        R.check(deps, "C16.strict", "strictness of the bounds used counts", F.loc(fn), "the strictness of the bounds a bound was deduced from is ignored")
    fn, h, I, outs = run(P, R, "yaga::Bounds::depends_on")
    for st, k, v in outs:
        B = fn["ps"][1]["n"]
        if is_c(v) and v[1]:
            hit = any(m == EQ and ("p", B) in (a, b) for (a, b), m in st.rel.items()) or any(f[:2] == ("call", "depends_on") and x for f, x in st.facts.items())
            R.check(hit, "C16.depends", "a dependency reported is one", F.loc(fn), "a bound is reported to depend on a constraint it does not use")
    if fn:
        R.check(any(f[:2] == ("call", "depends_on") for st, k, v in outs for f in st.facts), "C16.depends", "dependencies are followed to the end", F.loc(fn), "dependencies of dependencies are not looked at")
    # what a bound is made of
    for fn in P.find("ctor:yaga::Implied_value") or []:
        pass


def isfield(v):
    return v[0] == "fld" and v[1] == THIS


def isbvar(ab, me):
    """Is one side the variable of the bound itself?"""
    return any(x == ("call", "bvar", (me,)) or isfield(x) for x in ab)


def check(P, R):
    R.rule("C16.current", "bounds handed out still hold, bounds dropped do not")
    R.rule("C16.better", "a bound is added exactly when it is tighter than the current one")
    R.rule("C16.within", "a value is allowed exactly when it satisfies the bounds and the disequalities")
    R.rule("C16.obsolete", "a bound holds as long as its constraint, the values and the bounds it was computed from are unchanged")
    R.rule("C16.stamp", "the time stamps of the constraint and of the values used are recorded")
    R.rule("C16.strict", "a bound is strict when a constraint it follows from is")
    R.rule("C16.depends", "a bound depends on the constraints of all bounds it was deduced from")
    R.rule("C16.unit", "a unit constraint on the trail gives exactly the bounds it implies for its unassigned variable")
    R.rule("C16.value", "the value of such a bound is the implied value divided by the coefficient")
    R.rule("C16.reason", "every bound names the constraint, as it is on the trail, that it follows from")
    R.rule("C16.target", "a bound is stored for the variable it is about")
    R.rule("C16.start", "a deduced bound starts from the right-hand side")
    R.rule("C16.term", "each other variable contributes its coefficient times its value, or its bound, which is recorded")
    R.rule("C16.left", "the variable left over is remembered with its coefficient")
    R.rule("C16.one", "a bound is deduced only when exactly one variable is left")
    R.rule("C16.direction", "the bounds used and produced point the right way")
    R.rule("C16.note", "a variable whose bounds change is listed for the conflict check")
    R.rule("C16.implied", "a constraint is reported as implied only when it holds for all values within the bounds")
    update(P, R)
    deduce(P, R)
    implied(P, R)
    variable_bounds(P, R)
    implied_value(P, R)
