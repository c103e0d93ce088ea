"""C21: the theory of uninterpreted functions keeps functions functional."""
import facts as F
from evlib import *
from linlib import rational_call, q_op, q_neg
from r_c15 import subterms

UF = "yaga::Uninterpreted_functions"
AW = UF + "::Assignment_watchlist"
TMQ = "yaga::terms::Term_manager::"


class H(Core):
    merge_limit = 300
    nest = False
    forget = False
    skip_asserts = True
    flat_unrolled = True

    def __init__(self, top, nest=False):
        super().__init__(None)
        self.top = top
        self.nest = nest

    def iter_begin(self, I, st, info):
        st = super().iter_begin(I, st, info)
        return self.ev(st, "old", tuple(sorted(st.store.items(), key=repr)))

    def plain(self, I, st, a):
        return pl(I.val(st, a))

    def watched_container(self, I, obj):
        return "any"

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q == self.top:
            pass
        r = rational_call(I, st, node, q, obj, args)
        if r is not None:
            return r
        if q == "yaga::Literal::operator=" and obj is not None and len(args) == 1:
            return [(I.write(st, obj, self.plain(I, st, args[0]), node), ("ref", obj))]
        if q.startswith("std::variant::operator=") and obj is not None and len(args) == 1:
            return [(I.write(st, obj, self.plain(I, st, args[0]), node), ("ref", obj))]
        if q == "ctor:std::variant" and len(args) == 1:
            return [(st, self.plain(I, st, args[0]))]
        if q.startswith("std::get") and len(args) == 1:
            return [(st, self.plain(I, st, args[0]))]
        if q.startswith("yaga::utils::Linear_polynomial::") and obj is not None:
            if s == "sub" and len(args) == 1:
                return [(I.write(st, obj, ("call", "psub", (self.plain(I, st, ("ref", obj)), self.plain(I, st, args[0]))), node), VOIDV)]
            if s == "sort":
                return [(st, VOIDV)]
        vs = self.vals(I, st, args)
        if q == "yaga::Yaga::linear_constraint" and len(vs) == 4:
            return [(st, ("call", "lincons", vs))]
        if q == "yaga::eval" and len(args) == 2:
            r = super().call(I, st, node, q, obj, args)
            return [x for x in r if x[1] != ("none",)]
        if q.startswith(TMQ):
            if s == "get_args":
                return [(st, ("ref", (("M", ("call", "args", vs[:1])), ())))]
            if s == "is_negated":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "negated", vs[:1]))]
            return [(st, ("call", s, vs))]
        if q == "yaga::Trail::decision_level" and vs:
            return [(s2, ("some", ("call", "level", vs)) if b else ("none",)) for s2, b in I.split(st, ("call", "assigned", vs))]
        if q == "yaga::Trail::assigned":
            return [(st, ("ref", (("M", ("call", "assigned_at", vs)), ())))]
        if q.startswith(AW + "::") and q.count("::") == 3 and obj is not None and q != self.top and s in ("get_watched_var", "get_term", "on_assign", "all_assigned"):
            me = ("lv", obj)
            if s == "all_assigned":
                return [(self.ev(s2, s, me), C(b)) for s2, b in I.split(st, ("call", "all_assigned", (me,)))]
            if s == "on_assign":
                return [(self.ev(st, s, me), VOIDV)]
            return [(st, ("call", s, (me,)))]
        if q.startswith(UF + "::") and q.count("::") == 2 and (q != self.top or s in ("vars_to_watch", "evaluate")):
            if s == "add_function_value":
                return [(self.ev(st, s, *vs), ("call", "conflicts", vs[:1]))]
            if s in ("term_to_var", "term_to_literal"):
                n = "tvar" if s == "term_to_var" else "tlit"
                return [(s2, ("some", ("call", n, vs)) if b else ("none",)) for s2, b in I.split(st, ("call", "has_" + n, vs))]
            if s == "evaluate":
                return [(st, ("call", "evaluated", vs[:1]))]
            if s == "vars_to_watch":
                return [(st, ("call", "watched", vs[:1]))]
            if s == "term_to_poly":
                return [(st, ("call", "poly", vs[:1]))]
            if s == "assert_equality" and len(args) == 5:
                st = self.ev(st, s, vs[0], vs[1], vs[4])
                o = args[3][1] if args[3][0] == "ref" else None
                if o is not None:
                    old = I.read(st, o)
                    e = ("call", "eqlits", (vs[0], vs[1], vs[4]))
                    st = I.write(st, o, ("vec", old[1] + (e,)) if old[0] == "vec" else ("push", old, e), node)
                return [(st, VOIDV)]
            if s == "assert_equality":
                return [(self.ev(st, s, *vs), VOIDV)]
        return super().call(I, st, node, q, obj, args)


def run(P, R, q, sel=lambda f: True, nest=False):
    out = []
    for fn in P.find(q):
        if not sel(fn):
            continue
        h = H(q, nest)
        I = Interp(P, h)
        outs = [o for o in I.run(fn, h.start()) if o[1] in ("ret", "end")]
        if R is not None:
            R.saw(I)
        out.append((fn, I, h, outs))
    return out


EXPLANATION = ("The theory's functions are interpreted on symbolic terms, assignments and tables of function values: which variables an application waits for, when it is evaluated, "
               "how its value and level are computed, when it is stored, when two applications are in conflict and what the clause says, what is forgotten on backtracking. "
               "Every path and every loop iteration is compared with what the facts known on it require.")
ASSUMPTIONS = ["terms are built as C10 and C12 say: products have a coefficient and a variable", "linear constraints are as C17 says", "the theory is notified of assignments as C08 says",
               "the variable assigned last is at the highest level of the variables of an application"]
GO = ("next", "continue")
WHAT = {
    "every-assignment": "every assignment of the current level is compared with every watched variable",
    "watched-evaluated": "an application is evaluated once all its variables are assigned, and not before",
    "conflict-kept": "conflicts found are returned",
    "watch-unassigned": "the watched variable of an application is unassigned whenever one of its variables is",
    "all-watched": "an application waits for its own variable and those of all its arguments",
    "own-variables": "the variables of a term are those of its parts, or its own",
    "term-value": "terms have the value of their variable, or the one computed from their parts",
    "term-level": "the level of a value is the highest level of the variables it depends on",
    "negated-literal": "the literal of a negated term is negated",
    "term-polynomial": "the polynomial of a term has its variables, coefficients and constant",
    "application-key": "applications are compared by the values of all their arguments",
    "application-stored": "the first application with given argument values is stored with its value and level",
    "conflict-found": "two applications with equal arguments and different values are a conflict, and nothing else is",
    "conflict-clause": "the conflict clause compares all arguments and the two applications",
    "falsified": "the conflict clause has a false literal for each term compared",
    "equality": "the constraint says that both terms are equal",
    "equality-value": "a new constraint gets the value it has in the model",
    "equality-level": "a new constraint is assigned at the highest level of its variables",
    "forgotten": "applications above the level backtracked to are forgotten, and no others are",
    "model": "the model has the values of all applications",
}


def bare(t):
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == "*":
        return bare(t[1])
    return tuple(bare(x) for x in t)


def V(R, rule, fn, cond, detail):
    return R.check(cond, "C21." + rule, WHAT[rule], F.loc(fn), detail)


def events(evs):
    return [e for e in evs if e[0] != "old"]


def its(h):
    for info, st, how, l in h.ends:
        evs = st.auto[-1]
        if any(y == ("none",) for f in list(st.facts) + events(evs) for y in subterms(f)):
            continue
        yield info, st, how, events(evs), dict(next((e[1] for e in evs if e[0] == "old"), ()))


def sane(outs):
    return [(st, k, v) for st, k, v in outs if not any(y == ("none",) for f in list(st.facts) + [v] for y in subterms(f))
            and not any(f[:2] == ("call", "assigned") and b is False for f, b in st.facts.items())]


def ev_val(t, what="value"):
    return ("fld", ("call", "evaluated", (t,)), what)


def is_elem(v, cont):
    """v is an element of the container, whichever"""
    v = bare(v)
    return v[:1] == ("at",) and v[1] == bare(cont)


def args_of(t):
    return ("call", "args", (t,))


def is_max(I, st, v, old, new):
    m = I.mask(st, new, old)
    return v == new and not m & LT or v == old and not m & absint.GT


def mentions(x, y):
    return bare(y) in list(subterms(bare(x)))


def param(fn, i):
    return ("p", fn["ps"][i]["n"])


def propagate(P, R):
    for fn, I, h, outs in run(P, R, UF + "::propagate"):
        lists = set()
        sites = {info["site"] for info, *_ in its(h)}
        for info, st, how, evs, old in its(h):
            own = owners(st, sites)
            if own and info["site"] not in own:
                V(R, "conflict-kept", fn, how in GO and any(e[0] in MUTATORS for e in evs), "the conflicts of an application are dropped")
                continue
            V(R, "every-assignment", fn, how in GO, "the search ends before every watched variable has been compared with every assignment")
            ws = {y for (a, b) in st.rel for z in (a, b) for y in subterms(z) if y[:2] == ("call", "get_watched_var")}
            for w in ws:
                ms = [m for (a, b), m in st.rel.items() if any(w in subterms(z) for z in (a, b))]
                lists.add(w[2][0])
                x = w[2][0]
                ev = [e[0] for e in evs if e[0] in ("on_assign", "all_assigned", "add_function_value")]
                allv = [b for f, b in st.facts.items() if f[:2] == ("call", "all_assigned")]
                if any(not m & EQ for m in ms):
                    V(R, "watched-evaluated", fn, "add_function_value" not in ev, "an application is evaluated though the variable assigned is not the one it waits for")
                    continue
                V(R, "watched-evaluated", fn, ev[:2] == ["on_assign", "all_assigned"] and all(e[1] == x for e in evs if e[0] in ("on_assign", "all_assigned")), "an application is not told that the variable it waits for is assigned")
                adds = [e for e in evs if e[0] == "add_function_value"]
                if allv == [True]:
                    good = len(adds) == 1 and adds[0][1] == ("call", "get_term", (x,))
                    V(R, "watched-evaluated", fn, good, "an application whose variables are all assigned is not evaluated")
                    if good:
                        c = ("call", "conflicts", (adds[0][1],))
                        i = evs.index(adds[0])
                        inner = any(owners(s2, sites) and i2["site"] not in owners(s2, sites) for i2, s2, *_ in its(h))
                        V(R, "conflict-kept", fn, inner or any(e[0] in MUTATORS and e[1][0][0] == "L" and len(e) > 2 and refers(st, e[2], c) for e in evs[i:]), "the conflicts of an application are dropped")
                else:
                    V(R, "watched-evaluated", fn, not adds, "an application is evaluated though one of its variables is not assigned")
        for x in lists:
            V(R, "every-assignment", fn, x[1][1][:1] == ("watchlists",), "other lists are looked at")
        lv = {y for info, st, how, evs, old in its(h) for (a, b) in st.rel for z in (a, b) for y in subterms(z) if y[:2] == ("call", "assigned_at")}
        V(R, "every-assignment", fn, bool(lists) and (not lv or lv == {("call", "assigned_at", (("call", "trail.decision_level", ()),))}), "assignments of another level are looked at")


def owners(st, sites):
    """Loops over the watched variables compared on the path"""
    return {y[1] for (a, b) in st.rel for z in (a, b) for w in subterms(z) if w[:2] == ("call", "get_watched_var") for y in subterms(w) if y[:1] in (("elem",), ("phi",)) and y[1] in sites}


def refers(st, x, c):
    """Do the arguments of a call refer to c, itself or through a local variable?"""
    if c in subterms(x):
        return True
    for y in subterms(x):
        if y[:1] == ("it",) and c in subterms(st.store.get(y[1], ())):
            return True
    return False


def watch(P, R):
    me = ("fld", THIS, "to_watch")
    for fn, I, h, outs in run(P, R, AW + "::on_assign"):
        if not list(its(h)):
            continue
        for info, st, how, evs, old in its(h):
            un = []
            for f, b in st.facts.items():
                if f[:2] == ("call", "assigned") and b is False:
                    x = bare(f[2][0])
                    p = x[2] if x[:1] == ("at",) and x[1] == me else x[2][1][1][1] if x[:1] == ("phi",) and x[2][0] == ("M", THIS) and len(x[2][1]) == 2 else None
                    if p is not None:
                        un.append((x, p))
            first = bare(st.store.get((("M", THIS), ("to_watch", ("at", C(0)))), old.get((("M", THIS), ("to_watch", ("at", C(0)))), NULL)))
            swapped = [e for e in evs if e[0] in ("swap", "iter_swap")]
            V(R, "watch-unassigned", fn, not un or first in [x for x, p in un] or bool(swapped), "an unassigned variable is found and the application does not wait for it")
            if un and how in GO + ("break", "ret") and first in [x for x, p in un]:
                p = un[0][1]
                at_p = next((bare(v) for k, v in st.store.items() if bare(k) == (("M", THIS), ("to_watch", ("at", bare(p))))), NULL)
                was = [bare(v) for k, v in old.items() if k == (("M", THIS), ("to_watch", ("at", C(0))))] + [("at", me, C(0))]
                V(R, "watch-unassigned", fn, at_p in was or p == C(0), "the variable assigned is lost: the application no longer waits for it after backtracking")
            V(R, "watch-unassigned", fn, how in GO or bool(un), "the search for an unassigned variable ends early")
            site = info["site"]
            for x, p in un:
                c = covered_tail(I, st, info, p, me)
                V(R, "watch-unassigned", fn, c is not False, "not all variables of the application are looked at")
    for fn, I, h, outs in run(P, R, AW + "::all_assigned"):
        if list(its(h)):
            continue
        for st, k, v in outs:
            a = [b for f, b in st.facts.items() if f[:2] == ("call", "assigned") and bare(f[2][0]) == ("at", me, C(0))]
            V(R, "watch-unassigned", fn, a and v in (C(a[0]), ) or v == ("call", "assigned", (("at", me, C(0)),)), "the application does not wait for its watched variable")


def covered_tail(I, st, info, p, cont):
    """Does the loop visit all elements from the second one on?"""
    cov = I.coverage(info)
    if cov is None or cov[0] == "range":
        return None
    _, lo, op, hi, step, x = cov
    if bare(p) != bare(x) and not isint(p):
        if bare(p) != bare(lo):
            return None
    lo, hi = bare(lo), bare(hi)
    sz = ("call", "size", (cont,))
    if step == 1 and isint(lo):
        return cval(lo) in (0, 1) and (op in ("<", "!=") and hi == sz or op == "<=" and hi == I.arith("+", sz, C(-1)))
    if step == -1 and isint(hi):
        last = cval(hi) + {">": 1, ">=": 0, "!=": 1}.get(op, 99)
        return lo == bare(I.arith("+", sz, C(-1))) and last <= 1
    return None


def register(P, R):
    for fn, I, h, outs in run(P, R, UF + "::register_application_term"):
        var, term = param(fn, 0), param(fn, 1)
        sites = {}
        for info, st, how, evs, old in its(h):
            V(R, "all-watched", fn, how in GO, "not all arguments are looked at")
            w = [e for e in evs if e[0] in ("push_back", "emplace_back", "insert") and (any(y[:2] == ("call", "watched") and is_elem(y[2][0], args_of(term)) for y in subterms(e[2]))
                 or any(y[:1] == ("it",) and any(z[:2] == ("call", "watched") for z in subterms(st.store.get(y[1], ()))) for y in subterms(e[2])))]
            sites.setdefault(info["site"], []).append((bool(w), bool(st.facts or st.rel)))
        pushing = [s for s, l in sites.items() if any(w for w, _ in l)]
        V(R, "all-watched", fn, bool(pushing), "the variables of the arguments are not watched")
        for s, l in sites.items():
            V(R, "all-watched", fn, all(w for w, _ in l) if s in pushing else not any(c for _, c in l), "variables of some arguments are not watched")
        for st, k, v in outs:
            new = [e for e in events(st.auto[0]) if e[0] in ("push_back", "emplace_back") and e[1] == (("M", THIS), ("watchlists",))]
            if V(R, "all-watched", fn, len(new) == 1, "the application is not watched, or it is watched twice"):
                x = bare(new[0][2])
                V(R, "all-watched", fn, mentions(x, term) and (var in list(subterms(x)) or any(e[0] in ("push_back", "emplace_back", "insert") and e[1][0][0] == "L" and var in subterms(e[2]) for e in events(st.auto[0]))), "the variable of the application is not watched")
    for fn, I, h, outs in run(P, R, UF + "::vars_to_watch"):
        t = param(fn, 0)
        for info, st, how, evs, old in its(h):
            w = [e for e in evs if e[0] in ("push_back", "emplace_back", "insert")]
            good = any(any(y[:2] == ("call", "watched") for z in [e[2]] + [st.store.get(q[1], ()) for q in subterms(e[2]) if q[:1] == ("it",)] for y in subterms(z)) for e in w)
            inner = any(y[:2] == ("call", "watched") for y in subterms(info.get("val") or ()))
            V(R, "own-variables", fn, how in GO and (good or not w and any(i2["site"] != info["site"] for i2, *_ in its(h)) and not inner), "the variables of a part of the term are left out")
        for st, k, v in sane(outs):
            ks = kinds(st, t)
            has = st.facts.get(("call", "has_tvar", (t,)))
            if has and is_only(ks, ()):
                V(R, "own-variables", fn, ("call", "tvar", (t,)) in subterms(v), "the variable of a term is left out")
            elif has is None and is_only(ks, ()):
                V(R, "own-variables", fn, False, "the variable of a term is not looked for")
            elif is_only(ks, ("ARITH_PRODUCT", "ARITH_POLY")) and ks[0]:
                V(R, "own-variables", fn, v[:1] == ("phi",) or any(y[:2] == ("call", "watched") for y in subterms(v)) or v[:1] == ("mut",), "the variables of the parts of a term are left out")


def kinds(st, t):
    """(kinds the term may be: a set of names that it is equal to, names excluded)"""
    eq, ne = set(), set()
    for (a, b), m in st.rel.items():
        for x, y in ((a, b), (b, a)):
            if x == ("call", "get_kind", (t,)) and y[:1] == ("en",):
                (eq if m == EQ else ne).add(y[1].split("::")[-1])
    return eq, ne


def is_only(ks, names):
    """Is the kind known to be one of the names (none of constants, products, sums if empty)?"""
    eq, ne = ks
    return bool(eq) and eq <= set(names) if names else not eq & {"ARITH_CONSTANT", "CONSTANT_TERM", "ARITH_PRODUCT", "ARITH_POLY"} and (bool(eq) or ne >= {"ARITH_CONSTANT", "CONSTANT_TERM", "ARITH_PRODUCT", "ARITH_POLY"})


def types(st, t):
    ms = {cval(y): m for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if x == ("call", "get_type", (t,)) and isint(y)}
    return "real" if ms.get(1) == EQ or ms.get(0) is not None and not ms[0] & EQ and ms.get(1) is None else "bool" if ms.get(0) == EQ or ms.get(1) is not None and not ms[1] & EQ and ms.get(0) is None else None


def level_loops(I, h, cont, part):
    """Local variables which are the maximum of part(element) over a loop: {location: value at the end of the loop}; and whether any loop over the container has another shape"""
    good, bad = {}, set()
    for info, st, how, evs, old in its(h):
        xs = set()
        for (a, b), m in st.rel.items():
            for z in (a, b):
                for y in subterms(z):
                    if part(y):
                        xs.add(y)
        for v in st.store.values():
            for y in subterms(v):
                if part(y):
                    xs.add(y)
        for x in xs:
            ok = False
            for k, v in st.store.items():
                o = old.get(k)
                if o is None or k[0][0] != "L" or o != C(0) and o[:1] != ("phi",):
                    continue
                if is_max(I, st, v, o, x):
                    ok = True
                    good[k] = True
                elif v == x:
                    bad.add(k)
            if not ok:
                bad.add(info["site"])
    return {k for k in good if k not in bad}, bad


def evaluation(P, R):
    for fn, I, h, outs in run(P, R, UF + "::evaluate"):
        t = param(fn, 0)
        part = lambda y: y[:1] == ("fld",) and y[2] == "decision_level" and y[1][:2] == ("call", "evaluated") and is_elem(y[1][2][0], args_of(t)) and not isint(y[1][2][0][2])
        levels, bad = level_loops(I, h, args_of(t), part)
        sums = set()
        for info, st, how, evs, old in its(h):
            V(R, "term-value", fn, how in GO, "not all parts of a term are evaluated")
            good = False
            for k, v in st.store.items():
                o = old.get(k)
                if k[0][0] != "L" or o is None:
                    continue
                x = None
                if o[:1] == ("phi",) and v[:2] == ("q", "+") and o in v[2:]:
                    x = v[2] if v[3] == o else v[3]
                elif o == C(0):
                    x = v
                if x is not None and x[:1] == ("fld",) and x[2] == "value" and x[1][:2] == ("call", "evaluated") and is_elem(x[1][2][0], args_of(t)):
                    good = True
                    sums.add(k)
            V(R, "term-value", fn, good, "the value of a part of a sum is not added")
        for st, k, v in sane(outs):
            if v[:1] != ("agg",):
                continue
            d = dict(v[2])
            val, lev = d.get("value"), d.get("decision_level")
            ks = kinds(st, t)
            has = st.facts.get(("call", "has_tvar", (t,)))
            if has:
                V(R, "term-level", fn, lev == ("call", "level", (("call", "tvar", (t,)),)), "the level of a variable is wrong")
                ty = types(st, t)
                if ty == "real":
                    V(R, "term-value", fn, val == ("call", "value", (("call", "tvar", (t,)),)), "a term does not have the value of its variable")
                elif ty == "bool":
                    V(R, "term-value", fn, truth(st, ("call", "tlit", (t,))) in (True, False) and val == C(truth(st, ("call", "tlit", (t,)))), "a term does not have the value of its literal")
            elif ks[0] == {"ARITH_CONSTANT"}:
                V(R, "term-value", fn, val == ("call", "arithmetic_constant_value", (t,)), "a constant does not have its value")
                V(R, "term-level", fn, lev == C(0), "a constant depends on a decision")
            elif ks[0] == {"CONSTANT_TERM"}:
                tr = ("glob", "yaga::terms::true_term")
                V(R, "term-value", fn, val == I.cmp("==", t, tr) or val in (TRUE, FALSE) and (val == TRUE) == (I.mask(st, t, tr) == EQ), "a constant does not have its value")
                V(R, "term-level", fn, lev == C(0), "a constant depends on a decision")
            elif ks[0] == {"ARITH_PRODUCT"}:
                e = [("call", "evaluated", (("at", ("*", args_of(t)), C(i)),)) for i in (0, 1)]
                V(R, "term-value", fn, val in (("q", "*", ("fld", e[0], "value"), ("fld", e[1], "value")), ("q", "*", ("fld", e[1], "value"), ("fld", e[0], "value"))), "a product does not have the value of its parts multiplied")
                l = [("fld", x, "decision_level") for x in e]
                V(R, "term-level", fn, is_max(I, st, lev, l[0], l[1]) or lev == l[1], "the level of a product is not the higher of the levels of its parts")
            elif ks[0] == {"ARITH_POLY"}:
                V(R, "term-value", fn, val[:1] == ("phi",) and val[2] in sums, "a sum does not have the value of its parts added")
                V(R, "term-level", fn, lev[:1] == ("phi",) and lev[2] in levels, "the level of a sum is not the highest level of its parts")
    for fn, I, h, outs in run(P, R, UF + "::term_to_literal"):
        t = param(fn, 0)
        for st, k, v in outs:
            if v[:1] == ("some",):
                n = st.facts.get(("call", "negated", (t,)))
                V(R, "negated-literal", fn, n is not None and base(v[1])[1] == n, "the literal of a term has the wrong sign")


def polynomials(P, R):
    for fn, I, h, outs in run(P, R, UF + "::term_to_poly"):
        t = param(fn, 0)
        for info, st, how, evs, old in its(h):
            V(R, "term-polynomial", fn, how in GO, "not all parts of a sum are looked at")
            a = [y for f in list(st.facts) + [z for ab in st.rel for z in ab] for y in subterms(f) if y[:1] == ("at",) and is_elem(y, args_of(t))]
            if not a:
                continue
            a = a[0]
            vs = [e[2][0] for e in evs if e[0] in ("push_back", "emplace_back") and e[1][1][-1:] == ("vars",)]
            cs = [e[2][0] for e in evs if e[0] in ("push_back", "emplace_back") and e[1][1][-1:] == ("coef",)]
            const = [(old.get(k), v) for k, v in st.store.items() if k[1][-1:] == ("constant",) and old.get(k) != v and not any(y[:1] == ("phi",) and y == v for y in [v])]
            if st.facts.get(("call", "has_tvar", (a,))):
                V(R, "term-polynomial", fn, vs == [("call", "ord", (("call", "tvar", (a,)),))] and cs == [C(1)] and not const, "a variable of a sum is left out, or it has another coefficient")
            elif kinds(st, a)[0] == {"ARITH_CONSTANT"}:
                c = ("call", "arithmetic_constant_value", (a,))
                V(R, "term-polynomial", fn, not vs and not cs and len(const) == 1 and (const[0][1] == c or const[0][1][:2] == ("q", "+") and c in const[0][1][2:]), "the constant of a sum is left out")
            else:
                V(R, "term-polynomial", fn, vs == [("call", "ord", (("call", "tvar", (("call", "var_of_product", (a,)),)),))] and cs == [("call", "coeff_of_product", (a,))] and not const, "a product in a sum is left out, or its variable or coefficient is another")
        for st, k, v in sane(outs):
            if v[:1] != ("agg",):
                continue
            d = dict(v[2])
            if not {"vars", "coef", "constant"} <= set(d):
                continue
            got = tuple(tuple(d[x][1]) if d[x][:1] == ("vec",) else d[x] for x in ("vars", "coef")) + (d["constant"],)
            if st.facts.get(("call", "has_tvar", (t,))):
                V(R, "term-polynomial", fn, got == ((("call", "ord", (("call", "tvar", (t,)),)),), (C(1),), C(0)), "the polynomial of a variable is another one")
            elif kinds(st, t)[0] == {"ARITH_CONSTANT"}:
                V(R, "term-polynomial", fn, got == ((), (), ("call", "arithmetic_constant_value", (t,))), "the polynomial of a constant is another one")
            elif kinds(st, t)[0] == {"ARITH_PRODUCT"}:
                V(R, "term-polynomial", fn, got == ((("call", "ord", (("call", "tvar", (("call", "var_of_product", (t,)),)),)),), (("call", "coeff_of_product", (t,)),), C(0)), "the polynomial of a product is another one")


def present(st):
    """Is an application with the same argument values stored? [answer], or [] if it has not been asked"""
    key = lambda f: f[:1] == ("call",) and any(y[:1] == ("each",) for y in subterms(f[2][-1]))
    out = [b for f, b in st.facts.items() if f[:2] == ("call", "contains") and key(f)]
    for (a, b), m in st.rel.items():
        for x, y in ((a, b), (b, a)):
            if x[:1] == ("call",) and x[1] == "count" and key(x) and y == C(0):
                out.append(not m & EQ)
            if x[:1] == ("call",) and x[1].split("::")[-1] == "find" and key(x) and y[:1] == ("it",):
                out.append(not m & EQ)
            if x[:1] == ("it",) and x[2][:1] == ("find",) and any(z[:1] == ("each",) for z in subterms(x[2])):
                out.append(not m & EQ)
    return out[:1]


def applications(P, R):
    for fn, I, h, outs in run(P, R, UF + "::add_function_value"):
        t = param(fn, 0)
        fval = ev_val(t)
        part = lambda y: y[:1] == ("fld",) and y[2] == "decision_level" and y[1][:2] == ("call", "evaluated") and is_elem(y[1][2][0], args_of(t))
        levels, bad = level_loops(I, h, args_of(t), part)
        for info, st, how, evs, old in its(h):
            V(R, "application-key", fn, how in GO, "not all arguments are looked at")
            eqs = [e for e in evs if e[0] == "assert_equality"]
            pushes = [e for e in evs if e[0] in ("push_back", "emplace_back") and any(y[:2] == ("call", "evaluated") for y in subterms(e[2]))]
            if pushes:
                V(R, "application-key", fn, len(pushes) == 1 and bare(pushes[0][2][0])[0] == "fld" and pushes[0][2][0][2] == "value" and is_elem(pushes[0][2][0][1][2][0], args_of(t)), "the key has something else than the values of the arguments")
            if eqs:
                e = eqs[0]
                a, b = bare(e[1]), bare(e[2])
                good = len(eqs) == 1 and a[:1] == b[:1] == ("at",) and a[2] == b[2] and e[3] == FALSE
                sides = {a[1], b[1]} if good else set()
                V(R, "conflict-clause", fn, good and args_of(t) in sides and all(x[:2] == ("call", "args") and (x == args_of(t) or mentions(x, "app_term") or x[2][0][2:] == ("app_term",)) for x in sides) and len(sides) == 2,
                  "the clause does not compare the arguments of the two applications one by one")
                for g in {g for l in info["guard"].values() for g in l}:
                    cov = I.counted(info, g)
                    if cov is None and g[:2] == ("cmp", "<"):
                        (a, ca), (b, cb) = linear(g[2]), linear(g[3])
                        V(R, "conflict-clause", fn, not (a[:1] == ("phi",) and bare(b)[:2] == ("call", "size") and ca != cb), "not all arguments are compared")
                    if cov is None:
                        continue
                    _, lo, op, hi, step, x = cov
                    hi, c = bare(hi), None
                    if step == 1 and isint(lo):
                        c = lo == C(0) and op in ("<", "!=") and hi[:2] == ("call", "size") and hi[2][0][:2] == ("call", "args")
                    V(R, "conflict-clause", fn, c is not False, "not all arguments are compared")
            V(R, "application-key", fn, bool(pushes or eqs) or not (st.facts or st.rel), "an argument is not looked at")
        paths = sane(outs)
        for st, k, v in paths:
            has = present(st)
            if not has:
                R.ok("C21.application-stored", WHAT["application-stored"])
                continue
            stored = [(k2, v2) for k2, v2 in st.store.items() if k2[0] == ("M", THIS) and k2[1][:1] == ("functions",) and len(k2[1]) == 3 and v2[:1] in (("agg",), ("upd",))]
            ins = [e for e in events(st.auto[0]) if e[0] in ("emplace", "insert", "try_emplace", "insert_or_assign")]
            if has[0] is False:
                V(R, "conflict-found", fn, v == ("vec", ()), "a conflict is reported though there is one application only")
                if not stored and ins:
                    continue
                if not V(R, "application-stored", fn, len(stored) == 1, "the first application with given argument values is not stored"):
                    continue
                (o, p), x = stored[0]
                d = dict(x[2]) if x[0] == "agg" else {q[0]: y for q, y in x[2] if len(q) == 1}
                key = p[2][1] if p[2][:1] == ("at",) else None
                V(R, "application-stored", fn, p[1] == ("at", ("call", "get_fnc_symbol", (t,))) and d.get("value") == fval and d.get("app_term") == t, "something else is stored than the application and its value")
                V(R, "application-key", fn, key is not None and key[:1] == ("vec",) and len(key[1]) == 1 and key[1][0][:1] == ("each",) and any(key in subterms(f) for f in list(st.facts) + [z for ab in st.rel for z in ab]), "the application is stored under other values than those of its arguments")
                lev, own = d.get("decision_level"), ev_val(t, "decision_level")
                phis = {y for y in list(subterms(lev)) + [z for ab in st.rel for z in ab] if y[:1] == ("phi",) and y[2] in levels}
                V(R, "term-level", fn, any(is_max(I, st, lev, ph, own) for ph in phis), "the level of an application is not the highest level of its arguments and its value")
                continue
            ms = [m for (a, b), m in st.rel.items() if fval in (a, b) and any(z[:1] == ("fld",) and z[2] == "value" and z != fval for z in (a, b))]
            V(R, "application-stored", fn, not stored, "the stored application is replaced")
            if not ms:
                V(R, "conflict-found", fn, False, "the values of the two applications are not compared")
            elif ms[0] == EQ:
                V(R, "conflict-found", fn, v == ("vec", ()), "a conflict is reported though both applications have the same value")
            elif not ms[0] & EQ:
                if V(R, "conflict-found", fn, v[:1] == ("vec",) and len(v[1]) == 1, "two applications with equal arguments have different values and no conflict is reported"):
                    own = [e for e in events(st.auto[0]) if e[0] == "assert_equality"]
                    V(R, "conflict-clause", fn, len(own) == 1 and t in own[0][1:3] and own[0][3] == TRUE and any(bare(x)[:1] == ("fld",) and bare(x)[2] == "app_term" for x in own[0][1:3]), "the clause does not compare the two applications")
                    lits = [y for y in subterms(v) if y[:2] == ("call", "eqlits")]
                    V(R, "conflict-clause", fn, any(y[2][2] == FALSE for y in lits) and any(y[2][2] == TRUE for y in lits), "the comparisons are not part of the clause returned")
            else:
                V(R, "conflict-found", fn, False, "the values of the two applications are not compared")


def equalities(P, R):
    for fn, I, h, outs in run(P, R, UF + "::assert_equality"):
        t, u = param(fn, 0), param(fn, 1)
        res = (("M", param(fn, 3)), ())
        me = param(fn, 4)
        part = lambda y: y[:2] == ("call", "level") and any(z[:1] == ("fld",) and z[2] == "vars" for z in subterms(y))
        levels, bad = level_loops(I, h, None, part)
        for st, k, v in sane(outs):
            evs = events(st.auto[0])
            if I.mask(st, t, u) == EQ:
                V(R, "equality", fn, not evs, "literals are added though both terms are the same")
                continue
            ty = types(st, t) or types(st, u)
            pushed = [e[2][0] for e in evs if e[0] in ("push_back", "emplace_back") and e[1] == res]
            if ty == "bool":
                for x in (t, u):
                    has = st.facts.get(("call", "has_tlit", (x,)))
                    l = ("call", "tlit", (x,))
                    tr = truth(st, l)
                    if has is None:
                        V(R, "falsified", fn, False, "a term is not looked at")
                    if has:
                        f = neg(l) if tr else l
                        seen = any(f in subterms(z) for ab in st.rel for z in ab) or any(f in subterms(y) for y in st.facts if y[:2] not in (("call", "def"), ("call", "true")))
                        V(R, "falsified", fn, tr in (True, False) and (f in pushed or seen and not pushed_other(st, f)), "the clause has no false literal for a term")
                ok = {neg(("call", "tlit", (x,))) if truth(st, ("call", "tlit", (x,))) else ("call", "tlit", (x,)) for x in (t, u)}
                V(R, "falsified", fn, all(p in ok for p in pushed), "the clause has a literal which is not false")
            elif ty == "real":
                p1, p2 = ("call", "poly", (t,)), ("call", "poly", (u,))
                empty = [m for (a, b), m in st.rel.items() if any(z[:2] == ("call", "size") and any(y[:2] == ("call", "psub") for y in subterms(z)) for z in (a, b))]
                if not pushed:
                    V(R, "equality", fn, empty == [EQ] and not evs, "terms are not compared though they differ")
                    continue
                c, n = base(pushed[0])
                mk = st.facts.get(me)
                V(R, "equality", fn, len(pushed) == 1 and c[:2] == ("call", "lincons"), "the literal in the clause is not the one of a linear constraint")
                if c[:2] != ("call", "lincons"):
                    continue
                ps = {y for y in subterms(c) if y[:2] == ("call", "psub")}
                p = next(iter(ps), None)
                V(R, "equality", fn, len(ps) == 1 and p[2] in ((p1, p2), (p2, p1)) and bare(c[2][0]) == ("fld", p, "vars") and bare(c[2][1]) == ("fld", p, "coef") and [y[1].split("::")[-1] for y in subterms(c[2][2]) if y[:1] == ("en",)] == ["eq"]
                  and bare(c[2][3]) in (("q", "neg", ("fld", p, "constant")), bare(q_neg(("fld", p, "constant")))), "the constraint is not the equality of both terms")
                V(R, "equality", fn, mk is not None and n == (not mk), "the clause does not forbid the current values of the terms")
                d = st.facts.get(("call", "def", (("call", "var", (c,)),)))
                sets = [e for e in evs if e[0] == "set_value"]
                pr = [e for e in evs if e[0] == "trail.propagate"]
                if d is False:
                    V(R, "equality-value", fn, len(sets) == 1 == len(pr) and sets[0][1] == ("call", "var", (c,)) and pr[0][1] == ("call", "var", (c,)) and pr[0][2] == NULL, "a constraint which has no value gets none")
                    if sets and mk is not None:
                        V(R, "equality-value", fn, sets[0][2] in (C(not mk),) or sets[0][2] == I.cmp("==", me, FALSE), "a constraint gets the wrong value")
                    if pr:
                        l = pr[0][3]
                        V(R, "equality-level", fn, l[:1] == ("phi",) and l[2] in levels, "a constraint is not assigned at the highest level of its variables")
                else:
                    V(R, "equality-value", fn, d is True and not sets and not pr, "a constraint which has a value gets another one")


def pushed_other(st, f):
    """Is the literal known not to be in the clause?"""
    for (a, b), m in st.rel.items():
        if any(f in subterms(z) for z in (a, b)) and any(z[:1] == ("it",) for z in (a, b)) and m == EQ:
            return True
    return False


def backtrack(P, R):
    for fn, I, h, outs in run(P, R, UF + "::on_before_backtrack"):
        lvl = param(fn, 2)
        rows = list(its(h))
        for info, st, how, evs, old in rows:
            V(R, "forgotten", fn, how in GO, "not all applications are looked at")
            x = [(z, k, m) for z, y, k, m in relations(st, lambda z: z[:1] == ("fld",) and z[2] == "decision_level") if y == lvl]
            acts = [e for e in evs if e[0] in ("push_back", "emplace_back", "insert", "erase", "emplace")]
            if x:
                z = x[0][0]
                # bounds of the difference of both levels
                lo = max(-99 if m & LT else k if m & EQ else k + 1 for _, k, m in x)
                hi = min(99 if m & absint.GT else k if m & EQ else k - 1 for _, k, m in x)
                app = z[1]
                if acts and all(e[0] != "erase" for e in acts):
                    key = ("fld", app[1], "first") if app[:1] == ("fld",) else None
                    V(R, "forgotten", fn, key is None or any(mentions(e[2], key) for e in acts), "another application is forgotten")
                V(R, "forgotten", fn, lo >= 1 if acts else hi <= 0, "an application above the level backtracked to is kept" if not acts else "an application which is not above the level backtracked to is forgotten")
            elif any(e[0] == "erase" for e in acts):
                V(R, "forgotten", fn, not st.facts and not st.rel, "an application is kept on some condition")
        if any(e[0] != "erase" for _, _, _, evs, _ in rows for e in evs):
            V(R, "forgotten", fn, any(e[0] == "erase" and e[1][1][:1] == ("functions",) for _, _, _, evs, _ in rows for e in evs), "nothing is forgotten")


def model(P, R):
    for fn, I, h, outs in run(P, R, UF + "::get_model"):
        rows = list(its(h))
        for info, st, how, evs, old in rows:
            V(R, "model", fn, how in GO and not st.facts and not st.rel, "not all applications are part of the model")
            for (o, p), v in st.store.items():
                if o[0] == "L" and len(p) == 1 and p[0][:1] == ("at",) and old.get((o, p)) != v and v[:1] != ("phi",):
                    k = bare(p[0][1])
                    if k[:1] == ("fld",) and k[2] == "first":
                        V(R, "model", fn, bare(v) == ("fld", ("fld", k[1], "second"), "value"), "an application has another value in the model")


def check(P, R):
    propagate(P, R)
    watch(P, R)
    register(P, R)
    evaluation(P, R)
    polynomials(P, R)
    applications(P, R)
    equalities(P, R)
    backtrack(P, R)
    model(P, R)
    for rule in WHAT:
        R.need(1, "C21." + rule)
