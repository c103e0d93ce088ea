"""C20: the arithmetic theory examines every assignment and gives values within the bounds."""
import itertools
from fractions import Fraction
import facts as F
from lralib import *
from r_c15 import subterms
from r_c16 import part, old_of, bound_of
from r_c19 import value, Unknown, fields

LA = "yaga::Linear_arithmetic"

EXPLANATION = ("The theory's own functions are interpreted on symbolic constraints and assignments: the watch replacement (which variables the watches end on, when a constraint counts as finished), "
               "the handling of one assigned variable (what is passed to the bounds, what is propagated, at which level and with which value), the final check of the changed bounds, "
               "the choice of a value and the creation of constraints. Every path and every loop iteration is compared with what the facts known on it require.")
ASSUMPTIONS = ["bounds and conflicts are as C18 and C19 say", "constraints evaluate as C17 says", "the trail reports each assignment once (C08)", "default values of return_all_conflicts (true)", "watches are on the first two variables of a constraint (established by the rules on watch)"]

GO = ("next", "continue")
WHAT = {
    "watch-coefficients": "variables and coefficients change places together",
    "watch-unassigned": "a watch moves to an unassigned variable, whenever one is found",
    "watch-moved": "the result tells whether the watch has moved",
    "watch-order": "the unassigned variable of a unit constraint is at the front",
    "watch-exhausted": "every variable of the constraint is looked at before the search ends",
    "watch-list": "every constraint watching the variable is handled",
    "unit-to-bounds": "assigned constraints with one unassigned variable change its bounds, and no others do",
    "evaluated-propagated": "unassigned constraints whose variables are assigned are propagated, and no others are",
    "evaluated-value": "the literal gets the value of the constraint",
    "propagation-level": "the level of a propagation is the highest level of the variables of the constraint",
    "every-assignment": "every assignment relevant to the theory is looked at",
    "finished": "changed bounds are checked at the end of each propagation",
    "changed-checked": "every variable whose bounds have changed is checked",
    "conflict-kept": "conflicts found are reported",
    "both-checks": "both kinds of conflicts are looked for",
    "unit-test": "a constraint is unit iff its first variable is the only unassigned one",
    "full-test": "a constraint is fully assigned iff all its variables are assigned",
    "single-value": "effectively decided variables are unassigned and have equal non-strict bounds",
    "decided-allowed": "a decided value is within the bounds",
    "decided-once": "a decision gives the variable a value and puts it on the trail",
    "integer-allowed": "an integer found is within the bounds",
    "integer-exists": "the search for an integer gives up only between two bounds",
    "integer-search": "the search moves away from the bound that exists",
    "between": "the search for another value stays between the bounds",
    "new-watched": "new constraints get a variable and are watched",
    "first-watch": "a new constraint is watched by its first two variables",
    "resized": "tables grow with the number of variables",
    "literal-constraint": "the constraint of a literal has the sign of the literal",
}


class H(Lra):
    merge_limit = 300
    nest = False
    forget = False

    def __init__(self, keep=()):
        super().__init__(None)
        self.inline_these = set(keep)

    def iter_begin(self, I, st, info):
        st = super().iter_begin(I, st, info)
        return self.ev(st, "old", tuple(sorted(st.store.items(), key=repr)))

    def watched_container(self, I, obj):
        return super().watched_container(I, obj) or "any"

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q in self.inline_these:
            return None
        vs = self.vals(I, st, args)
        if q == "yaga::Linear_constraints::make":
            return [(self.ev(st, "make", *vs), ("call", "made", vs))]
        if q in ("std::all_of", "std::any_of", "std::none_of", "std::ranges::all_of", "std::ranges::any_of", "std::ranges::none_of"):
            return ("cont", self.ev(st, s, *vs[:2]))
        if q.startswith(LA + "::") and s == "is_new":
            return [(s2, C(b)) for s2, b in I.split(st, ("call", "is_new", vs[-1:]))]
        if q == "std::iter_swap":
            return ("cont", self.ev(st, "swap", *vs))
        if q == "yaga::Linear_constraints::operator[]":
            return [(st, ("call", "consof", vs[:1]))]
        if q.startswith(LA + "::") and q.count("::") == 2:
            if s in ("is_unit", "is_fully_assigned"):
                return [(s2, C(b)) for s2, b in I.split(st, ("call", s[3:], vs[-1:]))]
            if s == "is_effectively_decided":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "edecided", vs[-1:]))]
            if s in ("unit", "watch", "add_variable") or s == "propagate" and len(vs) == 3:
                return [(self.ev(st, s, *vs), VOIDV)]
            if s in ("propagate_bounds", "propagate_unassigned"):
                return [(self.ev(st, s), VOIDV)]
            if s == "replace_watch":
                if len(vs) == 3 and str(node.get("t")) != "bool":
                    return [(self.ev(st, s, *vs), VOIDV)]
                return [(self.ev(s2, s, *vs), C(b)) for s2, b in I.split(st, ("call", "replaced", vs[1:2]))]
            if s == "check_bounds":
                v = ("call", "conflict", vs[-1:])
                return [(self.ev(s2, "check", vs[-1]), ("some", v) if b else ("none",)) for s2, b in I.split(st, ("call", "conflicting", vs[-1:]))]
            if s == "constraint" and len(vs) == 1:
                return [(st, ("call", "consof", vs[:1]))]
            if s == "finish":
                return [(self.ev(st, "finish"), ("call", "finish", ()))]
            if s == "find_integer":
                out = []
                x = ("call", "integer", (("lv", args[-1][1]) if args[-1][0] == "ref" else vs[-1],))
                for s2, b in I.split(st, ("call", "has", (x,))):
                    s2 = s2.copy()
                    s2.facts = dict(s2.facts)
                    if b:
                        s2.facts[("call", "allowed", (x,))] = True
                    else:  # rule integer-exists
                        s2.facts[("call", "hasb", (("call", "lower_bound", x[2]),))] = True
                        s2.facts[("call", "hasb", (("call", "upper_bound", x[2]),))] = True
                    out.append((s2, ("some", x) if b else ("none",)))
                return out
        if q.endswith("_conflict_analysis::analyze"):
            k = q.split("::")[-2]
            v = ("call", k, vs[-1:])
            return [(s2, ("some", v) if b else ("none",)) for s2, b in I.split(self.ev(st, "analyze", k, vs[-1]), ("call", "conflicting", (v,)))]
        if q == "yaga::Bounds::update":
            return [(self.ev(st, "update", *vs), VOIDV)]
        if q == "yaga::Bounds::changed":
            return [(st, mem("changed", ()))]
        if q.startswith(BOUNDS + "::") and obj is not None:
            if s == "is_allowed":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "allowed", vs[-1:]))]
            if s in ("lower_bound", "upper_bound"):
                v = ("call", s, (("lv", obj),))
                return [(s2, ("ref", (("M", v), ())) if b else C(None)) for s2, b in I.split(st, ("call", "hasb", (v,)))]
        if q.startswith("yaga::Theory::assigned"):
            return [(st, ("ref", (("M", ("call", "assigned", ())), ())))]
        if q.startswith(("yaga::Model_base::", "yaga::Model::")) and obj is not None and obj == (("M", THIS), ("cached_values",)):
            if s == "set_value":
                return [(self.ev(st, "cache", *vs), VOIDV)]
            if s == "is_defined":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "cached", vs[:1]))]
            if s == "value":
                return [(st, ("call", "cachedvalue", vs[:1]))]
        return super().call(I, st, node, q, obj, args)


def run(P, R, q, sel=lambda f: True):
    out = []
    for fn in P.find(q):
        if not sel(fn):
            continue
        h = H()
        I = Interp(P, h)
        outs = [o for o in I.run(fn, h.start()) if o[1] in ("ret", "end")]
        R.saw(I)
        out.append((fn, I, h, outs))
    return out


def events(evs):
    return [e for e in evs if e[0] != "old"]


def its(h, kinds=None):
    """(state, how, events, values at the start) of loop iterations"""
    for info, st, how, l in h.ends:
        evs = st.auto[-1]
        yield info, st, how, events(evs), old_of(st)


def bare(t):
    """Term without the marks of references."""
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == "*":
        return bare(t[1])
    return tuple(bare(x) for x in t)


def known(st, x, heads=("def", "adef")):
    """Is the variable known to be assigned (True), unassigned (False) or neither (None)?"""
    x = bare(x)
    for f, v in st.facts.items():
        f = bare(f)
        if f[:1] == ("call",) and f[1] in heads and x in subterms(f) and not any(y[:1] == ("at",) and x in y[1:] for y in subterms(f)):
            return v
    return None


def at0(v):
    """(container, index) of an element"""
    return (v[1], v[2]) if v[:1] == ("at",) else (None, None)


def is_var(v, k=None):
    """Variable number k (any if None) of a constraint"""
    c, i = at0(v)
    c = star(c) if c else None
    return bool(c) and c[:2] == ("call", "vars") and (k is None or i == C(k))


def where(it):
    return it[2] if it[:1] == ("it",) else None


def side(it):
    return it[1][0][1][1] if it[:1] == ("it",) and it[1][0][0] == "M" and it[1][0][1][:1] == ("call",) else None


def swaps(evs, kind):
    return [frozenset((where(e[1]), where(e[2]))) for e in evs if e[0] == "swap" and side(e[1]) == side(e[2]) == kind]


def in_step(st, old):
    """Do iterators over variables and over coefficients move together?"""
    moves = {"vars": set(), "coef": set()}
    for k, o in old.items():
        n = st.store.get(k)
        if k[0][0] == "L" and not k[1] and o[:1] == ("it",) and n and n[:1] == ("it",) and side(o) in moves and side(n) == side(o) and n != o:
            moves[side(o)].add((where(o), where(n)))
    return moves["vars"] == moves["coef"]


def watch_target(e):
    """variable whose watch list the constraint is added to"""
    o = e[1]
    if e[0] in ("push_back", "emplace_back") and o[0] == ("M", THIS) and len(o[1]) == 2 and o[1][0] == "watched":
        x = o[1][1]
        return x[1] if x[0] in ("at", "elem") else None
    return None


def replace_one(P, R):
    """Moving a watch of one constraint."""
    for fn, I, h, outs in run(P, R, LA + "::replace_watch", lambda f: f["ret"] == "bool"):
        for _, st, how, evs, old in its(h):
            V(R, "watch-coefficients", fn, how not in GO or in_step(st, old), "the positions in the list of variables and in the list of coefficients do not move together")
        paths = [(st, evs, None, how) for _, st, how, evs, _ in its(h)] + [(st, events(st.auto[0]), v, None) for st, k, v in outs]
        for st, evs, v, how in paths:
            R.check(sorted(map(sorted_key, swaps(evs, "vars"))) == sorted(map(sorted_key, swaps(evs, "coef"))), "C20.watch-coefficients", WHAT["watch-coefficients"], F.loc(fn),
                    "a variable of the constraint changes its position without its coefficient")
            ts = [watch_target(e) for e in evs if watch_target(e) is not None]
            for x in ts:
                R.check(is_var(x) and known(st, x) is False, "C20.watch-unassigned", WHAT["watch-unassigned"], F.loc(fn), f"the constraint is watched by {show(x)[:60]}, which is not known to be unassigned")
            if how is not None:
                open_ = [f for f, b in st.facts.items() if b is False and f[:2] in (("call", "def"), ("call", "adef")) and any(y[:1] == ("at",) and is_var(y) and not is_c(y[2]) for y in subterms(f))]
                R.check(not open_ or ts or how not in ("next", "break"), "C20.watch-unassigned", WHAT["watch-unassigned"], F.loc(fn), "an unassigned variable is found and the constraint is not moved to its watch list")
        one, two = None, None
        size = None
        for st, k, v in outs:
            evs = events(st.auto[0])
            sz = [a for (a, b) in st.rel for a in (a, b) if a[:2] == ("call", "size")]
            size = sz[0] if sz else size
            moved = [x for x in [watch_target(e) for e in evs] if x is not None]
            ax = None
            if v[:2] == ("cmp", "!="):
                ax = v[2] if v[3] == ("p", fn["ps"][-1]["n"]) else v[3]
                if known(st, ax) is False and not (is_c(at0(ax)[1] or NULL)):
                    moved = moved or [ax]
            if moved:
                R.check(v == TRUE or bare(ax) in map(bare, moved), "C20.watch-moved", WHAT["watch-moved"], F.loc(fn), "the watch moves and the result does not say so")
                continue
            vars_ = size[2][0] if size else None
            x0, x1 = ("at", ("*", vars_), C(0)), ("at", ("*", vars_), C(1))
            if v != FALSE:
                same = ax == x1 and I.mask(st, x1, ("p", fn["ps"][-1]["n"])) == EQ or ax == x0 and not I.mask(st, x1, ("p", fn["ps"][-1]["n"])) & EQ
                R.check(same, "C20.watch-moved", WHAT["watch-moved"], F.loc(fn), "the result says that the watch has moved and it has not")
                # the assigned variable is second
                sw = swaps(evs, "vars")
                R.check(ax == x1 and not sw or ax == x0 and sw == [frozenset((("b", 0), ("b", 1)))], "C20.watch-order", WHAT["watch-order"], F.loc(fn), "the variable just assigned is not moved to the second position")
            small = size is not None and not I.mask(st, size, C(2)) & absint.GT or size is not None and not I.mask(st, size, C(1)) & absint.GT
            both = known(st, x0) is True and known(st, x1) is True
            circle = [1 for (a, b), m in st.rel.items() if m == EQ and {a[:1], b[:1]} == {("it",)} and any(where(z)[0] == "i" and any(y[:1] == ("fld",) and y[2] == "index" for y in subterms(where(z)[1])) and not any(y[:1] == ("op",) for y in subterms(where(z)[1])) for z in (a, b) if where(z)) and not any(where(z)[0] == "e" for z in (a, b))]
            R.check(small or both or circle, "C20.watch-exhausted", WHAT["watch-exhausted"], F.loc(fn), "the search for a variable to watch ends before all variables of the constraint have been looked at")
            if small and not both and size is not None and I.mask(st, size, C(1)) & absint.GT:
                R.ok("C20.watch-exhausted", WHAT["watch-exhausted"])


def sorted_key(s):
    return repr(sorted(map(repr, s)))


def replace_all(P, R):
    """All constraints watching an assigned variable."""
    for fn, I, h, outs in run(P, R, LA + "::replace_watch", lambda f: f["ret"] == "void"):
        n = 0
        for info, st, how, evs, old in its(h):
            n += 1
            rep = [v for f, v in st.facts.items() if f[:2] == ("call", "replaced")]
            R.check(len([e for e in evs if e[0] == "replace_watch"]) == 1 and len(rep) == 1 and how in GO, "C20.watch-list", WHAT["watch-list"], F.loc(fn), "a constraint watching the variable is skipped")
            if not rep:
                continue
            pops = [e for e in evs if e[0] in ("pop_back", "erase")]
            pos = [(k, v) for k, v in old.items() if k[0][0] == "L" and v[:1] in (("phi",), ("c",)) and k in st.store and st.store[k] == I.arith("+", v, C(1))]
            if rep[0]:
                R.check(len(pops) == 1 and not pos, "C20.watch-list", WHAT["watch-list"], F.loc(fn), "a constraint which is no longer watched by the variable stays in its list, or the one taking its place is skipped")
                continue
            R.check(not pops, "C20.watch-list", WHAT["watch-list"], F.loc(fn), "a constraint is removed from the list of the variable it is watched by")
            R.check(bool(pos), "C20.watch-list", WHAT["watch-list"], F.loc(fn), "the position in the list does not move past a constraint which stays there")
            bdef = [v for f, v in st.facts.items() if f[:2] == ("call", "def")]
            full = [v for f, v in st.facts.items() if f[:2] == ("call", "fully_assigned")]
            units = [e for e in evs if e[0] == "unit"]
            props = [e for e in evs if e[0] == "propagate"]
            R.check(bool(units) == (bdef == [True] and full == [False]) and len(units) <= 1, "C20.unit-to-bounds", WHAT["unit-to-bounds"], F.loc(fn), "the bounds are (not) updated though the constraint is (not) assigned and has one variable left")
            R.check(bool(props) == (bdef == [False] and full == [True]) and len(props) <= 1, "C20.evaluated-propagated", WHAT["evaluated-propagated"], F.loc(fn), "a constraint whose variables are all assigned is (not) propagated though its literal is (not) assigned")
            for e in units + props:
                w = [x for e2 in evs if e2[0] == "replace_watch" for x in e2[2:3]]
                R.check(bool(w) and e[-1] == ("fld", w[0], "constraint"), "C20.unit-to-bounds", WHAT["unit-to-bounds"], F.loc(fn), "another constraint is passed on")


def propagate(P, R):
    for fn, I, h, outs in run(P, R, LA + "::propagate"):
        if fn["ret"] == "void":
            propagate_one(R, fn, I, h, outs)
        else:
            propagate_all(R, fn, I, h, outs)


def propagate_one(R, fn, I, h, outs):
    cons = ("p", fn["ps"][-1]["n"])
    level = set()
    for info, st, how, evs, old in its(h):
        lv = {x for (a, b), m in st.rel.items() for x in (a, b) if x[:2] == ("call", "level")}
        good = False
        for k, v in st.store.items():
            o = old.get(k)
            if o is None or k[0][0] != "L" or o != C(0) and o[:1] != ("phi",):
                continue
            for x in lv:
                m = I.mask(st, x, o)
                if v == x and not m & LT or v == o and not m & absint.GT:
                    good = True
                    level.add(k)
        R.check(good and how in GO, "C20.propagation-level", WHAT["propagation-level"], F.loc(fn), "the level of a propagated constraint is not the highest level of its variables")
    for st, k, v in outs:
        evs = events(st.auto[0])
        sets = [e for e in evs if e[0] == "set_value"]
        pr = [e for e in evs if e[0] == "trail.propagate"]
        R.check(len(sets) == len(pr) == 1 and sets[0][1] == pr[0][1] == ("call", "var", (clit(cons),)), "C20.evaluated-propagated", WHAT["evaluated-propagated"], F.loc(fn), "the value and the trail are not updated for the variable of the constraint")
        if len(sets) != 1 or len(pr) != 1:
            continue
        ng = [b for f, b in st.facts.items() if f == ("call", "negation", (clit(cons),))]
        ev = [b for f, b in st.facts.items() if f == ("call", "ceval", (cons,))]
        R.check(is_c(sets[0][2]) and len(ng) == len(ev) == 1 and cval(sets[0][2]) == (ng[0] != ev[0]) or len(ng) == 1 and sets[0][2] == (("op", "!", ("call", "ceval", (cons,))) if ng[0] else ("call", "ceval", (cons,)))
                or sets[0][2][:2] in (("cmp", "!="), ("op", "^")) and set(sets[0][2][2:]) == {("call", "ceval", (cons,)), ("call", "negation", (clit(cons),))}, "C20.evaluated-value", WHAT["evaluated-value"], F.loc(fn), "the value of the literal is not the value of the constraint under the assignment")
        R.check(pr[0][2] == C(None) or show(pr[0][2]) in ("nullptr", "null"), "C20.evaluated-propagated", WHAT["evaluated-propagated"], F.loc(fn), "a semantic propagation has a reason clause")
        w = pr[0][3]
        R.check(w[:1] == ("phi",) and w[2] in level, "C20.propagation-level", WHAT["propagation-level"], F.loc(fn), "the constraint is not propagated at the level computed from its variables")


def propagate_all(R, fn, I, h, outs):
    n = m = 0
    handling = {repr(info["site"]) for info, st, how, evs, old in its(h) if any(e[0] in ("unit", "replace_watch") for e in evs)}
    for info, st, how, evs, old in its(h):
        pushes = [e for e in evs if e[0] == "push_back"]
        types = {b: mm for (a, b), mm in st.rel.items() if a[:2] == ("call", "vtype")}
        ty = {show(b).split("::")[-1]: mm for b, mm in types.items()}
        rational = ty.get("rational", 7 if ty.get("boolean") != EQ else 0)
        boolean = ty.get("boolean", 7 if ty.get("rational") != EQ else 0)
        if repr(info["site"]) not in handling:
            n += 1
            empty = [I.mask(st, a, C(0)) for (a, b), mm in st.rel.items() if a[:2] == ("call", "size")]
            skip = not rational & EQ and (not boolean & EQ or boolean == EQ and empty and not empty[0] & absint.GT)
            R.check(how in GO and (len(pushes) == 1 or skip), "C20.every-assignment", WHAT["every-assignment"], F.loc(fn), "an assigned variable relevant to the theory is not looked at")
        else:
            m += 1
            cons = [e for e in evs if e[0] == "unit"]
            rep = [e for e in evs if e[0] == "replace_watch"]
            if rational == EQ:
                R.check(len(rep) == 1 and not cons, "C20.every-assignment", WHAT["every-assignment"], F.loc(fn), "the constraints of an assigned rational variable are not looked at")
            elif boolean == EQ:
                full = [v for f, v in st.facts.items() if f[:2] == ("call", "fully_assigned")]
                unit = [v for f, v in st.facts.items() if f[:2] == ("call", "unit")]
                no = True in full or False in unit
                R.check(len(cons) == 1 and not no or no and not cons, "C20.unit-to-bounds", WHAT["unit-to-bounds"], F.loc(fn), "a constraint is (not) passed to the bounds though it has (no) single unassigned variable left")
                R.check(not cons or cons[0][-1][:2] == ("call", "consof"), "C20.unit-to-bounds", WHAT["unit-to-bounds"], F.loc(fn), "a different constraint is passed to the bounds")
            R.check(how in GO, "C20.every-assignment", WHAT["every-assignment"], F.loc(fn), "the loop over the assigned variables ends early")
    for st, k, v in outs:
        evs = events(st.auto[0])
        R.check(v == ("call", "finish", ()) and sum(e[0] == "finish" for e in evs) == 1 and evs[-1][0] == "finish", "C20.finished", WHAT["finished"], F.loc(fn), "the bounds are not checked at the end of the propagation")


def V(R, rule, fn, cond, detail):
    return R.check(cond, "C20." + rule, WHAT[rule], F.loc(fn), detail)


def fact(st, *head):
    return [v for f, v in st.facts.items() if f[:len(head)] == head]


CHANGED = ("call", "changed", ())


def all_changed(x):
    """Is x an element of a container which has all changed variables?"""
    if star(x[1]) == CHANGED:
        return True
    ends = [("it", (("M", CHANGED), ()), (k, 0)) for k in "be"]
    return any(isinstance(y, tuple) and any(y[i:i + 2] == tuple(ends) for i in range(len(y))) for y in tuples(x))


def tuples(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from tuples(x)


def finish(P, R):
    for fn, I, h, outs in run(P, R, LA + "::finish"):
        seen = False
        copied = [how in GO and any(e[0] in ("push_back", "insert", "emplace_back") and e[1] == (("M", THIS), ("to_check",)) for e in evs)
                  for _, st, how, evs, _ in its(h) if not any(e[0] == "check" for e in evs) and any(x[:1] == ("at",) and star(x[1]) == CHANGED for x in subterms(tuple(st.store.values())))]
        copied = bool(copied) and all(copied)
        for info, st, how, evs, old in its(h):
            checks = [e for e in evs if e[0] == "check"]
            fresh = fact(st, "fresh", "inserted")
            item = [k for e in evs if e[0] in ("check", "insert") for k in ((e[1],) if e[0] == "check" else e[2]) if k[:1] == ("at",)]
            if not any(all_changed(x) for x in item) and not (copied and checks):
                if checks:
                    V(R, "changed-checked", fn, any("to_check" in repr(x) for x in item), "a variable which is not in the list is checked")
                continue
            seen = True
            again = fresh == [False] and all(e[1][0][0] == "L" for e in evs if e[0] == "insert")
            V(R, "changed-checked", fn, len(checks) == (0 if again else 1), "a variable whose bounds have changed is not checked")
            for e in checks:
                V(R, "changed-checked", fn, any(bare(e[1]) == bare(x) for x in item) and e[1][:1] == ("at",), "another variable is checked")
                bad = st.facts.get(("call", "conflicting", (e[1],)))
                kept = [p for p in evs if p[0] in ("push_back", "emplace_back") and ("call", "conflict", (e[1],)) in subterms(p[2])]
                V(R, "conflict-kept", fn, bool(kept) == bool(bad), "a conflict which has been found is dropped")
                allc = [v for f, v in st.facts.items() if f[:1] == ("fld",) and f[2] == "return_all_conflicts"]
                V(R, "changed-checked", fn, how in GO or bad and allc == [False], "the loop over the changed variables ends before all of them are checked")
        V(R, "changed-checked", fn, seen, "the variables whose bounds have changed are not checked")
        for st, k, v in outs:
            V(R, "conflict-kept", fn, any(x[:2] == ("call", "conflict") for x in subterms(v)) or v == ("vec", ()), "the conflicts found are not returned")


def check_bounds(P, R):
    for fn, I, h, outs in run(P, R, LA + "::check_bounds"):
        var = ("p", fn["ps"][-1]["n"])
        for st, k, v in outs:
            evs = events(st.auto[0])
            if v == ("none",):
                V(R, "both-checks", fn, {(e[1], e[2]) for e in evs if e[0] == "analyze"} == {("Bound_conflict_analysis", var), ("Inequality_conflict_analysis", var)} and not any(fact(st, "call", "conflicting")),
                  "no conflict is reported though only one kind of conflicts has been looked for")
            else:
                V(R, "both-checks", fn, v[:1] == ("some",) and st.facts.get(("call", "conflicting", (v[1],))) is True, "a conflict is reported which has not been found")


def tests(P, R):
    for fn, I, h, outs in run(P, R, LA + "::is_unit"):
        cons = ("p", fn["ps"][-1]["n"])
        vs = ("call", "vars", (cons,))
        sz = ("call", "size", (vs,))
        for st, k, v in outs:
            d0, d1 = (known(st, ("at", ("*", vs), C(n))) for n in (0, 1))
            empty, one = not I.mask(st, sz, C(0)) & absint.GT, not I.mask(st, sz, C(1)) & absint.GT
            if v == TRUE:
                V(R, "unit-test", fn, d0 is False and not I.mask(st, sz, C(0)) & EQ and (one or d1 is True), "a constraint counts as unit though it has no, or more than one, unassigned variable")
            elif v == FALSE:
                V(R, "unit-test", fn, empty or d0 is True or d1 is False and not one, "a constraint with one unassigned variable does not count as unit")
            else:
                V(R, "unit-test", fn, False, f"the result is {show(v)[:80]}")
    for fn, I, h, outs in run(P, R, LA + "::is_fully_assigned"):
        cons = ("p", fn["ps"][-1]["n"])
        vs = ("call", "vars", (cons,))
        sz = ("call", "size", (vs,))
        loops = [(st, how, evs) for _, st, how, evs, _ in its(h)]
        whole = bool(loops)
        for st, how, evs in loops:
            d = [v for f, v in st.facts.items() if f[:2] in (("call", "def"), ("call", "adef"))]
            whole = whole and (how not in GO or d == [True])
        for st, k, v in outs:
            evs = events(st.auto[0])
            full = [e for e in evs if e[0].endswith("_of") and side(e[1]) == side(e[2]) == "vars" and (where(e[1]), where(e[2])) == (("b", 0), ("e", 0)) and vs in subterms(e[1])]
            open_ = [f for f, b in st.facts.items() if f[:2] in (("call", "def"), ("call", "adef")) and b is False]
            if v == TRUE:
                V(R, "full-test", fn, not I.mask(st, sz, C(0)) & absint.GT or bool(full) or whole, "a constraint counts as fully assigned though not all its variables have been looked at")
            else:
                V(R, "full-test", fn, v == FALSE and bool(open_), "a constraint whose variables are all assigned does not count as fully assigned")
    for fn, I, h, outs in run(P, R, LA + "::is_effectively_decided"):
        var = ("p", fn["ps"][-1]["n"])
        for st, k, v in outs:
            has = {f[2][0][1]: b for f, b in st.facts.items() if f[:2] == ("call", "hasb")}
            strict = [b for f, b in st.facts.items() if f[:2] == ("call", "bis_strict")]
            vals = [m for (a, b), m in st.rel.items() if {a[:2], b[:2]} == {("call", "bvalue")} and a != b]
            yes = known(st, var) is False and has == {"lower_bound": True, "upper_bound": True} and vals == [EQ] and strict == [False, False]
            no = known(st, var) is True or False in has.values() or True in strict or vals and not vals[0] & EQ
            if v[0] == "cmp" and v[1] == "==" and {v[2][:2], v[3][:2]} == {("call", "bvalue")}:
                V(R, "single-value", fn, known(st, var) is False and has == {"lower_bound": True, "upper_bound": True} and v[2] != v[3] and strict == [False, False], "a variable counts as decided though it is assigned or has more than one value")
            elif v == TRUE:
                V(R, "single-value", fn, yes, "a variable counts as decided though it is assigned or has more than one value")
            else:
                V(R, "single-value", fn, v == FALSE and bool(no), "a variable with a single value does not count as decided")


def decide(P, R):
    for fn, I, h, outs in run(P, R, LA + "::decide"):
        var = ("p", fn["ps"][-1]["n"])
        ty = ("call", "vtype", (var,))
        n = 0
        for info, st, how, evs, old in its(h):
            if how not in GO:
                continue
            for k, o in old.items():
                if o[:1] != ("phi",) and not any(x[:2] == ("call", "bvalue") for x in subterms(o)) or st.store.get(k, o) == o or k[1] or k[0][0] != "L":
                    continue
                new = st.store[k]
                if not any(x[:2] == ("call", "bvalue") for x in subterms(new)):
                    continue
                n += 1
                ok = True
                for lo, hi in ((0, 1), (-3, 5), (Fraction(1, 3), Fraction(1, 2)), (-7, -6)):
                    env = {o: Fraction(hi), "leaf": lambda t: t if t == o and o[:1] == ("phi",) else ("lower" if t[:2] == ("call", "bvalue") and any(z[:2] == ("call", "lower_bound") for z in subterms(t)) else "upper" if t[:2] == ("call", "bvalue") else None),
                           "lower": Fraction(lo), "upper": Fraction(hi + 2 * (hi - lo) if o[:1] == ("phi",) else hi)}
                    try:
                        x = value(new, env)
                        ok = ok and lo < x < hi
                    except (Unknown, KeyError):
                        ok = False
                V(R, "between", fn, ok, f"the next value tried is {show(new)[:120]}")
        for st, k, v in outs:
            evs = events(st.auto[0])
            sets = [e for e in evs if e[0] == "own.set_value"]
            dec = [e for e in evs if e[0] == "trail.decide"]
            m = I.mask(st, ty, ("en", "yaga::Variable::rational", 1))
            if m == EQ:
                V(R, "decided-once", fn, len(sets) == len(dec) == 1 and sets[0][1] == ("call", "ord", (var,)) and dec[0][1] == var and evs.index(sets[0]) < evs.index(dec[0]), "the variable to decide does not get exactly one value and one place on the trail")
                for e in sets:
                    V(R, "decided-allowed", fn, st.facts.get(("call", "allowed", (e[2],))) is True, f"the value {show(e[2])[:80]} is used and it is not known to be within the bounds")
            else:
                V(R, "decided-once", fn, not sets and not dec, "a variable of another type is decided by the theory of arithmetic")


def find_integer(P, R):
    lo = hi = None
    for fn, I, h, outs in run(P, R, LA + "::find_integer"):
        for st, k, v in outs:
            has = {f[2][0][1]: b for f, b in st.facts.items() if f[:2] == ("call", "hasb")}
            if v == ("none",):
                V(R, "integer-exists", fn, has == {"lower_bound": True, "upper_bound": True}, "no integer is reported for a variable without a lower or upper bound")
            else:
                V(R, "integer-allowed", fn, v[:1] == ("some",) and st.facts.get(("call", "allowed", (v[1],))) is True, f"{show(v)[:100]} is returned and it is not known to be within the bounds")
        for info, st, how, evs, old in its(h):
            has = {f[2][0][1]: b for f, b in st.facts.items() if f[:2] == ("call", "hasb")}
            if how not in GO or all(has.get(b) for b in ("lower_bound", "upper_bound")):
                continue
            moves = []
            for k, o in old.items():
                new = st.store.get(k)
                if o[:1] != ("phi",) or new is None or new == o or not any(o in subterms(f) for f in st.facts if f[:2] == ("call", "allowed")):
                    continue
                try:
                    d = value(new, {o: Fraction(0), "leaf": lambda t: t if t == o else None})
                    d2 = value(new, {o: Fraction(5), "leaf": lambda t: t if t == o else None}) - 5
                except (Unknown, KeyError):
                    d = d2 = None
                tried = {f[2][0] == o for f, b in st.facts.items() if f[:2] == ("call", "allowed") and not b and o in subterms(f)}
                limited = any(o in subterms(a) or o in subterms(b) for a, b in st.rel)
                moves.append((d if d == d2 else None, tried, limited))
            for d, tried, limited in moves:
                both = tried == {True, False}
                up, down = has.get("upper_bound"), has.get("lower_bound")
                fine = d is not None and d != 0 and (limited or both and not (up or down) or up and not down and (d < 0) or down and not up and (d > 0))
                V(R, "integer-search", fn, bool(fine), "an unlimited search for an integer does not move away from the bound which exists")


def create(P, R):
    for fn, I, h, outs in run(P, R, LA + "::watch"):
        cons = ("p", fn["ps"][0]["n"])
        vs = ("call", "vars", (cons,))
        sz = ("call", "size", (vs,))
        if len(fn["ps"]) == 1:
            for st, k, v in outs:
                ts = [bare(watch_target(e)) for e in events(st.auto[0]) if watch_target(e) is not None]
                one = not I.mask(st, sz, C(1)) & absint.GT
                want = [bare(("at", ("*", vs), C(n))) for n in range(1 if one else 2)]
                V(R, "first-watch", fn, sorted(map(repr, ts)) == sorted(map(repr, want)), "a constraint is not watched by exactly its first two variables")
            continue
        for info, st, how, evs, old in its(h):
            a, b = swaps(evs, "vars"), swaps(evs, "coef")
            V(R, "watch-coefficients", fn, a == b and in_step(st, old), "a variable of the constraint changes its position without its coefficient")
            d = [x for f, x in st.facts.items() if f[:2] in (("call", "def"), ("call", "adef"))]
            V(R, "first-watch", fn, how in GO and (d == [False]) == bool(a), "an unassigned variable of a new constraint is not moved to the front (or an assigned one is)")
        for st, k, v in outs:
            evs = events(st.auto[0])
            V(R, "first-watch", fn, [e[1] for e in evs if e[0] == "watch"] == [cons], "a new constraint is not watched")
    for fn, I, h, outs in run(P, R, LA + "::constraint"):
        if len(fn["ps"]) == 1:
            lit = ("p", fn["ps"][0]["n"])
            if "Literal" not in fn["ps"][0]["t"]:
                continue
            c = ("call", "consof", (("call", "ord", (("call", "var", (lit,)),)),))
            for st, k, v in outs:
                empty = not I.mask(st, ("call", "size", (("call", "vars", (c,)),)), C(0)) & absint.GT
                m = I.mask(st, clit(c), lit)
                p, n = unneg(v)
                V(R, "literal-constraint", fn, p == c and (empty or m in (EQ, LT | absint.GT) and n == (m != EQ)), "the constraint returned for a literal has the other sign")
            continue
        for st, k, v in outs:
            evs = events(st.auto[0])
            new = fact(st, "call", "is_new")
            V(R, "new-watched", fn, v[:2] == ("call", "made") and sum(e[0] == "make" for e in evs) == 1, "the constraint made is not returned")
            adds = [e for e in evs if e[0] == "add_variable"]
            ws = [e for e in evs if e[0] == "watch"]
            if new == [True]:
                V(R, "new-watched", fn, len(adds) == len(ws) == 1 and adds[0][-1] == ("call", "var", (clit(v),)) and v in ws[0][1:], "a new constraint has no variable on the trail or is not watched")
            else:
                V(R, "new-watched", fn, new == [False] and not adds and not ws, "a constraint which exists already is added again")
    for fn, I, h, outs in run(P, R, LA + "::is_new"):
        var = ("p", fn["ps"][-1]["n"])
        ty, o = ("call", "vtype", (var,)), ("call", "ord", (var,))
        for st, k, v in outs:
            m = I.mask(st, o, ("call", "num_vars", ()))
            other = not I.mask(st, ty, ("en", "yaga::Variable::boolean", 0)) & EQ and not I.mask(st, ty, ("en", "yaga::Variable::rational", 1)) & EQ
            if v == TRUE:
                good = not m & LT
            elif v == FALSE:
                good = other or m == LT
            else:
                good = v[0] == "cmp" and (v[1], v[2], v[3]) in ((">=", o, ("call", "num_vars", ())), ("<=", ("call", "num_vars", ()), o))
            V(R, "new-watched", fn, good, "a variable counts as new though the models have it already, or the other way round")
    for fn, I, h, outs in run(P, R, LA + "::on_variable_resize"):
        ty, n = (("p", p["n"]) for p in fn["ps"])
        for st, k, v in outs:
            got = {e[1][1][0] for e in events(st.auto[0]) if e[0] == "resize" and isinstance(e[1], tuple) and e[1][:1] == (("M", THIS),) and e[2] == (n,)}
            m = I.mask(st, ty, ("en", "yaga::Variable::rational", 1))
            b = I.mask(st, ty, ("en", "yaga::Variable::boolean", 0))
            want = {"bounds", "watched", "occur"} if m == EQ else {"constraints"} if b == EQ else set()
            V(R, "resized", fn, want <= got, f"not resized: {', '.join(sorted(want - got))}")


def check(P, R):
    replace_one(P, R)
    replace_all(P, R)
    propagate(P, R)
    finish(P, R)
    check_bounds(P, R)
    tests(P, R)
    decide(P, R)
    find_integer(P, R)
    create(P, R)
    for r in WHAT:
        R.rule("C20." + r, WHAT[r])
        R.need(1, "C20." + r)
