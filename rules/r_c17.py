"""C17: Boolean propagation finds every unit and every false clause (two watched literals)."""
from evlib import *

EXPLANATION = ("Each step of the watch-list scan is analysed for a generic watch: moved, kept because the clause is satisfied, propagated or reported; the literal values known on the path decide which of these is right. "
               "The search for a replacement, the (re)initialisation, new learned clauses, the propagation loop and decisions are decided per path by their events.")
ASSUMPTIONS = ["trail.assigned gives the variables assigned at a level (C05, C06); Theory::assigned gives those not seen yet (C08)"]

BTQ = "yaga::Bool_theory::"
W, S = "watched", "satisfied"


class H(Core):
    containers = (W, S)
    forget = 1
    nest = True
    summary = True

    def loop_exit(self, I, st, info):
        super().loop_exit(I, st, info)
        return st if ("done", info["site"]) in st.auto[-1] else self.ev(st, "done", info["site"])

    def iter_begin(self, I, st, info):
        self.outside.setdefault(info["site"], set()).update(k[0] for k in st.store if k[0][0] == "L")
        return super().iter_begin(I, st, info)

    def __init__(self, R):
        super().__init__(R)
        self.outside = {}

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q.startswith(BTQ) and self.summary:
            ps = self.params(I, node)
            if ps and ps[-1]["t"].endswith("Literal") and "optional" in node.get("t", ""):
                lit = self.vals(I, st, args)[-1]
                st = self.ev(I.write(st, I.sub(obj, S), ("call", "stack", (C(node.get("l")),)), node), "look", lit)
                return [(st.copy(), ("none",)), (self.ev(st, "conflict"), ("some", ("call", "conflict", (lit,))))]
            if ps and s == "initialize" or self.is_init(I, node):
                st = I.write(st, I.sub(obj, S), ("call", "stack", (C(node.get("l")),)), node)
                return [(self.ev(st, "initialize"), VOIDV)]
        if q == "yaga::Theory::assigned" and obj is not None:
            return [(st, ("ref", (("M", ("call", "newly assigned", ())), ())))]
        if s in ("pop_back",) and q.startswith("std::") and obj is not None and path_at(obj, W)[1]:
            return ("cont", self.ev(st, s, obj, (pl(I.read(st, obj)),)))
        if s in ("push_back", "emplace_back", "emplace", "insert", "push") and q.startswith("std::"):
            if mentions_any(self.vals(I, st, args), lambda t: isinstance(t, tuple) and t[:2] == ("call", "conflict")):
                return ("cont", self.ev(st, "kept"))
        if q == "yaga::Theory::on_before_backtrack":
            return [(self.ev(st, "base"), VOIDV)]
        if q == "yaga::Literal_map::operator[]":
            r = super().call(I, st, node, q, obj, args)
            return [(self.ev(s2, "at", v[1]) if False else s2, v) for s2, v in r]
        return super().call(I, st, node, q, obj, args)

    inits = ()

    def is_init(self, I, node):
        return node.get("f") in self.inits


def events(ev):
    out = []
    for e in ev:
        while e[0] == "in":
            e = e[2:]
        out.append(e)
    return out


def path_at(lv, field):
    """Key of the element of a map field an lvalue denotes: (key, is the element itself?)."""
    p = lv[1]
    for i, x in enumerate(p):
        if x == field:
            if i + 1 < len(p) and isinstance(p[i + 1], tuple) and p[i + 1][0] == "at":
                return p[i + 1][1], i + 2 == len(p)
            return None, i + 1 == len(p)
    return None, False


def pushes(ev, field):
    """[(key of the list, pushed value)]"""
    out = []
    for e in events(ev):
        if e[0] in ("push_back", "emplace_back") and path_at(e[1], field)[1]:
            out.append((path_at(e[1], field)[0], e[2]))
    return out


def clause_of(v):
    """Clause pointer a watch (or the arguments of its construction) carries."""
    if len(v) == 1 and v[0][0] in ("agg", "upd"):
        v = v[0]
        while v[0] == "upd":
            d = {k: x for k, x in v[2]}
            if ("clause",) in d:
                return d[("clause",)]
            v = v[1]
        if v[0] == "agg":
            return dict(v[2]).get("clause")
        return ("fld", v, "clause")
    if len(v) == 1 and v[0][0] in ("addr", "&", "ptr"):
        return v[0]
    if len(v) == 1:
        return ("fld", v[0], "clause") if v[0][0] not in ("fld",) or v[0][2] != "clause" else v[0]
    return v[0] if v else None


def index_of(p):
    """Index of the watch (in its list) whose clause p is."""
    if p is not None and p[0] == "fld" and p[1][0] == "at":
        return [p[1][2]]
    return []


def known_last(I, st, i, lst):
    return i == ("last",)


def elem_of(I, st, ptr, k):
    """k-th literal of the clause a pointer denotes, on this path."""
    lv = ptr[1] if ptr[0] in ("addr", "ref") else (("M", ptr), ())
    want = (pl(lv[0]), pl(lv[1]) + (("at", C(k)),))
    for (r, p), v in st.store.items():
        if (pl(r), pl(p)) == want:
            return pl(v)
    return pl(I.read(st, I.sub(lv, ("at", C(k)))))


def size_mask(I, st, n, field="clause"):
    """Relation of the size of the watched clause with n on this path (mask), or None."""
    m = None
    for (a, b), mm in st.rel.items():
        for x, y, m2 in ((a, b, mm), (b, a, absint.FLIP[mm])):
            if x[:2] == ("call", "size") and mentions_any(x, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[2] == field) and isint(y):
                c = cval(y)
                if c == n:
                    m = m2 if m is None else m & m2
                elif m2 & absint.GT and not m2 & LT and c >= n and not (m2 & EQ and c == n):
                    m = absint.GT if m is None else m & absint.GT
                elif not m2 & absint.GT and c <= n:
                    x2 = LT if c < n or m2 == LT else LT | EQ
                    m = x2 if m is None else m & x2
    return m


def list_scan(P, R):
    for fn in P.find(BTQ + "falsified"):
        if not fn["ps"][-1]["t"].endswith("Literal"):
            continue
        h = H(R)
        h.summary = False
        h.nest = False
        I = Interp(P, h)
        FL = ("p", fn["ps"][-1]["n"])
        L = F.loc(fn)
        outs = I.run(fn, h.start())
        R.saw(I)
        other = False
        mine = [x for x in h.ends if x[3] == 2]
        for info, st, how, lvl in mine:
            for e in events(st.auto[-1]):
                if e[0] in ("erase", "resize", "assign", "swap", "clear", "insert") and path_at(e[1], W)[1]:
                    other = True
        for info, st, how, lvl in mine:
            ev = events(st.auto[-1])
            pops = [e for e in ev if e[0] == "pop_back" and path_at(e[1], W)[1]]
            moves = pushes(st.auto[-1], W)
            units = pushes(st.auto[-1], S)
            done = any(e[0] == "done" and e[1] != info["site"] for e in ev)
            if how == "break" or other:
                continue
            R.check(len(pops) == len(moves) and len(pops) <= 1, "C17.watch", "a watch is moved, never lost or doubled", L,
                    f"a step takes {len(pops)} watches from the list of the falsified literal and adds {len(moves)} to other lists")
            R.check(not moves or not units and how == "next", "C17.watch", "a moved watch needs nothing else", L, "a clause whose watch was moved is also propagated or reported")
            lits = known_literals(st)
            for e in pops if moves else []:
                left = e[2][0]
                n, ups = left, []
                while n[0] == "upd":
                    ups += [k for k, _ in n[2]]
                    n = n[1]
                here = [i for k, v in moves for i in index_of(clause_of(v))]
                if n[0] == "at" and here and left[0] in ("upd", "at"):
                    R.check(any(u[:1] == (("at", i),) and u[1:] in ((), ("clause",)) for i in here for u in ups) or any(known_last(I, st, i, n) for i in here), "C17.watch", "the watch that moved is the one removed", L, "a watch is removed from the list, but not the one that moved")
            for key, v in moves:
                nf = nonfalse(st, key)
                R.check(nf is True, "C17.watch", "new watch is not false", L, f"the watch moves to {show(key)}, which is {'false' if nf is False else 'not known to be non-false'}")
                R.check(key != FL, "C17.watch", "new watch is another literal", L, "the watch moves to the literal it came from")
                p = clause_of(v)
                if p is not None:
                    c0, c1 = elem_of(I, st, p, 0), elem_of(I, st, p, 1)
                    if not phi(c0) and not phi(c1):
                        R.check(key in (c0, c1), "C17.watch", "watched literals come first", L, f"the clause is watched at {show(key)}, but its first two literals are {show(c0)} and {show(c1)}")
                        R.check(FL not in (c0, c1) and not eq_lit(I, st, FL, c0) and not eq_lit(I, st, FL, c1), "C17.watch", "the falsified literal is not watched any more", L, "the falsified literal stays among the first two literals of a clause whose watch moved")
                        rel = [m for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if pl(x) == FL and in_clause(pl(y))]
                        R.check(bool(rel), "C17.watch", "the falsified literal is not watched any more", L, "the clause is not searched for the falsified literal: it may stay watched while the other watch is lost")
                        R.check(c0 != c1, "C17.watch", "two different literals are watched", L, f"both first literals are {show(c0)}")
                    ws = writes(I, st, p)
                    if ws is not None:
                        R.check(sorted(map(repr, ws[0])) == sorted(map(repr, ws[1])), "C17.watch", "a clause keeps its literals", L, "the literals of a clause are changed while its watch is moved")
            if moves or how == "ret":
                continue
            sat = [l for l in lits if truth(st, l) is True and in_clause(l)]
            if sat:
                continue
            R.check(len(units) == 1, "C17.unit", "a clause with one literal left is propagated", L, f"a clause that is neither satisfied nor watched elsewhere is propagated {len(units)} times")
            for key, v in units:
                lit, reason = sat_entry(v)
                if lit is None:
                    continue
                R.check(truth(st, lit) is None, "C17.unit", "the propagated literal is unassigned", L, f"{show(lit)} is propagated, which is {truth(st, lit)}")
                R.check(in_clause(lit) and not eq_lit(I, st, FL, lit) and lit != FL, "C17.unit", "the propagated literal is the remaining one", L, f"{show(lit)} is propagated")
                R.check(mentions_any(reason, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[2] == "clause"), "C17.unit", "the reason of a propagation is the clause", L, f"the reason is {show(reason)}")
                m = size_mask(I, st, 2)
                R.check(done or m is not None and not m & absint.GT, "C17.unit", "every other literal was tried", L, "a clause is propagated without trying its other literals as watches")
        # the order of the list is kept for the watches not yet seen
        for info, st, how, lvl in mine:
            if how != "next" or other or info.get("range") is not None:
                continue
            ctr = [(k, v) for k, v in st.store.items() if k[0][0] == "L" and not k[1] and carried(v, info["site"]) is not None]
            ev = events(st.auto[-1])
            pop = any(e[0] == "pop_back" and path_at(e[1], W)[1] for e in ev)
            if len(ctr) == 1 and info["node"]["s"] in ("for", "while"):
                d = carried(ctr[0][1], info["site"])
                inc = F_has_inc(info["node"])
                if inc is None:
                    continue
                d += inc
                R.check(d == (0 if pop else 1), "C17.watch", "every watch is looked at", L, f"after a watch is {'removed' if pop else 'kept'} the scan moves on by {d}")
        n = 0
        for st, k, v in outs:
            if k != "ret":
                continue
            ev = events(st.auto[0])
            if v[0] == "none":
                sites = {i["site"] for i, *_ in mine}
                R.check(any(e[0] == "done" and e[1] in sites for e in ev), "C17.conflict", "no conflict only after all watches", L, "the scan of a watch list ends before all watches were looked at")
            elif v[0] == "some":
                n += 1
                R.check(mentions_any(v, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[2] == "clause"), "C17.conflict", "the conflict is the false clause", L, f"{show(v)[:80]} is reported")
                m1, m2 = size_mask(I, st, 1), size_mask(I, st, 2)
                if m1 == EQ or m1 is not None and not m1 & absint.GT:
                    continue
                lits = [l for l in known_literals(st) if in_clause(l)]
                fal = [l for l in lits if truth(st, l) is False and not eq_lit(I, st, FL, l)]
                R.check(bool(fal), "C17.conflict", "a conflict is a false clause", L, "a clause is reported as a conflict although its other watched literal is not false")
                R.check(not any(truth(st, l) in (True, None) and l in first_two(I, st, v) for l in lits), "C17.conflict", "a conflict is a false clause", L, "a clause with a literal that is not false is reported as a conflict")
        replacement(P, R, h, I, fn)


def carried(v, site):
    """v is the loop counter of this loop plus a constant -> the constant"""
    if v[0] == "phi" and v[1] == site:
        return 0
    if v[0] == "op" and v[1] == "+" and len(v) == 4 and v[2][0] == "phi" and v[2][1] == site and isint(v[3]):
        return cval(v[3])
    return None


def F_has_inc(n):
    inc = n.get("inc")
    if n["s"] == "while" or not inc:
        return 0
    if inc.get("e") == "un" and inc.get("op") == "++":
        return 1
    return None


def phi(v):
    return isinstance(v, tuple) and v[:1] == ("phi",)


def known_literals(st):
    out = []
    for f in st.facts:
        if f[:2] == ("call", "def"):
            l = f[2][0]
            if l[:2] == ("call", "var"):
                out += [l[2][0], neg(l[2][0])]
    return out


def in_clause(l):
    p, n = base(l)
    return not n and (p[0] == "at" and mentions_any(p, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[2] == "clause") or phi(p))


def eq_lit(I, st, a, b):
    m = I.mask(st, a, b) if a != b else EQ
    return m == EQ


def first_two(I, st, v):
    w = v[1]
    out = []
    for k in (0, 1):
        x = None
        if w[0] == "upd":
            d = {p: y for p, y in w[2]}
            x = d.get((("at", C(k)),))
        out.append(x if x is not None else ("at", w[1] if w[0] == "upd" else w, C(k)))
    return out


def sat_entry(v):
    if len(v) == 1 and v[0][0] == "agg":
        d = dict(v[0][2])
        return d.get("lit"), d.get("reason")
    if len(v) == 2:
        return v
    return None, None


def writes(I, st, ptr):
    """(initial values, final values) of the literals of a clause that were written; None when merged."""
    root = ptr[1] if ptr[0] in ("addr", "ref") else (("M", ptr), ())
    a, b = [], []
    for k, v in st.store.items():
        if pl(k[0]) == pl(root[0]) and len(k[1]) == len(root[1]) + 1 and isinstance(k[1][-1], tuple) and k[1][-1][0] == "at":
            if phi(v):
                return None
            a.append(pl(("at", ("*", ptr), k[1][-1][1])))
            b.append(pl(v))
    return a, b


def replacement(P, R, h, I, fn):
    """The search for another watch looks at every literal but the first two."""
    L = F.loc(fn)
    inner = [x for x in h.ends if x[3] >= 3]
    for info, st, how, lvl in inner:
        if how != "next":
            continue
        # the literal looked at in this iteration is known to be false
        site = info["site"]
        idx = {p[2] for p in ((base(l)[0]) for l in known_literals(st)) if p[0] == "at" and (carried(p[2], site) is not None or p[2] == site)}
        for i in idx:
            R.check(any(truth(st, l) is False for l in known_literals(st) if in_clause(l) and base(l)[0][2:] == (i,)), "C17.search", "only false literals are passed over", L, "a literal that is not false is not taken as the new watch")
        # the position the search continues at
        for k, v in st.store.items():
            if not (k[1] and k[1][-1] == "index"):
                continue
            start = ("phi", site, k)
            if v == C(2):
                m = size_plus(I, st, start)
                if m is not None:
                    R.check(not m[0], "C17.search", "the search wraps at the end", L, "the search for a new watch goes back to the start before it reaches the end of the clause")
            elif carried(v, site) is not None:
                d = carried(v, site)
                m = size_plus(I, st, start)
                R.check(d == 1, "C17.search", "no literal is passed over unseen", L, f"the search for a new watch moves on by {d}")
                if d == 1 and m is not None:
                    R.check(not m[1], "C17.search", "the search stays inside the clause", L, "the search for a new watch runs past the end of the clause")
            elif isint(v):
                R.bad("C17.search", "the search wraps to the first unwatched literal", L, f"the search for a new watch continues at literal {cval(v)}")
    for info, st in h.exits:
        if info["node"]["s"] == "range" or not any(i["site"] == info["site"] for i, *_ in inner):
            continue
        cur = [v for k, v in st.store.items() if k[1] and k[1][-1] == "index"]
        if info["node"]["s"] == "do" and cur:
            starts = [v for v in st.store.values() if v[0] == "fld" and v[2] == "index"]
            for c in cur:
                for s0 in starts:
                    m = EQ if c == s0 else I.mask(st, c, s0)
                    R.check(m == EQ, "C17.search", "the search ends where it began", L, "the search for a new watch ends before every literal was looked at")
        elif info["node"]["s"] in ("for", "while"):
            cov = I.coverage(info)
            if cov and cov[0] == "count":
                _, lo, op, hi, step, x = cov
                if isint(lo) and hi[:2] == ("call", "size") and step == 1:
                    R.check(cval(lo) <= 2 and op in ("<", "!="), "C17.search", "every other literal is tried", L, f"the search for a new watch starts at {cval(lo)}")


def size_plus(I, st, start):
    """What is known of the size of the clause against start + 1: (may be larger, may be at most that), or None"""
    rs = [(k, m) for x, y, k, m in relations(st, lambda x: x[:2] == ("call", "size")) if y == start]
    if not rs:
        return None
    big = [n for n in range(-3, 8) if n >= 2 and possible(rs, n)]       # size = start + n
    small = [n for n in range(-3, 8) if n < 2 and possible(rs, n)]
    return bool(big), bool(small)


# ---------------------------------------------------------------- lists are set up completely
def initialise(P, R):
    for fn in P.fns.values():
        if not fn["q"].startswith(BTQ) or fn["q"] == BTQ + "propagate":
            continue
        if not any(F.callee(c) == "yaga::Theory::assigned" for c in F.calls(fn.get("b"))):
            continue
        h = H(R)
        h.summary = False
        h.forget = 0
        I = Interp(P, h)
        L = F.loc(fn)
        outs = I.run(fn, h.start())
        R.saw(I)
        lists = set()
        for info, st, how, lvl in h.ends:
            rng = info.get("range")
            ev = st.auto[-1]
            if rng is None:
                continue
            db = [n for n in ("asserted", "learned") if ("call", "db." + n, ()) == rng[0][1] and not rng[1]]
            if db and how == "next":
                lists.add(db[0])
                ws, un = pushes(ev, W), pushes(ev, S)
                one = None
                for (a, b), m in st.rel.items():
                    for x, y, m2 in ((a, b, m), (b, a, absint.FLIP[m])):
                        if x[:2] == ("call", "size") and y == C(1) and mentions(x, ("call", "db." + db[0], ())):
                            one = m2
                        elif x[:2] == ("call", "size") and y == C(2) and mentions(x, ("call", "db." + db[0], ())) and one is None:
                            one = EQ if m2 == LT else absint.GT if not m2 & LT else None
                keys = [k for k, v in ws]
                idx = [k[2] for k in keys if k is not None and k[0] == "at"]
                if one == EQ:
                    R.check(len(un) == 1, "C17.init", "unit clauses are propagated", L, f"a clause of size one is propagated {len(un)} times")
                    for _, v in un:
                        lit, reason = sat_entry(v)
                        if lit is not None:
                            R.check(lit[0] == "at" and lit[2] == C(0), "C17.init", "unit clauses are propagated", L, f"{show(lit)} is propagated")
                            R.check(reason[0] == "addr" and mentions(reason, ("call", "db." + db[0], ())) or reason[0] == "ref", "C17.init", "the reason of a unit clause is the clause", L, f"the reason is {show(reason)}")
                    R.check(C(0) in idx, "C17.init", "unit clauses are watched", L, "the only literal of a clause is not watched")
                else:
                    R.check(sorted(map(repr, idx)) == sorted(map(repr, (C(0), C(1)))), "C17.init", "the first two literals are watched", L, f"a clause is watched at {[show(i) for i in idx]}")
                    R.check(not un, "C17.init", "only unit clauses are propagated", L, "a clause of several literals is propagated without looking at them")
                for k, v in ws:
                    p = clause_of(v)
                    if p is not None and p[0] in ("addr", "ref"):
                        R.check(p[1][0] == rng[0], "C17.init", "a watch points to the clause in the database", L, f"a watch points to {show(p)}")
            if rng[0] == ("M", ("call", "newly assigned", ())) and how == "next":
                un = pushes(ev, S)
                var = None
                ty = [(x, y, m) for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if x[:2] == ("call", "vtype", ) or x[:2] == ("call", "vtype")]
                isb = None
                for x, y, m in ty:
                    if y[0] == "en" and y[1].endswith("boolean"):
                        isb = True if m == EQ else False if not m & EQ else None
                        var = x[2][0]
                if isb is None:
                    continue
                R.check(len(un) == (1 if isb else 0), "C17.init", "every new Boolean assignment is propagated", L, f"a newly assigned variable is put on the stack {len(un)} times")
                for _, v in un:
                    lit, reason = sat_entry(v)
                    if lit is None:
                        continue
                    p, n = base(lit)
                    val = st.facts.get(("call", "value", (var,)))
                    if val is not None and p[:2] == ("call", "lit"):
                        R.check(p[2][0] == ("call", "ord", (var,)), "C17.init", "the literal of the assignment", L, f"{show(lit)} is put on the stack for {show(var)}")
                        R.check(val != n, "C17.init", "the literal put on the stack is true", L, "the literal put on the stack is false in the model")
        for st, k, v in outs:
            if k != "ret":
                continue
            e = st.facts.get(("call", "trail.empty", ()))
            over = {x["range"][0][1] for x, s2 in h.exits if x.get("range") is not None}
            ev = events(st.auto[0])
            done = [e2[1] for e2 in ev if e2[0] == "done"]
            if e is True:
                R.check(lists == {"asserted", "learned"}, "C17.init", "all clauses are watched", L, f"only the {'/'.join(sorted(lists)) or 'no'} clauses are watched")
        R.check(any(i.get("range") is not None and i["range"][0] == ("M", ("call", "newly assigned", ())) for i, *_ in h.ends), "C17.init", "new assignments are read from the trail", L, "new assignments are not read from the trail")


# ---------------------------------------------------------------- propagation
def propagation(P, R):
    for fn in P.find(BTQ + "propagate"):
        h = H(R)
        h.inits = {f["id"] for f in P.fns.values() if f["q"].startswith(BTQ) and any(F.callee(c) == "yaga::Theory::assigned" for c in F.calls(f.get("b")))}
        I = Interp(P, h)
        L = F.loc(fn)
        outs = I.run(fn, h.start())
        R.saw(I)
        for info, st, how, lvl in h.ends:
            if lvl != 2:
                continue
            ev = events(st.auto[-1])
            pops = [e for e in ev if e[0] in ("pop_back", "pop") and path_at(e[1], S)[1]]
            look = [e[1] for e in ev if e[0] == "look"]
            if not pops and not look:
                continue
            R.check(len(pops) <= 1 and len(look) == 1, "C17.loop", "every entry of the stack is propagated", L, f"{len(pops)} entries are taken from the stack and {len(look)} watch lists are scanned")
            sets = [e for e in ev if e[0] == "set_value"]
            tp = [e for e in ev if e[0] == "trail.propagate"]
            if not look:
                continue
            lit, n = base(look[0])
            tl = neg(look[0])          # the literal that is true
            var = ("call", "var", (lit,))
            d = st.facts.get(("call", "def", (var,)))
            rs = [(y, m) for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if x == ("null",) or x == C(None) or x == ("c", 0) and "reason" in repr(y)]
            if len(tp) == 1:
                R.check(tp[0][1] == var, "C17.loop", "the literal of the entry is assigned", L, f"{show(tp[0][1])} is propagated for the entry {show(tl)}")
                R.check("reason" in repr(tp[0][2]), "C17.loop", "the reason of the entry is recorded", L, f"the reason recorded is {show(tp[0][2])}")
                R.check(tp[0][3][:2] == ("call", "trail.decision_level"), "C17.loop", "a propagation happens at the current level", L, f"the level recorded is {show(tp[0][3])}")
                R.check(d is False, "C17.loop", "only unassigned literals are assigned", L, "a literal is propagated although it may be assigned already")
            R.check(len(tp) == len(sets) and len(tp) <= 1, "C17.loop", "a propagated literal has a value", L, f"{len(sets)} values and {len(tp)} propagations for one entry")
            for e in sets:
                ng = st.facts.get(("call", "negation", (base(tl)[0],)))
                if e[2][0] == "c" and ng is not None:
                    R.check(e[2][1] == (ng == base(tl)[1]), "C17.loop", "the propagated literal becomes true", L, "the propagated literal becomes false")
            if d is False and not tp:
                R.check(False, "C17.loop", "a derived literal is assigned", L, "an unassigned literal on the stack is not assigned") if reason_known(st) else None
            c = any(e[0] == "conflict" for e in ev)
            kept = [e for e in ev if e[0] in ("push_back", "emplace_back") and "conflict" in repr(e[2])]
        for st, k, v in outs:
            if k != "ret":
                continue
            ev = events(st.auto[0])
            R.check(any(e[0] == "initialize" for e in ev) or not h.inits, "C17.loop", "new assignments are taken up", L, "propagation starts without the new assignments")
            first = [e[0] for e in ev]
            if "initialize" in first:
                emptied = [i for i, e in enumerate(ev) if e[0] in ("clear", "assign", "swap", "resize", "erase") and path_at(e[1], S)[1]]
                other = any(S in (m.get("n"),) for f in P.fns.values() if f["q"].startswith(BTQ) and f["q"] != BTQ + "propagate"
                            for c in F.calls(f.get("b")) if F.callee(c).split("::")[-1] in ("clear", "swap", "resize", "erase", "operator=") for m in F.walk(c))
                R.check(bool(emptied) or other, "C17.loop", "nothing of an earlier propagation is left", L, "literals left on the stack by an earlier conflict are propagated later")
                cl = [i for i, e in enumerate(ev) if e[0] == "clear" and path_at(e[1], S)[1]]
                R.check(all(i < first.index("initialize") for i in cl), "C17.loop", "the stack is not dropped", L, "the stack of literals to propagate is cleared after it was filled")
        conflict_returned(R, h, outs, L)


def reason_known(st):
    for (a, b), m in st.rel.items():
        for x, y in ((a, b), (b, a)):
            if "reason" in repr(x) and x[0] == "fld" and x[2] == "reason" and y in (C(None), ("null",), C(0), ("c", "nullptr")):
                return not m & EQ
    for f, b in st.facts.items():
        if f[0] == "fld" and f[2] == "reason":
            return b
    return False


def conflict_returned(R, h, outs, L):
    """A conflict found stops the loop and is among the conflicts returned."""
    for info, st, how, lvl in h.ends:
        if lvl != 2:
            continue
        ev = events(st.auto[-1])
        if not any(e[0] == "conflict" for e in ev):
            continue
        if how in ("next", "break"):
            got = any(e[0] == "kept" for e in ev) or any(mentions_any(v, lambda t: isinstance(t, tuple) and t[:2] == ("call", "conflict")) for k, v in st.store.items() if k[0] in h.outside.get(info["site"], ()))
            R.check(got, "C17.loop", "a conflict is kept", L, "a conflict is found and dropped")


# ---------------------------------------------------------------- new clauses, decisions
def learned(P, R):
    for fn in P.find(BTQ + "on_learned_clause"):
        h = H(R)
        h.nest = False
        h.forget = 1
        I = Interp(P, h)
        L = F.loc(fn)
        cl = ("p", fn["ps"][-1]["n"])
        for st, k, v in I.run(fn, h.start()):
            if k != "ret":
                continue
            keys = [k for k, _ in pushes(st.auto[0], W)]
            rs = [(k, m) for x, y, k, m in relations(st, lambda x: x == size(cl) or pl(x) == size(cl)) if y is None]
            idx = [k[2] if k is not None and k[0] == "at" else None for k in keys]
            if any(i is None or not isint(i) for i in idx) or any(pushes(s2.auto[-1], W) for i, s2, *_ in h.ends):
                R.check(bool(idx) or bool(h.ends), "C17.learned", "a new clause is watched", L, "a new clause is not watched")
                continue
            idx = sorted(cval(i) for i in idx)
            one, more = possible(rs, 1), possible(rs, 2) or possible(rs, 3) or possible(rs, 9)
            if more:
                R.check(idx == [0, 1], "C17.learned", "a new clause is watched at two literals", L, f"a new clause is watched at {idx}")
            elif one:
                R.check(idx == [0], "C17.learned", "a new unit clause is watched", L, f"a new unit clause is watched at {idx}")
        R.saw(I)


def decisions(P, R):
    E = P.enum("yaga::Phase")
    for fn in P.find(BTQ + "decide"):
        h = H(R)
        I = Interp(P, h)
        L = F.loc(fn)
        var = ("p", fn["ps"][-1]["n"])
        for st, k, v in I.run(fn, h.start()):
            if k != "ret":
                continue
            ev = events(st.auto[0])
            isb = [m for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if x == ("call", "vtype", (var,)) and y[0] == "en" and y[1].endswith("::boolean")]
            sets, dec = [e for e in ev if e[0] == "set_value"], [e for e in ev if e[0] == "trail.decide"]
            if isb and not isb[0] & EQ:
                R.check(not sets and not dec, "C17.decide", "only Boolean variables are decided", L, "a variable of another type is decided")
                continue
            R.check(len(dec) == 1 and dec[0][1] == var, "C17.decide", "the variable asked for is decided", L, f"decides {[show(e[1]) for e in dec]}")
            R.check(len(sets) == 1 and sets[0][1] == var and ev.index(sets[0]) < ev.index(dec[0]) if dec else False, "C17.decide", "a decided variable has a value", L, "a variable is decided without a value of its own")
            ph = [y[1].split("::")[-1] for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if m == EQ and y[0] == "en" and "Phase::" in y[1]]
            if len(ph) == 1 and len(sets) == 1:
                val = sets[0][2]
                ok = val == C(ph[0] == "positive") if ph[0] in ("positive", "negative") else val[0] == "at" and val[2] == ("call", "ord", (var,)) or val[0] != "c"
                R.check(ok, "C17.decide", "phase " + ph[0], L, f"with phase {ph[0]} a variable becomes {show(val)}")
        R.saw(I)
    for fn in P.find(BTQ + "on_before_backtrack"):
        h = H(R)
        h.forget = 2
        h.nest = False
        I = Interp(P, h)
        L = F.loc(fn)
        lvl = ("p", fn["ps"][-1]["n"])
        saved = []

        def write(I2, st, node, lv, val):
            if "phase" in lv[1]:
                return h.ev(st, "phase", lv, pl(val))
        h.write = write
        outs = I.run(fn, h.start())
        for info, st, how, l in h.ends:
            rng = info.get("range")
            if rng is None or how != "next":
                continue
            isb = [m for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if x[:2] == ("call", "vtype") and y[0] == "en" and y[1].endswith("::boolean")]
            ph = [e for e in events(st.auto[-1]) if e[0] == "phase"]
            if isb and isb[0] == EQ:
                R.check(len(ph) == 1, "C17.phase", "the value of a Boolean variable is remembered", L, f"{len(ph)} phases are remembered for a variable that loses its value")
                for e in ph:
                    k = path_at(e[1], "phase")[0]
                    R.check(not show(e[2]).startswith("!"), "C17.phase", "the phase of a variable is its own value", L, f"the phase of {show(k)} becomes {show(e[2])}" if k else "a phase is negated")
                    R.check(not (e[2][0] in ("op", "un") and e[2][1] == "!"), "C17.phase", "the phase of a variable is its own value", L, f"the phase of {show(k)} becomes {show(e[2])}" if k else "a phase is negated")
                    if k is not None and e[2][:2] == ("call", "value"):
                        R.check(k == ("call", "ord", e[2][2]), "C17.phase", "the phase of a variable is its own value", L, f"the phase of {show(k)} becomes {show(e[2])}")
        for info, st in h.exits:
            if info.get("range") is None:
                c = I.coverage(info)
                if c and c[0] == "count":
                    _, lo, op, hi, step, x = c
                    cur = lo[:2] == ("call", "trail.decision_level")
                    if step == -1 and cur and hi == lvl:
                        R.check(op in (">", "!="), "C17.phase", "all retracted levels", L, "the phases of a level that stays are changed, or of one that goes are not")
        for st, k, v in outs:
            if k == "ret":
                R.check(any(e[0] == "base" for e in events(st.auto[0])), "C17.init", "after a retraction the trail is read again", L, "the position on the trail is not reset on a retraction")
        R.saw(I)


def check(P, R):
    R.rule("C17.watch", "a watch whose literal became false moves to a literal that is not false, or stays; none is lost, doubled or passed over")
    R.rule("C17.unit", "a clause that cannot be watched elsewhere and is not satisfied has its remaining literal propagated, with the clause as reason")
    R.rule("C17.conflict", "a conflict is a clause all of whose literals are false; no conflict means all watches were looked at")
    R.rule("C17.search", "the search for a new watch looks at every literal that is not watched")
    R.rule("C17.init", "when the trail is empty all clauses are watched at their first two literals and unit clauses propagated; new Boolean assignments are taken up with the literal that is true")
    R.rule("C17.loop", "every entry of the stack is assigned when it is not yet, at the current level with its reason, and its negation's watch list is scanned; conflicts are returned")
    R.rule("C17.learned", "a learned clause is watched at its first two literals")
    R.rule("C17.decide", "a decision gives exactly the variable asked for a value of the configured phase")
    R.rule("C17.phase", "a retraction remembers the values of all Boolean variables it retracts")
    list_scan(P, R)
    initialise(P, R)
    propagation(P, R)
    learned(P, R)
    decisions(P, R)
    R.need(4, "C17.watch")
    R.need(3, "C17.unit")
    R.need(2, "C17.conflict")
    R.need(2, "C17.init")
    R.need(3, "C17.loop")
    R.need(1, "C17.learned")
    R.need(2, "C17.decide")
