"""C25: simplification keeps the meaning of learned clauses."""
import facts as F
from evlib import *
from r_c15 import subterms

SQ = "yaga::Subsumption::"
EXPLANATION = ("The subset tests are analysed for generic clauses: on every path with a positive answer each literal of the first clause was found in the set, and the set has only literals of the second. "
               "Removal of literals and clauses is decided per path by the facts required for it, and the clauses compared on a restart by the ranges of the index and of the queries.")
ASSUMPTIONS = ["reasons on the trail contain the literal they propagate (C05, C17)", "Literal_map has separate entries for different literals"]

WHAT = {
    "subset": "a clause is included in another only if all its literals were found there",
    "set-fresh": "the set of literals starts empty",
    "set-exact": "the set has the literals of the second clause, and no others",
    "found": "inclusion is denied only for a reason",
    "signature": "the signature of a clause includes the signatures of its literals",
    "minimize": "only false literals whose reason is otherwise included in the clause are removed",
    "index-fresh": "the index starts empty",
    "index-all": "the index lists every clause under each of its literals",
    "removed": "only other clauses that include the clause are removed",
    "queried": "all clauses listed under a literal of the clause are looked at",
    "pairs": "new clauses are compared with all learned clauses on a restart",
    "erased": "only removed learned clauses are erased from the database",
    "old": "clauses that were compared are old on the next restart",
    "resized": "the index and the set cover all Boolean variables",
}


class H(Core):
    nest = False
    flat_unrolled = True
    skip_asserts = True
    merge_limit = 300

    def __init__(self, top):
        super().__init__(None)
        self.top = top
        self.preds = []
        self.loops = []

    def watched_container(self, I, obj):
        return "any"

    def iter_begin(self, I, st, info):
        st = super().iter_begin(I, st, info)
        return self.ev(st, "old", tuple(sorted(st.store.items(), key=repr)))

    def iter_end(self, I, st, info, how):
        st = super().iter_end(I, st, info, how)
        return self.ev(st, "broke", info["site"]) if how == "break" else st

    def loop_exit(self, I, st, info):
        super().loop_exit(I, st, info)
        self.loops.append((info, I))
        return self.ev(st, "loop", info["site"])

    def searched(self, I, st, name, cont, found, site):
        return self.ev(st, "search", name, found, pl(I.read(st, cont)), site)

    def predicate(self, I, st, q, args, v, n):
        self.preds.append((q.split("::")[-1], args, v, st.copy()))

    def write(self, I, st, node, lv, val):
        e = elem_lv(lv)
        if e is not None:
            return self.ev(st, "bit", pl(e), pl(val))
        return None

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q == "yaga::Literal::operator=" and obj is not None and len(args) == 1:
            return [(I.write(st, obj, pl(I.val(st, args[0])), node), ("ref", obj))]
        if q == "yaga::Literal_map::assign" and obj is not None:
            return [(self.ev(st, "reset", pl(I.val(st, args[0]))), VOIDV)]
        if q == "yaga::Literal_map::resize" and obj is not None:
            return [(self.ev(st, "resize", obj, self.vals(I, st, args)), VOIDV)]
        if s in ("fill", "__fill_fn", "operator()") and q.startswith("std::") and args and mentions_any(I.val(st, args[0]), lambda t: t == "lit_bitset"):
            return [(self.ev(st, "reset", pl(I.val(st, args[-1]))), VOIDV)]
        if q.startswith(SQ) and q != self.top or q.startswith(SQ) and self.params(I, node) != self.top_params:
            vs = tuple(self.clause_val(I, st, a) for a in args)
            if s == "make_proxy":
                return [(st, ("call", "proxy", vs))]
            if s == "Clause_ptr" and len(vs) == 2:
                return None
            if s in ("subsumes", "selfsubsumes"):
                return [(s2, C(b)) for s2, b in I.split(st, ("call", s, vs))]
            if s == "index":
                return [(self.ev(st, "index", *vs), VOIDV)]
            if s == "remove_subsumed" and len(vs) == 1:
                return [(self.ev(st, "query" if "Clause_ptr" in str(self.params(I, node)[0]["t"]) else "all", *vs), VOIDV)]
            if q.startswith(SQ + "Clause_ptr::") and obj is not None:
                me = ptr_of(pl(I.read(st, obj)))
                if s in ("operator->", "operator*"):
                    lv = me[1] if me[0] in ("addr", "ref") else (("M", ("clause", me)), ())
                    return [(st, ("ref", lv))]
                if s == "sig":
                    return [(st, ("call", "sig", (me,)))]
                if s in ("operator==", "operator!=") and len(args) == 1:
                    return [(st, I.cmp("==" if s == "operator==" else "!=", me, ptr_of(pl(I.val(st, args[0])))))]
        if q == "yaga::Trail::reason":
            vs = self.vals(I, st, args)
            return [(st, ("ptr", (("M", ("call", "reason", vs)), ())) if False else ("call", "reason", vs))]
        return super().call(I, st, node, q, obj, args)

    def clause_val(self, I, st, a):
        if a[0] == "ref" and a[1] is not None and (a[1][0][0] == "M" or a[1][1]):
            return ("ref", (pl(a[1][0]), pl(a[1][1]))) if a[1][0][0] == "M" else pl(I.val(st, a))
        return pl(I.val(st, a))


def ptr_of(v):
    """what a proxy points to"""
    if v[:2] == ("call", "proxy"):
        return v[2][0]
    if v[:1] == ("agg",):
        d = dict(v[2])
        if "clause_ptr" in d:
            return d["clause_ptr"]
    return v


def elem_lv(lv):
    """literal whose entry of the literal set the location is"""
    p = lv[1]
    for i, x in enumerate(p):
        if x == "lit_bitset" and i + 1 < len(p) and isinstance(p[i + 1], tuple) and p[i + 1][0] == "at":
            return p[i + 1][1]
    return None


def run(P, R, q, want=None):
    for fn in P.find(q):
        if not fn.get("b") or want and not want(fn):
            continue
        h = H(q)
        h.top_params = fn["ps"]
        I = Interp(P, h)
        outs = I.run(fn, h.start())
        if R:
            R.saw(I)
        yield fn, h, I, outs


def chk(R, fn, cond, rule, detail):
    return R.check(cond, "C25." + rule, WHAT[rule], F.loc(fn), detail)


def of(v, cont):
    """is v an element of the container?"""
    return isinstance(v, tuple) and v[:1] == ("at",) and pl(v[1]) == cont


def base_of(v):
    """container of an element"""
    return pl(v[1]) if isinstance(v, tuple) and v[:1] == ("at",) else None


def events(evs):
    return [e for e in evs if e[0] != "old"]


def member(st, x, lit):
    """x is known to be in the set (or to be the literal)"""
    for f, b in st.facts.items():
        if b and f[0] == "at" and mentions_any(f[1], lambda t: t == "lit_bitset") and pl(f[2]) == x:
            return True
    for (a, b), m in st.rel.items():
        if m == EQ and lit is not None and {pl(a), pl(b)} == {x, lit}:
            return True
    return any(e[0] == "search" and e[3] == x and (e[1] == "find") == e[2] for e in events(st.auto[-1]))


def absent(st, x):
    return any(not b and f[0] == "at" and mentions_any(f[1], lambda t: t == "lit_bitset") and pl(f[2]) == x for f, b in st.facts.items())


def inclusion(P, R, name):
    """a positive answer means that all literals of first were found"""
    for fn, h, I, outs in run(P, R, SQ + name):
        ps = [("p", p["n"]) for p in fn["ps"]]
        lit = ps[2] if len(ps) > 2 else None
        cl = [p if lit is not None else ("*", ("clause", p)) for p in ps[:2]]
        first, second = pl(cl[0]), pl(cl[1])
        good, full = set(), {}
        for info, J in h.loops:
            cov = J.coverage(info)
            full[info["site"]] = cov
        elems = {}
        for info, st, how, l in h.ends:
            evs = events(st.auto[-1])
            el = {x for f in list(st.facts) + evs for x in subterms(f) if isinstance(x, tuple) and x[:1] == ("at",) and base_of(x) in (first, second)}
            mine = [x for x in el if pl(x[1]) == first and info["site"] in (x[2], x[2][0] if isinstance(x[2], tuple) else None) or pl(x[1]) == first]
            for e in evs:
                if e[0] == "bit" and e[2] != C(False):
                    chk(R, fn, pl(e[1])[:1] == ("at",) and base_of(pl(e[1])) == second or lit is not None and e[1] == lit, "set-exact", f"{show(e[1])} is put into the set")
            elems.setdefault(info["site"], []).append((how, st, evs, mine))
        # loops that fill the set
        fills = [s for s, l in elems.items() if any(e[0] == "bit" for _, _, evs, _ in l for e in evs)]
        for s in fills:
            for how, st, evs, _ in elems[s]:
                chk(R, fn, how == "next" and any(e[0] == "bit" and e[2] == C(True) and base_of(pl(e[1])) == second for e in evs), "set-exact", "a literal of the second clause is left out")
            for info, J in h.loops:
                if info["site"] == s:
                    idx = {pl(e[1])[2] for _, _, evs, _ in elems[s] for e in evs if e[0] == "bit" and base_of(pl(e[1])) == second}
                    for i in idx:
                        if i in (("any", s), ("elem", s)):
                            i = s
                        chk(R, fn, covered(J, None, info, i, second) is not False and range_ok(J, info, second), "set-exact", "not all literals of the second clause are put into the set")
        n_true = 0
        for st, k, v in outs:
            evs = events(st.auto[0])
            if k != "ret":
                continue
            for e in evs:
                if e[0] == "bit" and e[2] != C(False):
                    chk(R, fn, pl(e[1])[:1] == ("at",) and base_of(pl(e[1])) == second or lit is not None and e[1] == lit, "set-exact", f"{show(e[1])} is put into the set")
            if v == C(True):
                n_true += 1
                ok = False
                for e in evs:
                    if e[0] == "search" and e[1] == "all_of" and not e[2] and pl(e[3]) == first or e[0] == "search" and e[1] in ("any_of", "none_of", "find_if") and not e[2] and pl(e[3]) == first:
                        good_preds = True
                        for q, a, pv, ps_ in h.preds:
                            x = pl(I.val(ps_, a[0]))
                            if base_of(x) != first:
                                continue
                            holds = pv == C(True) if e[1] == "all_of" else pv == C(False)
                            if holds:
                                good_preds &= member(ps_, x, lit)
                            elif pv not in (C(True), C(False)):
                                if e[1] != "all_of":
                                    pv = pv[2] if pv[:2] == ("op", "!") and len(pv) == 3 else ("?",)
                                good_preds &= pv[0] == "at" and pl(pv[2]) == x
                        ok |= good_preds
                    if e[0] == "loop" and e[1] in elems or e[0] == "loop" and e[1] in full:
                        l = elems.get(e[1], [])
                        if all(how != "next" or mine and all(member(s2, x, lit) for x in mine) for how, s2, _, mine in l) and l \
                                and ("broke", e[1]) not in evs and all(range_ok(J, i2, first) for i2, J in h.loops if i2["site"] == e[1]):
                            ok = True
                chk(R, fn, ok, "subset", "a path answers yes although not every literal of the first clause was found")
                if fills or any(e[0] in ("reset", "bit") for e in evs):
                    first_use = next((i for i, e in enumerate(evs) if e[0] == "bit" or e[0] == "loop" and e[1] in fills), None)
                    resets = [i for i, e in enumerate(evs) if e[0] == "reset"]
                    chk(R, fn, resets and (first_use is None or resets[-1] < first_use) and all(evs[i][1] == C(False) for i in resets), "set-fresh", "the set may contain literals of an earlier clause")
                    if lit is not None:
                        chk(R, fn, any(e[0] == "bit" and e[1] == lit and e[2] == C(True) for e in evs) or any(True for _, l in elems.items() for how, s2, ev2, mine in l for x in mine
                            for (a, b), m in s2.rel.items() if lit in (pl(a), pl(b))), "set-exact", "the literal that is resolved is not in the set")
                    chk(R, fn, any(e[0] == "loop" and e[1] in fills for e in evs), "set-exact", "the literals of the second clause are not put into the set")
            elif v == C(False):
                why = any(absent(st, x) for f in st.facts for x in subterms(f) if isinstance(x, tuple) and x[:1] == ("at",) and base_of(x) == first)
                why |= any(e[0] == "search" and pl(e[3]) == first for e in evs) or any(e[0] == "broke" for e in evs)
                why |= any(e[0] == "search" and pl(e[3]) == second for e in evs)
                a, b = size(first), size(second)
                for (x, y), m in st.rel.items():
                    x, y = pl(x), pl(y)
                    if (y, x) == (a, b):
                        x, y, m = y, x, absint.FLIP[m]
                    if (x, y) == (a, b) and not m & LT and (lit is None or m == absint.GT):
                        why = True
                    if y == C(0) and x[:2] == ("op", "&") and m & EQ == 0 and lit is None:
                        ops = x[2:4]
                        sg = [("call", "sig", (p,)) for p in ps[:2]]
                        if ops in ((sg[0], ("op", "~", sg[1])), (("op", "~", sg[1]), sg[0])):
                            why = True
                    if lit is None and m & EQ == 0 and {x, y} & {("op", "&", ("call", "sig", (ps[0],)), ("call", "sig", (ps[1],))), ("op", "&", ("call", "sig", (ps[1],)), ("call", "sig", (ps[0],)))} and ("call", "sig", (ps[0],)) in (x, y):
                        why = True
                    if lit is None and m & EQ == 0 and {x, y} & {("op", "|", ("call", "sig", (ps[0],)), ("call", "sig", (ps[1],))), ("op", "|", ("call", "sig", (ps[1],)), ("call", "sig", (ps[0],)))} and ("call", "sig", (ps[1],)) in (x, y):
                        why = True
                chk(R, fn, why, "found", f"the answer is no although the first clause may be included: {'; '.join(show(x) + ' ? ' + show(y) for x, y in st.rel)[:200]}")
        chk(R, fn, n_true > 0, "found", "the answer is never yes")


def range_ok(I, info, cont):
    """the loop goes over the whole container (as far as the shape is known)"""
    if info.get("partial"):
        return False
    cov = I.coverage(info)
    if cov is None:
        return True
    if cov[0] == "range":
        return pl(cov[2]) == cont if cov[2] is not None else True
    _, lo, op, hi, step, x = cov
    idx = info["site"] if lo[0] == "it" else x
    if lo[0] == "it" and pl(("*", lo[1][0][1])) != cont and pl(lo[1][0][1]) != cont:
        return False
    return all(covered(I, None, info, idx, c) is not False for c in (cont, ("*", cont)))


def proxies(P, R):
    for fn, h, I, outs in run(P, R, SQ + "make_proxy"):
        cl = ("p", fn["ps"][0]["n"])
        for st, k, v in outs:
            d = dict(v[2]) if v[:1] == ("agg",) else {}
            sig = d.get("clause_sig")
            if sig is None:
                continue
            chk(R, fn, ptr_of(v) in (cl, ("ref", (("M", cl), ()))), "signature", "the proxy names another clause")
            steps = 0
            for info, s2, how, l in h.ends:
                old = dict(next((e[1] for e in s2.auto[-1] if e[0] == "old"), ()))
                for key, x in s2.store.items():
                    o = old.get(key)
                    if o is None or o == x or o != C(0) and not (isinstance(o, tuple) and o[:1] == ("phi",)):
                        continue
                    if key[0] == sig[2][0] if sig[:1] == ("phi",) else True:
                        steps += 1
                        parts = [x[2], x[3]] if x[:2] == ("op", "|") and len(x) == 4 else []
                        mine = [y for y in parts if y != o]
                        chk(R, fn, len(mine) == 1 and o in parts or x[:2] == ("op", "|") and o in list(subterms(x)) and all(y[1] == "|" for y in subterms(x) if isinstance(y, tuple) and y[:1] == ("op",) and o in y), "signature", f"a literal changes the signature to {show(x)}")
                        for y in mine:
                            locs = [t for t in subterms(y) if isinstance(t, tuple) and t[:1] in (("phi",), ("L",), ("fresh",))]
                            chk(R, fn, not locs, "signature", "the bit of a literal depends on more than the literal")
                chk(R, fn, how == "next", "signature", "not all literals are part of the signature")
            chk(R, fn, steps > 0 and all(range_ok(J, info, ("*", cl)) or range_ok(J, info, cl) for info, J in h.loops), "signature", "not all literals are part of the signature")


def minimized(P, R):
    for fn, h, I, outs in run(P, R, SQ + "minimize"):
        cl = ("p", fn["ps"][1]["n"])

        def justified(st, x):
            p, n = base(x)
            r = ("call", "reason", (("call", "var", (p,)),))
            if truth(st, x) is not False:
                return f"{show(x)} is not known to be false"
            if st.facts.get(r) is not True and not any(r in (a, b) and (C(None) in (a, b) or C(0) in (a, b)) and not m & EQ for (a, b), m in st.rel.items()):
                return f"{show(x)} may have no reason"
            for f, b in st.facts.items():
                if b and f[:2] == ("call", "selfsubsumes"):
                    a = f[2]
                    if a[2] == neg(x) and r in list(subterms(a[0])) and cl in list(subterms(a[1])):
                        return None
            return f"the reason of {show(x)} is not known to be included in the clause"
        n = 0
        for q, a, v, st in h.preds:
            if not a:
                continue
            x = pl(I.val(st, a[0]))
            if base_of(x) != cl or v == C(False):
                continue
            if v == C(True):
                n += 1
                w = justified(st, x)
                chk(R, fn, w is None, "minimize", w)
            else:
                chk(R, fn, False, "minimize", f"{show(x)} is removed when {show(v)}")
        for st, k, v in outs:
            for e in events(st.auto[0]):
                if e[0] == "erase" and n:
                    a = e[2]
                    chk(R, fn, len(a) == 2 and a[0][0] == "it" and a[0][2][0] in ("remove_if", "__remove_if_fn") and a[1][0] == "it" and a[1][2] == ("e", 0) or len(a) == 1, "minimize", f"the literals erased are not those found redundant")
                if e[0] in ("pop_back", "clear", "resize") and n and "erase" not in [y[0] for y in events(st.auto[0])]:
                    chk(R, fn, False, "minimize", "literals are removed without a check")
            if n:
                chk(R, fn, any(e[0] in ("erase", "erase_if") or e[0] == "resize" for e in events(st.auto[0])) or not any(q == "remove_if" for q, *_ in h.preds), "minimize", "redundant literals are moved but not erased")


def indexed(P, R):
    for fn, h, I, outs in run(P, R, SQ + "index"):
        lo, hi = ("p", fn["ps"][0]["n"]), ("p", fn["ps"][1]["n"])
        clears, adds, outer = set(), set(), set()
        for info, st, how, l in h.ends:
            evs = events(st.auto[-1])
            for e in evs:
                if e[0] == "clear" and "occur" in e[1][1]:
                    clears.add(info["site"])
                if e[0] in ("push_back", "emplace_back"):
                    adds.add(info["site"])
                    key = path_key(e[1], "occur")
                    c = base_of(key) if key is not None else None
                    own = e[2][0][2][0] if e[2] and e[2][0][:2] == ("call", "proxy") else None
                    target = ("*", own[1][0][1]) if own and own[0] == "ref" else own
                    chk(R, fn, c is not None and (pl(c) == pl(target) or own is not None and c in list(subterms(own)) or own is not None and own[0] == "ref" and pl(own[1][0][1]) == c), "index-all", f"the clause listed under {show(key)} is {show(own)}")
        for info, st, how, l in h.ends:
            evs = events(st.auto[-1])
            if info["site"] in adds:
                chk(R, fn, how == "next" and sum(e[0] in ("push_back", "emplace_back") for e in evs) == 1, "index-all", "a clause is not listed (once) under each of its literals")
            if info["site"] in clears:
                chk(R, fn, how == "next" and any(e[0] == "clear" for e in evs), "index-fresh", "a list is not cleared")
            if any(e[0] == "loop" and e[1] in adds for e in evs):
                outer.add(info["site"])
        for info, st, how, l in h.ends:
            if info["site"] in outer:
                chk(R, fn, how == "next" and any(e[0] == "loop" and e[1] in adds for e in events(st.auto[-1])), "index-all", "a clause is left out of the index")
        for info, J in h.loops:
            cov = J.coverage(info)
            if info["site"] in outer and cov and cov[0] == "count":
                chk(R, fn, cov[1] == lo and cov[3] == hi and cov[4] == 1 and cov[2] in ("!=", "<"), "index-all", "not all clauses of the range are listed")
            if info["site"] in adds | clears and info["site"] not in outer:
                chk(R, fn, not info.get("partial") and (cov is None or cov[0] == "range" or covered(J, None, info, info["site"] if cov[1][0] == "it" else cov[5], ("?",)) is not False),
                    "index-all" if info["site"] in adds else "index-fresh", "not all elements are visited")
        for st, k, v in outs:
            evs = events(st.auto[0])
            c = [i for i, e in enumerate(evs) if e[0] == "loop" and e[1] in clears or e[0] == "clear" or e[0] == "assign" or e[0] == "reset"]
            a = [i for i, e in enumerate(evs) if e[0] == "loop" and e[1] in outer]
            chk(R, fn, c and (not a or min(c) < min(a)), "index-fresh", "clauses listed before stay in the index")
            chk(R, fn, bool(a), "index-all", "no clause is listed")


def path_key(lv, field):
    p = lv[1]
    for i, x in enumerate(p):
        if x == field and i + 1 < len(p) and isinstance(p[i + 1], tuple) and p[i + 1][0] == "at":
            return p[i + 1][1]
    return None


def queries(P, R):
    for fn, h, I, outs in run(P, R, SQ + "remove_subsumed", lambda f: "Clause_ptr" in f["ps"][0]["t"]):
        me = ("p", fn["ps"][0]["n"])
        own = ("*", ("clause", me))
        n = 0
        for info, st, how, l in h.ends:
            evs = events(st.auto[-1])
            subs = [f for f, b in st.facts.items() if f[:2] == ("call", "subsumes") and b and f[2][0] == me]
            dels = [e for e in evs if e[0] == "clear"]
            for e in dels:
                n += 1
                r = e[1][0]
                other = r[1][1] if r[0] == "M" and isinstance(r[1], tuple) and r[1][:1] == ("clause",) else None
                if other is None:
                    continue
                chk(R, fn, any(pl(f[2][1]) == pl(other) for f in subs), "removed", f"{show(other)} is removed although it may not include the clause")
                diff = any({pl(a), pl(b)} == {pl(other), me} and not m & EQ for (a, b), m in st.rel.items())
                chk(R, fn, diff, "removed", "the clause itself is removed")
                chk(R, fn, any(pl(a) == size(pl(own)) and b == C(0) and not m & EQ or pl(b) == size(pl(own)) and a == C(0) and not m & EQ for (a, b), m in st.rel.items()), "removed", "an empty clause (removed before) removes others")
                lst = base_of(pl(other))
                key = base_key(lst)
                if key is not None and not (isinstance(key, tuple) and key[:1] == ("phi",)):
                    chk(R, fn, base_of(key) == pl(own), "queried", f"the clauses listed under {show(key)} are looked at, which may not be a literal of the clause")
            for f in subs:
                other = pl(f[2][1])
                diff = any({pl(a), pl(b)} == {other, me} and not m & EQ for (a, b), m in st.rel.items())
                if diff and base_of(other) is not None:
                    chk(R, fn, any(pl(e[1][0][1]) == ("clause", other) for e in dels), "queried", "a clause that includes the clause is kept")
            if any("occur" in repr(info.get("range", "")) for _ in (0,)) or dels:
                chk(R, fn, how == "next", "queried", "the search stops early")
        # the literal whose list is searched
        for info, st, how, l in h.ends:
            old = dict(next((e[1] for e in st.auto[-1] if e[0] == "old"), ()))
            for key, x in st.store.items():
                o = old.get(key)
                if key[0][0] == "L" and not key[1] and o is not None and o != x and isinstance(o, tuple) and (base_of(o) == pl(own) or o[:1] == ("phi",)) and lit_local(h, key, own):
                    chk(R, fn, base_of(x) == pl(own), "queried", f"the list searched is that of {show(x)}, which may not be a literal of the clause")
        for info, J in h.loops:
            cov = J.coverage(info)
            if cov and cov[0] == "range" and "occur" in repr(cov[1]):
                chk(R, fn, not info.get("partial"), "queried", "not all clauses listed are looked at")
                k = base_key(pl(cov[2])) if cov[2] is not None else None
        for st, k, v in outs:
            evs = events(st.auto[0])
            empty = any(pl(a) == size(pl(own)) and b == C(0) and m == EQ or pl(b) == size(pl(own)) and a == C(0) and m == EQ for (a, b), m in st.rel.items())
            chk(R, fn, empty or any(e[0] == "loop" and any(i["site"] == e[1] and "occur" in repr(J.coverage(i) or i.get("range")) for i, J in h.loops) for e in evs), "queried", "a clause is compared with no other")
        chk(R, fn, n > 0, "removed", "no clause is ever removed")


def base_key(lst):
    """literal of an occurrence list"""
    if isinstance(lst, tuple) and lst[:1] == ("at",) and mentions_any(lst[1], lambda t: t == "occur"):
        return pl(lst[2])
    return None


def lit_local(h, key, own):
    """a local that starts as a literal of the clause"""
    return any(base_of(dict(next((e[1] for e in st.auto[-1] if e[0] == "old"), ())).get(key)) == pl(own) for _, st, _, _ in h.ends)


def restart(P, R):
    LEARNED = (("M", ("call", "db.learned", ())), ())
    B, E = ("it", LEARNED, ("b", 0)), ("it", LEARNED, ("e", 0))

    def name(v, I=None):
        v = pl(v)
        if v == B:
            return "begin"
        if v == E:
            return "end"
        if v[0] == "it" and v[1] == LEARNED and isinstance(v[2], tuple) and v[2][0] == "i" and mentions_any(v[2][1], lambda t: t == "old_size"):
            return "old"
        if mentions_any(v, lambda t: t == "old_size") and B in list(subterms(v)) and ("+" in repr(v) or "next" in repr(v)) and not any(isint(t) and cval(t) != 0 for t in subterms(v) if isinstance(t, tuple) and t[:1] == ("c",) and isinstance(t[1], int) and t is not None and t != ("b", 0)):
            return "old"
        return None

    for fn, h, I, outs in run(P, R, SQ + "remove_subsumed", lambda f: "Database" in f["ps"][0]["t"]):
        loops = {}
        for info, J in h.loops:
            cov = J.coverage(info)
            if cov is None:
                continue
            if cov[0] == "range":
                loops[info["site"]] = ("begin", "end") if pl(cov[2]) == pl(("*", LEARNED[0][1])) and not info.get("partial") else None
            elif cov[4] == 1 and cov[2] in ("!=", "<"):
                lo, hi = name(cov[1]), name(cov[3])
                if lo is None and isint(cov[1]) and cval(cov[1]) == 0:
                    lo = "begin"
                if lo is None and cov[1] == ("fld", ("*", THIS), "old_size"):
                    lo = "old"
                if hi is None and pl(cov[3]) == size(pl(("*", LEARNED[0][1]))):
                    hi = "end"
                loops[info["site"]] = (lo, hi)
        asks = {}
        for info, st, how, l in h.ends:
            q = [e for e in events(st.auto[-1]) if e[0] == "query"]
            if q or info["site"] in asks:
                asks.setdefault(info["site"], True)
                ok = len(q) >= 1 and how == "next" and all(mentions_any(e[1], lambda t: t == ("call", "db.learned", ()) or isinstance(t, tuple) and t[:1] == ("phi",) and t[1] == info["site"]) for e in q)
                # a clause may be skipped when it is empty
                if not q and how == "next":
                    ok = any(a[:2] == ("call", "size") and b == C(0) and m == EQ for (a, b), m in st.rel.items())
                asks[info["site"]] &= ok
        for q, a, v, st in h.preds:
            x = pl(I.val(st, a[0])) if a else None
            if not mentions_any(v, lambda t: t == "size") and v not in (C(True), C(False)):
                continue
            empty = v[0] == "cmp" and v[1] == "==" and C(0) in v[2:] and any(y[:2] == ("call", "size") for y in v[2:]) or v[:2] == ("call", "empty")
            if v == C(True):
                empty = any(m == EQ and {b} == {C(0)} and a2[:2] == ("call", "size") for (a2, b), m in st.rel.items())
            chk(R, fn, empty or v == C(False), "erased", f"a clause is erased when {show(v)}")
        for st, k, v in outs:
            evs = events(st.auto[0])
            cur, pairs = None, set()
            for e in evs:
                if e[0] == "index":
                    cur = (name(e[1]), name(e[2]))
                elif e[0] in ("erase", "clear", "pop_back", "push_back") and "db.learned" in repr(e[1]):
                    cur = None
                elif e[0] == "loop" and e[1] in asks:
                    chk(R, fn, cur is not None, "pairs", "clauses are looked up in an index that is not there or out of date")
                    if cur is not None and loops.get(e[1]) and asks[e[1]]:
                        part = {("begin", "old"): {"O"}, ("old", "end"): {"N"}, ("begin", "end"): {"O", "N"}}
                        pairs |= {(x, y) for x in part.get(cur, ()) for y in part.get(loops[e[1]], ())}
            for need, what in ((("O", "N"), "old clauses that include a new one are not found"), (("N", "O"), "new clauses that include an old one are not found"), (("N", "N"), "new clauses that include a new one are not found")):
                chk(R, fn, need in pairs, "pairs", what)
            er = [e for e in evs if e[0] == "erase" and "db.learned" in repr(e[1])]
            for e in er:
                a = e[2]
                chk(R, fn, len(a) == 2 and a[0][0] == "it" and a[0][2][0] in ("remove_if", "__remove_if_fn") and a[1] == E or len(a) == 1, "erased", "the clauses erased are not the removed ones")
            chk(R, fn, not any("db.asserted" in repr(e) for e in evs), "erased", "asserted clauses are changed")
            chk(R, fn, bool(er) or not any(q == "remove_if" for q, *_ in h.preds), "erased", "removed clauses stay in the database")
            val = pl(I.read(st, (THIS_LV, ("old_size",))))
            now = size(pl(I.read(st, LEARNED)))
            chk(R, fn, val == now, "old", f"the number of old clauses is {show(val)[:150]}, not the number of learned clauses left")
    for fn, h, I, outs in run(P, R, SQ + "on_restart"):
        for st, k, v in outs:
            chk(R, fn, any(e[0] == "all" for e in st.auto[0]), "pairs", "clauses are not compared on a restart")


THIS_LV = ("M", THIS)


def resized(P, R):
    for fn, h, I, outs in run(P, R, SQ + "on_variable_resize"):
        t, n = [("p", p["n"]) for p in fn["ps"]]
        for st, k, v in outs:
            m = next((m for (a, b), m in st.rel.items() if a == t and "boolean" in repr(b)), LT | EQ | absint.GT)
            if not m & EQ:
                continue
            for f in ("occur", "lit_bitset"):
                chk(R, fn, any(e[0] == "resize" and f in e[1][1] and e[2][:1] == (n,) for e in st.auto[0]), "resized", f"{f} is not resized to the number of Boolean variables")


def check(P, R):
    inclusion(P, R, "subsumes")
    inclusion(P, R, "selfsubsumes")
    proxies(P, R)
    minimized(P, R)
    indexed(P, R)
    queries(P, R)
    restart(P, R)
    resized(P, R)
    for r in WHAT:
        R.need(1, "C25." + r)
