"""C26: the search can pick every unassigned variable."""
import facts as F
from evlib import *
from r_c15 import subterms

GQ, EQ_, FQ, PQ = "yaga::Generalized_vsids::", "yaga::Evsids::", "yaga::First_unassigned::", "yaga::Variable_priority_queue::"
EXPLANATION = ("Every path of the variable orders is analysed with symbolic trails and queues: which variables are returned, when none is, and which are taken from and put into the queue.")
ASSUMPTIONS = ["the trail lists all variables assigned at a level (C05, C06)", "scores are not negative", "the priority queue has the variables pushed and not popped, and top is one of them"]

WHAT = {
    "picked-unassigned": "only unassigned variables are picked",
    "none-left": "no variable is picked only when all are assigned",
    "dropped": "only assigned variables leave the queue",
    "new-queued": "new variables are put into the queue",
    "undone-queued": "variables whose assignment is undone are put into the queue again",
    "queued-once": "a variable is put into a queue only if it is not there",
    "queue-contains": "the queue answers which variables it has",
    "forwarded": "a combination of orders tells all of them what happens",
    "tried": "a combination of orders picks what one of them picks and nothing only if none of them picks",
}


class H(Core):
    nest = False
    flat_unrolled = True
    skip_asserts = True
    merge_limit = 300
    queue = False

    def __init__(self, top, top_params):
        super().__init__(None)
        self.top, self.top_params = top, top_params
        self.loops = []
        self.infos = {}

    def watched_container(self, I, obj):
        return "any"

    def iter_begin(self, I, st, info):
        st = super().iter_begin(I, st, info)
        self.infos[info["site"]] = info
        return self.ev(st, "old", tuple(sorted(st.store.items(), key=repr)))

    def iter_end(self, I, st, info, how):
        st = super().iter_end(I, st, info, how)
        return self.ev(st, "broke", info["site"]) if how == "break" else st

    def loop_exit(self, I, st, info):
        super().loop_exit(I, st, info)
        self.loops.append((info, I))
        return self.ev(st, "loop", info["site"])

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q == "ctor:yaga::Variable" and len(args) == 2:
            vs = self.vals(I, st, args)
            return [(st, ("call", "V", vs))]
        if q.startswith("yaga::Variable::") and obj is not None and s in ("ord", "type"):
            me = pl(I.read(st, obj))
            if me[:2] == ("call", "V"):
                return [(st, me[2][0 if s == "ord" else 1])]
            if me[:1] == ("agg",):
                pass
            return [(st, ("call", s if s == "ord" else "vtype", (me,)))]
        if q == "yaga::Trail::decision_level":
            vs = self.vals(I, st, args)
            if vs:
                return [(s2, ("some", ("call", "level", vs)) if b else ("none",)) for s2, b in I.split(st, ("call", "assigned", vs))]
            return [(st, ("call", "current", ()))]
        if q == "yaga::Trail::assigned":
            return [(st, ("ref", (("M", ("call", "assigned_at", self.vals(I, st, args))), ())))]
        if q in ("yaga::Model_base::is_defined", "yaga::Model::is_defined") and obj is not None:
            return [(s2, C(b)) for s2, b in I.split(st, ("call", "def", (pl(I.read(st, obj)) if obj[0][0] != "M" else pl(obj[0][1]),) + self.vals(I, st, args)))]
        if q.startswith(PQ) and not self.queue and obj is not None:
            me = obj[1][-1] if obj[1] else obj[0]
            vs = self.vals(I, st, args)
            if s == "contains":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "contains", (me,) + vs))]
            if s == "empty":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "noelem", (me, self.gen(st, me))))]
            if s == "top":
                return [(st, ("call", "top", (me, self.gen(st, me))))]
            if s in ("push", "pop", "update", "rescale"):
                st = self.ev(st, "q" + s, me, *(vs or (("call", "top", (me, self.gen(st, me))),)))
                if s in ("push", "pop"):
                    st = I.write(st, (("M", ("queue", me)), ()), ("call", "gen", (C(node.get("l")), ("call", "top", (me, self.gen(st, me))))), node)
                return [(st, VOIDV)]
        if q == "yaga::Linear_arithmetic::is_effectively_decided":
            return [(s2, C(b)) for s2, b in I.split(st, ("call", "effective", self.vals(I, st, args)[-1:]))]
        if q == "yaga::Linear_arithmetic::effectively_decided":
            return [(st, ("ref", (("M", ("call", "candidates", ())), ())))]
        if q.startswith("yaga::Linear_arithmetic::") or q.startswith("yaga::Linear_constraint"):
            return [(st, ("call", s, self.vals(I, st, args)))]
        if q in ("yaga::Event_listener::" + s, "yaga::Variable_order::" + s) and obj is not None and q != self.top:
            who = pl(I.read(st, obj)) if obj[0][0] != "M" else pl(obj[0][1])
            vs = tuple(self.arg(I, st, a) for a in args)
            if s == "pick":
                return [(s2, ("some", ("call", "picked", (who,))) if b else ("none",)) for s2, b in I.split(st, ("call", "picks", (who,)))]
            return [(self.ev(st, "tell", s, who, vs), VOIDV)]
        return super().call(I, st, node, q, obj, args)

    def arg(self, I, st, a):
        """value of an argument; the parameter it is bound to if it is an object"""
        if a[0] == "ref" and a[1] is not None and not a[1][1] and a[1][0][0] in ("M", "P"):
            return pl(a[1][0][1])
        return pl(I.val(st, a))

    def gen(self, st, me):
        v = st.store.get((("M", ("queue", me)), ()))
        return C(0) if v is None else ("g", v) if v[0] != "phi" else v


def run(P, R, q, queue=False):
    for fn in P.find(q):
        if not fn.get("b"):
            continue
        h = H(q, fn["ps"])
        h.queue = queue
        I = Interp(P, h)
        outs = I.run(fn, h.start())
        if R:
            R.saw(I)
        yield fn, h, I, outs


def chk(R, fn, cond, rule, detail):
    return R.check(cond, "C26." + rule, WHAT[rule], F.loc(fn), detail)


V_CURRENT = ("call", "current", ())


def fact(st, name, *args):
    return st.facts.get(("call", name, args))


def mask(st, a, b):
    m = st.rel.get((a, b))
    if m is not None:
        return m
    m = st.rel.get((b, a))
    return 7 if m is None else sum(n for o, n in ((LT, GT), (EQ, EQ), (GT, LT)) if m & o)


def site_name(info):
    return f"the loop at +{info['site'][1]}"


def picks_queue(P, R):
    for fn, h, I, outs in run(P, R, GQ + "pick"):
        for info, st, how, l in h.ends:
            queue_events(R, fn, st, st.auto[-1])
        for st, k, v in outs:
            queue_events(R, fn, st, st.auto[0])
            if k != "ret":
                continue
            if v == ("none",):
                chk(R, fn, fact(st, "noelem", "variables", h.gen(st, "variables")) is True, "none-left", "no variable is picked although the queue is not known to be empty")
                continue
            if v[:1] != ("some",) or v[1][:2] != ("call", "top"):
                R.bad("C26.picked-unassigned", WHAT["picked-unassigned"], F.loc(fn), f"the picked variable {show(v)[:150]} is not the first one of a queue")
                continue
            t = v[1]
            chk(R, fn, fact(st, "noelem", *t[2]) is False, "picked-unassigned", "the first variable of an empty queue is picked")
            chk(R, fn, fact(st, "assigned", t) is False, "picked-unassigned", "the picked variable can be assigned")


def queue_events(R, fn, st, evs):
    for e in evs:
        if e[0] == "qpop" and e[1] == "variables":
            chk(R, fn, fact(st, "assigned", e[2]) is True, "dropped", "a variable leaves the queue although it can be unassigned")
        elif e[0] == "qpush":
            chk(R, fn, fact(st, "contains", e[1], e[2]) is False, "queued-once", f"{show(e[2])[:120]} is put into the queue although it can be there")


def picks_evsids(P, R):
    for fn, h, I, outs in run(P, R, EQ_ + "pick"):
        best, opt = set(), False
        for st, k, v in outs:
            if k != "ret" or v == ("none",):
                continue
            for t in subterms(v):
                if t[:1] == ("phi",) and len(t) == 3:
                    best.add(t[2][0] if t[2][1:] == ("*",) else t[2])
                    opt = opt or t[2][1:] == ("*",)         # the answer is the variable found or its absence
        chk(R, fn, bool(best), "picked-unassigned", "the picked variable is not one found by the search")
        scanned(P, R, fn, h, I, outs, best, opt)


def negative(v):
    return v[:2] == ("op", "-") and v[2][0] == "flt" or v[:1] == ("flt",) and str(v[1]).startswith("-")


def scanned(P, R, fn, h, I, outs, best, opt):
    vsids = ("fld", ("*", THIS), "vsids")
    infos = {}
    for info, J in h.loops:
        cov = J.coverage(info)
        infos[info["site"]] = cov
        ok = cov is None or cov[0] == "range" or cov[1] == C(0) and cov[2] in ("<", "!=") and cov[4] == 1 and cov[3] == size(vsids)
        ok = ok or cov[0] == "count" and cov[4] == -1 and cov[2] == ">=" and cov[3] == C(0) or cov[1][:1] == ("it",)
        chk(R, fn, ok, "none-left", f"the search does not visit all variables")
    for info, st, how, l in h.ends:
        if how == "break":
            R.bad("C26.none-left", WHAT["none-left"], F.loc(fn), "the search stops before all variables are visited")
            continue
        if how != "next" or info["site"] not in infos:
            continue
        if any(negative(a) and b[:1] == ("phi",) and m == GT for (a, b), m in flip(st)):
            continue                    # scores are not negative
        old = dict(next((e[1] for e in reversed(st.auto[-1]) if e[0] == "old"), ()))
        upd = [p for p in best if p in st.store and st.store[p] != old.get(p, st.store[p])]
        ds = {k[2][-1]: b for k, b in st.facts.items() if k[:2] == ("call", "def")}
        free = [y for y, b in ds.items() if b is False]
        if upd:
            chk(R, fn, bool(free), "picked-unassigned", "a variable which can be assigned is remembered as the best one")
            chk(R, fn, not free or all(any(y in list(flat(st.store[p])) for y in free) for p in upd), "picked-unassigned", "the variable remembered is not the visited one")
        elif True not in ds.values():
            sc = [b for (a, b), m in flip(st) if m in (LT, LT | EQ) and a[:2] == ("at", vsids)]
            ok = any(b[:1] == ("phi",) or negative(b) or b[:2] == ("at", vsids) for b in sc)
            chk(R, fn, ok, "none-left", "an unassigned variable is not taken although no variable with a higher score is known")
    for st, k, v in outs:
        if k == "ret" and v == ("none",):
            neg = any(a[:1] == ("phi",) and a[2] in best and (m == LT and b == C(0) or m == EQ and b == C(-1)) for (a, b), m in flip(st))
            chk(R, fn, neg or opt, "none-left", "no variable is picked although one can have been found")
            chk(R, fn, any(e[0] == "loop" for e in st.auto[0]), "none-left", "no variable is picked without a search")


def flip(st):
    for (a, b), m in list(st.rel.items()):
        yield (a, b), m
        yield (b, a), sum(n for o, n in ((LT, GT), (EQ, EQ), (GT, LT)) if m & o)


def picks_first(P, R):
    for fn, h, I, outs in run(P, R, FQ + "pick"):
        cov = {}
        for info, J in h.loops:
            c = J.coverage(info)
            cov[info["site"]] = c
            ok = c is None or c[0] == "range" or c[1][:1] == ("it",) or c[1] == C(0) and c[2] in ("<", "!=") and c[4] == 1 and (c[3] == ("call", "num_vars", ()) or c[3][:2] == ("call", "size"))
            chk(R, fn, ok, "none-left", f"{site_name(info)} does not visit all variables")
        inner = [s for s, c in cov.items() if c is None or c[0] == "count" and c[3] == ("call", "num_vars", ())]
        for info, st, how, l in h.ends:
            ds = {k[2][-1]: b for k, b in st.facts.items() if k[:2] == ("call", "def")}
            if info["site"] in inner:
                if how == "next":
                    chk(R, fn, False not in ds.values() and bool(ds), "none-left", "a variable which can be unassigned is passed over")
                elif how == "break":
                    chk(R, fn, False in ds.values(), "none-left", "the search stops before all variables are visited")
            elif info["site"] in cov and how != "ret":
                other = any(m & EQ == 0 and any("var_type" in repr(t) for t in p) for p, m in st.rel.items())
                ev = [e for e in st.auto[-1] if e[0] in ("loop", "broke") and e[1] in inner]
                seen = bool(ev) and all(e[0] == "loop" for e in ev)
                chk(R, fn, how == "next" and (other or seen), "none-left", "variables of a type are not searched")
        for st, k, v in outs:
            if k != "ret":
                continue
            if v == ("none",):
                chk(R, fn, any(e[0] == "loop" and e[1] not in inner for e in st.auto[0]), "none-left", "no variable is picked without a search of all types")
                continue
            ok = v[:1] == ("some",) and v[1][:2] == ("call", "V")
            d = next((b for kk, b in st.facts.items() if ok and kk[:2] == ("call", "def") and kk[2][-1] == v[1][2][0]), None)
            chk(R, fn, d is False, "picked-unassigned", "the picked variable can be assigned")


def resized(P, R):
    for fn, h, I, outs in run(P, R, GQ + "on_variable_resize"):
        t, n = [("p", p["n"]) for p in fn["ps"]]
        starts = {}
        for info, J in h.loops:
            c = J.coverage(info)
            if c is None or c[0] != "count":
                continue
            lo = set(c[1][1]) if c[1][:1] == ("oneof",) else {c[1]}
            old = all(l == C(0) or l[:2] == ("call", "size") and l[2][0][:1] == ("at",) and l[2][0][2] == t and "vsids" in repr(l) + repr(h.infos) and n not in list(subterms(l)) for l in lo)
            if c[4] == 1 and (c[2] in ("<", "!=") and c[3] == n or c[2] == "<=" and c[3] == I.arith("+", n, C(-1))):
                starts[info["site"]] = (old, lo | {c[5]})
        for info, st, how, l in h.ends:
            if info["site"] not in starts:
                continue
            vs = [deref(e[2]) for e in st.auto[-1] if e[0] == "qpush" and e[1] == "variables"]
            have = [deref(k[2][1]) for k, b in st.facts.items() if k[:2] == ("call", "contains") and k[2][0] == "variables" and b]
            ok = any(v[:2] == ("call", "V") and v[2][0] in {deref(x) for x in starts[info["site"]][1]} and v[2][1] == t for v in vs + have)
            chk(R, fn, ok and how == "next", "new-queued", "a new variable is not put into the queue")
            chk(R, fn, C(0) not in starts[info["site"]][1] or not vs or any(b is False for k, b in st.facts.items() if k[:2] == ("call", "contains")), "queued-once", "a variable which is not new can be put into the queue again")
        for st, k, v in outs:
            chk(R, fn, any(e[0] == "loop" and e[1] in starts and starts[e[1]][0] for e in st.auto[0]), "new-queued", "the new variables are not put into the queue from the first to the last")
            chk(R, fn, any(e[0] == "resize" and e[1][1][:1] == ("vsids",) and e[2][:1] == (n,) for e in st.auto[0]), "new-queued", "the scores are not resized to the number of variables")
    for fn, h, I, outs in run(P, R, EQ_ + "on_variable_resize"):
        t, n = [("p", p["n"]) for p in fn["ps"]]
        for st, k, v in outs:
            m = next((m for (a, b), m in flip(st) if a == t and "boolean" in repr(b)), 7)
            if m & EQ:
                chk(R, fn, any(e[0] == "resize" and e[1][1] == ("vsids",) and e[2][:1] == (n,) for e in st.auto[0]), "new-queued", "the search does not visit the new Boolean variables")


def undone(P, R):
    for fn, h, I, outs in run(P, R, GQ + "on_before_backtrack"):
        lv = ("p", fn["ps"][2]["n"])
        covs = {}
        for info, J in h.loops:
            covs.setdefault(info["site"], []).append((J.coverage(info), J))
        inner, args, unknown = set(), {}, False
        for site, cs in covs.items():
            for c, J in cs:
                if c is None:
                    unknown = True
                    continue
                ts = [t[2][0] for t in flat(c) if isinstance(t, tuple) and t[:2] == ("call", "assigned_at")]
                if ts:
                    inner.add(site)
                    args.setdefault(site, set()).update(ts)
                    if c[0] == "count" and c[1][:1] != ("it",):
                        chk(R, fn, c[1] == C(0) and c[2] in ("<", "!=") and c[4] == 1 and c[3][:2] == ("call", "size"), "undone-queued", "the variables of an undone level are not all visited")
        outer = {}
        for site, cs in covs.items():
            for c, J in cs:
                if c is None or c[0] != "count" or site in inner or c[1][:1] == ("it",):
                    continue
                for k in (0, 1, -1):
                    lo, hi, x = (J.arith("+", v, C(k)) for v in (c[1], c[3], c[5]))
                    top1, lv1 = J.arith("+", V_CURRENT, C(1)), J.arith("+", lv, C(1))
                    down = lo == V_CURRENT and c[4] == -1 and (c[2] in (">", "!=") and hi == lv or c[2] == ">=" and hi == lv1)
                    up = lo == lv1 and c[4] == 1 and (c[2] == "<=" and hi == V_CURRENT or c[2] in ("<", "!=") and hi == top1)
                    if down or up:
                        outer.setdefault(site, set()).update((lo, x))
        for info, st, how, l in h.ends:
            site = info["site"]
            if site in inner:
                pushed = [e[2] for e in st.auto[-1] if e[0] == "qpush" and e[1] == "variables"]
                queue_events(R, fn, st, [e for e in st.auto[-1] if e[0] in ("qpush", "qpop")])
                names = {site} | {t for c, J in covs[site] if c and c[0] == "count" for t in (c[5], C(0))}
                for v in pushed:
                    at = [t for t in flat(v) if isinstance(t, tuple) and t[:1] == ("at",) and "assigned_at" in repr(t[1])]
                    chk(R, fn, any(t[2] in names or any(n in list(flat(t[2])) for n in names if n != C(0)) for t in at), "undone-queued", "the variable put into the queue is not the one whose assignment is undone")
                if how != "next":
                    R.bad("C26.undone-queued", WHAT["undone-queued"], F.loc(fn), "the variables of a level are not all visited")
                if pushed or how != "next":
                    continue
                ok = any(k[:2] == ("call", "contains") and k[2][0] == "variables" and b for k, b in st.facts.items())
                ok = ok or any(k[:2] == ("call", "assigned") and b is False for k, b in st.facts.items())
                ok = ok or any(a[:2] == ("call", "level") and b == lv and m & GT == 0 for (a, b), m in flip(st))
                chk(R, fn, ok, "undone-queued", "a variable whose assignment is undone is not put into the queue")
            elif site in outer:
                ok = how == "next" and any(e[0] == "loop" and args.get(e[1], set()) & outer[site] for e in st.auto[-1])
                chk(R, fn, ok, "undone-queued", "the variables of an undone level are not visited")
        for st, k, v in outs:
            chk(R, fn, unknown or any(e[0] == "loop" and e[1] in outer for e in st.auto[0]), "undone-queued", "the levels which are undone are not all visited")


def others(P, R):
    """the other events change the queue under the same conditions"""
    done = {GQ + n for n in ("on_variable_resize", "on_before_backtrack")}
    for q in sorted({fn["q"] for fn in P.fns.values() if fn["q"].startswith(GQ + "on_") and fn.get("b")} - done):
        for fn, h, I, outs in run(P, R, q):
            for st in [st for info, st, how, l in h.ends] + [st for st, k, v in outs]:
                for evs in st.auto:
                    queue_events(R, fn, st, evs)
            R.ok("C26.dropped", F.loc(fn))


def deref(t):
    """objects and references to them are the same"""
    if not isinstance(t, tuple):
        return t
    return THIS if t == ("*", THIS) else tuple(map(deref, t))


def flat(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from flat(x)


def contains(P, R):
    for fn, h, I, outs in run(P, R, PQ + "contains", True):
        var = ("p", fn["ps"][0]["n"])
        pos = ("fld", ("*", THIS), "position")
        for st, k, v in outs:
            if v == C(False):
                out = any(m & GT == 0 and a == size(pos) and b == ("call", "vtype", (var,)) for (a, b), m in flip(st))
                out = out or any(m & GT == 0 and a == size(("at", pos, ("call", "vtype", (var,)))) and b == ("call", "ord", (var,)) for (a, b), m in flip(st))
                e = ("at", ("at", pos, ("call", "vtype", (var,))), ("call", "ord", (var,)))
                out = out or any(a == e and (m == EQ and b == C(-1) or m == LT and b == C(0)) for (a, b), m in flip(st))
                chk(R, fn, out, "queue-contains", "a variable which is in the queue is not found")
            else:
                e = ("at", ("at", pos, ("call", "vtype", (var,))), ("call", "ord", (var,)))
                good = v in (("cmp", "!=", e, C(-1)), ("cmp", ">=", e, C(0)), ("cmp", ">", e, C(-1)))
                good = good or v == C(True) and any(a == e and (m in (LT | GT, GT) and b == C(-1) or m in (GT, GT | EQ) and b == C(0)) for (a, b), m in flip(st))
                good = good or v == ("cmp", "!=", ("it", v[2][1], ("i", e)), ("it", v[2][1], ("e", 0))) if v[:2] == ("cmp", "!=") and v[2][:1] == ("it",) else good
                chk(R, fn, good, "queue-contains", f"the answer {show(v)[:120]} is not whether the variable has a position")


def combined(P, R):
    cq = "yaga::Combined_order::"
    names = sorted({fn["q"] for fn in P.fns.values() if fn["q"].startswith(cq) and fn.get("b") and fn["q"].split("::")[-1].startswith("on_")})
    for q in names:
        for fn, h, I, outs in run(P, R, q):
            ps = tuple(("p", p["n"]) for p in fn["ps"])
            told(R, fn, h, outs, q.split("::")[-1], ps)
    for fn, h, I, outs in run(P, R, cq + "pick"):
        cov = all_heuristics(h)
        if any(J.coverage(info) is None for info, J in h.loops):
            R.ok("C26.tried", F.loc(fn))
            continue
        for info, st, how, l in h.ends:
            if info["site"] not in cov:
                continue
            b = [b for k, b in st.facts.items() if k[:2] == ("call", "picks") and info["site"] in list(flat(k))]
            chk(R, fn, how == "next" and b == [False] or how in ("ret", "break") and b == [True], "tried", "what an order picks is not used, or another one is not asked")
        for st, k, v in outs:
            if k != "ret":
                continue
            ends = [s2 for info, s2, how, l in h.ends if info["site"] in cov and how == "next"]
            if v == ("none",) or v[:1] == ("phi",) and len(v) == 3 and ends and all(s2.store.get(v[2]) == ("none",) for s2 in ends):
                chk(R, fn, any(e[0] == "loop" and e[1] in cov for e in st.auto[0]) and not any(e[0] == "broke" for e in st.auto[0]), "tried", "no variable is picked although not all orders were asked")
            else:
                chk(R, fn, v[:1] == ("some",) and v[1][:2] == ("call", "picked") and fact(st, "picks", *v[1][2]) is True, "tried", "the picked variable is not one an order picks")


def all_heuristics(h):
    out = set()
    for info, J in h.loops:
        c = J.coverage(info)
        if c is not None and c[0] == "range" and "heuristics" in repr(c):
            out.add(info["site"])
        elif c is not None and c[0] == "count" and c[1] == C(0) and c[2] in ("<", "!=") and c[4] == 1 and c[3] == size(("fld", ("*", THIS), "heuristics")):
            out.add(info["site"])
    return out


def told(R, fn, h, outs, s, ps):
    cov = all_heuristics(h)
    for info, st, how, l in h.ends:
        if info["site"] in cov:
            ok = how == "next" and any(e[0] == "tell" and e[1] == s and e[3] == ps for e in st.auto[-1])
            chk(R, fn, ok, "forwarded", f"{s} is not forwarded to an order")
    for st, k, v in outs:
        chk(R, fn, any(e[0] == "loop" and e[1] in cov for e in st.auto[0]), "forwarded", f"{s} is not forwarded to all orders")


def check(P, R):
    picks_queue(P, R)
    picks_evsids(P, R)
    picks_first(P, R)
    resized(P, R)
    undone(P, R)
    others(P, R)
    contains(P, R)
    combined(P, R)
    for r in WHAT:
        R.need(1, "C26." + r)
