"""C18: conflict analysis derives its clause by resolution, from the right reasons, and reports the right level."""
from evlib import *

EXPLANATION = ("The analysis is interpreted with a symbolic literal set: one generic literal of the conflict, one generic trail entry and one generic literal of its reason. "
               "Each step must be a resolution step (the literal removed is the false one of the entry's variable, all other literals of the reason join), the count of literals at the top level must follow the set, "
               "and the level returned is compared with the facts of the path.")
ASSUMPTIONS = ["reasons are clauses whose only true literal is the propagated one (C17, C08)", "recorded levels (C05)"]

SETS = ("std::unordered_set::", "std::set::", "std::flat_set::")


class H(Core):
    forget = 1
    nest = False
    merge_limit = 300

    def __init__(self, R):
        super().__init__(R)
        self.sorts, self.counts, self.ranges = [], [], []

    def iter_begin(self, I, st, info):
        st = super().iter_begin(I, st, info)
        old = tuple(sorted(((k, v) for k, v in st.store.items() if k[0] == ("M", THIS) and len(k[1]) == 1), key=repr))
        return self.ev(st, "old", old)

    def write(self, I, st, node, lv, val):
        if lv[0] == ("M", THIS) and len(lv[1]) == 1 and val[0] not in ("c", "op", "phi", "fresh"):
            return self.ev(st, "clear", lv)

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q.startswith(SETS) and obj is not None and s in ("insert", "emplace", "erase", "contains", "count", "find", "clear"):
            vs = self.vals(I, st, args)
            if s == "clear":
                return ("cont", self.ev(st, "clear", obj))
            if len(vs) != 1:
                return None
            v = vs[0]
            if s in ("insert", "emplace"):
                out = []
                for s2, b in I.split(st, ("call", "in", (v,))):
                    s2 = s2.copy()
                    if not b:
                        s2 = self.ev(s2, "insert", obj, v)
                        s2.facts[("call", "in", (v,))] = True
                        s2.facts[("call", "new", (v,))] = True
                    out.append((s2, ("agg", "std::pair", (("first", ("call", "where", (v,))), ("second", C(not b))))))
                return out
            if s in ("contains", "count"):
                return [(s2, C(b) if s == "contains" else C(1 if b else 0)) for s2, b in I.split(st, ("call", "in", (v,)))]
            if s == "find":
                return [(st, ("call", "where", (v,)))]
            if s == "erase":
                if v[:2] == ("call", "where"):
                    v = v[2][0]
                st = self.ev(st, "erase", obj, v)
                st.facts[("call", "in", (v,))] = False
                return [(st, C(1))]
        if q == "yaga::Conflict_analysis::can_resolve":
            return None
        if s == "operator()" and obj is not None:
            f = pl(I.read(st, obj))
            if f[0] == "p":
                return [(self.ev(st, "told", *self.vals(I, st, args)), VOIDV)]
        if q in ("std::sort", "std::stable_sort", "std::ranges::sort", "std::ranges::stable_sort") and len(args) >= 2:
            a, b = ("call", "left", ()), ("call", "right", ())
            f = I.val(st, args[-1])
            if f[0] in ("lam", "ref"):
                for s2, v in I.apply(st.copy(), f, [a, b], node, None):
                    for s3, t in I.split(s2, v) if v[0] != "c" else [(s2, v[1])]:
                        self.sorts.append((s3, bool(t)))
        if q in ("std::count_if", "std::ranges::count_if") and len(args) >= 2:
            f = I.val(st, args[-1])
            self.ranges.append(repr(I.val(st, args[0])))
            if f[0] in ("lam", "ref"):
                for s2, v in I.apply(st.copy(), f, [("call", "elem", ())], node, None):
                    for s3, t in I.split(s2, v) if v[0] != "c" else [(s2, v[1])]:
                        self.counts.append((s3, bool(t)))
        return super().call(I, st, node, q, obj, args)


def lvl(v):
    return ("call", "level", (("call", "var", (base(v)[0],)),))


def isset(v):
    return v


def rel_mask(st, x, y):
    m = 7
    for (a, b), mm in st.rel.items():
        if (a, b) == (x, y):
            m &= mm
        elif (b, a) == (x, y):
            m &= absint.FLIP[mm]
    return m


def ints(st, root="M"):
    return {k: v for k, v in st.store.items() if k[0][0] == root or k[0][0] == "L"}


def delta(v, site):
    """v = value of this location at the start of the iteration of the loop + c"""
    b, c = linear(v)
    return c if b[0] == "phi" and b[1] == site else None


def check(P, R):
    R.rule("C18.start", "the analysis starts with exactly the literals of the conflict; the top level is the highest level among them")
    R.rule("C18.step", "a step removes a literal that is false and adds every other literal of the reason of its variable; the reason is reported exactly once")
    R.rule("C18.skip", "an entry of the top level is passed over only when it is not a propagated Boolean variable whose false literal is in the clause")
    R.rule("C18.count", "the number of literals at the top level follows every insertion and removal")
    R.rule("C18.stop", "the analysis stops early only with one literal left at the top level")
    R.rule("C18.level", "the level returned is that of the second literal, the one below the top for a split, 0 for a unit clause and -1 for the empty clause")
    R.rule("C18.order", "literals are ordered by decision level, highest first")
    done = False
    for fn in sorted(P.find("yaga::Conflict_analysis::analyze"), key=lambda f: f["id"]):
        if len(fn["ps"]) != 3 or done:
            continue
        done = True
        L = F.loc(fn)
        h = H(R)
        I = Interp(P, h)
        CONF = ("p", fn["ps"][1]["n"])
        outs = I.run(fn, h.start())
        R.saw(I)
        sets = {e[1] for i, st, how, l in h.ends for e in st.auto[-1] if e[0] == "insert"}
        if not sets:
            continue
        tops = start(R, h, I, CONF, L)
        counters = step(R, h, I, L, tops)
        finish(R, h, I, outs, L, tops, counters)
        if any(x[0] == ("M", THIS) for x in sets):
            for st, k, v in outs:
                if k == "ret":
                    R.check(any(e[0] == "clear" and e[1] in sets for e in st.auto[0]), "C18.start", "nothing of an earlier analysis is left", L, "the literals of an earlier analysis stay in the clause")
        if h.sorts:
            R.check(any(rel_mask(st, lvl(("call", "left", ())), lvl(("call", "right", ()))) != 7 for st, t in h.sorts), "C18.order", "literals are ordered by level", L, "the order of the literals does not depend on their levels")
        for r in h.ranges:
            R.check(repr(("p", CONF[1])) not in r, "C18.count", "literals are counted once", L, "literals that occur twice in the conflict are counted twice")
        for st, t in h.counts:
            ms = [(k, m) for x, y, k, m in relations(st, lambda x: x == lvl(("call", "elem", ()))) if y is not None and top_value(y, tops)]
            if ms:
                can = [d for d in range(-3, 4) if possible(ms, d)]
                R.check(can == [0] if t else 0 not in can, "C18.count", "exactly the literals at the top level are counted", L, "the first count of the literals at the top level is wrong")
        for st, t in h.sorts:
            a, b = lvl(("call", "left", ())), lvl(("call", "right", ()))
            m = rel_mask(st, a, b)
            if not any(linear(x)[0] in (a, b) for p in st.rel for x in p):
                continue
            if m == absint.GT:
                R.check(t, "C18.order", "higher levels first", L, "a literal of a higher level is not put before one of a lower level")
            if m == LT:
                R.check(not t, "C18.order", "lower levels later", L, "a literal of a lower level is put before one of a higher level")
    R.need(1, "C18.start")
    R.need(3, "C18.step")
    R.need(1, "C18.count")
    R.need(2, "C18.level")


def start(R, h, I, CONF, L):
    """Loop over the conflict clause; returns the locations that hold the top level."""
    tops = set()
    for info, st, how, l in h.ends:
        r = info.get("range")
        if r is None or pl(r[0]) != ("M", CONF) and pl(r[0]) != CONF or how != "next":
            continue
        elem = [e[2] for e in st.auto[-1] if e[0] == "insert"]
        known = [f for f, b in st.facts.items() if f[:2] == ("call", "in") and b]
        lits = set(elem) | {f[2][0] for f in known}
        if not any(e[0] == "insert" for i, s2, *_ in h.ends if i["site"] == info["site"] for e in s2.auto[-1]):
            continue
        R.check(bool(lits), "C18.start", "every literal of the conflict joins", L, "a literal of the conflict clause does not become part of the analysis")
        for v in elem:
            R.check(v[0] == "at" and mentions(v, CONF), "C18.start", "only literals of the conflict join", L, f"{show(v)} joins at the start")
    # the top level is the maximum over the conflict
    for info, st, how, l in h.ends:
        r = info.get("range")
        if r is None or pl(r[0]) != ("M", CONF) and pl(r[0]) != CONF or how != "next":
            continue
        for k, v in st.store.items():
            if v[:2] == ("call", "level") and k[0][0] in ("M", "L") and (k[0][0] == "M" or True):
                old = begin(st, k)
                if old is not None and old[0] == "phi" and old[1] == info["site"]:
                    R.check(not rel_mask(st, v, old) & LT, "C18.start", "the top level is the highest", L, "the level of a literal replaces one that may be higher")
                tops.add(k)
    for info, st, how, l in h.ends:
        r = info.get("range")
        if r is None or pl(r[0]) != ("M", CONF) and pl(r[0]) != CONF or how != "next":
            continue
        for k in tops:
            old = ("phi", info["site"], k)
            if st.store.get(k) == old:
                lv = {x for p in st.rel for x in p if x[:2] == ("call", "level")}
                for x in lv:
                    R.check(not rel_mask(st, x, old) & absint.GT, "C18.start", "the top level is the highest", L, "a literal of a higher level does not raise the top level")
    return tops


def begin(st, k):
    for e in st.auto[-1]:
        if e[0] == "old":
            return dict(e[1]).get(k)
    return None


def top_value(v, tops):
    return v[0] == "phi" and v[2] in tops


def step(R, h, I, L, tops):
    counters = set()
    # the counter: the location whose value grows by one on some insertion in an inner iteration
    for info, st, how, l in h.ends:
        if any(e[0] == "insert" for e in st.auto[-1]) and l >= 3:
            for k, v in ints(st).items():
                if delta(v, info["site"]) == 1 and k[0][0] == "M":
                    counters.add(k)
    for info, st, how, l in h.ends:
        ev = st.auto[-1]
        if l >= 3 and how == "next" and info.get("range") is not None:
            ins = [e[2] for e in ev if e[0] == "insert"]
            src = info["range"][0]
            lits = {x for p in st.rel for x in p if x[0] == "at" and x[2] == info["site"]} | set(ins) | {f[2][0] for f in st.facts if f[:2] == ("call", "in") and f[2][0][0] == "at" and f[2][0][2:] == (info["site"],)}
            lits = {x for x in lits if base(x)[0][0] == "at"}
            vs = [(f[2][0], b) for f, b in st.facts.items() if f[:2] == ("call", "value")]
            same = []
            for (a, b), m in st.rel.items():
                for x, y in ((a, b), (b, a)):
                    if x in lits and y[:2] in (("call", "~"), ("call", "lit")):
                        val = [b2 for var, b2 in vs if mentions(y, var)]
                        if not val or base(y)[1] != val[0]:
                            same.append(m)
                        elif m == EQ:
                            same.append(0)      # equal to the false literal: not in the reason
            if same == [0]:
                continue
            new = bool(ins)
            already = any(f[:2] == ("call", "in") and b and f[2][0] in lits for f, b in st.facts.items())
            if same and same[0] == EQ:
                R.check(not new, "C18.step", "the resolved literal does not join", L, "the true literal of the reason joins the clause")
            elif same and not same[0] & EQ or not same:
                R.check(new or already, "C18.step", "every other literal of the reason joins", L, "a literal of the reason does not join the clause")
            if not same:
                R.check(not new, "C18.step", "the resolved literal does not join", L, "the true literal of the reason may join the clause")
            for k in counters:
                v = st.store.get(k)
                d = delta(v, info["site"]) if v is not None else 0
                if d is None:
                    continue
                mine = {lvl(x) for x in lits}
                at = [m for (a, b), m in st.rel.items() if a in mine or b in mine]
                if new and at and at[0] == EQ:
                    R.check(d == 1, "C18.count", "a new literal at the top level is counted", L, f"the count changes by {d} for a new literal at the top level")
                elif new and at and not at[0] & EQ or not new:
                    R.check(d == 0, "C18.count", "only new literals at the top level are counted", L, f"the count changes by {d} for a literal that {'is below the top level' if new else 'was part of the clause already'}")
                elif new and not at:
                    R.check(d == 0, "C18.count", "only literals at the top level are counted", L, "a literal is counted without looking at its level")
        if l == 2 and how in ("next", "break") and any(e[0] in ("erase", "told") for i, s2, hw, lv in h.ends if i["site"] == info["site"] for e in s2.auto[-1]):
            er = [e[2] for e in ev if e[0] == "erase"]
            told = [e[1] for e in ev if e[0] == "told"]
            R.check(len(er) <= 1 and len(told) == len(er), "C18.step", "a resolution is reported once", L, f"{len(told)} reasons are reported for {len(er)} resolution steps")
            vs = [(f[2][0], b) for f, b in st.facts.items() if f[:2] == ("call", "value")]
            for v in er:
                p, n = base(v)
                val = dict(vs).get(("call", "var", (p,))) if p[:2] == ("call", "lit") else None
                for var, b in vs:
                    if mentions(p, var):
                        R.check(n == b, "C18.step", "the literal removed is false", L, "the literal removed is true in the model")
                if counters and p[:2] == ("call", "lit"):
                    own = [m for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if x[:2] == ("call", "level") and mentions(p, x[2][0]) and (top_value(y, tops) or y[0] == "fld")]
                    R.check(bool(own) and own[0] == EQ, "C18.count", "only literals at the top level are resolved on", L, "a literal is resolved on and taken off the count without knowing that it is at the top level")
                for t in told:
                    R.check("reason" in repr(t), "C18.step", "the reason is reported", L, f"{show(t)} is reported instead of the reason")
                R.check(st.facts.get(("call", "in", (v,))) is False, "C18.step", "the literal is removed", L, "the literal resolved on stays in the clause")
                for k in counters:
                    x = st.store.get(k)
                    if x is not None and linear(x)[0][0] == "phi":
                        b, c = linear(x)
                        ins = {linear(v0)[1] for i, s2, hw, lv in h.ends if lv >= 3 and i["site"] == b[1] for v0 in [begin(s2, k)] if v0 is not None and not (v0[0] == "phi" and v0[1] == b[1])}
                        if len(ins) > 1:
                            continue
                        c += sum(ins)
                        R.check(c == -1, "C18.count", "a removed literal is not counted any more", L, f"the count changes by {c} when a literal at the top level is removed")
            if not er:
                # why was the entry passed over?
                ok = False
                for (a, b), m in st.rel.items():
                    for x, y in ((a, b), (b, a)):
                        if x[:2] == ("call", "vtype") and not m & EQ:
                            ok = True
                        if x[0] == "fld" and x[2] == "reason" and m == EQ:
                            ok = True
                        if x[:2] == ("call", "level") and not m & EQ:
                            ok = True
                for f, b in st.facts.items():
                    if f[:2] == ("call", "in") and b is False:
                        p, n = base(f[2][0])
                        val = [b2 for var, b2 in vs if mentions(p, var)]
                        ok = ok or not val or val[0] == n
                    if f[0] == "fld" and f[2] == "reason" and b is False:
                        ok = True
                if how == "next":
                    R.check(ok, "C18.skip", "no resolution step is left out", L, "a propagated Boolean variable of the top level whose false literal is in the clause is passed over")
                for k in counters:
                    x = st.store.get(k)
                    if x is not None and delta(x, info["site"]) is not None:
                        R.check(delta(x, info["site"]) == 0, "C18.count", "the count changes with the clause only", L, "the count changes although the clause does not")
    main = {i["site"] for i, s2, hw, lv in h.ends if lv == 2 and any(e[0] == "erase" for e in s2.auto[-1])}
    for info, st in h.exits:
        if info["site"] not in main or not counters:
            continue
        ended = any(m == EQ and "re" in repr((a, b)) and a[0] == b[0] == "it" for (a, b), m in st.rel.items())
        known = [(k, m) for x, y, k, m in relations(st, lambda x: x[0] == "phi" and x[2] in counters or x[0] == "call" and x[1].endswith("count_if")) if y is None]
        if not ended:
            if not known:
                continue
            R.check(possible(known, 1) and not possible(known, 2) and not possible(known, 0), "C18.stop", "one literal at the top level is left", L, "the analysis stops before a single literal of the top level is left")
    return counters


def finish(R, h, I, outs, L, tops, counters):
    for st, k, v in outs:
        if k != "ret":
            continue
        parts = v[1:] if v[0] == "pair" else tuple(x for _, x in v[2]) if v[0] == "agg" else None
        if parts is None or len(parts) != 2:
            continue
        lv = parts[1]
        sz = [(kk, m) for x, y, kk, m in relations(st, lambda x: x[:2] == ("call", "size")) if y is None]
        cnt = [(kk, m) for x, y, kk, m in relations(st, lambda x: x[0] == "phi" and x[2] in counters) if y is None]
        if sz and not any(possible(sz, n) for n in (0, 1, 2, 3, 7)):
            continue            # the sizes of the set and of the clause made of it disagree: no such path
        if lv == C(-1):
            R.check(empty_known(st, sz), "C18.level", "-1 means the clause is empty", L, "level -1 is returned for a clause that may not be empty")
            continue
        if counters and isint(lv):
            R.check(cval(lv) == 0, "C18.level", "a unit clause goes to level 0", L, f"level {cval(lv)} is returned")
        b, c = linear(lv)
        if top_value(b, tops):
            R.check(c == -1, "C18.level", "a split goes one level below", L, f"the level returned is the top level {c:+d}")
            if cnt:
                R.check(not possible(cnt, 1), "C18.level", "a split has several literals at the top level", L, "the level below the top is returned although only one literal is at the top level")
        elif lv == C(0) and sz:
            R.check(not any(possible(sz, n) for n in (2, 3, 7)), "C18.level", "level 0 only for unit clauses", L, "level 0 is returned although the clause may have several literals")
            if cnt:
                R.check(not possible(cnt, 2), "C18.level", "level 0 only without a split", L, "level 0 is returned for a split")
        elif b[:2] == ("call", "level"):
            x = b[2][0]
            R.check(c == 0, "C18.level", "the level of the second literal", L, f"the level returned is that of a literal {c:+d}")
            ix = [t for t in subterms(x) if isinstance(t, tuple) and len(t) == 3 and t[0] == "at" and isint(t[2])]
            for t in ix[:1]:
                R.check(t[2] == C(1), "C18.level", "the level of the second literal", L, f"the level of literal {cval(t[2])} is returned")
            if cnt:
                R.check(not possible(cnt, 2), "C18.level", "a split does not go to the level of its second literal", L, "a clause with several literals at the top level is answered with that level")
            if sz:
                R.check(not possible(sz, 1), "C18.level", "the second literal exists", L, "the second literal of a unit clause is read")
        if lv != C(-1) and not possible(sz, 1) and not any(possible(sz, n) for n in (2, 3, 7)):
            R.bad("C18.level", "-1 means the clause is empty", L, "an empty clause is answered with another level than -1")


def subterms(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from subterms(x)


def empty_known(st, sz):
    return not may_hold(st, sz)


def may_hold(st, sz):
    """Can the clause have a literal?"""
    if sz and not any(possible(sz, n) for n in (1, 2, 3, 7)):
        return False
    return not any("empty" in repr(f[:2]) and b for f, b in st.facts.items())
