"""C13: Boolean terms denote the connective they are built for."""
from termlib import *
from looplib import covered

EXPLANATION = ("Every path of the Boolean term builders is analysed with symbolic arguments and the returned term is read as a Boolean function of the arguments (negation lives in the term handle, or_term is disjunction); "
               "it is compared with the connective on all truth assignments consistent with the equalities known on that path. The n-ary builders are decided by a loop invariant per generic argument.")
ASSUMPTIONS = ["the term table returns, for or_term(args), a term for the disjunction of args (C26)", "hash-consed handles: equal handles denote equal terms"]

SPECS = {
    "mk_binary_or": (2, lambda a, b: a or b), "mk_binary_and": (2, lambda a, b: a and b), "mk_implies": (2, lambda a, b: (not a) or b),
    "mk_iff": (2, lambda a, b: a == b), "mk_xor": (2, lambda a, b: a != b), "mk_bool_ite": (3, lambda c, t, e: t if c else e),
}


def connectives(P, R):
    for name, (n, spec) in SPECS.items():
        for fn in P.find(TM + name, nparams=n):
            params = [("p", p["n"]) for p in fn["ps"]]
            I = Interp(P, TermHooks(R))
            for s, k, v in I.run(fn):
                if k != "ret":
                    continue
                try:
                    bad = None
                    envs = 0
                    if not is_bool_expr(v, params):
                        raise Unknown(v)
                    for env in assignments(params, s):
                        envs += 1
                        want = spec(*[env[p] for p in params])
                        if truth(v, env) != want:
                            bad = (env, want)
                            break
                except Unknown:
                    continue
                if bad:
                    R.bad("C13.connective", name, F.loc(fn), f"returns {show(v)}, which is {not bad[1]} for " + ", ".join(f"{p[1]}={bad[0][p]}" for p in params)
                          + " on the path where " + path(s))
                elif envs:
                    R.ok("C13.connective", name)
                for t in disjunctions(v, []):
                    for a in args_of(t):
                        if a in params or a[:2] == ("call", "opp") and a[2][0] in params:
                            R.check(all(I.mask(s, a, c) & EQ == 0 or I.mask(s, opp(a), opp(c)) & EQ == 0 for c in (TRUE_T, FALSE_T)) or any(m == EQ and a in k for k, m in s.rel.items()),
                                    "C13.constants", name, F.loc(fn), f"{show(a)} may be true or false when {show(t)} is built")
            R.saw(I)


def disjunctions(v, acc):
    v = elem(v)
    if v[0] == "call":
        if v[1] == "or_term":
            acc.append(v)
        for a in args_of(v):
            disjunctions(a, acc)
    return acc


def path(s):
    out = []
    for (a, b), m in s.rel.items():
        if m == EQ:
            out.append(f"{show(a)} == {show(b)}")
    return " and ".join(out[:6]) or "no two arguments are related"


# ---------------------------------------------------------------- handles
def handle_bits(P, R):
    """index_of, is_negated, opposite_term, positive/negative_term over the split handle x = 2*index + sign."""
    IDX, SIGN = ("idx",), ("sign",)

    def bits(v):
        """-> (upper part, bit 0) or raise Unknown; the upper part of a plain integer i is ('up', i)."""
        if v == ("fld", ("p", "t"), "x") or v[0] == "fld" and v[2] == "x" and v[1][0] == "p":
            return (IDX, SIGN)
        if isint(v):
            c = cval(v)
            return (("c", c >> 1), ("c", c & 1))
        if v[0] == "p":
            return (("up", v), ("lo", v))
        if v[0] == "agg" and len(v[2]) == 1:
            return bits(v[2][0][1])
        if v[0] == "call" and v[1] in ("static_cast", "cast") and len(v[2]) == 1:
            return bits(v[2][0])
        if v[0] == "op" and len(v) == 4:
            op, a, b = v[1], v[2], v[3]
            if isint(a) and not isint(b) and op in ("^", "&", "|", "+"):
                a, b = b, a
            if not isint(b):
                raise Unknown(v)
            c = cval(b)
            if op in (">>", "/") and c == (1 if op == ">>" else 2):
                return whole(bits(a)[0])
            if op in ("<<", "*") and c == (1 if op == "<<" else 2):
                return (a if not isinstance(a, tuple) else val(a), ("c", 0))
            hi, lo = bits(a)
            if op == "^" and c == 1:
                return (hi, flip(lo))
            if op == "&" and c == 1:
                return (("c", 0), lo)
            if op == "%" and c == 2:
                return (("c", 0), lo)
            if op in ("|",) and c == 1:
                return (hi, ("c", 1))
            if op == "+" and c == 1 and lo == ("c", 0):
                return (hi, ("c", 1))
            if op == "-" and c == 1 and lo == ("c", 1):
                return (hi, ("c", 0))
            if op == "&" and c in (-2, 0xfffffffe):
                return (hi, ("c", 0))
        if v[0] == "whole":
            return (("up", v), ("lo", v))
        raise Unknown(v)

    def val(a):
        """The integer value used as an upper part."""
        if a[0] == "p":
            return ("int", a)
        if a[0] == "op" and a[1] in (">>", "/") and isint(a[3]) and cval(a[3]) == (1 if a[1] == ">>" else 2):
            return bits(a[2])[0]
        if a[0] == "call" and a[1] in ("static_cast", "cast") and len(a[2]) == 1:
            return val(a[2][0])
        raise Unknown(a)

    def whole(h):
        return ("W", h)

    def flip(lo):
        if lo[0] == "c":
            return ("c", 1 - lo[1])
        return lo[1] if lo[0] == "not" else ("not", lo)

    want = {
        ("opposite_term", "term"): (IDX, ("not", SIGN)), ("positive_term", "term"): (IDX, ("c", 0)), ("negative_term", "term"): (IDX, ("c", 1)),
        ("positive_term", "int"): ("I", ("c", 0)), ("negative_term", "int"): ("I", ("c", 1)),
        ("is_negated", "term"): (("c", 0), SIGN), ("index_of", "term"): ("W", IDX),
    }
    for name in ("opposite_term", "positive_term", "negative_term", "is_negated", "index_of"):
        for fn in P.find(NS + name, nparams=1):
            kind = "term" if "term_t" in fn["ps"][0]["t"] else "int"
            w = want.get((name, kind))
            if w is None:
                continue
            I = Interp(P, Hooks())
            for s, k, v in I.run(fn):
                try:
                    got = bits(v)
                except Unknown:
                    continue
                if w[0] == "I":
                    w = (("int", ("p", fn["ps"][0]["n"])), w[1])
                if name == "is_negated" and got[0] == "W":
                    pass
                R.check(got == w, "C13.handle", f"{name}({kind})", F.loc(fn), f"{show(v)} does not give the handle bits {w}")
            R.saw(I)
    for g, c in (("true_term", 2), ("false_term", 3)):
        d = P.vars.get(NS + g)
        if d and d.get("x"):
            try:
                r = Interp(P, Hooks()).eval(d["x"], State())
                x = dict(r[0][1][2])["x"]
            except Exception:
                continue
            if isint(x):
                R.check(cval(x) == c, "C13.handle", g, f"{g}", f"the constant is {show(x)}; the table allocates true as its first term, handle 2")


# ---------------------------------------------------------------- n-ary connectives
def mk_and(P, R):
    """mk_and(args) = opposite(mk_or(args with every element replaced by its opposite))."""
    for fn in P.find(TM + "mk_and", nparams=1):
        loops, calls = {}, []

        class H(TermHooks):
            def call(self, I, st, node, q, obj, args):
                if q == TM + "mk_or":
                    calls.append((I.val(st, args[0]), where(I, node)))
                    return [(st, ("call", "mk_or", (I.val(st, args[0]),)))]
                return super().call(I, st, node, q, obj, args)

            def iter_end(self, I, st, info, how):
                loops.setdefault(info["site"], []).append((info, st, how))

            def loop_exit(self, I, st, info):
                loops.setdefault(info["site"], []).append((info, st, "exit"))

        I = Interp(P, H(R))
        neg = None
        for s, k, v in I.run(fn):
            if k == "ret":
                if v[0] == "call" and v[1] == "opp" and v[2][0][:2] == ("call", "mk_or"):
                    R.ok("C13.nary", "mk_and: result is the negated disjunction")
                elif v[:2] == ("call", "mk_or"):
                    R.bad("C13.nary", "mk_and: result is the negated disjunction", F.loc(fn), f"returns {show(v)}")
        R.saw(I)
        p = fn["ps"][0]
        src = ("p", p["n"])
        for site, evs in loops.items():
            info = evs[0][0]
            for info, st, how in evs:
                if how != "next":
                    continue
                # elements of the argument written, or new elements pushed, in this iteration
                wr = [(lv, v) for lv, v in st.store.items() if lv[0][0] == "L" and lv[0][2] == p["id"] and len(lv[1]) == 1]
                if len(wr) == 1 and wr[0][0][1][0][0] in ("elem", "at"):
                    idx = wr[0][0][1][0][1]
                    v = wr[0][1]
                    el = v[2][0] if v[:2] == ("call", "opp") else v
                    if el[0] == "at" and el[1] == src:
                        R.check(v[:2] == ("call", "opp"), "C13.nary", "mk_and: every argument is negated", F.loc(fn), f"element {show(v)} is not the opposite of the argument")
                        c = covered(I, st, info, idx, src)
                        if c is not None:
                            R.check(c, "C13.nary", "mk_and: all arguments are negated", F.loc(fn), "the loop does not visit every argument")


def facts_eq(st):
    return [(a, b) for (a, b), m in st.rel.items() if m == EQ]


def mk_or(P, R):
    """Loop invariant of the n-ary disjunction: the disjunction of the arguments seen so far is the
    disjunction of the kept prefix; an argument is only dropped when it equals one already represented."""
    for fn in P.find(TM + "mk_or", nparams=1):
        p = fn["ps"][0]
        src = ("p", p["n"])
        loops, writes = {}, {}

        class H(TermHooks):
            widen_counters = True
            merge_limit = 40

            def keep(self, I, st):
                return None

            def iter_begin(self, I, st, info):
                st = st.copy()
                st.auto = ()
                return st

            def write(self, I, st, node, lv, val):
                if lv[0][0] == "L" and lv[0][2] == p["id"] and len(lv[1]) == 1 and isinstance(lv[1][0], tuple) and lv[1][0][0] == "at":
                    st = st.copy()
                    st.auto = (st.auto or ()) + ((lv, val),)
                    return st
                return None

            def iter_end(self, I, st, info, how):
                loops.setdefault(info["site"], []).append((info, st.copy(), how))
                st = st.copy()
                st.auto = ()
                return st

        I = Interp(P, H(R))
        outs = [(s, v) for s, k, v in I.run(fn, State(auto=())) if k == "ret"]
        R.saw(I)
        if len(loops) != 1:
            continue
        site, evs = next(iter(loops.items()))
        lastinfo = evs[-1][0]
        cov = I.coverage(lastinfo)
        if cov is None:
            continue

        def cont(v):
            """The argument list, possibly reordered in place?"""
            while v[0] == "upd":
                v = v[1]
            return v == src or v[0] == "mut"

        def is_elem(v):
            return v[0] == "at" and cont(v[1])

        phis = lambda v: v[0] == "phi" and v[1] == site
        W = F.loc(fn)
        counters, prevs, shape, dropped = set(), set(), True, []
        for info, st, how in evs:
            if how != "next":
                continue
            wr = st.auto or ()
            cur = cursor(I, cov, st, info, cont)
            if cur is None:
                shape = False
                continue
            if wr:
                for lv, v in wr:
                    k = lv[1][0][1]
                    if not (k[0] == "phi" and k[1] == site):
                        shape = False
                        continue
                    counters.add(k)
                    same = v in cur or any((a in cur and b == v) or (b in cur and a == v) for a, b in facts_eq(st)) or any(v == x for x in cur)
                    R.check(same or phis(v), "C13.nary", "mk_or: kept argument is the one looked at", W, f"{show(v)} is stored")
                    end = I.read(st, k[2])
                    R.check(end == I.arith("+", k, C(1)), "C13.nary", "mk_or: the kept prefix grows by the stored argument", W, f"count becomes {show(end)}")
            else:
                eq = [x for a, b in facts_eq(st) for x, y in ((a, b), (b, a)) if y in cur]
                rep = [x for x in eq if x == FALSE_T or is_elem(x) or phis(x)]
                prevs |= {x for x in rep if phis(x)}
                dropped.append(bool(rep))
        if not shape or not counters:
            continue
        for rep in dropped:
            R.check(rep, "C13.nary", "mk_or: an argument is dropped only if it is represented", W, "an iteration ends with the argument neither kept nor known to equal an earlier one")
        # the carried 'previous' really is an argument seen before
        for info, st, how in evs:
            if how == "next":
                cur = cursor(I, cov, st, info, cont)
                for ph in prevs:
                    v = I.read(st, ph[2])
                    if cur is not None and not phis(v) and v not in cur and is_elem(v) is False:
                        R.bad("C13.nary", "mk_or: previous argument", W, f"it becomes {show(v)}")
        # entry: the first argument is in the prefix, or is false and is not
        _, lo, op, hi, step, x = cov if cov[0] == "count" else (0, None, 0, 0, 0, 0)
        for e in lastinfo["entry"]:
            for k in counters:
                c = I.read(e, k[2])
                if not isint(c) or not isint(lo or VOID):
                    continue
                first = [f for f in facts_eq(e) if FALSE_T in f and any(is_elem(t) and t[2] == C(0) for t in f)]
                if cval(lo) == 1:
                    ok = cval(c) == 1 or (cval(c) == 0 and first)
                    R.check(ok, "C13.nary", "mk_or: first argument", W, f"{cval(c)} arguments are kept before the loop but the first one is not known to be false")
                    if cval(c) == 1:
                        elem0 = [t for (a, b), m in e.rel.items() for t in (a, b) if is_elem(t) and t[2] == C(0)]
                        if elem0 and any(m == EQ and FALSE_T in ab for ab, m in e.rel.items()):
                            R.bad("C13.nary", "mk_or: false is not kept", W, "a false first argument is kept")
                elif cval(lo) == 0:
                    R.check(cval(c) == 0, "C13.nary", "mk_or: first argument", W, f"{cval(c)} arguments are kept before any was looked at")
                else:
                    R.bad("C13.nary", "mk_or: first argument", W, f"the loop starts at argument {cval(lo)}")
        if cov[0] == "count" and step == 1 and isint(lo):
            szs = {hi} if hi[:2] == ("call", "size") else set()
            d = None
            if hi[0] == "op" and hi[1] in ("+", "-") and isint(hi[3]) and hi[2][:2] == ("call", "size"):
                d = cval(hi[3]) * (1 if hi[1] == "+" else -1)
            R.check(not (d is not None and op in ("<", "!=") and d < 0), "C13.nary", "mk_or: all arguments are looked at", W, f"the loop ends at {show(hi)}")
        for s, v in outs:
            v0 = v
            if v == TRUE_T:
                def element(t):
                    return is_elem(t) or phis(t)
                why = [1 for a, b in facts_eq(s) for x1, y in ((a, b), (b, a)) if element(x1) and (y == TRUE_T or y[:2] == ("call", "opp") and element(y[2][0]))]
                R.check(why, "C13.nary", "mk_or: true", W, "returns true although no argument is known to be true and no two are known to be opposite")
            elif v == FALSE_T:
                empty = I.mask(s, size(src), C(0)) == EQ or any(I.mask(s, k, C(0)) == EQ for k in counters)
                allf = [1 for a, b in facts_eq(s) if FALSE_T in (a, b)]
                R.check(empty or allf, "C13.nary", "mk_or: false", W, "returns false for a non-empty argument list")
            elif v[:2] == ("call", "or_term"):
                a = v[2][0]
                if a[0] == "call" and a[1] in ("first", "std::span::first") and len(a[2]) == 2 and cont(a[2][0]):
                    n = a[2][-1]
                    R.check(n in counters, "C13.nary", "mk_or: result is the kept prefix", W, f"the first {show(n)} arguments are used")
                    e0 = [t for e in lastinfo["entry"] for (x1, y), m in e.rel.items() for t in (x1, y) if is_elem(t) and t[2] == C(0)]
                    sorted_ = any(base(t)[0] == "mut" for t in e0)
                    if sorted_:
                        R.check(any(all(I.mask(e, t, TRUE_T) & EQ == 0 for e in lastinfo["entry"]) for t in e0), "C13.nary", "mk_or: no constant reaches the table", W, "the first (smallest) argument may be true")
                    elif e0 and n in counters:
                        R.bad("C13.nary", "mk_or: no constant reaches the table", W, "only the first argument is compared with true, but the arguments are not sorted")
            elif phis(v) or is_elem(v):
                one = any(I.mask(s, k, C(1)) & GT == 0 for k in counters) or any(I.mask(s, k, C(2)) & (EQ | GT) == 0 for k in counters)
                eq = any(v in f and (TRUE_T in f) for f in facts_eq(s))
                sz = I.mask(s, size(src), C(1)) & GT == 0
                R.check(one or eq or sz, "C13.nary", "mk_or: a single argument stands for all only if nothing else is kept", W, f"returns {show(v)} although more than one argument may be kept")


def base(t):
    t = t[1]
    while t[0] == "upd":
        t = t[1]
    return t


def cursor(I, cov, st, info, cont):
    """Names of the argument looked at in an iteration."""
    if cov[0] == "range":
        cands = [v for (a, b), m in st.rel.items() for v in (a, b) if v[0] == "at" and cont(v[1]) and v[2] == info["site"]]
        vals = [v for lv, v in st.store.items() if v[0] == "at" and cont(v[1]) and v[2] == info["site"]]
        return set(cands + vals) or None
    x = cov[5]
    cands = [v for (a, b), m in st.rel.items() for v in (a, b) if v[0] == "at" and cont(v[1]) and v[2] == x]
    vals = [v for lv, v in st.store.items() if v[0] == "at" and cont(v[1]) and v[2] == x]
    return set(cands + vals) or None


def check(P, R):
    R.rule("C13.handle", "term handles: bit 0 is the sign, opposite flips exactly it")
    R.rule("C13.connective", "the term returned by a builder denotes the connective on every path")
    R.rule("C13.constants", "no constant becomes an argument of a disjunction stored in the table")
    R.rule("C13.nary", "n-ary and/or: no argument is lost, constants and opposite pairs decide the result, the kept prefix is the result")
    connectives(P, R)
    handle_bits(P, R)
    mk_and(P, R)
    mk_or(P, R)
    R.need(6, "C13.connective")
