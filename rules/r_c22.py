"""C22: operator symbols, applications and substituted definitions build the term they denote."""
import itertools
import os
from linlib import *
from looplib import covered
import absint

EXPLANATION = ("mk_term is analysed once per operator symbol (and once per term kind) with symbolic arguments; the term it returns is evaluated over sample values of the arguments, reading the named builders by their meaning, and compared with the SMT-LIB meaning of the symbol. "
               "Substitution of formal by actual parameters is decided by the effect of one rewriting step on each polarity of each child, plus the formal-to-actual pairing.")
ASSUMPTIONS = ["the named builders mean what they are called (C13, C14)"]

N = 3


def arg(i):
    return ("at", ("p", "args"), C(i))


# meaning of the builders over values (True/False/Fraction)
def _eqall(a):
    return all(x == a[0] for x in a)


BUILD = {
    "mk_arithmetic_geq": lambda a, b: a >= b, "mk_arithmetic_leq": lambda a, b: a <= b, "mk_arithmetic_lt": lambda a, b: a < b, "mk_arithmetic_gt": lambda a, b: a > b,
    "mk_arithmetic_eq": lambda a, b: a == b, "mk_binary_eq": lambda a, b: a == b, "mk_iff": lambda a, b: a == b, "mk_xor": lambda a, b: a != b,
    "mk_implies": lambda a, b: (not a) or b, "mk_binary_or": lambda a, b: a or b, "mk_binary_and": lambda a, b: a and b,
    "mk_arithmetic_minus": lambda a, b: a - b, "mk_unary_minus": lambda a: -a, "mk_divides": lambda a, b: a / b if b else None,
    "mk_ite": lambda c, t, e: t if c else e, "mk_bool_ite": lambda c, t, e: t if c else e, "mk_arithmetic_ite": lambda c, t, e: t if c else e,
}


def _prod(a):
    r = Fraction(1)
    for x in a:
        r *= x
    return r


NARY = {"mk_or": any, "mk_and": all, "mk_eq": _eqall, "mk_arithmetic_plus": sum, "mk_arithmetic_times": _prod}
NAMES = set(BUILD) | set(NARY)

B, Q = "bool", "real"
SYMBOLS = {
    ">=": (2, Q, lambda a: a[0] >= a[1]), "<=": (2, Q, lambda a: a[0] <= a[1]), "<": (2, Q, lambda a: a[0] < a[1]), ">": (2, Q, lambda a: a[0] > a[1]),
    "=": (N, Q, _eqall), "or": (N, B, any), "and": (N, B, all), "=>": (2, B, lambda a: (not a[0]) or a[1]), "not": (1, B, lambda a: not a[0]),
    "-": (2, Q, lambda a: a[0] - a[1]), "- ": (1, Q, lambda a: -a[0]), "+": (N, Q, sum), "*": (N, Q, _prod), "/": (2, Q, lambda a: a[0] / a[1] if a[1] else None),
    "ite": (3, B, lambda a: a[1] if a[0] else a[2]), "xor": (2, B, lambda a: a[0] != a[1]),
}
KINDS = {
    "ARITH_GE_ATOM": (1, Q, lambda a: a[0] >= 0), "ARITH_EQ_ATOM": (1, Q, lambda a: a[0] == 0), "ARITH_BINEQ_ATOM": (2, Q, lambda a: a[0] == a[1]),
    "OR_TERM": (N, B, any), "ARITH_PRODUCT": (N, Q, _prod), "ARITH_POLY": (N, Q, sum), "ITE_TERM": (3, B, lambda a: a[1] if a[0] else a[2]),
}


class Named(TermHooks):
    """Builders stay names; an argument list of known size."""
    widen_counters = True
    entry = None
    nargs = None

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q.startswith(TM) and s in NAMES and len(I.stack) > 0:
            return [(st, ("call", s, tuple(self.lst(elem(I.val(st, a))) for a in args)))]
        if s == "size" and not args and self.nargs is not None and obj is not None and I.val(st, ("ref", obj)) == ("p", "args"):
            return [(st, C(self.nargs))]
        if s in ("front", "back") and not args and obj is not None and I.val(st, ("ref", obj)) == ("p", "args") and self.nargs is not None:
            return [(st, arg(0 if s == "front" else self.nargs - 1))]
        return super().call(I, st, node, q, obj, args)

    def lst(self, v):
        it = flat(v)
        return v if it is None else ("vec", tuple(elem(x) for x in it))


def value(v, env, n):
    """Value of a returned term under env: argument index -> value."""
    v = elem(v)
    if v == TRUE_T:
        return True
    if v == FALSE_T:
        return False
    if v == ZERO_T:
        return Fraction(0)
    if v[0] == "at" and v[1] == ("p", "args") and isint(v[2]):
        return env[cval(v[2])]
    if v[0] == "call" and v[1] == "opp":
        return not value(v[2][0], env, n)
    if v[0] == "call" and v[1] in BUILD:
        return BUILD[v[1]](*[value(x, env, n) for x in v[2]])
    if v[0] == "call" and v[1] in NARY and len(v[2]) == 1:
        a = v[2][0]
        it = flat(a)
        if a == ("p", "args"):
            return NARY[v[1]]([env[i] for i in range(n)])
        if it is None and a[0] == "call" and a[1].split("::")[-1] in ("subspan", "first", "last") and a[2][0] == ("p", "args") and all(isint(x) for x in a[2][1:]):
            k = [cval(x) for x in a[2][1:]]
            full = [env[i] for i in range(n)]
            m = a[1].split("::")[-1]
            return NARY[v[1]](full[:k[0]] if m == "first" else full[-k[0]:] if m == "last" else full[k[0]:][:k[1]] if len(k) > 1 else full[k[0]:])
        if it is not None:
            return NARY[v[1]]([value(x, env, n) for x in it])
    raise Unknown(v)


def samples(n, ty):
    vals = (False, True) if ty == B else (Fraction(-2), Fraction(1, 2), Fraction(3))
    return itertools.product(vals, repeat=n)


def judge(R, rule, what, fn, v, n, ty, spec, st):
    try:
        for env in samples(n, ty):
            want = spec(env)
            if want is None:
                continue
            got = value(v, env, n)
            if got != want:
                return R.bad(rule, what, F.loc(fn), f"builds {show(v)}, which is {got} for ({', '.join(map(str, env))}); the symbol means {want}")
    except (Unknown, TypeError, IndexError) as e:
        if os.environ.get("DBG22"):
            print("UNKNOWN", what, v, repr(e))
        return None
    return R.ok(rule, what)


def operators(P, R):
    fns = [f for f in P.find(TM + "mk_term") if "string" in f["ps"][0]["t"]]
    for fn in fns:
        for op, (n, ty, spec) in SYMBOLS.items():
            h = Named(R)
            h.nargs = n
            I = Interp(P, h)
            a = [C(op.strip()), ("p", "args")] + [("p", p["n"]) for p in fn["ps"][2:]]
            for s, k, v in I.run(fn, args=a):
                if k == "throw":
                    R.bad("C22.symbol", op, F.loc(fn), f"({op.strip()} with {n} arguments) is rejected")
                if k == "ret":
                    judge(R, "C22.symbol", op.strip() + f"/{n}", fn, v, n, ty, spec, s)
            R.saw(I)
        distinct(P, R, fn)


def distinct(P, R, fn):
    """distinct: the conjunction, over all pairs, of the negated equality."""
    pairs, cov = [], []

    class H(Named):
        def loop_exit(self, I, st, info):
            cov.append((info["site"], I.coverage(info), info))

    I = Interp(P, H(R))
    src = ("p", "args")
    for s, k, v in I.run(fn, args=[C("distinct"), src] + [("p", p["n"]) for p in fn["ps"][2:]]):
        if k == "throw":
            R.bad("C22.symbol", "distinct", F.loc(fn), "distinct is rejected")
        if k != "ret":
            continue
        neg = False
        while v[:2] == ("call", "opp"):
            v, neg = v[2][0], not neg
        if v[0] != "call" or v[1] not in ("mk_and", "mk_or"):
            continue
        it = v[2][0]
        if it[0] != "vec" or not it[1]:
            continue
        # in conjunctive form
        conj = (v[1] == "mk_and") != neg
        if not conj:
            R.check(False, "C22.symbol", "distinct", F.loc(fn), f"builds {show(v)} instead of a conjunction")
            continue
        for x in it[1]:
            y = x[1] if x[0] == "each" else x
            n = neg
            while y[:2] == ("call", "opp"):
                y, n = y[2][0], not n
            if y[0] != "call" or y[1] not in ("mk_eq", "mk_binary_eq", "mk_arithmetic_eq"):
                continue
            ab = flat(y[2][0]) if len(y[2]) == 1 else list(y[2])
            if ab is None or len(ab) != 2 or any(z[0] != "at" or z[1] != src for z in map(elem, ab)):
                continue
            ab = [elem(z) for z in ab]
            R.check(n, "C22.symbol", "distinct: each pair is made different", F.loc(fn), "a pair is made equal")
            R.check(ab[0] != ab[1], "C22.symbol", "distinct: pairs of different arguments", F.loc(fn), f"compares {show(ab[0])} with itself")
            allpairs(R, fn, ab[0][2], ab[1][2], cov, src)
    R.saw(I)


def allpairs(R, fn, i, j, cov, src):
    """Counted loops i over [0, size) or [0, size-1), j over [i+1, size) (or the mirror image)."""
    if os.environ.get("DBG22"):
        print("COV", i, j, [(s_, c_, n_.get("conj")) for s_, c_, n_ in cov])
    by = {c[5]: c for _, c, info in cov if c is not None and c[0] == "count"}
    if i not in by or j not in by:
        return
    for a, b in ((i, j), (j, i)):
        _, lo, op, hi, step, _ = by[b]
        if not mentions(lo, a) and not mentions(hi, a):
            continue
        sz = size(src)
        W = F.loc(fn)
        inner = (lo == ("op", "+", a, C(1)) and strip(hi) == sz and op in ("<", "!=") and step == 1) or (lo == C(0) and hi == a and op in ("<", "!=") and step == 1)
        _, lo2, op2, hi2, step2, _ = by[a]
        outer = step2 == 1 and isint(lo2) and (cval(lo2) == 0 or (cval(lo2) == 1 and hi == a)) and (strip(hi2) == sz and op2 in ("<", "!=") or hi2 == ("op", "-", sz, C(1)) and op2 in ("<", "<=", "!=") and hi != a or hi2 == ("op", "+", sz, C(-1)) and op2 in ("<", "!=") and hi != a
                                                                                                     or a_plus_one(lo2, hi2, op2, sz))
        recognised = all(isint(x) or x == a or mentions(x, sz) or mentions(x, a) for x in (lo, hi, lo2, hi2))
        if os.environ.get("DBG22"):
            print("PAIRS", a, b, lo, op, hi, step, lo2, op2, hi2, step2)
        if recognised:
            R.check(inner and outer, "C22.symbol", "distinct: all pairs", W, f"the pairs run over {show(lo2)}..{show(hi2)} and {show(lo)}..{show(hi)}: not all pairs of arguments")
        return


def a_plus_one(lo, hi, op, sz):
    return False


def strip(v):
    while v[0] == "call" and v[1] == "static_cast" and len(v[2]) == 1:
        v = v[2][0]
    return v


def kinds(P, R):
    K = P.enum(NS + "Kind")
    for fn in P.find(TM + "mk_term"):
        if "Kind" not in fn["ps"][0]["t"]:
            continue
        for kind, (n, ty, spec) in KINDS.items():
            h = Named(R)
            h.nargs = n
            I = Interp(P, h)
            for s, k, v in I.run(fn, args=[C(K[kind]), ("p", "args")]):
                if k == "throw":
                    R.bad("C22.rebuild", kind, F.loc(fn), "a term of this kind cannot be rebuilt")
                if k == "ret":
                    judge(R, "C22.rebuild", kind, fn, v, n, ty, spec, s)
            R.saw(I)


# ---------------------------------------------------------------- applications
def applications(P, R):
    for fn in P.find(TM + "mk_app", nparams=3):
        p = [("p", x["n"]) for x in fn["ps"]]
        h = TermHooks(R)
        h.names = ("get_term_by_name",)
        cov = []

        class H(TermHooks):
            names = ("get_term_by_name",)
            widen_counters = True

            def loop_exit(self, I, st, info):
                cov.append((info, st))
        I = Interp(P, H(R))
        for s, k, v in I.run(fn):
            if k != "ret" or v[:2] != ("call", "app_term"):
                continue
            ty, lst = v[2]
            R.check(ty == p[1], "C22.application", "type", F.loc(fn), f"the application gets type {show(ty)}")
            if lst[0] != "vec":
                continue
            items = list(lst[1])
            each = [x for x in items if x[0] == "each"]
            sym = [i for i, x in enumerate(items) if x[0] != "each" and mentions_any(x, lambda t: isinstance(t, tuple) and t[:2] == ("call", "get_term_by_name"))]
            R.check(sym == [0], "C22.application", "symbol first", F.loc(fn), "the function symbol is not the first item of the application")
            if sym:
                R.check(mentions(items[sym[0]], p[0]), "C22.application", "symbol", F.loc(fn), f"the symbol is {show(items[sym[0]])}")
            vals = {x[1] for x in each}
            if len(items) == 2 and len(vals) == 1 and next(iter(vals))[0] == "at":
                x = next(iter(vals))
                R.check(x[1] == p[2], "C22.application", "arguments", F.loc(fn), f"the arguments are {show(x)}")
                for info, st in cov:
                    c = covered(I, st, info, x[2], p[2])
                    if c is not None:
                        R.check(c, "C22.application", "every argument", F.loc(fn), "not every argument is passed on")
            elif each:
                R.check(len(vals) == 1, "C22.application", "arguments", F.loc(fn), "an argument is replaced by something else")
        R.saw(I)


# ---------------------------------------------------------------- definitions
def plain(v):
    """Look through dereferenced reference parameters."""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "*":
            return plain(v[1])
        return tuple(plain(x) for x in v)
    return v


def resolve(P, R):
    """define-fun: formal parameter i is replaced by actual argument i in the body."""
    for fn in P.find("yaga::parser::resolve"):
        if fn.get("b") is None:
            continue
        ps = [("p", x["n"]) for x in fn["ps"]]
        ins, cov, subst = [], [], []

        class H(TermHooks):
            widen_counters = True

            def keep(self, I, st):
                return st.auto

            def call(self, I, st, node, q, obj, args):
                s = q.split("::")[-1]
                if q == NS + "simultaneous_variable_substitution":
                    vs = [I.val(st, a) for a in args]
                    subst.append((vs, where(I, node), st.auto))
                    return [(st, ("call", "subst", tuple(vs)))]
                if obj is not None and s in ("insert", "emplace", "insert_or_assign", "try_emplace", "operator[]") and ("map" in q):
                    vs = [I.val(st, a) for a in args]
                    if s == "operator[]":
                        return [(st, ("ref", (("M", ("substmap",)), (("at", vs[0]),))))]
                    if s == "insert" and len(vs) == 1 and vs[0][0] == "agg":
                        d = dict(vs[0][2])
                        vs = [d.get("first"), d.get("second")]
                    if len(vs) == 2:
                        ins.append(([plain(v) for v in vs], where(I, node)))
                        st = st.copy()
                        st.auto = (st.auto or 0) + 1
                        st.auto = min(st.auto, 2)
                        return [(st, VOID)]
                return super().call(I, st, node, q, obj, args)

            def write(self, I, st, node, lv, val):
                if lv[0] == ("M", ("substmap",)) and len(lv[1]) == 1:
                    ins.append(([plain(lv[1][0][1]), plain(elem(val))], where(I, node)))
                    st = st.copy()
                    st.auto = min((st.auto or 0) + 1, 2)
                    return st
                return super().write(I, st, node, lv, val)

            def iter_begin(self, I, st, info):
                st = st.copy()
                st.auto = 0
                return st

            def iter_end(self, I, st, info, how):
                ends.append((st.auto, how))
                st = st.copy()
                st.auto = 0
                return st

            def loop_exit(self, I, st, info):
                cov.append((info, st))
        ends = []
        I = Interp(P, H(R))
        out = I.run(fn, State(auto=0))
        R.saw(I)
        W = F.loc(fn)
        formal = ("fld", ("fld", ps[0], "signature"), "args")
        starred = ("fld", ("fld", ("*", ps[0]), "signature"), "args")
        for vs, w in ins:
            if all(v is not None and v[0] == "at" for v in vs):
                f, a = vs
                R.check(f[1] == formal and a[1] == ps[1], "C22.definition", "formal to actual", w, f"{show(f)} is replaced by {show(a)}")
                R.check(f[2] == a[2], "C22.definition", "same position", w, f"parameter {show(f[2])} gets argument {show(a[2])}")
                for info, st in cov:
                    cs = [covered(I, st, info, f[2], c) for c in (formal, ps[1], starred)]
                    if any(c is not None for c in cs):
                        R.check(any(c for c in cs), "C22.definition", "every parameter", w, "not every parameter is replaced")
        for n, how in ends:
            R.check(n != 0, "C22.definition", "every parameter", W, "a parameter is skipped")
        for vs, w, _ in subst:
            R.check(plain(vs[2]) == ("fld", ps[0], "body"), "C22.definition", "body", w, f"the substitution is applied to {show(vs[2])}")
        for s, k, v in out:
            if k == "ret":
                R.check(v[:2] == ("call", "subst"), "C22.definition", "result", W, f"the result is {show(v)}")


# ---------------------------------------------------------------- rewriting
ITEND = ("itend",)


class RwHooks(TermHooks):
    """Substitution maps: a lookup splits into found / not found; R(t) is what positive t is rewritten to.
    auto = (events of the loops being executed, innermost last)."""
    merge_limit = 400

    def __init__(self, R):
        super().__init__(R)
        self.ends = []

    def keep(self, I, st):
        return st.auto

    def table(self, I, st, node, s, vs):
        if s == "positive_term" and vs[0][:2] == ("call", "positive_term"):
            return [(st, vs[0])]
        if s == "is_negated":
            return [(s2, C(b)) for s2, b in I.split(st, ("call", s, vs))]
        return [(st, ("call", s, vs))]

    def ev(self, st, e):
        st = st.copy()
        st.auto = st.auto[:-1] + (st.auto[-1] + (e,),)
        return st

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        nm = obj[1][-1] if obj is not None and obj[1] else None
        kind = None
        if obj is not None:
            kind = "map" if "_map::" in q or "std::map::" in q else "set" if "_set::" in q or "std::set::" in q else None
        if kind:
            vs = [elem(I.val(st, a)) for a in args]
            if s in ("insert", "emplace", "insert_or_assign"):
                if kind == "map" and len(vs) == 1 and vs[0][0] == "agg":
                    d = dict(vs[0][2])
                    vs = [d.get("first"), d.get("second")]
                return [(self.ev(st, (kind, *vs)), VOID)]
            if kind == "map" and s == "at":
                return [(st, ("R", vs[0]))]
            if kind == "map" and s == "find":
                out = []
                for s2, b in I.split(st, ("call", "known", (vs[0],))):
                    it = ("itk", vs[0])
                    s2 = I.assume_rel(s2, it, ITEND, LT | GT) if b else s2
                    out.append((s2, it if b else ITEND))
                return out
            if s in ("contains", "count"):
                if kind == "map":
                    return [(s2, C(b)) for s2, b in I.split(st, ("call", "known", (vs[0],)))]
                return [(st, ("call", "done", (vs[0],)))]
            if s == "find":
                return [(s2, ("itd", vs[0]) if b else ITEND) for s2, b in ((I.assume_rel(z, ("itd", vs[0]), ITEND, LT | GT) if c else z, c) for z, c in I.split(st, ("call", "done", (vs[0],))))]
            if s in ("end", "cend"):
                return [(st, ITEND)]
            if s == "reserve":
                return [(st, VOID)]
        if s == "rewrite" and "Config" in q:
            v = elem(I.val(st, args[0]))
            return [(self.ev(st, ("cfg", v)), ("call", "cfg", (v,)))]
        if q.startswith(TM) and s in ("mk_term", "mk_app"):
            return [(st, ("call", s, tuple(I.val(st, a) for a in args)))]
        if q.startswith("std::vector::") and s in ("push_back", "emplace_back") and obj is not None:
            v = I.val(st, args[0])
            while v[0] == "agg" and len(v[2]) >= 1 and dict(v[2]).get("term") is not None:
                v = dict(v[2])["term"]
            return ("cont", self.ev(st, ("push", obj, elem(v))))
        return super().call(I, st, node, q, obj, args)

    def iter_begin(self, I, st, info):
        st = st.copy()
        st.auto = st.auto + ((),)
        return st

    def iter_end(self, I, st, info, how):
        self.ends.append((info, st.copy(), how, len(st.auto)))
        st = st.copy()
        evs, rest = st.auto[-1], st.auto[:-1]
        if len(st.auto) == 3 and ("chg",) not in rest[-1]:
            for e in evs:
                if e[0] == "push" and any(fact(st, ("call", "known", (("call", "positive_term", (x,)),))) for x in walk_at(e[2])) or e[0] == "push" and canon(st, e[2])[0] == "new":
                    rest = rest[:-1] + (rest[-1] + (("chg",),),)
                    break
        st.auto = rest
        return st


def fact(st, v):
    f = st.facts if isinstance(st.facts, dict) else dict(st.facts)
    return f.get(v)


def canon(st, v):
    """A rewritten term relative to the original: ('same', t), ('new', t, flipped) or None."""
    flip = False
    while v[:2] == ("call", "opp"):
        v, flip = v[2][0], not flip
    if v[0] == "fld" and v[2] == "second":
        k = plain(v[1])
        if k[0] == "itk":
            v = ("R", k[1])
    if v[0] == "R" and v[1][:2] == ("call", "positive_term"):
        return ("new", v[1][2][0], flip)
    if v[:2] == ("call", "positive_term"):
        n = fact(st, ("call", "is_negated", (v[2][0],)))
        return ("same", v[2][0]) if n is not None and n == flip else ("flipped", v[2][0])
    return ("same", v) if not flip else ("flipped", v)


def replaced(R, what, W, st, orig, v):
    """v must be what `orig` is rewritten to."""
    c = canon(st, v)
    known = fact(st, ("call", "known", (("call", "positive_term", (orig,)),)))
    neg = fact(st, ("call", "is_negated", (orig,)))
    if c[0] == "new":
        R.check(c[1] == orig, "C22.rewrite", what, W, f"{show(orig)} is replaced by what {show(c[1])} is rewritten to")
        if c[1] == orig:
            R.check(neg is not None and neg == c[2], "C22.rewrite", what + ": polarity", W, f"the polarity of {show(orig)} is lost or flipped")
    else:
        R.check(c == ("same", orig), "C22.rewrite", what, W, f"{show(orig)} is replaced by {show(v)}")
        if known is not None:
            R.check(known is False, "C22.rewrite", what + ": result used", W, f"the rewritten form of {show(orig)} is not used")


def rewriter(P, R):
    RW = NS + "Rewriter::rewrite"
    for fn in [f for f in P.fns.values() if f["q"] == RW and f.get("b") is not None]:
        root = ("p", fn["ps"][0]["n"])
        W = F.loc(fn)
        h = RwHooks(R)
        I = Interp(P, h)
        try:
            outs = I.run(fn, State(auto=((),)))
        except Limit:
            continue
        R.saw(I)
        for s, k, v in outs:
            if k == "ret":
                replaced(R, "result", W, s, root, v)
        for info, st, how, lvl in h.ends:
            evs = st.auto[-1]
            pushes = [e for e in evs if e[0] == "push"]
            cfg = [e for e in evs if e[0] == "cfg"]
            if lvl == 3:        # one child of the finished term
                el = {x for e in pushes for x in walk_at(e[2])}
                if len(pushes) != 1:
                    R.check(len(pushes) == 0 and not info.get("range"), "C22.rewrite", "argument list", W, f"{len(pushes)} arguments are stored for one child")
                elif len(el) == 1:
                    x = next(iter(el))
                    replaced(R, "child", W, st, x, pushes[0][2])
                    c = covered(I, st, info, x[2], x[1])
                    if c is not None:
                        R.check(c, "C22.rewrite", "every child", W, "not every child is passed on")
                continue
            if lvl != 2:
                continue
            if cfg:
                more, late = more_children(st)
                R.check(more is False or more is None and not late, "C22.rewrite", "children first", W, "a term is rewritten although a child has not been looked at")
                maps = [e for e in evs if e[0] == "map"]
                sets = [e for e in evs if e[0] == "set"]
                cur = sets[0][1] if len(sets) == 1 else None
                R.check(len(cfg) == 1 and len(sets) == 1 and len(maps) <= 1, "C22.rewrite", "once per term", W, f"{len(cfg)} rewritings, {len(sets)} marks, {len(maps)} results")
                for e in maps:
                    R.check(e[2] == ("call", "cfg", (cfg[0][1],)), "C22.rewrite", "recorded result", W, f"{show(e[2])} is recorded as the result")
                    if cur is not None:
                        R.check(e[1] == cur, "C22.rewrite", "recorded term", W, f"the result is recorded for {show(e[1])}")
                n = cfg[0][1]
                R.check(("chg",) not in evs or n[0] == "call" and n[1] in ("mk_term", "mk_app"), "C22.rewrite", "changed child noticed", W, "the term is kept as it is although a child was rewritten")
                if n[:2] == ("call", "mk_term") and cur is not None:
                    R.check(n[2][0] == ("call", "get_kind", (cur,)), "C22.rewrite", "rebuilt with its kind", W, f"rebuilt as {show(n[2][0])}")
                    R.check(fact(st, ("call", "is_app", (cur,))) is not True, "C22.rewrite", "rebuilt application", W, "an application is rebuilt without its function symbol")
                    R.check(bool(maps), "C22.rewrite", "changed child recorded", W, "a term with a rewritten child is not recorded")
                elif n[:2] == ("call", "mk_app") and cur is not None:
                    R.check(mentions(n[2][0], ("call", "get_fnc_symbol", (cur,))) and n[2][1] == ("call", "get_type", (cur,)), "C22.rewrite", "rebuilt application", W, f"rebuilt with {show(n[2][0])}, {show(n[2][1])}")
                    R.check(bool(maps), "C22.rewrite", "changed child recorded", W, "a term with a rewritten child is not recorded")
            else:
                R.check(not [e for e in evs if e[0] in ("map", "set")], "C22.rewrite", "marked only when rewritten", W, "a term is marked although it was not rewritten")
                for e in pushes:
                    el = set(walk_at(e[2]))
                    if len(el) == 1:
                        x = next(iter(el))
                        c = canon(st, e[2])
                        R.check(e[2] == ("call", "positive_term", (x,)) or fact(st, ("call", "is_negated", (x,))) is False, "C22.rewrite", "positive terms are rewritten", W, f"{show(e[2])} is put on the worklist")


def walk_at(v):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "at" and v[1][:2] == ("call", "get_args"):
            yield v
            return
        for x in v:
            yield from walk_at(x)


def variable(P, R):
    """The substitution replaces exactly the positive uninterpreted terms that are in the map."""
    for fn in P.find(NS + "VarSubstituteConfig::rewrite", nparams=1):
        t = ("p", fn["ps"][0]["n"])

        class H(TermHooks):
            def call(self, I, st, node, q, obj, args):
                s = q.split("::")[-1]
                if obj is not None and "map" in q and s in ("find", "at", "end", "contains", "count"):
                    vs = tuple(elem(I.val(st, a)) for a in args)
                    return [(st, ("call", "m" + s, vs))]
                return super().call(I, st, node, q, obj, args)
        I = Interp(P, H(R))
        for s, k, v in I.run(fn):
            if k != "ret":
                continue
            if v == t:
                inmap = [1 for (a, b), m in s.rel.items() if m == LT | GT and {x[1] for x in (a, b) if x[0] == "call"} == {"mfind", "mend"}]
                R.check(not inmap, "C22.definition", "variable", F.loc(fn), "a term that is in the substitution is left alone")
            else:
                ok = mentions_any(v, lambda x: isinstance(x, tuple) and x[:1] == ("call",) and len(x) == 3 and x[1] in ("mfind", "mat") and x[2] == (t,))
                R.check(ok, "C22.definition", "variable", F.loc(fn), f"the term is replaced by {show(v)}")
                if ok:
                    sec = [x for x in [v] if x[0] == "fld" and x[2] in ("second", "first")]
                    R.check(not sec or sec[0][2] == "second", "C22.definition", "variable", F.loc(fn), f"the term is replaced by {show(v)}")
        R.saw(I)


def check(P, R):
    R.rule("C22.symbol", "each operator symbol of the input language builds a term with the meaning of that symbol, with its arguments in their order")
    R.rule("C22.rebuild", "a term rebuilt from its kind and new arguments has the meaning of that kind")
    R.rule("C22.application", "an application consists of the function symbol followed by every argument in order")
    R.rule("C22.definition", "applying a defined function replaces each formal parameter by the argument of the same position")
    R.rule("C22.rewrite", "rewriting a term uses the rewritten form of each child with the child's polarity, keeps kind, type and function symbol, and is done once per positive term")
    operators(P, R)
    kinds(P, R)
    applications(P, R)
    resolve(P, R)
    variable(P, R)
    rewriter(P, R)
    R.need(15, "C22.symbol")
    R.need(6, "C22.rebuild")
