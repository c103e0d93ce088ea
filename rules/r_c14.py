"""C14: arithmetic term builders denote the operation or comparison they are built for."""
from linlib import *
from looplib import covered

EXPLANATION = ("Every path of the arithmetic term builders is analysed with symbolic arguments; polynomials are linear forms over the arguments with symbolic coefficients. The returned term or atom is compared with the "
               "mathematical operation by identity testing of linear forms, under the facts of its path (number of monomials, which monomial is constant, coefficients that cancel).")
ASSUMPTIONS = ["rational arithmetic is exact (C10)", "the term table builds the atom or term it is asked for (C26)", "sparse polynomial operations (merge, negate, multiply_by, divide_by) act on linear forms as their names say"]

RND = 20261119


def mono(v, part):
    """('fld', ('at', ('fld', lin, 'poly'), i), part) -> (lin, i)"""
    if v[0] == "fld" and v[2] == part and v[1][0] == "at":
        src = v[1][1]
        if src[0] == "fld" and src[2] == "poly":
            src = src[1]
        if src[0] == "lin" and isint(v[1][2]):
            return src, cval(v[1][2])
    return None


def subterms(v, acc):
    if isinstance(v, tuple):
        acc.add(v)
        for x in v:
            subterms(x, acc)
    return acc


def sizes(st, l, lo):
    """The number of monomials of a form, when the path determines it (monomials looked at exist)."""
    cand = []
    for n in range(lo, 8):
        good = True
        for (a, b), m in st.rel.items():
            for x, y, mm in ((a, b, m), (b, a, absint.FLIP[m])):
                if x == ("call", "size", (l,)) and isint(y):
                    r = LT if n < cval(y) else EQ if n == cval(y) else GT
                    good &= bool(r & mm)
        if good:
            cand.append(n)
    return cand[0] if len(cand) == 1 else None


def point(rnd, st, params, extra, fixed=None):
    """A random point consistent with the path's facts, or None. Monomials of a linear form the code
    looked into become its definition: the first parameter is solved so that the form has that value."""
    env = Env(rnd, fixed)
    terms = set()
    for t in list(extra) + [x for ab in st.rel for x in ab] + list(st.facts):
        subterms(t, terms)
    for v in terms:
        if v and v[0] == "call" and len(v) == 3 and v[1] in ("coeff_of_product", "var_of_product"):
            t = elem(v[2][0])
            env.val[t] = env.sym(("call", "coeff_of_product", v[2])) * env.sym(("call", "var_of_product", v[2]))
    monos = {}
    for v in terms:
        for part in ("var", "coeff"):
            m = mono(v, part) if v and v[0] == "fld" and len(v) == 3 else None
            if m:
                monos.setdefault(m[0], {}).setdefault(m[1], {})[part] = v
    eqs = [(a, b) for (a, b), m in st.rel.items() if m == EQ]
    # which monomials are the constant one, which terms are constants
    for a, b in eqs:
        for x, y in ((a, b), (b, a)):
            if y == UNDEF and mono(x, "var"):
                env.val[x] = Fraction(1)
            if y == ZERO_T and x in params:
                env.val[x] = Fraction(0)
    for a, b in eqs:
        if a in params and b in params:
            env.val[a] = env.val[b] = env.sym(a)
    # linear facts about coefficients
    for a, b in eqs:
        try:
            syms = [s for s in subterms((a, b), set()) if s and s[0] == "fld" and len(s) == 3 and mono(s, "coeff") and s not in env.val]
        except Exception:
            syms = []
        if not syms:
            continue
        s = sorted(syms, key=repr)[0]
        for o in syms:
            if o != s:
                env.num(o)
        def f(x):
            env.val[s] = Fraction(x)
            r = env.num(a) - env.num(b)
            del env.val[s]
            return r
        try:
            f0, f1, f2 = f(1), f(2), f(3)
        except Unknown:
            continue
        if f2 - f1 != f1 - f0 or f1 == f0:
            continue
        env.val[s] = 1 - f0 / (f1 - f0)
    # sizes: a form with n known monomials is their sum
    for l, ms in monos.items():
        if extra and not any(mono(x, p) and mono(x, p)[0] == l for t in extra for x in subterms(t, set()) if x and x[0] == "fld" and len(x) == 3 for p in ("var", "coeff")):
            continue
        n = sizes(st, l, max(ms) + 1)
        if n is None:
            return None
        tot = Fraction(0)
        for i in range(n):
            src = ("at", ("fld", l, "poly"), C(i))
            c = ms.get(i, {}).get("coeff")
            v = ms.get(i, {}).get("var")
            tot += env.num(c if c is not None else ("fld", src, "coeff")) * env.term(v if v is not None else ("fld", src, "var"))
        # solve the first parameter
        p = next((q for q in params if q not in env.val and any(v == ("var", q) for v, _ in l[1])), None)
        if p is None:
            return None
        def g(x):
            env.val[p] = Fraction(x)
            r = env.lin(l) - tot
            del env.val[p]
            return r
        g0, g1 = g(0), g(1)
        if g0 == g1:
            return None
        env.val[p] = -g0 / (g1 - g0)
    for a, b in eqs:
        for x, y in ((a, b), (b, a)):
            if x[:1] == ("call",) and x[1] == "size" and y == C(0) and x[2][0][0] == "lin":
                l = x[2][0]
                p = next((q for q in params if q not in env.val and any(v == ("var", q) for v, _ in l[1])), None)
                if p is None:
                    continue
                env.val[p] = Fraction(0)
                g0 = env.lin(l)
                env.val[p] = Fraction(1)
                g1 = env.lin(l)
                if g0 != g1:
                    env.val[p] = -g0 / (g1 - g0)
    return env


def atom(v):
    """-> (polarity, kind, form) with form a list of (term, coefficient): form = 0 or form >= 0."""
    pol = True
    while v[:2] == ("call", "opp"):
        pol, v = not pol, v[2][0]
    if v[0] == "call" and v[1] == "arithmetic_eq_zero":
        return pol, "eq", [(v[2][0], 1)]
    if v[0] == "call" and v[1] == "arithmetic_binary_eq":
        return pol, "eq", [(v[2][0], 1), (v[2][1], -1)]
    if v[0] == "call" and v[1] == "arithmetic_geq_zero":
        return pol, "ge", [(v[2][0], 1)]
    if v[0] == "call" and v[1] == "mk_arithmetic_geq":
        return pol, "ge", [(v[2][0], 1), (v[2][1], -1)]
    if v[0] == "call" and v[1] == "mk_arithmetic_eq":
        return pol, "eq", [(v[2][0], 1), (v[2][1], -1)]
    if v in (TRUE_T, FALSE_T):
        return pol, "const", v
    return None


COMPARE = {"mk_arithmetic_eq": ("eq", True, (1, -1)), "mk_arithmetic_geq": ("ge", True, (1, -1)), "mk_arithmetic_leq": ("ge", True, (-1, 1)),
           "mk_arithmetic_lt": ("ge", False, (1, -1)), "mk_arithmetic_gt": ("ge", False, (-1, 1)), "direct_arithmetic_binary_equality": ("eq", True, (1, -1))}


def comparisons(P, R):
    for name, (kind, pol, signs) in COMPARE.items():
        for fn in P.find(TM + name, nparams=2):
            params = [("p", p["n"]) for p in fn["ps"]]
            I = Interp(P, LinHooks(R))
            W = F.loc(fn)
            for s, k, v in I.run(fn):
                if k != "ret":
                    continue
                try:
                    a = atom(v)
                    if a is None:
                        continue
                    judge(R, s, name, W, a, v, kind, pol, signs, params)
                except Unknown:
                    undecided(R, name, v)
            R.saw(I)


def known_consts(s):
    """Real terms whose sign against a number is known on the path: [(term, number, mask)]"""
    return [(a, b, m) for (a, b), m in s.rel.items()]


def judge(R, s, name, W, a, v, kind, pol, signs, params):
    p, k, form = a
    rnd = random.Random(RND)
    if k == "const":
        val = (form == TRUE_T) == p
        # the constant must follow from the facts of the path: find points on the path that refute it
        if kind == "eq":
            got = []
            for _ in range(6):
                env = point(rnd, s, params, [])
                if env is None:
                    raise Unknown(v)
                got.append(sum(c * env.term(x) for c, x in zip(signs, params)) == 0)
            if not any(m == EQ for m in s.rel.values()):
                raise Unknown(v)
            R.check(all(x == val for x in got), "C14.compare", name, W, f"returns {show(v)} although the operands may {'differ' if val else 'be equal'} there: {facts(s)}")
            return
        # ordering: the sign of the difference is known from a comparison of its constant value
        for (x, y), m in s.rel.items():
            for u, w, mm in ((x, y, m), (y, x, absint.FLIP[m])):
                if u[:2] == ("call", "arithmetic_constant_value") and w == C(0):
                    env = Env(rnd)
                    r = None
                    for _ in range(4):
                        env = Env(rnd)
                        d = sum(c * env.term(z) for c, z in zip(signs, params))
                        if d == 0:
                            continue
                        q = env.term(u[2][0]) / d
                        r = q if r in (None, q) else "no"
                    if r in (None, "no", 0):
                        raise Unknown(v)
                    if r < 0:
                        mm = absint.FLIP[mm]
                    # difference d has relation mm to 0; truth of (d >= 0) resp. not
                    poss = {(b in (EQ, GT)) == pol for b in (LT, EQ, GT) if mm & b}
                    R.check(poss == {val}, "C14.compare", name, W, f"returns {show(v)} when the constant difference may be {'negative' if val else 'non-negative'}: {facts(s)}")
                    return
        if any(m == EQ and x in params and y in params for (x, y), m in s.rel.items()):
            R.check(val == pol, "C14.compare", name, W, f"returns {show(v)} for equal operands")
            return
        raise Unknown(v)
    if k != kind:
        R.bad("C14.compare", name, W, f"returns {show(v)}, {'an equality' if k == 'eq' else 'an ordering'} atom")
        return
    # the form must be a fixed multiple of the difference: keep the coefficients and move the variables
    good = proportional(s, v, form, signs, params)
    if good is None:
        raise Unknown(v)
    ok = good == "yes+" or good == "yes-" and kind == "eq"
    R.check(ok and p == pol, "C14.compare", name, W, f"returns {'' if p else 'the negation of '}{show(v)}, which is not the comparison asked for: {facts(s)}")


def proportional(s, v, form, signs, params):
    """Is the form a fixed multiple of the difference for all values of the variables?"""
    res = set()
    for seed in range(3):
        rnd = random.Random(RND + seed)
        env = point(rnd, s, params, [v])
        if env is None:
            return None
        fixed = {k: x for k, x in env.val.items() if k[0] == "fld" and mono(k, "coeff") or k[0] == "fld" and mono(k, "var") and x == 1 and is_undef(s, k)}
        ratio = None
        for j in range(4):
            e2 = point(random.Random(RND * 7 + seed * 31 + j), s, params, [v], fixed)
            if e2 is None:
                return None
            d = sum(c * e2.term(x) for c, x in zip(signs, params))
            f = sum(c * e2.term(t) for t, c in form)
            if d == 0:
                if f != 0:
                    return "no"
                continue
            r = f / d
            if r == 0 or ratio is not None and r != ratio:
                return "no"
            ratio = r
        if ratio is None:
            return None
        res.add(ratio > 0)
    return "yes+" if res == {True} else "yes-"


def is_undef(s, k):
    return any(m == EQ and UNDEF in ab and k in ab for ab, m in s.rel.items())


def undecided(R, name, v):
    R.notes.setdefault("paths_not_decided", []).append(f"{name}: {show(v)}")


def facts(s):
    out = [f"{show(a)} == {show(b)}" for (a, b), m in s.rel.items() if m == EQ] + [f"{show(a)} {'!' if not b else ''}holds" for a, b in s.facts.items()]
    return "; ".join(out[:6]) or "no facts"


def operations(P, R):
    spec = {"mk_arithmetic_minus": (2, lambda e, a, b: e.term(a) - e.term(b)), "mk_unary_minus": (1, lambda e, a: -e.term(a))}
    for name, (n, f) in spec.items():
        for fn in P.find(TM + name, nparams=n):
            params = [("p", p["n"]) for p in fn["ps"]]
            I = Interp(P, LinHooks(R))
            for s, k, v in I.run(fn):
                if k != "ret":
                    continue
                try:
                    value(R, s, "C14.operation", name, F.loc(fn), v, params, f)
                except Unknown:
                    undecided(R, name, v)
            R.saw(I)


def value(R, s, rule, name, W, v, params, f):
    got = []
    for i in range(4):
        env = point(random.Random(RND + i), s, params, [v])
        if env is None:
            raise Unknown(v)
        got.append(env.term(v) == f(env, *params))
    R.check(all(got), rule, name, W, f"returns {show(v)}; {facts(s)}")


class Sums(LinHooks):
    """Watches accumulators: auto = values at the start of the iteration."""

    def __init__(self, R):
        super().__init__(R)
        self.steps, self.covs = {}, {}

    def keep(self, I, st):
        return None

    def accs(self, st, entry=None):
        return tuple((k, v) for k, v in st.store.items() if (entry is None or all(k in e.store for e in entry)) and k[0][0] == "L" and not k[1] and (v[0] in ("lin", "phi", "q", "vec") or is_c(v) and isinstance(cval(v), (int, Fraction)) and not isinstance(cval(v), bool)))

    def iter_begin(self, I, st, info):
        st = st.copy()
        st.auto = self.accs(st, info["entry"])
        return st

    def iter_end(self, I, st, info, how):
        if how == "next":
            self.steps.setdefault(info["site"], []).append((info, st.copy()))
        st = st.copy()
        st.auto = ()
        return st

    def loop_exit(self, I, st, info):
        self.covs[info["site"]] = info


def accumulations(P, R):
    """term_to_poly and n-ary sums: the accumulator grows by exactly the element of every iteration."""
    for name in ("term_to_poly", "mk_arithmetic_plus"):
        for fn in P.find(TM + name, nparams=1):
            W = F.loc(fn)
            h = Sums(R)
            I = Interp(P, h)
            par = ("p", fn["ps"][0]["n"])
            outs = [(s, v) for s, k, v in I.run(fn, State(auto=())) if k == "ret"]
            R.saw(I)
            cont = ("call", "monomials_of", (par,)) if name == "term_to_poly" else par
            good = set()
            for site, evs in h.steps.items():
                for info, st in evs:
                    before = dict(st.auto)
                    for k, v in st.store.items():
                        if k not in before or before[k][0] not in ("lin", "phi") or v[0] not in ("lin", "phi"):
                            continue
                        if not any(I.read(e, k)[0] == "lin" for e in info["entry"]):
                            continue
                        d = lin_add(v, before[k], C(-1))
                        els = [x[1] for x, c in d[1] if x[0] == "var" and x[1][0] == "at" and x[1][1] == cont]
                        ok = len(d[1]) == 1 and len(els) == 1 and d[1][0][1] == C(1)
                        if d[1] or els:
                            R.check(ok, "C14.sum", f"{name}: each addend", W, f"an iteration adds {show(d)}")
                            c = covered(I, st, info, els[0][2], cont) if ok else None
                            if c is not None:
                                R.check(c, "C14.sum", f"{name}: all addends", W, "the loop does not visit every addend once")
                        else:
                            R.bad("C14.sum", f"{name}: each addend", W, "an iteration adds nothing")
                        good.add(site)
                        for e in info["entry"]:
                            ev = I.read(e, k)
                            R.check(ev == ("lin", ()), "C14.sum", f"{name}: start", W, f"the sum starts as {show(ev)}")
            for s, v in outs:
                x = v[2][0] if v[:2] == ("call", "tp") else v
                if x[0] == "phi":
                    R.check(x[1] in good, "C14.sum", f"{name}: result", W, f"returns {show(v)}")
                elif name == "term_to_poly" and x[0] == "lin":
                    try:
                        val = []
                        for i in range(4):
                            env = point(random.Random(RND + i), s, [par], [v])
                            if env is None:
                                raise Unknown(v)
                            val.append(env.lin(x) == env.term(par))
                        if s.facts.get(("call", "is_arithmetic_polynomial", (par,))):
                            raise Unknown(v)
                        R.check(all(val), "C14.sum", "term_to_poly: value", W, f"returns {show(v)} where {facts(s)}")
                    except Unknown:
                        undecided(R, name, v)


def monomials(P, R):
    """poly_to_term: each monomial becomes a term of its value; all of them are in the result."""
    for fn in P.find(TM + "poly_to_term", nparams=1):
        W = F.loc(fn)
        par = ("p", fn["ps"][0]["n"])
        pushed = {}

        class H(LinHooks):
            def keep(self, I, st):
                return None

            def iter_begin(self, I, st, info):
                st = st.copy()
                st.auto = ()
                return st

            def call(self, I, st, node, q, obj, args):
                r = super().call(I, st, node, q, obj, args)
                if r is None and q.split("::")[-1] in ("push_back", "emplace_back") and len(args) == 1:
                    st = st.copy()
                    st.auto = (st.auto or ()) + (elem(I.val(st, args[0])),)
                    return ("cont", st)
                return r

            def iter_end(self, I, st, info, how):
                if how == "next":
                    pushed.setdefault(info["site"], []).append((info, st.copy()))
                st = st.copy()
                st.auto = ()
                return st

        I = Interp(P, H(R))
        outs = [(s, v) for s, k, v in I.run(fn, State(auto=())) if k == "ret"]
        R.saw(I)

        def mono_value(s, v, m, what):
            res = []
            for i in range(4):
                env = Env(random.Random(RND + i))
                cf, vr = ("fld", m, "coeff"), ("fld", m, "var")
                for (a, b), k in s.rel.items():
                    if k == EQ:
                        for x, y in ((a, b), (b, a)):
                            if x == vr and y == UNDEF:
                                env.val[vr] = Fraction(1)
                            if x == cf and is_c(y):
                                env.val[cf] = Fraction(cval(y))
                want = env.num(cf) * env.term(vr)
                res.append(env.term(v) == want)
            R.check(all(res), "C14.sum", "poly_to_term: value of a monomial", W, f"{what} {show(v)} where {facts(s)}")
            if v == vr and not any(UNDEF in ab and vr in ab for ab in s.rel):
                R.bad("C14.sum", "poly_to_term: the constant monomial has no variable", W, f"{what} {show(v)} without excluding the constant monomial")

        for site, evs in pushed.items():
            for info, st in evs:
                els = {x for v in st.auto for x in subterms(v, set()) if x and x[0] == "at" and len(x) == 3 and x[2] == site}
                if len(st.auto) != 1:
                    if st.auto == ():
                        R.bad("C14.sum", "poly_to_term: every monomial", W, "an iteration adds no monomial")
                    continue
                if len(els) == 1:
                    mono_value(st, st.auto[0], els.pop(), "pushes")
        for s, v in outs:
            ms = {x for x in subterms(v, set()) if x and x[0] == "at" and len(x) == 3 and isint(x[2])}
            if v == ZERO_T:
                R.check(I.mask(s, ("call", "size", (par,)), C(0)) == EQ or I.mask(s, ("call", "size", (("*", par),)), C(0)) == EQ, "C14.sum", "poly_to_term: zero", W, f"returns 0 where {facts(s)}")
            elif len(ms) == 1 and v[:2] != ("call", "arithmetic_polynomial"):
                try:
                    mono_value(s, v, ms.pop(), "returns")
                except Unknown:
                    undecided(R, "poly_to_term", v)


def solve(env, x, eqs):
    """Give x the value that satisfies an equation it occurs in (linearly)."""
    for a, b in eqs:
        if x not in subterms((a, b), set()) or x in env.val:
            continue

        def f(t):
            env.val[x] = Fraction(t)
            try:
                return env.num(a) - env.num(b)
            finally:
                del env.val[x]
        try:
            f0, f1, f2 = f(0), f(1), f(2)
        except Unknown:
            continue
        if f2 - f1 == f1 - f0 != 0:
            env.val[x] = -f0 / (f1 - f0)


def canonical(P, R):
    """A product built from a coefficient and a variable does not have coefficient one (x and 1 * x would be different terms)."""
    for name in ("mk_arithmetic_times", "poly_to_term"):
        for fn in P.find(TM + name, nparams=1):
            seen = {}

            class H(Sums if name == "mk_arithmetic_times" else LinHooks):
                def keep(self, I, st):
                    return None

                def call(self, I, st, node, q, obj, args):
                    if q.split("::")[-1] == "arithmetic_product" and len(args) == 2:
                        c = I.val(st, args[0])
                        opaque = any(c in subterms(f, set()) for f in st.facts)
                        seen.setdefault(c, []).append((I.mask(st, c, C(1)), opaque))
                    return super().call(I, st, node, q, obj, args)
            I = Interp(P, H(R))
            I.run(fn, State(auto=()))
            R.saw(I)
            for c, ms in seen.items():
                R.check(not any(m & EQ and not o for m, o in ms), "C14.canonical", f"{name}: coefficient {show(c)[:60]}", F.loc(fn), f"builds a product with coefficient {show(c)} which may be one")


def product(P, R):
    for fn in P.find(TM + "mk_arithmetic_times", nparams=1):
        W = F.loc(fn)
        par = ("p", fn["ps"][0]["n"])
        h = Sums(R)
        h.keep = lambda I, st: frozenset((k, m) for k, m in st.rel.items() if m == EQ)
        I = Interp(P, h)
        outs = [(s, v) for s, k, v in I.run(fn, State(auto=())) if k == "ret"]
        R.saw(I)
        good = {}
        for site, evs in h.steps.items():
            for info, st in evs:
                for k, b in st.auto:
                    v = st.store.get(k)
                    if v is None or v == b:
                        continue
                    # v = b * constant value of the element
                    el = [x for x in subterms(v, set()) if x and x[:2] == ("call", "arithmetic_constant_value") and x[2][0][0] == "at" and x[2][0][1] == par]
                    if len(el) != 1:
                        continue
                    env = Env(random.Random(RND))
                    R.check(env.num(v) == env.num(b) * env.num(el[0]), "C14.product", "each factor", W, f"an iteration turns {show(b)} into {show(v)}")
                    for e in info["entry"]:
                        R.check(I.read(e, k) == C(1), "C14.product", "start", W, f"the product starts as {show(I.read(e, k))}")
                    good[("phi", site, k)] = info
        for s, v in outs:
            try:
                phis = {x for x in subterms(v, set()) | {y for ab in s.rel for y in subterms(ab, set())} if x in good}
                pits = {x for x in subterms(v, set()) | {y for ab in s.rel for y in subterms(ab, set())} if x and x[0] == "it" and len(x) == 3 and x[2][0] == "partition"}
                n = next((k for k in (0, 1) if I.mask(s, ("call", "size", (par,)), C(k)) == EQ), None)
                if n is not None:
                    env = Env(random.Random(RND))
                    R.check(env.term(v) == (1 if n == 0 else env.term(("at", par, C(0)))), "C14.product", f"{n} factors", W, f"returns {show(v)}")
                    continue
                if len(phis) != 1 or len(pits) != 1:
                    raise Unknown(v)
                phi, pit = phis.pop(), pits.pop()
                rest = ("at", par, pit[2])
                none = any(m == EQ and pit in ab and any(x != pit and x[0] == "it" and x[2] == ("e", 0) for x in ab) for ab, m in s.rel.items())
                res = []
                for i in range(4):
                    env = point(random.Random(RND + i), s, [], [v])
                    solve(env, phi, [(a, b) for (a, b), m in s.rel.items() if m == EQ])
                    want = env.num(phi) * (1 if none else env.term(rest))
                    res.append(env.term(v) == want)
                R.check(all(res), "C14.product", "result", W, f"returns {show(v)} where {facts(s)}")
            except Unknown:
                undecided(R, "mk_arithmetic_times", v)
    for fn in P.find(TM + "mk_divides", nparams=2):
        a, b = (("p", p["n"]) for p in fn["ps"])

        class D(LinHooks):
            names = ("mk_arithmetic_times",)
        I = Interp(P, D(R))
        for s, k, v in I.run(fn):
            if k != "ret":
                continue
            try:
                res = []
                for i in range(4):
                    env = point(random.Random(RND + i), s, [], [v])
                    if v[:2] == ("call", "mk_arithmetic_times"):
                        it = flat(v[2][0])
                        if it is None:
                            raise Unknown(v)
                        got = Fraction(1)
                        for x in it:
                            got *= env.term(x)
                    else:
                        got = env.term(v)
                    res.append(got == env.term(a) / env.term(b))
                R.check(all(res), "C14.product", "quotient", F.loc(fn), f"returns {show(v)} where {facts(s)}")
            except Unknown:
                undecided(R, "mk_divides", v)
        R.saw(I)


def conditionals(P, R):
    for fn in P.find(TM + "mk_arithmetic_ite", nparams=3):
        c, t, e = (("p", p["n"]) for p in fn["ps"])
        I = Interp(P, LinHooks(R))

        def pick(v, env):
            while v[:2] == ("call", "arithmetic_ite"):
                v = v[2][1] if truth(v[2][0], env) else v[2][2]
            return v
        for s, k, v in I.run(fn):
            if k != "ret":
                continue
            try:
                same = any(m == EQ and set(ab) == {t, e} for ab, m in s.rel.items())
                for env in assignments([c], s):
                    got, want = pick(v, env), t if env[c] else e
                    if got not in (t, e):
                        raise Unknown(v)
                    R.check(got == want or same, "C14.ite", f"condition {env[c]}", F.loc(fn), f"returns {show(v)} where {facts(s)}")
            except Unknown:
                undecided(R, "mk_arithmetic_ite", v)
        R.saw(I)
    # dispatch on the type of the arguments
    class T(LinHooks):
        names = ("mk_bool_ite", "mk_arithmetic_ite", "mk_iff", "mk_arithmetic_eq", "mk_xor")
    for name, n, table in (("mk_ite", 3, {0: "mk_bool_ite", 1: "mk_arithmetic_ite"}), ("mk_binary_eq", 2, {0: "mk_iff", 1: "mk_arithmetic_eq"})):
        for fn in P.find(TM + name, nparams=n):
            params = [("p", p["n"]) for p in fn["ps"]]
            I = Interp(P, T(R))
            for s, k, v in I.run(fn):
                if k != "ret" or v[0] != "call" or v[1] not in T.names:
                    continue
                ty = {cval(y) for (a, b), m in s.rel.items() if m == EQ for x, y in ((a, b), (b, a)) if x[:2] == ("call", "get_type") and x[2][0] in params[n - 2:] and isint(y)}
                if len(ty) != 1:
                    continue
                w = table.get(ty.pop())
                args = list(v[2])
                ok = v[1] == w and (args == params or n == 2 and sorted(args) == sorted(params))
                R.check(ok, "C14.dispatch", f"{name} -> {w}", F.loc(fn), f"returns {show(v)} for arguments of the other type or in the wrong order")
            R.saw(I)


def check(P, R):
    R.rule("C14.compare", "the atom returned by a comparison builder is the comparison asked for, on every path")
    R.rule("C14.operation", "the term returned by an arithmetic builder has the value of the operation")
    R.rule("C14.sum", "sums and conversions between terms and linear forms keep the value: every addend exactly once, each with its coefficient")
    R.rule("C14.product", "products and quotients have the value of the operation")
    R.rule("C14.canonical", "no product is built with coefficient one, so equal products are equal terms")
    R.rule("C14.ite", "an arithmetic if-then-else denotes the selected branch for both values of the condition")
    R.rule("C14.dispatch", "equality and if-then-else are built by the builder for the type of their arguments")
    comparisons(P, R)
    operations(P, R)
    accumulations(P, R)
    monomials(P, R)
    product(P, R)
    canonical(P, R)
    conditionals(P, R)
    R.need(5, "C14.compare")
    R.need(2, "C14.operation")
