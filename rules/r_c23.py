"""C23: names refer to what they are bound to: scopes, shadowing, parallel let, declarations."""
from linlib import *
from looplib import covered
import absint

EXPLANATION = ("The scope stack is decided by its effect per operation: which names, values and frame limits each operation pushes, pops, restores or erases on every path. "
               "Lookup is decided by precedence (local bindings, then definitions, then declared symbols). The term parser is decided by the effect of each step of its two loops.")
ASSUMPTIONS = ["the lexer delivers the tokens of the input (generated code)", "std containers behave as documented"]

PN = "yaga::parser::"
LR, LB, PC, TP = PN + "Let_records::", PN + "Let_binder::", PN + "Parser_context::", PN + "Smt2_term_parser::"
THIS = ("p", "this")
NOIT = ("noit",)
NONE = ("none",)
GT = absint.GT


def fieldv(name):
    return ("fld", THIS, name)


def final(st, name):
    return pl(st.store.get((("M", THIS), (name,)), fieldv(name)))


def field_of(P, cls, pred):
    r = P.rec(PN + cls)
    fs = [f["n"] for f in r["fields"] if pred(f["t"])]
    return fs[0] if len(fs) == 1 else None


def pl(v):
    """Look through dereferenced parameters and moves."""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "*" and v[1][:1] == ("p",):
            return v[1]
        return tuple(pl(x) for x in v)
    return v


def binder(P, R):
    cur = field_of(P, "Let_binder", lambda t: t.endswith("term_t"))
    old = field_of(P, "Let_binder", lambda t: t.startswith("std::vector") or t.startswith("std::stack"))
    if cur is None or old is None:
        return
    C0, S0 = fieldv(cur), fieldv(old)

    def run(name, n):
        for fn in P.find(LB + name, nparams=n):
            I = Interp(P, TermHooks(R))
            for s, k, v in I.run(fn):
                if k == "ret":
                    yield fn, s, v, F.loc(fn), [("p", x["n"]) for x in fn["ps"]]
            R.saw(I)
    for fn, s, v, W, ps in run("add_value", 1):
        R.check(final(s, old) == ("push", S0, C0), "C23.shadow", "a shadowed value is kept", W, f"the stack of shadowed values becomes {show(final(s, old))}")
        R.check(final(s, cur) == ps[0], "C23.shadow", "the new value is current", W, f"the current value becomes {show(final(s, cur))}")
    for fn, s, v, W, ps in run("restore_shadowed_value", 0):
        R.check(final(s, cur) == ("at", S0, ("last",)), "C23.shadow", "the last shadowed value is restored", W, f"the current value becomes {show(final(s, cur))}")
        R.check(final(s, old) == ("pop", S0), "C23.shadow", "a restored value is no longer kept", W, f"the stack of shadowed values becomes {show(final(s, old))}")
    for fn, s, v, W, ps in run("get_value", 0):
        R.check(pl(v) == C0, "C23.shadow", "lookup gives the current value", W, f"returns {show(v)}")
    for fn, s, v, W, ps in run("has_shadow_value", 0):
        t = I_truth(s, pl(v), S0)
        if t is not None:
            R.check(t, "C23.shadow", "shadowed values are noticed", W, f"returns {show(v)}")
    for fn, s, v, W, ps in run("Let_binder", 1):
        if "term_t" in fn["ps"][0]["t"] and "Let_binder" not in fn["ps"][0]["t"]:
            R.check(final(s, cur) == ps[0] and final(s, old) == ("vec", ()), "C23.shadow", "a new binding", W, f"a new binding holds {show(final(s, cur))}")


def I_truth(st, v, S0):
    """v == (size(S0) != 0)?"""
    sz = size(S0)
    if v[0] == "cmp" and sz in v[2:]:
        op, a, b = v[1:]
        if b == sz:
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if isint(b):
            c = cval(b)
            tab = {"!=": lambda n: n != c, ">": lambda n: n > c, ">=": lambda n: n >= c, "==": lambda n: n == c, "<": lambda n: n < c, "<=": lambda n: n <= c}
            return all(tab[op](n) == (n != 0) for n in range(4))
    if v[0] == "c":
        m = None
        for (x, y), mm in st.rel.items():
            x, y = pl(x), pl(y)
            if x == sz and y == C(0):
                m = mm
            elif y == sz and x == C(0):
                m = absint.FLIP[mm]
        if m is not None:
            return (v[1] in (True, 1)) == (not m & EQ)
    return None


class Scopes(TermHooks):
    """The map of bindings as events; auto = (events, one tuple per loop level)."""

    def __init__(self, R):
        super().__init__(R)
        self.ends = []
        self.cov = []

    def keep(self, I, st):
        return st.auto

    def ev(self, st, e):
        st = st.copy()
        st.auto = st.auto[:-1] + (st.auto[-1] + (e,),)
        return st

    def key(self, obj):
        r = obj[0]
        if r[0] == "M" and r[1][0] in ("itk", "bnd"):
            return r[1][1]
        return None

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if obj is not None and ("unordered_map::" in q or "std::map::" in q):
            vs = [pl(I.val(st, a)) for a in args]
            if s in ("find", "contains", "count"):
                out = []
                for s2, b in I.split(st, ("call", "bound", (vs[0],))):
                    if s != "find":
                        out.append((s2, C(b)))
                    else:
                        it = ("itk", vs[0]) if b else NOIT
                        out.append((I.assume_rel(s2, it, NOIT, LT | GT) if b else s2, it))
                return out
            if s in ("end", "cend"):
                return [(st, NOIT)]
            if s == "at":
                return [(st, ("ref", (("M", ("bnd", vs[0])), ("second",))))]
            if s == "erase" and len(vs) == 1:
                k = vs[0][1] if vs[0][0] == "itk" else vs[0]
                return [(self.ev(st, ("erase", k)), VOID)]
            if s in ("insert", "emplace", "try_emplace", "insert_or_assign", "operator[]"):
                if s == "insert" and len(vs) == 1 and vs[0][0] == "agg":
                    d = dict(vs[0][2])
                    vs = [d.get("first"), d.get("second")]
                if s in ("operator[]", "insert_or_assign"):
                    return [(self.ev(st, (s, *vs)), VOID)]
                return [(s2 if b else self.ev(s2, ("insert", *vs)), ("agg", "std::pair", (("first", ("itk", vs[0])), ("second", C(not b))))) for s2, b in I.split(st, ("call", "bound", (vs[0],)))]
        if q.startswith(LB) and obj is not None and s in ("add_value", "restore_shadowed_value", "get_value", "has_shadow_value"):
            k = self.key(obj)
            if k is not None:
                vs = [pl(I.val(st, a)) for a in args]
                if s == "has_shadow_value":
                    return [(s2, C(b)) for s2, b in I.split(st, ("call", "shadowed", (k,)))]
                if s == "get_value":
                    return [(st, ("call", "value", (k,)))]
                return [(self.ev(st, (s, k, *vs)), VOID)]
        return self.other(I, st, node, q, obj, args)

    def other(self, I, st, node, q, obj, args):
        return super().call(I, st, node, q, obj, args)

    def iter_begin(self, I, st, info):
        st = st.copy()
        st.auto = st.auto + ((),)
        return st

    def iter_end(self, I, st, info, how):
        self.ends.append((info, st.copy(), how, len(st.auto)))
        st = st.copy()
        st.auto = st.auto[:-1]
        return st

    def loop_exit(self, I, st, info):
        self.cov.append((info, st.copy()))


def fact(st, v):
    return st.facts.get(v)


def records(P, R):
    known = field_of(P, "Let_records", lambda t: "vector<std::basic_string" in t or "stack<std::basic_string" in t)
    limits = field_of(P, "Let_records", lambda t: "vector<unsigned" in t or "stack<unsigned" in t)
    if known is None or limits is None:
        return
    K0, L0 = fieldv(known), fieldv(limits)

    def run(name, n):
        for fn in P.find(LR + name, nparams=n):
            h = Scopes(R)
            I = Interp(P, h)
            outs = [(s, v) for s, k, v in I.run(fn, State(auto=((),))) if k == "ret"]
            R.saw(I)
            yield fn, h, I, outs, F.loc(fn), [("p", x["n"]) for x in fn["ps"]]

    for fn, h, I, outs, W, ps in run("push_frame", 0):
        for s, v in outs:
            R.check(final(s, limits) == ("push", L0, size(K0)), "C23.scope", "a new scope starts after the names bound so far", W, f"the scope limits become {show(final(s, limits))}")
            R.check(pl(final(s, known)) == K0 and not s.auto[0], "C23.scope", "opening a scope changes no binding", W, "a binding is changed")
    for fn, h, I, outs, W, ps in run("add_binding", 2):
        for s, v in outs:
            R.check(pl(final(s, known)) == ("push", K0, ps[0]), "C23.scope", "the bound name belongs to the current scope", W, f"the names of the open scopes become {show(final(s, known))}")
            ev = s.auto[0]
            has = fact(s, ("call", "bound", (ps[0],)))
            adds = [e for e in ev if e[0] == "add_value"]
            ins = [e for e in ev if e[0] == "insert"]
            if any(e[0] in ("operator[]", "insert_or_assign") for e in ev):
                if has is not False and not adds:
                    R.bad("C23.scope", "shadowing", W, "an outer binding of the same name is overwritten")
                continue
            if has is True:
                R.check(adds == [("add_value", ps[0], ps[1])], "C23.scope", "a bound name is shadowed", W, "the value of a name that is already bound is not shadowed by the new one")
            elif has is False:
                ok = len(ins) == 1 and len(ins[0]) == 3 and ins[0][1] == ps[0] and not adds
                R.check(ok, "C23.scope", "a new name is bound", W, "a new name is not bound")
                if ok and ins[0][2] is not None and ins[0][2][0] == "agg":
                    R.check(mentions(ins[0][2], ps[1]), "C23.scope", "a new name is bound", W, f"the name is bound to {show(ins[0][2])}")
    for fn, h, I, outs, W, ps in run("get", 1):
        for s, v in outs:
            has = fact(s, ("call", "bound", (ps[0],)))
            if has is True:
                R.check(v == ("some", ("call", "value", (ps[0],))) or pl(v) == ("some", ("fld", ("fld", ("*", ("itk", ps[0])), "second"), "current_value")), "C23.scope", "lookup", W, f"a bound name gives {show(v)}")
            elif has is False:
                R.check(v == NONE, "C23.scope", "lookup", W, f"an unbound name gives {show(v)}")
    for fn, h, I, outs, W, ps in run("pop_frame", 0):
        for s, v in outs:
            R.check(final(s, limits) == ("pop", L0), "C23.scope", "closing a scope forgets one limit", W, f"the scope limits become {show(final(s, limits))}")
        lim = ("at", L0, ("last",))
        for info, st, how, lvl in h.ends:
            if lvl != 2:
                continue
            ev = st.auto[-1]
            kn = pl(final(st, known))
            if kn[0] not in ("pop", "push", "phi", "fld"):
                continue
            base = kn[1] if kn[0] == "pop" else None
            R.check(base is not None and base[0] in ("phi", "fld"), "C23.scope", "each name of the closed scope is handled once", W, f"the names of the open scopes become {show(kn)}")
            if base is None:
                continue
            name = ("at", base, ("last",))
            sh = fact(st, ("call", "shadowed", (name,)))
            if fact(st, ("call", "bound", (name,))) is False:
                continue
            if not ev or any(e[1] != name for e in ev):
                R.check(not ev and sh is None, "C23.scope", "the closed binding", W, f"the binding of {show(ev[0][1]) if ev else 'no name'} is closed instead of that of the last name")
                if not ev:
                    R.bad("C23.scope", "the closed binding", W, "a binding of the closed scope stays in force")
                continue
            R.check(len(ev) == 1, "C23.scope", "one binding closed", W, f"{len(ev)} changes for one name")
            if sh is True:
                R.check(ev[0][0] == "restore_shadowed_value", "C23.scope", "the outer binding is restored", W, "a shadowed outer binding is lost")
            elif sh is None and ev[0][0] in ("erase", "restore_shadowed_value"):
                R.bad("C23.scope", "the outer binding is restored", W, "a binding is closed without regard to an outer binding of the same name")
            elif sh is False:
                R.check(ev[0][0] == "erase", "C23.scope", "the name is unbound", W, "a name without outer binding stays bound")
            szk = size(base)
            m = rel_mask(st, szk, lim)
            if m is not None:
                R.check(not m & EQ, "C23.scope", "only names of the closed scope", W, "a name of an outer scope may be unbound")
        if not any(lvl == 2 for _, _, _, lvl in h.ends) and not h.cov:
            R.check(not any(final(s, known) == ("pop", K0) for s, v in outs), "C23.scope", "every name of the closed scope", W, "at most one name of the closed scope is unbound")
        for info, st in h.cov:
            kn = pl(final(st, known))
            m = rel_mask(st, size(kn), lim)
            if m is None:
                for (x, y), mm in st.rel.items():
                    x, y = pl(x), pl(y)
                    for a, b, m2 in ((x, y, mm), (y, x, absint.FLIP[mm])):
                        if a == size(kn) and b[:3] == ("op", "+", lim) and isint(b[3]) and not m2 & GT:
                            R.check(cval(b[3]) <= (0 if m2 & EQ else 1), "C23.scope", "every name of the closed scope", W, "a name of the closed scope may stay bound")
            if m is not None:
                R.check(not m & GT, "C23.scope", "every name of the closed scope", W, "a name of the closed scope may stay bound")


def rel_mask(st, a, b):
    m = None
    for (x, y), mm in st.rel.items():
        x, y = pl(x), pl(y)
        if (x, y) == (a, b):
            m = mm
        elif (x, y) == (b, a):
            m = absint.FLIP[mm]
    return m


# ---------------------------------------------------------------- the parser context
class Ctx(Scopes):
    """Operations of the scope stack and of the tables of functions as events."""

    def other(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        vs = lambda: tuple(pl(I.val(st, a)) for a in args)
        if q.startswith(LR):
            v = vs()
            if s == "get":
                return [(s2, ("some", ("call", "local", v)) if b else NONE) for s2, b in I.split(st, ("call", "is_local", v))]
            return [(self.ev(st, (s, *v)), VOID)]
        if q.startswith(PN + "Defined_functions::") or q.startswith(PN + "Declared_functions::"):
            t = "defined" if "Defined" in q else "declared"
            v = vs()
            if s == "has":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", t, v))]
            if s == "get":
                return [(st, ("ref", (("M", ("call", t + "_get", v)), ())))]
            return [(self.ev(st, (t, *v)), VOID)]
        if q.startswith(TM):
            v = vs()
            if s in ("mk_uninterpreted_constant",):
                st = self.ev(st, ("fresh", *v))
                return [(st, ("call", "fresh", v + (("c", len(st.auto[-1])),)))]
            if s == "set_term_name":
                return [(self.ev(st, ("name", *v)), VOID)]
            if s == "get_term_by_name":
                return [(st, ("some", ("call", "by_name", v)))]
            return [(st, ("call", s, v))]
        if q == PN + "resolve" or q == PC + "resolve_defined_function" and len(I.stack) > 1 and False:
            return [(st, ("call", "resolve", vs()))]
        return TermHooks.call(self, I, st, node, q, obj, args)


def const(P, name):
    """The value of a named constant."""
    return Interp(P, Hooks()).const_global(NS + name)


def context(P, R):
    def run(name, n, args=None):
        for fn in P.find(PC + name, nparams=n):
            h = Ctx(R)
            I = Interp(P, h)
            outs = [(s, v) for s, k, v in I.run(fn, State(auto=((),)), **({"args": args} if args else {})) if k == "ret"]
            R.saw(I)
            yield fn, h, I, outs, F.loc(fn), [("p", x["n"]) for x in fn["ps"]]

    for lit, want in (("true", TRUE_T), ("false", FALSE_T)):
        for fn, h, I, outs, W, ps in run("get_term_for_symbol", 1, [C(lit)]):
            for s, v in outs:
                R.check(v == want or fact(s, ("call", "is_local", (C(lit),))), "C23.lookup", lit, W, f"{lit} means {show(v)}")
    for fn, h, I, outs, W, ps in run("get_term_for_symbol", 1):
        n = (ps[0],)
        for s, v in outs:
            if v in (TRUE_T, FALSE_T):
                continue
            loc, dfn = fact(s, ("call", "is_local", n)), fact(s, ("call", "defined", n))
            v = pl(v)
            if loc is True:
                R.check(v == ("call", "local", n), "C23.lookup", "local bindings come first", W, f"a locally bound name means {show(v)}")
            elif v == ("call", "by_name", n):
                R.check(loc is False and dfn is False, "C23.lookup", "declared symbols come last", W, "a declared symbol hides a local binding or a definition")
            elif mentions(v, ("call", "defined_get", n)):
                R.check(loc is False, "C23.lookup", "definitions after local bindings", W, "a definition hides a local binding")
                R.check(v == ("fld", ("*", ("call", "defined_get", n)), "body"), "C23.lookup", "defined constant", W, f"a defined constant means {show(v)}")
            elif loc is False and dfn is True:
                R.bad("C23.lookup", "definitions before declared symbols", W, f"a defined name means {show(v)}")
    for lit, want in (("Bool", const(P, "types::bool_type")), ("Real", const(P, "types::real_type"))):
        for fn, h, I, outs, W, ps in run("get_type_for_symbol", 1, [C(lit)]):
            for s, v in outs:
                if isint(v):
                    R.check(v == want, "C23.declare", "sort " + lit, W, f"the sort {lit} means type {show(v)}")
    for fn, h, I, outs, W, ps in run("add_let_bindings", 1):
        one_per_item(R, h, I, outs, W, ps[0], "let")
    for fn, h, I, outs, W, ps in run("bind_vars", 1):
        sorted_vars(R, h, I, outs, W, ps[0])
    for name, want in (("pop_let_bindings", ("pop_frame",)), ("push_binding_scope", ("push_frame",)), ("pop_binding_scope", ("pop_frame",))):
        for fn, h, I, outs, W, ps in run(name, 0):
            for s, v in outs:
                R.check(s.auto[0] == (want,), "C23.scope", name, W, f"{name} does {[e[0] for e in s.auto[0]]}")
    for fn, h, I, outs, W, ps in run("declare_uninterpreted_constant", 2):
        for s, v in outs:
            fr = [e for e in s.auto[0] if e[0] == "fresh"]
            nm = [e for e in s.auto[0] if e[0] == "name"]
            R.check(len(fr) == 1 and mentions(fr[0], ps[0]), "C23.declare", "a new constant of the declared sort", W, f"the constant gets sort {show(fr[0][1]) if fr else '(none)'}")
            R.check(len(nm) == 1 and nm[0][1][:2] == ("call", "fresh") and nm[0][2] == ps[1], "C23.declare", "the constant gets the declared name", W, "the constant is not given its name")
            R.check(v[:2] == ("call", "fresh"), "C23.declare", "the new constant is returned", W, f"returns {show(v)}")
    for fn, h, I, outs, W, ps in run("declare_uninterpreted_function", 3):
        for s, v in outs:
            fr = [e for e in s.auto[0] if e[0] == "fresh"]
            nm = [e for e in s.auto[0] if e[0] == "name"]
            dc = [e for e in s.auto[0] if e[0] == "declared"]
            R.check(len(fr) == 1 and mentions(fr[0], ps[0]), "C23.declare", "a new function symbol", W, "no symbol for the function")
            R.check(len(nm) == 1 and nm[0][1][:2] == ("call", "fresh") and nm[0][2] == ps[2], "C23.declare", "the function gets the declared name", W, "the function symbol is not given its name")
            R.check(len(dc) == 1 and dc[0][1] == ps[2], "C23.declare", "the signature is recorded under the name", W, "the signature is not recorded under the name of the function")
            if len(dc) == 1 and dc[0][2][0] == "agg":
                d = {k: pl(x) for k, x in dc[0][2][2]}
                R.check(d.get("arg_types") in (None, ps[1]) and d.get("return_type") in (None, ps[0]), "C23.declare", "the signature", W, "the recorded signature is not the declared one")
    for fn, h, I, outs, W, ps in run("store_defined_fun", 4):
        for s, v in outs:
            dc = [e for e in s.auto[0] if e[0] == "defined"]
            R.check(len(dc) == 1 and dc[0][1] == ps[0], "C23.declare", "a definition is recorded under its name", W, "the definition is not recorded under its name")
            if len(dc) == 1 and dc[0][2][0] == "agg":
                d = {k: pl(x) for k, x in dc[0][2][2]}
                sig = d.get("signature")
                R.check(d.get("body") in (None, ps[1]), "C23.declare", "definition: body", W, f"the body is {show(d.get('body'))}")
                if sig is not None and sig[0] == "agg":
                    g = {k: pl(x) for k, x in sig[2]}
                    R.check(g.get("args") in (None, ps[2]), "C23.declare", "definition: parameters", W, f"the parameters are {show(g.get('args'))}")
    for fn, h, I, outs, W, ps in run("resolve_term", 2):
        n = (ps[0],)
        for s, v in outs:
            dfn, dcl = fact(s, ("call", "defined", n)), fact(s, ("call", "declared", n))
            v = pl(v)
            if v[0] != "call":
                continue
            if v[1] == "mk_app":
                R.check(dcl is True, "C23.lookup", "application of a declared function", W, "a function that is not declared is applied")
                R.check(v[2][0] == ps[0] and v[2][2] == ps[1], "C23.lookup", "application of a declared function", W, f"the application is {show(v)}")
                if "_get" in show(v[2][1]):
                    R.check(v[2][1] == ("fld", ("*", ("call", "declared_get", n)), "return_type"), "C23.lookup", "sort of an application", W, f"the application gets sort {show(v[2][1])}")
            elif v[1] == "resolve":
                R.check(dfn is True and v[2][1] == ps[1], "C23.lookup", "application of a defined function", W, f"the application is {show(v)}")
            elif v[1] == "mk_term":
                R.check(v[2][0] == ps[0] and v[2][1] == ps[1], "C23.lookup", "application of a built-in symbol", W, f"the application is {show(v)}")
                R.check(dfn is not True and dcl is not True, "C23.lookup", "user functions before built-in symbols", W, "a user function is taken for a built-in symbol")


def one_per_item(R, h, I, outs, W, src, what):
    """One new scope, then every binding of the list is added to it with its own value."""
    for s, v in outs:
        own = [e[0] for e in s.auto[0] if e[0] != "iter"]
        R.check(own == ["push_frame"] and s.auto[0][0][0] == "push_frame", "C23.scope", "let opens one scope for its bindings", W, f"let does {own}")
    for info, st, how, lvl in h.ends:
        if lvl == 2:
            ev = [e for e in st.auto[-1] if e[0] == "add_binding"]
            R.check(len(ev) == 1, "C23.scope", "every binding of a let", W, f"a binding of a let is added {len(ev)} times")
            for e in ev:
                a, b = e[1], e[2]
                if a[0] == "fld" and b[0] == "fld":
                    R.check(a[1] == b[1] and a[2] == "first" and b[2] == "second", "C23.scope", "each name with its own value", W, f"{show(a)} is bound to {show(b)}")


def sorted_vars(R, h, I, outs, W, src):
    for info, st, how, lvl in h.ends:
        if lvl == 2:
            add = [e for e in st.auto[-1] if e[0] == "add_binding"]
            fr = [e for e in st.auto[-1] if e[0] == "fresh"]
            R.check(len(add) == 1 and len(fr) == 1, "C23.scope", "every parameter is bound", W, f"{len(fr)} variables and {len(add)} bindings for one parameter")
            if len(add) == 1 and len(fr) == 1:
                a, b = add[0][1], add[0][2]
                if b[0] == "vec" and b[1]:
                    b = b[1][-1]
                if b[0] == "at" and b[1][0] == "vec" and b[1][1]:
                    b = b[1][1][-1]
                if b[0] == "each":
                    b = b[1]
                R.check(b[:2] == ("call", "fresh"), "C23.scope", "a parameter is bound to its variable", W, f"a parameter is bound to {show(b)}")
                if a[0] == "fld" and fr[0][1][0] == "fld":
                    R.check(a[1] == fr[0][1][1], "C23.scope", "sort of a parameter", W, "a parameter gets the sort of another one")
    for s, v in outs:
        if v[0] == "vec":
            R.check(all(x[0] == "each" and x[1][:2] == ("call", "fresh") for x in v[1]), "C23.scope", "parameters in order", W, f"returns {show(v)}")


# ---------------------------------------------------------------- the term parser
class Parser(TermHooks):
    merge_limit = 400
    max_depth = 6

    def __init__(self, R):
        super().__init__(R)
        self.ends = []
        self.seen = []

    def keep(self, I, st):
        return st.auto

    ev = Scopes.ev

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q == "std::get" and len(args) == 1 and args[0][0] == "ref":
            return [(st, ("ref", I.sub(args[0][1], "get:" + self.short(node.get("t", "")))))]
        if obj is not None and s in ("push_back", "emplace_back", "pop_back") and q.startswith("std::vector::"):
            vs = tuple(I.val(st, a) for a in args)
            return ("cont", self.ev(st, (s, obj, vs)))
        if q.startswith(PN) and (s in ("make_term", "get_term_for_symbol", "parse_symbol", "token_to_symbol", "parse_sort", "parse_term", "parse_sorted_var_list", "parse_keyword", "parse_sexpr", "parse_sort_list")
                                 or q.startswith(PC)):
            if s == "parse_term" and len(I.stack) <= 1 and I.stack[0]["q"].endswith("parse_term"):
                return None
            vs = tuple(I.val(st, a) for a in args)
            return [(self.ev(st, (s, *vs)), ("call", s, vs + (("c", len(st.auto[-1])),)))]
        if "Flex_lexer::" in q or "lexer" in q.lower() and q.startswith("yaga::"):
            vs = tuple(I.val(st, a) for a in args)
            st = self.ev(st, ("lex:" + s, *vs))
            if s == "unexpected_token_error":
                return []
            if s == "eat_token_choice":
                return [(self.ev(s2, ("choice", b)), C(b)) for s2, b in ((st.copy(), True), (st.copy(), False))]
            return [(st, ("call", s, (("c", len(st.auto[-1])),)))]
        if "optional::" in q and s == "reset":
            return ("cont", self.ev(st, ("reset", obj)))
        return super().call(I, st, node, q, obj, args)

    @staticmethod
    def short(t):
        return "ctx" if "ParseCtx" in t else "op" if "OpInfo" in t else "args" if "vector" in t else t

    def write(self, I, st, node, lv, val):
        if lv[1] and lv[1][-1] == "get:ctx":
            return self.ev(st, ("ctx", lv, val))
        return None

    def iter_begin(self, I, st, info):
        st = st.copy()
        st.auto = st.auto + ((),)
        return st

    def iter_end(self, I, st, info, how):
        self.ends.append((info, st.copy(), how, len(st.auto)))
        st = st.copy()
        st.auto = st.auto[:-1]
        return st


def en(v):
    return v[1].split("::")[-1] if v[0] == "en" else None


def ctx_known(I, st):
    """Which parsing context is on top on this path (by enumerator name)?"""
    eq, ne = set(), set()
    for (a, b), m in st.rel.items():
        for x, y in ((a, b), (b, a)):
            if en(y) and "ParseCtx" in y[1]:
                if m == EQ:
                    eq.add(en(y))
    return next(iter(eq)) if len(eq) == 1 else None


def term_parser(P, R):
    for fn in P.find(TP + "parse_term", nparams=0):
        h = Parser(R)
        I = Interp(P, h)
        W = F.loc(fn)
        outs = I.run(fn, State(auto=((),)))
        R.saw(I)
        for info, st, how, lvl in h.ends:
            if lvl != 3:
                continue
            ev = st.auto[-1]
            ctx = ctx_known(I, st)
            nm = [e[0] for e in ev]
            to = [en(e[2]) for e in ev if e[0] == "ctx"]
            add = [e for e in ev if e[0] == "add_let_bindings"]
            pops = [e for e in ev if e[0] == "pop_let_bindings"]
            ctxpop = [e for e in ev if e[0] == "pop_back" and not e[1][1]]
            if add:
                R.check(to == ["LET_BODY"], "C23.let", "bindings of a let take effect together, for its body only", W, "bindings of a let take effect before all of them are parsed")
                R.check(len(add) == 1, "C23.let", "a let is opened once", W, "the bindings are added twice")
            if "LET_BODY" in to:
                R.check(len(add) == 1, "C23.let", "the body sees the bindings", W, "the body of a let is parsed without its bindings")
                popped = [e for e in ev if e[0] == "pop_back"]
                if len(add) == 1 and len(popped) == 1 and add[0][1][0] == "at":
                    R.check(len(popped) == 1, "C23.let", "pending bindings are taken", W, "pending bindings stay pending")
                R.check(len(popped) == 1 or not add, "C23.let", "pending bindings are taken", W, "the pending bindings of an inner let are left for the outer one")
            if ctx == "LET_BODY":
                R.check(len(pops) == 1, "C23.let", "bindings end with the let", W, f"{len(pops)} scopes are closed at the end of a let")
                R.check(len(ctxpop) == 1, "C23.let", "the let is finished", W, "the let stays open")
                R.check("reset" not in nm, "C23.let", "the value of a let is that of its body", W, "the value of the body is lost")
            elif pops:
                R.check(ctx is None, "C23.let", "scopes close only at the end of a let", W, "a scope is closed in the middle of a term")
            if ctx == "NEXT_ARG":
                ps = [e for e in ev if e[0] in ("push_back", "emplace_back")]
                R.check(len(ps) == 1, "C23.let", "an argument is stored once", W, f"an argument is stored {len(ps)} times")
            if ctx == "LET_NEXT_BIND":
                ps = [e for e in ev if e[0] in ("push_back", "emplace_back")]
                had = "reset" in nm
                R.check(len(ps) == (1 if had else 0), "C23.let", "each binding is recorded once", W, f"a binding is recorded {len(ps)} times")
        # outer steps
        for info, st, how, lvl in h.ends:
            if lvl != 2:
                continue
            ev = st.auto[-1]
            for i, e in enumerate(ev):
                if e[0] == "make_term":
                    a = e[1:]
                    ok = all(mentions_any(x, lambda t: t == ("last",)) for x in a[:1])
                    pops = [x for x in ev if x[0] == "pop_back"]
                    R.check(len(pops) == 1, "C23.let", "an application is closed once", W, f"{len(pops)} contexts are closed for one application")
                if e[0] in ("push_back", "emplace_back") and e[2] and not e[1][1]:
                    txt = repr(e[2])
                    if "LET_NEXT_BIND" in txt:
                        extra = [x for x in ev if x[0] in ("emplace_back", "push_back") and x[1] != e[1]]
                        R.check(len(extra) == 1, "C23.let", "a let has its own list of pending bindings", W, "bindings of nested lets are mixed up")
    for fn in P.find(TP + "make_term", nparams=2):
        h = Parser(R)
        I = Interp(P, h)
        for s, k, v in I.run(fn, State(auto=((),))):
            if k == "ret":
                a = [e for e in s.auto[0] if e[0] == "resolve_term"]
                R.check(len(a) == 1 and mentions(pl(a[0][1]), ("p", fn["ps"][0]["n"])) and pl(a[0][2]) == ("p", fn["ps"][1]["n"]), "C23.lookup", "operator and arguments", F.loc(fn), "the application is not resolved by its operator and arguments")
        R.saw(I)


def check(P, R):
    R.rule("C23.shadow", "a binding keeps the values it shadows and restores the last one")
    R.rule("C23.scope", "opening and closing scopes binds and unbinds exactly the names of that scope; an outer binding of the same name comes back")
    R.rule("C23.lookup", "a name means its innermost local binding, else its definition, else the declared symbol; an application means the user function of that name, else the built-in symbol")
    R.rule("C23.declare", "declarations and definitions record the name with its own sort, signature, parameters and body")
    R.rule("C23.let", "the bindings of a let take effect together, exactly for its body")
    binder(P, R)
    records(P, R)
    context(P, R)
    term_parser(P, R)
    R.need(4, "C23.shadow")
    R.need(12, "C23.scope")
    R.need(6, "C23.lookup")
    R.need(5, "C23.let")
