"""C24: commands do what they say: every assertion reaches the solver with its polarity, answers and models are those of the search."""
from linlib import *
from looplib import covered
from r_c23 import Parser, pl, en, fact, rel_mask, PN, PC, TP, THIS, NONE
import absint

EXPLANATION = ("parse_command is analysed once; each path is attributed to the command token it handles and its events (terms parsed, assertions stored, checks, output) are compared with what the command means. "
               "Solver_wrapper::check is decided by what one iteration asserts for a generic assertion of either polarity, the order of internalization, assertion and search, and the mapping of the result. "
               "The model visitor calls are decided per variable kind, type and definedness.")
ASSUMPTIONS = ["the lexer delivers the tokens of the input (generated code)", "get_literal_for gives the literal whose truth is that of the term (C12)"]

CC = PN + "Smt2_command_context::"
SW = PN + "Solver_wrapper::"


class Cmd(Parser):
    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q.startswith(PN) and ("Print_model::" in q or s == "print_answer") and "Print_model::Print_model" not in q:
            return [(self.ev(st, (s, *[I.val(st, a) for a in args])), VOID)]
        if obj is not None and s in GROW + SHRINK and s not in ("push_back", "emplace_back", "pop_back") and q.startswith("std::vector::") and obj[0] == ("M", THIS):
            return ("cont", self.ev(st, (s, obj, ())))
        return super().call(I, st, node, q, obj, args)


def token(st):
    t = {en(y) for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if m == EQ and en(y) and "Token::" in y[1]}
    return next(iter(t)) if len(t) == 1 else None


GROW = ("push_back", "emplace_back", "insert", "emplace", "resize", "assign")
SHRINK = ("clear", "pop_back", "erase", "swap")


def is_ev(v, name):
    return v[:2] == ("call", name)


def commands(P, R):
    for fn in P.find(CC + "parse_command", nparams=0):
        I = Interp(P, Cmd(R))
        W = F.loc(fn)
        outs = I.run(fn, State(auto=((),)))
        R.saw(I)
        handled = set()
        for st, k, v in outs:
            tok = token(st)
            ev = st.auto[0]
            nm = [e[0] for e in ev]
            if k == "throw" or tok is None:
                continue
            handled.add(tok)
            get = lambda n: [e for e in ev if e[0] == n]
            stored = [e for e in ev if e[0] in ("push_back", "emplace_back") and e[1][0] == ("M", THIS)]
            if tok == "ASSERT_TOK":
                if get("parse_term") and v == C(True):
                    failed = not stored and any(e[0] in ("operator<<",) for e in ev)
                    R.check(len(get("parse_term")) == 1 and (len(stored) == 1 and is_ev(stored[0][2][0], "parse_term") if stored else failed), "C24.command", "assert", W,
                            f"an asserted term is stored {len(stored)} times")
                elif v == C(True) and "lex:eat_token" in nm and not get("parse_term"):
                    pass        # the term could not be parsed
            else:
                w = [e for e in ev if e[0] in GROW + SHRINK and len(e) > 1 and e[1] == (("M", THIS), ("assertions",))]
                R.check(not stored and not w, "C24.command", "only assert changes the assertions", W, f"{tok} changes the list of assertions ({[e[0] for e in w] or 'stored'})")
            if tok == "CHECK_SAT_TOK":
                c, a = get("check_sat"), get("print_answer")
                R.check(len(c) == 1 and pl(c[0][1]) == ("fld", THIS, "assertions") if c and pl(c[0][1])[0] == "fld" else len(c) == 1, "C24.command", "check-sat", W, "check-sat does not check the assertions made so far")
                R.check(len(a) == 1 and is_ev(strip_opt(a[0][1]), "check_sat"), "C24.command", "check-sat answers", W, "the answer printed is not that of this check")
                last = st.store.get((("M", THIS), ("last_answer",)))
                R.check(last is not None and mentions_any(last, lambda t: isinstance(t, tuple) and t[:2] == ("call", "check_sat")), "C24.command", "the last answer is remembered", W, f"the remembered answer is {show(last) if last else 'an older one'}")
            elif get("check_sat"):
                R.bad("C24.command", tok, W, "a command other than check-sat starts a check")
            if tok == "GET_MODEL_TOK" and get("model"):
                la = ("fld", THIS, "last_answer")
                sat = any(m == EQ and {pl(a), pl(b)} & {la, ("fld", la, "*")} and "SAT" in (en(a), en(b)) for (a, b), m in st.rel.items())
                R.check(sat, "C24.command", "models only after sat", W, "a model is printed although the last answer was not sat")
                has = [v2 for f, v2 in st.facts.items() if f[:2] == ("call", "has_value") and pl(f[2][0]) == la]
                if not sat:
                    pass
                elif has:
                    R.check(has == [True], "C24.command", "models only after a check", W, "a model is printed without a check")
                i, b, e = nm.index("model"), [j for j, x in enumerate(nm) if x == "begin_list"], [j for j, x in enumerate(nm) if x == "end_list"]
                if b and e:
                    R.check(len(b) == len(e) == 1 and b[0] < i < e[0] and nm.count("model") == 1, "C24.command", "the model is one list", W, "the model is not printed between the parentheses of its list")
            elif get("model"):
                R.bad("C24.command", tok, W, "a command other than get-model prints a model")
            if tok in ("DECLARE_CONST_TOK", "DECLARE_FUN_TOK"):
                for e in get("declare_uninterpreted_constant"):
                    R.check(is_ev(e[1], "parse_sort") and is_ev(e[2], "parse_symbol"), "C24.command", "declaration", W, "a constant is declared with something else than its sort and name")
                    srt = [j for j, x in enumerate(nm) if x == "parse_sort"]
                    R.check(len(srt) == 1, "C24.command", "declaration", W, "not one result sort")
                    m = None
                    for (a, b), mm in st.rel.items():
                        for x, y, m2 in ((a, b, mm), (b, a, absint.FLIP[mm])):
                            if x[:2] == ("call", "size") and is_ev(x[2][0], "parse_sort_list") and y[0] == "c" and isinstance(y[1], int):
                                # no arguments: size == 0, size < 1, size <= 0
                                z = y[1] == 0 and not m2 & absint.GT or y[1] == 1 and m2 == absint.LT
                                m = bool(m) or z
                    if tok == "DECLARE_FUN_TOK" and m is not None:
                        R.check(m, "C24.command", "functions have arguments", W, "a function with arguments is declared as a constant")
                for e in get("declare_uninterpreted_function"):
                    R.check(is_ev(e[1], "parse_sort") and is_ev(e[2], "parse_sort_list") and is_ev(e[3], "parse_symbol"), "C24.command", "function declaration", W, "a function is declared with something else than its signature and name")
                n = len(get("declare_uninterpreted_constant")) + len(get("declare_uninterpreted_function"))
                R.check(n == 1 or n == 0 and any(f[:2] == ("call", "has_uf") and val is False for f, val in st.facts.items()), "C24.command", "every declaration is recorded", W, f"{n} symbols are declared by one command")
            if tok == "DEFINE_FUN_TOK":
                seq = [x for x in nm if x in ("push_binding_scope", "bind_vars", "parse_term", "pop_binding_scope", "store_defined_fun")]
                R.check(seq.count("push_binding_scope") == seq.count("pop_binding_scope") == seq.count("bind_vars") == seq.count("parse_term") == 1, "C24.command", "define-fun opens and closes one scope", W, f"define-fun does {seq}")
                if set(seq) >= {"push_binding_scope", "bind_vars", "parse_term", "pop_binding_scope"}:
                    o = [seq.index(x) for x in ("push_binding_scope", "bind_vars", "parse_term", "pop_binding_scope")]
                    R.check(o == sorted(o), "C24.command", "parameters are visible exactly in the body", W, f"define-fun does {seq}")
                for e in get("bind_vars"):
                    R.check(is_ev(e[1], "parse_sorted_var_list"), "C24.command", "define-fun parameters", W, f"the bound parameters are {show(e[1])}")
                sd = get("store_defined_fun")
                R.check(len(sd) == 1 and is_ev(sd[0][1], "parse_symbol") and is_ev(sd[0][2], "parse_term") and is_ev(sd[0][3], "bind_vars"), "C24.command", "define-fun is recorded", W, "the definition is not recorded with its name, body and parameters")
            if tok == "SET_LOGIC_TOK":
                for e in get("set_logic"):
                    names = {y[1] for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if m == EQ and y[0] == "c" and isinstance(y[1], str)}
                    lg = e[1][1].split("::")[-1] if e[1][0] == "glob" else show(e[1])
                    if len(names) == 1:
                        n = next(iter(names))
                        R.check(lg.lower().endswith(n.lower()) or "logic::" not in repr(e[1]), "C24.command", "logic " + n, W, f"the logic {n} selects {lg}")
            if v == C(True) and tok != "EXIT_TOK":
                R.check(ev[-1][0] == "lex:eat_token" and en(ev[-1][1]) == "RPAREN_TOK", "C24.command", "commands end with their parenthesis", W, f"{tok} does not consume its closing parenthesis")
            if v == C(False):
                R.check(tok in ("EXIT_TOK", "SET_LOGIC_TOK", "EOF_TOK"), "C24.command", "only exit stops", W, f"{tok} ends the run")


def strip_opt(v):
    while v[0] in ("some",) or v[0] == "fld" and v[2] in ("*", "_M_value"):
        v = v[1]
    return v


def answers(P, R):
    for fn in P.find(CC + "print_answer", nparams=1):
        outp = []

        class H(TermHooks):
            def call(self, I, st, node, q, obj, args):
                s = q.split("::")[-1]
                if s == "operator<<":
                    txt = [I.val(st, a) for a in args]
                    for t in txt:
                        if t[0] == "c" and isinstance(t[1], str):
                            st = st.copy()
                            st.auto = st.auto + (t[1],)
                    r = obj if obj is not None else args[0][1] if args[0][0] == "ref" else None
                    return [(st, ("ref", r) if r is not None else ("opaque", ("out",)))]
                return None

            def keep(self, I, st):
                return st.auto
        for name, text in (("SAT", "sat"), ("UNSAT", "unsat")):
            e = P.enum("yaga::Solver_answer")
            val = [k for k in e if k == name]
            I = Interp(P, H(R))
            for st, k, v in I.run(fn, State(auto=()), args=[("en", "yaga::Solver_answer::" + name, e[name])]):
                if k == "ret":
                    R.check("".join(st.auto).strip() == text, "C24.answer", name, F.loc(fn), f"the answer {name} is printed as {''.join(st.auto)!r}")
            R.saw(I)


# ---------------------------------------------------------------- the check itself
class Chk(TermHooks):
    merge_limit = 400
    widen_counters = True

    def __init__(self, R):
        super().__init__(R)
        self.ends, self.cov, self.lams = [], [], []

    def keep(self, I, st):
        return st.auto

    def ev(self, st, e):
        st = st.copy()
        if e not in st.auto[-1]:
            st.auto = st.auto[:-1] + (st.auto[-1] + (e,),)
        elif e + ("again",) not in st.auto[-1]:
            st.auto = st.auto[:-1] + (st.auto[-1] + (e + ("again",),),)
        return st

    def table(self, I, st, node, s, vs):
        vs = tuple(pl(v) for v in vs)
        if s == "is_negated":
            return [(s2, C(b)) for s2, b in I.split(st, ("call", s, vs))]
        return [(st, ("call", s, vs))]

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        vals = lambda: tuple(pl(I.val(st, a)) for a in args)
        if q.startswith("std::ranges::") and s == "operator()" and "any_of" in q or q in ("std::any_of", "std::ranges::any_of"):
            v = vals()
            lam = [x for x in v if x[0] == "lam"]
            if lam:
                x = ("elemof", v[0])
                ok = None
                try:
                    ok = True
                    for s2, r in I.apply(st.copy(), lam[0], [x], node, {}):
                        for s3, b in I.split(s2, r):
                            m = rel_mask(s3, x, FALSE_T)
                            ok = ok and (not b or m == EQ) and (b or m is not None and not m & EQ)
                except Exception:
                    ok = None
                self.lams.append((ok, v[0]))
            return [(s2, C(b)) for s2, b in I.split(st, ("call", "any_of", (("c", "assertions"),)))]
        if s == "visit" and ("Visitor::" in q):
            return [(self.ev(st, ("visit", *vals())), VOID)]
        if s == "visit" and "model_visitor" in q.lower():
            return [(self.ev(st, ("mvisit", *vals())), VOID)]
        if s == "visit_fnc":
            return [(self.ev(st, ("mfnc", *vals())), VOID)]
        if s == "get_literal_for":
            v = vals()
            return [(st, ("some", ("call", "lit", v)))]
        if q.startswith("yaga::Yaga::") and s == "assert_clause" or q == "yaga::Solver::assert_clause":
            return [(self.ev(st, ("assert", *vals())), VOID)]
        if q.startswith("yaga::Literal::") or q == "yaga::operator~":
            if s == "negate" and obj is not None:
                return [(I.write(st, obj, neg(pl(I.read(st, obj))), node), VOID)]
            if s == "operator~":
                return [(st, neg(pl(I.read(st, obj)) if obj is not None else vals()[0]))]
            if s == "negate" or s == "negation":
                return None
            if s == "var":
                return [(st, ("call", "litvar", (pl(I.read(st, obj)),)))]
            if s == "Literal" and len(args) == 1 and "lit" in repr(vals()[0]):
                return None
        if q == "yaga::Solver::check":
            st = self.ev(st, ("check",))
            return [(st, ("call", "result", ()))]
        if q in ("yaga::Yaga::init", "yaga::Solver::init"):
            return [(self.ev(st, ("init",)), VOID)]
        if q.startswith("yaga::Yaga::") or q.startswith("yaga::Solver::"):
            return [(st, ("call", s, vals()))]
        if q.startswith(PN + "Internalizer_config::"):
            return [(st, ("call", s, vals()))]
        if q.startswith("yaga::Trail::model"):
            return [(st, ("call", "model", vals()))]
        if "Model" in q and s in ("is_defined", "value") and obj is not None:
            m = pl(I.read(st, obj))
            v = vals()
            if s == "is_defined":
                return [(s2, C(b)) for s2, b in I.split(st, ("call", "is_defined", (m,) + v))]
            return [(st, ("call", "mvalue", (m,) + v))]
        if q.startswith("yaga::Variable::") and s in ("ord", "type") and obj is not None:
            return [(st, ("call", "v" + s, (pl(I.read(st, obj)),)))]
        if obj is not None and ("_map::" in q or "std::map::" in q) and s in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            v = vals()
            if s == "insert" and len(v) == 1 and v[0][0] == "agg":
                d = dict(v[0][2])
                v = (d.get("first"), d.get("second"))
            return [(self.ev(st, ("map", *v)), VOID)]
        if q.startswith("std::") and s == "operator<<" or "ostream" in q:
            return [(st, args[0] if args and args[0][0] == "ref" else ("opaque", ("out",)))]
        return super().call(I, st, node, q, obj, args)

    def iter_begin(self, I, st, info):
        st = st.copy()
        st.auto = st.auto + ((),)
        return st

    def iter_end(self, I, st, info, how):
        self.ends.append((info, st.copy(), how, len(st.auto)))
        st = st.copy()
        inner = tuple(("in", e[0]) for e in st.auto[-1])
        outer = st.auto[-2]
        for x in inner:
            if x not in outer:
                outer = outer + (x,)
        st.auto = st.auto[:-2] + (outer,)
        return st

    def loop_exit(self, I, st, info):
        self.cov.append((info, st.copy()))


def neg(v):
    return v[2][0] if v[:2] == ("call", "~") else ("call", "~", (v,))


def litkey(v):
    """(term whose literal it is, negated)"""
    n = False
    while True:
        if v[:2] == ("call", "~"):
            v, n = v[2][0], not n
        elif v[0] in ("some",) or v[0] == "fld" and v[2] == "*":
            v = v[1]
        else:
            break
    if v[:2] == ("call", "lit"):
        return v[2][0], n
    return None


def check_sat(P, R):
    for fn in P.find(SW + "check", nparams=1):
        h = Chk(R)
        I = Interp(P, h)
        W = F.loc(fn)
        src = ("p", fn["ps"][0]["n"])
        outs = I.run(fn, State(auto=((),)))
        R.saw(I)
        for st, k, v in outs:
            if k != "ret":
                continue
            ev = st.auto[0]
            nm = [e[0] if e[0] != "in" else e[1] for e in ev]
            a = en(v)
            anyf = fact(st, ("call", "any_of", (("c", "assertions"),)))
            if "check" not in nm:
                R.check(a == "UNSAT" and anyf is not False and (anyf is True or false_known(st)), "C24.check", "an answer without a search", W, f"the answer {a} is given without a search")
                continue
            R.check("init" not in nm, "C24.check", "definitions survive", W, "the solver is cleared although definitions of terms that are already internalized are not asserted again")
            R.check("visit" in nm and nm.index("visit") < nm.index("check"), "C24.check", "assertions are internalized before the search", W, "the assertions are not internalized before the search")
            if "assert" in nm and "visit" in nm:
                R.check(nm.index("visit") < nm.index("assert") < nm.index("check"), "C24.check", "assertions are asserted before the search", W, "assertions are added in the wrong order")
            R.check(("check", "again") not in ev, "C24.check", "one search", W, "the search is run twice")
            res = None
            for (x, y), m in st.rel.items():
                for p, q in ((x, y), (y, x)):
                    if p == ("call", "result", ()) and en(q) and m == EQ:
                        res = en(q)
            if res is not None and a is not None:
                R.check(a.lower() == res.lower(), "C24.check", "result " + res, W, f"the result {res} is answered as {a}")
            for e in ev:
                if e[0] == "visit":
                    R.check(mentions(e[1], src), "C24.check", "all assertions are internalized", W, f"{show(e[1])} is internalized instead of the assertions")
        adding = {info["site"] for info, st, how, lvl in h.ends if lvl == 2 and any(e[0] == "assert" for e in st.auto[-1])}
        for info, st, how, lvl in h.ends:
            if lvl != 2:
                continue
            ev = st.auto[-1]
            cont = info.get("val")
            asserts = [e for e in ev if e[0] == "assert"]
            maps = [e for e in ev if e[0] == "map"]
            x = ("at", src, info["site"])
            over = cont is not None and pl(cont) == src and info["site"] in adding
            if over and how == "break" and not asserts:
                R.bad("C24.check", "every assertion is asserted", W, "assertions after one that needs no clause are not given to the solver")
                continue
            if over or asserts:
                # one assertion
                if not asserts:
                    R.check(eq_true(st, x) or how == "ret" or not over, "C24.check", "every assertion is asserted", W, "an assertion other than true is not given to the solver")
                    continue
                if len(asserts) != 1 or len(asserts[0]) != 2:
                    continue
                lk = litkey(asserts[0][1])
                if lk is None:
                    continue
                t, n = lk
                if t[:2] == ("call", "positive_term"):
                    u = t[2][0]
                    isn = fact(st, ("call", "is_negated", (u,)))
                    R.check(isn is not None and isn == n, "C24.check", "polarity of an assertion", W, "an assertion is asserted with the wrong polarity")
                    c = covered(I, st, info, u[2], src) if u[0] == "at" and u[1] == src else None
                    R.check(u[0] != "at" or u[1] == src, "C24.check", "the assertion itself", W, f"{show(u)} is asserted")
                    if c is not None:
                        R.check(c, "C24.check", "every assertion", W, "not every assertion is given to the solver")
                else:
                    R.check(fact(st, ("call", "is_negated", (t,))) is False, "C24.check", "polarity of an assertion", W, f"the literal of {show(t)} is asserted")
            if maps or (cont is not None and mentions_any(cont, lambda t: isinstance(t, tuple) and t[:1] == ("call",) and len(t) == 3 and t[1] in ("bool_vars", "rational_vars"))):
                kinds = kind_on(st)
                which = "bool_vars" if "bool_vars" in repr(cont) else "rational_vars" if "rational_vars" in repr(cont) else None
                if "UNINTERPRETED_TERM" not in kinds_excluded(st) and (not kinds or "UNINTERPRETED_TERM" in kinds):
                    R.check(len(maps) == 1, "C24.check", "variables of the input are known to the model", W, "a variable of the input is left out of the model")
                for e in maps:
                    k2, v2 = e[1], e[2]
                    if k2 and k2[0] == "fld" and k2[2] == "first":
                        R.check(mentions(v2, ("fld", k2[1], "second")), "C24.check", "each term with its own variable", W, f"{show(k2)} is mapped to {show(v2)}")
                        t2 = [x for x in walk_en(v2)]
                        if which == "rational_vars" and t2:
                            R.check(t2 == ["rational"], "C24.check", "type of a model variable", W, f"a real variable is recorded as {t2}")
        for ok, cont in h.lams:
            R.check(cont == src, "C24.check", "false is looked for among the assertions", W, f"{show(cont)} is searched for false")
            if ok is not None:
                R.check(ok, "C24.check", "only false is unsatisfiable by itself", W, "unsat is answered because of an assertion that is not false")


def false_known(st):
    return any(m == EQ and (a == FALSE_T or b == FALSE_T) for (a, b), m in st.rel.items())


def walk_en(v):
    if isinstance(v, tuple):
        if v[:1] == ("en",) and len(v) == 3 and "Variable::" in v[1]:
            yield v[1].split("::")[-1]
            return
        for x in v:
            yield from walk_en(x)


def eq_true(st, x):
    for (a, b), m in st.rel.items():
        if m == EQ and TRUE_T in (pl(a), pl(b)):
            return True
    return False


def kind_on(st):
    out = set()
    for (a, b), m in st.rel.items():
        for x, y in ((a, b), (b, a)):
            if x[:2] == ("call", "get_kind") and en(y) and m == EQ:
                out.add(en(y))
    return out


def kinds_excluded(st):
    out = set()
    for (a, b), m in st.rel.items():
        for x, y in ((a, b), (b, a)):
            if x[:2] == ("call", "get_kind") and en(y) and not m & EQ:
                out.add(en(y))
    return out


def model(P, R):
    for fn in P.find(SW + "model", nparams=1):
        h = Chk(R)
        I = Interp(P, h)
        W = F.loc(fn)
        outs = I.run(fn, State(auto=((),)))
        R.saw(I)
        for info, st, how, lvl in h.ends:
            if lvl != 2:
                continue
            ev = st.auto[-1]
            cont = pl(info["val"]) if info.get("val") else None
            vis = [e for e in ev if e[0] == "mvisit"]
            item = ("at", ("fld", THIS, "variables"), info["site"])
            var = ("fld", item, "second")
            if cont == ("fld", THIS, "variables"):
                R.check(len(vis) <= 1, "C24.model", "one value per variable", W, "a variable is given two values")
                defs = {(f[2][0], f[2][1]): b for f, b in st.facts.items() if f[:2] == ("call", "is_defined")}
                ty = [en(y) for (a, b), m in st.rel.items() for x, y in ((a, b), (b, a)) if x == ("call", "vtype", (var,)) and m == EQ and en(y)]
                for e in vis:
                    R.check(e[1] == ("fld", item, "first"), "C24.model", "the value of a variable", W, f"{show(e[1])} is given the value of another term")
                    val = e[2]
                    mv = [x for x in find_calls(val, "mvalue")]
                    if len(mv) != 1:
                        continue
                    m, o = mv[0][2]
                    R.check(o == ("call", "vord", (var,)), "C24.model", "the value of a variable", W, f"the value printed is that of {show(o)}")
                    mt = [en(x) for x in m[2]] if m[:2] == ("call", "model") else []
                    if mt and ty:
                        R.check(mt[0] == ty[0], "C24.model", "the value comes from the model of its type", W, f"a {ty[0]} variable gets its value from the {mt[0]} model")
                    R.check(defs.get((m, o)) is True, "C24.model", "only defined values", W, "a value is read for a variable that has none")
                if not vis and ty and "UNINTERPRETED_TERM" in kind_on(st):
                    d = [b for (m, o), b in defs.items() if m[:2] == ("call", "model") and en(m[2][0]) == ty[0] and o == ("call", "vord", (var,))]
                    R.check(d == [False], "C24.model", "every defined variable has its value", W, "a variable with a value is left out of the model")
            fnc = [e for e in ev if e[0] == "mfnc"]
            for e in fnc:
                if e[1][0] == "fld" and e[2][0] == "fld":
                    R.check(e[1][1] == e[2][1] and e[1][2] == "first" and e[2][2] == "second", "C24.model", "the values of a function", W, f"{show(e[1])} is given {show(e[2])}")
        for st, k, v in outs:
            if k == "ret":
                has = [b for f, b in st.facts.items() if f[:2] == ("call", "has_value") and "get_function_model" in repr(f)]
                if has and has[0] is True:
                    pass


def find_calls(v, name):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "call" and v[1] == name:
            yield v
            return
        for x in v:
            yield from find_calls(x, name)


def check(P, R):
    R.rule("C24.command", "each command does what it says: assert stores its term once, check-sat checks all assertions and prints that answer, define-fun scopes its parameters over its body, declarations record their symbols, get-model needs a sat answer")
    R.rule("C24.answer", "sat and unsat are printed as such")
    R.rule("C24.check", "every assertion reaches the solver with its polarity before the search; the answer is the result of the search")
    R.rule("C24.model", "the model gives every defined variable its own value, from the model of its type")
    commands(P, R)
    answers(P, R)
    check_sat(P, R)
    model(P, R)
    R.need(12, "C24.command")
    R.need(2, "C24.answer")
    R.need(6, "C24.check")
    R.need(4, "C24.model")
