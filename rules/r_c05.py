"""C05: the assignment trail and its random-access views stay consistent."""
from looplib import *

EXPLANATION = ("Each operation of the trail is analysed once, over a symbolic trail with symbolic variables: the state after the operation (level list, per-variable level and reason, model) is compared with its specification on every path; "
               "loops are decided per generic element with iteration-level typestate and coverage of the index range.")
ASSUMPTIONS = ["assertions of the trail are preconditions (callers pass existing variables and levels between 0 and the current level)"]

THIS = ("M", ("p", "this"))
TR = ("fld", ("*", ("p", "this")), "trail")


def fields(P):
    """Names of the trail's members, found from their types."""
    r = P.rec("yaga::Trail")
    out = {}
    for f in r["fields"]:
        t = f["t"].replace("const ", "")
        if f.get("static"):
            continue
        if "Assignment" in t:
            out["trail"] = f["n"]
        elif "Model_base" in t:
            out["models"] = f["n"]
        elif "Literal" in t:
            out["reason"] = f["n"]
        elif "vector<std::vector<int" in t:
            out["level"] = f["n"]
    if len(out) != 4:
        raise F.AnalysisBroken(f"members of Trail not recognised: {out}")
    return out


def tord(I, st, var):
    """(type, ordinal) of a Variable value."""
    vals = []
    t = (("T", ("tord", 0)), ())
    s = I.write(st, t, var)
    for m in ("type", "ord"):
        fn = I.P.fn("yaga::Variable::" + m)
        vals.append(I.invoke(s, fn, t, [])[0][2])
    return tuple(vals)


class H(EachHooks):
    max_depth = 8

    def __init__(self, R, fs, rule):
        super().__init__(R, rule)
        self.fs = fs
        self.log = []

    def on_write(self, I, st, node, kind, path, val):
        return None

    def write(self, I, st, node, lv, val):
        if lv[0] == THIS and lv[1]:
            for kind, n in self.fs.items():
                if lv[1][0] == n:
                    return self.on_write(I, st, node, kind, lv[1][1:], val)
        return None

    def call(self, I, st, node, q, obj, args):
        if q.startswith("yaga::Model") and q.endswith("::clear"):
            return self.on_model_clear(I, st, node, obj, args) or [(st, VOID)]
        if q.startswith("yaga::Event_"):
            return [(st, VOID)]
        return None

    def on_model_clear(self, I, st, node, obj, args):
        return None


def run(P, R, h, name, np=None, auto=(frozenset(), ())):
    fn = P.fn("yaga::Trail::" + name, nparams=np) if np is not None else P.fn("yaga::Trail::" + name)
    I = Interp(P, h)
    outs = [(s, v) for s, k, v in I.run(fn, State(auto=auto)) if k == "ret"]
    if not outs:
        raise F.AnalysisBroken(f"Trail::{name}: no return path")
    R.saw(I)
    return fn, I, outs


def mem(fs, kind, *idx):
    return (THIS, (fs[kind],) + tuple(("at", i) for i in idx))


def field_of(agg, P, name_type):
    for a, b in agg[2]:
        if a == name_type:
            return b
    return None


def asg_fields(P):
    r = P.rec("yaga::Trail::Assignment")
    v = next(f["n"] for f in r["fields"] if "Variable" in f["t"])
    c = next(f["n"] for f in r["fields"] if "Literal" in f["t"])
    return v, c


def check(P, R):
    R.rule("C05.decide", "a decision opens one new level holding exactly that variable with no reason, and records that level and no reason for the variable")
    R.rule("C05.propagate", "a propagation at level l appends the assignment to every level from l to the current one and records level l and the given reason")
    R.rule("C05.backtrack", "going back to level l removes exactly the levels above l; a variable loses its level, reason and model value if and only if its recorded level is above l")
    R.rule("C05.clear", "clearing forgets level, reason and model value of every variable and leaves one empty level")
    R.rule("C05.query", "the queries report the recorded data: current level, level of a variable (none when unassigned), reason, emptiness")
    fs = fields(P)
    decide(P, R, fs)
    propagate(P, R, fs)
    backtrack(P, R, fs)
    clear(P, R, fs)
    queries(P, R, fs)
    for r in ("decide", "propagate", "backtrack", "clear", "query"):
        R.need(1, "C05." + r)


def decide(P, R, fs):
    fn, I, outs = run(P, R, H(R, fs, "C05.decide"), "decide")
    w = F.loc(fn)
    var = ("p", fn["ps"][0]["n"])
    vf, cf = asg_fields(P)
    n0 = size(("fld", ("*", ("p", "this")), fs["trail"]))
    for s, v in outs:
        t = I.read(s, (THIS, (fs["trail"],)))
        n = STD_size(t)
        R.check(n == I.arith("+", n0, C(1)), "C05.decide", "one new level", w, f"the number of levels becomes {show(n)}")
        top = I.read(s, (THIS, (fs["trail"], ("at", ("last",)))))
        items = I.vec_items(top)
        ok = items is not None and len(items) == 1 and items[0][0] == "agg" and dict(items[0][2]).get(vf) == var and dict(items[0][2]).get(cf) == NULL
        R.check(ok, "C05.decide", "content of the new level", w, f"the new level holds {show(top)}")
        ty, o = tord(I, s, var)
        lv = I.read(s, mem(fs, "level", ty, o))
        R.check(lv == n0, "C05.decide", "recorded level", w, f"recorded level is {show(lv)}, expected the new decision level")
        rv = I.read(s, mem(fs, "reason", ty, o))
        R.check(rv == NULL, "C05.decide", "recorded reason", w, f"recorded reason is {show(rv)}")


def STD_size(v):
    import stdmodel
    return stdmodel.size_of(v)


class PropH(H):
    def on_write(self, I, st, node, kind, path, val):
        if kind == "trail" and len(path) == 1:
            fn = I.stack[0]["fn"]
            var, reason, _ = [("p", p["n"]) for p in fn["ps"]]
            vf, cf = asg_fields(I.P)
            x = val[2] if val[0] == "push" else None
            if x is None or x[0] != "agg" or dict(x[2]).get(vf) != var or dict(x[2]).get(cf) != reason:
                self.R.bad("C05.propagate", "appended assignment", where(I, node), f"the level list becomes {show(val)}")
            idx = path[0][1]
            return self.visit(I, st, node, TRV(self.fs), idx)
        return None

    def loop_exit(self, I, st, info):
        hits = {h for r in info["rec"].values() for h in r["hits"]}
        ends = {e for r in info["rec"].values() for e in r["ends"]}
        done, stack = st.auto
        if not hits:
            return st
        why = "full"
        cov = I.coverage(info)
        fn = I.stack[0]["fn"]
        level = ("p", fn["ps"][2]["n"])
        n0 = size(TRV(self.fs))
        if cov and cov[0] == "count" and cov[1][0] != "it":
            _, lo, op, hi, step, x = cov
            idx = next(iter(hits))[1]
            if lo[0] == "oneof" and idx == x and step == 1:
                for l in lo[1]:
                    if l != level and isint(l):
                        why = f"the assignment is appended starting at level {show(l)} on some path instead of {show(level)}"
            if lo[0] != "oneof" and idx == x and step == 1:
                if lo != level:
                    why = f"the assignment is appended starting at level {show(lo)} instead of {show(level)}"
                last = {"<": I.arith("+", hi, C(-1)), "!=": I.arith("+", hi, C(-1)), "<=": hi}.get(op)
                if last is not None and last != I.arith("+", n0, C(-1)):
                    why = f"the assignment is appended up to level {show(last)} instead of the current level"
            if lo[0] != "oneof" and idx == x and step == -1:
                if lo != I.arith("+", n0, C(-1)):
                    why = f"the assignment is appended from level {show(lo)} down instead of from the current level"
                last = {">=": hi, ">": I.arith("+", hi, C(1)), "!=": I.arith("+", hi, C(1))}.get(op)
                if last is not None and last != level:
                    why = f"the assignment is appended down to level {show(last)} instead of {show(level)}"
            if step == 2:
                why = "some levels are skipped"
        if any(c != 1 for c, _ in ends):
            why = "some level gets the assignment not exactly once"
        if any(how == "break" for _, how in ends):
            why = "the loop can stop early"
        st = st.copy()
        st.auto = (done | {why}, stack)
        return st


def TRV(fs):
    return ("fld", ("*", ("p", "this")), fs["trail"])


def propagate(P, R, fs):
    h = PropH(R, fs, "C05.propagate")
    fn, I, outs = run(P, R, h, "propagate")
    w = F.loc(fn)
    var, reason, level = [("p", p["n"]) for p in fn["ps"]]
    for s, v in outs:
        done, stack = s.auto
        bad = [d for d in done if d != "full"]
        R.check(bool(done) and not bad and not stack, "C05.propagate", "levels extended", w, bad[0] if bad and isinstance(bad[0], str) else "a path does not append the assignment to the levels from the given one to the current one")
        ty, o = tord(I, s, var)
        lv = I.read(s, mem(fs, "level", ty, o))
        R.check(lv == level, "C05.propagate", "recorded level", w, f"recorded level is {show(lv)}")
        rv = I.read(s, mem(fs, "reason", ty, o))
        R.check(rv == reason, "C05.propagate", "recorded reason", w, f"recorded reason is {show(rv)}")


class BackH(H):
    """auto = (done, stack, resets of the current element, top level swept?)"""
    merge_limit = 200

    def __init__(self, R, fs, level):
        super().__init__(R, fs, "C05.backtrack")
        self.level = level

    def key(self, path):
        return tuple(p[1] for p in path)

    def on_write(self, I, st, node, kind, path, val):
        done, stack, res, swept = st.auto
        w = where(I, node)
        if kind == "trail":
            if val[0] == "pop" or val[0] == "vec":
                self.R.check(swept, "C05.backtrack", "levels removed after their variables were reset", w, "a level is removed before its variables were examined")
                st = st.copy()
                st.auto = (done, stack, res, False)
                return st
            self.R.bad("C05.backtrack", "levels removed", w, f"the level list becomes {show(val)}")
            return None
        if kind in ("level", "reason") and len(path) == 2:
            want = C(-1) if kind == "level" else NULL
            self.R.check(val == want, "C05.backtrack", f"{kind} reset value", w, f"reset to {show(val)}")
            return self.add(st, (kind, self.key(path)))
        return None

    def add(self, st, item):
        done, stack, res, swept = st.auto
        st = st.copy()
        st.auto = (done, stack, res | {item}, swept)
        return st

    def on_model_clear(self, I, st, node, obj, args):
        ms = [t for t in [obj[0][1]] if mentions(t, self.fs["models"])]
        if not ms or not args:
            self.R.bad("C05.backtrack", "model reset", where(I, node), "something other than the variable's model value is cleared")
            return None
        ty = None
        t = obj[0][1]
        while isinstance(t, tuple):
            if t[0] == "at" and len(t) == 3 and mentions(t[1], self.fs["models"]):
                ty = t[2]
                break
            t = t[1]
        return [(self.add(st, ("models", (ty, I.val(st, args[0])))), VOID)]

    def iter_begin(self, I, st, info):
        st = super().iter_begin(I, st, info)
        st.auto = (st.auto[0], st.auto[1], frozenset(), st.auto[3])
        return st

    def over_top(self, I, info):
        rng = info.get("range")
        return rng is not None and rng[0] == THIS and len(rng[1]) == 2 and rng[1][0] == self.fs["trail"]

    def iter_end(self, I, st, info, how):
        done, stack, res, swept = st.auto
        w = f"{F.rel(I.stack[0]['fn']['file'])}:{info['node'].get('l')}"
        if res or self.over_top(I, info) or self.inner(I, info):
            kinds = {k for k, _ in res}
            keys = {k for _, k in res}
            if len(keys) > 1:
                self.R.bad("C05.backtrack", "one variable at a time", w, f"level, reason and model are reset for different variables: {[tuple(map(show, k)) for k in keys]}")
            m = ANY
            for (a, b), mm in st.rel.items():
                for x, y, z in ((a, b, mm), (b, a, FLIP[mm])):
                    if y == self.level and self.is_level(x):
                        m &= z
            if kinds:
                self.R.check(kinds == {"level", "reason", "models"}, "C05.backtrack", "level, reason and model are reset together", w, f"only {sorted(kinds)} is reset")
                self.R.check(m == GT, "C05.backtrack", "only variables above the target level are reset", w, f"a variable is reset although its level may be {'at' if m & EQ else 'below'} the target level")
            else:
                self.R.check(not m & GT, "C05.backtrack", "every variable above the target level is reset", w, "a variable recorded above the target level keeps its assignment")
            if how == "break":
                self.R.bad("C05.backtrack", "every variable of a removed level is examined", w, "the loop can stop early")
        st = super().iter_end(I, st, info, how)
        st.auto = (st.auto[0], st.auto[1], frozenset(), st.auto[3])
        return st

    def is_level(self, x):
        return mentions(x, self.fs["level"])

    def inner(self, I, info):
        return False

    def loop_exit(self, I, st, info):
        st = super().loop_exit(I, st, info)
        if self.over_top(I, info) or info.get("range") is None and self.counts_top(I, st, info):
            st = st.copy()
            # which level was swept: must be the one on top
            good = True
            if info.get("range") is not None:
                idx = info["range"][1][1][1]
                n = STD_size(I.read(st, (THIS, (self.fs["trail"],))))
                good = idx == ("last",) or idx == I.arith("+", n, C(-1))
            st.auto = (st.auto[0], st.auto[1], st.auto[2], good)
        return st

    def counts_top(self, I, st, info):
        cov = I.coverage(info)
        if not cov or cov[0] != "count":
            return False
        txt = repr(cov)
        return "trail" in txt and "'at'" in txt


def backtrack(P, R, fs):
    fn = P.fn("yaga::Trail::backtrack")
    level = ("p", fn["ps"][0]["n"])
    h = BackH(R, fs, level)
    fn, I, outs = run(P, R, h, "backtrack", auto=(frozenset(), (), frozenset(), False))
    w = F.loc(fn)
    dl = P.find("yaga::Trail::decision_level", nparams=0)[0]
    for s, v in outs:
        n = I.invoke(s, dl, (THIS, ()), [])[0][2]
        m = I.mask(s, n, level)
        R.check(not m & GT, "C05.backtrack", "no level above the target remains", w, f"the current level may still be above the target (known: {show(n)} vs {show(level)})")


class ClearH(H):
    def __init__(self, R, fs):
        super().__init__(R, fs, "C05.clear")

    def on_write(self, I, st, node, kind, path, val):
        if kind in ("level", "reason"):
            want = C(-1) if kind == "level" else NULL
            if len(path) == 2:
                self.R.check(val == want, "C05.clear", f"{kind} reset value", where(I, node), f"reset to {show(val)}")
                outer = ("fld", ("*", ("p", "this")), self.fs[kind])
                st = self.visit(I, st, node, ("at", outer, path[0][1]), path[1][1])
                return st
        return None

    def call(self, I, st, node, q, obj, args):
        short = q.split("::")[-1]
        # bulk resets of one inner list
        if obj is not None and obj[0] == THIS and len(obj[1]) == 2 and short == "assign":
            for kind in ("level", "reason"):
                if obj[1][0] == self.fs[kind]:
                    st = self.bulk(I, st, node, kind, obj, I.val(st, args[0]), I.val(st, args[1]))
                    return [(st, VOID)]
        if q in ("std::fill", "std::ranges::fill", "std::ranges::__fill_fn::operator()"):
            a = I.val(st, args[0])
            lv = a[1] if a[0] == "it" else args[0][1] if args[0][0] == "ref" else None
            if lv is not None and lv[0] == THIS and len(lv[1]) == 2:
                for kind in ("level", "reason"):
                    if lv[1][0] == self.fs[kind]:
                        full = a[0] != "it" or a[2] == ("b", 0) and I.val(st, args[1])[2] == ("e", 0)
                        st = self.bulk(I, st, node, kind, lv, None if full else C(0), I.val(st, args[-1]))
                        return [(st, VOID)]
        return super().call(I, st, node, q, obj, args)

    def bulk(self, I, st, node, kind, lv, n, val):
        want = C(-1) if kind == "level" else NULL
        self.R.check(val == want, "C05.clear", f"{kind} reset value", where(I, node), f"reset to {show(val)}")
        outer = ("fld", ("*", ("p", "this")), self.fs[kind])
        if n is not None:
            self.R.check(n == size(I.read(st, lv)), "C05.clear", f"{kind} reset covers every variable", where(I, node), f"only {show(n)} entries are reset")
        return self.visit(I, st, node, outer, lv[1][1][1])

    def on_model_clear(self, I, st, node, obj, args):
        t = obj[0][1]
        while isinstance(t, tuple) and t:
            if t[0] == "at" and len(t) == 3 and mentions(t[1], self.fs["models"]):
                if args:
                    self.R.bad("C05.clear", "models", where(I, node), "only one value of the model is cleared")
                return [(self.visit(I, st, node, t[1], t[2]), VOID)]
            t = t[1]
        return None

    def excused(self, I, st, info):
        site = info["site"]
        def elem_model(t):
            return mentions(t, self.fs["models"])
        for (a, b), m in st.rel.items():
            if m == EQ and b == NULL and elem_model(a) or m == EQ and a == NULL and elem_model(b):
                return True
        return any(v is False and elem_model(k) for k, v in st.facts.items())

    def loop_exit(self, I, st, info):
        st = super().loop_exit(I, st, info)
        # finishing the inner list of a table counts as a visit of that list by the outer loop
        for d in [d for d in st.auto[0] if d[1] == info["site"]]:
            c = d[0]
            if isinstance(c, tuple) and c[0] == "at" and c[1][0] == "fld" and c[1][2] in (self.fs["level"], self.fs["reason"]) and st.auto[1]:
                if d[2] != "full":
                    self.R.bad("C05.clear", f"{c[1][2]}: every variable", f"{F.rel(I.stack[0]['fn']['file'])}:{info['node'].get('l')}", d[2])
                st = self.visit(I, st, info["node"], c[1], c[2])
        return st


def clear(P, R, fs):
    h = ClearH(R, fs)
    fn, I, outs = run(P, R, h, "clear", np=0)
    w = F.loc(fn)
    for s, v in outs:
        for kind in ("level", "reason", "models"):
            outer = ("fld", ("*", ("p", "this")), fs[kind])
            why = h.verdict(I, s, lambda c: c == outer)
            R.check(why is None, "C05.clear", f"{kind} of every type", w, why or "")
        t = I.read(s, (THIS, (fs["trail"],)))
        items = I.vec_items(t)
        ok = items is not None and len(items) == 1 and (items[0] == ("vec", ()) or items[0] == ("call", "make", ()))
        R.check(ok, "C05.clear", "one empty level", w, f"the level list becomes {show(t)}")


def queries(P, R, fs):
    st0 = State(auto=(frozenset(), ()))
    def one(name, np, pred, what, **kw):
        fn = [f for f in P.find("yaga::Trail::" + name) if len(f["ps"]) == np]
        if not fn:
            raise F.AnalysisBroken(f"Trail::{name} not found")
        fn = fn[0]
        I = Interp(P, H(R, fs, "C05.query"))
        for s, k, v in I.run(fn, st0.copy()):
            if k == "ret":
                if v[0] == "ref":
                    v = I.read(s, v[1])
                R.check(pred(I, s, fn, v), "C05.query", what, F.loc(fn), f"returns {show(v)}")
        R.saw(I)
    n0 = size(TRV(fs))
    one("decision_level", 0, lambda I, s, f, v: v == I.arith("+", n0, C(-1)), "current level")
    def lvl(I, s, f, v):
        ty, o = tord(I, s, ("p", f["ps"][0]["n"]))
        cur = I.read(s, mem(fs, "level", ty, o))
        m = I.mask(s, cur, C(0))
        if v == ("none",):
            return not m & (GT | EQ) or I.mask(s, cur, C(-1)) == EQ
        return v == ("some", cur) and (not m & LT or I.mask(s, cur, C(-1)) in (LT | GT, GT))
    one("decision_level", 1, lvl, "level of a variable")
    def rsn(I, s, f, v):
        ty, o = tord(I, s, ("p", f["ps"][0]["n"]))
        return v == I.read(s, mem(fs, "reason", ty, o))
    one("reason", 1, rsn, "reason of a variable")
    def emp(I, s, f, v):
        t = TRV(fs)
        one_level = I.mask(s, size(t), C(1))
        zero = I.mask(s, size(("at", t, C(0))), C(0))
        last = I.mask(s, size(("at", t, ("last",))), C(0))
        tv = I.truth(s, v)
        if tv is None:
            r = []
            for s2, b in I.split(s, v):
                r.append(emp(I, s2, f, C(b)))
            return all(r)
        if tv:
            return one_level == EQ and (zero == EQ or last == EQ)
        return not one_level & EQ or not zero & EQ or not last & EQ
    one("empty", 0, emp, "emptiness")
    def recent(I, s, f, v):
        return v in (("at", TRV(fs), ("last",)), ("at", TRV(fs), I.arith("+", n0, C(-1))))
    one("recent", 0, recent, "assignments of the current level")
    def assigned(I, s, f, v):
        return v == ("at", TRV(fs), ("p", f["ps"][0]["n"]))
    one("assigned", 1, assigned, "assignments of a level")
