"""C08: combined propagation runs to a fixpoint and never drops a conflict; theories see each assignment once."""
from looplib import *
from r_c04 import composites, elem_of

EXPLANATION = ("Combined propagation: typestate over its loops. Each component either assigns something (the number of recent assignments grows) or not, and either reports conflicts or not; both outcomes are followed at every call. "
               "On every path a reported conflict is returned before any other component runs, and 'no conflict' is returned only after a complete pass over all components in which nothing was assigned. "
               "New-assignment window of a theory: relational summary of the window function and of its invalidation on backtracking, over symbolic levels and positions.")
ASSUMPTIONS = ["a component's propagation only adds assignments (the number of recent assignments does not shrink while propagating)"]

CONF = ("p", "#conflicts")
RECENT = "#recent"


def size(v):
    return ("call", "size", (v,))


class H(EachHooks):
    """auto = (done, stack, grown flags {site: grown since read}, dirty, phase)
    dirty: 'none' no pass yet, 'quiet' nothing assigned since the pass began, 'dirty' something assigned"""
    max_depth = 6
    merge_limit = 40
    widen_counters = True

    def __init__(self, R, fields, cls):
        super().__init__(R, "C08.fixpoint")
        self.fields, self.cls = fields, cls
        self.bad = []
        self.simple = set()

    def keep(self, I, st):
        return (I.mask(st, size(CONF), C(0)), st.auto)

    def fail(self, rule, node, why):
        self.bad.append((rule, where(self.I, node), why))

    def call(self, I, st, node, q, obj, args):
        short = q.split("::")[-1]
        if obj is not None and obj[0][0] == "M" and not obj[1] and short == "propagate":
            e = elem_of(obj[0][1], self.fields)
            if e is not None:
                return self.component(I, st, node, *e)
        if short == "recent" and q.startswith("yaga::Trail"):
            return [(st, ("ref", (("M", ("p", RECENT)), ())))]
        if short in ("size", "empty") and obj is not None and obj == (("M", ("p", RECENT)), ()):
            if short == "empty":
                return [(st, ("call", "recent_empty", (I.site(node),)))]
            return self.read_size(I, st, node)
        if q.startswith("yaga::Trail::") or q.startswith("yaga::Model"):
            return [(st, ("call", q, ()))]
        return None

    def read_size(self, I, st, node):
        tag = ("p", ("#size", I.site(node)))
        done, stack, grown, dirty = st.auto
        from solverlib import drop
        # results of earlier comparisons with the old value stay what they were
        sts = [st]
        for k, v in list(st.store.items()):
            if v[0] in ("cmp", "op") and mentions(v, tag):
                nxt = []
                for s in sts:
                    for s2, t in I.split(s, v) if v[0] == "cmp" or v[1] == "!" else [(s, None)]:
                        s2 = s2.copy()
                        s2.store[k] = C(t) if t is not None else ("old", v)
                        nxt.append(s2)
                sts = nxt
        return [r for s in sts for r in self.new_size(I, s, drop(s, tag).copy(), tag)]

    def new_size(self, I, old, st, tag):
        done, stack, grown, dirty = st.auto
        for t, g in grown:
            if t == tag:
                continue
            s2 = I.assume_rel(st, tag, t, GT if g else EQ)
            if s2 is None:
                return []
            st = s2
        st = st.copy()
        st.auto = (done, stack, frozenset({(t, g) for t, g in grown if t != tag} | {(tag, False)}), dirty)
        return [(st, tag)]

    def component(self, I, st, node, cont, idx):
        from solverlib import drop
        if I.mask(st, size(CONF), C(0)) & GT and st.auto[3] != "none" and st.auto[3] is not None and self.called(st):
            self.fail("C08.conflict", node, "another component runs although the previous one may have reported conflicts")
        st = self.visit(I, st, node, cont, idx)
        st = drop(st, CONF)
        out = []
        for active in (False, True):
            s = st.copy()
            done, stack, grown, dirty = s.auto
            if active:
                grown = frozenset((t, True) for t, _ in grown)
                dirty = "dirty"
            elif dirty == "none":
                dirty = "quiet"
            s.auto = (done, stack, grown, dirty)
            for m in (EQ, GT):
                s2 = I.assume_rel(s, size(CONF), C(0), m)
                if s2 is not None:
                    out.append((s2, CONF))
        return out

    def called(self, st):
        return True

    def iter_begin(self, I, st, info):
        return super().iter_begin(I, st, info)

    def loop_exit(self, I, st, info):
        st = super().loop_exit(I, st, info)
        return st

    def enter_range(self, I, st, node, rng):
        return None

    def branch(self, I, st, node, cond, taken):
        return None


def pass_loops(P, fn):
    """Loops whose body calls a component: found after the run from the records."""
    return None


def check(P, R):
    R.rule("C08.conflict", "conflicts reported by a component are returned at once, unchanged")
    R.rule("C08.fixpoint", "'no conflict' is returned only after a complete pass over the components in which none of them assigned anything")
    R.rule("C08.window", "a theory's window holds the assignments of the current level it has not been shown; after a backtrack it starts from the beginning")
    comp = composites(P)
    n = 0
    for cls in P.subclasses("yaga::Theory"):
        if cls not in comp:
            continue
        for fn in P.find(cls + "::propagate"):
            if fn.get("b") is None:
                continue
            n += 1
            fixpoint(P, R, cls, comp[cls], fn)
    if not n:
        raise F.AnalysisBroken("no combined theory found")
    window(P, R)
    R.need(1, "C08.conflict")
    R.need(1, "C08.fixpoint")
    R.need(2, "C08.window")


class Pass(H):
    """Marks the beginning of each pass: entering the loop that calls the components."""

    def __init__(self, R, fields, cls, body_loops):
        super().__init__(R, fields, cls)
        self.body_loops = body_loops

    def mark(self, I, st, node):
        done, stack, grown, dirty = st.auto
        st = st.copy()
        done = frozenset()
        st.auto = (done, stack, grown, "none")
        return st


def component_loops(P, fn):
    """Innermost loops (by site line and kind) containing a virtual propagate call."""
    out = set()

    def go(n, loop):
        if isinstance(n, dict):
            if n.get("s") in ("for", "while", "do", "range"):
                loop = n
            if n.get("e") == "mcall" and F.callee(n).split("::")[-1] == "propagate" and loop is not None:
                out.add(id(loop))
            for v in n.values():
                go(v, loop)
        elif isinstance(n, list):
            for v in n:
                go(v, loop)
    go(fn["b"], None)
    return out


def fixpoint(P, R, cls, fields, fn):
    h = H(R, fields, cls)
    I = Interp(P, h)
    orig = I.loop
    what = f"{cls.replace('yaga::', '')}::propagate"

    # a pass begins where the innermost loop around the component calls is entered
    def loop(n, states, outs):
        if is_pass(n):
            nxt = []
            for st in states:
                done, stack, grown, dirty = st.auto
                if dirty == "quiet" and any(d[0] == "pass" for d in done):
                    h.fail("C08.fixpoint", n, "another pass is started although nothing was assigned in the previous one")
                st = st.copy()
                st.auto = (frozenset(), stack, grown, "none")
                nxt.append(st)
            res = orig(n, nxt, outs)
            out = []
            for st in res:
                done, stack, grown, dirty = st.auto
                st = st.copy()
                if not stack or True:
                    st.auto = (done | {("pass",)}, stack, grown, dirty)
                out.append(st)
            return out
        return orig(n, states, outs)

    loops = {}

    def is_pass(n):
        r = loops.get(id(n))
        if r is None:
            inner = [x for x in F.walk(n["x"]) if isinstance(x, dict) and x.get("s") in ("for", "while", "do", "range")]
            has = reaches_component(P, n["x"])
            r = has and not any(reaches_component(P, x["x"]) for x in inner)
            loops[id(n)] = r
        return r
    I.loop = loop
    outs = I.run(fn, State(auto=(frozenset(), (), frozenset(), "none")))
    R.saw(I)
    for rule, w, why in h.bad:
        R.bad(rule, what, w, why)
    is_cont = lambda v: v[0] == "fld" and v[2] in fields or v[0] == "vec"
    nconf = nfix = 0
    for s, k, v in outs:
        if k != "ret":
            continue
        m = I.mask(s, size(CONF), C(0))
        if v == CONF and m == GT:
            nconf += 1
            R.ok("C08.conflict", what)
            continue
        ran = s.auto[3] != "none" or s.auto[0]
        if v == CONF and m == EQ:
            v = ("vec", ())
        if v[0] == "vec" and not v[1] or v == ("call", "ctor:std::vector", ()):
            if m & GT and s.auto[3] != "none":
                R.bad("C08.conflict", what, F.loc(fn), "returns 'no conflict' although the last component may have reported conflicts")
                continue
            if s.auto[3] == "dirty":
                R.bad("C08.fixpoint", what, F.loc(fn), "returns 'no conflict' although a component assigned something in the last pass")
                continue
            d = [x for x in s.auto[0] if is_cont(x[0]) and len(x) == 3]
            why = next((x[2] for x in d if x[2] != "full"), None)
            if why and why != "the loop can stop early":
                R.bad("C08.fixpoint", what, F.loc(fn), why)
                continue
            if why:
                # leaving the pass early is fine only for conflicts; decided above
                R.bad("C08.fixpoint", what, F.loc(fn), "returns 'no conflict' after an incomplete pass")
                continue
            nfix += 1
            R.ok("C08.fixpoint", what)
        else:
            R.bad("C08.conflict", what, F.loc(fn), f"returns {show(v)[:80]} instead of the conflicts of the component")


def reaches_component(P, body, depth=0, seen=None):
    seen = seen or set()
    for c in F.calls(body):
        if c.get("e") == "mcall" and c.get("virt") and F.callee(c).split("::")[-1] == "propagate":
            return True
        fn = P.fns.get(c.get("f"))
        if fn and fn.get("b") is not None and depth < 3 and fn["id"] not in seen and fn["q"].startswith("yaga::"):
            seen.add(fn["id"])
            if not c.get("virt") and reaches_component(P, fn["b"], depth + 1, seen):
                return True
    return False


# ------------------------------------------------------------------ the window of new assignments
class W(Hooks):
    max_depth = 6

    def call(self, I, st, node, q, obj, args):
        short = q.split("::")[-1]
        if q.startswith("yaga::Trail::"):
            if short == "decision_level":
                return [(st, ("p", "#level"))]
            if short == "recent":
                return [(st, ("ref", (("M", ("p", RECENT)), ())))]
            return [(st, ("call", q, tuple(I.val(st, a) for a in args)))]
        if obj is not None and obj == (("M", ("p", RECENT)), ()):
            if short == "size":
                return [(st, ("p", "#n"))]
            if short in ("begin", "cbegin"):
                return [(st, ("pos", C(0)))]
            if short in ("end", "cend"):
                return [(st, ("pos", ("p", "#n")))]
        if short in ("operator+", "operator+=") and obj is not None and args:
            v = I.read(st, obj)
            if v[0] == "pos":
                r = ("pos", I.arith("+", v[1], I.val(st, args[0])))
                if short == "operator+=":
                    return [(I.write(st, obj, r, node), ("ref", obj))]
                return [(st, r)]
        if short == "next" and q.startswith("std::") and args and I.val(st, args[0])[0] == "pos":
            return [(st, ("pos", I.arith("+", I.val(st, args[0])[1], I.val(st, args[1]) if len(args) > 1 else C(1))))]
        if "drop" in q and short in ("operator()", "_Drop", "drop") or "drop_view" in q:
            vals = [I.val(st, a) for a in args]
            if q.startswith("ctor:") or len(vals) == 2:
                r = args[0][1] if args and args[0][0] == "ref" else None
                return [(st, ("window", vals[-1], r == (("M", ("p", RECENT)), ()) or mentions(vals[0], ("p", RECENT))))]
            return [(st, ("dropper", vals[-1]))]
        if short == "operator|":
            vals = [I.val(st, a) for a in args]
            d = next((v for v in vals if v[0] == "dropper"), None)
            if d:
                on = any(a[0] == "ref" and a[1] == (("M", ("p", RECENT)), ()) for a in args) or any(mentions(v, ("p", RECENT)) for v in vals)
                return [(st, ("window", d[1], on))]
        if q.startswith("ctor:std::ranges::subrange") or q.endswith("subrange::subrange"):
            vals = [I.val(st, a) for a in args]
            if len(vals) == 2 and vals[0][0] == "pos":
                return [(st, ("window", vals[0][1], vals[1] == ("pos", ("p", "#n"))))]
            if len(vals) == 1:
                return [(st, vals[0])]
        return None


def window(P, R):
    r = P.rec("yaga::Theory")
    fl = [f["n"] for f in r["fields"] if f["t"].replace("const ", "") in ("int", "unsigned long", "std::size_t", "long", "unsigned int")]
    fn = P.fn("yaga::Theory::assigned")
    I = Interp(P, W())
    this = (("M", ("p", "this")), ())
    LV, N = ("p", "#level"), ("p", "#n")
    f0 = {f: ("fld", ("*", ("p", "this")), f) for f in fl}
    outs = [(s, v) for s, k, v in I.run(fn, State()) if k == "ret"]
    R.saw(I)
    if not outs:
        raise F.AnalysisBroken("Theory::assigned: no return")
    # which member remembers the level and which the position: from what is stored
    lev = pos = None
    for s, v in outs:
        for f in fl:
            x = I.read(s, I.sub(this, f))
            if x == LV:
                lev = f
            elif x == N:
                pos = f
    if lev is None:
        R.bad("C08.window", "level remembered", F.loc(fn), "the level the window belongs to is not remembered")
        return
    if pos is None:
        R.bad("C08.window", "position remembered", F.loc(fn), "the number of assignments shown is not remembered")
        return
    for s, v in outs:
        lv, np = I.read(s, I.sub(this, lev)), I.read(s, I.sub(this, pos))
        R.check(lv == LV or I.mask(s, lv, LV) == EQ, "C08.window", "level remembered", F.loc(fn), f"remembers level {show(lv)}")
        R.check(np == N or I.mask(s, np, N) == EQ, "C08.window", "position remembered", F.loc(fn), f"remembers position {show(np)} instead of the number of recent assignments")
        if v[0] == "view" and v[1] == "drop":
            v = ("window", v[3], v[2] == ("ref", (("M", ("p", RECENT)), ())))
        if v[0] != "window":
            R.notes["window_shape"] = show(v)
            continue
        if not v[2]:
            R.bad("C08.window", "range", F.loc(fn), "the window does not end at the most recent assignment")
            continue
        same = I.mask(s, LV, f0[lev])
        skip = v[1]
        for m in (EQ, LT, GT):
            if not same & m:
                continue
            s2 = I.assume_rel(s, LV, f0[lev], m)
            if s2 is None:
                continue
            if m == EQ:
                R.check(skip == f0[pos] or I.mask(s2, skip, f0[pos]) == EQ, "C08.window", "same level", F.loc(fn), f"at the same level the window skips {show(skip)} instead of what was shown before")
            else:
                R.check(I.mask(s2, skip, C(0)) == EQ, "C08.window", "new level", F.loc(fn), f"at another level the window skips {show(skip)} assignments")
    # backtracking: every handler of a theory that uses the window invalidates it
    users = set()
    for f in P.fns.values():
        if f.get("b") is not None and any(F.callee(c) == "yaga::Theory::assigned" for c in F.calls(f["b"])):
            users.add(f["q"].rsplit("::", 1)[0])
    from r_c04 import handler
    for cls in sorted(users):
        if cls == "yaga::Theory":
            continue
        c, h = handler(P, cls, "on_before_backtrack")
        if h is None:
            R.bad("C08.window", f"{cls} backtrack", F.loc(fn), "no handler invalidates the window on backtracking")
            continue

        class B(Hooks):
            max_depth = 5
            merge_limit = 8

            def opaque(self, q, fnr, node):
                return not q.startswith(("yaga::Theory::", cls + "::"))
        I2 = Interp(P, B())
        bad = None
        nret = 0
        for s, k, v in I2.run(h, State()):
            if k != "ret":
                continue
            nret += 1
            l2 = I2.read(s, I2.sub(this, lev))
            p2 = I2.read(s, I2.sub(this, pos))
            ok = I2.mask(s, p2, C(0)) == EQ or I2.mask(s, l2, C(0)) == LT
            if not ok:
                bad = f"after a backtrack the window may still skip assignments (level {show(l2)}, position {show(p2)})"
        R.saw(I2)
        if nret:
            R.check(bad is None, "C08.window", f"{cls.replace('yaga::', '')} invalidates the window", F.loc(h), bad or "")
