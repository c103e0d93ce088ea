"""C04: notifications reach every component exactly once."""
from looplib import *

EXPLANATION = ("For every class that holds a container of event listeners (found from the record layouts), each event handler is analysed over a generic element of the container: iteration-level typestate "
               "establishes that on every path every element receives exactly the event that was raised, once, with the same arguments; registration and replacement functions are analysed for add/remove pairing.")
ASSUMPTIONS = ["loops whose shape is not a range loop, a counted loop, an iterator loop or std::for_each are taken to cover the container", "listeners do not modify the listener list while being notified"]

EVENTS = ("on_init", "on_variable_resize", "on_before_backtrack", "on_learned_clause", "on_conflict_resolved", "on_restart")


def listener_classes(P):
    return {"yaga::Event_listener"} | set(P.subclasses("yaga::Event_listener"))


def composites(P):
    """{class: [fields holding containers of listeners]}"""
    ls = listener_classes(P)
    out = {}
    for q in sorted(ls):
        if not P.recs.get(q):
            continue
        r = P.rec(q)
        for f in r["fields"]:
            t = f["t"]
            if any(c in t for c in ("vector<", "deque<", "list<", "array<", "set<")) and any(f"{l} *" in t or f"unique_ptr<{l}" in t or f"shared_ptr<{l}" in t for l in ls):
                out.setdefault(q, []).append(f["n"])
    return out


def elem_of(v, fields):
    """(container value, index) when v names an element of one of the listener containers."""
    while v[0] == "*":
        v = v[1]
    if v[0] == "at" and len(v) == 3 and v[1][0] == "fld" and v[1][2] in fields:
        return v[1], v[2]
    return None


class H(EachHooks):
    def __init__(self, R, rule, cls, fields, fn, event):
        super().__init__(R, rule)
        self.cls, self.fields, self.fn, self.event = cls, fields, fn, event
        self.problems = []

    def call(self, I, st, node, q, obj, args):
        short = q.split("::")[-1]
        if obj is None or obj[0][0] != "M" or obj[1]:
            return None
        e = elem_of(obj[0][1], self.fields)
        if e is None:
            return None
        if short in ("get", "operator->", "operator*"):
            return None
        if short == self.event:
            ps = self.fn["ps"]
            for i, (p, a) in enumerate(zip(ps, args)):
                want = ("p", p["n"])
                got = a[1] if a[0] == "ref" else a
                ok = got == (("M", want), ()) or got == want or a[0] == "ref" and I.read(st, a[1]) == want
                if not ok:
                    self.problems.append((f"argument {i + 1} ('{p['n']}') is not passed on", where(I, node)))
            return [(self.visit(I, st, node, *e), VOID)]
        if short in EVENTS + ("decide", "propagate", "pick"):
            self.problems.append((f"'{self.event}' is delivered as '{short}'", where(I, node)))
            return [(st, ("call", q, ()))]
        return None

    def opaque(self, q, fn, node):
        return False


def broadcast(P, R, rule, cls, fields, fn, event):
    h = H(R, rule, cls, fields, fn, event)
    I = Interp(P, h)
    outs = I.run(fn, State(auto=(frozenset(), ())))
    R.saw(I)
    what = f"{cls.replace('yaga::', '')}::{event}"
    for p, w in h.problems:
        R.bad(rule, what, w, p)
    is_cont = lambda v: v[0] == "fld" and v[2] in fields or v[0] == "vec"
    nret = 0
    for s, k, v in outs:
        if k != "ret":
            continue
        nret += 1
        why = h.verdict(I, s, is_cont)
        R.check(why is None, rule, what, F.loc(fn), why or "")
    if not nret:
        raise F.AnalysisBroken(f"{what}: no path reaches a return")


def handler(P, cls, name):
    """The definition of a virtual function that applies to objects of class cls."""
    for c in [cls] + list(P.bases(cls)):
        for f in P.find(f"{c}::{name}"):
            if f.get("b") is not None:
                return c, f
    return None, None


def check(P, R):
    R.rule("C04.broadcast", "every event handler of a listener container calls the same handler on every element exactly once with the same arguments, on every path")
    R.rule("C04.decide", "a decision is offered to every combined theory exactly once")
    R.rule("C04.register", "adding a listener always appends it; removing one erases nothing but that listener; replacing a component of the solver removes the old one and adds the new one")
    R.rule("C04.single", "the solver delivers events through its dispatcher only")
    comp = composites(P)
    if not {"yaga::Event_dispatcher", "yaga::Theory_combination"} <= set(comp):
        raise F.AnalysisBroken(f"listener containers not found: {comp}")
    for cls, fields in comp.items():
        for ev in EVENTS:
            c, fn = handler(P, cls, ev)
            if fn is None or c != cls:
                R.bad("C04.broadcast", f"{cls.replace('yaga::', '')}::{ev}", cls, f"the event is not forwarded: {cls} does not handle {ev}")
                continue
            broadcast(P, R, "C04.broadcast", cls, fields, fn, ev)
    c, fn = handler(P, "yaga::Theory_combination", "decide")
    if c != "yaga::Theory_combination":
        raise F.AnalysisBroken("Theory_combination::decide not found")
    broadcast(P, R, "C04.decide", c, comp[c], fn, "decide")
    register(P, R, comp["yaga::Event_dispatcher"][0])
    add_theory(P, R, comp["yaga::Theory_combination"][0])
    setters(P, R)
    R.need(18, "C04.broadcast")


# ------------------------------------------------------------------ registration
class RegH(Hooks):
    def __init__(self, field):
        self.field = field
        self.erased = []

    def call(self, I, st, node, q, obj, args):
        short = q.split("::")[-1]
        if obj is not None and obj[1] and obj[1][-1] == self.field:
            if short in ("push_back", "emplace_back", "insert", "push_front", "emplace_front"):
                st = st.copy()
                st.auto = st.auto + (("add", I.val(st, args[-1])),)
                return ("cont", st)
            if short in ("erase", "pop_back", "clear", "resize", "remove", "pop_front", "assign"):
                st = st.copy()
                st.auto = st.auto + ((short,) + tuple(I.val(st, a) for a in args),)
                return [(I.write(st, obj, ("mut", I.site(node)), node), ("it", obj, ("x", I.site(node))))]
        return None


def register(P, R, field):
    fn = P.fn("yaga::Event_dispatcher::add")
    I = Interp(P, RegH(field))
    for s, k, v in I.run(fn, State(auto=())):
        adds = [a for a in s.auto if a[0] == "add"]
        good = len(adds) == 1 and adds[0][1] == ("p", fn["ps"][0]["n"]) and len(s.auto) == 1
        # a duplicate or null registration may be skipped
        skipped = not s.auto and any(mentions(f, ("p", fn["ps"][0]["n"])) for f in list(s.facts) + list(s.rel))
        R.check(good or skipped, "C04.register", "add", F.loc(fn), f"a path of add() performs {[a[0] for a in s.auto]} instead of appending its argument")
    R.saw(I)
    fn = P.fn("yaga::Event_dispatcher::remove")
    h = RegH(field)
    I = Interp(P, h)
    erases = 0
    for s, k, v in I.run(fn, State(auto=())):
        for a in s.auto:
            if a[0] == "erase":
                erases += 1
                txt = repr(a[1:])
                if len(a) > 2 and "remove" not in repr(a[1]):
                    R.bad("C04.register", "remove erases the given listener", F.loc(fn), f"remove() erases the range {show(a[1])} .. {show(a[2])}")
                found = "find" in txt or mentions_any(a[1], lambda t: t == ("p", fn["ps"][0]["n"])) or "remove" in txt or "any" in txt
                R.check(found, "C04.register", "remove erases the given listener", F.loc(fn), f"remove() erases {show(a[1])}, which is not the position of its argument")
            else:
                R.bad("C04.register", "remove erases the given listener", F.loc(fn), f"remove() performs {a[0]}")
    if not erases and not any(True for x in F.calls(fn["b"]) if F.callee(x).split("::")[-1] in ("erase_if", "erase")):
        R.bad("C04.register", "remove erases the given listener", F.loc(fn), "no path of remove() erases anything")
    R.saw(I)


class SetH(Hooks):
    max_depth = 4

    def __init__(self, field):
        self.field = field

    def call(self, I, st, node, q, obj, args):
        if q in ("yaga::Event_dispatcher::add", "yaga::Event_dispatcher::remove"):
            st = st.copy()
            st.auto = st.auto + ((q.split("::")[-1], I.val(st, args[0])),)
            return [(st, VOID)]
        if q.startswith("yaga::Trail::") or q.split("::")[-1] in ("on_variable_resize",):
            return [(st, ("call", q, ()))]
        return None


def add_theory(P, R, field):
    n = 0
    for fn in P.find("yaga::Theory_combination::add_theory"):
        I = Interp(P, RegH(field))
        for s, k, v in I.run(fn, State(auto=())):
            adds = [a for a in s.auto if a[0] == "add"]
            n += 1
            R.check(len(adds) == 1 and adds[0][1][0] == "own" and len(s.auto) == 1, "C04.register", "add_theory", F.loc(fn), f"a path of add_theory() performs {[a[0] for a in s.auto]} instead of keeping the new theory")
        R.saw(I)
    if not n:
        raise F.AnalysisBroken("add_theory not found")


def setters(P, R):
    done = 0
    for name in ("set_theory", "set_variable_order", "set_restart_policy"):
        seen = set()
        for fn in P.find(f"yaga::Solver::{name}"):
            if fn["line"] in seen and len(seen) > 4:
                continue
            seen.add(fn["line"])
            h = SetH(None)
            I = Interp(P, h)
            for s, k, v in I.run(fn, State(auto=())):
                if k != "ret":
                    continue
                # which field of the solver holds the component afterwards: the one written by this function
                written = {p[0][1][-1]: val for p, val in ((k2, v2) for k2, v2 in s.store.items()) if p[0][0] == "M" and p[1]} if False else {}
                flds = {k2[1][-1]: v2 for k2, v2 in s.store.items() if k2[0] == ("M", ("p", "this")) and len(k2[1]) == 1 and v2[0] == "own"}
                removed = [a[1] for a in s.auto if a[0] == "remove"]
                added = [a[1] for a in s.auto if a[0] == "add"]
                what = f"{name} ({F.loc(fn)})"
                if len(flds) != 1:
                    R.bad("C04.register", name, F.loc(fn), "the new component is not stored in the solver")
                    continue
                f, nv = next(iter(flds.items()))
                old = ("fld", ("*", ("p", "this")), f)
                nullok = any(m == EQ and {a, b} == {old, NULL} for (a, b), m in s.rel.items())
                R.check(removed == [old] or not removed and nullok, "C04.register", f"{name} removes the replaced component", F.loc(fn),
                        f"the component being replaced stays registered (removed: {[show(x) for x in removed]})")
                R.check(added == [nv], "C04.register", f"{name} registers the new component", F.loc(fn), f"registered instead: {[show(x) for x in added]}")
                done += 1
            R.saw(I)
    if done < 3:
        raise F.AnalysisBroken("component setters of the solver not found")
