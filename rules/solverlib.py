"""Shared model of the search loop's vocabulary for the rules about yaga::Solver."""
from absint import *
import absint
import facts as F

CONF = ("p", "#conflicts")
PICK = ("p", "#picked")
LEVEL = ("p", "#level")
ANALYZED = ("p", "#analyzed")
RESTART = ("p", "#should_restart")

TRAIL_MUT = {"yaga::Trail::decide", "yaga::Trail::propagate", "yaga::Trail::backtrack", "yaga::Trail::clear"}
RETRACT = {"yaga::Trail::backtrack", "yaga::Trail::clear"}
LISTENER_EVENTS = ("on_init", "on_variable_resize", "on_before_backtrack", "on_learned_clause", "on_conflict_resolved", "on_restart")


def drop(st, tag):
    """Forget everything known about a tagged value."""
    st = st.copy()
    st.facts = {k: v for k, v in st.facts.items() if not mentions(k, tag)}
    st.rel = {k: v for k, v in st.rel.items() if not mentions(k, tag)}
    return st


def empty_known(s):
    """Some clause derived by conflict analysis (or a conflict clause) is known to be empty."""
    return any(m == EQ and b == C(0) and a[0] == "call" and a[1] == "size" and a != size(CONF) and (mentions(a, ANALYZED) or mentions(a, CONF)) for (a, b), m in s.rel.items())


def size(v):
    return ("call", "size", (v,))


class SolverHooks(Hooks):
    """Intercepts the calls that make up the search loop; subclasses receive event(st, name, args)."""

    max_depth = 12
    max_steps = 600000
    merge_limit = 6

    def keep(self, I, st):
        return (I.mask(st, size(CONF), C(0)), I.mask(st, LEVEL, C(0)), I.truth(st, ("call", "has_value", (PICK,))), empty_known(st),
                I.truth(st, RESTART))

    def __init__(self, R):
        self.R = R

    def event(self, I, st, node, name, obj, args):
        return st

    def call(self, I, st, node, q, obj, args):
        short = q.split("::")[-1]
        owner = q.rsplit("::", 1)[0]
        def ev(name):
            return self.event(I, st, node, name, obj, args)
        if short == "propagate" and owner in self.theory_classes(I):
            s = ev("theory_propagate")
            s = drop(drop(s, CONF), LEVEL)
            return [(s, CONF)]
        if short == "decide" and owner in self.theory_classes(I):
            s = ev("theory_decide")
            for t in (LEVEL, CONF, PICK, RESTART, ANALYZED):
                s = drop(s, t)
            return [(s, VOID)]
        if short == "pick" and owner in self.order_classes(I):
            s = ev("pick")
            return [(drop(s, PICK), PICK)]
        if short == "is_before":
            return [(st, ("call", "is_before", tuple(I.val(st, a) for a in args)))]
        if q in TRAIL_MUT:
            s = ev("trail_" + short)
            for t in (LEVEL, CONF, PICK, RESTART, ANALYZED):
                s = drop(s, t)
            return [(s, VOID)]
        if q == "yaga::Trail::decision_level" and not args:
            s = I.assume_rel(st, LEVEL, C(0), GT | EQ)
            return [(s, LEVEL)] if s else []
        if owner == "yaga::Trail" and short in ("model", "models", "reason", "recent", "assigned", "empty", "decision_level"):
            return [(st, ("call", q, tuple(I.val(st, a) for a in args)))]
        if owner in ("yaga::Event_dispatcher", "yaga::Event_listener") and short in LISTENER_EVENTS:
            return [(ev(short), VOID)]
        if q == "yaga::Conflict_analysis::analyze":
            s = ev("analyze")
            # the callback announces each resolution step: analyse it on a generic clause
            for a in args:
                v = I.val(s, a)
                if v[0] == "lam":
                    rs = I.apply(s, v, [("ref", (("M", ("p", "#other_clause")), ()))], node, {"ret": [], "throw": []})
                    s = self.after_callback(I, s, [r for r, _ in rs]) or s
            return [(drop(s, ANALYZED), ANALYZED)]
        if q == "yaga::Subsumption::minimize":
            return [(ev("minimize"), VOID)]
        if short == "learn_clause" and owner == "yaga::Database":
            s = ev("learn_clause")
            return [(s, ("ref", (("M", ("p", "#stored")), ())))]
        if short == "should_restart":
            s = ev("should_restart")
            return [(drop(s, RESTART), RESTART)]
        if owner == "yaga::Database":
            return [(st, ("ref", (("M", ("call", q, ())), ())))]
        if owner.startswith("yaga::Model"):
            s = ev("model_" + short)
            return [(s, ("call", q, tuple(I.val(st, a) for a in args)))]
        return None

    def after_callback(self, I, st, results):
        return None

    def theory_classes(self, I):
        return {"yaga::Theory"} | set(I.P.subclasses("yaga::Theory"))

    def order_classes(self, I):
        return {"yaga::Variable_order"} | set(I.P.subclasses("yaga::Variable_order"))


def where(I, node):
    fr = [f for f in I.stack if not str(f["id"][0]).startswith("lamshim")]
    chain = " <- ".join(f["q"].replace("yaga::", "") for f in reversed(fr))
    f = fr[-1]["fn"] if fr else {"file": "?"}
    return f"{F.rel(f['file'])}:{node.get('l', 0)} ({chain})"
