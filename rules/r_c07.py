"""C07: search statistics agree with what happened."""
from solverlib import *

EXPLANATION = ("Counter discipline over the search loop: the field behind each public statistics getter is found by analysing the getter; every write to it is checked to be the initial reset or an increment by one, "
               "and increments are matched one-to-one with their event on every path (balance automaton); all counters are known to be zero when the first propagation starts.")
ASSUMPTIONS = ["counters do not overflow"]

# getter -> event counted
COUNTERS = {"num_decisions": "decide", "num_restarts": "restart", "num_conflict_clauses": "analyze", "num_learned_clauses": "learn", "num_conflicts": "conflict"}


def strip(v):
    """Writes to the elements of a container do not change its size."""
    while v[0] == "upd":
        v = v[1]
    return v


class H(SolverHooks):
    def __init__(self, R, fields):
        super().__init__(R)
        self.fields = fields        # field -> counter name
        self.open, self.learn_loops = [], set()

    # auto = tuple of (increments - events) in order of COUNTERS, started?
    def bump(self, st, name, d):
        st = st.copy()
        bal = list(st.auto[0])
        i = list(COUNTERS).index(name)
        bal[i] = None if bal[i] is None or d is None else max(-2, min(2, bal[i] + d))
        st.auto = (tuple(bal),) + st.auto[1:]
        return st

    def write(self, I, st, node, lv, val):
        if lv[0] == ("M", ("p", "this")) and len(lv[1]) == 1 and lv[1][0] in self.fields:
            name = self.fields[lv[1][0]]
            old = I.before
            if val == I.arith("+", old, C(1)):
                return self.bump(st, name, 1)
            if val == old:
                return st
            bulk = [t for t in self.sizes(val) if val == I.arith("+", old, t) or val == I.arith("+", t, old)]
            if bulk and (name == "num_conflict_clauses" and bulk[0] == size(CONF) or name == "num_learned_clauses"):
                st = self.bump(st, name, None)      # counted in bulk: the number of elements processed by the loop
                if name == "num_learned_clauses":
                    st.auto = st.auto[:3] + (st.auto[3] | {("counted", strip(bulk[0][2][0]))},)
                return st
            if val == C(0) and not st.auto[1]:
                return st
            self.R.bad("C07.write", name, where(I, node), f"the counter is set to {show(val)}")
        return None

    def iter_begin(self, I, st, info):
        self.open.append(info)

    def iter_end(self, I, st, info, how):
        self.open = [i for i in self.open if i is not info]

    def loop_exit(self, I, st, info):
        if info["site"] in self.learn_loops:
            cov = I.coverage(info)
            v = info["val"] if cov and cov[0] == "range" else None
            if cov and cov[0] == "count":
                hi = cov[3] if cov[5][0] != "it" else None
                v = hi[2][0] if hi and hi[0] == "call" and hi[1] == "size" else None
            if v is not None:
                st = st.copy()
                st.auto = st.auto[:3] + (st.auto[3] | {("learnt", strip(v))},)
        return st

    def sizes(self, v, acc=None):
        acc = [] if acc is None else acc
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "call" and v[1] == "size":
                acc.append(v)
            else:
                for x in v:
                    self.sizes(x, acc)
        return acc

    def event(self, I, st, node, name, obj, args):
        w = where(I, node)
        if name == "theory_propagate":
            if not st.auto[1]:
                for f, c in self.fields.items():
                    v = I.read(st, (("M", ("p", "this")), (f,)))
                    self.R.check(v == C(0), "C07.reset", c, w, "the counter still holds the value of an earlier run when the search starts")
            else:
                self.settle(I, st, w)
            st = st.copy()
            st.auto = ((0,) * len(COUNTERS), True, "none", frozenset())
            return st
        if name == "theory_decide":
            st = self.bump(st, "num_decisions", -1)
        elif name == "trail_clear":
            st = self.bump(st, "num_restarts", -1)
        elif name == "analyze":
            st = self.bump(st, "num_conflict_clauses", -1)
        elif name == "learn_clause":
            st = self.bump(st, "num_learned_clauses", -1)
            self.learn_loops |= {i["site"] for i in self.open[-1:]}
        if name in ("trail_clear", "trail_backtrack"):
            if st.auto[2] != "conflict":
                st = self.bump(st, "num_conflicts", -1)
            st = st.copy()
            st.auto = (st.auto[0], st.auto[1], "conflict", st.auto[3])
        return st

    def settle(self, I, st, w, ret=None):
        counted = {c for k, c in st.auto[3] if k == "counted"}
        learnt = {c for k, c in st.auto[3] if k == "learnt"}
        if counted:
            self.R.check(not learnt or counted <= learnt, "C07.exact", "num_learned_clauses", w, f"the size of {[show(c) for c in counted]} is counted but the elements of {[show(c) for c in learnt]} are learned")
        for c, b in zip(COUNTERS, st.auto[0]):
            if c == "num_conflicts" and ret == "unsat":
                # a conflict at level 0 may or may not be counted; one that led to an empty clause was analysed
                want = (1,) if empty_known(st) else (0, 1)
                self.R.check(b in want, "C07.exact", c, w, f"counted {b} times for the final conflict")
                continue
            self.R.check(b == 0 or b is None, "C07.exact", c, w, f"the counter is incremented {'more' if (b or 0) > 0 else 'less'} often than the event it counts")


def check(P, R):
    R.rule("C07.reset", "when a search starts every counter is zero")
    R.rule("C07.exact", "each counter is incremented exactly once per event: decision taken, restart, conflict, conflict clause analysed, clause learned")
    R.rule("C07.write", "counters are only reset before the search or incremented by one")
    fields = {}
    for g in COUNTERS:
        fn = P.fn("yaga::Solver::" + g)
        I = Interp(P, Hooks())
        for s, k, v in I.run(fn):
            if v[0] == "fld" and v[1] == ("*", ("p", "this")):
                if v[2] in fields:
                    R.bad("C07.exact", g, F.loc(fn), f"{g} and {fields[v[2]]} report the same counter")
                fields[v[2]] = g
            else:
                raise F.AnalysisBroken(f"{g} does not return a counter field: {show(v)}")
        R.saw(I)
    fn = P.fn("yaga::Solver::check")
    h = H(R, fields)
    I = Interp(P, h)
    for s, k, v in I.run(fn, State(auto=((0,) * len(COUNTERS), False, "none", frozenset()))):
        if k == "ret":
            h.settle(I, s, F.loc(fn), "unsat" if is_c(v) and "unsat" in str(v[1]) else "sat")
    R.saw(I)
    R.need(5, "C07.reset")
    R.need(5, "C07.exact")
