"""C02: every conflict is learned from and resolved by exactly one retraction."""
from looplib import *
from solverlib import *

EXPLANATION = ("Typestate plus loop-coverage analysis of the search loop: every reported conflict is passed to conflict analysis, every clause that is kept is stored and announced (the stored object) before any assignment is removed, "
               "and between two propagations exactly one retraction follows a conflict.")
ASSUMPTIONS = ["which derived clauses are kept (lowest level, no duplicates, no dominated semantic splits) is not decided here"]


class H(EachHooks, SolverHooks):
    max_depth = 12

    def __init__(self, R):
        SolverHooks.__init__(self, R)
        EachHooks.__init__(self, R, "C02")

    # auto = (done, loop stack, pending announce, retraction since the last propagation - None before the first one)
    def call(self, I, st, node, q, obj, args):
        return SolverHooks.call(self, I, st, node, q, obj, args)

    def cont_idx(self, v):
        while v[0] in ("*",):
            v = v[1]
        return (v[1], v[2]) if v[0] == "at" and len(v) == 3 else None

    def event(self, I, st, node, name, obj, args):
        done, stack, pend, retr = st.auto
        w = where(I, node)
        if name == "analyze":
            c = self.cont_idx(I.val(st, args[1]))
            if c is not None:
                st = self.visit(I, st, node, *c)
            return st
        if name == "learn_clause":
            if pend:
                self.R.bad("C02.announce", "stored clause", w, "a clause was stored but not announced before the next one is stored")
            if retr:
                self.R.bad("C02.learn-first", "learned clause", w, "assignments were removed before the clause is stored")
            c = self.cont_idx(I.val(st, args[0])) if args else None
            if c is not None:
                st = self.visit(I, st, node, *c)
                done, stack, pend, retr = st.auto
            st = st.copy()
            st.auto = (done, stack, True, retr)
        elif name == "on_learned_clause":
            a = args[2]
            ok = a[0] == "ref" and (mentions(a[1], ("p", "#stored")) or mentions_any(a[1], lambda t: isinstance(t, tuple) and len(t) > 1 and t[0] == "call" and t[1] == "yaga::Database::learned"))
            self.R.check(ok and pend, "C02.announce", "announced clause", w, "the announced clause is not the clause that was just stored in the database")
            st = st.copy()
            st.auto = (done, stack, False, retr)
        elif name in ("trail_backtrack", "trail_clear"):
            if pend:
                self.R.bad("C02.announce", "stored clause", w, "assignments are removed before the stored clause is announced")
            if retr is None:  # left over from an earlier check: nothing is being resolved yet
                return st
            self.R.check(not retr, "C02.one-retraction", name, w, "assignments are removed twice for one conflict")
            ana = [d for d in done if d[0] == CONF]
            lrn = [d for d in done if d[0] != CONF]
            bad = [d[2] for d in ana if d[2] != "full"]
            self.R.check(bool(ana) and not bad, "C02.analyze-all", name, w, "not every reported conflict is analysed: " + (bad[0] if bad else "no loop over the reported conflicts"))
            bad = [d[2] for d in lrn if d[2] != "full"]
            self.R.check(bool(lrn) and not bad, "C02.learn-all", name, w, "not every kept clause is stored: " + (bad[0] if bad else "nothing is stored before assignments are removed"))
            st = st.copy()
            st.auto = (done, stack, False, True)
        elif name == "theory_propagate":
            st = st.copy()
            st.auto = (frozenset(), stack, False, False)
        return st


def check(P, R):
    R.rule("C02.analyze-all", "when assignments are removed after a conflict, every reported conflict clause has been analysed")
    R.rule("C02.learn-all", "every clause kept from the analysis is stored, before assignments are removed")
    R.rule("C02.announce", "each stored clause is announced, as the stored object, before the next one is stored and before assignments are removed")
    R.rule("C02.one-retraction", "exactly one retraction (backtrack or restart) per conflict")
    R.rule("C02.learn-first", "clauses are stored before assignments are removed")
    fn = P.fn("yaga::Solver::check")
    h = H(R)
    I = Interp(P, h)
    I.run(fn, State(auto=(frozenset(), (), False, None)))
    R.saw(I)
    for r in ("analyze-all", "learn-all", "announce", "one-retraction"):
        R.need(1, "C02." + r)
