"""C01: verdicts of the search are only given when they are justified."""
from solverlib import *

EXPLANATION = ("Typestate analysis of the search entry point, in context through every private helper: on every path to a return the last theory propagation, "
               "the emptiness of its conflict list, the decision level and the outcome of variable selection are tracked; each verdict must be dominated by its justification, "
               "and search may only proceed (pick, decide, propagate again) when no conflict is pending.")
ASSUMPTIONS = ["the theories report every violated clause they see (separate properties)", "resolution produces clauses implied by the formula (separate property)",
               "paths that end in a failed assertion or abort are not verdicts"]


class H(SolverHooks):
    # auto: (phase, picked, trail_touched)
    def event(self, I, st, node, name, obj, args):
        phase, picked, handled = st.auto
        if name == "theory_propagate":
            if phase == "P" and I.mask(st, size(CONF), C(0)) & GT and not handled:
                self.R.bad("C01.conflict-handled", "propagate again with a conflict pending", where(I, node), "the previous propagation may have reported conflicts and no assignment was retracted since")
            else:
                self.R.ok("C01.conflict-handled", f"propagation at {where(I, node)}")
            st = st.copy()
            st.auto = ("P", False, False)
        elif name == "pick":
            good = phase == "P" and I.mask(st, size(CONF), C(0)) == EQ
            self.R.check(good, "C01.pick-after-clean", "variable selection", where(I, node), "reached without a conflict-free propagation of the current assignment")
            st = st.copy()
            st.auto = (phase, True, handled)
        elif name in ("trail_backtrack", "trail_clear"):
            st = st.copy()
            st.auto = ("M", False, True)
        elif name in ("theory_decide", "trail_decide", "trail_propagate"):
            if name == "theory_decide":
                good = picked and phase == "P" and I.mask(st, size(CONF), C(0)) == EQ and I.truth(st, ("call", "has_value", (PICK,))) is True
                self.R.check(good, "C01.decide-picked", "decision", where(I, node), "a decision is made without a selected variable or with a conflict pending")
            st = st.copy()
            st.auto = ("M", False, handled)
        return st


def check(P, R):
    R.rule("C01.sat", "every path returning 'sat' passed a propagation whose conflict list is empty and then a variable selection that found nothing, with no assignment change in between")
    R.rule("C01.unsat", "every path returning 'unsat' knows either (conflict list non-empty and decision level 0, unchanged since the propagation) or that a derived clause is empty")
    R.rule("C01.pick-after-clean", "variable selection happens only right after a conflict-free propagation")
    R.rule("C01.decide-picked", "a decision uses a variable that was just selected")
    R.rule("C01.conflict-handled", "no path propagates again while a reported conflict is unhandled")
    fn = P.fn("yaga::Solver::check")
    h = H(R)
    I = Interp(P, h)
    st = State(auto=("0", False, False))
    outs = I.run(fn, st)
    R.saw(I)
    nsat = nunsat = 0
    for s, k, v in outs:
        if k != "ret":
            continue
        phase, picked, handled = s.auto
        if not is_c(v):
            cases = [("yaga::Solver::Result::sat", 1), ("yaga::Solver::Result::unsat", 0)]
        else:
            cases = [(v[1], cval(v))]
        for name, val in cases:
            if name.endswith("unsat") or val == 0:
                nunsat += 1
                lvl = phase == "P" and I.mask(s, size(CONF), C(0)) == GT and I.mask(s, LEVEL, C(0)) == EQ
                empty = empty_known(s)
                R.check(lvl or empty, "C01.unsat", f"return unsat [{'level 0' if lvl else 'empty clause' if empty else 'unjustified'}]", F.loc(fn),
                        f"a path returns 'unsat' without a level-0 conflict or an empty derived clause; known: {facts_of(s)}")
            else:
                nsat += 1
                clean = phase == "P" and I.mask(s, size(CONF), C(0)) == EQ
                none = picked and I.truth(s, ("call", "has_value", (PICK,))) is False
                R.check(clean and none, "C01.sat", "return sat", F.loc(fn), f"a path returns 'sat' {'with no conflict-free propagation' if not clean else 'although a variable may be unassigned'}; known: {facts_of(s)}")
    if not nsat or not nunsat:
        raise F.AnalysisBroken("no sat or no unsat return found in the search entry point")
    R.notes["verdict_paths"] = {"sat": nsat, "unsat": nunsat}


def facts_of(s):
    return "; ".join([f"{show(a)} {m} {show(b)}" for (a, b), m in list(s.rel.items())[:6]] + [f"{show(k)}={v}" for k, v in list(s.facts.items())[:6]])
