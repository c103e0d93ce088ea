"""C03: retraction of assignments is announced beforehand, to the level it really goes to."""
from solverlib import *

EXPLANATION = ("Typestate over the whole search loop (all helpers analysed in context): every call that removes assignments from the trail must be dominated by a notification carrying the same level value "
               "with no assignment or model change in between; a full reset is announced with level 0 and followed by the restart notification before anything else happens. "
               "Who-may-call: every call site of the retracting trail operations in the program must be one of those analysed.")
ASSUMPTIONS = ["levels are compared by value numbering: two expressions count as the same level only if they are the same value on that path"]


class H(SolverHooks):
    def __init__(self, R):
        super().__init__(R)
        self.seen_sites = set()

    def event(self, I, st, node, name, obj, args):
        st = st.copy()
        pre, pend = st.auto
        w = where(I, node)
        if name == "on_before_backtrack":
            if pend and pend[0] == "cleared":
                self.R.bad("C03.restart", "restart announcement", w, "assignments were cleared and another retraction is announced before listeners were told about the restart")
            st.auto = (pre, ("ann", I.val(st, args[2])))
        elif name in ("trail_backtrack", "trail_clear"):
            self.seen_sites.add((I.stack[-1]["fn"]["file"], node["l"]))
            lvl = I.val(st, args[0]) if args else C(0)
            if not pend or pend[0] != "ann":
                self.R.bad("C03.announced", name, w, "assignments are removed without telling the listeners first")
            else:
                self.R.check(pend[1] == lvl or I.mask(st, pend[1], lvl) == EQ, "C03.level", name, w, f"announced level {show(pend[1])} but assignments are removed down to {show(lvl)}")
                self.R.ok("C03.announced", name)
            # what an earlier check left behind is dropped before the first propagation: that is no restart
            st.auto = (pre, ("cleared",) if name == "trail_clear" and not pre else None)
        elif name == "on_restart":
            self.R.check(bool(pend) and pend[0] == "cleared", "C03.restart", "restart announcement", w, "listeners are told about a restart although the trail was not cleared just before")
            st.auto = (pre, None)
        elif name in ("theory_propagate", "theory_decide", "pick", "trail_decide", "trail_propagate", "model_set_value", "model_clear", "learn_clause", "analyze"):
            if pend:
                why = "the listeners were not told about the restart" if pend[0] == "cleared" else "a retraction was announced but has not happened yet"
                self.R.bad("C03.restart" if pend[0] == "cleared" else "C03.announced", f"before {name}", w, why)
                pend = None
            st.auto = (pre and name != "theory_propagate", pend)
        return st


def check(P, R):
    R.rule("C03.announced", "a retraction of assignments is directly preceded by a notification; nothing is assigned, learned or propagated in between")
    R.rule("C03.level", "the announced level is the level assignments are removed down to (0 for a full reset)")
    R.rule("C03.restart", "clearing the trail is followed by the restart notification before anything else, and that notification is only sent then")
    R.rule("C03.sites", "assignments are only removed by the search loop")
    fn = P.fn("yaga::Solver::check")
    h = H(R)
    I = Interp(P, h)
    for s, k, v in I.run(fn, State(auto=(True, None))):
        if k == "ret":
            R.check(not s.auto[1], "C03.announced", "at return", F.loc(fn), "the search returns with an announced retraction outstanding")
    R.saw(I)
    n = 0
    for f in P.fns.values():
        if f.get("b") is None:
            continue
        for x in F.calls(f["b"]):
            if F.callee(x) in RETRACT and not f["q"].startswith("yaga::Trail::"):
                n += 1
                R.check((f["file"], x["l"]) in h.seen_sites, "C03.sites", F.loc(f, x), F.loc(f, x), f"{f['q']} removes assignments outside the analysed search loop")
    R.notes["retraction_call_sites"] = n
    R.need(2, "C03.sites")
    R.need(2, "C03.level")
