"""Collecting instances, violations and coverage of one check; evidence and exit codes."""
import json, os, sys, time
import facts as F


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.instances = {}      # (rule, what) -> number of abstract paths on which it was met
        self.viol = []           # dict
        self.functions = set()
        self.notes = {}
        self.rules = {}
        self.selftests = 0

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, what):
        self.instances[(rule, what)] = self.instances.get((rule, what), 0) + 1

    def bad(self, rule, what, where, detail=""):
        self.instances[(rule, what)] = self.instances.get((rule, what), 0) + 1
        v = {"rule": rule, "what": what, "where": where, "detail": detail}
        if v not in self.viol:
            self.viol.append(v)

    def check(self, cond, rule, what, where, detail=""):
        if cond:
            self.ok(rule, what)
        else:
            self.bad(rule, what, where, detail)
        return cond

    def saw(self, interp):
        for fid in interp.visited:
            self.functions.add(fid)

    def need(self, n, rule, why=""):
        """Instance floor: fewer instances than confirmed by hand means the analysis is broken."""
        got = sum(1 for r, _ in self.instances if r == rule)
        if got < n and not self.viol:
            raise F.AnalysisBroken(f"rule {rule}: only {got} instances, expected at least {n} {why}")


def known_findings(prop):
    p = os.path.join(F.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                # known: property=ID key=<rule>|<what> -- description
                rest = line[len(f"known: property={prop} "):]
                key, _, desc = rest.partition(" -- ")
                out.append((key.removeprefix("key="), desc))
    return out


def finish(R, level, explanation, assumptions, P):
    known = known_findings(R.prop)
    hit, fresh = [], []
    for v in R.viol:
        key = f"{v['rule']}|{v['what']}"
        d = next((d for k, d in known if k == key), None)
        (hit if d is not None else fresh).append((v, d))
    byrule = {}
    for r, w in R.instances:
        byrule.setdefault(r, []).append(w)
    fns = sorted({P.fns[i]["q"] for i in R.functions if i in P.fns})
    cov = {
        "explanation": explanation,
        "rules": R.rules,
        "translation_units_parsed": len(P.tus),
        "function_bodies_available": len(P.fns),
        "functions_analysed": len(fns),
        "functions": fns[:400],
        "instances_checked": len(R.instances),
        "abstract_path_checks": sum(R.instances.values()),
        "instances_per_rule": {r: len(w) for r, w in byrule.items()},
        "samples": [f"{r}: {w}" for r, ws in byrule.items() for w in ws[:6]],
        **R.notes,
    }
    ev = {"property": R.prop, "tier": R.tier, "seed": R.seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - R.t0, 2), "violations": len(fresh)}
    EV = os.environ.get("YAGA_EVIDENCE", os.path.join(F.VERIF, "evidence"))
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(os.path.join(EV, R.prop + ".json"), "w"), indent=1)
    for v, d in hit:
        print(f"KNOWN-FINDING: property={R.prop} {d}")
    if fresh:
        d = os.path.join(F.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, R.prop + ".txt")
        with open(path, "w") as f:
            for v, _ in fresh:
                f.write(f"rule {v['rule']}: {R.rules.get(v['rule'], '')}\n  instance: {v['what']}\n  where:    {v['where']}\n  detail:   {v['detail']}\n\n")
        for v, _ in fresh[:20]:
            print(f"  [{v['rule']}] {v['what']} at {v['where']}: {v['detail']}")
        print(f"VIOLATION property={R.prop} replay={path}")
        return 1
    print(f"{R.prop}: held; {len(R.instances)} instances of {len(byrule)} rules over {len(fns)} functions in {ev['wall_s']}s")
    return 0
