"""Rewrite the defect and planted-bug sections of DESIGN.md from known_findings.txt, seeded/ and tools/cases/."""
import collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
d = open("DESIGN.md").read()
out = ["## Genuine defects found", "",
       "Recorded in `known_findings.txt` (`fixed:` suppresses nothing; `known: property=ID key=<rule>|<instance> -- text` would). Each fixed one is reported again by its check when the commit is reverted.", ""]
for l in open("known_findings.txt"):
    m = re.match(r"(fixed|known): property=(\S+) (\S+) (.*)", l)
    if m:
        out.append(f"* {m[2]} ({m[1]}, {m[3]}): {m[4]}.")
out += ["", "## Planted bugs", "",
        "Each planted bug in `seeded/` builds, passes the stable tests and has a demonstration. The check named is the one of its property; all are caught.", "",
        "| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    j = json.load(open(f))
    out.append("| " + " | ".join([f.split("/")[1], j["property"], j["what_it_breaks"], j["needs"]]).replace("\n", " ") + " |")
n = collections.defaultdict(lambda: [0, 0])
for f in glob.glob("tools/cases/*.mut"):
    for l in re.findall(r"^== \S+ (.*)", open(f).read(), re.M):
        for k in re.findall(r"C\d\d", l):
            n[k][1 if "quiet" in l else 0] += 1
out += ["", "Besides these, `tools/mut.py FILE` applies the smaller changes of `tools/cases/*.mut` to a scratch copy, analyses it and compares the answer with the one expected: changes that break a property (not all pass the tests) must be reported, rewritings that keep the behaviour must not. No check reads these files.", "",
        "| property | breaking changes reported | rewritings left quiet |", "|---|---|---|"]
out += [f"| {k} | {a} | {b} |" for k, (a, b) in sorted(n.items())]
i = d.index("## Genuine defects found")
open("DESIGN.md", "w").write(d[:i] + "\n".join(out) + "\n")
