#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run: python3 props.py"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []      # in order
NA = []         # (id, reason)


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, level="other", state=(), observe=(), na=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mechanism], "observe_at": list(observe), "hook_needed": None},
        "_check": None if na else {"technique": technique, "level": level, "note": note}, "_na": na})


exec(open(os.path.join(HERE, "docs", "props_data.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in PROPS:
        c = p["_check"]
        if c:
            checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                           "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in PROPS if p["_na"]],
           "notes": "Static analysis only: a libTooling extractor turns /repo's current source into a typed program model, an abstract interpreter decides the rules on it (see DESIGN.md). No hooks in /repo are needed."}
    d = open(os.path.join(HERE, "DESIGN.md")).read()
    mark = "<!-- generated: properties -->"
    parts = d.split(mark)
    gen = "\n".join(f"* **{p['id']} {p['title']}** -- " + (f"{p['_check']['technique']}. {p['_check']['note']}" if p["_check"] else "not applicable: " + p["_na"]) for p in PROPS)
    if len(parts) == 3:
        open(os.path.join(HERE, "DESIGN.md"), "w").write(parts[0] + mark + "\n" + gen + "\n" + mark + parts[2])
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
