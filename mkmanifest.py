#!/usr/bin/env python3
"""writes MANIFEST.json and the generated parts of DESIGN.md from props.py, properties.jsonl, known_findings.jsonl and the last evidence"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks = []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": P.get("technique", "symbolic execution of the LLVM IR rustc generates from /repo's current source; z3 decides every branch and assertion for all values within the bounds; counterexamples are replayed natively"),
            "level": "model_checking",
            "level_note": "bounded: " + P["bounds"] + ((". Outside: " + P["outside"]) if P.get("outside") else ""),
        })
na = [{"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check yet")} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": props.HOOKS, "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)


# ---- generated parts of DESIGN.md
def part(text, name, body):
    a, b = "<!-- begin %s -->" % name, "<!-- end %s -->" % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + "\n" + text[j:]
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl") if l.strip()}
rows = []
for i in ids:
    P = props.PROPS[i]
    try:
        e = json.load(open(V + "/evidence/%s.json" % i))
        c = e["coverage"]
        cost = "last run (%s): %d paths, %d assertions, %d queries, %.0f s solver, %.0f s in all" % (e["tier"], c["states"], c["assertions_evaluated"], c["solver_queries"], c["solver_s"], e["wall_s"])
    except OSError:
        cost = ""
    rows.append("**%s %s** (%s)  \n*Within:* %s.  \n*Outside:* %s.  \n%s\n" % (i, titles[i], ", ".join(P["entries"]), P["bounds"], P.get("outside") or "nothing", cost))
fixed, known = [], []
for l in open(V + "/known_findings.jsonl"):
    if l.strip():
        k = json.loads(l)
        (fixed if k["status"] == "fixed" else known).append("* " + k["what"])
d = open(V + "/DESIGN.md").read()
d = part(d, "bounds", "\n".join(rows))
d = part(d, "findings", "Repaired (one `fix:` commit each):\n\n" + "\n".join(fixed) + "\n\nRecorded, not repaired:\n\n" + "\n".join("%s" % k for k in known))
open(V + "/DESIGN.md", "w").write(d)
