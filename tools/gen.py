#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json (and the generated part of DESIGN.md) from rsa/props.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from rsa.props import NOT_APPLICABLE, PROPS  # noqa: E402


def line(p):
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"]}}


with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(list(PROPS.values()) + NOT_APPLICABLE, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        f.write(json.dumps(line(p)) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q rsa check.py",
    "checks": [
        {"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
         "thorough_cmd": f"python3 check.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
         "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]}
        for p in PROPS.values()],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "Pure static analysis of /repo's current sources (stdlib ast only); nothing from /repo is imported or run.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
# DESIGN.md: keep the hand-written part, regenerate the per-property table
d = os.path.join(ROOT, "DESIGN.md")
text = open(d).read() if os.path.exists(d) else "# Design\n\n<!-- generated -->\n"
head = text.split("<!-- generated -->")[0]
out = [head + "<!-- generated -->\n", "## Properties\n"]
for p in PROPS.values():
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Technique.* {p['technique']}.\n\n*Rule.* {p['rule']}\n\n"
               f"*Why tests cannot.* {p['why']}\n\n*Assurance and limits.* {p['note']}\n\n*Assumptions.* " + "; ".join(p["assumptions"]) + "."
               + (f"\n\n{p['design']}" if p["design"] else "") + "\n")
if NOT_APPLICABLE:
    out.append("## Not applicable\n")
    for p in NOT_APPLICABLE:
        out.append(f"- **{p['id']} {p['title']}**: {p['statement']} *Reason:* {p['reason']}")
    out.append("")
seeded = os.path.join(ROOT, "seeded")
rows = []
if os.path.isdir(seeded):
    rf = os.path.join(ROOT, "tools", "seed_results.json")
    results = json.load(open(rf)) if os.path.exists(rf) else {}
    for s in sorted(os.listdir(seeded)):
        mf = os.path.join(seeded, s, "meta.json")
        if os.path.exists(mf):
            m = json.load(open(mf))
            rows.append(f"| {s} | {m['property']} | {results.get(s, 'not run')} | {m['what_it_breaks']} |")
if rows:
    out.append("## Planted changes\n\n| change | property | check result | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(d, "w").write("\n".join(out))
