#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os

from kani import VERIF
from props import PROPERTIES
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []


def entry(identifier, p):
    return {
        "id": identifier,
        "title": p["title"],
        "statement": p["statement"],
        "quantifier": {"over": p["quantifier"][0], "text": p["quantifier"][1]},
        "why_tests_cant": p["why_tests_cant"],
        "anchors": {
            "files": p["files"],
            "mechanism": [{"name": name, "where": where} for name, where in p["mechanism"]],
            "hook_needed": None,
        },
    }


with open(os.path.join(VERIF, "properties.jsonl"), "w") as file:
    rows = [entry(i, p) for i, p in PROPERTIES.items()] + [entry(p["id"], p) for p in NOT_APPLICABLE]
    for row in sorted(rows, key=lambda row: row["id"]):
        assert len(row["title"]) <= 80, row["title"]
        file.write(json.dumps(row, ensure_ascii=False) + "\n")

checks = []
for identifier, p in PROPERTIES.items():
    bounded = p.get("level", "proof") != "proof"
    engines = []
    if p.get("kani"):
        engines.append("Kani/CBMC contracts on the compiled Rust")
    if p.get("pen"):
        engines.append("contracts of Pen functions, proved on the compiler's intermediate code by SMT solvers")
    checks.append(
        {
            "property": identifier,
            "quick_cmd": f"python3 engine/check.py {identifier}",
            "thorough_cmd": f"python3 engine/check.py {identifier} --tier thorough",
            "evidence_file": f"evidence/{identifier}.json",
            "technique": ("bounded contract checking: " if bounded else "contract-based deductive verification: ") + " and ".join(engines or ["contracts executed on the compiled code"]),
            "level": p.get("level", "proof"),
            "level_note": p["design"] + " Assumes: " + "; ".join(p.get("trusted", []) + p.get("assumptions", []) or ["nothing beyond the tools"]) + ".",
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "python3 engine/setup.py",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "Every check builds what it needs from /repo's working tree under .build/ and runs its verifier on it. No hooks in /repo.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as file:
    json.dump(manifest, file, indent=1)
    file.write("\n")

with open(os.path.join(VERIF, "design", "head.md")) as file:
    text = file.read()
text += "## Properties\n\n"
for identifier, p in sorted(PROPERTIES.items()):
    text += f"### {identifier} {p['title']}\n\n{p['statement']}\n\n{p['design']}\n\n"
    text += f"* Over: {p['quantifier'][1]}.\n"
    text += "* Under contract: " + "; ".join(p.get("functions", [])) + ".\n"
    if p.get("trusted"):
        text += "* Trusted: " + "; ".join(p["trusted"]) + ".\n"
    if p.get("assumptions"):
        text += "* Assumed: " + "; ".join(p["assumptions"]) + ".\n"
    if p.get("level", "proof") != "proof":
        text += "* Bounded: not counted as proved.\n"
    text += f"* Tests cannot settle it: {p['why_tests_cant']}\n\n"
if NOT_APPLICABLE:
    text += "## Not applicable\n\n"
    for p in NOT_APPLICABLE:
        text += f"* {p['id']} {p['title']}: {p['reason']}\n"
    text += "\n"
tail = os.path.join(VERIF, "design", "tail.md")
if os.path.exists(tail):
    with open(tail) as file:
        text += file.read()
with open(os.path.join(VERIF, "DESIGN.md"), "w") as file:
    file.write(text)
