#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from props import NOT_APPLICABLE, PROPS  # noqa: E402

S = "src/fairseq2/"
with open(ROOT / "properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        ns = len([x for x in " ".join(p["statement"].split()).split(". ") if x])
        assert ns <= 3, (p["id"], ns)
        o = {
            "id": p["id"],
            "title": p["title"],
            "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["quant"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {
                "files": [S + x for x in p["files"]],
                "mechanism": [{"name": a, "where": S + b} for a, b in p["mech"]],
                "hook_needed": None,
            },
        }
        if "state" in p:
            o["anchors"]["state"] = [
                {"name": a, "meaning": b, "where": S + c} for a, b, c in p["state"]
            ]
        if "observe" in p:
            o["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")

na = {p for p, _ in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": p["technique"],
            "level": p.get("level", "model_checking"),
            "level_note": " ".join(p["note"].split()),
        }
    )
man = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": checks,
    "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
    "notes": "Harnesses in checks/, toolkit in mc/. No hooks in /repo: all seams are public interfaces. See DESIGN.md.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
print(len(PROPS), "properties,", len(checks), "checks")
