#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, the property table, known_findings.json and tools/seed_results.json."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from props import NOT_APPLICABLE, PROPS  # noqa: E402
from design_notes import HEAD, NOTES, TAIL  # noqa: E402


def one(x):
    return " ".join(x.split())


out = [HEAD.strip(), "", "## Properties", ""]
for p in PROPS:
    out += [f"### {p['id']} — {p['title']}", "", one(p["statement"]), ""]
    out += [f"*Deciding method:* {one(p['technique'])}.", ""]
    out += [f"*Explored:* {one(p['quant'])}.", ""]
    out += [f"*Bounds and trust:* {one(p.get('note', ''))}", ""]
    out += [f"*Why tests cannot settle it:* {one(p['why'])}", ""]
    if p["id"] in NOTES:
        out += [NOTES[p["id"]].strip(), ""]
if NOT_APPLICABLE:
    out += ["## Not applicable", ""] + [f"- {a}: {b}" for a, b in NOT_APPLICABLE] + [""]
kf = json.loads((ROOT / "known_findings.json").read_text())
out += ["## Genuine defects", "", "Recorded, not repaired (`known_findings.json`):", ""]
out += [f"- {k['property']} `{k['key']}`: {k['what']}" for k in kf["known"]]
out += ["", "Repaired by `fix:` commits in /repo; the check that reported each one reports it again if it returns:", ""]
out += [f"- {x.removeprefix('fixed: property=')}" for x in kf["fixed"]]
out += ["", "## Planted bugs", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
res = ROOT / "tools" / "seed_results.json"
res = json.loads(res.read_text()) if res.exists() else {}
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    r = res.get(d.name, {})
    c = f"{m['property']} quick" if r.get("rc", 1) == 1 else "MISSED"
    out.append(f"| {d.name} | {m['property']} | {one(m['needs'])} | {c} |")
out += ["", TAIL.strip(), ""]
(ROOT / "DESIGN.md").write_text("\n".join(out))
