#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta/*.py (one PROPS list each)."""
import json, pathlib, runpy
root = pathlib.Path(__file__).resolve().parent.parent
props, checks, na, secs = [], [], [], {}
D = runpy.run_path(str(root / "tools/design_text.py"))["D"]
for f in sorted((root / "tools/meta").glob("*.py")):
    for p in runpy.run_path(str(f))["PROPS"]:
        props.append({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        })
        secs[p["id"]] = (f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Quantified over:* {p['text']}  \n*Why tests cannot settle it:* {p['why']}  \n"
            + (f"*Not applicable:* {p['na']}\n" if "na" in p else f"*Check ({p['technique']}):* {D[p['id']]}  \n*Strength:* {p['note']}\n"))
        assert len(p["title"]) <= 80, p["id"]
        if "na" in p:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            cmd = f"bash tools/check.sh {p['id']}"
            checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " thorough",
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
props.sort(key=lambda p: p["id"]); checks.sort(key=lambda p: p["property"])
assert len({p["id"] for p in props}) == len(props)
(root / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props))
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: tools/gen.py mirrors /repo's sources into ws/ and the harnesses reach private items through the mirror. See DESIGN.md."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
fixes = []
for l in (root / "known_findings.txt").read_text().splitlines():
    if l.startswith("fixed: "):
        _, prop, commit, what = l.split(" ", 3)
        fixes.append(f"| {prop.split('=')[1]} | {commit} | {what} |")
seeds = []
for d in sorted((root / "seeded").iterdir()) if (root / "seeded").is_dir() else []:
    j = json.loads((d / "meta.json").read_text())
    seeds.append(f"| {d.name} | {j['property']} | {j['property']} | {j['needs']} |")
if seeds:
    t = (root / "tools/design.md").read_text()
    for k, v in {"PROPS": [secs[k] for k in sorted(secs)], "FIXES": fixes, "SEEDED": seeds}.items():
        t = t.replace(f"@@{k}@@", "\n".join(v))
    (root / "DESIGN.md").write_text(t)
print(len(props), "properties", len(checks), "checks")
