#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json: one check per property that has a module in checks/."""
import importlib, json, pathlib, re

V = pathlib.Path(__file__).resolve().parents[1]
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
TECH = {}
for line in (V / "DESIGN.md").read_text().splitlines():
    m = re.match(r"\* \*\*([A-Z]\d\d)\*\* (.*)", line)
    if m:
        TECH[m[1]] = m[2]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i.lower()}.py").exists():
        doc = (V / "checks" / f"{i.lower()}.py").read_text()
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} --tier quick",
            "thorough_cmd": f"./check.sh {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "runtime monitoring of generated executions (independent oracle per execution)",
            "level": "exploration",
            "level_note": TECH.get(i, "see DESIGN.md")[:600],
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "./check.sh --self-test",
    "checks": checks,
    "not_applicable": na,
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in na])
