"""Writes DESIGN.md from design_body.md, design_notes.md, the check modules and seeded/."""
import ast
import json
import pathlib

V = pathlib.Path(__file__).resolve().parents[1]
T = V / "tools"
body = (T / "design_body.md").read_text()
per = json.loads((T / "design_per.json").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
out = [body]
for p in props:
    i = p["id"]
    f = V / "swmon" / "checks" / f"{i.lower()}.py"
    counts = []
    for n in ast.parse(f.read_text()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "SCENARIOS":
            for k, v in zip(n.value.keys, n.value.values):
                counts.append(f"{k.value} {v.elts[1].value}/{v.elts[2].value}")
    o, b, w = per[i]
    out.append(f"**{i} {p['title']}.** {o} *Bounds:* {b}; {', '.join(counts)}. *Beyond tests:* {w}.\n\n")
out.append((T / "design_notes.md").read_text())
res = json.loads((T / "caught.json").read_text()) if (T / "caught.json").exists() else {}
out.append("\n## Planted bugs\n\nEach was confirmed by `tools/plant.py` in a scratch copy: the 99 tests pass, its demonstration fails with it and passes without. "
           "\"Caught by\" lists the checks known to report it at quick tier, seed 1 (its own property's first).\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n")
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['needs']} | {m['what_it_breaks']} | {', '.join(res.get(d.name, [])) or m['property'] + ' (missed)'} |\n")
(V / "DESIGN.md").write_text("".join(out))
print("DESIGN.md written")
