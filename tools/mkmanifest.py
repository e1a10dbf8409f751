"""Writes MANIFEST.json for every property that has a check module."""
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V))
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
PY = "/opt/venv/bin/python -m swmon check"
NOTE = ("Held on the executions this run produced, as counted in the evidence file; an independent reference model written from the "
        "statement decides every case. Says nothing about inputs the generators cannot produce. Trusts numpy, scipy, obspy and matplotlib.")
EXTRA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = V / "swmon" / "checks" / f"{i.lower()}.py"
    if f.exists():
        first = f.read_text().split('"""')[1].replace("\n", " ").strip()
        checks.append(dict(property=i, quick_cmd=f"{PY} {i} --tier quick", thorough_cmd=f"{PY} {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="runtime monitoring: " + first, level="exploration", level_note=EXTRA.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import swmon.core, numpy, scipy, obspy, matplotlib'",
         hooks=dict(guard="SWMON_HOOKS", enable="No hooks were needed: every monitor observes the public interface, so the checks run the unmodified sources.",
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Checks import swprocess from /repo's working tree, compiled from source on every run. See DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
