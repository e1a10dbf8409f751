"""caught.py [BUG ...]: run the check of each planted bug's property against a patched scratch copy; ALL=1 every check. Updates caught.json."""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path(__file__).resolve().parents[1]
F = V / "tools" / "caught.json"
res = json.loads(F.read_text()) if F.exists() else {}
allchecks = [c["property"] for c in json.loads((V / "MANIFEST.json").read_text())["checks"]]
names = sys.argv[1:] or sorted(d.name for d in (V / "seeded").iterdir())
for name in names:
    d = V / "seeded" / name
    prop = json.loads((d / "meta.json").read_text())["property"]
    top = pathlib.Path(tempfile.mkdtemp(prefix="caught-"))
    shutil.copytree("/repo", top / "repo", symlinks=True)
    subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=top / "repo", check=True)
    hit = []
    for c in [prop] + ([x for x in allchecks if x != prop] if os.environ.get("ALL") else []):
        r = subprocess.run(["/opt/venv/bin/python", "-m", "swmon", "check", c, "--tier", "quick", "--seed", "1"], cwd=V, capture_output=True, text=True,
                           env={**os.environ, "SWMON_REPO": str(top / "repo")})
        if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
            hit.append(c)
    shutil.rmtree(top)
    res[name] = hit
    F.write_text(json.dumps(res, indent=1, sort_keys=True) + "\n")
    print(name, hit, flush=True)
