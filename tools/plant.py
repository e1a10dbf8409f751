"""Plant bugs: build, confirm and record changes that break a property.

usage: plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts with the keys
  id, property, needs, what_it_breaks, demo (python source),
  edits: list of (file below swprocess/, old text, new text).
Each bug is applied to a scratch copy of /repo, where the stable tests must
pass, the demonstration fail, and on the unchanged tree pass.  Only then is it
written to seeded/<id>/.  The check of the property (and, with ALL=1, every
check) is then run against the changed copy, and what it said is printed.
"""
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
DEMO_SH = 'PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD" exec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY
HELP = (VERIF / "tools" / "demo_help.py").read_text()


def sh(cmd, cwd, env=None, timeout=1200):
    env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
           "PYTHONHASHSEED": "0", **(env or {})}
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, text=True,
                          capture_output=True, timeout=timeout)


def plant(bug):
    out = []
    say = out.append
    top = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        repo = top / "repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for name, old, new in bug["edits"]:
            path = repo / "swprocess" / name
            data = path.read_bytes()
            nl = b"\r\n" if b"\r\n" in data else b"\n"
            old, new = (t.encode().replace(b"\n", nl) for t in (old, new))
            if data.count(old) != 1:
                return bug, False, [f"{name}: text occurs {data.count(old)} times: {old!r}"]
            # Only lines of the original repository.
            first = data[:data.index(old)].count(b"\n") + 1
            path.write_bytes(data.replace(old, new))
        diff = subprocess.run(["git", "diff", "-U3"], cwd=repo, capture_output=True).stdout
        blame_bad = own_lines(diff)
        if blame_bad:
            return bug, False, ["changes lines of fix commits: " + "; ".join(blame_bad)]
        r = sh(f"{PY} -m pytest -q -p no:cacheprovider -x --timeout=300", repo / "test",
               {"PYTHONPATH": str(repo)})
        tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
        if r.returncode:
            fails = [l for l in r.stdout.splitlines() if l.startswith("FAILED")]
            return bug, False, ["tests: " + tail] + fails
        say("tests: " + tail)
        demo = top / "demo"
        demo.mkdir()
        (demo / "demo.py").write_text(HELP + "\n\n" + bug["demo"].strip() + "\n")
        (demo / "demo.sh").write_text(DEMO_SH)
        clean = sh(f"bash {demo}/demo.sh", "/repo", timeout=300)
        broken = sh(f"bash {demo}/demo.sh", repo, timeout=300)
        if clean.returncode or not broken.returncode:
            return bug, False, out + [f"demo: clean {clean.returncode}, broken {broken.returncode}",
                                      clean.stdout[-500:], clean.stderr[-1500:], broken.stderr[-500:]]
        say("demo says: " + (broken.stderr.strip().splitlines() or [""])[-1][:150])
        dest = VERIF / "seeded" / bug["id"]
        if dest.exists():
            shutil.rmtree(dest)
        shutil.copytree(demo, dest)
        (dest / "patch.diff").write_bytes(diff)
        (dest / "meta.json").write_text(json.dumps(
            {k: bug[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
        props = [bug["property"]]
        if os.environ.get("ALL"):
            props = [f"C{i:02d}" for i in range(1, 40)]
        hits = []
        for prop in props:
            r = sh(f"{PY} -m swmon check {prop} --tier quick --seed {os.environ.get('SEED', '1')} --jobs 2",
                   VERIF, {"SWMON_REPO": str(repo), "SWMON_EVIDENCE": str(top / "ev")})
            if r.returncode == 1:
                hits.append(prop)
            elif r.returncode:
                hits.append(f"{prop}:exit{r.returncode}")
            if prop == bug["property"]:
                lines = (r.stdout + r.stderr).strip().splitlines()
                say("check: exit %d %s" % (r.returncode, " | ".join(lines[-4:])[:600]))
        say("caught by: " + (",".join(hits) or "NOTHING"))
        return bug, bug["property"] in hits, out
    finally:
        shutil.rmtree(top)


def own_lines(diff):
    """Lines removed by `diff` which are not of the original repository."""
    bad, old, name = [], 0, None
    for line in diff.decode().splitlines():
        if line.startswith("--- a/"):
            name = line[6:]
            blame = subprocess.run(["git", "blame", "-s", "-l", "HEAD", "--", name], cwd="/repo",
                                   capture_output=True, text=True).stdout.splitlines()
        elif line.startswith("@@"):
            old = int(line.split()[1].split(",")[0][1:])
        elif line.startswith("-") and not line.startswith("---"):
            if not blame[old - 1].startswith("^"):
                bad.append(f"{name}:{old}")
            old += 1
        elif line.startswith(" "):
            old += 1
    if not any(l.startswith("-") and not l.startswith("---") for l in diff.decode().splitlines()):
        bad.append("nothing removed")
    return bad


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as pool:
        for bug, ok, out in pool.map(plant, bugs):
            print(("CAUGHT " if ok else "****** ") + bug["id"] + " " + bug["property"])
            for line in out:
                print("     " + line)
            sys.stdout.flush()


main()
