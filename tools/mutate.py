"""Mutation runs: systematically changed copies of swprocess, run against the tests and then the checks.

mutate.py cov                     which lines each check executes (to OUT/cov.json)
mutate.py run [FILE.py ...]       try every mutant of the files; OUT/results.jsonl gets one line each
mutate.py drive REPO CHECKS N     (internal) cases of the checks in turn until one reports, exit 1
OUT is the environment variable MUT_OUT (default /tmp/w/mut).  Nothing is written to /repo or /verif.
"""
import ast
import copy
import json
import os
import pathlib
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
import queue

V = pathlib.Path(__file__).resolve().parents[1]
OUT = pathlib.Path(os.environ.get("MUT_OUT", "/tmp/w/mut"))
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
CHECKS = [f"C{i:02d}" for i in range(1, 100) if (V / f"swmon/checks/c{i:02d}.py").exists()]


# -- in the driver process ---------------------------------------------------------------------
def load(repo):
    os.environ["SWMON_REPO"] = str(repo)
    sys.path.insert(0, str(V))
    from swmon import core, env  # noqa: F401
    import logging
    logging.disable(logging.CRITICAL)
    return core


def schedule(core, checks, scale):
    """Cases of all checks, in turn."""
    queues = []
    for c in checks:
        mod = core.load_check(c)
        mon = core.Monitor(c, "quick", 1)
        for name, (fn, q, t) in mod.SCENARIOS.items():
            queues.append([mod, mon, name, 0, max(5, int(q * scale))])
    while queues:
        for q in list(queues):
            yield q[0], q[1], q[2], q[3]
            q[3] += 1
            if q[3] >= q[4]:
                queues.remove(q)


def drive(repo, checks, scale, budget):
    core = load(repo)
    t0 = time.time()
    n = 0
    for mod, mon, name, i in schedule(core, checks, scale):
        try:
            v = core.run_case(mod, mon, name, i)
        except core.CaseTimeout:
            print("KILL timeout", mon.prop, flush=True)
            return 1
        n += 1
        if v:
            print(f"KILL {mon.prop} {name}#{i} after {n}: {v['message'][:150]}", flush=True)
            return 1
        if time.time() - t0 > budget:
            print(f"BUDGET {n} cases", flush=True)
            return 0
    print(f"SURVIVED {n} cases", flush=True)
    return 0


def cov(checks):
    core = load("/repo")
    res = {}
    mon_ = sys.monitoring
    tool = 3
    mon_.use_tool_id(tool, "cov")
    hits = set()

    def line(code, ln):
        if "/swprocess/" in code.co_filename:
            hits.add((os.path.basename(code.co_filename), ln))
            return None
        return mon_.DISABLE
    mon_.register_callback(tool, mon_.events.LINE, line)
    mon_.set_events(tool, mon_.events.LINE)
    for c in checks:
        hits.clear()
        mod = core.load_check(c)
        mon = core.Monitor(c, "quick", 1)
        for name, (fn, q, t) in mod.SCENARIOS.items():
            for i in range(min(60, q)):
                core.run_case(mod, mon, name, i)
        res[c] = sorted(hits)
    print(json.dumps(res))


# -- mutants -----------------------------------------------------------------------------------
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any",
         "mean": "median", "zeros": "ones", "ones": "zeros", "maximum": "minimum", "minimum": "maximum", "append": "extend", "sin": "cos", "real": "imag",
         "logspace": "linspace", "linspace": "logspace", "isnan": "isinf", "nanmean": "mean", "nanstd": "std", "sum": "max", "finditer": "findall"}
IDENT = {"float", "int", "str", "bool", "abs", "list", "sorted", "tuple", "dict", "set", "copy", "deepcopy", "array", "absolute", "round", "rint", "flatten", "squeeze",
         "lower", "upper", "strip", "reversed", "conj", "conjugate", "unique", "expand_dims", "square", "sqrt", "exp", "log10", "nan_to_num"}


def parents(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n


def skipped(n):
    """Inside a message, log call, docstring, decorator or representation."""
    while n is not None:
        if isinstance(n, ast.Raise):
            return True
        if isinstance(n, ast.Assign) and any(getattr(t, "id", "") == "msg" for t in n.targets):
            return True
        if isinstance(n, ast.Call):
            s = ast.unparse(n.func)
            if s.startswith("logger.") or s.startswith("warnings.warn"):
                return True
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__"):
            return True
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return True
        n = getattr(n, "parent", None)
    return False


def mutants(src):
    """(line, start, end, new text, kind); positions in characters of the source with its own line ends."""
    tree = ast.parse(src)
    parents(tree)
    starts = [0]
    for l in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(l))

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(n, new, kind, paren=True):
        a, b = span(n)
        t = new if isinstance(new, str) else ast.unparse(ast.fix_missing_locations(new))
        if paren and not isinstance(new, str) and isinstance(new, (ast.BinOp, ast.BoolOp, ast.Compare, ast.UnaryOp, ast.IfExp)):
            t = f"({t})"
        if src[a:b].replace(" ", "") != t.replace(" ", ""):
            out.append((n.lineno, a, b, t, kind))
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or skipped(n):
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                m = copy.copy(n)
                m.ops = list(n.ops)
                m.ops[i] = CMP[type(op)]()
                put(n, m, "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            m = copy.copy(n)
            m.op = BIN[type(n.op)]()
            put(n, m, "bin")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                put(n, n.left, "left")
        elif isinstance(n, ast.BoolOp):
            m = copy.copy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            put(n, m, "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            put(n, n.operand, "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(n.parent, ast.Expr) or isinstance(n.parent, (ast.JoinedStr, ast.FormattedValue)):
                continue
            if isinstance(v, bool):
                put(n, str(not v), "const")
            elif isinstance(v, int):
                put(n, str(v + 1), "const")
                put(n, f"({v - 1})" if v < 1 else str(v - 1), "const")
            elif isinstance(v, float):
                put(n, repr(v * 1.1 if v else 1.0), "const")
            elif isinstance(v, str) and len(v) < 30:
                put(n, repr(v + "X"), "const")
            elif v is None:
                pass
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, "True", "cond")
            put(n.test, "False", "cond")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n.parent, ast.ClassDef):
                continue
            put(n, "pass", "stmt")
            if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                m = copy.copy(n)
                m.op = BIN[type(n.op)]()
                put(n, m, "aug")
        elif isinstance(n, ast.Raise):
            pass
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, "continue" if isinstance(n, ast.Break) else "break", "loop")
        elif isinstance(n, ast.Call):
            name = getattr(n.func, "attr", getattr(n.func, "id", ""))
            if name in NAMES:
                m = copy.deepcopy(n)
                if isinstance(n.func, ast.Attribute):
                    m.func.attr = NAMES[name]
                else:
                    m.func.id = NAMES[name]
                put(n, m, "name")
            if name in IDENT:
                if n.args:
                    put(n, f"({ast.unparse(n.args[0])})", "ident")
                elif isinstance(n.func, ast.Attribute):
                    put(n, f"({ast.unparse(n.func.value)})", "ident")
            if len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                m = copy.copy(n)
                m.args = [n.args[1], n.args[0]] + n.args[2:]
                put(n, m, "swap")
            for i in range(len(n.keywords)):
                m = copy.copy(n)
                m.keywords = n.keywords[:i] + n.keywords[i + 1:]
                put(n, m, "kw")
        elif isinstance(n, ast.For):
            put(n.iter, f"list({ast.unparse(n.iter)})[1:]", "iter")
            put(n.iter, f"list({ast.unparse(n.iter)})[:-1]", "iter")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            put(n, n.value, "slice")
    # a raise is removed by emptying the condition above it (kind cond), so nothing more here
    return sorted(set(out))


def attempt(slot, fname, mut, checks):
    repo = OUT / f"r{slot}"
    path = repo / "swprocess" / fname
    orig = pathlib.Path("/repo/swprocess", fname).read_bytes()
    src = orig.decode()
    line, a, b, new, kind = mut
    nl = "\r\n" if "\r\n" in src else "\n"
    text = src[:a] + new.replace("\n", nl) + src[b:]
    res = dict(file=fname, line=line, kind=kind, old=src[a:b].replace("\r", "")[:160], new=new[:160])
    try:
        ast.parse(text)
    except SyntaxError:
        return {**res, "status": "syntax"}
    path.write_bytes(text.encode())
    try:
        env = {**ENV, "PYTHONPATH": str(repo)}
        says, status = "", "nocover"
        if checks:
            scale, budget = os.environ.get("MUT_SCALE", "1"), os.environ.get("MUT_BUDGET", "90")
            try:
                r = subprocess.run([PY, str(V / "tools/mutate.py"), "drive", str(repo), ",".join(checks), scale, budget], cwd=V, env=env, capture_output=True, text=True, timeout=int(budget) + 150)
            except subprocess.TimeoutExpired:
                return {**res, "status": "hang"}
            says = (r.stdout.strip().splitlines() or [r.stderr[-200:]])[-1]
            if r.returncode == 1:
                return {**res, "status": "killed", "says": says}
            status = "SURVIVED" if r.returncode == 0 else f"rc{r.returncode}"
        try:                                                    # only what the existing tests accept is of interest
            t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=60"], cwd=repo / "test", env=env, capture_output=True, text=True, timeout=120)
            failed = t.returncode != 0
        except subprocess.TimeoutExpired:
            failed = True
        if failed:
            subprocess.run(["git", "clean", "-fdq", "test"], cwd=repo)
            subprocess.run(["git", "checkout", "-q", "--", "test"], cwd=repo)
            return {**res, "status": "tests", "says": says}
        return {**res, "status": status, "says": says, "checks": checks}
    finally:
        path.write_bytes(orig)


def main():
    cmd = sys.argv[1]
    if cmd == "drive":
        sys.exit(drive(sys.argv[2], sys.argv[3].split(","), float(sys.argv[4]), float(sys.argv[5])))
    if cmd == "covone":
        cov(sys.argv[2:])
        return
    OUT.mkdir(parents=True, exist_ok=True)
    if cmd == "cov":
        def one(c):
            return json.loads(subprocess.run([PY, __file__, "covone", c], cwd=V, env=ENV, capture_output=True, text=True).stdout.strip().splitlines()[-1])
        res = {}
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(one, CHECKS):
                res.update(r)
        (OUT / "cov.json").write_text(json.dumps(res))
        return
    covd = json.loads((OUT / "cov.json").read_text())
    by = {}
    for c, hits in covd.items():
        for f, l in hits:
            by.setdefault((f, l), []).append(c)
    size = {c: len(h) for c, h in covd.items()}
    jobs = int(os.environ.get("JOBS", "8"))
    for k in range(jobs):
        shutil.rmtree(OUT / f"r{k}", ignore_errors=True)
        shutil.copytree("/repo", OUT / f"r{k}", symlinks=True)
    work = queue.Queue()
    done = set()
    rf = OUT / "results.jsonl"
    if rf.exists():
        for l in rf.read_text().splitlines():
            r = json.loads(l)
            done.add((r["file"], r["line"], r["kind"], r["old"], r["new"]))
    for f in sys.argv[2:]:
        src = pathlib.Path("/repo/swprocess", f).read_bytes().decode()
        for m in mutants(src):
            if (f, m[0], m[4], src[m[1]:m[2]].replace("\r", "")[:160], m[3][:160]) in done:
                continue
            # lines of the statement
            n0, n1 = src[:m[1]].count("\n") + 1, src[:m[2]].count("\n") + 1
            cs = set()
            for ln in range(n0, n1 + 1):
                cs |= set(by.get((f, ln), []))
            if not cs:                                          # continuation lines: the nearest executed line above
                for ln in range(n0, max(0, n0 - 12), -1):
                    if (f, ln) in by:
                        cs = set(by[(f, ln)])
                        break
            work.put((f, m, sorted(cs, key=size.get)))
    total = work.qsize()
    print(total, "mutants", flush=True)
    out = rf.open("a")

    def loop(slot):
        while True:
            try:
                f, m, cs = work.get_nowait()
            except queue.Empty:
                return
            r = attempt(slot, f, m, cs)
            out.write(json.dumps(r) + "\n")
            out.flush()
            if r["status"] not in ("tests", "killed", "syntax"):
                print(work.qsize(), r["status"], f"{r['file']}:{r['line']}", r["kind"], repr(r["old"]), "->", repr(r["new"]), r.get("says", ""), flush=True)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(loop, range(jobs)))


if __name__ == "__main__":
    main()
