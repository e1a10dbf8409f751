"""Runner: deterministic case enumeration, worker processes, verdicts, evidence, replays."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = pathlib.Path(__file__).resolve().parents[1]
CASE_LIMIT_S = 120      # watchdog for one case; firing is inconclusive, never a violation
QUICK_SCALE = 4         # the quick counts of the check modules are multiplied by this
TOTAL_LIMIT_S = {"quick": 600, "thorough": 7200}


class Violation(Exception):
    fatal = False           # the worker stops at once: the cases after it would not end either

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Skip(Exception):
    """The drawn input lies outside what can be decided; raised by generators, never after looking at a result."""


class CaseTimeout(BaseException):
    pass


class Monitor:
    """Collects what the oracles observed in one worker; one instance per worker process."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.events = {}
        self.distinct = set()
        self.samples = []
        self.evaluations = 0
        self.scratch_dirs = []
        self._desc = None

    # -- what a case reports ---------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def describe(self, nontrivial=True, **desc):
        """One line per case: what was generated. Distinct non-trivial cases are counted by it."""
        self._desc = {k: _plain(v) for k, v in desc.items()}
        if nontrivial:
            txt = json.dumps(self._desc, sort_keys=True, default=str)
            self.distinct.add(hashlib.md5(txt.encode()).hexdigest()[:16])
        if len(self.samples) < 3:
            self.samples.append(self._desc)

    # -- oracles ---------------------------------------------------------------------------
    def check(self, cond, message, key=None, **witness):
        self.event("oracle_decisions")
        if not cond:
            txt = "; ".join(f"{k}={_short(v)}" for k, v in witness.items())
            raise Violation(f"{message}" + (f" [{txt}]" if txt else ""), key=key)

    def equal(self, got, want, message, key=None):
        """Exact equality of arrays or values (NaN equal to NaN)."""
        import numpy as np
        self.event("oracle_decisions")
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            if g.dtype.kind in "fc" or w.dtype.kind in "fc":
                ok = bool(np.array_equal(g, w, equal_nan=True))
            else:
                ok = bool(np.all(g == w))
        if not ok:
            raise Violation(f"{message} [got={_short(got)}; want={_short(want)}]", key=key)

    def close(self, got, want, message, rtol=1e-7, atol=0.0, key=None):
        """Equality of arrays to a relative tolerance of the largest wanted magnitude (plus atol)."""
        import numpy as np
        self.event("oracle_decisions")
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{message} [shape {g.shape} instead of {w.shape}; got={_short(got)}; want={_short(want)}]", key=key)
        if g.size == 0:
            return
        if not np.array_equal(np.isnan(g), np.isnan(w)):
            raise Violation(f"{message} [missing values differ; got={_short(got)}; want={_short(want)}]", key=key)
        fin = np.isfinite(w)
        if not np.array_equal(g[~fin & ~np.isnan(w)], w[~fin & ~np.isnan(w)]):
            raise Violation(f"{message} [infinite values differ; got={_short(got)}; want={_short(want)}]", key=key)
        if not np.any(fin):
            return
        scale = np.max(np.abs(w[fin]))
        err = np.max(np.abs(g[fin] - w[fin]))
        if not err <= rtol * scale + atol:
            raise Violation(f"{message} [max error {err:.3g} at scale {scale:.3g}; got={_short(got)}; want={_short(want)}]", key=key)

    def raises(self, exc, fn, message, key=None):
        self.event("oracle_decisions")
        self.event("refusals_checked")
        try:
            out = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(f"{message}: raised {type(e).__name__}({e}) instead of {getattr(exc, '__name__', exc)}", key=key)
        raise Violation(f"{message}: accepted, returned {_short(out)}", key=key)

    def unchanged(self, name, *objs):
        return _Unchanged(self, name, objs)

    def ends(self, fn, seconds, what):
        """Violation if fn() uses more processor time than a limit thousands of times above what is needed.

        Runs it in a child process, as Python's signal handlers do not run inside a regular expression."""
        import resource
        self.event("oracle_decisions")
        pid = os.fork()
        if pid == 0:
            resource.setrlimit(resource.RLIMIT_CPU, (seconds, seconds + 5))
            try:
                fn()
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        self.event("terminations_checked")
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL):
            v = Violation(f"{what} did not end within {seconds} s of processor time")
            v.fatal = True
            raise v

    # -- scratch ---------------------------------------------------------------------------
    def scratch(self):
        d = tempfile.mkdtemp(prefix="swmon-")
        self.scratch_dirs.append(d)
        return pathlib.Path(d)

    def cleanup(self):
        import shutil
        for d in self.scratch_dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.scratch_dirs = []


class _Unchanged:
    """Fingerprints arguments before and after a call; any difference is a violation."""

    def __init__(self, mon, name, objs):
        self.mon, self.name, self.objs = mon, name, objs

    def __enter__(self):
        self.before = [fingerprint(o) for o in self.objs]
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, Exception) and not issubclass(et, Violation):
            self.mon.event("argument_fingerprints", len(self.objs))
            for i, (o, b) in enumerate(zip(self.objs, self.before)):
                if fingerprint(o) != b and et is None:
                    raise Violation(f"{self.name} (argument {i}) was modified by the call")
        return False


def fingerprint(o):
    """Digest of containers, arrays and the public state of the package's objects."""
    h = hashlib.sha1()

    def rec(x):
        import numpy as np
        if isinstance(x, np.ndarray):
            h.update(b"A" + str(x.dtype).encode() + str(x.shape).encode() + np.ascontiguousarray(x).tobytes())
        elif isinstance(x, dict):
            h.update(b"D%d" % len(x))
            for k in x:                       # order is part of a dictionary's observable state
                rec(k)
                rec(x[k])
        elif isinstance(x, (list, tuple)):
            h.update((b"L" if isinstance(x, list) else b"T") + b"%d" % len(x))
            for y in x:
                rec(y)
        elif isinstance(x, (str, bytes, int, float, bool, complex, type(None), np.generic)):
            h.update(type(x).__name__.encode() + repr(x).encode())
        elif hasattr(x, "sensors") and hasattr(x, "source"):
            h.update(b"array")
            rec(x.sensors)
            rec(x.source)
        elif hasattr(x, "frequencies") and hasattr(x, "power"):
            h.update(b"transform")
            for a in ("n", "frequencies", "velocities", "power"):
                rec(np.array(getattr(x, a)))
        elif hasattr(x, "nstacks"):
            h.update(b"record")
            for a in ("amplitude", "time", "dt", "delay", "nstacks", "nsamples", "df", "multiple"):
                rec(getattr(x, a))
            for a in ("x", "y", "z"):
                if hasattr(x, a):
                    rec(getattr(x, a))
        elif hasattr(x, "peaks") and hasattr(x, "ids"):
            h.update(b"suite")
            rec(list(x.ids))
            rec(list(x.peaks))
        elif hasattr(x, "attrs") and hasattr(x, "identifier"):
            h.update(b"peaks")
            rec(x.identifier)
            rec(list(x.attrs))
            for a in x.attrs:
                rec(np.array(getattr(x, a)))
        elif hasattr(x, "x") and hasattr(x, "y") and hasattr(x, "z"):
            h.update(b"source")
            rec((x.x, x.y, x.z))
        elif callable(x):
            h.update(b"callable%d" % id(x))
        else:
            h.update(b"obj" + repr(x).encode())
    rec(o)
    return h.hexdigest()


def _plain(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return [_plain(x) for x in v.ravel()[:12].tolist()]
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float):
        return float(f"{v:.6g}")
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v[:20]]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (int, str, bool, type(None))):
        return v
    return str(v)[:80]


def _short(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return np.array2string(v, threshold=12, edgeitems=4, precision=6).replace("\n", " ")
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


# -- file-system monitor ---------------------------------------------------------------------
class FsMonitor:
    """Audit hook: records every path opened for writing, created, removed or renamed."""
    _installed = False
    active = None

    @classmethod
    def install(cls):
        if cls._installed:
            return
        cls._installed = True

        def hook(event, args):
            a = cls.active
            if a is None:
                return
            if event == "open":
                path, mode, flags = args
                if isinstance(path, int):
                    return
                wr = any(c in (mode or "") for c in "wax+") or (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
                (a["written"] if wr else a["read"]).append(os.path.abspath(os.fsdecode(path)))
            elif event in ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink",
                           "shutil.rmtree", "shutil.move", "shutil.copyfile", "subprocess.Popen", "os.system"):
                a["other"].append((event, [str(x) for x in args]))
        sys.addaudithook(hook)

    def __init__(self):
        self.install()
        self.log = dict(read=[], written=[], other=[])

    def __enter__(self):
        FsMonitor.active = self.log
        return self.log

    def __exit__(self, *a):
        FsMonitor.active = None
        return False


# -- enumeration and workers -----------------------------------------------------------------
def case_rng(seed, prop, scenario, index):
    import numpy as np
    return np.random.default_rng([seed & 0x7FFFFFFF, zlib.crc32(prop.encode()), zlib.crc32(scenario.encode()), index])


def load_check(prop):
    return importlib.import_module(f"swmon.checks.{prop.lower()}")


def all_cases(mod, tier):
    cases = []
    for name, (fn, quick, thorough) in mod.SCENARIOS.items():
        n = quick * QUICK_SCALE if tier == "quick" else max(thorough, quick * QUICK_SCALE)
        cases += [(name, i) for i in range(n)]
    return cases


def run_case(mod, mon, scenario, index):
    """Returns None or a dict describing a violation."""
    import matplotlib.pyplot as plt
    fn = mod.SCENARIOS[scenario][0]
    rng = case_rng(mon.seed, mon.prop, scenario, index)
    mon._desc = None
    mon.evaluations += 1
    mon.event("scenario:" + scenario)
    cwd = os.getcwd()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        fn(rng, mon)
        return None
    except Skip:
        mon.event("skipped_draws")
        return None
    except Violation as v:
        return dict(message=str(v), key=v.key, trace="", fatal=v.fatal)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/swprocess/" in f.filename]
        at = f" at {os.path.basename(where[-1].filename)}:{where[-1].name}" if where else ""
        return dict(message=f"unexpected {type(e).__name__}: {e}{at}", key=None, trace=traceback.format_exc())
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        FsMonitor.active = None
        mon.cleanup()
        plt.close("all")
        os.chdir(cwd)


def _alarm(*_):
    raise CaseTimeout()


def _worker(prop, tier, seed, cases, conn):
    try:
        import logging
        logging.disable(logging.CRITICAL)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        mod = load_check(prop)
        mon = Monitor(prop, tier, seed)
        violations, timeouts = [], []
        for scenario, index in cases:
            try:
                v = run_case(mod, mon, scenario, index)
            except CaseTimeout:
                timeouts.append((scenario, index))
                if len(timeouts) > 2:
                    break
                continue
            if v is not None:
                v.update(scenario=scenario, index=index, case=mon._desc)
                violations.append(v)
                conn.send(dict(violation=v))
                if len(violations) >= 20 or v.get("fatal"):
                    break
        conn.send(dict(events=mon.events, distinct=list(mon.distinct), samples=mon.samples,
                       evaluations=mon.evaluations, timeouts=timeouts))
    except BaseException:
        conn.send(dict(error=traceback.format_exc()))
    finally:
        conn.close()


def known_findings(prop):
    """Lines 'open: property=<id> key=<mechanism> <what>' of KNOWN_FINDINGS.txt (fixed ones suppress nothing)."""
    out = {}
    f = VERIF / "KNOWN_FINDINGS.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("open: ") and f"property={prop} " in line:
                key = line.split("key=")[1].split()[0]
                out[key] = line.split(f"key={key}")[1].strip()
    return out


def check(prop, tier, seed, nproc):
    t0 = time.time()
    from . import env  # noqa: F401  (imports the package once, before forking)
    mod = load_check(prop)
    cases = all_cases(mod, tier)
    ctx = mp.get_context("fork")
    nproc = max(1, min(nproc, len(cases)))
    jobs = []
    for w in range(nproc):
        rx, tx = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(prop, tier, seed, cases[w::nproc], tx))
        p.start()
        tx.close()
        jobs.append((p, rx))
    results, errors, violations = [], [], []
    for p, rx in jobs:
        try:
            while True:                         # violations as they are found, then the worker's account
                if not rx.poll(max(1, TOTAL_LIMIT_S[tier] - (time.time() - t0))):
                    errors.append(dict(error="worker exceeded the time limit"))
                    break
                r = rx.recv()
                if "violation" in r:
                    violations.append(r["violation"])
                    continue
                (errors if "error" in r else results).append(r)
                break
        except EOFError:
            errors.append(dict(error="worker died"))
        if p.is_alive():
            p.join(5)
            if p.is_alive():
                p.kill()
    events, distinct, samples, timeouts, evaluations = {}, set(), [], [], 0
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        distinct |= set(r["distinct"])
        samples += r["samples"][:1]
        timeouts += r["timeouts"]
        evaluations += r["evaluations"]
    violations.sort(key=lambda v: (v["scenario"], v["index"]))

    known = known_findings(prop)
    new = [v for v in violations if v["key"] not in known]
    seen_known = {v["key"] for v in violations if v["key"] in known}
    inconclusive = [f"worker: {e['error'].strip().splitlines()[-1]}" for e in errors]
    inconclusive += [f"case {s}/{i} exceeded {CASE_LIMIT_S} s" for s, i in timeouts]
    for name, least in getattr(mod, "REQUIRE", {}).items():
        if events.get(name, 0) < least:
            inconclusive.append(f"monitor '{name}' observed {events.get(name, 0)} events, needs {least}")

    verdict = "violated" if new else ("inconclusive" if inconclusive else "held")
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=mod.RULE,
                      samples=samples[:6], observed_events=dict(sorted(events.items())), verdict=verdict,
                      inconclusive=inconclusive, known_findings_seen=sorted(seen_known)),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(new))
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    (evdir / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")

    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    print(f"{prop} [{tier}, seed {seed}]: {verdict}; {evaluations} cases, {len(distinct)} distinct, "
          f"{events.get('oracle_decisions', 0)} oracle decisions, {time.time() - t0:.1f} s")
    if new:
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        for v in new[:3]:
            f = rdir / f"{prop}-{tier}-{seed}-{v['scenario']}-{v['index']}.json"
            f.write_text(json.dumps(dict(property=prop, tier=tier, seed=seed, **v), indent=1, default=str) + "\n")
            print(f"  {v['scenario']}#{v['index']}: {v['message'][:600]}")
            print(f"VIOLATION property={prop} replay={f}")
        return 1
    if inconclusive:
        for m in inconclusive[:5]:
            print("INCONCLUSIVE:", m)
        for e in errors[:1]:
            print(e["error"], file=sys.stderr)
        return 2
    return 0


def replay(path):
    from . import env  # noqa: F401
    d = json.loads(pathlib.Path(path).read_text())
    mod = load_check(d["property"])
    mon = Monitor(d["property"], d["tier"], d["seed"])
    v = run_case(mod, mon, d["scenario"], d["index"])
    print(json.dumps(mon._desc, indent=1, default=str))
    if v is None:
        print("not reproduced: the property held on this case")
        return 0
    print(v["trace"])
    print(v["message"])
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1


def main(argv=None):
    ap = argparse.ArgumentParser(prog="swmon")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    c.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    r = sub.add_parser("replay")
    r.add_argument("path")
    a = ap.parse_args(argv)
    if a.cmd == "replay":
        return replay(a.path)
    return check(a.property, a.tier, a.seed, a.jobs)
