"""Runs a scenario of another check as workload: its calls into the package are observed, its own verdict is not used."""
import os
import pickle
import shutil
import signal
import traceback
import warnings

import numpy as np

from . import core, tap

SKIP = {"C42", "C43"}


def scenarios(skip=()):
    """(property, scenario, function) of every other check."""
    out = []
    for f in sorted((core.VERIF / "swmon" / "checks").glob("c[0-9][0-9].py")):
        prop = f.stem.upper()
        if prop in SKIP or prop in skip:
            continue
        mod = core.load_check(prop)
        out += [(prop, name, fn) for name, (fn, _, _) in mod.SCENARIOS.items() if (prop, name) not in skip]
    return out


class Inner(core.Monitor):
    """Monitor of the borrowed scenario; child processes are not used, as they cannot be observed."""

    def ends(self, fn, seconds, what):
        raise core.Skip("not as workload")


def run(prop, name, fn, seed, observer):
    """Returns what ended the scenario (None, 'skip', 'violation' or an exception's name)."""
    import matplotlib.pyplot as plt
    tap.install()
    inner = Inner(prop, "quick", 0)
    tap.observer = observer
    observer.scratch = inner.scratch_dirs
    try:
        with warnings.catch_warnings():
            fn(np.random.default_rng(seed), inner)
        return None
    except core.Skip:
        return "skip"
    except core.Violation:
        return "violation"
    except Exception as e:
        return type(e).__name__
    finally:
        tap.observer = None
        core.FsMonitor.active = None
        for d in inner.scratch_dirs:
            shutil.rmtree(d, ignore_errors=True)
        plt.close("all")




def isolated(mon, fn):
    """fn(monitor) in a child process, so that every case starts from the state right after import; returns what fn does."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = {}
        try:
            os.close(r)
            signal.alarm(core.CASE_LIMIT_S)
            sub = core.Monitor(mon.prop, mon.tier, mon.seed)
            try:
                out["value"] = fn(sub)
            except core.Violation as v:
                out["violation"] = str(v)
            except core.CaseTimeout:
                out["timeout"] = True
            except Exception:
                out["error"] = traceback.format_exc()
            out.update(events=sub.events, distinct=sub.distinct, samples=sub.samples, desc=sub._desc)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the child process of a case died")
    out = pickle.loads(data)
    for k, v in out["events"].items():
        mon.event(k, v)
    mon.distinct |= out["distinct"]
    mon.samples += out["samples"][:3 - len(mon.samples)]
    mon._desc = out["desc"]
    if "timeout" in out:
        raise core.CaseTimeout()
    if "violation" in out:
        raise core.Violation(out["violation"])
    if "error" in out:
        raise RuntimeError(out["error"])
    return out["value"]
