"""Process-wide state (random generators, numeric error handling, plotting defaults, environment, files, descriptors) compared around every outermost call into the package while the workloads of all other checks run."""
import gc
import locale
import logging
import os
import pathlib
import random
import signal
import sys
import threading
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

from .. import borrow
from ..core import Violation

RULE = "a case is one scenario of another check, of any part of the package, each call of which is bracketed by two looks at the state of the process; distinct by scenario and draw"
REQUIRE = {"calls": 20000, "functions": 150, "scenarios_used": 80, "writing_calls": 150, "files_read": 2000}
ASSUMPTIONS = ["what is looked at: numpy's and python's global random state, numpy error handling and print options, matplotlib rcParams and backend, working directory, environment, "
               "sys.path, standard streams, warning filters, root logger, locale, signal handlers, threads, open files, recursion limit"]
WRITERS = ("to_file", "to_json", "to_csv", "to_file_jpv", "extract", "write", "save", "export")
_LIBS = ("/dev/", "/proc/", "/usr/", "/memfd", os.path.realpath(sys.prefix), sys.prefix, *(str(pathlib.Path(m.__file__).parents[1]) for m in (np, matplotlib)))   # libraries keep fonts open
_used, _names = set(), set()


def _fds():
    out = set()
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith("/") and not p.startswith(_LIBS):
            out.add((fd, p))
    return out


def _state():
    name, keys, pos, has, cached = np.random.get_state()
    return dict(numpy_random=(name, hash(keys.tobytes()), pos, has, cached), random=hash(random.getstate()), numeric_errors=np.geterr(), error_call=np.geterrcall(),
                print_options=str(np.get_printoptions()), rcparams=dict.copy(matplotlib.rcParams), backend=matplotlib.get_backend(), interactive=plt.isinteractive(),
                directory=os.getcwd(), recursion=sys.getrecursionlimit(), streams=(id(sys.stdout), id(sys.stderr), id(sys.stdin)), open_files=_fds(),
                signals=tuple(signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)), threads=threading.active_count(), gc=gc.isenabled(),
                excepthook=id(sys.excepthook)), \
        dict(environment=dict(os.environ), path=tuple(sys.path), filters=tuple(map(str, warnings.filters)), showwarning=id(warnings.showwarning),
             logging=(logging.root.level, tuple(map(id, logging.root.handlers)), logging.root.manager.disable), locale=locale.setlocale(locale.LC_ALL, None))


class Observer:
    def __init__(self):
        self.found, self.calls, self.names, self.writing, self.read = [], 0, set(), 0, 0
        self.log = None

    def before(self, name, args, kwargs, fn):
        self.modules = len(sys.modules)
        self.first, self.second = _state()
        self.log = _files.log = []

    def after(self, name, args, kwargs, result, error):
        log, _files.log = _files.log, None
        first, second = _state()
        self.calls += 1
        self.names.add(name)
        if first["open_files"] != self.first["open_files"]:
            gc.collect()
            first["open_files"] = _fds()
            if isinstance(error, BaseException):                # a traceback may keep a file alive for now
                first["open_files"] = self.first["open_files"]
        looks = [(self.first, first)]
        if len(sys.modules) == self.modules:                    # importing a library may set up such state
            looks.append((self.second, second))
        for was, now in looks:
            for k in was:
                if was[k] != now[k]:
                    diff = [(j, was[k].get(j), now[k].get(j)) for j in set(was[k]) | set(now[k]) if was[k].get(j) != now[k].get(j)] if isinstance(was[k], dict) else (was[k], now[k])
                    self.found.append(f"{name} changed the {k} of the process: {str(diff)[:200]}")
        named = [p for a in (args, kwargs) for p in _paths(a)]
        if "extract" in name:                                   # by default into the working directory
            named.append(os.getcwd())
        writer = any(w in name.lower() for w in WRITERS)
        for what, path in log:
            if what == "read":
                self.read += 1
                continue
            if path.endswith(".pyc") or "__pycache__" in path or path.startswith(_OWN) or path.startswith(("/dev/", "/proc/")):
                continue
            if not writer:
                self.found.append(f"{name} wrote, made or removed {path} ({what})")
                continue
            self.writing += 1
            kept = os.path.lexists(path)
            ok = any(path == p or path.startswith(p + os.sep) or p.startswith(path + os.sep) or (not kept and os.path.dirname(path) == os.path.dirname(p)) for p in named)
            if not ok and not kept and path.startswith("/tmp/"):
                ok = True                                       # a temporary file that is gone
            if not ok:
                self.found.append(f"{name} wrote, made or removed {path} ({what}), which it was not asked for: {named[:4]}")


_OWN = tuple(str(p) for p in (matplotlib.get_cachedir(), matplotlib.get_configdir()))


def _paths(a):
    if isinstance(a, (str, os.PathLike)):
        s = os.fspath(a)
        yield os.path.abspath(s)
    elif isinstance(a, dict):
        for v in a.values():
            yield from _paths(v)
    elif isinstance(a, (list, tuple)):
        for v in a:
            yield from _paths(v)


class _Files:
    """Audit hook: files read, written, made and removed while a call runs."""
    log = None
    hooked = False

    def install(self):
        if self.hooked:
            return
        self.hooked = True

        def hook(event, args):
            log = self.log
            if log is None:
                return
            if event == "open":
                path, mode, flags = args
                if isinstance(path, int) or path is None:
                    return
                wr = any(c in (mode or "") for c in "wax+") or (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
                p = os.path.abspath(os.fsdecode(path))
                if not p.startswith("/proc/"):
                    log.append(("write" if wr else "read", p))
            elif event in ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "shutil.rmtree", "os.chmod"):
                for x in args:
                    if isinstance(x, (str, bytes, pathlib.Path)):
                        log.append((event, os.path.abspath(os.fsdecode(x))))
            elif event in ("subprocess.Popen", "os.system", "socket.connect", "os.fork"):
                log.append((event, str(args)[:100]))
        sys.addaudithook(hook)


_files = _Files()
_all = None


def bracket(rng, mon):
    global _all
    _all = _all or borrow.scenarios()
    prop, name, fn = _all[int(rng.integers(len(_all)))]
    seed = int(rng.integers(2 ** 31))

    def case(m):
        _files.install()
        obs = Observer()
        ended = borrow.run(prop, name, fn, seed, obs)
        m.event("calls", obs.calls)
        m.event("oracle_decisions", obs.calls)
        m.event("writing_calls", obs.writing)
        m.event("files_read", obs.read)
        m.event("ended_" + ended, 1) if ended else None
        m.describe(nontrivial=obs.calls > 0, workload=f"{prop}/{name}", seed=seed, calls=obs.calls)
        if obs.found:
            raise Violation(obs.found[0] + (f" (and {len(obs.found) - 1} more)" if len(obs.found) > 1 else ""))
        return obs.names
    names = borrow.isolated(mon, case)
    mon.event("functions", len(names - _names))
    _names.update(names)
    mon.event("scenarios_used", (prop, name) not in _used)
    _used.add((prop, name))


SCENARIOS = {"bracket": (bracket, 300, 8000)}
