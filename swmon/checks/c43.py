"""Transcripts (name, result, object state afterwards, error) of every outermost call into the package: the same workload is run, then others, then the same again in one process, and the transcripts are compared; and again against a run in a fresh process in which calls with nearly equal arguments are slipped in before the real ones."""
import re

import numpy as np
from matplotlib.axes import Axes
from matplotlib.figure import Figure

from .. import borrow, shadow
from ..core import Violation

RULE = "a case is one scenario of another check, run on equal inputs before and after one to three other scenarios in the same process, or in one process as it is and in another with neighbouring calls (the same arguments copied, one value in them changed) before its own; non-trivial = calls were compared"
REQUIRE = {"calls_compared": 10000, "functions": 150, "scenarios_used": 80, "histories": 300, "neighbouring_calls": 2000, "drawings": 100}
ASSUMPTIONS = ["floating-point results are compared to 1e-9 of their largest magnitude, so that the alignment of memory does not matter"]
OMIT = {"C41", ("C38", "fill"), ("C38", "draws"), ("C38", "statistics")}                # registrations are meant to last, and random draws to differ
_used, _names = set(), set()
_scratch = re.compile(r"swmon-\w+")


def plain(x, depth=0):
    """Nested tuples of arrays, numbers and text that stand for the value."""
    if depth > 8:
        return "deep"
    if isinstance(x, np.ndarray):
        return np.array(x) if x.dtype != object else plain(x.tolist(), depth + 1)
    if isinstance(x, (bool, int, float, complex, type(None), np.generic)):
        return x
    if isinstance(x, (str, bytes)):
        return _scratch.sub("scratch", x if isinstance(x, str) else x.decode("latin1"))
    if isinstance(x, dict):
        return ("dict",) + tuple((plain(k, depth + 1), plain(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(plain(v, depth + 1) for v in x)
    if isinstance(x, Figure):
        return ("Figure",) + tuple(plain(a, depth + 1) for a in x.axes)
    if isinstance(x, Axes):
        lines = tuple(("Line", np.array(q.get_xdata(), float), np.array(q.get_ydata(), float), str(q.get_color()), str(q.get_marker()), q.get_linestyle(),
                       float(q.get_linewidth()), float(q.get_markersize()), q.get_label() if not str(q.get_label()).startswith("_") else "") for q in x.lines)
        return ("Axes", lines, tuple(t.get_text() for t in x.texts), x.get_xlabel(), x.get_ylabel(), x.get_xscale(), x.get_yscale(),
                np.array(x.get_xlim()), np.array(x.get_ylim()), len(x.collections), len(x.patches))
    take = None
    if hasattr(x, "sensors") and hasattr(x, "source"):
        take = ("sensors", "source")
    elif hasattr(x, "frequencies") and hasattr(x, "power"):
        take = ("n", "frequencies", "velocities", "power", "snr", "snr_frequencies")
    elif hasattr(x, "nstacks") and hasattr(x, "amplitude"):
        take = ("amplitude", "dt", "delay", "nstacks", "df", "multiple", "x", "y", "z")
    elif hasattr(x, "peaks") and hasattr(x, "ids"):
        take = ("ids", "peaks")
    elif hasattr(x, "attrs") and hasattr(x, "identifier"):
        return ("Peaks", x.identifier) + tuple((a, plain(getattr(x, a, None), depth + 1)) for a in x.attrs)
    elif hasattr(x, "x") and hasattr(x, "y") and hasattr(x, "z"):
        take = ("x", "y", "z")
    if take:
        return (type(x).__name__,) + tuple(plain(getattr(x, a, None), depth + 1) for a in take)
    return type(x).__name__


def differ(a, b, at=""):
    """None, or where two plain values differ."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return f"{at}: {type(a).__name__} {np.shape(a)} {getattr(a, 'dtype', '')} and {type(b).__name__} {np.shape(b)} {getattr(b, 'dtype', '')}"
        if a.tobytes() == b.tobytes():
            return None
        if a.dtype.kind not in "fc":
            return None if np.array_equal(a, b) else f"{at}: {a.ravel()[:5]} and {b.ravel()[:5]}"
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return f"{at}: undefined values at other places"
        top = max((np.max(np.abs(a[fa])) for _ in (1,) if fa.any()), default=0.0)
        if fa.any() and np.max(np.abs(a[fa] - b[fa])) > 1e-9 * top:
            return f"{at}: differs by {np.max(np.abs(a[fa] - b[fa])):.3g} of {top:.3g}"
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{at}: {len(a) - 1} and {len(b) - 1} elements"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{at}.{i}")
            if d:
                return d
        return None
    if type(a) is not type(b):
        return f"{at}: {type(a).__name__} and {type(b).__name__}"
    if isinstance(a, (float, complex, np.floating, np.complexfloating)):
        return None if a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) else f"{at}: {a!r} and {b!r}"
    return None if a == b else f"{at}: {str(a)[:60]!r} and {str(b)[:60]!r}"


class Transcript:
    """Keeps what every call gave; too long a run is cut at the same call both times."""
    limit = 400

    def __init__(self, keep=True):
        self.lines, self.keep = [], keep

    def before(self, name, args, kwargs, fn):
        pass

    def after(self, name, args, kwargs, result, error):
        if not self.keep or len(self.lines) >= self.limit or "__repr__" in name:
            return
        try:
            state = plain(args[0]) if args and not isinstance(args[0], (str, bytes, int, float, list, tuple, dict, np.ndarray, type)) else None
            drawn = [plain(v) for v in (*args[1:], *kwargs.values()) if isinstance(v, (Axes, Figure))]
            if drawn:
                state = (state, *drawn)
            self.lines.append((name, type(error).__name__ if error is not None else None, plain(result), state))
        except Exception as e:                                  # an object half made
            self.lines.append((name, type(e).__name__, None, None))


class Shadowed(Transcript):
    """Before some of the calls, one with nearly the same arguments is made, of which nothing is kept."""

    def __init__(self, rng, share):
        super().__init__()
        self.rng, self.share, self.made = rng, share, 0

    def before(self, name, args, kwargs, fn):
        if self.rng.random() < self.share and "__repr__" not in name:
            self.made += shadow.call(self.rng, name, args, kwargs, fn)


def compare(prop, name, first, second, e1, e2, how):
    for i, (a, b) in enumerate(zip(first, second)):
        if a[:2] != b[:2]:
            raise Violation(f"{prop}/{name}, call {i}: {a[0]} ended with {a[1]}, but {b[0]} with {b[1]} {how}")
        d = differ(a[2], b[2], "result") or differ(a[3], b[3], "object")
        if d:
            raise Violation(f"{prop}/{name}, call {i}: {a[0]} gave another result {how}: {d}")
    if len(first) != len(second) or e1 != e2:
        raise Violation(f"{prop}/{name}: {len(first)} calls ({e1}), {len(second)} ({e2}) {how}")


_all = None


DRAWS = ("C31", "C33", "C35", "C39")


def drawings(rng, mon):
    """Figures, with unrelated figures in other styles drawn in between."""
    neighbours(rng, mon, only=DRAWS)
    mon.event("drawings")


def neighbours(rng, mon, only=None):
    """The workload alone in a fresh process, and in another one with unrelated calls on nearly equal arguments in between."""
    global _all
    _all = _all or borrow.scenarios(skip=OMIT)
    pool = [q for q in _all if only is None or q[0] in only]
    prop, name, fn = pool[int(rng.integers(len(pool)))]
    seed, shares = int(rng.integers(2 ** 31)), float(rng.choice((0.3, 1.0)))
    sub = int(rng.integers(2 ** 31))

    def case(m, watch):
        e = borrow.run(prop, name, fn, seed, watch)
        m.describe(nontrivial=bool(watch.lines), workload=f"{prop}/{name}", seed=seed, calls=len(watch.lines), neighbours=getattr(watch, "made", 0))
        m.event("neighbouring_calls", getattr(watch, "made", 0))
        return watch.lines, e
    first, e1 = borrow.isolated(mon, lambda m: case(m, Transcript()))
    second, e2 = borrow.isolated(mon, lambda m: case(m, Shadowed(np.random.default_rng(sub), shares)))
    mon.event("calls_compared", len(first))
    mon.event("oracle_decisions", len(first) + 1)
    mon.event("histories")
    compare(prop, name, first, second, e1, e2, "when calls with other values came before it")


def again(rng, mon):
    global _all
    _all = _all or borrow.scenarios(skip=OMIT)
    draw = lambda: _all[int(rng.integers(len(_all)))]
    prop, name, fn = draw()
    seed = int(rng.integers(2 ** 31))
    # half of the time more of the same kind, which shares whatever the calls might keep
    between = [((prop, name, fn) if rng.random() < 0.5 else draw(), int(rng.integers(2 ** 31))) for _ in range(int(rng.integers(1, 4)))]

    def case(m):
        first, second = Transcript(), Transcript()
        e1 = borrow.run(prop, name, fn, seed, first)
        for (p, n, f), s in between:
            borrow.run(p, n, f, s, Transcript(keep=False))
        e2 = borrow.run(prop, name, fn, seed, second)
        m.event("histories")
        m.event("calls_compared", len(first.lines))
        m.event("oracle_decisions", len(first.lines) + 1)
        m.describe(nontrivial=bool(first.lines), workload=f"{prop}/{name}", seed=seed, calls=len(first.lines), between=[f"{p}/{n}" for (p, n, _), _ in between])
        compare(prop, name, first.lines, second.lines, e1, e2, "when repeated later")
        return {line[0] for line in first.lines}
    names = borrow.isolated(mon, case)
    mon.event("functions", len(names - _names))
    _names.update(names)
    mon.event("scenarios_used", (prop, name) not in _used)
    _used.add((prop, name))


SCENARIOS = {"again": (again, 120, 3000), "neighbours": (neighbours, 120, 3000), "drawings": (drawings, 40, 800)}
