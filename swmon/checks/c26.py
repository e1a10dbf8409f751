"""Rejection against a mask model over histories of limit and box rejections on peaks and suites, limits equal to peak values included."""
import numpy as np

from .. import pk
from ..gens import choice

RULE = ("a case is a history of rejections (one- and two-sided limits, boxes in every pair of attributes) on a set of peaks or on a suite, "
        "with missing values and one or several maxima per frequency; non-trivial = some peaks were rejected and some survive")
REQUIRE = {"rejections": 1000, "peaks_compared": 5000, "limits_equal_to_a_value": 100, "one_sided": 100, "boxes": 200, "suites": 60,
           "missing_velocities": 50, "several_maxima": 60}


def _attrs(m):
    return list(m.data) + list(pk.DERIVED)


def _limits(rng, mon, m, attr):
    lo, hi = sorted((pk.limit_for(rng, m, attr), pk.limit_for(rng, m, attr)))
    how = choice(rng, ("both", "both", "lower", "upper", "none")) if rng.random() < 0.9 else "same"
    if how == "same":
        hi = lo
    if how == "lower":
        hi = None
    elif how == "upper":
        lo = None
    elif how == "none":
        lo = hi = None
    vals = m.raw(attr)
    mon.event("one_sided", how in ("lower", "upper"))
    mon.event("limits_equal_to_a_value", any(l is not None and np.any(vals == l) for l in (lo, hi)) and attr not in pk.DERIVED)
    return lo, hi


def _step(rng, mon, ms):
    """One rejection as (method, arguments), applied to the models."""
    m = ms[int(rng.integers(len(ms)))]
    common = [a for a in _attrs(m) if all(a in _attrs(o) for o in ms)]
    if rng.random() < 0.5:
        attr = choice(rng, common)
        lim = _limits(rng, mon, m, attr)
        for o in ms:
            o.reject_limits(attr, *lim)
        lim = choice(rng, (lim, list(lim)))
        return "reject_limits_outside", (attr, lim)
    xt, yt = choice(rng, common), choice(rng, common)
    xl = sorted((pk.limit_for(rng, m, xt), pk.limit_for(rng, m, xt)))
    yl = sorted((pk.limit_for(rng, m, yt), pk.limit_for(rng, m, yt)))
    if rng.random() < 0.5 and m.valid.any():                  # a box around one particular valid peak
        k = tuple(np.argwhere(m.valid)[int(rng.integers(m.valid.sum()))])
        for lims, t in ((xl, xt), (yl, yt)):
            c = float(m.raw(t)[k])
            if np.isfinite(c):
                lims[:] = sorted((c - (abs(c) + 1e-12) * 10 ** rng.uniform(-6, 0), c + (abs(c) + 1e-12) * 10 ** rng.uniform(-6, 0)))
    elif rng.random() < 0.2:                                  # everything in one direction
        (xl if rng.random() < 0.5 else yl)[:] = [-1e12, 1e12]
    for o in ms:
        o.reject_box(xt, xl, yt, yl)
    mon.event("boxes")
    for lims in (xl, yl):                                     # the corners of a box may be given in any order
        if rng.random() < 0.2:
            lims.reverse()
            mon.event("boxes_from_the_far_corner")
    return "reject_box_inside", (xt, tuple(xl), yt, tuple(yl))


def _unsafe(ms, args):
    """A limit within rounding of a derived value would be decided by rounding."""
    pairs = [(args[0], args[1])] if len(args) == 2 else [(args[0], args[1]), (args[2], args[3])]
    for attr, lims in pairs:
        if attr in pk.DERIVED:
            for l in lims:
                for m in ms:
                    v = m.raw(attr)
                    if l is not None and np.any(np.abs(v - l) <= 1e-11 * np.abs(v)):
                        return True
    return False


def _history(rng, mon, targets, ms, obj):
    total = sum(int(m.valid.sum()) for m in ms)
    before = [m.copy() for m in ms]
    log = []
    for _ in range(int(rng.integers(1, 9))):
        saved = [m.valid.copy() for m in ms]
        name, args = _step(rng, mon, ms)
        if _unsafe(ms, args):
            for m, v in zip(ms, saved):
                m.valid = v
            continue
        with mon.unchanged("an argument of a rejection", args):
            getattr(obj, name)(*args)
        mon.event("rejections")
        log.append((name.split("_")[1], args))
        for p, m in zip(targets, ms):
            pk.check_state(mon, p, m, f"after {name}{args}")
    left = sum(int(m.valid.sum()) for m in ms)
    mon.event("missing_velocities", any(np.isnan(m.data["velocity"]).any() for m in before))
    mon.event("several_maxima", any(m.valid.ndim == 2 and m.valid.shape[0] > 1 for m in before))
    return log, 0 < left < total


def peaks(rng, mon):
    d = pk.data(rng)
    if "noise" in d and rng.random() < 0.3:
        d["noise"].flat[int(rng.integers(d["noise"].size))] = choice(rng, (np.nan, np.inf, -np.inf))
    p, m = pk.make(d, "p")
    pk.check_state(mon, p, m, "as created")
    log, mixed = _history(rng, mon, [p], [m], p)
    mon.describe(nontrivial=mixed, shape=m.valid.shape, attrs=list(d), frequency=d["frequency"], log=log)


def suite(rng, mon):
    s, ms = pk.suite(rng)
    log, mixed = _history(rng, mon, list(s.peaks), ms, s)
    mon.check(len(s) == len(ms), "a rejection changed the number of members")
    mon.event("suites")
    mon.describe(nontrivial=mixed, members=[m.ident for m in ms], sizes=[m.valid.shape for m in ms], first=ms[0].data["frequency"], log=log)


SCENARIOS = {"peaks": (peaks, 500, 15000), "suite": (suite, 150, 5000)}
