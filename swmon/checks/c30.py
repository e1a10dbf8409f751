"""Simplified and gridded forms against per-column selection and point-by-point interpolation of the plain-array model."""
import numpy as np

from .. import pk
from ..core import Skip
from ..gens import choice

RULE = ("a case is a set of peaks or a suite (one or several maxima, with or without power, unsorted, missing, rejected) simplified for every attribute and "
        "gridded over random pairs of attributes; non-trivial = a frequency lost its peaks, has several, or locations lie outside a member's range")
REQUIRE = {"peaks_simplified": 1500, "by_power": 120, "first_valid": 100, "grids": 200, "outside_range": 1000, "at_a_peak": 200, "empty_members": 20,
           "one_point_members": 20, "unsorted_members": 60, "columns_without_peaks": 100, "negative_power": 20}


def _reject(rng, p, m, strong=False):
    for _ in range(int(rng.integers(0, 3))):
        attr = choice(rng, list(m.data))
        lo, hi = sorted((pk.limit_for(rng, m, attr), pk.limit_for(rng, m, attr)))
        p.reject_limits_outside(attr, (lo, hi))
        m.reject_limits(attr, lo, hi)
    if m.valid.ndim == 2 and rng.random() < 0.6 and m.valid.any():      # the strongest peak of a frequency, or a whole frequency
        c = tuple(np.argwhere(m.valid)[int(rng.integers(m.valid.sum()))])[1]
        col = np.nonzero(m.valid[:, c])[0]
        if "power" in m.data and rng.random() < 0.6:
            r = col[np.argmax(m.data["power"][col, c])]
            v = m.data["power"][r, c]
            box = ("power", (v * (1 - 1e-9), v * (1 + 1e-9)), "velocity", (0, 1e9))
        else:
            f = m.data["frequency"][col[0], c]
            box = ("frequency", (f * (1 - 1e-9), f * (1 + 1e-9)), "velocity", (0, 1e9))
        p.reject_box_inside(*box)
        m.reject_box(*box)


def _simplify(mon, p, m):
    for attr in list(m.data) + list(pk.DERIVED):
        got = np.array(p.simplify_mpeaks(attr), float)
        want = pk.simplified(m, attr)
        mon.close(got, want, f"simplified {attr}", rtol=1e-12)
        mon.event("peaks_simplified")
    if m.valid.ndim == 2:
        mon.event("negative_power", "power" in m.data and bool(np.any(m.get("power") < 0)))
        mon.event("by_power" if "power" in m.data else "first_valid")
        mon.event("columns_without_peaks", int((~m.valid.any(axis=0)).sum()))


def simplify(rng, mon):
    d = pk.data(rng, shape=choice(rng, ("1d", "2d", "2d", "2d")), decibels=0.3)
    p, m = pk.make(d, "p")
    _reject(rng, p, m)
    with mon.unchanged("the peaks", p):
        _simplify(mon, p, m)
        _simplify(mon, p, m)
    mon.describe(nontrivial=m.valid.ndim == 2 and (not m.valid.all() or m.valid.shape[0] > 1), shape=m.valid.shape, attrs=list(d), f=d["frequency"],
                 valid=int(m.valid.sum()))


def grid(rng, mon):
    s, ms = pk.suite(rng, same_attrs=rng.random() < 0.7, ints=False, decibels=0.2)
    for p, m in zip(s, ms):
        _reject(rng, p, m)
        if rng.random() < 0.15 and m.valid.any():              # few or no peaks left
            keep = float(choice(rng, m.get("frequency"))) if rng.random() < 0.6 else 1e6
            p.reject_limits_outside("frequency", (keep, keep))
            m.reject_limits("frequency", keep, keep)
    xt = choice(rng, ("frequency", "frequency", "wavelength", "wavelength", "velocity", "slowness", "wavenumber"))
    common = [a for a in ms[0].data if all(a in m.data for m in ms)] + list(pk.DERIVED)
    yt = choice(rng, common)
    if not pk.well_spaced(ms, xt):
        raise Skip("two peaks at one location")
    xx = pk.grid(rng, ms, xt)
    arg = xx if rng.random() < 0.5 else choice(rng, (list, tuple))(xx.tolist())
    if rng.random() < 0.15:                                    # whole numbers
        xx = np.arange(1, 1 + int(rng.integers(1, 60)))
        arg = xx.tolist() if rng.random() < 0.5 else xx
        if xt in pk.DERIVED and any(np.any(np.abs(pk.simplified(m, xt) - k) < 1e-9 * k) for m in ms for k in xx):
            raise Skip("location within rounding of a peak")
    with mon.unchanged("the suite or the locations", s, arg):
        gx, array = s.to_array(xt, yt, arg)
    mon.equal(gx, xx, "locations returned")
    mon.check(np.shape(array) == (len(ms), len(xx)), "shape of the array form", got=np.shape(array))
    for k, m in enumerate(ms):
        want = pk.gridded(m, xt, yt, xx)
        mon.close(np.asarray(array)[k], want, f"row of member {k} ({yt} over {xt})", rtol=1e-8)
        x = pk.simplified(m, xt)
        mon.event("outside_range", int(np.isnan(want).sum()))
        mon.event("at_a_peak", int(np.isin(xx, x).sum()))
        mon.event("empty_members", len(x) == 0)
        mon.event("one_point_members", len(x) == 1)
        mon.event("unsorted_members", len(x) > 1 and bool(np.any(np.diff(x) < 0)))
    mon.event("grids")
    mon.describe(nontrivial=True, members=len(ms), xt=xt, yt=yt, xx=xx, first=ms[0].data["velocity"])


SCENARIOS = {"simplify": (simplify, 300, 8000), "grid": (grid, 400, 12000)}
