"""Derived quantities against the plain-array model after every rejection; resolution-limit curves converted back to the limit they stand for."""
import warnings

import matplotlib.pyplot as plt
import numpy as np

from swprocess.peakssuite import PeaksSuite
from .. import pk
from ..gens import choice
from .c30 import _reject

RULE = ("a case is a set of peaks followed through rejections, or resolution limits computed or drawn for one pair of axes; non-trivial = some peaks were "
        "rejected, or limits in a supported pair, or a refused pair")
REQUIRE = {"derived_compared": 3000, "curves": 400, "curves_drawn": 150, "refused_pairs": 150, "refused_drawings": 40}
TYPES = ("frequency", "wavelength", "velocity", "slowness", "wavenumber", "azimuth")
SUPPORTED = [("frequency", "velocity"), ("frequency", "wavenumber"), ("frequency", "slowness"), ("wavelength", "velocity"), ("wavelength", "slowness")]


def derived(rng, mon):
    d = pk.data(rng)
    if rng.random() < 0.3:                                     # far from ordinary magnitudes
        d["velocity"] *= choice(rng, (1e-3, 1e3))
        d["frequency"] *= choice(rng, (1e-2, 1e2))
    p, m = pk.make(d, "p")
    total = int(m.valid.sum())
    for turn in range(int(rng.integers(1, 4))):
        f, v = np.array(p.frequency), np.array(p.velocity)
        with mon.unchanged("the peaks", p):
            got = dict(slowness=p.slowness, wavelength=p.wavelength, wavenumber=p.wavenumber)
        for a, want in (("slowness", 1 / v), ("wavelength", v / f), ("wavenumber", 2 * np.pi * f / v)):
            mon.check(np.shape(got[a]) == np.shape(want), f"number of values of {a}", got=np.shape(got[a]), want=np.shape(want))
            mon.check(bool(np.all(np.abs(got[a] - want) <= 1e-12 * np.abs(want))), f"{a} does not follow from frequency and velocity", got=got[a], want=want)
            mon.close(got[a], m.get(a), f"{a} of the valid peaks", rtol=1e-12)
        mon.event("derived_compared", len(v) * 3)
        ext = list(p.extended_attrs)
        mon.check(sorted(ext) == sorted(list(m.data) + list(pk.DERIVED)), "available attributes", got=ext)
        _reject(rng, p, m)
    mon.describe(nontrivial=int(m.valid.sum()) < total, shape=m.valid.shape, f=d["frequency"], v=d["velocity"], left=int(m.valid.sum()))


def _to(attr, xt, x, yt, y):
    """The wavelength or wavenumber at points of a pair of axes."""
    q = {xt: x, yt: y}
    if "wavelength" in q:
        lam = q["wavelength"]
    elif "wavenumber" in q:
        lam = 2 * np.pi / q["wavenumber"]
    else:
        v = q["velocity"] if "velocity" in q else 1 / q["slowness"]
        lam = v / q["frequency"]
    return lam if attr == "wavelength" else 2 * np.pi / lam


def _curve(mon, attr, limit, xt, x, yt, y, what):
    x, y = np.asarray(x, float), np.asarray(y, float)
    mon.check(x.shape == y.shape and x.ndim == 1 and len(x) > 1, f"{what}: points of the curve", got=(x.shape, y.shape))
    got = _to(attr, xt, x, yt, y)
    mon.check(bool(np.all(np.abs(got - limit) <= 1e-9 * abs(limit))), f"{what}: {attr} is not constant at {limit}", got=got)
    mon.event("curves")


def _case(rng):
    attr = choice(rng, ("wavelength", "wavenumber"))
    limits = [float(v) for v in 10 ** rng.uniform(-2, 3, 2)]
    if rng.random() < 0.7:
        limits.sort()
    if rng.random() < 0.2:
        limits = [int(np.ceil(v)) for v in limits]
    return attr, choice(rng, (list, tuple))(limits)


def calc(rng, mon):
    attr, limits = _case(rng)
    n = int(rng.integers(2, 60))
    xs, ys = np.sort(10 ** rng.uniform(-1, 3, n)), np.sort(10 ** rng.uniform(-3, 3, n))
    if rng.random() < 0.2:
        xs = xs[::-1].copy()
    xt, yt = choice(rng, SUPPORTED)
    with mon.unchanged("the arguments", xs, ys, limits):
        out = PeaksSuite.calc_resolution_limits(xt, attr, yt, limits, xs, ys)
    mon.check(len(out) == 2, "number of curves", got=len(out))
    for (x, y), limit in zip(out, limits):
        _curve(mon, attr, limit, xt, x, yt, y, f"{attr} in {xt} and {yt}")
        if xt == "frequency":
            mon.equal(x, xs, "frequencies of the curve")
        else:
            mon.equal(y, ys, f"{yt} of the curve")
    mon.describe(nontrivial=True, attr=attr, limits=limits, xt=xt, yt=yt, xs=xs)


def refused(rng, mon):
    attr, limits = _case(rng)
    xs = np.linspace(1, 10, 5)
    while True:
        xt, yt = choice(rng, TYPES), choice(rng, TYPES)
        if rng.random() < 0.4:
            attr = choice(rng, ("velocity", "frequency", "slowness", "azimuth", "array"))
        if (xt, yt) not in SUPPORTED or attr not in ("wavelength", "wavenumber"):
            break
    mon.raises(NotImplementedError, lambda: PeaksSuite.calc_resolution_limits(xt, attr, yt, limits, xs, xs), f"{attr} in {xt} and {yt}")
    mon.event("refused_pairs")
    if rng.random() < 0.4:
        fig, ax = plt.subplots()
        ax.plot([1, 10], [1, 10])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            PeaksSuite.plot_resolution_limits(ax, xt, yt, attr, limits)
        mon.check(len(ax.lines) == 1 and len(ax.collections) == 0, "something was drawn for an unsupported pair")
        mon.check(any("resolution" in str(i.message).lower() for i in w), "no warning for an unsupported pair")
        mon.event("refused_drawings")
    mon.describe(nontrivial=True, attr=attr, limits=limits, xt=xt, yt=yt)


def draw(rng, mon):
    attr, limits = _case(rng)
    xt, yt = choice(rng, SUPPORTED)
    fig, ax = plt.subplots()
    n0 = 0
    if rng.random() < 0.5:
        ax.plot(10 ** rng.uniform(0, 2, 5), 10 ** rng.uniform(0, 2, 5), "o")
        n0 = 1
    ax.set_xscale(choice(rng, ("log", "linear")))
    ax.set_yscale(choice(rng, ("log", "linear")))
    xlim, ylim = sorted(10 ** rng.uniform(-1, 2.5, 2)), sorted(10 ** rng.uniform(-3, 3, 2))
    ax.set_xlim(xlim)
    ax.set_ylim(ylim)
    kw = choice(rng, (None, None, {}, dict(color="r"), dict(label="res", linestyle=":")))
    with mon.unchanged("the arguments", limits, kw):
        PeaksSuite.plot_resolution_limits(ax, xt, yt, attr, limits, **({} if kw is None and rng.random() < 0.5 else dict(plot_kwargs=kw)))
    lines = ax.lines[n0:]
    mon.check(len(lines) == 2, "number of curves drawn", got=len(lines))
    for line, limit in zip(lines, limits):
        x, y = line.get_data()
        _curve(mon, attr, limit, xt, x, yt, y, f"drawn {attr} in {xt} and {yt}")
        along, lim = (np.asarray(x), xlim) if xt == "frequency" else (np.asarray(y), ylim)
        mon.close([along.min(), along.max()], list(lim), "the curve spans the axis", rtol=1e-9)
        mon.event("curves_drawn")
    if kw and "color" in kw:
        mon.check(all(ln.get_color() == "r" for ln in lines), "style of the curves")
    shown = [ln.get_label() for ln in lines if not ln.get_label().startswith("_")]
    mon.check(shown == [kw["label"] if kw and "label" in kw else "limit"], "label of the curves", got=shown)
    mon.describe(nontrivial=True, attr=attr, limits=limits, xt=xt, yt=yt, xlim=xlim, ylim=ylim)


SCENARIOS = {"derived": (derived, 300, 10000), "calc": (calc, 200, 6000), "refused": (refused, 200, 3000), "draw": (draw, 120, 2500)}
