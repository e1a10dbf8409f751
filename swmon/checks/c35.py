"""Lines found on the axes after plotting against the valid (or masked) values of the plain-array model, member by member."""
import matplotlib.pyplot as plt
import numpy as np

from swprocess.peakssuite import PeaksSuite
from .. import pk
from ..gens import choice
from .c30 import _reject

RULE = ("a case is a plot of a set of peaks or a suite (after rejections, with missing values) on own or provided axes, with masks and styles; non-trivial = "
        "some peaks are not valid, a mask is used, or there is more than one member")
REQUIRE = {"wide_spreads": 20, "large_suites": 20, "lines_compared": 800, "points_compared": 5000, "masks": 100, "provided_axes": 80, "several_axes": 100, "style_lists": 80, "refusals": 150,
           "empty_members": 10}
LABELS = {"frequency": ("Frequency (Hz)", "log"), "wavelength": ("Wavelength (m)", "log"), "velocity": ("Velocity (m/s)", "linear"),
          "slowness": ("Slowness (s/m)", "log"), "azimuth": ("Azimuth (deg)", "linear")}


def _members(rng, n=None):
    s, ms = pk.suite(rng, n=n, same_attrs=True)
    for p, m in zip(s, ms):
        if rng.random() < 0.5:
            _reject(rng, p, m)
        if rng.random() < 0.08:
            p.reject_limits_outside("frequency", (1e6, None))
            m.reject_limits("frequency", 1e6, None)
    return s, ms


def _types(rng, m, nax):
    options = ["frequency", "wavelength", "velocity", "slowness", "wavenumber"] + [a for a in m.data if a not in pk.BASE]
    xt = [choice(rng, ("frequency", "wavelength", choice(rng, options))) for _ in range(nax)]
    yt = [choice(rng, ("velocity", "velocity", choice(rng, options))) for _ in range(nax)]
    return xt, yt


def _given(rng, xt):
    return xt[0] if len(xt) == 1 and rng.random() < 0.6 else choice(rng, (list, tuple))(xt)


def _compare(mon, line, m, xt, yt, mask, what):
    x, y = line.get_xdata(), line.get_ydata()
    sel = m.valid if mask is None else mask
    wx, wy = m.raw(xt)[sel], m.raw(yt)[sel]
    mon.check(len(x) == len(wx), f"{what}: number of points", got=len(x), want=len(wx))
    mon.close(np.asarray(x, float), wx, f"{what}: {xt} on the horizontal axis", rtol=1e-12)
    mon.close(np.asarray(y, float), wy, f"{what}: {yt} on the vertical axis", rtol=1e-12)
    mon.event("lines_compared")
    mon.event("points_compared", len(wx))
    mon.event("empty_members", len(wx) == 0)


def _axes(mon, ax, xt, yt):
    for t, label, scale, which in ((xt, ax.get_xlabel(), ax.get_xscale(), "horizontal"), (yt, ax.get_ylabel(), ax.get_yscale(), "vertical")):
        want = LABELS.get(t, ("", "linear"))
        mon.check(label == want[0], f"label of the {which} axis for {t}", got=label, want=want[0])
        mon.check(scale == want[1], f"scale of the {which} axis for {t}", got=scale, want=want[1])


def _mask(rng, m):
    k = choice(rng, ("random", "random", "all", "none", "inverse"))
    shape = m.valid.shape
    return {"random": rng.random(shape) < 0.5, "all": np.ones(shape, bool), "none": np.zeros(shape, bool), "inverse": ~m.valid}[k]


def single(rng, mon):
    s, ms = _members(rng, n=1)
    p, m = s[0], ms[0]
    nax = choice(rng, (1, 1, 2, 3))
    xt, yt = _types(rng, m, nax)
    if rng.random() < 0.15 and nax == 1:
        xt, yt, kw = ["frequency"], ["velocity"], {}
    else:
        kw = dict(xtype=_given(rng, xt), ytype=_given(rng, yt))
    mask = _mask(rng, m) if rng.random() < 0.4 else None
    if mask is not None:
        kw["mask"] = mask.copy()
    style = choice(rng, (None, None, {}, dict(color="r", marker="s"), dict(label="mine"), dict(linestyle="-", markersize=4)))
    if style is not None:
        kw["plot_kwargs"] = style
    with mon.unchanged("the peaks or the arguments", p, kw):
        fig, ax = p.plot(**kw)
    axes = list(np.atleast_1d(np.array(ax, dtype=object)))
    mon.check(len(axes) == nax and list(fig.axes) == axes, "axes returned", got=len(axes), want=nax)
    for k, a in enumerate(axes):
        mon.check(len(a.lines) == 1, "number of lines", got=len(a.lines))
        _compare(mon, a.lines[0], m, xt[k], yt[k], mask, "peaks")
        _axes(mon, a, xt[k], yt[k])
        want = (style or {}).get("label", m.ident)
        mon.check(a.lines[0].get_label() == want, "label of the peaks", got=a.lines[0].get_label(), want=want)
        for key in ("color", "marker", "linestyle", "markersize"):
            if style and key in style:
                mon.check(getattr(a.lines[0], f"get_{key}")() == style[key], f"{key} of the peaks")
    mon.event("masks", mask is not None)
    mon.event("several_axes", nax > 1)
    mon.describe(nontrivial=mask is not None or not m.valid.all(), xt=xt, yt=yt, shape=m.valid.shape, first=m.data["velocity"], style=str(style))


def suite(rng, mon):
    s, ms = _members(rng, n=int(rng.integers(12, 60)) if rng.random() < 0.06 else None)
    n = len(ms)
    mon.event("large_suites", n > 11)
    nax = choice(rng, (1, 1, 2, 3))
    xt, yt = _types(rng, ms[0], nax)
    if rng.random() < 0.1 and nax == 1:
        xt, yt, kw = ["frequency"], ["velocity"], {}
    else:
        kw = dict(xtype=_given(rng, xt), ytype=_given(rng, yt))
    masks = [None] * n
    if rng.random() < 0.35:
        masks = [_mask(rng, m) for m in ms]
        if rng.random() < 0.2:
            masks[int(rng.integers(n))] = None
        kw["mask"] = choice(rng, (list, tuple))([None if q is None else q.copy() for q in masks])
        mon.event("masks")
    style, color, marker, label = {}, None, None, "own"
    if rng.random() < 0.5:
        color = [choice(rng, "rgbkcmy") for _ in range(n)] if rng.random() < 0.6 else [choice(rng, "rgb")] * n
        style["color"] = list(color) if len(set(color)) > 1 or rng.random() < 0.5 else color[0]
        if isinstance(style["color"], list) and rng.random() < 0.3:
            style["color"] = tuple(style["color"])
    if rng.random() < 0.4:
        marker = [choice(rng, "os^vD") for _ in range(n)]
        style["marker"] = marker
    if rng.random() < 0.4:
        label = choice(rng, ("one", "list"))
        style["label"] = "all peaks" if label == "one" else [f"group {int(rng.integers(3))}" for _ in range(n)]
    if style or rng.random() < 0.3:
        kw["plot_kwargs"] = style
    mon.event("style_lists", any(isinstance(v, (list, tuple)) for v in style.values()))
    before = 0
    if rng.random() < 0.4:
        fig, axes = plt.subplots(ncols=nax, squeeze=False)
        axes = list(axes[0])
        before = int(rng.integers(0, 2))
        for a in axes:
            if before:
                a.plot([1, 2], [100, 200], label="earlier")
        arg = axes[0] if nax == 1 and rng.random() < 0.5 else choice(rng, (list, tuple, lambda v: np.array(v, dtype=object)))(axes)
        with mon.unchanged("the suite or the arguments", s, kw):
            out = s.plot(ax=arg, **kw)
        mon.check(out is None, "something was returned although axes were provided")
        mon.event("provided_axes")
        mon.check(len(fig.axes) == nax and len(plt.get_fignums()) == 1, "axes or figures were created although axes were provided")
    else:
        with mon.unchanged("the suite or the arguments", s, kw):
            fig, ax = s.plot(**kw)
        axes = list(np.atleast_1d(np.array(ax, dtype=object)))
        mon.check(len(axes) == nax and list(fig.axes) == axes, "axes returned", got=len(axes), want=nax)
    for k, a in enumerate(axes):
        mon.check(len(a.lines) == n + before, "number of lines", got=len(a.lines), want=n + before)
        for i, (line, m) in enumerate(zip(a.lines[before:], ms)):
            _compare(mon, line, m, xt[k], yt[k], masks[i], f"member {i}")
            if color:
                mon.check(line.get_color() == color[i], f"colour of member {i}", got=line.get_color(), want=color[i])
            if marker:
                mon.check(line.get_marker() == marker[i], f"marker of member {i}", got=line.get_marker(), want=marker[i])
        _axes(mon, a, xt[k], yt[k])
        shown = a.get_legend_handles_labels()[1][before:]
        if label == "own":
            want = [m.ident for m in ms]
        elif label == "one":
            want = ["all peaks"]
        else:
            want = list(dict.fromkeys(style["label"]))
        mon.check(shown == want, "labels of the members", got=shown, want=want)
    mon.event("several_axes", nax > 1)
    mon.describe(nontrivial=n > 1 or any(not m.valid.all() for m in ms), n=n, xt=xt, yt=yt, style=str(style), masks=masks[0] is not None,
                 first=ms[0].data["velocity"], before=before)


def refusals(rng, mon):
    s, ms = _members(rng, n=int(rng.integers(1, 5)))
    p, n = s[0], len(ms)
    kind = choice(rng, ("types", "types", "axes", "mask", "unknown", "notype", "lacking"))
    with mon.unchanged("the suite", s):
        if kind == "types":
            x, y = ["frequency"] * int(rng.integers(1, 4)), ["velocity"] * int(rng.integers(1, 4))
            if len(x) == len(y):
                x.append("wavelength")
            if len(y) == 1 and rng.random() < 0.5:
                y = "velocity"
            for o in (p, s):
                mon.raises(IndexError, lambda: o.plot(xtype=x, ytype=y), f"{len(x)} and {len(y)} quantities")
        elif kind == "axes":
            nt = int(rng.integers(1, 4))
            k = choice(rng, [i for i in (1, 2, 3, 4) if i != nt])
            fig, ax = plt.subplots(ncols=k)
            mon.raises(IndexError, lambda: s.plot(xtype=["frequency"] * nt, ytype=["velocity"] * nt, ax=ax), f"{nt} quantities on {k} axes")
            mon.check(all(len(a.lines) == 0 for a in fig.axes), "something was drawn before refusing")
        elif kind == "mask":
            masks = [np.ones(m.valid.shape, bool) for m in ms]
            masks = masks[:-1] if rng.random() < 0.5 and n > 1 else masks + [masks[0]]
            mon.raises(IndexError, lambda: s.plot(mask=masks), f"{len(masks)} masks for {n} members")
        elif kind == "unknown":
            bad = choice(rng, ("period", "Velocity", "freq", "x", "phase_velocity", ""))
            kw = dict(xtype=bad) if rng.random() < 0.5 else dict(ytype=bad)
            for o in (p, s):
                mon.raises(AttributeError, lambda: o.plot(**kw), f"quantity {bad!r}")
        elif kind == "lacking":
            bad = [a for a in pk.EXTRAS if a not in ms[0].data]
            if bad:
                b = choice(rng, bad)
                for o in (p, s):
                    mon.raises(AttributeError, lambda: o.plot(ytype=b), f"quantity {b} that the peaks lack")
        else:
            bad = choice(rng, (3, None, 1.5, {"frequency"}, p))
            for o in (p, s):
                mon.raises(TypeError, lambda: o.plot(xtype=bad), f"{type(bad).__name__} as quantity")
    mon.event("refusals")
    mon.describe(nontrivial=True, kind=kind, n=n, first=ms[0].data["velocity"])


def statistics(rng, mon):
    """The statistics plot: one point per location with its deviation on both sides."""
    n = int(rng.integers(1, 30))
    xx, mean, std = np.sort(rng.uniform(1, 60, n)), rng.uniform(80, 900, n), rng.uniform(0.5, 50, n)
    if rng.random() < 0.5:                                     # slownesses, and spreads of the size of the mean and beyond
        scale = 10.0 ** rng.integers(-4, 3)
        mean, std = mean * scale * rng.choice((1, 1, -1), n), std * scale * rng.choice((1, 0, 30, 100), n)
    mon.event("wide_spreads", np.any(std > np.abs(mean)))
    kw = choice(rng, ({}, dict(errorbar_kwargs=None), dict(errorbar_kwargs={}), dict(errorbar_kwargs=dict(color="r", label="mean")), dict(errorbar_kwargs=dict(capsize=0))))
    fig, ax = plt.subplots()
    with mon.unchanged("the statistics or the style", xx, mean, std, kw):
        choice(rng, (PeaksSuite, pk.suite(rng)[0])).plot_statistics(ax, xx, mean, std, **kw)
    mon.check(len(ax.containers) == 1, "one set of error bars", got=len(ax.containers))
    line, _, bars = ax.containers[0]
    mon.equal(np.asarray(line.get_xdata(), float), xx, "locations of the statistics")
    mon.equal(np.asarray(line.get_ydata(), float), mean, "means drawn")
    mon.check(len(bars) == 1, "error bars in one direction", got=len(bars))
    segs = np.array([np.asarray(s, float) for s in bars[0].get_segments()])
    mon.close(segs[:, 0, 0], xx, "locations of the error bars", rtol=1e-12)
    mon.close(np.sort(segs[:, :, 1], axis=1), np.column_stack([mean - std, mean + std]), "ends of the error bars", rtol=1e-12, atol=1e-12 * np.max(np.abs(mean) + std))
    mon.event("statistics")
    mon.describe(nontrivial=True, n=n, kw=str(kw))


SCENARIOS = {"statistics": (statistics, 40, 500), "single": (single, 200, 4000), "suite": (suite, 250, 5000), "refusals": (refusals, 150, 2500)}
