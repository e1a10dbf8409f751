"""Lines, texts and filled contours read back from the matplotlib axes, against positions, detrended records and images computed apart; fingerprints of array and image around every plot."""
import re

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.contour import ContourSet

from swprocess import Array1D, Masw, Sensor1C
from .. import gens, pipe, refs, xform
from ..core import Skip
from ..gens import choice

RULE = "a case is one or two plots of an array (after trimming, padding, any geometry) or of a dispersion image; non-trivial = options other than the defaults, or provided axes"
REQUIRE = {"waterfalls": 120, "flat_traces": 8, "long_delays": 20, "dead_receivers": 20, "traces_compared": 600, "array_plots": 60, "images": 60, "image_points": 1000, "contours_probed": 200, "peaks_compared": 600,
           "nearfields": 25, "provided_axes": 80, "renormalised": 25, "snr_plots": 15, "workflow_images": 8, "not_constant": 10, "styles": 100, "many_receivers": 8}


def _axes(rng, mon, p=0.4):
    """Own or provided axes; provided ones may hold a line already."""
    if rng.random() > p:
        return None, None
    fig, ax = plt.subplots()
    mon.event("provided_axes")
    return fig, ax


def _done(mon, out, fig, ax, what):
    if ax is None:
        mon.check(isinstance(out, tuple) and len(out) == 2, f"{what} without axes returns figure and axes", got=type(out).__name__)
        fig, ax = out
    else:
        mon.check(out is None, f"{what} on provided axes returns something", got=type(out).__name__)
    return fig, ax


def _styled(mon, line, style, what):
    """Every element of the style given is that of the line."""
    for k, v in style.items():
        if k == "label":
            continue                                            # shown for one of several lines
        got = getattr(line, "get_" + k)()
        mon.check(got == v, f"{k} of {what} is not the one given", got=got, want=v)
        mon.event("styles")


def waterfall(rng, mon):
    a, meta = xform.make_array(rng, nch=int(rng.integers(2, 13)) if rng.random() < 0.9 else int(rng.integers(24, 97)), kind=choice(rng, (None, "noise", "trend", "burst")), dead=0.15)
    if rng.random() < 0.3:                                      # a long pre-trigger part
        s = a.sensors[0]
        delay = -s.dt * (int(0.9 * s.nsamples) + choice(rng, (0, 0, 256, 4000)))
        a = Array1D([Sensor1C(np.array(s.amplitude), s.dt, s.x, s.y, s.z, nstacks=s.nstacks, delay=delay) for s in a.sensors], a.source)
        mon.event("long_delays")
    kw = {}
    if rng.random() < 0.8:
        kw["time_ax"] = choice(rng, ("x", "y"))
    if rng.random() < 0.7:
        kw["amplitude_detrend"] = bool(rng.random() < 0.5)
    if rng.random() < 0.8:
        kw["amplitude_normalization"] = choice(rng, ("none", "each", "all"))
    if rng.random() < 0.5:
        kw["amplitude_scale"] = float(np.round(choice(rng, (1, -1, 1, 1)) * rng.uniform(0.1, 5), 2)) if rng.random() < 0.9 else choice(rng, (0, 0.0))
    mon.event("flat_traces", kw.get("amplitude_scale") == 0)
    if rng.random() < 0.7:
        kw["position_normalization"] = bool(rng.random() < 0.6)
    if rng.random() < 0.4:
        kw["plot_kwargs"] = choice(rng, ({}, dict(color="r"), dict(linewidth=2, label="mine"), dict(color="k", linestyle="--")))
    fig, ax = _axes(rng, mon)
    if ax is not None:
        kw["ax"] = ax
    rows, t = gens.matrix(a), np.array(a.sensors[0].time)
    style = kw.get("plot_kwargs", {})
    with mon.unchanged("the array or the style", a, style):
        out = a.waterfall(**kw)
    fig, ax = _done(mon, out, fig, ax, "waterfall")
    if kw.get("amplitude_detrend", True):
        rows = refs.detrend(rows)
    norm = kw.get("amplitude_normalization", "each")
    if norm != "none":                                          # a record without amplitude is drawn as it is
        top = np.max(np.abs(rows), axis=1, keepdims=True) if norm == "each" else np.max(np.abs(rows))
        rows = rows / np.where(top > 0, top, 1)
    x = np.array([s.x for s in a.sensors])
    if kw.get("position_normalization", False):
        x = x - x[0]
    scale = kw.get("amplitude_scale")
    if scale is None:
        scale = np.mean(np.diff(x)) / 2
    mon.check(len(ax.lines) == len(x), "one line per receiver", got=len(ax.lines), want=len(x))
    horizontal = kw.get("time_ax", "y") == "x"
    dist_label, time_label = (ax.get_ylabel(), ax.get_xlabel()) if horizontal else (ax.get_xlabel(), ax.get_ylabel())
    mon.check(("Time (s)", "Distance (m)") == (time_label, dist_label), "axis labels", got=(time_label, dist_label))
    for i, line in enumerate(ax.lines):
        lx, ly = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        lt, ld = (lx, ly) if horizontal else (ly, lx)
        mon.equal(lt, t, f"times of trace {i}")
        tol = 1e-8 * (np.max(np.abs(rows[i] * scale)) + np.max(np.abs(x)))
        mon.check(ld.shape == t.shape, f"samples of trace {i}", got=ld.shape, want=t.shape)
        mon.check(bool(np.max(np.abs(ld - (x[i] + rows[i] * scale))) <= tol), f"displacement of trace {i}", got=ld, want=x[i] + rows[i] * scale)
        mon.event("traces_compared")
        _styled(mon, line, style, "a trace")
    tlim, dlim = (ax.get_xlim(), ax.get_ylim()) if horizontal else (ax.get_ylim(), ax.get_xlim())
    mon.close(tlim, (t[0], t[-1]) if horizontal else (t[-1], t[0]), "limits of the time axis", rtol=1e-9)
    mon.close(dlim, (x[0] - (x[1] - x[0]), x[-1] + (x[1] - x[0])), "limits of the distance axis", rtol=1e-9)
    labels = [line.get_label() for line in ax.lines if not line.get_label().startswith("_")]
    if "label" in style:
        mon.check(labels == [style["label"]], "the label is shown once", got=labels)
    mon.event("waterfalls")
    mon.event("dead_receivers", bool(meta["dead"]))
    plt.close("all")
    mon.describe(nontrivial=bool(kw), **meta, options={k: v for k, v in kw.items() if k != "ax"})


def schematic(rng, mon):
    n = int(rng.integers(2, 25)) if rng.random() < 0.8 else int(rng.integers(25, 121))
    mon.event("many_receivers", n > 48)
    y = [float(v) for v in np.round(rng.normal(size=n) * choice(rng, (0, 0, 3, 30)), 2)]
    a, meta = gens.array(rng, nch=n, y=y, where=choice(rng, ("left", "right", "inside", "first")))
    kw = {}
    if rng.random() < 0.4:
        kw["sensor_kwargs"] = choice(rng, ({}, dict(color="r"), dict(marker="v", label="R")))
    if rng.random() < 0.4:
        kw["source_kwargs"] = choice(rng, ({}, dict(color="r"), dict(marker="o", label="S")))
    fig, ax = _axes(rng, mon)
    if ax is not None:
        kw["ax"] = ax
    with mon.unchanged("the array or the styles", a, {k: v for k, v in kw.items() if k != "ax"}):
        out = a.plot(**kw)
    fig, ax = _done(mon, out, fig, ax, "plot")
    pts = [sorted(zip(np.asarray(l.get_xdata(), float).tolist(), np.asarray(l.get_ydata(), float).tolist())) for l in ax.lines]
    want = sorted((float(s.x), float(s.y)) for s in a.sensors)
    mon.check(want in pts, "the receivers are not drawn where they are", got=pts, want=want)
    mon.check([(float(a.source.x), float(a.source.y))] in pts, "the source is not drawn where it is", got=pts, want=(a.source.x, a.source.y))
    mon.check(len(pts) == 2, "something else is drawn", got=pts)
    for key, place in (("sensor_kwargs", want), ("source_kwargs", [(float(a.source.x), float(a.source.y))])):
        if key in kw and want != [(float(a.source.x), float(a.source.y))]:
            line = ax.lines[pts.index(place)]
            _styled(mon, line, kw[key], key)
            if "label" in kw[key]:
                mon.check(line.get_label() == kw[key]["label"], f"label given in {key}", got=line.get_label())
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    for px, py in want + [(a.source.x, a.source.y)]:
        mon.check(x0 <= px <= x1 and y0 <= py <= y1, "a receiver or the source lies outside of the axes", point=(px, py), limits=(x0, x1, y0, y1))
    text = "\n".join(t.get_text() for t in ax.texts)
    m = re.search(r"Number of sensors: (\d+)", text)
    mon.check(bool(m) and int(m.group(1)) == n, "number of receivers in the text", got=text, want=n)
    d = np.diff(np.sort([s.x for s in a.sensors]))
    spread = d.max() - d.min()
    if abs(spread - 0.01) > 1e-6:
        m = re.search(r"Sensor spacing: (-?[\d.e+-]+) m", text)
        if spread < 0.01:
            mon.check(bool(m) and abs(float(m.group(1)) - d.min()) < 0.0051, "spacing in the text", got=text, want=d.min())
        else:
            mon.check(not m and "not constant" in text, "spacing in the text of an unequal array", got=text)
            mon.event("not_constant")
    m = re.search(r"Source @ (-?[\d.e+-]+) m", text)
    mon.check(bool(m) and abs(float(m.group(1)) - a.source.x) < 0.0051, "position of the source in the text", got=text, want=a.source.x)
    mon.event("array_plots")
    plt.close("all")
    mon.describe(nontrivial=bool(kw), **meta)


NORMS = ("none", "absolute-maximum", "frequency-maximum")


def _normalised(p, by):
    p = np.abs(p)
    return p if by == "none" else p / np.max(p) if by == "absolute-maximum" else p / np.max(p, axis=0)


def _inside(path, point):
    """Even-odd rule over the rings of a filled contour."""
    from matplotlib.path import Path
    return sum(Path(ring).contains_point(point) for ring in path.to_polygons() if len(ring) > 2) % 2 == 1


def _image(rng, mon, T, original, acd, meta):
    """Plot once or twice with different options and compare with the power as transformed."""
    freqs, vels = np.array(T.frequencies), np.array(T.velocities)
    same = dict(frequencies=T.frequencies, velocities=T.velocities, n=T.n, snr=T.snr, snr_frequencies=T.snr_frequencies)
    times = choice(rng, (1, 1, 2))
    mon.event("renormalised", times == 2)
    for k in range(times):
        kw = {}
        if rng.random() < 0.8:
            kw["normalization"] = choice(rng, NORMS)
        if rng.random() < 0.7:
            kw["peaks"] = choice(rng, ("frequency-maximum", "frequency-maximum", "none"))
        if acd is not None and rng.random() < 0.6:
            kw["nearfield"] = choice(rng, (1, 2, 0.5, 1.5))
        if rng.random() < 0.3:
            kw["peak_kwargs"] = choice(rng, ({}, dict(marker="s"), dict(color="w", label="peaks")))
        if rng.random() < 0.3:
            kw["colorbar_kwargs"] = choice(rng, ({}, dict(label="power"), dict(label="power", ticks=[0.0, 0.5]), dict(orientation="horizontal")))
        if rng.random() < 0.3:
            kw["cmap"] = choice(rng, ("viridis", "jet"))
        if rng.random() < 0.3:
            kw["rasterize"] = True
        fig, ax = _axes(rng, mon)
        if ax is not None:
            kw.update(ax=ax, fig=fig)
            if rng.random() < 0.4:
                kw["cax"] = fig.add_axes([0.92, 0.1, 0.03, 0.8])
        before = len(fig.axes) if fig is not None else 1
        style = {k: v for k, v in kw.items() if k in ("peak_kwargs", "colorbar_kwargs")}
        with mon.unchanged("the array, the axes of the image or the styles", T.array, same, style):
            out = T.plot(**kw)
        fig, ax = _done(mon, out, fig, ax, "plot")
        by = kw.get("normalization", "frequency-maximum")
        want = _normalised(original, by)
        mon.check(np.shape(T.power) == want.shape and bool(np.all(np.abs(np.asarray(T.power) - want) <= 1e-9 * np.max(want))),
                  f"power after plotting with {by}", got=np.asarray(T.power), want=want)
        mon.event("images")
        mon.event("image_points", want.size)
        sets = [c for c in ax.collections if isinstance(c, ContourSet)]
        mon.check(len(sets) == 1, "one filled image on the axes", got=len(sets))
        img = sets[0]
        if kw.get("rasterize"):
            mon.check(bool(img.get_rasterized()), "the image is not rasterized")
        mon.check(img.get_cmap().name == kw.get("cmap", "jet"), "colour map", got=img.get_cmap().name)
        bar = img.colorbar
        mon.check(bar is not None and len(fig.axes) == before + (kw.get("cax") is None), "one colour bar on its own axes", got=len(fig.axes), want=before)
        mon.check(kw.get("cax") is None or bar.ax is kw["cax"], "the colour bar is not on the axes provided for it")
        given = kw.get("colorbar_kwargs", {})
        if "label" in given:
            mon.check(given["label"] in (bar.ax.get_ylabel(), bar.ax.get_xlabel()), "label of the colour bar", got=(bar.ax.get_ylabel(), bar.ax.get_xlabel()))
        if "orientation" in given:
            mon.check(bar.orientation == given["orientation"], "orientation of the colour bar", got=bar.orientation)
        if "ticks" in given:
            mon.equal(np.asarray(bar.locator.locs, float) if hasattr(bar.locator, "locs") else np.asarray(bar.get_ticks(), float), given["ticks"], "ticks of the colour bar")
        levels = np.asarray(img.levels, float)
        top = np.max(want)
        mon.check(abs(levels[0]) < 1e-12 * top and abs(levels[-1] - top) < 1e-9 * top, "range of the image", got=levels, want=(0, top))
        paths = img.get_paths()
        if len(vels) > 2 and len(freqs) > 2:
            for _ in range(5):
                i, j = int(rng.integers(1, len(vels) - 1)), int(rng.integers(1, len(freqs) - 1))
                p = want[i, j]
                band = int(np.searchsorted(levels, p)) - 1
                if not 0 <= band < len(paths) or min(p - levels[band], levels[band + 1] - p) < 0.02 * (levels[1] - levels[0]):
                    continue
                hit = [k for k, path in enumerate(paths) if _inside(path, (freqs[j], vels[i]))]
                mon.check(hit == [band], "the image shows another power at a frequency and velocity", f=freqs[j], v=vels[i], power=p, bands=hit, want=band, levels=levels)
                mon.event("contours_probed")
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        lines = list(ax.lines)
        near = kw.get("nearfield")
        if near is not None:
            mon.check(bool(lines), "no line for the near-field limit")
            fs, vs = np.asarray(lines[-1].get_xdata(), float), np.asarray(lines[-1].get_ydata(), float)
            mon.close(vs, fs * acd / near, "near-field limit (mean offset over wavelength)", rtol=1e-9)
            mon.check(fs.min() <= freqs[0] + 1e-9 and fs.max() >= freqs[-1] - 1e-9, "the near-field limit does not cover the frequencies", got=(fs.min(), fs.max()))
            mon.check(f"{near:.2f}" in lines[-1].get_label(), "label of the near-field limit", got=lines[-1].get_label())
            mon.check(y0 <= vels[0] * (1 + 1e-9) and y1 >= vels[-1] * (1 - 1e-9) and y1 - y0 < 1.5 * (vels[-1] - vels[0]), "velocity axis with the near-field limit", got=(y0, y1))
            mon.event("nearfields")
            lines = lines[:-1]
        if kw.get("peaks", "frequency-maximum") == "none":
            mon.check(not lines, "peaks are drawn although not asked for", got=len(lines))
        else:
            mon.check(len(lines) == 1, "one line of peaks", got=len(lines))
            mon.equal(np.asarray(lines[0].get_xdata(), float), freqs, "frequencies of the peaks")
            _styled(mon, lines[0], kw.get("peak_kwargs", {}), "the peaks")
            if "label" in kw.get("peak_kwargs", {}):
                mon.check(lines[0].get_label() == kw["peak_kwargs"]["label"], "label of the peaks", got=lines[0].get_label())
            for j, v in enumerate(np.asarray(lines[0].get_ydata(), float)):
                i = np.flatnonzero(vels == v)
                mon.check(len(i) > 0 and bool(np.any(want[i, j] >= np.max(want[:, j]) * (1 - 1e-9))), "a peak is not where the power is largest",
                          f=freqs[j], got=v, want=vels[np.argmax(want[:, j])])
                mon.event("peaks_compared")
        mon.check((ax.get_xlabel(), ax.get_ylabel()) == ("Frequency (Hz)", "Phase Velocity (m/s)"), "axis labels", got=(ax.get_xlabel(), ax.get_ylabel()))
        plt.close("all")
    mon.describe(nontrivial=True, times=times, **meta)


def image(rng, mon):
    kind = choice(rng, ("fdbf", "fk", "phaseshift", "slantstack"))
    where = choice(rng, ("left", "right"))
    if rng.random() < 0.5:                                      # straight from a transform
        a, meta = xform.make_array(rng, n=int(rng.integers(60, 140)), where=where)
        x = np.array([s.x for s in a.sensors])
        vmin = None
        if kind == "slantstack":
            s = a.sensors[0]
            vmin = float(np.round((x[-1] - x[0]) / (s.nsamples * s.dt) * rng.uniform(1.7, 6), 3))
        st = xform.make_settings(rng, a, transform=kind, vmin=vmin, nvel=int(rng.integers(3, 20)))
        T = xform.transform_class(kind).from_array(a, st)
        T.array = a
        sx = meta["sx"]
    else:
        d = mon.scratch()
        files, models, stacked, meta = pipe.survey(rng, d, nf=int(rng.integers(1, 3)), where=where)
        pre = pipe.preprocessing(rng, stacked)
        pre["mute"] = False
        x = pipe.prepared(stacked, pre).x
        st = pipe.processing(rng, pipe.prepared(stacked, pre), pre, transform=kind)
        if st is None:
            raise Skip("no velocities")
        st["nvel"] = max(3, st["nvel"])
        T = Masw.run(files, pipe.settings_of(choice(rng, ("time-domain", "frequency-domain")), pre, st))
        sx = stacked.sx
        mon.event("workflow_images")
    original = np.array(T.power)
    if np.shape(original)[1] < 2 or not np.all(np.isfinite(original)) or not np.min(np.max(np.abs(original), axis=0)) > 1e-9 * np.max(np.abs(original)):
        raise Skip("nothing to contour")
    _image(rng, mon, T, original, float(np.mean(np.abs(x - sx))), meta)


def snr(rng, mon):
    """Plot of the ratio that a transform carries, or a warning if it carries none."""
    import warnings
    a, meta = xform.make_array(rng, nch=4, where="left")
    st = xform.make_settings(rng, a, transform="fk", nvel=3)
    T = xform.transform_class("fk").from_array(a, st)
    fig, ax = _axes(rng, mon)
    kw = {} if ax is None else dict(ax=ax)
    if rng.random() < 0.25:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = T.plot_snr(**kw)
        mon.check(out is None and len(w) >= 1 and (ax is None or not ax.lines), "plotting a ratio that does not exist", got=out)
        mon.event("no_ratio")
    else:
        n = int(rng.integers(1, 40))
        T.snr, T.snr_frequencies = rng.uniform(0.1, 20, n), np.sort(rng.uniform(1, 90, n))
        style = choice(rng, ({}, dict(color="k", label="snr")))
        if style:
            kw["plot_kwargs"] = style
        with mon.unchanged("the transform", T):
            out = T.plot_snr(**kw)
        fig, ax = _done(mon, out, fig, ax, "plot of the ratio")
        mon.check(len(ax.lines) == 1, "one line", got=len(ax.lines))
        mon.equal(np.asarray(ax.lines[0].get_xdata(), float), T.snr_frequencies, "frequencies of the ratio")
        mon.equal(np.asarray(ax.lines[0].get_ydata(), float), T.snr, "ratio")
        _styled(mon, ax.lines[0], style, "the ratio")
        mon.check(not style or ax.lines[0].get_label() == style["label"], "label of the ratio", got=ax.lines[0].get_label())
        mon.check((ax.get_xlabel(), ax.get_ylabel()) == ("Frequency (Hz)", "Signal-to-Noise Ratio"), "axis labels", got=(ax.get_xlabel(), ax.get_ylabel()))
        mon.event("snr_plots")
    plt.close("all")
    mon.describe(nontrivial=bool(kw), **meta)


def refusals(rng, mon):
    a, meta = xform.make_array(rng, nch=3, where="left", process=False)
    which = choice(rng, ("time_ax", "only_ax"))
    if which == "time_ax":
        mon.raises(ValueError, lambda: a.waterfall(time_ax=choice(rng, ("z", "t", ""))), "an unknown time axis")
    else:
        T = xform.transform_class("fk").from_array(a, xform.make_settings(rng, a, transform="fk"))
        _, ax = plt.subplots()
        mon.raises(ValueError, lambda: T.plot(ax=ax), "axes without their figure")
    plt.close("all")
    mon.describe(nontrivial=True, which=which)


SCENARIOS = {"waterfall": (waterfall, 150, 2500), "schematic": (schematic, 80, 1200), "image": (image, 90, 1800), "snr": (snr, 30, 300), "refusals": (refusals, 20, 100)}
