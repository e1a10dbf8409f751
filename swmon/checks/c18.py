"""Normalisation histories: the image is compared after every step with a model holding the original power."""
import numpy as np
import matplotlib.pyplot as plt

from .. import gens, xform
from ..gens import choice

RULE = ("a case applies a random sequence of normalisations, plots, peak picks and refused requests to one dispersion image (complex or "
        "real power over many magnitudes, from a transform, a stack or made directly); non-trivial = at least two different requests")
REQUIRE = {"normalizations": 300, "peak_picks": 300, "plots": 30, "refusals_checked": 60, "columns_without_power": 30}

NORMS = ("none", "absolute-maximum", "frequency-maximum")


def _image(rng):
    how = choice(rng, ("made", "made", "transform", "stack"))
    if how == "made":
        nv, nf = int(rng.integers(2, 15)), int(rng.integers(1, 15))
        p = rng.normal(size=(nv, nf)) * 10 ** rng.uniform(-6, 6, nf)
        dt = choice(rng, ("complex", "complex", "real", "positive"))
        if dt == "complex":
            p = p * np.exp(1j * rng.uniform(0, 2 * np.pi, (nv, nf)))
        elif dt == "positive":
            p = np.abs(p)
        if rng.random() < 0.3:                                # e.g. the column of a frequency of zero
            p[:, rng.random(nf) < choice(rng, (0.2, 0.6))] = 0
        if rng.random() < 0.05:
            p[:] = 0
        cls = xform.transform_class(choice(rng, ("fdbf", "phaseshift", "slantstack", "fk")))
        return cls(np.sort(rng.uniform(5, 60, nf)), np.sort(rng.uniform(100, 900, nv)), p), how + dt
    a, _ = xform.make_array(rng, nch=4, n=60, need_offset=True, process=False)
    kind = choice(rng, ("fdbf", "fk", "phaseshift"))
    st = xform.make_settings(rng, a, transform=kind)
    T = xform.transform_class(kind).from_array(a, st)
    if how == "stack":
        E = xform.transform_class("empty").from_array(a, st)
        if rng.random() < 0.1:
            return E, "empty" + kind
        E.stack(T)
        return E, how + kind
    return T, how + kind


def _model(p, by):
    m = np.abs(p)
    if by is None:
        return p
    if by == "none":
        return m
    top = np.broadcast_to(m.max() if by == "absolute-maximum" else m.max(axis=0), m.shape)
    return np.where(top > 0, m / np.where(top > 0, top, 1), 0)


def _clear_peaks(p):
    """Columns that have a peak, None if one of the peaks is not clearly the highest."""
    m = np.sort(np.abs(p), axis=0)
    has = m[-1] > 0
    return has if len(m) < 2 or np.all(m[-2][has] < m[-1][has] * (1 - 1e-9)) else None


def _history(rng, mon, T, how, plots, nsteps):
    orig = np.array(T.power)
    has = _clear_peaks(orig) if orig.size else None
    if has is None:
        mon.describe(nontrivial=False)
        return
    mon.event("columns_without_power", int(np.sum(~has)))
    f0, v0, n0 = np.array(T.frequencies), np.array(T.velocities), T.n
    peaks = v0[np.argmax(np.abs(orig), axis=0)]
    by, log = None, []
    can_plot = orig.shape[0] > 1 and orig.shape[1] > 1 and has.any()
    for _ in range(nsteps):
        op = choice(rng, ("norm", "norm", "norm", "norm", "pick", "pick", "bad_norm", "bad_pick") + (("plot",) * 4 if plots and can_plot else ()))
        if op == "norm":
            by = choice(rng, NORMS)
            if by == "frequency-maximum" and rng.random() < 0.4:
                T.normalize()
            else:
                T.normalize(by) if rng.random() < 0.5 else T.normalize(by=by)
            mon.event("normalizations")
        elif op == "plot":
            kw = {}
            if rng.random() < 0.7:
                kw["normalization"] = choice(rng, NORMS)
            if rng.random() < 0.5:
                kw["peaks"] = choice(rng, ("none", "frequency-maximum"))
            by = kw.get("normalization", "frequency-maximum")
            T.plot(**kw)
            plt.close("all")
            mon.event("plots")
        elif op == "bad_norm":
            name = choice(rng, ("max", "", "frequency", None, "Frequency-Maximum", 3))
            if plots and rng.random() < 0.3:
                mon.raises(Exception, lambda: T.plot(normalization=name), f"plot with unknown normalisation {name!r}")
                plt.close("all")
            else:
                mon.raises(Exception, lambda: T.normalize(name), f"unknown normalisation {name!r}")
        elif op == "bad_pick":
            name = choice(rng, ("find_peaks", "max", "", None))
            mon.raises(Exception, lambda: T.find_peak_power(by=name), f"unknown peak picking {name!r}")
        else:
            T.find_peak_power() if rng.random() < 0.5 else T.find_peak_power(by="frequency-maximum")
        log.append(op + (":" + by[:4] if by and op in ("norm", "plot") else ""))
        want = _model(orig, by)
        xform.columns_close(mon, T.power, want, f"power after {log}", rtol=1e-7)
        mon.equal(T.find_peak_power()[has], peaks[has], f"peaks after {log}")
        mon.event("peak_picks")
        xform.columns_close(mon, T.power, want, f"power after picking ({log})", rtol=1e-7)
        mon.equal(T.frequencies, f0, "frequencies changed")
        mon.equal(T.velocities, v0, "velocities changed")
        mon.check(T.n == n0, "number of records changed")
    mon.describe(nontrivial=len(set(log)) > 1, how=how, shape=orig.shape, steps=log, p0=float(np.abs(orig[0, 0])))


def history(rng, mon):
    T, how = _image(rng)
    _history(rng, mon, T, how, False, int(rng.integers(2, 12)))


def plotted(rng, mon):
    T, how = _image(rng)
    _history(rng, mon, T, how, True, int(rng.integers(2, 6)))


SCENARIOS = {"history": (history, 250, 10000), "plotted": (plotted, 60, 1200)}
