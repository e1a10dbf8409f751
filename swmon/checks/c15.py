"""Slant stack against trace-by-trace linear interpolation, power against an explicit Fourier sum of it."""
import numpy as np

from .. import gens, refs, xform
from ..gens import choice

RULE = ("a case slant-stacks one noise array (either source side, unequal spacing, trimmed, padded, decimated) for trial velocities in "
        "increasing, decreasing or random order, in the time domain or as power; non-trivial = at least three receivers and two velocities")
REQUIRE = {"stacks": 100, "images": 60, "columns_compared": 400, "decimated": 10, "source_right": 30, "unordered": 30, "whole_lags": 60, "split_by_rounding": 20, "beyond_half_the_rate": 10}


def _vmin(rng, a):
    s = a.sensors[0]
    off = a.offsets
    frac = rng.uniform(0.05, 0.7)
    for _ in range(20):
        v = (max(off) - min(off)) / (frac * s.nsamples * s.dt)
        v = float(np.round(v, 3))
        L = (max(off) - min(off)) / v / s.dt
        if 0.02 < L % 1 < 0.98 and v > 0:
            return v
        frac *= 0.97
    return None


def time_domain(rng, mon):
    a, meta = xform.make_array(rng)
    vmin = _vmin(rng, a)
    if vmin is None:
        mon.describe(nontrivial=False)
        return
    k = int(rng.integers(1, 12))
    v = np.concatenate(([vmin], vmin * rng.uniform(1.0001, 8, k)))
    order = choice(rng, ("up", "down", "random"))
    v = np.sort(v) if order == "up" else np.sort(v)[::-1] if order == "down" else rng.permutation(v)
    mon.describe(**meta, order=order, velocities=v)
    s = a.sensors[0]
    got = xform.transform_class("slantstack").slant_stack(a, v.copy())
    want = refs.slantstack(gens.matrix(a), s.dt, a.offsets, v)
    mon.event("stacks")
    mon.event("unordered", order != "up")
    mon.event("source_" + meta["where"])
    mon.check(got.shape == want.shape, "number of velocities and intercept times", got=got.shape, want=want.shape)
    mon.close(got, want, f"slant stack (velocities {order})", rtol=1e-7)
    mon.check(np.shape(v) == (k + 1,), "velocities changed")


def whole(rng, mon):
    """Round geometry, time step and velocities: the longest delay is a whole number of samples."""
    split = rng.random() < 0.4                                 # two ways to compute the delay fall on either side of the whole number
    for _ in range(2000):
        nch, dt = int(rng.integers(2, 10)), choice(rng, (0.001, 0.002, 0.0005, 0.004, 0.00025))
        d = choice(rng, (1, 2, 5, 0.5, 1.5, 3, 10))
        span = (nch - 1) * d
        v = float(choice(rng, (50, 75, 80, 100, 120, 150, 200, 300, 60, 96, 125, 25, 64)))
        lag = span / v / dt
        if abs(lag - np.rint(lag)) < 1e-6 and lag < 400 and (not split or len({int(span * (1 / v) / dt), int(lag), int(span / dt / v)}) > 1):
            mon.event("split_by_rounding", split)
            break
    else:
        mon.describe(nontrivial=False)
        return
    n = int(lag) + int(rng.integers(5, 60))
    x0 = choice(rng, (0, 0, 10, -20, 3))
    a, meta = gens.array(rng, nch=nch, n=n, dt=dt, pos=x0 + np.arange(nch) * float(d), kind="noise", where=choice(rng, ("left", "right", "first", "last")))
    vels = np.concatenate(([v], v * np.arange(2, 2 + int(rng.integers(1, 5)))))
    vels = rng.permutation(vels) if rng.random() < 0.5 else vels
    lengths = refs.slantstack_lengths(n, dt, a.offsets, vels)
    got = np.asarray(xform.transform_class("slantstack").slant_stack(a, vels.copy()))
    mon.check(got.ndim == 2 and got.shape[0] == len(vels) and got.shape[1] in lengths, "number of velocities and intercept times", got=got.shape, want=lengths)
    want = refs.slantstack(gens.matrix(a), dt, a.offsets, vels, got.shape[1])
    mon.close(got, want, "slant stack of a round geometry", rtol=1e-7)
    mon.event("whole_lags")
    mon.describe(nontrivial=True, **meta, velocities=vels)


def power(rng, mon):
    a, meta = xform.make_array(rng)
    vmin = _vmin(rng, a)
    if vmin is None:
        mon.describe(nontrivial=False)
        return
    settings = xform.make_settings(rng, a, transform="slantstack", vmin=vmin, vmax=vmin * float(rng.uniform(1.2, 6)),
                                   lo=0 if rng.random() < 0.3 else 1, beyond=0.1)
    T = xform.transform_class("slantstack").from_array(a, settings)
    s = a.sensors[0]
    freqs, vels = np.array(T.frequencies), np.array(T.velocities)
    mon.describe(nontrivial=len(freqs) > 1, **meta, settings=settings)
    if len(freqs) == 0:
        return
    want = refs.slantstack_power(gens.matrix(a), s.dt, a.offsets, freqs, vels)
    ref = np.max(np.abs(want)) * 1e-4
    xform.columns_close(mon, T.power, want, "slant-stack power", rtol=1e-6, floor=ref)
    mon.event("images")
    mon.event("beyond_half_the_rate", bool(np.any(freqs > 0.51 / s.dt)))
    mon.event("source_" + meta["where"])
    mon.event("decimated", meta["multiple"] > 1)


SCENARIOS = {"time_domain": (time_domain, 250, 6000), "power": (power, 250, 6000), "whole": (whole, 120, 3000)}
