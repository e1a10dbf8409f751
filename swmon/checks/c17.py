"""Image axes against the record's Fourier frequencies and the requested velocity vector."""
import numpy as np

from .. import gens, refs, xform
from ..gens import choice

RULE = ("a case asks one transform (or the empty image) for an image of a plain, padded or decimated record with limits on, between, "
        "below and above Fourier frequencies; non-trivial = more than one frequency and velocity")
REQUIRE = {"images": 200, "decimated": 40, "log_axes": 40, "limits_on_a_frequency": 20, "columns_compared": 200}


def _nearest(bins, f):
    d = np.abs(bins - f)
    i = int(np.argmin(d))
    others = np.delete(d, i)
    return i, (others.min() - d[i]) > 1e-7 * (bins[1] - bins[0])


def axes(rng, mon):
    kind = choice(rng, ("fdbf", "fk", "phaseshift", "slantstack", "empty"))
    a, meta = xform.make_array(rng, nch=int(rng.integers(2, 6)), need_offset=True)
    s = a.sensors[0]
    n, dt, m = s.nsamples, s.dt, s.multiple
    bins = np.arange(n) / (n * dt)
    df = bins[1]

    def limit():
        k = int(rng.integers(1, max(2, n // 2)))
        return float(bins[k] + choice(rng, (0, 0, 0.3, -0.3, 0.45, -0.45, 0.01)) * df)
    fmin, fmax = sorted((limit(), limit()))
    style = choice(rng, ("free", "free", "round", "one", "above", "zero"))
    if style == "round":
        fmin, fmax = float(np.ceil(fmin)), float(np.ceil(fmax) + 1)
    elif style == "one":
        fmax = fmin
    elif style == "above":
        fmax = float(bins[-1] + rng.uniform(0, 3) * df)
    elif style == "zero" and kind != "fdbf":
        fmin = float(choice(rng, (0.0, 0.2 * df)))
    (lo, ok1), (hi, ok2) = _nearest(bins, fmin), _nearest(bins, fmax)
    if not ok1 or not ok2 or lo == 0 and kind == "fdbf":
        mon.describe(nontrivial=False)
        return
    vmin = float(np.round(rng.uniform(60, 300), 1))
    if kind == "slantstack":
        vmin = max(vmin, round((max(a.offsets) - min(a.offsets)) / (0.6 * n * dt), 2))
    vmax = float(np.round(vmin * rng.uniform(1.2, 8), 1))
    nvel = int(choice(rng, (1, 2, 3, rng.integers(2, 40))))
    vs = choice(rng, ("linear", "lin", "log", "logarithmic"))
    st = dict(transform=kind, fmin=fmin, fmax=fmax, vmin=vmin, vmax=vmax, nvel=nvel, vspace=vs,
              **{"fdbf-specific": dict(weighting=choice(rng, ("sqrt", "none")), steering=choice(rng, ("cylindrical", "plane")))})
    T = xform.transform_class(kind).from_array(a, st)
    want = bins[np.arange(lo, hi + 1, m)]
    mon.describe(nontrivial=len(want) > 1 and nvel > 1, kind=kind, style=style, settings=st, **meta)
    mon.event("images")
    mon.event("decimated", m > 1)
    mon.event("log_axes", vs.startswith("log"))
    mon.event("limits_on_a_frequency", abs(bins[lo] - fmin) < 1e-9 or abs(bins[hi] - fmax) < 1e-9)
    mon.check(np.shape(T.frequencies) == want.shape, "number of frequencies", got=np.array(T.frequencies), want=want, df=df, multiple=m)
    mon.close(T.frequencies, want, "frequencies", rtol=1e-9, atol=1e-9 * df)
    if len(want) > 1:
        mon.close(np.diff(T.frequencies), np.full(len(want) - 1, s.df), "step between frequencies is not the reported one", atol=1e-9 * df)
    v = refs.velocities(vmin, vmax, nvel, vs)
    mon.check(np.shape(T.velocities) == v.shape, "number of velocities", got=np.shape(T.velocities), want=v.shape)
    mon.close(T.velocities, v, "velocities", rtol=1e-9)
    mon.check(np.shape(T.power) == (nvel, len(want)), "shape of the power", got=np.shape(T.power), want=(nvel, len(want)))
    if kind == "empty":
        mon.check(not np.any(T.power), "power of an empty image")


def labels(rng, mon):
    """Each column is the power at its label: tones at known frequencies, with and without padding and decimation."""
    kind = choice(rng, ("fdbf", "fk", "phaseshift", "slantstack"))
    a, meta = xform.make_array(rng, nch=int(rng.integers(3, 6)), n=gens.length(rng, 60, 120), need_offset=True)
    s = a.sensors[0]
    vmin = 100.0
    if kind == "slantstack":
        ext = max(a.offsets) - min(a.offsets)
        vmin = round(ext / (0.4 * s.nsamples * s.dt), 3)
        if not 0.02 < (ext / vmin / s.dt) % 1 < 0.98:
            mon.describe(nontrivial=False)
            return
    st = xform.make_settings(rng, a, weighting="none", steering="plane", transform=kind, vmin=vmin, nvel=4)
    T = xform.transform_class(kind).from_array(a, st)
    f = np.array(T.frequencies)
    mon.describe(nontrivial=len(f) > 1, kind=kind, settings=st, **meta)
    if len(f) == 0 or not xform.live(a, f):
        return
    want = refs.power(kind, gens.matrix(a), s.dt, a.offsets, f, np.array(T.velocities), "none", "plane")
    xform.columns_close(mon, T.power, want, f"{kind}: a column is not the power at the frequency it is labelled with", rtol=1e-6,
                        floor=1e-4 * np.max(np.abs(want)))
    mon.event("decimated", s.multiple > 1)


SCENARIOS = {"axes": (axes, 400, 12000), "labels": (labels, 100, 3000)}
