"""Shared workload of the transform checks: arrays, settings and comparison per frequency."""
import numpy as np

from swprocess import Array1D, Sensor1C
from swprocess.register import WavefieldTransformRegistry
from . import gens, refs
from .gens import choice


def transform_class(name):
    return WavefieldTransformRegistry.create_class(name)


def make_array(rng, nch=None, n=None, kind="noise", need_offset=False, where=None, process=True, gain=None, dead=0.0):
    nch = gens.channels(rng, 3, 13) if nch is None else nch
    n = gens.length(rng, 40, 160) if n is None else n
    where = where or choice(rng, ("left", "right") if need_offset else ("left", "right", "left", "right", "first", "last"))
    a, meta = gens.array(rng, nch=nch, n=n, dt=choice(rng, (0.001, 0.002, 0.004, 0.0005, 1 / 1024)), where=where, kind=kind)
    steps = []
    if gain is None:
        gain = 10.0 ** rng.integers(-12, 10) if rng.random() < 0.25 else 1.0     # volts, counts or displacements
    if gain != 1:
        a = Array1D([Sensor1C(np.array(s.amplitude) * gain, s.dt, s.x, s.y, s.z, nstacks=s.nstacks, delay=s.delay) for s in a.sensors], a.source)
    if rng.random() < dead:                                   # receivers that recorded nothing
        for i in rng.choice(nch, size=int(choice(rng, (1, 1, 2, max(1, nch // 2)))), replace=False):
            a.sensors[int(i)].amplitude[:] = 0
    meta["gain"] = float(gain)
    meta["dead"] = [i for i, s in enumerate(a.sensors) if not np.any(s.amplitude)]
    if process:
        if rng.random() < 0.3:
            t = np.array(a.sensors[0].time)
            a.trim(float(t[int(rng.integers(0, n // 4))]), float(t[-1 - int(rng.integers(0, n // 4))]))
            steps.append("trim")
        if rng.random() < 0.65:
            m = a.sensors[0].nsamples
            N = int(choice(rng, (rng.integers(m // 4, m), rng.integers(m, 2 * m), max(8, m // 2), max(8, m // 3))))
            a.zero_pad(1 / (a.sensors[0].dt * N))
            steps.append(f"pad{N}")
    s = a.sensors[0]
    meta.update(steps=steps, multiple=int(s.multiple), nsamples=int(s.nsamples))
    return a, meta


def make_settings(rng, a, weighting=None, steering=None, vmin=None, vmax=None, transform="fdbf", nvel=None, lo=1, beyond=0.0):
    """Frequencies within the record's Fourier range (above zero), velocities in a plausible range; sometimes frequencies beyond half the sampling rate."""
    s = a.sensors[0]
    nyq, df = 0.5 / s.dt, 1 / (s.nsamples * s.dt)
    fmin = rng.uniform(lo * df, nyq * 0.5)
    fmax = rng.uniform(fmin + 2 * df, min(nyq, fmin + 40 * df * s.multiple))
    if fmax <= fmin:
        fmax = fmin + 3 * df
    if rng.random() < 0.4:
        fmin, fmax = max(lo * df, float(np.round(fmin))), float(np.round(fmax)) + 1
    if rng.random() < beyond:
        fmax = rng.uniform(nyq, 1.9 * nyq)
        fmin = max(lo * df, fmax - rng.uniform(2, 40) * df * s.multiple)
    vmin = float(np.round(rng.uniform(60, 400), 1)) if vmin is None else vmin
    vmax = float(np.round(vmin * rng.uniform(1.3, 6), 1)) if vmax is None else vmax
    return dict(transform=transform, fmin=float(fmin), fmax=float(fmax), vmin=vmin, vmax=vmax,
                nvel=int(rng.integers(2, 25)) if nvel is None else nvel, vspace=choice(rng, ("linear", "log", "lin", "logarithmic")),
                **{"fdbf-specific": dict(weighting=weighting or choice(rng, ("sqrt", "invamp", "none")),
                                         steering=steering or choice(rng, ("cylindrical", "plane")))})


def columns_close(mon, got, want, what, rtol=1e-6, floor=None):
    """Each frequency column to a relative tolerance of its own largest magnitude."""
    got, want = np.asarray(got), np.asarray(want)
    mon.check(got.shape == want.shape, f"{what}: shape", got=got.shape, want=want.shape)
    mon.event("columns_compared", want.shape[1] if want.ndim == 2 else 0)
    mon.check(bool(np.all(np.isfinite(got))), f"{what}: power is not finite")
    scale = np.max(np.abs(want), axis=0)
    if floor is not None:
        scale = np.maximum(scale, floor)
    err = np.max(np.abs(got - want), axis=0)
    bad = np.nonzero(err > rtol * scale)[0]
    if len(bad):
        c = int(bad[0])
        mon.check(False, what, column=c, bad_columns=len(bad), of=want.shape[1], got=got[:, c], want=want[:, c])
    mon.event("oracle_decisions", want.shape[1])


def live(a, freqs):
    """No receiver spectrum is so small at a frequency that its phase is rounding noise (one that is zero throughout has no phase)."""
    s = a.sensors[0]
    m = gens.matrix(a)
    u = np.abs(refs.dft(m[np.any(m != 0, axis=1)], s.dt, freqs))
    return bool(u.size) and np.min(u) > 1e-6 * np.max(u)
