"""Amplitude matrix and threshold picks recomputed from the receivers' samples with an explicit line fit."""
import numpy as np

from swprocess import Array1D, Sensor1C, Source
from .. import gens, refs
from ..gens import choice

RULE = ("a case asks one array for its matrix in several of the six detrend/normalise combinations, or for first-arrival picks "
        "with default or given thresholds; non-trivial = at least two receivers given out of order with different records")
REQUIRE = {"matrices": 200, "picks": 100, "dead_receivers": 50, "repeated_reads": 100}


def _scale(top):
    """A record without amplitude stays as it is."""
    return np.where(top == 0, 1, top)


def _reference(rows, detrend, norm):
    m = refs.detrend(rows) if detrend else rows.copy()
    if norm == "each":
        m = m / _scale(np.max(np.abs(m), axis=1, keepdims=True))
    elif norm == "all":
        m = m / _scale(np.max(np.abs(m)))
    return m


def matrix(rng, mon):
    a, meta = gens.array(rng, n=gens.length(rng, 3, 90))
    if meta["n"] > 12 and rng.random() < 0.4:
        t = np.array(a.sensors[0].time)
        a.trim(float(t[2]), float(t[-3]))
    if rng.random() < 0.3:
        a.zero_pad(1 / (a.sensors[0].dt * int(rng.integers(4, 2 * meta["n"]))))
    dead = []
    if rng.random() < 0.25:                                   # receivers that recorded nothing
        k = len(a.sensors) if rng.random() < 0.1 else int(rng.integers(1, len(a.sensors) + 1))
        dead = sorted(int(i) for i in rng.choice(len(a.sensors), size=k, replace=False))
        for i in dead:
            a.sensors[i].amplitude[:] = 0
    mon.describe(**meta, dead=dead)
    rows = gens.matrix(a)
    order = np.argsort(meta["x"])
    mon.equal([s.x for s in a.sensors], np.array(meta["x"])[order], "receivers in position order")
    for _ in range(4):
        kw = {}
        if rng.random() < 0.8:
            kw["detrend"] = bool(rng.random() < 0.5)
        if rng.random() < 0.8:
            kw["normalize"] = choice(rng, ("none", "each", "all"))
        base = refs.detrend(rows) if kw.get("detrend") else rows
        small = np.max(np.abs(base), axis=1) < 1e-9 * np.max(np.abs(rows))
        if np.any(small & rows.any(axis=1)):
            continue                                          # a straight line leaves rounding noise only
        got = a.timeseriesmatrix(**kw)
        want = _reference(rows, kw.get("detrend", False), kw.get("normalize", "none"))
        mon.event("matrices")
        mon.event("dead_receivers", bool(dead))
        mon.check(got.shape == want.shape, "shape of the matrix", got=got.shape, want=want.shape)
        for i in range(len(want)):
            tol = 1e-9 * (np.max(np.abs(rows[i])) / _scale(np.max(np.abs(base[i]))))
            mon.close(got[i], want[i], f"row {i} of the matrix ({kw})", rtol=max(1e-8, tol))
        mon.equal(gens.matrix(a), rows, "asking for the matrix modified the records")
        got += 1000.0
        mon.equal(gens.matrix(a), rows, "the records changed with the matrix")
    plain = a.timeseriesmatrix()
    keep = plain.copy()
    a.sensors[0].amplitude[0] += 5
    mon.equal(plain, keep, "the matrix changed with the records")


def again(rng, mon):
    """The matrix is that of the records as they are when it is asked for, whatever happened since it was last asked for."""
    a, meta = gens.array(rng, n=gens.length(rng, 12, 90))
    done = []
    for _ in range(int(rng.integers(2, 6))):
        kw = {}
        if rng.random() < 0.5:
            kw["normalize"] = choice(rng, ("none", "each", "all"))
        rows = gens.matrix(a)
        mon.close(a.timeseriesmatrix(**kw), _reference(rows, False, kw.get("normalize", "none")), f"matrix after {done}", rtol=1e-12)
        mon.event("repeated_reads", bool(done))
        k = int(rng.integers(a.nchannels))
        what = choice(rng, ("sample", "record", "flip", "trim", "pad"))
        if what == "sample":
            a.sensors[k].amplitude[int(rng.integers(a.sensors[k].nsamples))] += 3.5
        elif what == "record":
            a.sensors[k].amplitude[:] = rng.normal(size=a.sensors[k].nsamples)
        elif what == "flip":
            a.sensors[k].amplitude[:] *= -2
        elif what == "trim" and a.sensors[0].nsamples > 8:
            t = np.array(a.sensors[0].time)
            a.trim(float(t[int(rng.integers(0, 3))]), float(t[-1 - int(rng.integers(0, 3))]))
        elif what == "pad":
            a.zero_pad(1 / (a.sensors[0].dt * int(rng.integers(6, 2 * meta["n"]))))
        done.append(what)
    mon.describe(**meta, done=done)


def picks(rng, mon):
    nch, n = gens.channels(rng, 2, 12), gens.length(rng, 20, 150)
    dt = choice(rng, gens.DTS)
    delay = gens.delay_of(rng, dt, n // 2)
    x = gens.positions(rng, nch)
    sens, first = [], []
    quiet = choice(rng, (0.0, 1e-4, 1e-3, 0.01))
    for i in rng.permutation(nch):
        amp = quiet * rng.normal(size=n)
        k = int(rng.integers(11, n - 3))
        m = n - k
        amp[k:] += (rng.uniform(0.3, 1, size=m) * np.exp(-np.arange(m) / 10)) * choice(rng, (-1, 1)) * (-1.0) ** np.arange(m)
        amp = amp * 10 ** rng.uniform(-3, 4) + choice(rng, (0, 0, 1)) * np.linspace(0, rng.normal(), n)
        sens.append(Sensor1C(amp, dt, x[i], 0, 0, delay=delay))
    a = Array1D(sens, Source(x.min() - 3, 0, 0))
    if rng.random() < 0.4:                                    # record that starts elsewhere
        t = np.array(a.sensors[0].time)
        a.trim(float(t[int(rng.integers(0, 8))]), float(t[-1]))
    thr = choice(rng, (None, 0.05, 0.1, 0.02, 0.3, 0.5))
    rows = gens.matrix(a)
    t = np.array(a.sensors[0].time)
    d = refs.detrend(rows)
    d /= np.max(np.abs(d), axis=1, keepdims=True)
    dep = np.abs(d - np.mean(d[:, :10], axis=1, keepdims=True))
    th = 0.05 if thr is None else thr
    over = dep > th
    if not np.all(over.any(axis=1)) or np.min(np.abs(dep - th)) < 1e-7:
        mon.describe(nontrivial=False)
        return
    mon.describe(nch=nch, n=n, dt=dt, delay=a.sensors[0].delay, threshold=thr, quiet=quiet, x=x)
    want = t[np.argmax(over, axis=1)]
    kw = {} if thr is None else dict(threshold=thr)
    if rng.random() < 0.5:
        kw["algorithm"] = "threshold"
    got = a.auto_pick_first_arrivals(**kw)
    mon.event("picks", nch)
    mon.equal(got[0], a.position(), "positions of the picks")
    mon.close(got[1], want, "time of the first sample beyond the threshold", atol=1e-9 * dt, rtol=1e-12)
    mon.equal(gens.matrix(a), rows, "picking modified the records")


SCENARIOS = {"matrix": (matrix, 300, 10000), "again": (again, 100, 3000), "picks": (picks, 300, 10000)}
