"""Copies: equality of every public attribute at the time of copying, then isolation under further processing and
direct writes into exposed arrays, on either side."""
import numpy as np

from swprocess import ActiveTimeSeries, Array1D, Sensor1C, Source
from .. import gens
from ..gens import choice, rec_state

RULE = ("a case builds a record, receiver, source or array, processes it with a random history, copies it (possibly a copy of "
        "a copy), then processes or overwrites one side; non-trivial = the history is not empty")
REQUIRE = {"receivers_alone": 60, "copies": 100, "isolation_checks": 200, "positive_delay_copies": 5, "padded_copies": 10, "lone_receivers": 30}


def _history(rng, objs, n=None):
    """Processing steps that can be applied to records; returns their names. `objs` is records or one array."""
    done = []
    arr = objs if isinstance(objs, Array1D) else None
    recs = list(arr.sensors) if arr is not None else objs
    for _ in range(int(rng.integers(0, 5) if n is None else n)):
        op = choice(rng, ("trim", "trim_late", "pad", "detrend", "stack", "mute") if arr is not None else
                    ("trim", "trim_late", "pad", "detrend", "stack"))
        t = np.atleast_1d(np.array(recs[0].time))
        m = len(t)
        if op in ("trim", "trim_late"):
            if m < 8:
                continue
            i, j = (int(rng.integers(0, 3)), m - 1 - int(rng.integers(0, 3))) if op == "trim" else (int(rng.integers(m // 2, m - 3)), m - 1)
            for r in ([arr] if arr is not None else recs):
                r.trim(float(t[i]), float(t[j]))
        elif op == "pad":
            if m > 300:
                continue
            N = int(choice(rng, (rng.integers(2, 2 * m), max(2, m // 2), m * 2)))
            for r in ([arr] if arr is not None else recs):
                r.zero_pad(1 / (N * recs[0].dt))
        elif op == "detrend":
            if m < 3:
                continue
            for r in recs:
                r.detrend()
        elif op == "stack":
            if recs[0].delay > 0:
                continue
            for r in recs:
                kw = dict(nstacks=int(rng.integers(1, 4)) if arr is None else 2, delay=r.delay)
                new = gens.samples(rng, r.nsamples, "noise")
                r.stack_append(Sensor1C(new, r.dt, r.x, r.y, r.z, **kw) if hasattr(r, "x") else
                               ActiveTimeSeries(new, r.dt, **kw))
        elif op == "mute":
            if m < 10 or arr.nchannels < 2:
                continue
            x = arr.position()
            d = x[-1] - x[0]
            arr.mute(signal_start=((x[0], t[0]), (x[0] + d, t[m // 4])), signal_end=((x[0], t[m // 2]), (x[0] + d, t[-2])))
        done.append(op)
    return done


def _scribble(rng, r):
    """Any later change to a record, including writing into the samples it exposes."""
    how = choice(rng, ("write", "write", "process", "stack"))
    if how == "write":
        a = r.amplitude
        if a.ndim:
            a[int(rng.integers(len(a)))] += 77.0
    elif how == "process":
        _history(rng, [r], n=2)
    else:
        r.detrend() if r.nsamples > 2 else None


def _same(mon, a, b, what, skip=()):
    for k, v in a.items():
        if k in skip or k not in b:
            continue
        mon.equal(b[k], v, f"{what}: {k} differs from the original")


def _count(mon, st):
    mon.event("copies")
    mon.event("positive_delay_copies", st["delay"] > 0)
    mon.event("padded_copies", st["multiple"] > 1)


def record(rng, mon):
    how = choice(rng, ("ats", "sensor", "ats_to_sensor", "ats_of_sensor"))
    n, dt = gens.length(rng, 8, 80), choice(rng, gens.DTS)
    delay = gens.delay_of(rng, dt, n)
    amp, nst = gens.samples(rng, n), int(rng.integers(1, 6))
    xyz = [float(v) for v in np.round(rng.uniform(-9, 9, 3), 3)]
    orig = Sensor1C(amp, dt, *xyz, nstacks=nst, delay=delay) if how in ("sensor", "ats_of_sensor") else \
        ActiveTimeSeries(amp, dt, nstacks=nst, delay=delay)
    hist = _history(rng, [orig])
    st = rec_state(orig)
    if how == "sensor":
        cp = Sensor1C.from_sensor1c(orig)
        mon.equal((cp.x, cp.y, cp.z), xyz, "position of the copy")
    elif how == "ats_to_sensor":
        cp = Sensor1C.from_activetimeseries(orig, *xyz)
        mon.equal((cp.x, cp.y, cp.z), xyz, "position of the receiver made from a record")
    else:
        cp = ActiveTimeSeries.from_activetimeseries(orig)
    if rng.random() < 0.3:
        cp = Sensor1C.from_sensor1c(cp) if hasattr(cp, "x") else ActiveTimeSeries.from_activetimeseries(cp)
    mon.describe(nontrivial=bool(hist), how=how, n=n, dt=dt, delay=delay, history=hist, delay_at_copy=orig.delay, multiple=orig.multiple)
    _count(mon, st)
    sc = rec_state(cp)
    _same(mon, st, sc, "copy")
    if how in ("sensor", "ats"):
        mon.check(bool(cp == orig), "the copy does not compare equal to the original")
    first, second = (orig, cp) if rng.random() < 0.5 else (cp, orig)
    keep = rec_state(second)
    for _ in range(3):
        _scribble(rng, first)
        _same(mon, keep, rec_state(second), "after changing the other side")
        mon.event("isolation_checks")
    keep = rec_state(first)
    _scribble(rng, second)
    _same(mon, keep, rec_state(first), "after changing the other side")


def arrays(rng, mon):
    lone = rng.random() < 0.15
    a, meta = gens.array(rng, nch=1 if lone else None, n=gens.length(rng, 12, 60))
    mon.event("lone_receivers", lone)
    hist = _history(rng, a)
    if rng.random() < 0.3 and a.nchannels > 3:
        off = sorted(a.offsets)
        a.trim_offsets(-1, (off[-1] + off[-2]) / 2)
        hist.append("offsets")
    n = a[0].nsamples
    parts = [k for k in (2, 3, 4, 5, 7, 10) if n % k == 0 and n // k > 1]
    if parts and rng.random() < 0.5:                            # some receivers processed on their own
        for q in a.sensors:
            if rng.random() < 0.5:
                q.zero_pad(choice(rng, parts) / (n * q.dt))
    mon.event("receivers_alone", len({q.multiple for q in a.sensors}) > 1)
    st = gens.arr_state(a)
    cp = Array1D.from_array1d(a)
    if rng.random() < 0.25:
        cp = Array1D.from_array1d(cp)
    mon.describe(nontrivial=bool(hist), history=hist, **meta)
    mon.check(cp.nchannels == a.nchannels, "number of receivers of the copy", got=cp.nchannels, want=a.nchannels)
    mon.check((cp.source.x, cp.source.y, cp.source.z) == st["source"], "source of the copy")
    mon.equal(cp.position(), a.position(), "positions of the copy")
    for i, b in enumerate(st["sensors"]):
        _same(mon, b, rec_state(cp.sensors[i]), f"receiver {i} of the copy")
        _count(mon, b)
    mon.check(bool(cp == a), "the copy does not compare equal to the original")
    first, second = (a, cp) if rng.random() < 0.5 else (cp, a)
    keep = gens.arr_state(second)
    ops = []
    for _ in range(2):
        how = choice(rng, ("process", "write", "source", "drop", "offsets"))
        ops.append(how)
        if how == "process":
            _history(rng, first, n=2)
        elif how == "write":
            v = first.sensors[int(rng.integers(first.nchannels))].amplitude
            if v.ndim:
                v[int(rng.integers(len(v)))] -= 55.0
        elif how == "source":
            first.source = Source(first.source.x + 5, 1.0, 2.0)
        elif how == "drop":
            if first.nchannels > 2:
                first.sensors.pop()
        elif first.nchannels > 3:
            off = sorted(first.offsets)
            if off[-1] > off[0]:
                first.trim_offsets(-1, off[-1])
        now = gens.arr_state(second)
        mon.check(len(now["sensors"]) == len(keep["sensors"]), f"{how} on one array removed receivers of the other")
        mon.check(now["source"] == keep["source"], f"{how} on one array moved the source of the other")
        for x, y in zip(keep["sensors"], now["sensors"]):
            _same(mon, x, y, f"after {how} on the other array")
        mon.event("isolation_checks")


def inputs(rng, mon):
    """A record does not share memory with what it was made from, nor the matrix with the records."""
    n = gens.length(rng, 3, 40)
    dt = choice(rng, gens.DTS)
    amp = rng.normal(size=n).astype(choice(rng, (float, float, np.float32)))
    want = np.array(amp, dtype=float)
    r = Sensor1C(amp, dt, 1, 2, 3) if rng.random() < 0.5 else ActiveTimeSeries(amp, dt)
    mon.describe(n=n, dt=dt, dtype=str(amp.dtype), a0=float(amp[0]))
    mon.equal(r.amplitude, want, "samples of a new record")
    amp[:] = -99
    mon.equal(r.amplitude, want, "a record changed with the array it was made from")
    src = amp.copy()
    r.amplitude[0] = 123.0
    r.detrend()
    mon.equal(amp, src, "an array changed with the record made from it")
    mon.event("isolation_checks", 2)


def sources(rng, mon):
    xyz = [float(v) for v in np.round(rng.uniform(-90, 90, 3), 4)]
    s = Source(*xyz)
    c = Source.from_source(s)
    mon.describe(xyz=xyz)
    mon.event("copies")
    mon.equal((c.x, c.y, c.z), xyz, "position of the copied source")
    mon.check(bool(c == s) and c is not s, "a copied source is a different, equal object")
    c._x = -1.0
    mon.equal((s.x, s.y, s.z), xyz, "changing a copy moved the source")


SCENARIOS = {"record": (record, 600, 20000), "arrays": (arrays, 200, 5000), "inputs": (inputs, 60, 1000),
             "sources": (sources, 30, 500)}
