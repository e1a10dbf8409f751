"""Header decoding: files are written from raw header integers (SU, SEGY) or strings (own SEG2 writer)."""
import numpy as np
import obspy

from swprocess import ActiveTimeSeries, Array1D, Sensor1C
from .. import field, gens
from ..core import Skip
from ..gens import choice

RULE = ("a case writes one SU, SEGY or SEG2 file from raw header values (coordinate scalars of either sign and unset, scalars "
        "differing per trace, unset stack counts, delays, traces in any order) and decodes it with or without coordinate mappings; "
        "non-trivial = a scalar other than one, a delay, a stack count or a mapping takes part, or a refusal")
REQUIRE = {"files:SU": 60, "files:SEGY": 60, "files:SEG2": 30, "refusals_checked": 15, "mapped": 60, "positive_scalar": 30,
           "unset_scalar": 10, "unset_stacks": 10, "single_traces": 60, "incomplete_seg2": 20}

SCALARS = (-1, -10, -100, -1000, -10000, 0, 1, 10, 100, 1000, 10000)


def _value(i, s):
    if s == 0:
        return float(i)
    return i / abs(s) if s < 0 else float(i * s)


MAPS = {"identity": (lambda v: v), "shift": (lambda v: v + 1250.5), "scale": (lambda v: v * 0.3048), "mirror": (lambda v: 10.0 - v),
        "affine": (lambda v: 3.0 * v - 7.25)}


def _read(rng, mon, fname, mx, my):
    kw = {}
    if mx != "identity" or rng.random() < 0.2:
        kw["map_x"] = MAPS[mx]
    if my != "identity" or rng.random() < 0.2:
        kw["map_y"] = MAPS[my]
    mon.event("mapped", mx != "identity" or my != "identity")
    return Array1D.from_files(choice(rng, (fname, [fname], (fname,))), **kw)


def _verify(mon, a, amps, dt, x, y, src, delay, nst):
    order = np.argsort(x)
    span = max(1.0, np.max(np.abs(x)), np.max(np.abs(y)), abs(src[0]), abs(src[1]))
    mon.check(a.nchannels == len(x), "number of receivers", got=a.nchannels, want=len(x))
    for s, i in zip(a.sensors, order):
        mon.check(abs(s.x - x[i]) <= 1e-9 * span, "receiver x", got=s.x, want=x[i])
        mon.check(abs(s.y - y[i]) <= 1e-9 * span, "receiver y", got=s.y, want=y[i])
        mon.equal(s.amplitude, gens.f32(amps[i]), "samples of the receiver at this position")
        mon.check(abs(s.dt - dt) <= 1e-7 * dt, "time step", got=s.dt, want=dt)
        mon.check(s.nstacks == nst, "stack count", got=s.nstacks, want=nst)
        mon.check(abs(s.delay - delay) <= 1e-9, "delay", got=s.delay, want=delay)
    mon.check(abs(a.source.x - src[0]) <= 1e-9 * span, "source x", got=a.source.x, want=src[0])
    mon.check(abs(a.source.y - src[1]) <= 1e-9 * span, "source y", got=a.source.y, want=src[1])


def _ints(rng, nch, scalar, distinct=True):
    top = {10000: 200, 1000: 2000, 100: 20000}.get(scalar, 2000000)
    lo = -top if rng.random() < 0.5 else 0
    v = rng.choice(np.arange(lo, top, max(1, top // 5000)), size=nch, replace=False) + int(rng.integers(0, 3))
    return [int(i) for i in v]


def segy(rng, mon):
    fmt = choice(rng, ("SU", "SEGY"))
    nch, n = gens.channels(rng, 2, 12), gens.length(rng, 10, 60)
    dt_us = choice(rng, gens.DTS_US)
    per_trace = rng.random() < 0.25
    amps = [gens.samples(rng, n) for _ in range(nch)]
    if per_trace:                                             # same physical source, every trace its own scalar
        sc = [int(choice(rng, (-1, -10, -100, 0, 1))) for _ in range(nch)]
        gx = _ints(rng, nch, 1)
        gx = [1000 * i + int(rng.integers(0, 500)) * 0 + i for i in range(nch)]
        x = [_value(g, s) for g, s in zip(gx, sc)]
        if len(set(x)) < nch:
            mon.describe(nontrivial=False)
            return
        gy = [int(v) for v in rng.integers(-5000, 5000, nch)]
        px, py = int(rng.integers(-90, 90)) * 2, int(rng.integers(-90, 90))
        mul = [abs(s) if s < 0 else 1 for s in sc]
        sx, sy = [px * m for m in mul], [py * m for m in mul]
        src = (float(px), float(py))
        y = [_value(g, s) for g, s in zip(gy, sc)]
    else:
        sc = int(choice(rng, SCALARS))
        gx, gy = _ints(rng, nch, sc), [int(v) for v in rng.integers(-2000, 2000, nch)]
        sx, sy = _ints(rng, 1, sc)[0], int(rng.integers(-2000, 2000))
        x, y = [_value(g, sc) for g in gx], [_value(g, sc) for g in gy]
        src = (_value(sx, sc), _value(sy, sc))
        mon.event("positive_scalar", sc > 1)
        mon.event("unset_scalar", sc == 0)
    delay_ms = int(choice(rng, (0, 0, -1, -5, -100, -500, -2000)))
    nst = int(choice(rng, (0, 1, 1, 2, 7, 30, 1000)))
    units = int(choice(rng, (0, 1, 1)))
    mon.event("unset_stacks", nst == 0)
    mx, my = choice(rng, list(MAPS)), choice(rng, list(MAPS))
    f = gens.write_segy_like(mon.scratch() / ("f." + fmt.lower()), fmt, amps, dt_us, gx, gy, sx, sy, scalar=sc, delay_ms=delay_ms,
                             nstacks=nst, units=units)
    mon.event("files:" + fmt)
    mon.describe(nontrivial=sc != 1 or delay_ms != 0 or nst != 1 or mx != "identity", fmt=fmt, scalar=sc, gx=gx, gy=gy, sx=sx, sy=sy,
                 delay_ms=delay_ms, nstacks=nst, units=units, mx=mx, my=my, dt_us=dt_us, n=n)
    a = _read(rng, mon, f, mx, my)
    _verify(mon, a, amps, dt_us * 1e-6, [MAPS[mx](v) for v in x], [MAPS[my](v) for v in y],
            (MAPS[mx](src[0]), MAPS[my](src[1])), delay_ms / 1000, max(1, nst))


def seg2(rng, mon):
    nch, n = gens.channels(rng, 2, 12), gens.length(rng, 10, 60)
    dt = choice(rng, (0.001, 0.0005, 0.00025, 0.002, 0.000125))
    amps = [gens.samples(rng, n) for _ in range(nch)]
    x = [float(v) for v in rng.permutation(gens.positions(rng, nch))]
    sx = float(np.round(rng.uniform(-60, 60), 2))
    delay = float(choice(rng, (0.0, -0.1, -0.5, -0.0125, -1.0)))
    nst = int(choice(rng, (1, 2, 5, 12)))
    mx, my = choice(rng, list(MAPS)), choice(rng, list(MAPS))
    omit = choice(rng, ((), (), ("STACK",), ("DELAY",), ("STACK", "DELAY")))      # unset: one shot, no delay
    f = gens.write_seg2(str(mon.scratch() / "f.dat"), amps, dt, x, sx, delay=delay, stack=nst, omit=omit)
    nst, delay = (1 if "STACK" in omit else nst), (0.0 if "DELAY" in omit else delay)
    mon.event("files:SEG2")
    mon.event("incomplete_seg2", bool(omit))
    mon.describe(fmt="SEG2", x=x, sx=sx, delay=delay, nstacks=nst, mx=mx, my=my, dt=dt, n=n)
    a = _read(rng, mon, f, mx, my)
    _verify(mon, a, amps, dt, [MAPS[mx](v) for v in x], [MAPS[my](0.0)] * nch, (MAPS[mx](sx), MAPS[my](0.0)), delay, nst)


def units(rng, mon):
    fmt = choice(rng, ("SU", "SEGY"))
    nch, n = int(rng.integers(2, 8)), 20
    amps = [gens.samples(rng, n) for _ in range(nch)]
    u = int(choice(rng, (2, 3, 4, 2)))
    sc = int(choice(rng, (-1000, -1, 0, 10)))
    gx = [int(v) for v in rng.choice(5000, nch, replace=False)]
    nf = int(choice(rng, (1, 1, 2)))
    d = mon.scratch()
    files = []
    for k in range(nf):
        files.append(gens.write_segy_like(d / f"u{k}.{fmt.lower()}", fmt, amps, 1000, gx, [0] * nch, -500, 0, scalar=sc,
                                          units=u if k == nf - 1 else 1))
    mon.describe(fmt=fmt, units=u, scalar=sc, gx=gx, nfiles=nf)
    mon.raises(ValueError, lambda: Array1D.from_files(files), f"coordinate units {u} in a {fmt} file")


def traces(rng, mon):
    """Records and receivers made from single traces, with and without their headers."""
    fmt = choice(rng, ("SU", "SEGY", "SEG2"))
    nch, n = int(rng.integers(1, 5)), int(rng.integers(10, 50))
    dt_us = choice(rng, (1000, 500, 2000, 4000))
    amps = [gens.samples(rng, n) for _ in range(nch)]
    x = [float(v) for v in np.round(rng.permutation(gens.positions(rng, nch)), 3)]
    y = [float(v) for v in np.round(rng.normal(size=nch) * choice(rng, (0, 20)), 3)]
    delay_ms, nst = int(choice(rng, (0, -4, -100, -2000))), int(choice(rng, (1, 2, 7)))
    f = mon.scratch() / ("f." + fmt.lower())
    if fmt == "SEG2":
        y = [0.0] * nch
        gens.write_seg2(str(f), amps, dt_us * 1e-6, x, -5.0, delay=delay_ms / 1000, stack=nst)
    else:
        gens.field_file(rng, f, amps, dt_us, x, -5.0, y=y, delay_ms=delay_ms, nstacks=nst, fmt=fmt)
    kw = dict(unpack_trace_headers=True) if fmt != "SEG2" else {}
    for tr, a, xi, yi in zip(obspy.read(str(f), **kw), amps, x, y):
        data = np.array(tr.data)
        mx, my = choice(rng, list(MAPS)), choice(rng, list(MAPS))
        how = choice(rng, ({}, dict(format=fmt), dict(format=fmt.lower())))
        s = Sensor1C.from_trace(tr, map_x=MAPS[mx], map_y=MAPS[my], **how)
        _record(mon, s, a, dt_us * 1e-6, delay_ms / 1000, nst)
        mon.check(abs(s.x - MAPS[mx](xi)) < 1e-9 * (1 + abs(s.x)) and abs(s.y - MAPS[my](yi)) < 1e-9 * (1 + abs(s.y)) and s.z == 0, "position of a receiver made from a trace",
                  got=(s.x, s.y, s.z), want=(MAPS[mx](xi), MAPS[my](yi), 0))
        given = dict(nstacks=int(rng.integers(1, 9)), delay=float(choice(rng, (0.0, -0.25))))
        pos = dict(x=float(rng.normal()), y=float(rng.normal()), z=float(rng.normal()))
        s = Sensor1C.from_trace(tr, read_header=False, **given, **pos)
        _record(mon, s, a, dt_us * 1e-6, given["delay"], given["nstacks"])
        mon.check((s.x, s.y, s.z) == tuple(pos.values()), "position given for a trace", got=(s.x, s.y, s.z), want=pos)
        r = ActiveTimeSeries.from_trace(tr, **given)
        _record(mon, r, a, dt_us * 1e-6, given["delay"], given["nstacks"])
        _record(mon, ActiveTimeSeries.from_trace(tr), a, dt_us * 1e-6, 0.0, 1)
        if fmt == "SEG2":
            _record(mon, ActiveTimeSeries.from_trace_seg2(tr), a, dt_us * 1e-6, delay_ms / 1000, nst)
        mon.equal(np.array(tr.data), data, "the trace itself")
        tr.data[:] = 0                                         # nothing is shared with the trace
        mon.check(bool(np.any(s.amplitude)) and bool(np.any(r.amplitude)), "a record changed with the trace it was made from")
        mon.event("single_traces")
    tr.stats._format = choice(rng, ("MSEED", "GSE2", "SAC"))
    mon.raises(NotImplementedError, lambda: Sensor1C.from_trace(tr), "header of another format")
    mon.describe(fmt=fmt, x=x, y=y, delay_ms=delay_ms, nstacks=nst, dt_us=dt_us, n=n)


def recorded(rng, mon):
    """Recordings that ship with the repository, decoded from their bytes by another reader."""
    shots = [s for g in field.groups(long=mon.tier != "quick") for s in g]
    if not shots:
        raise Skip("no recordings on disk")
    s = shots[int(rng.integers(len(shots)))]
    mx, my = choice(rng, list(MAPS)), choice(rng, list(MAPS))
    mon.describe(nontrivial=True, file=s.file, mx=mx, my=my)
    a = _read(rng, mon, s.file, mx, my)
    _verify(mon, a, s.rows, s.dt, [MAPS[mx](v) for v in s.x], [MAPS[my](0.0)] * len(s.x), (MAPS[mx](s.sx), MAPS[my](0.0)), s.delay, s.stack)
    mon.event("recordings")


def _record(mon, s, a, dt, delay, nst):
    mon.equal(np.array(s.amplitude, float), gens.f32(a), "samples of a record made from a trace")
    mon.check(abs(s.dt - dt) <= 1e-7 * dt and abs(s.delay - delay) < 1e-9 and s.nstacks == nst, "time step, delay or stack count of a record made from a trace",
              got=(s.dt, s.delay, s.nstacks), want=(dt, delay, nst))


SCENARIOS = {"recorded": (recorded, 10, 200), "traces": (traces, 60, 1500), "segy": (segy, 300, 8000), "seg2": (seg2, 90, 2500), "units": (units, 40, 500)}
