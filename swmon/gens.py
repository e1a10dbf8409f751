"""Workload generators: records, arrays and field files. Nothing here calls the code under test
except to construct the public objects (Sensor1C, Source, Array1D, ...)."""
import struct

import numpy as np
import obspy
from obspy.core import AttribDict
from obspy.io.segy.segy import SEGYTraceHeader

from .core import Skip
from swprocess import ActiveTimeSeries, Array1D, Sensor1C, Source

DTS = (0.001, 0.0005, 0.002, 0.004, 0.00025, 0.01, 1 / 1024, 0.003)
DTS_US = (1000, 500, 2000, 4000, 250, 125, 3000, 10000)       # microseconds, exact in SU/SEGY headers


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def length(rng, lo, hi):
    """Number of samples: short records mostly, some as long as those of the field."""
    if rng.random() < 0.03:
        return int(choice(rng, (1000, 1024, 2000, 2001, 2048, 4096, rng.integers(700, 4500))))
    return int(rng.integers(lo, hi))


def channels(rng, lo, hi):
    """Number of receivers: few mostly, sometimes a whole spread."""
    return int(choice(rng, (24, 48, 72, 96, rng.integers(20, 120)))) if rng.random() < 0.03 else int(rng.integers(lo, hi))


def stacks(rng, hi=8):
    """Stack count: a few blows mostly, sometimes many."""
    return int(choice(rng, (10, 16, 32, 100, 255, 999))) if rng.random() < 0.05 else int(rng.integers(1, hi))


def samples(rng, n, kind=None):
    """Amplitudes: noise, bursts, trends and constants at very different magnitudes."""
    kind = kind or choice(rng, ("noise", "noise", "burst", "trend", "ints", "big", "small"))
    a = rng.normal(size=n)
    if kind == "burst":
        t0 = rng.uniform(0.1, 0.9) * n
        a = a * 0.05 + 5 * np.exp(-((np.arange(n) - t0) / max(1, n / 15)) ** 2) * np.sin(np.arange(n) * rng.uniform(0.2, 1.5))
    elif kind == "trend":
        a = a + np.linspace(rng.normal() * 20, rng.normal() * 20, n) + rng.normal() * 5
    elif kind == "ints":
        a = np.rint(a * 100)
    elif kind == "big":
        a = a * 1e6
    elif kind == "small":
        a = a * 1e-6
    return a


def delay_of(rng, dt, nmax, allow_zero=True):
    """Pre-trigger delay that is a whole number of samples."""
    k = int(rng.integers(0 if allow_zero else 1, max(2, nmax)))
    return -(k * dt) if k else 0.0


def record(rng, n=None, dt=None, delay=None, nstacks=None, kind=None):
    n = length(rng, 2, 60) if n is None else n
    dt = choice(rng, DTS) if dt is None else dt
    delay = delay_of(rng, dt, max(2, n // 2)) if delay is None else delay
    nstacks = stacks(rng) if nstacks is None else nstacks
    return ActiveTimeSeries(samples(rng, n, kind), dt, nstacks=nstacks, delay=delay)


def positions(rng, n, kind=None):
    kind = kind or choice(rng, ("equal", "equal", "unequal", "unequal", "negative", "geographic", "dense"))
    if kind == "equal":
        return round(float(rng.uniform(-50, 50)), 2) + np.arange(n) * choice(rng, (0.5, 1, 2, 1.5, 5, 0.25))
    x = np.cumsum(rng.uniform(0.3, 6, size=n))
    if kind == "negative":
        x = x - x[-1] * rng.uniform(0.2, 1.2)
    elif kind == "geographic":                                # local, or eastings of a map projection
        x = x + (rng.uniform(-500, 500) if rng.random() < 0.7 else choice(rng, (620000.0, -312345.25, 1934567.5)))
    elif kind == "dense":                                     # centimetres apart
        x = x / 100
    return np.round(x, 3)


def source_x(rng, pos, where=None):
    """Source outside the array on either side, at an end receiver, or inside."""
    where = where or choice(rng, ("left", "right", "left", "right", "first", "last"))
    lo, hi = float(min(pos)), float(max(pos))
    gap = round(float(rng.uniform(0.5, 30)), 2)
    return {"left": lo - gap, "right": hi + gap, "first": lo, "last": hi,
            "inside": round(float(rng.uniform(lo, hi)), 2)}[where], where


def array(rng, nch=None, n=None, dt=None, delay=None, nstacks=None, pos=None, where=None, kind=None, y=None,
          shuffle=True):
    nch = channels(rng, 2, 13) if nch is None else nch
    n = length(rng, 20, 80) if n is None else n
    dt = choice(rng, DTS) if dt is None else dt
    delay = delay_of(rng, dt, n // 3) if delay is None else delay
    nstacks = stacks(rng, 6) if nstacks is None else nstacks
    pos = positions(rng, nch) if pos is None else np.asarray(pos, float)
    sx, where = source_x(rng, pos, where)
    sensors = []
    order = rng.permutation(nch) if shuffle else range(nch)
    amps = [samples(rng, n, kind) for _ in range(nch)]
    for i in order:
        sensors.append(Sensor1C(amps[i], dt, float(pos[i]), 0.0 if y is None else y[i], 0.0, nstacks=nstacks, delay=delay))
    arr = Array1D(sensors, Source(sx, 0.0, 0.0))
    meta = dict(nch=nch, n=n, dt=dt, delay=delay, nstacks=nstacks, where=where, x=[float(v) for v in pos], sx=sx)
    return arr, meta


def matrix(arr):
    """Samples as held by the receivers, read one by one through the public accessor."""
    return np.array([np.array(s.amplitude, dtype=float) for s in arr.sensors])


def rec_state(r):
    st = dict(amplitude=np.array(r.amplitude), time=np.array(r.time), dt=r.dt, delay=r.delay,
              nstacks=r.nstacks, nsamples=r.nsamples, df=r.df, multiple=r.multiple)
    for a in "xyz":
        if hasattr(r, a):
            st[a] = getattr(r, a)
    return st


def arr_state(a):
    return dict(sensors=[rec_state(s) for s in a.sensors], source=(a.source.x, a.source.y, a.source.z))


# -- field files -----------------------------------------------------------------------------
def detectable(size):
    """obspy's search for SEGY headers can fail on other files of this size in bytes, depending on their samples."""
    return not 3200 <= size <= 3520


def as_written(fname, fmt):
    """obspy tells formats apart by a few header bytes; a draw whose samples imitate another format is dropped."""
    try:
        found = {tr.stats._format for tr in obspy.read(str(fname), headonly=True)}
    except Exception:
        found = None
    if found != {fmt}:
        raise Skip(f"obspy takes the {fmt} file for {found}")
    return str(fname)


STACK_KEY = "number_of_horizontally_stacked_traces_yielding_this_trace"


def write_segy_like(fname, fmt, amps, dt_us, gx, gy, sx, sy, scalar=-1000, delay_ms=0, nstacks=1, units=1):
    """SU or SEGY file from raw header integers; scalars may be given per trace."""
    st = obspy.Stream()
    n = len(amps)

    def per(v, i):
        return int(v[i]) if isinstance(v, (list, tuple, np.ndarray)) else int(v)
    for i in range(n):
        tr = obspy.Trace(np.array(amps[i], dtype=np.float32))
        tr.stats.delta = dt_us * 1e-6
        tr.stats.starttime = obspy.UTCDateTime(2020, 12, 18, 10, 0, 0)
        h = SEGYTraceHeader()
        h.scalar_to_be_applied_to_all_coordinates = per(scalar, i)
        h.source_coordinate_x, h.source_coordinate_y = per(sx, i), per(sy, i)
        h.group_coordinate_x, h.group_coordinate_y = per(gx, i), per(gy, i)
        setattr(h, STACK_KEY, per(nstacks, i))
        h.delay_recording_time = per(delay_ms, i)
        h.coordinate_units = per(units, i)
        key = "su" if fmt == "SU" else "segy"
        tr.stats[key] = AttribDict()
        tr.stats[key].trace_header = h
        st.append(tr)
    if fmt == "SU" and not detectable(n * (240 + 4 * len(amps[0]))):
        raise Skip("file size")
    if fmt == "SU":
        st.write(str(fname), format="SU", byteorder="<")
    else:
        st.write(str(fname), format="SEGY", data_encoding=5, byteorder=">")
    return as_written(fname, fmt)


def write_seg2(fname, amps, dt, rx, sx, delay=0.0, stack=1, omit=(), integer=False):
    """Minimal SEG2 revision-1 file: 32-bit float traces with string descriptors."""
    def strings(pairs):
        out = b""
        for k, v in pairs:
            txt = f"{k} {v}".encode() + b"\x00"
            out += struct.pack("<H", len(txt) + 2) + txt
        return out + struct.pack("<H", 0)
    n = len(amps)
    filestr = strings([("ACQUISITION_DATE", "18/Dec/2020"), ("ACQUISITION_TIME", "10:00:00"), ("UNITS", "METERS")])
    mlen = 4 * n
    head = struct.pack("<HHHHBccBcc18s", 0x3a55, 1, mlen, n, 1, b"\x00", b"\x00", 1, b"\n", b"\x00", b"\x00" * 18)
    assert len(head) == 32
    blocks = []
    for i in range(n):
        pairs = [("SAMPLE_INTERVAL", repr(float(dt))), ("DELAY", repr(float(delay))), ("STACK", int(stack)),
                 ("RECEIVER_LOCATION", repr(float(rx[i]))), ("SOURCE_LOCATION", repr(float(sx))),
                 ("CHANNEL_NUMBER", i + 1)]
        pairs = sorted((p for p in pairs if p[0] not in omit), key=lambda p: p[0])
        s = strings(pairs)
        size = 32 + len(s)
        pad = (-size) % 4
        s += b"\x00" * pad
        size += pad
        data = np.asarray(amps[i], dtype="<i4" if integer else "<f4").tobytes()
        blk = struct.pack("<HHIIB19s", 0x4422, size, len(data), len(amps[i]), 2 if integer else 4, b"\x00" * 19) + s + data
        blocks.append(blk)
    start = 32 + mlen + len(filestr)
    start += (-start) % 4
    ptrs, body, off = b"", b"", start
    for b in blocks:
        ptrs += struct.pack("<I", off)
        body += b
        off += len(b)
    front = head + ptrs + filestr
    front += b"\x00" * (start - len(front))
    with open(fname, "wb") as f:
        f.write(front + body)
    return as_written(fname, "SEG2")


def field_file(rng, fname, amps, dt_us, x, sx, y=None, sy=0.0, delay_ms=0, nstacks=1, fmt="SU", order=None):
    """File with positions to a millimetre, traces in the given order."""
    n = len(amps)
    order = list(range(n)) if order is None else list(order)
    y = [0.0] * n if y is None else y
    mm = lambda v: int(round(float(v) * 1000))
    return write_segy_like(fname, fmt, [amps[i] for i in order], dt_us, [mm(x[i]) for i in order], [mm(y[i]) for i in order],
                           mm(sx), mm(sy), delay_ms=delay_ms,
                           nstacks=[nstacks[i] for i in order] if isinstance(nstacks, (list, tuple)) else nstacks)


def f32(a):
    return np.asarray(a, dtype=np.float32).astype(float)
