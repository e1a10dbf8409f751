"""SU round trip: array state before writing against the array read back; an audit hook watches the file system."""
import os

import numpy as np

from swprocess import Array1D, Sensor1C, Source
from .. import gens
from ..core import FsMonitor, Skip
from ..gens import choice, arr_state

RULE = ("a case writes an array (random positions to and below a millimetre, y offsets, delays, stack counts, processing history) "
        "to SU and reads it back, or asks for another file type; non-trivial = more than one receiver and a non-zero delay, "
        "y position or stack count above one, or a refusal")
REQUIRE = {"round_trips": 100, "refusals_checked": 10, "delayed": 50, "many_stacks": 50}


def _array(rng):
    nch = gens.channels(rng, 2, 16)
    n = gens.length(rng, 10, 200)
    dt_us = choice(rng, gens.DTS_US)
    dt = dt_us * 1e-6
    scale = choice(rng, (1, 1, 10, 1000, 100000))
    pos = np.cumsum(rng.uniform(0.2, 5, nch)) * choice(rng, (1, 1, 10)) + rng.uniform(-2, 2) * scale
    pos = np.round(pos, choice(rng, (0, 1, 2, 3, 3, 6)))
    if len(np.unique(np.round(pos, 3))) < nch or np.min(np.diff(np.sort(pos))) < 0.002:
        pos = np.arange(nch) * 1.5 - 3.25
    y = np.round(rng.uniform(-50, 50, nch), choice(rng, (2, 3, 5))) if rng.random() < 0.5 else np.zeros(nch)
    delay = gens.delay_of(rng, dt, min(n, int(32 / dt)))      # milliseconds fit 16 bits
    nst = int(choice(rng, (1, 2, 5, 11, 300, 32767)))
    sx, where = gens.source_x(rng, pos)
    sy = float(np.round(rng.uniform(-30, 30), 3)) if rng.random() < 0.5 else 0.0
    sens = [Sensor1C(gens.samples(rng, n), dt, pos[i], y[i], 0, nstacks=nst, delay=delay) for i in rng.permutation(nch)]
    hist = []
    a = Array1D(sens, Source(sx, sy, 0))
    if rng.random() < 0.3 and delay < 0:
        t = np.array(a.sensors[0].time)
        i = int(rng.integers(0, min(int(round(-delay / dt)), n - 5) + 1))
        a.trim(float(t[i]), float(t[-2]))
        hist.append("trim")
    if rng.random() < 0.3:
        a.zero_pad(1 / (dt * int(rng.integers(5, 300))))
        hist.append("pad")
    if rng.random() < 0.2:
        for s in a.sensors:
            s.detrend()
        hist.append("detrend")
    if not gens.detectable(nch * (240 + 4 * a.sensors[0].nsamples)):
        raise Skip("file size")
    return a, dict(nch=nch, n=n, dt=dt, delay=delay, nstacks=nst, hist=hist, x=pos, y=y, sx=sx, sy=sy)


def roundtrip(rng, mon):
    a, meta = _array(rng)
    mon.describe(nontrivial=meta["delay"] != 0 or meta["nstacks"] > 1 or bool(np.any(meta["y"])), **meta)
    d = mon.scratch()
    fname = str(d / choice(rng, ("shot.su", "shot", "a b.SU", "x.dat")))
    if rng.random() < 0.2:
        a2, _ = _array(rng)
        a2.to_file(fname)                                     # an existing file is replaced
    before = arr_state(a)
    with FsMonitor() as fs:
        a.to_file(fname) if rng.random() < 0.5 else a.to_file(fname, ftype="su")
    extra = [p for p in fs["written"] if p != fname and not p.startswith("/dev/")]
    mon.check(not extra and not fs["other"], "writing touched something other than the named file", got=extra + fs["other"])
    mon.check(os.listdir(d) == [os.path.basename(fname)], "writing left other files", got=os.listdir(d))
    _same(mon, before, arr_state(a), "writing modified the array")
    b = Array1D.from_files(fname if rng.random() < 0.5 else [fname])
    mon.event("round_trips")
    mon.event("delayed", meta["delay"] < 0)
    mon.event("many_stacks", meta["nstacks"] > 1)
    mon.check(b.nchannels == len(before["sensors"]), "number of receivers read back", got=b.nchannels, want=len(before["sensors"]))
    tol = 0.0005001
    for i, (s, w) in enumerate(zip(b.sensors, before["sensors"])):
        mon.equal(s.amplitude, gens.f32(w["amplitude"]), f"samples of receiver {i} to single precision")
        mon.check(abs(s.dt - w["dt"]) <= 1e-9 * w["dt"], "time step", got=s.dt, want=w["dt"])
        mon.check(abs(s.delay - w["delay"]) <= tol, "delay to a millisecond", got=s.delay, want=w["delay"])
        mon.check(s.nstacks == w["nstacks"], "stack count", got=s.nstacks, want=w["nstacks"])
        mon.check(abs(s.x - w["x"]) <= tol and abs(s.y - w["y"]) <= tol, "receiver position to a millimetre", got=(s.x, s.y), want=(w["x"], w["y"]))
    sx, sy, _ = before["source"]
    mon.check(abs(b.source.x - sx) <= tol and abs(b.source.y - sy) <= tol, "source position to a millimetre",
              got=(b.source.x, b.source.y), want=(sx, sy))
    b.to_file(fname)                                          # what was read can be written and read again, unchanged
    c = Array1D.from_files(fname)
    _same(mon, arr_state(b), arr_state(c), "a second round trip changed the array", tol=1e-9)


def _same(mon, x, y, what, tol=0.0):
    mon.check(len(x["sensors"]) == len(y["sensors"]), what)
    mon.close(y["source"], x["source"], what + ": source", rtol=tol, atol=tol)
    for p, q in zip(x["sensors"], y["sensors"]):
        for k in p:
            if tol and k in ("multiple", "df", "z"):
                continue
            mon.close(np.asarray(q[k], float), np.asarray(p[k], float), f"{what}: {k}", rtol=tol, atol=tol)


def refusal(rng, mon):
    a, meta = _array(rng)
    ftype = choice(rng, ("segy", "sg2", "SEG2", "seg2", "mseed", "", "csv", "hdf5"))
    mon.describe(ftype=ftype, **meta)
    d = mon.scratch()
    before = arr_state(a)
    with FsMonitor() as fs:
        mon.raises(ValueError, lambda: a.to_file(str(d / "shot.out"), ftype=ftype), f"writing a file of type {ftype!r}")
    mon.check(os.listdir(d) == [] and not fs["written"], "a refused write left a file", got=os.listdir(d))
    _same(mon, before, arr_state(a), "a refused write modified the array")


SCENARIOS = {"roundtrip": (roundtrip, 250, 6000), "refusal": (refusal, 40, 400)}
