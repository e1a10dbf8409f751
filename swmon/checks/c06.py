"""Array geometry from the positions given; receivers are tagged by unique samples."""
import numpy as np

from swprocess import Array1D, Sensor1C, Source
from .. import gens
from ..gens import choice

RULE = ("a case builds an array from receivers in random order (equal, unequal, negative positions, source anywhere, y and z "
        "offsets) or one that must be refused; non-trivial = at least three receivers given out of order, or a refusal")
REQUIRE = {"arrays": 100, "refusals_checked": 40, "spacings": 30, "spacing_refusals": 20, "dense": 40, "national": 40}


def _sensors(rng, pos, tags, dt=0.001, delay=-0.01, nst=2, n=12):
    out = []
    for x, tag in zip(pos, tags):
        a = np.full(n, float(tag))
        a[1] = -tag
        out.append(Sensor1C(a, dt, float(x), float(tag) / 10, float(tag) / 100, nstacks=nst, delay=delay))
    return out


def geometry(rng, mon):
    nch = gens.channels(rng, 2, 30)
    kind = choice(rng, ("equal", "equal", "unequal", "negative", "geographic", "nearly", "dense", "national"))
    if kind == "dense":                       # laboratory model: receivers centimetres apart
        pos = choice(rng, (0.0, -3.25, 120.5)) + np.round(np.cumsum(rng.uniform(0.004, 0.06, size=nch)), 4)
    elif kind == "national":                  # eastings and northings of a map projection
        pos = choice(rng, (620000.0, 5.4e6, -312345.25, 33500000.0)) + np.round(np.cumsum(rng.uniform(0.2, 4, size=nch)), 2)
    elif kind == "nearly":
        d = choice(rng, (1, 2, 0.5))
        pos = np.arange(nch) * d + rng.uniform(-1, 1, nch) * choice(rng, (1e-4, 1e-3, 3e-3, 0.02, 0.05))
    else:
        pos = gens.positions(rng, nch, kind)
    sx, where = gens.source_x(rng, pos, choice(rng, ("left", "right", "first", "last", "inside")))
    sy = float(choice(rng, (0, 0, 3.5, -7)))
    order = rng.permutation(nch)
    tags = rng.permutation(nch) + 1
    given = _sensors(rng, pos[order], tags)
    as_iterable = choice(rng, (list, tuple))
    src = Source(sx, sy, 1.0)
    a = Array1D(as_iterable(given), src)
    mon.event("arrays")
    mon.event("dense", kind == "dense")
    mon.event("national", kind == "national")
    mon.describe(nontrivial=nch > 2 and not np.all(np.diff(order) > 0), nch=nch, kind=kind, where=where, sx=sx, x=pos, order=order)
    rank = np.argsort(pos[order], kind="stable")
    xs = pos[order][rank]
    mon.check(a.nchannels == nch, "number of receivers", got=a.nchannels, want=nch)
    mon.equal(a.position(), xs, "positions in increasing order")
    for i, s in enumerate(a.sensors):
        tag = tags[rank[i]]
        mon.equal((s.x, s.y, s.z), (xs[i], tag / 10, tag / 100), "position of a receiver")
        mon.check(np.array(s.amplitude)[0] == tag, "a receiver does not hold its own record", got=np.array(s.amplitude)[0], want=tag)
        mon.check(a[i] is s or a[i] == s, "indexing returns the receiver in position order")
    mon.check((a.source.x, a.source.y, a.source.z) == (sx, sy, 1.0), "source of the array")
    span = max(1.0, np.max(np.abs(xs)), abs(sx))
    mon.close(a.offsets, np.abs(xs - sx), "offsets", atol=1e-9 * span)
    mon.close(a.array_center_distance, np.mean(np.abs(xs - sx)), "array centre distance", atol=1e-9 * span)
    mon.close(a.kres, np.pi / np.min(np.diff(xs)), "resolution wavenumber", rtol=1e-9)
    mon.close(a.position(normalize=True), xs - xs[0], "positions relative to the first receiver", atol=1e-9 * span)
    mon.equal(a.position(normalize=False), xs, "positions after asking for relative ones")
    d = np.diff(xs)
    spread = d.max() - d.min()
    if abs(spread - 0.01) > 1e-6:
        if spread < 0.01:
            mon.event("spacings")
            got = a.spacing
            mon.check(abs(got - d.min()) <= 0.0051, "spacing", got=got, want=d.min())
        else:
            mon.event("spacing_refusals")
            mon.raises(ValueError, lambda: a.spacing, "spacing of an unequally spaced array")
    for s, x in zip(given, pos[order]):
        mon.check(s.x == x, "building an array moved a receiver")


def refusal(rng, mon):
    nch = gens.channels(rng, 2, 15)
    pos = gens.positions(rng, nch)
    order = rng.permutation(nch)
    sens = _sensors(rng, pos[order], np.arange(nch) + 1)
    k = int(rng.integers(nch))
    s = sens[k]
    what = choice(rng, ("duplicate", "dt", "delay", "nstacks", "nsamples", "type"))
    amp = np.array(s.amplitude)
    kw = dict(nstacks=2, delay=-0.01)
    if what == "duplicate":
        j = (k + int(rng.integers(1, nch))) % nch
        sens[k] = Sensor1C(amp, 0.001, sens[j].x, s.y, s.z, **kw)
    elif what == "dt":
        sens[k] = Sensor1C(amp, choice(rng, (0.002, 0.0005, 0.00100001)), s.x, s.y, s.z, **kw)
    elif what == "delay":
        sens[k] = Sensor1C(amp, 0.001, s.x, s.y, s.z, nstacks=2, delay=choice(rng, (0, -0.011, -0.02, -0.0101)))
    elif what == "nstacks":
        sens[k] = Sensor1C(amp, 0.001, s.x, s.y, s.z, nstacks=choice(rng, (1, 3, 20)), delay=-0.01)
    elif what == "nsamples":
        sens[k] = Sensor1C(gens.samples(rng, choice(rng, (11, 13, 24))), 0.001, s.x, s.y, s.z, **kw)
    else:
        if k == 0:
            k = nch - 1
        from swprocess import ActiveTimeSeries
        sens[k] = choice(rng, (ActiveTimeSeries(amp, 0.001, **kw), 5.0, None))
    mon.describe(what=what, nch=nch, k=k, x=pos)
    src = Source(-5, 0, 0)
    mon.raises(ValueError, lambda: Array1D(sens, src), f"an array with dissimilar receivers or positions ({what})")


def after_processing(rng, mon):
    """Geometry stays true through trimming, padding, muting and offset limits, and follows a moved source."""
    a, meta = gens.array(rng, nch=gens.channels(rng, 4, 14), where=choice(rng, ("left", "right", "inside")))
    t = np.array(a.sensors[0].time)
    a.trim(float(t[1]), float(t[-2]))
    a.zero_pad(1 / (a.sensors[0].dt * 40))
    off = sorted(a.offsets)
    keep = np.abs(np.array(meta["x"]) - meta["sx"])
    lim = (off[-1] + off[-2]) / 2
    if off[-1] - off[-2] > 1e-6:
        a.trim_offsets(-1, lim)
        xs = np.array(meta["x"])[keep < lim]
    else:
        xs = np.array(meta["x"])
    if rng.random() < 0.5:
        a.source = Source(meta["sx"] - 11.5, 0, 0)
        meta["sx"] -= 11.5
    mon.describe(**meta)
    mon.event("arrays")
    mon.equal(a.position(), xs, "positions after processing")
    span = max(1.0, np.max(np.abs(xs)), abs(meta["sx"]))
    mon.close(a.offsets, np.abs(xs - meta["sx"]), "offsets after processing", atol=1e-9 * span)
    mon.close(a.array_center_distance, np.mean(np.abs(xs - meta["sx"])), "array centre distance after processing", atol=1e-9 * span)
    mon.close(a.kres, np.pi / np.min(np.diff(xs)), "resolution wavenumber after processing", rtol=1e-9)
    mon.close(a.position(normalize=True), xs - xs[0], "relative positions after processing", atol=1e-9 * span)


SCENARIOS = {"geometry": (geometry, 500, 15000), "refusal": (refusal, 200, 5000), "after_processing": (after_processing, 100, 3000)}
