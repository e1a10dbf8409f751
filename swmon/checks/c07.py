"""Offset limits: the kept receivers are recomputed from positions; limits include exact offsets."""
import numpy as np

from swprocess import Array1D, Sensor1C, Source
from .. import gens
from ..gens import choice, arr_state

RULE = ("a case restricts an array to one or several ranges of offsets, with limits on, just beside and between receiver "
        "offsets, or to an empty range; non-trivial = some but not all receivers are removed, or a refusal is observed")
REQUIRE = {"restrictions": 100, "refusals_checked": 30, "limits_on_a_receiver": 20, "source_right": 20, "source_inside": 20}


def _array(rng):
    nch = int(rng.integers(1, 16)) if rng.random() < 0.1 else int(rng.integers(3, 16))
    pos = np.sort(rng.choice(np.arange(-60, 60), size=nch, replace=False)).astype(float)   # exact arithmetic
    if rng.random() < 0.3:
        pos = pos + choice(rng, (0.5, 0.25, 0.125))
    where = choice(rng, ("left", "right", "inside", "first", "last"))
    sx = {"left": pos[0] - int(rng.integers(1, 40)), "right": pos[-1] + int(rng.integers(1, 40)),
          "inside": float(rng.integers(int(pos[0]), int(pos[-1]) + 1)), "first": pos[0], "last": pos[-1]}[where]
    sens = []
    for i in rng.permutation(nch):
        a = rng.normal(size=8)
        a[0] = i
        sens.append(Sensor1C(a, 0.002, pos[i], 0, 0, nstacks=1 + 2, delay=-0.004))
    return Array1D(sens, Source(sx, 0, 0)), pos, sx, where


def _limits(rng, off):
    def one():
        v = choice(rng, sorted(off))
        return v + choice(rng, (0, 0, 1e-9 * max(1, v), -1e-9 * max(1, v), 0.5, -0.5, 0.1))
    lo = choice(rng, (0, 0.0, -1.0, one(), one()))
    hi = choice(rng, (np.inf, one(), one(), float(max(off)) + 3))
    return float(lo), float(hi)


def restrict(rng, mon):
    a, pos, sx, where = _array(rng)
    log = []
    mon.event("source_" + where)
    removed = False
    for _ in range(int(rng.integers(1, 4))):
        off = np.abs(pos - sx)
        lo, hi = _limits(rng, off)
        keep = (off > lo) & (off < hi)
        mon.event("limits_on_a_receiver", bool(np.any(off == lo) or np.any(off == hi)))
        before = arr_state(a)
        log.append((lo, hi, int(keep.sum())))
        if not keep.any():
            mon.raises(ValueError, lambda: a.trim_offsets(lo, hi), "removing every receiver")
            after = arr_state(a)
            mon.check(len(after["sensors"]) == len(before["sensors"]), "a refused restriction removed receivers")
            idx = np.arange(len(pos))
        else:
            a.trim_offsets(lo, hi)
            after = arr_state(a)
            idx = np.nonzero(keep)[0]
            removed = removed or not keep.all()
        mon.event("restrictions")
        mon.check(after["source"] == before["source"], "restricting offsets moved the source")
        mon.equal(a.position(), pos[idx], "receivers kept")
        mon.check(a.nchannels == len(idx), "number of receivers kept")
        for s, i in zip(after["sensors"], idx):
            for k, v in before["sensors"][i].items():
                mon.equal(s[k], v, f"{k} of a kept receiver")
        mon.close(a.offsets, np.abs(pos[idx] - sx), "offsets of the kept receivers", atol=1e-9)
        pos = pos[idx]
    mon.describe(nontrivial=removed, where=where, sx=sx, x=pos, limits=log)


def floats(rng, mon):
    """Arbitrary positions, limits away from any receiver; integer limits as users give them."""
    a, meta = gens.array(rng, nch=gens.channels(rng, 3, 25), where=choice(rng, ("left", "right", "inside", "first", "last")), n=20)
    pos = np.sort(meta["x"])
    off = np.abs(pos - meta["sx"])
    lo, hi = sorted(rng.uniform(-5, off.max() + 5, size=2))
    if rng.random() < 0.4:
        lo, hi = int(lo), int(hi)
    if rng.random() < 0.2:
        hi = np.inf
    if min(np.min(np.abs(off - lo)), np.min(np.abs(off - hi)) if np.isfinite(hi) else 1) < 1e-6:
        mon.describe(nontrivial=False)
        return
    keep = (off > lo) & (off < hi)
    mon.describe(nontrivial=0 < keep.sum() < len(pos), lo=lo, hi=hi, **meta)
    mon.event("source_" + meta["where"])
    before = arr_state(a)
    if keep.any():
        a.trim_offsets(lo, hi)
        mon.event("restrictions")
        mon.equal(a.position(), pos[keep], "receivers kept")
        for s, i in zip(a.sensors, np.nonzero(keep)[0]):
            mon.equal(s.amplitude, before["sensors"][i]["amplitude"], "record of a kept receiver")
    else:
        mon.raises(ValueError, lambda: a.trim_offsets(lo, hi), "removing every receiver")
        mon.equal(a.position(), pos, "a refused restriction removed receivers")


SCENARIOS = {"restrict": (restrict, 600, 20000), "floats": (floats, 300, 8000)}
