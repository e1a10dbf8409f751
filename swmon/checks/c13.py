"""Beamforming power against the quadratic form evaluated with explicit Fourier sums at the labelled frequencies."""
import numpy as np

from .. import gens, refs, xform
from ..gens import choice

RULE = ("a case beamforms one noise array (source left, right or at the end receiver, equal or unequal spacing, trimmed, padded or "
        "decimated, some receivers without amplitude) with one weighting and steering, or with fk; non-trivial = at least three receivers and two frequencies")
REQUIRE = {"images": 100, "columns_compared": 1000, "fk_images": 20, "decimated": 20, "source_right": 30,
           "sqrt/cylindrical": 10, "sqrt/plane": 10, "invamp/cylindrical": 10, "invamp/plane": 10, "none/cylindrical": 10, "none/plane": 10,
           "dead_receivers": 20, "beyond_half_the_rate": 20}


def _case(rng, mon, kind):
    wt, st = choice(rng, ("sqrt", "invamp", "none")), choice(rng, ("cylindrical", "plane"))
    a, meta = xform.make_array(rng, need_offset=(st == "cylindrical" and kind == "fdbf"), dead=0.2)
    settings = xform.make_settings(rng, a, weighting=wt, steering=st, transform=kind, beyond=0.1)
    if kind == "fk" and rng.random() < 0.3:
        del settings["fdbf-specific"]
    T = xform.transform_class(kind).from_array(a, settings)
    s = a.sensors[0]
    freqs, vels = np.array(T.frequencies), np.array(T.velocities)
    mon.describe(nontrivial=len(freqs) > 1, kind=kind, weighting=wt, steering=st, **meta, settings=settings)
    if len(freqs) == 0 or np.min(freqs) <= 0:
        return
    if wt == "invamp" and not xform.live(a, freqs):
        return
    want = refs.power(kind, gens.matrix(a), s.dt, np.abs(np.array(a.position()) - a.source.x), freqs, vels, wt, st)
    xform.columns_close(mon, T.power, want, f"{kind} power ({wt}, {st})", rtol=1e-6)
    mon.event("images")
    mon.event("beyond_half_the_rate", bool(np.any(freqs > 0.51 / s.dt)))
    mon.event("dead_receivers", bool(meta["dead"]))
    mon.event("source_" + meta["where"])
    mon.event("decimated", meta["multiple"] > 1)
    mon.event("fk_images", kind == "fk")
    if kind == "fdbf":
        mon.event(f"{wt}/{st}")


def fdbf(rng, mon):
    _case(rng, mon, "fdbf")


def fk(rng, mon):
    _case(rng, mon, "fk")


SCENARIOS = {"fdbf": (fdbf, 360, 8000), "fk": (fk, 80, 2000)}
