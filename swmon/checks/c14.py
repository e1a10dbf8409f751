"""Phase-shift power against an explicit trapezoidal sum of normalised Fourier coefficients at the labelled frequencies."""
import numpy as np

from swprocess import Array1D, Sensor1C
from .. import gens, refs, xform
from ..gens import choice

RULE = ("a case transforms one noise array (either source side, unequal spacing, trimmed, padded, decimated, some receivers without amplitude), optionally with every "
        "trace rescaled by its own positive factor; non-trivial = at least three receivers and two frequencies")
REQUIRE = {"images": 100, "columns_compared": 1000, "decimated": 20, "source_right": 30, "rescaled": 30, "dead_receivers": 20, "beyond_half_the_rate": 20}


def image(rng, mon):
    a, meta = xform.make_array(rng, dead=0.2)
    settings = xform.make_settings(rng, a, transform="phaseshift", lo=0 if rng.random() < 0.3 else 1, beyond=0.1)
    T = xform.transform_class("phaseshift").from_array(a, settings)
    s = a.sensors[0]
    freqs, vels = np.array(T.frequencies), np.array(T.velocities)
    mon.describe(nontrivial=len(freqs) > 1, **meta, settings=settings)
    if len(freqs) == 0 or not xform.live(a, freqs):
        return
    off = np.abs(np.array(a.position()) - a.source.x)
    want = refs.phaseshift(gens.matrix(a), s.dt, off, freqs, vels)
    span = off.max() - off.min()
    xform.columns_close(mon, T.power, want, "phase-shift power", rtol=1e-6, floor=1e-3 * span)
    mon.event("images")
    mon.event("beyond_half_the_rate", bool(np.any(freqs > 0.51 / s.dt)))
    mon.event("dead_receivers", bool(meta["dead"]))
    mon.event("source_" + meta["where"])
    mon.event("decimated", meta["multiple"] > 1)


def rescaled(rng, mon):
    a, meta = xform.make_array(rng, process=False)
    g = 10 ** (rng.uniform(-3, 3, meta["nch"]) + choice(rng, (0, 0, -8, 5)))
    b = Array1D([Sensor1C(np.array(s.amplitude) * k, s.dt, s.x, s.y, s.z, nstacks=s.nstacks, delay=s.delay)
                 for s, k in zip(a.sensors, g)], a.source)
    settings = xform.make_settings(rng, a, transform="phaseshift")
    cls = xform.transform_class("phaseshift")
    T, U = cls.from_array(a, settings), cls.from_array(b, settings)
    mon.describe(**meta, gains=g, settings=settings)
    if len(T.frequencies) == 0 or not xform.live(a, T.frequencies):
        return
    off = a.offsets
    xform.columns_close(mon, U.power, np.array(T.power), "phase-shift power after rescaling traces", rtol=1e-6, floor=1e-3 * (max(off) - min(off)))
    mon.event("rescaled")


SCENARIOS = {"image": (image, 350, 8000), "rescaled": (rescaled, 80, 2000)}
