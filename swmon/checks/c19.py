"""Stacking images: model sum(power*n)/sum(n) over histories that stack images and stacks into each other."""
import numpy as np

import matplotlib.pyplot as plt

from .. import gens, xform
from ..core import fingerprint
from ..gens import choice

RULE = ("a case stacks images of one array family into several empty ones, including stacks into stacks and empty images, in random "
        "order and grouping, normalising or drawing them in between, or something that is not an image; non-trivial = images representing different numbers of records meet")
REQUIRE = {"onto_itself": 20, "stacks": 300, "stacks_of_stacks": 60, "empty_contributions": 30, "refusals_checked": 30, "axes_compared": 60, "other_axes": 60, "stacks_onto_normalized": 30, "many_records": 20}


def _normalized(p, by):
    if by is None:
        return p
    m = np.abs(p)
    top = np.broadcast_to(1. if by == "none" else m.max() if by == "absolute-maximum" else m.max(axis=0), m.shape)
    return np.where(top > 0, m / np.where(top > 0, top, 1), 0)


def history(rng, mon):
    kind = choice(rng, ("fdbf", "fk", "phaseshift", "slantstack", "made"))
    a, meta = xform.make_array(rng, nch=4, n=60, need_offset=True)
    Empty = xform.transform_class("empty")
    st = xform.make_settings(rng, a, transform="fdbf" if kind == "made" else kind,
                             vmin=round((max(a.offsets) - min(a.offsets)) / (0.5 * a.sensors[0].nsamples * a.sensors[0].dt), 2),
                             nvel=int(rng.integers(2, 6)))
    nim = int(rng.integers(1, 5))
    images = []
    for _ in range(nim):
        if kind == "made":
            E = Empty.from_array(a, st)
            shape = np.shape(E.power)
            p = rng.normal(size=shape) * 10 ** rng.uniform(-3, 3) + 1j * rng.normal(size=shape)
            images.append(xform.transform_class("fdbf")(np.array(E.frequencies), np.array(E.velocities), p))
        else:
            b, _ = gens.array(rng, nch=4, n=meta["n"], dt=meta["dt"], delay=meta["delay"], pos=np.array(meta["x"]), where="left", kind="noise")
            b.source = a.source
            # a processed array has axes of its own, so its image is used as often as wanted
            images.append(xform.transform_class(kind).from_array(a if meta["steps"] else b, st))
    ne = int(rng.integers(1, 4))
    empties = [Empty.from_array(a, st) for _ in range(ne)]
    if np.size(images[0].power) == 0:
        mon.describe(nontrivial=False)
        return
    for E in empties:
        mon.check(E.n == 0, "an empty image represents records", got=E.n)
        mon.equal(E.frequencies, images[0].frequencies, "frequencies of the empty image")
        mon.equal(E.velocities, images[0].velocities, "velocities of the empty image")
        mon.check(np.shape(E.power) == np.shape(images[0].power), "shape of the empty image")
        mon.event("axes_compared")
    model = [(np.zeros(np.shape(images[0].power), complex), 0) for _ in empties]
    base = [(np.array(t.power), 1) for t in images]
    nontrivial, log = False, []
    norm = [None] * ne                                        # latest normalisation of what has been stacked so far
    looks_between = rng.random() < 0.5
    for _ in range(int(rng.integers(2, 12))):
        i = int(rng.integers(ne))
        j = int(rng.integers(ne + nim))
        itself = j == i
        if itself and rng.random() < 0.5:
            continue
        E = empties[i]
        if looks_between and rng.random() < 0.4:
            norm[i] = choice(rng, ("none", "absolute-maximum", "frequency-maximum"))
            if rng.random() < 0.2 and model[i][1] and min(np.shape(E.power)) > 1:
                E.plot(normalization=norm[i])
                plt.close("all")
            else:
                E.normalize(by=norm[i])
            if model[i][1]:                                   # the phase is gone, the mean continues from the magnitudes
                model[i] = (np.abs(model[i][0]), model[i][1])
            log.append((i, norm[i]))
        if j < ne and norm[j] not in (None, "none"):
            continue                                          # what a normalised image contributes is not judged
        other = empties[j] if j < ne else images[j - ne]
        s, c = (model[j] if j < ne else (base[j - ne][0] * 1, 1))
        if model[i][1] + c > 10 ** 6:
            continue
        times = int(rng.integers(8, 120)) if j >= ne and rng.random() < 0.08 else 1
        for _ in range(times - 1):                            # many shots
            E.stack(other)
            model[i] = (model[i][0] + s, model[i][1] + c)
        mon.event("many_records", times > 1)
        before = fingerprint(other)
        E.stack(other)
        mon.event("stacks")
        mon.event("stacks_onto_normalized", norm[i] not in (None, "none") and model[i][1] > 0)
        norm[i] = None
        mon.event("stacks_of_stacks", j < ne and c > 0)
        mon.event("empty_contributions", c == 0)
        mon.event("onto_itself", itself and c > 0)
        model[i] = (model[i][0] + s, model[i][1] + c)
        nontrivial = nontrivial or c > 1 or model[i][1] > 2
        mon.check(itself or fingerprint(other) == before, "stacking changed the image that was stacked")
        log.append((i, j, c))
        sizes = [np.max(np.abs(m[0]), axis=0) for m in model]
        for k, E2 in enumerate(empties):
            tot, cnt = model[k]
            mon.check(E2.n == cnt, "number of records represented", got=E2.n, want=cnt)
            if cnt:
                want, got = _normalized(tot / cnt, norm[k]), np.array(E2.power)
                mon.check(np.shape(got) == np.shape(want), "shape of the stack")
                if norm[k] == "frequency-maximum":            # rounding noise where the images cancel is not to be judged
                    got[:, sizes[k] < 1e-4 * sizes[k].max()] = want[:, sizes[k] < 1e-4 * sizes[k].max()] = 0
                xform.columns_close(mon, got, want, "stack is not the count-weighted mean of the images", rtol=1e-9,
                                    floor=1e-4 * np.max(np.abs(want)) + 1e-300)
            mon.equal(E2.frequencies, images[0].frequencies, "frequencies of the stack")
            mon.equal(E2.velocities, images[0].velocities, "velocities of the stack")
        for t, (p, _) in zip(images, base):
            mon.equal(t.power, p, "stacking changed an image")
            mon.check(t.n == 1, "stacking changed the number of records of an image")
    mon.describe(nontrivial=nontrivial, kind=kind, log=log, shape=np.shape(images[0].power), **meta)


def refusal(rng, mon):
    a, meta = xform.make_array(rng, nch=3, n=40, need_offset=True)
    st = xform.make_settings(rng, a, transform="phaseshift")
    E = xform.transform_class("empty").from_array(a, st)
    filled = rng.random() < 0.5
    if filled:
        E.stack(xform.transform_class("phaseshift").from_array(a, st))
    p, n = np.array(E.power), E.n
    bad = choice(rng, ("none", "number", "ndarray", "array", "text", "list", "dict"))
    obj = {"none": None, "number": 3.5, "ndarray": np.array(E.power), "array": a, "text": "fdbf", "list": [1, 2], "dict": {"power": p, "n": 1}}[bad]
    mon.describe(bad=bad, filled=filled, **meta)
    mon.raises(AttributeError, lambda: E.stack(obj), f"stacking a {bad} into an image")
    mon.equal(E.power, p, "a refused stack changed the image")
    mon.check(E.n == n, "a refused stack changed the number of records")


def other_axes(rng, mon):
    """An image on other axes than what has been stacked so far is not mixed in."""
    a, meta = xform.make_array(rng, nch=3, n=40, need_offset=True)
    st = xform.make_settings(rng, a, transform="phaseshift", nvel=int(rng.integers(2, 6)))
    Empty, Image = xform.transform_class("empty"), xform.transform_class(choice(rng, ("fdbf", "phaseshift", "empty")))
    E = Empty.from_array(a, st)
    f, v = np.array(E.frequencies, float), np.array(E.velocities, float)
    if not np.size(f):
        mon.describe(nontrivial=False)
        return
    filled = rng.random() < 0.7
    if filled:
        E.stack(xform.transform_class("phaseshift").from_array(a, st))
    if rng.random() < 0.4:
        E.normalize(by=choice(rng, ("none", "absolute-maximum", "frequency-maximum")))
    f2, v2 = f.copy(), v.copy()
    what = choice(rng, ("frequencies", "velocities", "one frequency", "one velocity", "fewer frequencies", "fewer velocities", "more of both"))
    if what == "frequencies":
        f2 = f * choice(rng, (2.0, 1.01, 0.995)) + (1.0 if f[0] == 0 else 0)
    elif what == "velocities":
        v2 = v * choice(rng, (2.0, 1.01, 0.995))
    elif what == "one frequency":
        f2[int(rng.integers(len(f)))] += choice(rng, (0.5, -0.25)) * max(f[-1], 1.0)
    elif what == "one velocity":
        v2[int(rng.integers(len(v)))] *= choice(rng, (1.05, 0.9))
    elif what == "fewer frequencies":
        f2 = f[:1] if len(f) > 1 else np.append(f, f[-1] + 1)
    elif what == "fewer velocities":
        v2 = v[:1]
    else:
        f2, v2 = np.append(f, f[-1] + 1), np.append(v, 2 * v[-1])
    other = Image(f2, v2, rng.normal(size=(len(v2), len(f2))) + 1j)
    before, held = fingerprint(other), fingerprint(E)
    mon.describe(what=what, filled=filled, shape=np.shape(E.power), **meta)
    mon.raises(ValueError, lambda: E.stack(other), f"stacking an image with other axes ({what})")
    mon.check(fingerprint(E) == held, "a refused stack changed the image")
    mon.check(fingerprint(other) == before, "a refused stack changed the image that was refused")
    mon.event("other_axes")


SCENARIOS = {"other_axes": (other_axes, 60, 1500), "history": (history, 200, 6000), "refusal": (refusal, 60, 800)}
