"""Pairs of records, receivers, sources and arrays that agree or differ in exactly one known respect, compared in both directions."""
import numpy as np

from swprocess import ActiveTimeSeries, Array1D, Sensor1C, Source
from .. import gens
from ..gens import choice

RULE = ("a case compares a record, receiver, source or array of any magnitude with itself, a copy, an object of the same content, objects that differ in one respect "
        "(time step, delay, stack count, length, one sample, position, one receiver, source) and foreign objects, each both ways and by != as well")
REQUIRE = {"equal_pairs": 400, "unequal_pairs": 400, "one_sample": 100, "tiny": 60, "foreign": 200, "arrays": 80, "inner_receivers": 80, "wide_arrays": 80}
FOREIGN = (None, 0, 1.5, "record", (), [1.0, 2.0], {"dt": 1}, object())


def _eq(mon, a, b, want, what):
    for x, y, side in ((a, b, ""), (b, a, " (other way round)")):
        got = x == y
        mon.check(isinstance(got, (bool, np.bool_)), "equality is not a truth value", got=got)
        mon.check(bool(got) == want, f"{what} compare {'unequal' if want else 'equal'}{side}")
        mon.check(bool(x != y) == (not want), f"{what}: != disagrees with =={side}")
    mon.event("equal_pairs" if want else "unequal_pairs")


def _content(rng, tiny=None):
    n = gens.length(rng, 3, 60)
    dt = choice(rng, gens.DTS)
    scale = 10.0 ** rng.integers(-12, 7) if (rng.random() < 0.5 if tiny is None else tiny) else 1.0
    return dict(amplitude=rng.normal(size=n) * scale, dt=dt, nstacks=int(rng.integers(1, 9)), delay=-dt * int(rng.integers(0, 20)))


def _vary(rng, mon, c):
    """The same content but for one respect."""
    d = dict(c, amplitude=c["amplitude"].copy())
    how = choice(rng, ("dt", "delay", "nstacks", "length", "sample", "sample", "last", "scale", "sign", "order"))
    a = d["amplitude"]
    top = np.max(np.abs(a))
    if how == "dt":
        d["dt"] = c["dt"] * choice(rng, (2, 0.5, 1.001))
        d["delay"] = c["delay"]
    elif how == "delay":
        d["delay"] = c["delay"] - c["dt"] * choice(rng, (1, 3))
    elif how == "nstacks":
        d["nstacks"] = c["nstacks"] + choice(rng, (1, 5))
    elif how == "length":
        d["amplitude"] = np.append(a, choice(rng, (0.0, a[-1]))) if rng.random() < 0.5 else a[:-1]
    elif how in ("sample", "last"):
        i = len(a) - 1 if how == "last" else int(rng.integers(len(a)))
        a[i] += choice(rng, (-1, 1)) * top * choice(rng, (0.01, 0.5, 10))
        mon.event("one_sample")
    elif how == "scale":
        a *= choice(rng, (2, 0.5, 1.01))
    elif how == "sign":
        a *= -1
    else:
        d["amplitude"] = a[::-1].copy()
    mon.event("tiny", top < 1e-8)
    return d, how


def record(rng, mon):
    c = _content(rng)
    a = ActiveTimeSeries(**c)
    d, how = _vary(rng, mon, c)
    b = ActiveTimeSeries(**d)
    mon.describe(nontrivial=True, how=how, n=len(c["amplitude"]), scale=float(np.max(np.abs(c["amplitude"]))), dt=c["dt"])
    with mon.unchanged("the records compared", a, b):
        _eq(mon, a, a, True, "a record and itself")
        _eq(mon, a, ActiveTimeSeries(**c), True, "records of the same content")
        _eq(mon, a, ActiveTimeSeries.from_activetimeseries(a), True, "a record and its copy")
        _eq(mon, a, b, False, f"records that differ ({how})")
        for x in FOREIGN:
            mon.check(not (a == x) and a != x, f"a record equals {type(x).__name__}")
            mon.event("foreign")
        # rounding of a later step does not make records differ
        r = dict(c, amplitude=c["amplitude"] * 3 / 3)
        _eq(mon, a, ActiveTimeSeries(**r), True, "records that differ by rounding")


def receiver(rng, mon):
    c = _content(rng)
    pos = [float(v) for v in np.round(rng.normal(size=3) * choice(rng, (1, 100)), 3)]
    if rng.random() < 0.3:
        pos = [pos[0], 0.0, 0.0]

    def make(c, pos):
        return Sensor1C(c["amplitude"], c["dt"], *pos, nstacks=c["nstacks"], delay=c["delay"])
    a = make(c, pos)
    with mon.unchanged("the receiver", a):
        _eq(mon, a, a, True, "a receiver and itself")
        _eq(mon, a, make(c, pos), True, "receivers of the same content")
        _eq(mon, a, Sensor1C.from_sensor1c(a), True, "a receiver and its copy")
        d, how = _vary(rng, mon, c)
        _eq(mon, a, make(d, pos), False, f"receivers that differ ({how})")
        k = int(rng.integers(3))
        moved = list(pos)
        moved[k] += choice(rng, (0.01, -1.0, 100.0))
        _eq(mon, a, make(c, moved), False, f"receivers at different {'xyz'[k]}")
        if pos[0] != pos[1]:
            _eq(mon, a, make(c, [pos[1], pos[0], pos[2]]), False, "receivers with x and y exchanged")
        for x in FOREIGN + (Source(*pos),):
            mon.check(not (a == x) and a != x, f"a receiver equals {type(x).__name__}")
            mon.event("foreign")
    mon.describe(nontrivial=True, how=how, pos=pos, n=len(c["amplitude"]), dt=c["dt"])


def source(rng, mon):
    pos = [float(v) for v in np.round(rng.normal(size=3) * choice(rng, (1, 1000)), 3)]
    a = Source(*pos)
    _eq(mon, a, a, True, "a source and itself")
    _eq(mon, a, Source(*pos), True, "sources at one place")
    _eq(mon, a, Source.from_source(a), True, "a source and its copy")
    for k in range(3):
        moved = list(pos)
        moved[k] += choice(rng, (0.001, -0.5, 1e4))
        _eq(mon, a, Source(*moved), False, f"sources at different {'xyz'[k]}")
    for x in FOREIGN + (tuple(pos),):
        mon.check(not (a == x) and a != x, f"a source equals {type(x).__name__}")
        mon.event("foreign")
    mon.describe(nontrivial=True, pos=pos)


def array(rng, mon):
    n = int(rng.integers(9, 97)) if rng.random() < 0.25 else int(rng.integers(2, 9))
    c = [_content(rng, tiny=False) for _ in range(n)]
    m, gain = gens.length(rng, 5, 40), 10.0 ** rng.integers(-12, 4)
    for k in c:
        k.update(amplitude=rng.normal(size=m) * gain, dt=c[0]["dt"], nstacks=c[0]["nstacks"], delay=c[0]["delay"])
    x = [float(v) for v in np.sort(gens.positions(rng, n))]
    src = [x[0] - 5.0, 0.0, 0.0]

    def make(c, x, src, order=None):
        s = [Sensor1C(k["amplitude"], k["dt"], xi, 0, 0, nstacks=k["nstacks"], delay=k["delay"]) for k, xi in zip(c, x)]
        return Array1D([s[i] for i in order] if order is not None else s, Source(*src))
    a = make(c, x, src)
    with mon.unchanged("the array", a):
        _eq(mon, a, a, True, "an array and itself")
        _eq(mon, a, make(c, x, src, rng.permutation(n)), True, "arrays of the same receivers in another order of input")
        _eq(mon, a, Array1D.from_array1d(a), True, "an array and its copy")
        _eq(mon, a, make(c, x, [src[0] - choice(rng, (0.001, 3.0)), 0, 0]), False, "arrays with different sources")
        if n > 2:
            _eq(mon, a, make(c[:-1], x[:-1], src), False, "arrays of which one lacks the last receiver")
        for k in sorted({0, n - 1, *(int(v) for v in rng.integers(n, size=4))}):
            d = list(c)
            d[k] = dict(c[k], amplitude=c[k]["amplitude"].copy())
            d[k]["amplitude"][int(rng.integers(m))] += gain * choice(rng, (0.2, -5))
            _eq(mon, a, make(d, x, src), False, f"arrays that differ in one sample of receiver {k} of {n}")
            y = list(x)
            y[k] += min(0.01, 0.4 * float(np.min(np.diff(np.sort(x)))))
            _eq(mon, a, make(c, y, src), False, f"arrays that differ in the position of receiver {k} of {n}")
            mon.event("inner_receivers", 0 < k < n - 1)
            mon.event("wide_arrays", n > 24)
        swapped = list(c)
        swapped[0], swapped[-1] = swapped[-1], swapped[0]
        _eq(mon, a, make(swapped, x, src), False, "arrays with two records exchanged")
        later = [dict(k, delay=k["delay"] - k["dt"]) for k in c]
        _eq(mon, a, make(later, x, src), False, "arrays with different delays")
        more = [dict(k, nstacks=k["nstacks"] + 1) for k in c]
        _eq(mon, a, make(more, x, src), False, "arrays with different stack counts")
        for o in FOREIGN + (Source(*src), list(a.sensors)):
            mon.check(not (a == o) and a != o, f"an array equals {type(o).__name__}")
            mon.event("foreign")
    mon.event("arrays")
    mon.describe(nontrivial=True, n=n, x=x, gain=gain)


SCENARIOS = {"record": (record, 150, 4000), "receiver": (receiver, 100, 3000), "source": (source, 40, 600), "array": (array, 80, 2000)}
