"""Zero padding: length, multiple and frequency step from the statement's arithmetic; samples in place."""
import numpy as np

from swprocess import ActiveTimeSeries, Sensor1C
from .. import gens, refs
from ..gens import choice, rec_state

RULE = ("a case is a record or array padded to one or more frequency steps (N below, equal to and above the length, "
        "multiples, steps that do not divide), or a refused step; non-trivial = padding was appended or the multiple is not one")
REQUIRE = {"pads": 100, "refusals_checked": 30, "decimated": 20, "extended": 20, "unpadded": 10, "refused_when_decimated": 30, "long_records": 20}


def _step(rng, n, dt):
    how = choice(rng, ("any", "any", "divisor", "same", "above", "raw"))
    if how == "raw":
        N = rng.uniform(2, 2.5 * n + 3)
        if abs(N % 1 - 0.5) < 0.02:
            return None
        return 1 / (N * dt)
    if how == "divisor":
        N = int(choice(rng, [d for d in range(2, n + 1) if n % d == 0] or [2]))
    elif how == "same":
        N = n
    elif how == "above":
        N = n + int(rng.integers(1, 3 * n))
    else:
        N = int(rng.integers(2, 2 * n + 2))
    return 1 / (N * dt)


def _verify(mon, r, before, df):
    dt, n = before["dt"], before["nsamples"]
    length, m, N = refs.pad_length(n, dt, df)
    mon.check(r.nsamples == length, "padded length", got=r.nsamples, want=length, n=n, N=N)
    mon.equal(np.array(r.amplitude)[:n], before["amplitude"], "a recorded sample changed")
    mon.equal(np.array(r.amplitude)[n:], np.zeros(length - n), "padding is not zero")
    mon.check(r.multiple == m, "multiple", got=r.multiple, want=m, n=n, N=N)
    mon.close(r.df, 1 / (N * dt), "reported frequency step", rtol=1e-9)
    x = 1 / (df * dt)
    if abs(x - round(x)) < 1e-9 * x:
        mon.close(r.df, df, "frequency step is not the requested one", rtol=1e-6)
    for k in ("dt", "delay", "nstacks", "x", "y", "z"):
        if k in before:
            mon.equal(getattr(r, k), before[k], f"padding changed {k}")
    mon.close(np.array(r.time)[:n], before["time"], "padding moved a sample in time", atol=1e-9 * dt)
    mon.event("extended" if length > n else "unpadded")
    mon.event("decimated" if m > 1 else "single")
    mon.event("pads")


def record(rng, mon):
    n, dt = gens.length(rng, 2, 150), choice(rng, gens.DTS)
    delay = gens.delay_of(rng, dt, n)
    args = (gens.samples(rng, n), dt)
    kw = dict(nstacks=int(rng.integers(1, 5)), delay=delay)
    r = Sensor1C(*args, 1.0, 2.0, 3.0, **kw) if rng.random() < 0.5 else ActiveTimeSeries(*args, **kw)
    log = []
    if n > 10 and rng.random() < 0.4:
        t = np.array(r.time)
        r.trim(float(t[int(rng.integers(1, 4))]), float(t[-1 - int(rng.integers(0, 3))]))
        log.append("trim")
    for _ in range(int(rng.integers(1, 4))):
        if r.nsamples > 2000:
            break
        df = _step(rng, r.nsamples, dt)
        if df is None:
            continue
        before = rec_state(r)
        r.zero_pad(df)
        _verify(mon, r, before, df)
        log.append(round(1 / (df * dt), 3))
    mon.describe(nontrivial=bool(log), n=n, dt=dt, delay=delay, steps=log)


def round_steps(rng, mon):
    """Steps people ask for: 0.1, 0.2, 0.25, 0.5, 1, 2 Hz with common sampling."""
    n, dt = gens.length(rng, 5, 400), choice(rng, (0.001, 0.002, 0.005, 0.01, 1 / 256, 0.004))
    df = choice(rng, (0.5, 1, 2, 4, 5, 1.0, 2.5, 10))
    mon.describe(n=n, dt=dt, df=df)
    if 1 / (df * dt) > 5000 or abs((1 / (df * dt)) % 1 - 0.5) < 1e-3:
        return
    r = gens.record(rng, n=n, dt=dt)
    before = rec_state(r)
    r.zero_pad(df)
    _verify(mon, r, before, df)


def arrays(rng, mon):
    a, meta = gens.array(rng)
    df = _step(rng, meta["n"], meta["dt"])
    mon.describe(nontrivial=df is not None, df=df, **meta)
    if df is None:
        return
    before = [rec_state(s) for s in a.sensors]
    a.zero_pad(df)
    mon.check(a.nchannels == meta["nch"], "padding changed the number of receivers")
    for s, b in zip(a.sensors, before):
        _verify(mon, s, b, df)


def refusal(rng, mon):
    use_array = rng.random() < 0.4
    obj = gens.array(rng)[0] if use_array else gens.record(rng)
    recs = list(obj.sensors) if use_array else [obj]
    n = recs[0].nsamples
    for _ in range(int(choice(rng, (0, 1, 1, 2)))):           # padded or decimated before
        obj.zero_pad(1 / (recs[0].dt * int(rng.integers(2, 2 * n))))
    df = choice(rng, (0, 0.0, -0.0, -1e-9, -1, -0.5, -200.0, 2.5 / recs[0].dt, 1e3 / recs[0].dt, np.inf, np.nan))
    mon.event("refused_when_decimated", recs[0].multiple > 1)
    mon.describe(df=df, array=use_array, n=recs[0].nsamples, dt=recs[0].dt)
    before = [rec_state(r) for r in recs]
    mon.raises(ValueError, lambda: obj.zero_pad(df), f"zero padding with df={df}")
    for r, b in zip(recs, before):
        for k in ("amplitude", "nsamples", "time", "dt", "delay", "nstacks", "df", "multiple"):
            mon.equal(getattr(r, k), b[k], f"a refused padding changed {k}")


def long(rng, mon):
    """Records of many samples, a few more or fewer than a whole multiple of the length asked for."""
    N, dt = int(rng.integers(20000, 130000)), choice(rng, gens.DTS)
    n = N * int(rng.integers(1, 4)) + int(choice(rng, (-1, 0, 1, 2, 5)))
    r = ActiveTimeSeries(rng.normal(size=n), dt, delay=-3 * dt)
    before = rec_state(r)
    r.zero_pad(1 / (N * dt))
    _verify(mon, r, before, 1 / (N * dt))
    mon.event("long_records")
    mon.describe(nontrivial=True, n=n, N=N, dt=dt)


SCENARIOS = {"record": (record, 500, 20000), "round_steps": (round_steps, 120, 3000), "arrays": (arrays, 120, 4000),
             "refusal": (refusal, 120, 2000), "long": (long, 15, 200)}
