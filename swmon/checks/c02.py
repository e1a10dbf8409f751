"""Trimming: a shadow list of (original time, sample) pairs follows every trim of a record or array."""
import numpy as np

from swprocess import ActiveTimeSeries, Sensor1C
from .. import gens
from ..gens import choice, rec_state, arr_state

RULE = ("a case is a record or array with a sequence of trims (windows on and between samples, around the trigger), or one "
        "refused window; non-trivial = a trim removed samples or a refusal was observed")
REQUIRE = {"trims": 100, "refusals_checked": 50, "windows_across_trigger": 5, "padded_before": 30}


def _window(rng, t, offgrid):
    """Window inside the record and the indices of the nearest samples; None if ambiguous or short."""
    n, dt = len(t), t[1] - t[0]
    a, b = sorted(int(i) for i in rng.choice(n, size=2, replace=False))
    start, end = float(t[a]), float(t[b])
    if offgrid:
        fa, fb = rng.uniform(-0.47, 0.47, size=2)
        start, end = start + fa * dt, end + fb * dt
        if start < t[0]:
            start = float(t[0])
        if end > t[-1]:
            end = float(t[-1])
    elif rng.random() < 0.3:
        a, start = 0, float(t[0])
    elif rng.random() < 0.3:
        b, end = n - 1, float(t[-1])
    if not start < end or b - a < 1:
        return None
    return start, end, a, b


def _follow(rng, mon, recs, trim, kinds):
    """Apply random trims through `trim`, comparing every record with its shadow."""
    dt = recs[0].dt
    if rng.random() < 0.4:                                   # padded before, often to a multiple
        N = max(2, int(recs[0].nsamples * choice(rng, (0.2, 0.4, 0.5, 0.7, 1.5))))
        for r in recs:
            r.zero_pad(1 / (N * dt))
        mon.event("padded_before", recs[0].multiple > 1)
    shadows = [(np.array(r.time), np.array(r.amplitude)) for r in recs]
    done = []
    for _ in range(int(rng.integers(1, 6))):
        cur = np.array(recs[0].time)
        if cur.ndim == 0 or len(cur) < 3:
            break
        w = _window(rng, cur, choice(rng, kinds))
        if w is None:
            continue
        start, end, a, b = w
        before = [rec_state(r) for r in recs]
        trim(start, end)
        mon.event("trims")
        if cur[a] < 0 < cur[b]:
            mon.event("windows_across_trigger")
        done.append((start, end))
        for i, r in enumerate(recs):
            ot, oa = shadows[i]
            shadows[i] = (ot[a:b + 1], oa[a:b + 1])
            mon.equal(r.amplitude, shadows[i][1], "samples kept by the trim")
            mon.check(r.nsamples == b - a + 1, "number of samples after the trim", got=r.nsamples, want=b - a + 1)
            err = np.max(np.abs(np.array(r.time) - shadows[i][0]))
            mon.check(err <= dt * (0.5 + 1e-6), "a kept sample moved in time by more than half a sample", err=err, dt=dt,
                      window=(start, end), got=np.array(r.time)[:3], want=shadows[i][0][:3])
            for attr in ("dt", "nstacks", "x", "y", "z"):
                if attr in before[i]:
                    mon.equal(getattr(r, attr), before[i][attr], f"trim changed {attr}")
    return done


def record(rng, mon):
    n, dt = gens.length(rng, 4, 120), choice(rng, gens.DTS)
    delay = gens.delay_of(rng, dt, n)
    amp, nst = gens.samples(rng, n), int(rng.integers(1, 6))
    r = Sensor1C(amp, dt, 1.5, 2.5, 3.5, nstacks=nst, delay=delay) if rng.random() < 0.5 else \
        ActiveTimeSeries(amp, dt, nstacks=nst, delay=delay)
    mode = choice(rng, ("on", "on", "off", "mixed"))
    done = _follow(rng, mon, [r], r.trim, {"on": (False,), "off": (True,), "mixed": (True, False)}[mode])
    mon.describe(nontrivial=bool(done), n=n, dt=dt, delay=delay, mode=mode, windows=done)


def arrays(rng, mon):
    a, meta = gens.array(rng, n=gens.length(rng, 6, 100))
    src = (a.source.x, a.source.y, a.source.z)
    done = _follow(rng, mon, list(a.sensors), a.trim, choice(rng, ((False,), (True, False))))
    mon.check((a.source.x, a.source.y, a.source.z) == src, "trim moved the source")
    mon.equal(a.position(), sorted(meta["x"]), "trim changed the receivers")
    mon.describe(nontrivial=bool(done), windows=done, **meta)


def refusal(rng, mon):
    use_array = rng.random() < 0.4
    if use_array:
        obj, meta = gens.array(rng, n=gens.length(rng, 8, 60))
        rec, state = obj.sensors[0], lambda: [v for s in arr_state(obj)["sensors"] for v in s.values()]
    else:
        obj = gens.record(rng, n=gens.length(rng, 8, 60))
        rec, state = obj, lambda: list(rec_state(obj).values())
    if rng.random() < 0.5:                                   # refused on a processed record too
        t = np.array(rec.time)
        obj.trim(float(t[1]), float(t[-2]))
    t = np.array(rec.time)
    dt = rec.dt
    what = choice(rng, ("before", "after", "equal", "reversed", "both", "outside"))
    eps = choice(rng, (1e-3, 0.4, 1.0, 20.0)) * dt
    start, end = {"before": (t[0] - eps, t[-2]), "after": (t[1], t[-1] + eps), "equal": (t[2], t[2]),
                  "reversed": (t[3], t[1]), "both": (t[0] - eps, t[-1] + eps), "outside": (t[-1] + eps, t[-1] + eps + 5 * dt)}[what]
    mon.describe(what=what, array=use_array, eps=eps / dt, n=rec.nsamples, delay=rec.delay, dt=dt)
    before = state()
    mon.raises(IndexError, lambda: obj.trim(float(start), float(end)), f"trim to an illogical window ({what})")
    for b, g in zip(before, state()):
        mon.equal(g, b, f"a refused trim ({what}) changed the record")


SCENARIOS = {"record": (record, 500, 20000), "arrays": (arrays, 120, 4000), "refusal": (refusal, 250, 5000)}
