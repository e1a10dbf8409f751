"""Muting: every trace is compared with its own window computed from the two lines; interactive sessions are scripted."""
import numpy as np
from scipy.signal import windows

from swprocess import Array1D, Sensor1C, Source
from .. import gens, refs, ui
from ..gens import choice

RULE = ("a case mutes an array (delay before, at and after the trigger; lines inside and leaving the record; one or both lines; "
        "default and user tapers) directly or by scripted picks; non-trivial = some samples are zeroed and some kept")
REQUIRE = {"empty_windows": 60, "traces": 500, "interactive_sessions": 30, "late_records": 20, "lines_leaving_record": 30}


def _array(rng):
    nch = gens.channels(rng, 2, 12)
    n = gens.length(rng, 20, 120)
    dt = choice(rng, (0.001, 0.0005, 0.002, 0.004))
    a, meta = gens.array(rng, nch=nch, n=n, dt=dt, delay=gens.delay_of(rng, dt, n // 2), kind=choice(rng, ("noise", "ints", "big")),
                         where=choice(rng, ("left", "right", "first")))
    if rng.random() < 0.4:                                    # record that starts after the trigger
        t = np.array(a.sensors[0].time)
        i = int(rng.integers(0, n // 2))
        a.trim(float(t[i]), float(t[-1]))
    return a, meta


def _line(rng, a, frac, steep=0.35):
    """Line at about `frac` of the record, moveout within about half of it, given by two points anywhere."""
    t = np.array(a.sensors[0].time)
    x = np.array(a.position())
    T = (t[-1] - t[0])
    span = x[-1] - x[0]
    t0 = t[0] + frac * T
    slope = rng.uniform(-steep, steep) * T / span
    x1 = rng.uniform(x[0] - 0.3 * span, x[-1])
    x2 = x1 + choice(rng, (-1, 1)) * rng.uniform(0.2, 1.2) * span
    f = lambda xx: t0 + slope * (xx - x.mean())
    return ((float(x1), float(f(x1))), (float(x2), float(f(x2))))


def _lines(rng, a, which):
    lo, hi = rng.uniform(-0.2, 0.45), rng.uniform(0.5, 1.25)
    if rng.random() < 0.1:                                    # lines that cross within the array or leave the record on the other side
        return (_line(rng, a, rng.uniform(0.3, 0.9), 1.5) if which in ("both", "before") else None,
                _line(rng, a, rng.uniform(0.1, 0.7), 1.5) if which in ("both", "after") else None)
    start = _line(rng, a, lo) if which in ("both", "before") else None
    if which == "both" and rng.random() < 0.5:                # parallel lines: a narrow window
        w = rng.uniform(0.1, 0.6) * (a.sensors[0].time[-1] - a.sensors[0].time[0])
        end = tuple((p[0], p[1] + w) for p in start)
    else:
        end = _line(rng, a, hi) if which in ("both", "after") else None
    return start, end


def _candidates(v):
    out = set()
    for w in (v - 1e-6, v, v + 1e-6):
        out |= {int(np.floor(w)), int(np.rint(w)), int(w)}
    return sorted(out)


def _windows(kind, m):
    if kind is None:
        return refs.tukey(m, 0.2)
    if set(kind) == {"alpha"}:
        return refs.tukey(m, kind["alpha"])
    return windows.tukey(m, **kind) if m > 0 else np.zeros(0)


def _expected(n, starts, stops, kind):
    out = []
    for s in starts:
        for e in stops:
            w = np.zeros(n)
            if e < s:                                         # empty window
                out.append(w)
                continue
            t = _windows(kind, e - s)
            lo, hi = max(s, 0), min(e, n)
            if hi > lo:
                w[lo:hi] = t[lo - s:hi - s]
            out.append(w)
    return out


def _usable(a, start, end):
    """Every trace's window is clearly there or clearly empty, at least one is there."""
    s0 = a.sensors[0]
    n = s0.nsamples
    there = False
    for x in a.position():
        s = refs.line_index(start, x, s0.dt, s0.delay) if start else 0
        e = refs.line_index(end, x, s0.dt, s0.delay) if end else n - 1
        if abs(e - s) < 2:
            return False
        there = there or e > s
    return there


def _verify(mon, a, before, time, start, end, kind):
    s0 = a.sensors[0]
    n, dt, delay = len(time), s0.dt, float(time[0])
    zeroed = kept = 0
    for s, row, x in zip(a.sensors, before, a.position()):
        si = refs.line_index(start, x, dt, delay) if start else None
        ei = refs.line_index(end, x, dt, delay) if end else None
        cands = _expected(n, _candidates(si) if start else [0], _candidates(ei) if end else [n - 1, n], kind)
        got = np.array(s.amplitude)
        scale = np.max(np.abs(row))
        ok = False
        for w in cands:
            want = row * w
            if np.max(np.abs(got - want)) <= 1e-9 * scale and not np.any(got[w == 0]):
                ok = True
                break
        mon.check(ok, "muted trace is not its record times the window between its own start and end",
                  x=x, start=si, end=ei, n=n, nonzero=(np.flatnonzero(got)[[0, -1]] if np.any(got) else None))
        mon.equal(np.array(s.time), time, "muting moved samples in time")
        mon.event("traces")
        mon.event("empty_windows", (n - 1 if ei is None else ei) < (0 if si is None else si))
        mon.event("lines_leaving_record", (si is not None and (si < 0 or si > n)) or (ei is not None and (ei < 0 or ei > n)))
        zeroed += int(np.sum(got == 0))
        kept += int(np.sum(got != 0))
    if delay > 0:
        mon.event("late_records")
    return zeroed > 0 and kept > 0


def _kind(rng):
    return choice(rng, (None, None, dict(alpha=0.5), dict(alpha=0.0), dict(alpha=1.0), dict(alpha=float(np.round(rng.uniform(0.05, 0.95), 2))),
                        dict(alpha=0.3, sym=False), dict(sym=False), dict(sym=True)))


def direct(rng, mon):
    a, meta = _array(rng)
    which = choice(rng, ("both", "both", "before", "after"))
    start, end = _lines(rng, a, which)
    if not _usable(a, start, end):
        mon.describe(nontrivial=False)
        return
    kind = _kind(rng)
    as_list = rng.random() < 0.3
    conv = (lambda l: [list(p) for p in l] if l else None) if as_list else (lambda l: l)
    before, time = gens.matrix(a), np.array(a.sensors[0].time)
    state = [(s.dt, s.delay, s.nstacks, s.x, s.y, s.z, s.multiple) for s in a.sensors]
    args = dict(signal_start=conv(start), signal_end=conv(end), window_kwargs=kind)
    with mon.unchanged("an argument of mute", args["signal_start"], args["signal_end"], kind):
        a.mute(**{k: v for k, v in args.items() if v is not None})
    mixed = _verify(mon, a, before, time, start, end, kind)
    mon.describe(nontrivial=mixed, which=which, kind=kind, start=start, end=end, **meta)
    mon.equal([(s.dt, s.delay, s.nstacks, s.x, s.y, s.z, s.multiple) for s in a.sensors], state, "muting changed a receiver's metadata")
    if rng.random() < 0.3:                                    # muting again multiplies again
        before = gens.matrix(a)
        s2, e2 = _lines(rng, a, "both")
        if _usable(a, s2, e2):
            a.mute(signal_start=s2, signal_end=e2)
            _verify(mon, a, before, time, s2, e2, None)


def interactive(rng, mon):
    a, meta = _array(rng)
    where = choice(rng, ("both", "before", "after"))
    tax = choice(rng, ("x", "y", None))
    start, end = _lines(rng, a, where)
    if not _usable(a, start, end):
        mon.describe(nontrivial=False)
        return
    kind = _kind(rng)
    relative = tax is not None and rng.random() < 0.3
    origin = a.position()[0] if relative else 0.0
    picks = []
    for line in (start, end):
        if line:
            for (d, t) in line:
                picks.append([(t, d - origin) if tax == "x" else (d - origin, t)])
    wk = None if tax is None else dict(time_ax=tax)
    if relative:
        wk["position_normalization"] = True
        mon.event("relative_waterfalls")
    if wk and rng.random() < 0.4:
        wk["amplitude_normalization"] = choice(rng, ("each", "all", "none"))
    before, time = gens.matrix(a), np.array(a.sensors[0].time)
    kwargs = {}
    if where != "both" or rng.random() < 0.5:
        kwargs["mute_location"] = where
    if kind is not None:
        kwargs["window_kwargs"] = kind
    if wk is not None:
        kwargs["waterfall_kwargs"] = wk
    shown = []

    def pick(points):
        def on(fig):                                          # which way time runs on the picture the user points at
            runs = {k for ax in fig.axes for l in ax.lines for k, v in (("x", l.get_xdata()), ("y", l.get_ydata()))
                    if np.shape(v) == time.shape and np.allclose(np.asarray(v, float), time, rtol=1e-9, atol=1e-12)}
            shown.append(runs)
            return points
        return on
    script = ui.Script(picks=[pick(p) for p in picks])
    with mon.unchanged("an argument of interactive_mute", kwargs):
        with ui.user(script, default_press=lambda: None):
            got = a.interactive_mute(**kwargs)
    mon.event("interactive_sessions")
    mon.check(not script.picks, "the session did not take both points of each line", left=len(script.picks))
    mon.check(all(r == {tax or "y"} for r in shown), "time does not run along the axis asked for on the picture the user points at", got=shown, want=tax or "y")
    for g, w, nm in ((got[0], start, "start"), (got[1], end, "end")):
        if w is None:
            mon.check(g is None, f"a one-sided mute returned a signal {nm}", got=g)
        else:
            mon.close(np.array(g, float), np.array(w, float), f"returned signal {nm} is not the picked line", rtol=1e-9)
    mixed = _verify(mon, a, before, time, start, end, kind)
    mon.describe(nontrivial=mixed, location=where, time_ax=tax, kind=kind, start=start, end=end, **meta)


def leak(rng, mon):
    """One trace's long window must not leak into the next trace's short one (any order along the array)."""
    nch = gens.channels(rng, 3, 10)
    n = gens.length(rng, 30, 90)
    dt = 0.002
    x = np.arange(nch) * 2.0
    delay = gens.delay_of(rng, dt, n // 3)
    a = Array1D([Sensor1C(np.ones(n), dt, xi, 0, 0, delay=delay) for xi in x], Source(-4, 0, 0))
    up = rng.random() < 0.5
    w0, w1 = (0.8, 0.12) if up else (0.12, 0.8)
    T = (n - 1) * dt
    start = ((x[0], delay + 0.1 * T), (x[-1], delay + 0.1 * T))
    end = ((x[0], delay + (0.1 + w0) * T), (x[-1], delay + (0.1 + w1) * T))
    mon.describe(nch=nch, n=n, narrowing=up, delay=delay)
    before, time = gens.matrix(a), np.array(a.sensors[0].time)
    a.mute(signal_start=start, signal_end=end)
    _verify(mon, a, before, time, start, end, None)


SCENARIOS = {"direct": (direct, 600, 20000), "interactive": (interactive, 120, 2500), "leak": (leak, 60, 1000)}
