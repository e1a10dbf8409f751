"""Cross-correlation workflow: every receiver's row must be one common cut of its full correlation, evaluated independently; a sweep recovers its velocity."""
import numpy as np
from scipy import signal

from swprocess.masw import MaswXcorr
from .. import gens, pipe, ui
from ..gens import choice

RULE = ("a case writes receiver files and source files (one to four of each, some listed more than once, source channel anywhere in its file, float or integer samples, "
        "source signals shorter and longer than the records and than half a second), optionally trims, mutes, pads and cuts offsets, and runs the "
        "workflow; or synthesises a sweep crossing the array, or gives source signals with another time step; non-trivial = at least three receivers and two source files or two steps")
REQUIRE = {"runs": 100, "rows_compared": 400, "short_sources": 20, "averaged_sources": 40, "sweeps": 25, "columns_compared": 300,
           "integer_sources": 8, "padded": 25, "mapped": 20, "refusals_checked": 40, "accepted": 10, "repeated_sources": 15, "late_first_arrivals": 15, "late_last_arrivals": 15}


def _sources(rng, d, nsrc_files, nsrc, dt_us):
    nch = int(rng.integers(1, 4))
    ch = int(rng.integers(nch))
    fmt = choice(rng, ("SU", "SEGY", "SEG2", "SEG2i"))
    files, sig = [], []
    for k in range(nsrc_files):
        amps = [gens.samples(rng, nsrc, "ints" if fmt == "SEG2i" else choice(rng, ("noise", "burst", "ints"))) for _ in range(nch)]
        p = d / f"src{k}.{fmt[:4].lower()}"
        x = [float(i) for i in range(nch)]
        if fmt.startswith("SEG2"):
            gens.write_seg2(str(p), amps, dt_us * 1e-6, x, -1.0, integer=fmt == "SEG2i")
        else:
            gens.field_file(rng, p, amps, dt_us, x, -1.0, fmt=fmt)
        files.append(str(p))
        sig.append(gens.f32(amps[ch]))
    if rng.random() < 0.3:                                    # a file listed again counts again
        for k in rng.integers(nsrc_files, size=int(rng.integers(1, 3))):
            i = int(rng.integers(len(files) + 1))
            files.insert(i, files[files.index(str(d / f"src{k}.{fmt[:4].lower()}"))])
            sig.append(sig[k])
    return files, ch, sum(sig) / len(sig), fmt


def correlate(rng, mon):
    d = mon.scratch()
    dt_us = choice(rng, (2000, 4000, 1000))
    nf, ns = int(rng.integers(1, 4)), int(rng.integers(9, 26)) if rng.random() < 0.04 else int(choice(rng, (1, 2, 3, 4)))
    n = int(rng.integers(60, 400))
    far = rng.random() < 0.2
    if far:
        n, dt_us = int(rng.integers(400, 600)), 4000
    where = choice(rng, ("left", "right"))
    wide = not far and rng.random() < 0.1                     # arrivals spread over more than half a second, from a source at the first receiver or near
    if wide:
        n, dt_us, where = int(rng.integers(400, 600)), 4000, choice(rng, ("left", "right", "first", "last"))
    vmin, vmax = float(np.round(rng.uniform(60, 300), 1)), float(np.round(rng.uniform(400, 3000), 1))
    half = int(0.5 / (dt_us * 1e-6))
    short = rng.random() < 0.45
    nsrc = int(rng.integers(20, half)) if short else int(rng.integers(half + 20, half + 400))
    files, models, m, meta = pipe.survey(rng, d, nf=nf, n=n, pre=int(choice(rng, (0, 0, n // 10))), dt_us=dt_us, fmt=choice(rng, ("SU", "SEGY", "SEG2")),
                                         where=where, kind="noise")
    sfiles, ch, src, sfmt = _sources(rng, d, ns, nsrc, dt_us)
    mon.event("repeated_sources", len(sfiles) > ns > 1)
    dt = m.dt
    maps, fy = {}, lambda v: v
    if wide:
        a, b = float(np.round(rng.uniform(0.55, 0.9) * vmax / np.max(np.abs(m.x - m.sx)), 3)), 0.0
        maps = dict(map_x=lambda v: a * v)
        m.x, m.sx = a * m.x, a * m.sx
        mon.event("late_last_arrivals")
    elif rng.random() < 0.3:
        a, b = float(choice(rng, (2, 0.5))), float(choice(rng, (0, 100, -20)))
        fy = lambda v: v + 3.0
        maps = dict(map_x=lambda v: a * v + b, map_y=fy)
        m.x, m.sx = maps["map_x"](m.x), maps["map_x"](m.sx)
        mon.event("mapped")
    elif far:
        # the source is so far away that even the fastest wave needs more than half a second
        lo, hi, D = m.x.min(), m.x.max(), float(rng.uniform(0.55, 0.9)) * vmax
        maps = dict(map_x=lambda v: np.where(v < lo - 1e-9, v - D, np.where(v > hi + 1e-9, v + D, v)) + 0.0)
        m.x, m.sx = maps["map_x"](m.x), float(maps["map_x"](m.sx))
    rec = m.trim(0.0, float(m.time[-1]))
    pre = pipe.preprocessing(rng, rec, want={})
    if pre.get("trim") and rng.random() < 0.5:
        pre["trim_begin"] = 0.0
    p = pipe.prepared(rec, pre)
    if len(p.x) < 2:
        mon.describe(nontrivial=False)
        return
    off = p.offsets
    st = dict(transform=choice(rng, ("fdbf", "fk", "phaseshift")), fmin=10.0, fmax=60.0, vmin=vmin, vmax=vmax, nvel=6, vspace="linear",
              **{"fdbf-specific": dict(weighting="none", steering="plane")})
    mon.describe(nontrivial=len(p.x) >= 3 and (ns > 1 or len(pre) > 3), pre=pre, processing=st, nsrc=nsrc, nsrc_files=ns, channel=ch, src_format=sfmt, **meta)
    line = pipe.lines(rng, p) if pre["mute"] else []
    muted = pipe.mute_candidates(p, *line, pre.get("window_kwargs")) if line else None

    def run(pre):
        script = ui.Script(picks=[[q] for l in line for q in l])
        with ui.user(script, default_press=lambda: None):
            T = MaswXcorr.run(files, sfiles, ch, pipe.settings_of("time-domain-xcorr", pre, st), **maps)
        mon.check(not script.picks, "mute was asked for but not every pick was taken")
        mon.event("runs")
        return T
    plain = {k: v for k, v in pre.items() if k not in ("pad", "df")}
    T = run(plain)
    rows = gens.matrix(T.array)
    mon.check(T.array.nchannels == len(p.x), "number of receivers", got=T.array.nchannels, want=len(p.x))
    mon.close(np.array([s.x for s in T.array.sensors]), p.x, "receiver positions after the correlation", rtol=1e-9)
    mon.close([T.array.source.x, T.array.source.y, *(s.y for s in T.array.sensors)], [p.sx, *[fy(0.0)] * (1 + len(p.x))], "source and y positions after the correlation", rtol=1e-9)
    L = rows.shape[1]
    # every mute candidate of a receiver gives its own full correlation; one cut must fit all receivers
    cuts = None
    for i in range(len(p.x)):
        ok = set()
        variants = [p.rows[i]] if muted is None else [p.rows[i] * w for w in muted[i]]
        for v in variants:
            full = signal.correlate(v, src, mode="full", method="direct")
            scale = np.max(np.abs(full))
            for s in range(len(full) - L + 1):
                if np.max(np.abs(rows[i] - full[s:s + L])) <= 1e-5 * scale:
                    ok.add(s)
        mon.check(ok, "record is not a piece of its correlation with the mean source signal", receiver=i, length=L, full=len(full))
        cuts = ok if cuts is None else cuts & ok
        mon.event("rows_compared")
    mon.check(cuts, "receivers are cut at different lags", length=L)
    z = len(src) - 1
    if not pre.get("trim") or abs(pre["trim_begin"]) < 1e-9:
        s = min(cuts)
        tmin, tmax = off.min() / vmax, off.max() / vmin
        mon.check(s <= z + int(tmin / dt + 1e-6), "the cut starts after the first arrival", start=(s - z) * dt, arrival=tmin)
        mon.check(s + L - 1 >= min(z + int(tmax / dt - 1e-6), len(full) - 1), "the cut ends before the last arrival", end=(s + L - 1 - z) * dt, arrival=tmax)
        mon.event("coverage_decided")
        mon.event("late_first_arrivals", tmin > 0.5)
    for s in T.array.sensors:
        mon.check(s.nstacks == m.nstacks and abs(s.dt - dt) < 1e-9 and s.delay == 0, "stack count, time step or delay after the correlation",
                  got=(s.nstacks, s.dt, s.delay), want=(m.nstacks, dt, 0))
    c = p.copy(rows=rows, t0=0.0)
    _image(mon, T, c, rows, st, 1)
    mon.event("short_sources", short)
    mon.event("averaged_sources", ns > 1)
    mon.event("integer_sources", sfmt == "SEG2i")
    if pre.get("pad"):
        N = int(choice(rng, (L // 2, L + 11, 2 * L)))
        T2 = run({**plain, "pad": True, "df": 1 / (dt * N)})
        padded = c.pad(1 / (dt * N))
        r2 = gens.matrix(T2.array)
        mon.check(r2.shape == padded.rows.shape, "length after padding", got=r2.shape, want=padded.rows.shape)
        mon.close(r2, padded.rows, "padding changed the correlated records", rtol=1e-9)
        _image(mon, T2, padded, r2, st, padded.multiple)
        mon.event("padded")


def _image(mon, T, m, rows, st, mult):
    n = rows.shape[1]
    f = np.arange(n) / (n * m.dt)
    for lim in ("fmin", "fmax"):
        d = np.sort(np.abs(f - st[lim]))
        if d[1] - d[0] < 1e-6 * f[1]:
            return
    freqs = pipe.check_axes(mon, T, n, m.dt, mult, st)
    if len(freqs) and freqs[0] > 0:
        pipe.check_power(mon, T, rows, m, st, freqs, rtol=1e-5)


def refusal(rng, mon):
    """Source signals that were not sampled like the records, or like one another."""
    d = mon.scratch()
    dt_us = choice(rng, (1000, 2000, 4000))
    other = int(dt_us * choice(rng, (2, 0.5, 1.25)))
    files, models, m, meta = pipe.survey(rng, d, nf=int(rng.integers(1, 3)), n=80, pre=0, dt_us=dt_us, fmt=choice(rng, ("SU", "SEGY", "SEG2")), where="left")
    n = int(rng.integers(20, 120))
    what = choice(rng, ("all", "one", "none"))
    k = int(rng.integers(2, 4)) if what == "one" else int(rng.integers(1, 4))
    bad = int(rng.integers(k))
    sfiles = []
    for i in range(k):
        step = other if what == "all" or (what == "one" and i == bad) else dt_us
        f = d / f"src{i}.su"
        gens.field_file(rng, f, [gens.samples(rng, n, "noise")], step, [0.0], -1.0, fmt=choice(rng, ("SU", "SEGY")))
        sfiles.append(str(f))
    off = m.offsets
    settings = pipe.settings_of("time-domain-xcorr", dict(mute=False), dict(transform="fk", fmin=5, fmax=30, vmin=100.0, vmax=800.0, nvel=4, vspace="linear", **{"fdbf-specific": dict(weighting="none", steering="plane")}))
    run = lambda: MaswXcorr.run(files, sfiles, 0, settings)
    if what == "none":
        run()
        mon.event("accepted")
    else:
        mon.raises(ValueError, run, f"source signals with a time step of {other} us ({what} of {k}) for records of {dt_us} us")
    mon.describe(nontrivial=what != "none", what=what, other=other, **meta, offsets=off)


def sweep(rng, mon):
    """A linear sweep travelling along the array at one velocity; noise on some receivers."""
    d = mon.scratch()
    dt_us = choice(rng, (1000, 2000))
    dt = dt_us * 1e-6
    f0, f1 = float(rng.uniform(5, 12)), float(rng.uniform(40, 70))
    T = float(rng.uniform(0.8, 2.0))
    v = float(np.round(rng.uniform(150, 500), 1))
    nch = int(rng.integers(8, 20))
    x = np.arange(nch) * choice(rng, (1.0, 2.0))
    right = rng.random() < 0.5
    sx = float(x[-1] + 5) if right else -5.0
    n = int((T + 0.8) / dt)
    t = np.arange(n) * dt

    def chirp(tt):
        y = signal.chirp(tt, f0, T, f1)
        w = np.clip(np.minimum(tt, T - tt) / (0.1 * T), 0, 1)
        return np.where((tt >= 0) & (tt <= T), y * np.sin(0.5 * np.pi * w) ** 2, 0.0)
    amps = [chirp(t - abs(xi - sx) / v) for xi in x]
    gens.field_file(rng, d / "rec.su", amps, dt_us, x, sx, nstacks=3, order=[int(i) for i in rng.permutation(nch)])
    nsf = int(rng.integers(1, 3))
    for k in range(nsf):
        gens.field_file(rng, d / f"src{k}.su", [rng.normal(size=n), chirp(t)], dt_us, [0.0, 1.0], -1.0)
    tr = choice(rng, ("fdbf", "fk", "phaseshift"))
    st = dict(transform=tr, fmin=15.0, fmax=35.0, vmin=100.0, vmax=800.0, nvel=141, vspace="linear",
              **{"fdbf-specific": dict(weighting="sqrt", steering="plane")})
    mon.describe(f0=f0, f1=f1, T=T, v=v, nch=nch, spacing=x[1], right=right, transform=tr, dt_us=dt_us)
    T_ = MaswXcorr.run([str(d / "rec.su")], [str(d / f"src{k}.su") for k in range(nsf)], 1,
                       pipe.settings_of("time-domain-xcorr", dict(min_offset=0.0), st))
    peaks = np.array(T_.find_peak_power())
    fr = np.array(T_.frequencies)
    # spatial aliasing and poor resolution are excluded by the wavelength being between two spacings and the array length
    lam = v / fr
    use = (lam > 2.5 * x[1]) & (lam < 1.2 * (x[-1] - x[0]))
    mon.event("sweeps")
    if use.sum() < 3:
        return
    err = np.abs(peaks[use] - v) / v
    mon.check(np.median(err) < 0.04, "peaks of the correlated sweep miss its velocity", median_error=np.median(err), v=v, peaks=peaks[use][:8])
    mon.event("velocities_recovered")


SCENARIOS = {"correlate": (correlate, 130, 2500), "sweep": (sweep, 40, 600), "refusal": (refusal, 30, 300)}
