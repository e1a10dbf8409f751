"""Signal-to-noise ratio against explicit Fourier sums of the two windows evaluated at the labelled frequencies, directly and through workflows."""
import numpy as np

from swprocess import Array1D, Sensor1C, Source
from swprocess.masw import Masw, MaswXcorr
from swprocess.snr import SignaltoNoiseRatio
from .. import gens, pipe, refs, ui
from ..gens import choice

RULE = ("a case computes the ratio of two noise windows of equal or unequal length, with and without padding (also to steps coarser than "
        "the window allows), or runs a workflow with windows before, across and after the trigger together with trim, scripted mute and pad; "
        "non-trivial = more than one frequency, or a refusal")
REQUIRE = {"ratios": 150, "frequencies_compared": 1500, "decimated": 25, "unequal_padded": 30, "workflows": 50, "xcorr_workflows": 30, "refusals_checked": 40,
           "identical_windows": 20, "still_unequal": 20, "muted": 10, "trimmed": 10}


def _array(rows, dt, x):
    return Array1D([Sensor1C(r, dt, xi, 0, 0) for r, xi in zip(rows, x)], Source(float(x[0]) - 5, 0, 0))


def _mean_spectrum(rows, dt, f):
    return np.mean(np.abs(refs.dft(rows, dt, f)), axis=0)


def _limits(rng, n, dt, mult):
    f = np.arange(n) / (n * dt)
    i, j = sorted(rng.choice(np.arange(0, max(3, n // 2)), 2, replace=False))
    lo, hi = f[i] + choice(rng, (0, 0.2, -0.3)) * f[1], f[j] + choice(rng, (0, 0.2, -0.3)) * f[1]
    return float(max(lo, 0)), float(hi)


def _compare(mon, got, freqs, sig, noi, dt):
    s, q = _mean_spectrum(sig, dt, freqs), _mean_spectrum(noi, dt, freqs)
    mon.check(np.shape(got.snr if hasattr(got, "snr") and not isinstance(got, np.ndarray) else got) == freqs.shape, "one ratio per frequency")
    got = np.asarray(got, float)
    use = q > 1e-9 * np.max(q)
    err = np.abs(got[use] * q[use] - s[use])
    mon.event("oracle_decisions", int(use.sum()))
    mon.event("frequencies_compared", int(use.sum()))
    bad = np.nonzero(err > 1e-7 * (s[use] + 1e-6 * s.max()))[0]
    if len(bad):
        k = bad[0]
        mon.check(False, "ratio is not that of the mean spectra at the labelled frequency", frequency=freqs[use][k], got=got[use][k], want=(s / q)[use][k],
                  wrong=len(bad), of=int(use.sum()))


def _still_unequal(mon, sig, noi, dt, x, df, L):
    """Windows that differ in length even when padded: refused, or right at every frequency that is reported."""
    fmin, fmax = 0.1 / (L * dt), 0.4 / dt
    mon.describe(nch=len(sig), dt=dt, n=sig.shape[1], n2=noi.shape[1], df=df, still_unequal=True)
    mon.event("still_unequal")
    try:
        got = SignaltoNoiseRatio.from_array1ds(_array(sig, dt, x), _array(noi, dt, x), fmin=fmin, fmax=fmax, pad_snr=True, df_snr=df)
    except IndexError:
        mon.event("still_unequal_refused")
        return
    if np.size(got.frequencies):
        _compare(mon, got.snr, np.asarray(got.frequencies, float), sig, noi, dt)


def direct(rng, mon):
    nch, dt = int(rng.integers(1, 9)), choice(rng, (0.001, 0.002, 0.004, 1 / 1024))
    n = gens.length(rng, 12, 90)
    n2 = n if rng.random() < 0.4 else int(rng.integers(12, 90))
    pad = True if n2 != n else rng.random() < 0.6
    x = np.cumsum(rng.uniform(1, 3, nch))
    sig = np.array([gens.samples(rng, n, choice(rng, ("noise", "burst", "trend"))) for _ in range(nch)])
    noi = np.array([gens.samples(rng, n2, choice(rng, ("noise", "small", "trend"))) for _ in range(nch)])
    if pad:
        N = int(choice(rng, (max(n, n2) + int(rng.integers(0, 60)), max(4, max(n, n2) // int(rng.integers(2, 5))))))
        (L, m, _), (L2, _, _) = refs.pad_length(n, dt, 1 / (N * dt)), refs.pad_length(n2, dt, 1 / (N * dt))
        df = 1 / (N * dt)
        if L != L2:
            _still_unequal(mon, sig, noi, dt, x, df, L)
            return
    else:
        L, m, df = n, 1, choice(rng, (None, 1.0, 0.01))
    fmin, fmax = _limits(rng, L, dt, m)
    f, keep = refs.axes(L, dt, m, fmin, fmax)
    mon.describe(nontrivial=len(keep) > 1, nch=nch, dt=dt, n=n, n2=n2, pad=pad, df=df, fmin=fmin, fmax=fmax)
    kw = dict(fmin=fmin, fmax=fmax)
    if pad:
        kw.update(pad_snr=True, df_snr=df)
    elif rng.random() < 0.5:
        kw.update(pad_snr=False, df_snr=df)
    got = SignaltoNoiseRatio.from_array1ds(_array(sig, dt, x), _array(noi, dt, x), **kw)
    mon.check(np.shape(got.frequencies) == keep.shape, "frequencies reported for the range and step", got=got.frequencies, want=f[keep], multiple=m)
    mon.close(got.frequencies, f[keep], "frequencies reported for the range and step", rtol=1e-9)
    if len(keep):
        _compare(mon, got.snr, f[keep], sig, noi, dt)
    mon.event("ratios")
    mon.event("decimated", m > 1)
    mon.event("unequal_padded", n != n2)
    same = SignaltoNoiseRatio.from_array1ds(_array(sig, dt, x), _array(sig, dt, x), **kw)
    if len(keep) and np.min(_mean_spectrum(sig, dt, f[keep])) > 0:
        mon.equal(np.array(same.snr), np.ones(np.shape(same.snr)), "identical windows")
        mon.event("identical_windows")


def refused(rng, mon):
    nch, dt = int(rng.integers(1, 6)), 0.002
    n = int(rng.integers(12, 60))
    n2 = n + int(choice(rng, (-1, 1, 5, 40, -7)))
    x = np.arange(nch) * 2.0
    sig, noi = rng.normal(size=(nch, n)), rng.normal(size=(nch, n2))
    kw = choice(rng, ({}, dict(pad_snr=False), dict(pad_snr=False, df_snr=0.5)))
    mon.describe(nch=nch, n=n, n2=n2, kw=kw)
    mon.raises(IndexError, lambda: SignaltoNoiseRatio.from_array1ds(_array(sig, dt, x), _array(noi, dt, x), fmin=5, fmax=50, **kw),
               f"windows of {n} and {n2} samples without padding")


def workflow(rng, mon):
    d = mon.scratch()
    wf = choice(rng, ("time-domain", "single"))
    nf = 1 if wf == "single" else int(rng.integers(1, 4))
    pre_n = int(rng.integers(30, 60))
    n = pre_n + int(rng.integers(60, 140))
    real = pipe.real_survey(rng, d, nf) if rng.random() < 0.06 else None
    files, models, stacked, meta = real or pipe.survey(rng, d, nf=nf, n=n, pre=pre_n, kind=choice(rng, ("trend", "noise")))
    m = models[0] if wf == "single" else stacked
    pre = pipe.preprocessing(rng, m)
    base = m.offset_limits(pre["min_offset"], pre.get("max_offset", np.inf)).detrend()
    p = pipe.prepared(m, pre)
    st = pipe.processing(rng, p, pre)
    if st is None or len(p.x) < 2:
        mon.describe(nontrivial=False)
        return
    dt = m.dt
    # noise anywhere in the untrimmed record, signal anywhere in the trimmed one
    tn, ts = base.time, p.time
    L = int(rng.integers(10, min(len(ts), 50)))
    a, b = int(rng.integers(0, len(tn) - L)), int(rng.integers(0, len(ts) - L))
    pad = rng.random() < 0.6
    Ln = int(rng.integers(10, 50)) if pad or rng.random() < 0.3 else L
    a = min(a, len(tn) - Ln - 1)
    noise, signal_ = (float(tn[a]), float(tn[a + Ln - 1])), (float(ts[b]), float(ts[b + L - 1]))
    N = 2 * max(L, Ln) if rng.random() < 0.5 else int(choice(rng, (max(5, L // 2), max(5, L // 3))))
    df = 1 / (N * dt)
    (P, mu, _), (P2, _, _) = refs.pad_length(L, dt, df), refs.pad_length(Ln, dt, df)
    if pad and P != P2:
        N = 2 * max(L, Ln)
        df = 1 / (N * dt)
        (P, mu, _), (P2, _, _) = refs.pad_length(L, dt, df), refs.pad_length(Ln, dt, df)
    if not pad:
        P, mu = L, 1
    f = np.arange(P) / (P * dt)
    for lim in (st["fmin"], st["fmax"]):
        g = np.sort(np.abs(f - lim))
        if g[1] - g[0] < 1e-6 * f[1]:
            mon.describe(nontrivial=False)
            return
    line = pipe.lines(rng, p) if pre["mute"] else []
    snr = dict(snr=True, noise_begin=noise[0], noise_end=noise[1], signal_begin=signal_[0], signal_end=signal_[1], pad_snr=bool(pad), df_snr=df)
    mon.describe(workflow=wf, pre=pre, processing=st, snr=snr, **meta)

    def run(**kw):
        script = ui.Script(picks=[[q] for l in line for q in l])
        with ui.user(script, default_press=lambda: None):
            return Masw.run(files, pipe.settings_of(wf, pre, st, **kw))
    if not pad and Ln != L:
        mon.raises(IndexError, lambda: run(**snr), f"windows of {L} and {Ln} samples without padding in a workflow")
        return
    T = run(**snr)
    _, keep = refs.axes(P, dt, mu, st["fmin"], st["fmax"])
    mon.check(np.shape(T.snr_frequencies) == keep.shape, "frequencies of the ratio", got=np.array(T.snr_frequencies), want=f[keep], multiple=mu)
    mon.close(np.array(T.snr_frequencies), f[keep], "frequencies of the ratio", rtol=1e-9)
    rows = gens.matrix(T.array)[:, b:b + L]                   # the records the result reports, after trimming and muting
    plain = p.rows[:, b:b + L]
    if not line:
        mon.close(rows, plain, "records behind the ratio", rtol=1e-8, atol=1e-12)
    if len(keep) and np.max(np.abs(rows)) > 1e-6 * np.max(np.abs(plain)):
        _compare(mon, T.snr, f[keep], rows, base.rows[:, a:a + Ln], dt)
    U = run()
    mon.check(U.snr is None, "a ratio without being asked for")
    mon.close(np.array(T.power), np.array(U.power), "computing the ratio changed the power", rtol=1e-10)
    mon.equal(np.array(T.frequencies), np.array(U.frequencies), "computing the ratio changed the frequencies")
    mon.close(gens.matrix(T.array), gens.matrix(U.array), "computing the ratio changed the records", rtol=1e-10)
    mon.event("workflows")
    mon.event("muted", bool(line))
    mon.event("trimmed", bool(pre.get("trim")))


def xcorr(rng, mon):
    """The ratio of the cross-correlation workflow is that of the records before they are correlated."""
    d = mon.scratch()
    dt_us = choice(rng, (2000, 4000, 1000))
    n = int(rng.integers(120, 260))
    files, models, stacked, meta = pipe.survey(rng, d, nf=int(rng.integers(1, 3)), n=n, pre=int(choice(rng, (0, 0, n // 10))), dt_us=dt_us,
                                               fmt=choice(rng, ("SU", "SEGY", "SEG2")), where=choice(rng, ("left", "right")), kind="noise")
    nsrc = int(rng.integers(40, 700))
    gens.field_file(rng, d / "src.su", [rng.normal(size=nsrc) for _ in range(2)], dt_us, [0.0, 1.0], -1.0)
    rec = stacked.trim(0.0, float(stacked.time[-1]))
    pre = pipe.preprocessing(rng, rec)
    pre["mute"] = False
    pre = {k: v for k, v in pre.items() if k not in ("pad", "df")}
    base = rec.offset_limits(pre["min_offset"], pre.get("max_offset", np.inf)).detrend()
    p = pipe.prepared(rec, pre)
    if len(p.x) < 2:
        mon.describe(nontrivial=False)
        return
    dt, tn, ts = p.dt, base.time, p.time
    L = int(rng.integers(20, 50))
    a, b = int(rng.integers(0, len(tn) - L)), int(rng.integers(0, len(ts) - L))
    st = dict(transform=choice(rng, ("fk", "phaseshift")), fmin=2.3 / (L * dt), fmax=min(0.4 / dt, 12.2 / (L * dt)), vmin=100.0, vmax=600.0, nvel=4, vspace="linear",
              **{"fdbf-specific": dict(weighting="none", steering="plane")})
    snr = dict(snr=True, noise_begin=float(tn[a]), noise_end=float(tn[a + L - 1]), signal_begin=float(ts[b]), signal_end=float(ts[b + L - 1]), pad_snr=False, df_snr=1.0)
    mon.describe(pre=pre, processing=st, snr=snr, **meta)
    run = lambda **kw: MaswXcorr.run(files, [str(d / "src.su")], 1, pipe.settings_of("time-domain-xcorr", pre, st, **kw))
    T = run(**snr)
    f, keep = refs.axes(L, dt, 1, st["fmin"], st["fmax"])
    mon.check(np.shape(T.snr_frequencies) == keep.shape, "frequencies of the ratio", got=np.array(T.snr_frequencies), want=f[keep])
    mon.close(np.array(T.snr_frequencies), f[keep], "frequencies of the ratio", rtol=1e-9)
    _compare(mon, T.snr, f[keep], p.rows[:, b:b + L], base.rows[:, a:a + L], dt)
    U = run()
    mon.check(U.snr is None, "a ratio without being asked for")
    mon.close(np.array(T.power), np.array(U.power), "computing the ratio changed the power", rtol=1e-10)
    mon.close(gens.matrix(T.array), gens.matrix(U.array), "computing the ratio changed the records", rtol=1e-10)
    mon.event("xcorr_workflows")


SCENARIOS = {"direct": (direct, 350, 8000), "refused": (refused, 40, 300), "workflow": (workflow, 130, 3000), "xcorr": (xcorr, 40, 800)}
