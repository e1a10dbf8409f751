"""Cross-correlation alignment against a direct correlation over every lag."""
import numpy as np

from swprocess import ActiveTimeSeries
from .. import gens
from ..gens import choice, rec_state

RULE = ("a case is a pair of records (shifted copies with noise, polarity changes, unrelated noise) aligned and stacked, correlated at every lag, or "
        "a refused pair; non-trivial = the best shift is not zero or the refusal is observed")
REQUIRE = {"alignments": 100, "positive_shifts": 20, "negative_shifts": 20, "refusals_checked": 30, "correlations": 100, "unequal_lengths": 30, "aligned_unequal": 60, "moved_out": 5}


def _pair(rng):
    n = int(choice(rng, (rng.integers(3, 30), rng.integers(30, 150))))
    dt, delay = choice(rng, gens.DTS), None
    delay = gens.delay_of(rng, dt, n)
    kind = choice(rng, ("shifted", "shifted", "flipped", "noise", "offset", "pulse"))
    base = rng.normal(size=3 * n)
    k = int(rng.integers(-(n - 1), n)) if rng.random() < 0.5 else int(rng.integers(-max(1, n // 4), max(1, n // 4) + 1))
    a, b = base[n:2 * n].copy(), base[n + k:2 * n + k] + 0.1 * rng.normal(size=n)
    if kind == "flipped":
        b = -b
    elif kind == "noise":
        b = rng.normal(size=n)
    elif kind == "offset":
        a, b = a + 3, b + 3
    elif kind == "pulse":
        p = int(rng.integers(n))
        q = int(rng.integers(n))
        a, b = rng.normal(size=n) * 1e-3, rng.normal(size=n) * 1e-3
        a[p] += 10
        b[q] += 10
    return a, b, n, dt, delay, kind


def _lags(a, b):
    """Correlation at every shift s of b: sum a[i] b[i-s]."""
    na, nb = len(a), len(b)
    out = {}
    for s in range(-(nb - 1), na):
        i0, i1 = max(0, s), min(na, nb + s)
        out[s] = float(np.dot(a[i0:i1], b[i0 - s:i1 - s]))
    return out


def _shifted(b, s):
    out = np.zeros_like(b)
    if s >= 0:
        out[s:] = b[:len(b) - s]
    else:
        out[:s] = b[-s:]
    return out


def align(rng, mon):
    a, b, n, dt, delay, kind = _pair(rng)
    lags = _lags(a, b)
    order = sorted(lags, key=lags.get)
    best = order[-1]
    margin = lags[best] - lags[order[-2]]
    scale = np.linalg.norm(a) * np.linalg.norm(b)
    mon.describe(nontrivial=best != 0 and margin > 1e-6 * scale, n=n, kind=kind, best=best, dt=dt, delay=delay, a0=a[0])
    if margin <= 1e-6 * scale:                               # tie within rounding: not decidable
        return
    nst = int(rng.integers(1, 5))
    A = ActiveTimeSeries(a, dt, nstacks=nst, delay=delay)
    B = ActiveTimeSeries(b, dt, nstacks=nst, delay=delay)
    sa, sb = rec_state(A), rec_state(B)
    shift, moved = ActiveTimeSeries.crosscorr_shift(A, B)
    mon.event("alignments")
    mon.event("positive_shifts" if best > 0 else "negative_shifts" if best < 0 else "zero_shifts")
    mon.check(int(shift) == shift and int(shift) == best, "shift is not the one of largest correlation", got=shift, want=best)
    mon.equal(moved, _shifted(b, best), "aligned record")
    nb = int(rng.integers(1, 6))
    C = ActiveTimeSeries(b, dt, nstacks=nb, delay=delay)
    sc = rec_state(C)
    S = ActiveTimeSeries.from_cross_stack(A, C)
    mon.check(S.nstacks == nst + nb, "stack counts do not add up", got=S.nstacks, want=nst + nb)
    mon.close(S.amplitude, (a * nst + _shifted(b, best) * nb) / (nst + nb), "cross-correlated stack", rtol=1e-9)
    mon.check(S.dt == dt and S.delay == delay, "time step or delay of the stack")
    S.stack_append(A)                                        # the results are independent of a and b
    moved[:] = 7.0
    for obj, st, nm in ((A, sa, "a"), (B, sb, "b"), (C, sc, "b")):
        for k, v in st.items():
            mon.equal(getattr(obj, k), v, f"{nm}.{k} was modified")


def processed(rng, mon):
    """Records that were trimmed (possibly after the trigger) or padded before they are aligned."""
    a, b, n, dt, delay, kind = _pair(rng)
    A, B = (ActiveTimeSeries(v, dt, nstacks=2, delay=delay) for v in (a, b))
    how = choice(rng, ("trim", "pad", "both"))
    if how != "pad" and n > 8:
        t = np.array(A.time)
        i, j = int(rng.integers(1, n // 2 - 1)), int(rng.integers(n // 2 + 1, n))
        for r in (A, B):
            r.trim(float(t[i]), float(t[j]))
    if how != "trim":
        N = int(rng.integers(2, 2 * n))
        for r in (A, B):
            r.zero_pad(1 / (N * dt))
    a, b = np.array(A.amplitude), np.array(B.amplitude)
    lags = _lags(a, b)
    order = sorted(lags, key=lags.get)
    best = order[-1]
    scale = np.linalg.norm(a) * np.linalg.norm(b)
    mon.describe(nontrivial=best != 0, n=n, kind=kind, how=how, best=best, delay=A.delay)
    if lags[best] - lags[order[-2]] <= 1e-6 * scale:
        return
    sa, sb = rec_state(A), rec_state(B)
    shift, moved = ActiveTimeSeries.crosscorr_shift(A, B)
    mon.event("alignments")
    mon.check(int(shift) == best, "shift is not the one of largest correlation", got=shift, want=best)
    mon.equal(moved, _shifted(b, best), "aligned record")
    S = ActiveTimeSeries.from_cross_stack(A, B)
    mon.close(S.amplitude, (a + _shifted(b, best)) / 2, "cross-correlated stack", rtol=1e-9)
    mon.check(S.nstacks == 4, "stack counts do not add up", got=S.nstacks)
    mon.close(S.time, sa["time"], "the stack's samples moved in time", atol=1e-9 * dt)
    for obj, st, nm in ((A, sa, "a"), (B, sb, "b")):
        for k, v in st.items():
            mon.equal(getattr(obj, k), v, f"{nm}.{k} was modified")


def correlation(rng, mon):
    """The correlation itself, also of records of different length and of a part of the lags."""
    a, b, n, dt, delay, kind = _pair(rng)
    if rng.random() < 0.4:
        b = gens.samples(rng, max(2, n + int(rng.integers(-n // 2, n))), "noise")
    na, nb = len(a), len(b)
    nst = int(rng.integers(1, 5))
    A, B = ActiveTimeSeries(a, dt, nstacks=nst, delay=delay), ActiveTimeSeries(b, dt, nstacks=nst, delay=delay)
    kw = choice(rng, (None, {}, dict(mode="full"), dict(mode="same"), dict(mode="valid"), dict(method="direct"), dict(mode="same", method="fft")))
    if na < nb and kw and kw.get("mode") == "valid":
        kw = dict(mode="full")
    lags = _lags(a, b)
    want = np.array([lags[s] for s in range(-(nb - 1), na)])
    mode = (kw or {}).get("mode", "full")
    if mode == "same":
        want = want[(nb - 1) // 2:(nb - 1) // 2 + na]
    elif mode == "valid":
        want = want[nb - 1:na]
    sa, sb = rec_state(A), rec_state(B)
    with mon.unchanged("the options", kw):
        got = ActiveTimeSeries.crosscorr(A, B) if kw is None else ActiveTimeSeries.crosscorr(A, B, correlate_kwargs=kw)
    tol = 1e-10 * np.linalg.norm(a) * np.linalg.norm(b)
    mon.check(np.shape(got) == want.shape, "number of lags", got=np.shape(got), want=want.shape)
    mon.check(bool(np.all(np.abs(np.asarray(got) - want) <= tol)), "correlation at some lag", got=got, want=want)
    mon.event("correlations")
    # attributes that may differ are only those excluded
    C = ActiveTimeSeries(b, dt, nstacks=nst + 1, delay=delay)
    mon.raises(ValueError, lambda: ActiveTimeSeries.crosscorr(A, C), "correlating records of different stack counts")
    mon.equal(np.shape(ActiveTimeSeries.crosscorr(A, C, exclude=("nsamples", "nstacks"))), (na + nb - 1,), "lags of records whose stack counts may differ")
    if na != nb:
        mon.raises(ValueError, lambda: ActiveTimeSeries.crosscorr(A, B, exclude=()), "correlating records of different length that must agree")
        mon.event("unequal_lengths")
    for obj, st, nm in ((A, sa, "a"), (B, sb, "b")):
        for k, v in st.items():
            mon.equal(getattr(obj, k), v, f"{nm}.{k} was modified")
    mon.describe(nontrivial=True, na=na, nb=nb, kind=kind, options=kw, dt=dt, a0=a[0])


def unequal(rng, mon):
    """Records of different length, as allowed when the lengths are excluded from the comparison."""
    a, _, na, dt, delay, kind = _pair(rng)
    nb = max(2, na + int(rng.integers(-na + 2, na)))
    k = int(rng.integers(-(nb - 1), na))
    b = 0.1 * rng.normal(size=nb)                              # b is the part of a that begins at sample k
    i, j = max(0, k), min(na, k + nb)
    b[i - k:j - k] += a[i:j]
    lags = _lags(a, b)
    order = sorted(lags, key=lags.get)
    best = order[-1]
    mon.describe(nontrivial=best != 0, na=na, nb=nb, kind=kind, best=best, dt=dt, delay=delay, a0=a[0])
    if lags[best] - lags[order[-2]] <= 1e-6 * np.linalg.norm(a) * np.linalg.norm(b):
        return
    nst = rng.integers(1, 5, 2)
    A, B = (ActiveTimeSeries(v, dt, nstacks=int(m), delay=delay) for v, m in zip((a, b), nst))
    with mon.unchanged("the records", a, b):
        shift, moved = ActiveTimeSeries.crosscorr_shift(A, B, exclude=("nsamples", "nstacks"))
    mon.check(int(shift) == best, "shift is not the one of largest correlation", got=shift, want=best)
    want = np.zeros(nb)
    for m in range(nb):
        if 0 <= m + best < nb:
            want[m + best] = b[m]
    mon.equal(np.asarray(moved), want, "aligned record")
    mon.equal(np.asarray(A.amplitude), a, "a was modified")
    mon.equal(np.asarray(B.amplitude), b, "b was modified")
    mon.event("aligned_unequal")
    mon.event("moved_out", best >= nb)


def refusal(rng, mon):
    a, b, n, dt, delay, kind = _pair(rng)
    if delay == 0:
        delay = -dt
    what = choice(rng, ("dt", "delay", "length", "other"))
    A = ActiveTimeSeries(a, dt, nstacks=2, delay=delay)
    B = {"dt": lambda: ActiveTimeSeries(b, dt * choice(rng, (2, 0.5, 1.001)), nstacks=2, delay=delay),
         "delay": lambda: ActiveTimeSeries(b, dt, nstacks=2, delay=choice(rng, (0.0, delay - dt, delay / 2))),
         "length": lambda: ActiveTimeSeries(gens.samples(rng, n + int(choice(rng, (1, 5))), "noise"), dt, nstacks=2, delay=delay),
         "other": lambda: ActiveTimeSeries(b, dt * 3, nstacks=5, delay=0)}[what]()
    mon.describe(what=what, n=n, dt=dt, delay=delay, a0=a[0])
    sa, sb = rec_state(A), rec_state(B)
    mon.raises(ValueError, lambda: ActiveTimeSeries.from_cross_stack(A, B), f"cross-stacking records with different {what}")
    mon.raises(ValueError, lambda: ActiveTimeSeries.crosscorr_shift(A, B), f"aligning records with different {what}")
    for obj, st in ((A, sa), (B, sb)):
        for k, v in st.items():
            mon.equal(getattr(obj, k), v, f"a refused alignment changed {k}")


SCENARIOS = {"align": (align, 400, 15000), "processed": (processed, 150, 5000), "correlation": (correlation, 100, 4000), "refusal": (refusal, 100, 2000), "unequal": (unequal, 120, 5000)}
