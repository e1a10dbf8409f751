"""Matrices of uniquely tagged entries before and after each helper, against the row sets, thresholds and densities counted entry by entry; a recording random generator stands in for chance."""
import numpy as np

from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from swprocess.stats import Statistics
from ..core import Skip
from ..gens import choice

RULE = ("a case is a matrix of tagged values with a pattern of gaps (random, staggered, blocks, empty rows or columns) given to one helper; non-trivial = it has gaps")
REQUIRE = {"statistics": 60, "statistics_without_gaps": 25, "suites": 15, "regions_correlated": 10, "correlations_filled": 30, "correlations_filled_before": 20,
           "sorted": 150, "rows_moved": 100, "fills": 150, "entries_filled": 500, "drops": 150, "dropped_columns": 80, "dropped_rows": 80, "kept_all": 10,
           "regions": 200, "several_regions": 40, "densities": 200, "objects": 20, "locations": 300, "draws_tested": 1500}


def _matrix(rng, r=None, c=None, empty=True):
    top = 60 if rng.random() < 0.08 else 14
    r = int(rng.integers(1, top)) if r is None else r
    c = int(rng.integers(1, top)) if c is None else c
    m = (1 + rng.permutation(r * c).reshape(r, c)) + np.round(rng.uniform(0, 0.4, (r, c)), 3)
    if rng.random() < 0.4:                                     # what is measured may be of any sign and magnitude, zero too
        m = (m - choice(rng, (0.0, float(np.median(m)), m.flat[0], 2 * r * c))) * choice(rng, (1.0, -1.0, 1e-6, 1e6))
    style = choice(rng, ("random", "random", "staggered", "staggered", "full", "blocks", "sparse"))
    if style == "random":
        m[rng.random((r, c)) < rng.uniform(0.05, 0.6)] = np.nan
    elif style == "sparse":
        m[rng.random((r, c)) < 0.85] = np.nan
    elif style == "staggered":
        for i in range(r):
            a, b = np.sort(rng.integers(0, c + 1, 2))
            m[i, :a] = np.nan
            m[i, max(b, a + (not empty)):] = np.nan
    elif style == "blocks":
        for _ in range(int(rng.integers(1, 4))):
            i, j = int(rng.integers(r)), int(rng.integers(c))
            m[i:i + int(rng.integers(1, r + 1)), j:j + int(rng.integers(1, c + 1))] = np.nan
    return m


def _rows(m):
    return sorted(tuple((True, 0.0) if np.isnan(v) else (False, float(v)) for v in row) for row in m)


def sort(rng, mon):
    m = _matrix(rng)
    before = m.copy()
    out = Statistics._sort(m)
    mon.check(out.shape == before.shape, "shape after sorting", got=out.shape, want=before.shape)
    mon.check(_rows(out) == _rows(before), "sorting did not permute whole observations", before=before, after=out)
    first = [int(np.flatnonzero(~np.isnan(row))[0]) if np.any(~np.isnan(row)) else len(row) for row in out]
    mon.check(all(a <= b for a, b in zip(first, first[1:])), "observations that start earlier do not come first", starts=first)
    mon.event("sorted")
    mon.event("rows_moved", int(np.sum([not np.array_equal(a, b, equal_nan=True) for a, b in zip(before, out)])))
    again = Statistics._sort(out.copy())
    mon.check(np.array_equal(again, out, equal_nan=True), "sorting again changes the order")
    mon.describe(nontrivial=bool(np.isnan(before).any()), shape=before.shape)


class Dice:
    """A generator whose every draw is the mean plus a fixed number of standard deviations."""

    def __init__(self, k):
        self.k, self.draws = k, 0

    def normal(self, loc=0.0, scale=1.0, size=None):
        v = np.asarray(loc, float) + self.k * np.asarray(scale, float)
        v = np.broadcast_to(v, size).copy() if size is not None else v
        self.draws += v.size
        return v if v.ndim else float(v)

    def standard_normal(self, size=None, **_):
        return self.normal(0, 1, size)


def fill(rng, mon):
    m = _matrix(rng, r=int(rng.integers(2, 14)))
    gaps = np.isnan(m)
    before = m.copy()
    given = rng.random() < 0.6
    means, stds = rng.uniform(50, 500, m.shape[1]), rng.uniform(0, 30, m.shape[1])
    if rng.random() < 0.5:
        means = rng.choice((-1.0, 1.0, 0.0, 0.01), m.shape[1]) * means
    kw = dict(means=choice(rng, (np.array, list))(means), stddevs=choice(rng, (np.array, list))(stds)) if given else {}
    if not given:
        for c in range(m.shape[1]):                            # at least two values, so that mean and deviation exist
            if np.sum(~gaps[:, c]) < 2:
                m[:2, c] = before[:2, c] = 1e5 + 2 * c + np.arange(2)
        gaps = np.isnan(m)
        means = np.array([np.mean(before[~gaps[:, c], c]) for c in range(m.shape[1])])
        stds = np.array([np.sqrt(np.sum((before[~gaps[:, c], c] - means[c]) ** 2) / (np.sum(~gaps[:, c]) - 1)) for c in range(m.shape[1])])
    k = choice(rng, (2.0, -1.0, 0.5))
    dice = Dice(k)
    with mon.unchanged("the given means and deviations", kw):
        out = Statistics._fill_data(m.copy(), rng=dice, **kw)
    mon.equal(out[~gaps], before[~gaps], "filling changed a value that was there")
    want = np.broadcast_to(means + k * stds, out.shape)
    mon.close(out[gaps], want[gaps], "filled values", rtol=1e-9, atol=1e-9 * max(float(np.max(np.abs(want), initial=0)), float(np.nanmax(np.abs(before), initial=0))))
    mon.check(dice.draws == np.sum(gaps), "draws made", got=dice.draws, want=int(np.sum(gaps)))
    mon.event("fills")
    mon.event("entries_filled", int(np.sum(gaps)))
    seed = int(rng.integers(1e6))
    a, b = (Statistics._fill_data(m.copy(), rng=np.random.default_rng(seed), **kw) for _ in range(2))
    mon.equal(a, b, "filling with the same generator twice")
    mon.equal(a[~gaps], before[~gaps], "filling changed a value that was there")
    mon.check(not np.isnan(a).any(), "gaps remain after filling")
    c = Statistics._fill_data(m.copy(), **kw)
    mon.check(not np.isnan(c).any(), "gaps remain after filling with the default generator")
    mon.equal(c[~gaps], before[~gaps], "the default generator changed a value that was there")
    mon.describe(nontrivial=bool(gaps.any()), shape=m.shape, given=given)


def draws(rng, mon):
    """Many gaps in one column: their distribution."""
    n = 400
    std = float(rng.uniform(1, 30))
    mean = float(choice(rng, (rng.uniform(50, 500), -rng.uniform(50, 500), 0.0, std * rng.uniform(-4, 4))))
    m = np.full((n, 2), np.nan)
    m[:, 1] = np.arange(n)
    kw = {} if rng.random() < 0.3 else dict(rng=np.random.default_rng(int(rng.integers(1e9))))
    out = Statistics._fill_data(m, means=[mean, 0.0], stddevs=[std, 1.0], **kw)
    z = (out[:, 0] - mean) / std
    mon.check(abs(np.mean(z)) < 6 / np.sqrt(n), "mean of the filled values", got=np.mean(z))
    mon.check(abs(np.std(z) - 1) < 6 / np.sqrt(2 * n), "deviation of the filled values", got=np.std(z))
    mon.check(abs(np.mean(z ** 3)) < 6 * np.sqrt(15 / n) and abs(np.mean(z ** 4) - 3) < 6 * np.sqrt(96 / n), "the filled values are not normal")
    mon.check(len(np.unique(z)) == n, "the same value was drawn more than once")
    mon.check(abs(np.mean(z[1:] * z[:-1])) < 6 / np.sqrt(n), "the filled values depend on each other")
    mon.event("draws_tested", n)
    mon.describe(nontrivial=True, mean=mean, std=std)


def _low(rows, percent, count):
    out = []
    for row in rows:
        n = int(np.sum(~np.isnan(row)))
        out.append(n < count or (n / len(row) if len(row) else 0) < percent)
    return np.array(out, bool)


def drop(rng, mon):
    m = _matrix(rng)
    r, c = m.shape
    xx = np.sort(rng.uniform(1, 100, c))
    kw = dict(drop_observation_if_fewer_percent=choice(rng, (0, 0.8, 0.5, 0.3, 1.0)), drop_sample_if_fewer_percent=choice(rng, (0, 0.4, 0.7, 0.2, 1.0)),
              drop_sample_if_fewer_count=choice(rng, (0, 1, 3, 2, 5)))
    full = {**dict(drop_observation_if_fewer_percent=0.8, drop_sample_if_fewer_percent=0.4, drop_sample_if_fewer_count=3), **kw}
    if rng.random() < 0.2:
        left = choice(rng, sorted(kw))
        full[left] = {"drop_observation_if_fewer_percent": 0.8, "drop_sample_if_fewer_percent": 0.4, "drop_sample_if_fewer_count": 3}[left]
        kw.pop(left)
    po, ps, pc = full["drop_observation_if_fewer_percent"], full["drop_sample_if_fewer_percent"], full["drop_sample_if_fewer_count"]
    with mon.unchanged("the given matrix", xx, m):
        gx, gm = Statistics._drop(xx, m, **kw)
    gx, gm = np.asarray(gx), np.asarray(gm)
    mon.event("drops")

    def utility(x):
        gaps, values = np.sum(np.isnan(m)) - np.sum(np.isnan(x)), np.sum(~np.isnan(m)) - np.sum(~np.isnan(x))
        return gaps / (values + 1)
    cols = ~_low(m.T, ps, pc)
    one = m[:, cols]
    rows1 = ~_low(one, po, 0) if one.size else np.ones(r, bool)
    rows = ~_low(m, po, 0)
    two = m[rows]
    cols2 = ~_low(two.T, ps, pc) if two.size else None
    options = []
    options.append((utility(one[rows1]), xx[cols], one[rows1]))
    for keep in ([cols2] if cols2 is not None else [np.ones(c, bool), np.zeros(c, bool)]):       # nothing left: locations may stay or go
        options.append((utility(two[:, keep]), xx[keep], two[:, keep]))
    fits = [u for u, x, w in options if np.array_equal(gx, x) and (gm.size == 0 and w.size == 0 or np.array_equal(gm, w, equal_nan=True))]
    mon.check(bool(fits), "what remains is neither of the two ways to drop", matrix=m, kw=kw, got=(gx, gm), options=options)
    mon.check(max(fits) >= max(u for u, _, _ in options) - 1e-9, "the other way to drop removes more gaps per value", got=fits, options=[o[0] for o in options])
    mon.event("dropped_columns", len(gx) < c)
    mon.event("dropped_rows", len(gm) < r)
    mon.event("kept_all", gm.shape == m.shape)
    mon.describe(nontrivial=bool(np.isnan(m).any()), shape=m.shape, **kw)


def regions(rng, mon):
    while True:
        m = _matrix(rng, empty=False)
        if not np.isnan(m).all(axis=0).any():
            break
    # observations in order of their first location, as sorting leaves them
    m = m[np.argsort([int(np.argmax(~np.isnan(row))) if (~np.isnan(row)).any() else m.shape[1] for row in m], kind="stable")]
    t = choice(rng, (0, 0.5, 0.8, 0.9, 1, 0.3, float(np.round(rng.uniform(0, 1), 2))))
    kw = dict(density_threshold=t)
    if rng.random() < 0.15:
        t, kw = 0.9, {}
    with mon.unchanged("the given matrix", m):
        out = Statistics._identify_regions(m, **kw)
    r, c = m.shape
    at = 0
    for (a, b), (e, f) in out:
        mon.check(0 <= a < e <= r and 0 <= b < f <= c, "a region lies outside of the matrix or is empty", region=((a, b), (e, f)), shape=m.shape)
        dense = np.sum(~np.isnan(m[a:e, b:f])) / ((e - a) * (f - b))
        mon.check(dense >= t - 1e-12, "density of a region", got=dense, want=t, region=((a, b), (e, f)), matrix=m)
        mon.check(b == at, "the regions do not follow each other", got=out)
        at = f
        mon.event("regions")
    mon.check(at == c, "the regions do not cover every location", got=out, shape=m.shape)
    mon.event("several_regions", len(out) > 1)
    for _ in range(3):
        a, e = np.sort(rng.integers(0, r, 2))
        b, f = np.sort(rng.integers(0, c, 2))
        want = np.sum(~np.isnan(m[a:e + 1, b:f + 1])) / ((e - a + 1) * (f - b + 1))
        got = Statistics._calc_density(m, (int(a), int(b)), (int(e), int(f)))
        mon.close(got, want, "density between two corners", rtol=1e-12)
        mon.event("densities")
    mon.describe(nontrivial=bool(np.isnan(m).any()), shape=m.shape, threshold=t, found=len(out))


def columns(rng, mon):
    """Mean and sample deviation of each location, gaps left out."""
    m = _matrix(rng, r=int(rng.integers(2, 14)))
    for c in range(m.shape[1]):
        if np.sum(~np.isnan(m[:, c])) < 2:
            m[:2, c] = 7.0 + np.arange(2) * (c + 1)
    with mon.unchanged("the given matrix", m):
        mean, std = Statistics._calc_stat(m)
    mon.check(np.shape(mean) == np.shape(std) == (m.shape[1],), "one mean and deviation per location", got=(np.shape(mean), np.shape(std)))
    for c in range(m.shape[1]):
        v = m[~np.isnan(m[:, c]), c]
        top = np.max(np.abs(v))
        avg = float(np.sum(v / len(v)))
        mon.close(mean[c], avg, "mean of a location", rtol=1e-9, atol=1e-12 * top)
        mon.close(std[c], np.sqrt(np.sum((v - avg) ** 2) / (len(v) - 1)), "deviation of a location", rtol=1e-6, atol=1e-9 * top)
    mon.event("locations", m.shape[1])
    mon.describe(nontrivial=bool(np.isnan(m).any()), shape=m.shape)


def objects(rng, mon):
    n = int(rng.integers(1, 9))
    parts = [rng.normal(size=n), rng.normal(size=n), np.abs(rng.normal(size=n)), rng.normal(size=(n, n))]
    given = [choice(rng, (lambda v: v, lambda v: v.tolist()))(p) for p in parts]
    with mon.unchanged("an argument", given):
        s = Statistics(*given)
    for got, want, what in zip((s.xx, s.mean, s.stddev, s.corr), parts, ("locations", "mean", "deviation", "correlation")):
        mon.equal(np.asarray(got), want, what)
    for p in parts:
        p[...] = -1
    mon.check(not (s.xx == -1).any() and not (s.corr == -1).any(), "the statistics share the caller's arrays")
    mon.event("objects")
    mon.describe(nontrivial=n > 1, n=n)


def _curves(rng):
    """Velocities of several observations over locations, with or without gaps."""
    n, m = int(rng.integers(4, 30)), int(rng.integers(2, 20))
    xx = np.geomspace(float(rng.uniform(1, 10)), float(rng.uniform(30, 200)), m)
    d = 300 + xx + rng.normal(size=(n, 1)) * rng.uniform(2, 25) + rng.normal(size=(n, m)) * rng.uniform(1, 8)
    style = choice(rng, ("full", "full", "few", "staggered", "staggered"))
    if style == "few":
        d[rng.random((n, m)) < 0.08] = np.nan
    elif style == "staggered":
        for i in range(n):
            a, b = np.sort(rng.integers(0, m + 1, 2))
            if rng.random() < 0.6:
                d[i, :min(a, m - 1)] = np.nan
            if rng.random() < 0.4:
                d[i, max(b, a + 1):] = np.nan
    return xx, d


def statistics(rng, mon):
    """The statistics of a whole matrix, or of a suite."""
    xx, d = _curves(rng)
    kw = dict(density_threshold=float(rng.uniform(0.5, 1))) if rng.random() < 0.5 else {}
    if rng.random() < 0.3:
        fine = np.geomspace(xx[0], xx[-1], int(rng.integers(2, 12)))
        kw = {}
        suite = PeaksSuite.from_peaks([Peaks(row[ok] / xx[ok], row[ok], f"{i}") for i, row in enumerate(d) for ok in (~np.isnan(row),) if ok.sum() > 1])
        if len(suite) < 3:
            raise Skip("too few members")
        _, d = suite.to_array("wavelength", "velocity", fine)
        xx = fine
        run = lambda: Statistics.from_peakssuite(suite, xx)
        mon.event("suites")
    else:
        run = lambda: Statistics.from_data_matrix(xx, d, **kw)
    gaps = np.isnan(d)
    keep = np.sum(~gaps, axis=0) >= 3
    mon.describe(nontrivial=bool(gaps.any()), shape=d.shape, gaps=int(gaps.sum()), kept=int(keep.sum()), **kw)
    if not keep.any():
        raise Skip("no locations left")
    data = d[:, keep]
    try:
        with mon.unchanged("the locations and data given", xx, d):
            s = run()
    except (ValueError, RuntimeError) as e:                      # too sparse to replace gaps, or no decay fits the correlation
        mon.check(bool(np.isnan(data).any()) and ("attempts" in str(e) or isinstance(e, RuntimeError)), f"statistics refused: {e}")
        mon.event("statistics_given_up")
        return
    mon.event("statistics")
    mon.event("statistics_without_gaps", not np.isnan(data).any())
    mon.equal(s.xx, xx[keep], "locations of the statistics")
    mon.close(s.mean, np.nanmean(data, axis=0), "means of the locations", rtol=1e-9)
    mon.close(s.stddev, np.nanstd(data, axis=0, ddof=1), "deviations of the locations", rtol=1e-7)
    k = int(keep.sum())
    mon.check(np.shape(s.corr) == (k, k), "the correlation is not a matrix of locations by locations", got=np.shape(s.corr), want=(k, k))
    if not np.isnan(data).any():
        mon.close(s.corr, np.corrcoef(data, rowvar=False).reshape(k, k), "correlation of data without gaps", rtol=1e-7, atol=1e-9)
        return
    rows = Statistics._sort(data.copy())
    for (r0, c0), (r1, c1) in Statistics._identify_regions(rows, **({"density_threshold": 0.8} | kw)):
        if r1 - r0 < 3:
            continue
        part = rows[r0:r1, c0:c1]
        full = np.flatnonzero(~np.isnan(part).any(axis=0))
        if len(full) and np.all(np.ptp(part[:, full], axis=0) > 0):
            at = c0 + full
            mon.close(s.corr[np.ix_(at, at)], np.corrcoef(part[:, full], rowvar=False).reshape(len(at), len(at)), "correlation of locations without gaps in a dense region", rtol=1e-7, atol=1e-9)
            mon.event("regions_correlated")


def fill_correlation(rng, mon):
    """Gaps in a correlation matrix: what is known stays."""
    m = int(rng.integers(3, 15))
    xx = np.geomspace(1, float(rng.uniform(10, 100)), m)
    if rng.random() < 0.6:                                     # steps that differ
        xx = np.exp(np.cumsum(rng.uniform(0.1, 0.6, m)))
    known = np.power(float(rng.uniform(0.3, 0.95)), np.abs(np.log(xx)[:, None] - np.log(xx)[None, :]))
    corr = known.copy()
    a = int(rng.integers(1, m))
    corr[:a, a:] = corr[a:, :a] = np.nan
    corr[np.triu(rng.random((m, m)) < 0.1, 1)] = np.nan
    corr[np.tril(rng.random((m, m)) < choice(rng, (0, 0.1)), -1)] = np.nan
    gaps = np.isnan(corr)
    with mon.unchanged("the locations given", xx):
        out = Statistics._fill_corr(xx, corr.copy())
    mon.describe(nontrivial=True, m=m, a=a, gaps=int(gaps.sum()))
    mon.equal(out[~gaps], known[~gaps], "known correlations changed by filling gaps")
    for r in range(m):                                         # an exact decay is continued
        right = ~gaps[r, r:]
        if right.sum() > 2 and not right.all():
            mon.close(out[r, r:], known[r, r:], "gaps of a correlation that decays exponentially", rtol=1e-3, atol=1e-4)
            mon.event("correlations_filled")
        left = ~gaps[r, :r]
        if left.sum() > 2 and not left.all():
            mon.close(out[r, :r], known[r, :r], "gaps before the diagonal of a correlation that decays exponentially", rtol=1e-3, atol=1e-4)
            mon.event("correlations_filled_before")


SCENARIOS = {"statistics": (statistics, 60, 2000), "fill_correlation": (fill_correlation, 30, 1000), "sort": (sort, 200, 8000), "fill": (fill, 200, 6000), "draws": (draws, 6, 100), "drop": (drop, 220, 8000), "regions": (regions, 220, 8000),
             "objects": (objects, 30, 500), "columns": (columns, 60, 3000)}
