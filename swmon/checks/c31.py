"""Means, deviations, dropped locations and correlations against per-location statistics of the independently gridded suite."""
import numpy as np

from .. import pk
from ..core import Skip
from ..gens import choice
from .c30 import _reject

RULE = ("a case is a suite of three or more members gridded at fewer than a hundred locations; non-trivial = some locations lack some members or are dropped")
REQUIRE = {"statistics": 200, "locations_kept": 2000, "locations_dropped": 500, "correlations": 100, "with_substitution": 60, "refusals": 30,
           "empty_members": 10}


def _suite(rng, n):
    """Members that overlap well, each with its own range."""
    mode = choice(rng, ("own", "overlap", "overlap", "overlap"))
    if mode == "own":
        s, ms = pk.suite(rng, n=n, same_attrs=True, ints=False)
        return s, ms
    pairs = []
    for name in pk.idents(rng, n):
        k = int(rng.integers(2, 25))
        lo, hi = sorted(rng.uniform(1, 60, 2))
        if rng.random() < 0.6:
            lo, hi = rng.uniform(1, 8), rng.uniform(30, 60)
        f = rng.uniform(lo, hi, k)
        if rng.random() < 0.7:
            f = np.sort(f)
        shape = (k,)
        if rng.random() < 0.3:
            shape = (int(rng.integers(1, 4)), k)
            f = np.tile(f, (shape[0], 1))
        d = dict(frequency=f, velocity=rng.uniform(80, 900, shape))
        if len(shape) == 2 and rng.random() < 0.6:
            d["power"] = rng.permutation(np.arange(1.0, f.size + 1)).reshape(shape)
        pairs.append(pk.make(d, name))
    s = pk.PeaksSuite.from_peaks([p for p, _ in pairs])
    return s, [m for _, m in pairs]


def statistics(rng, mon):
    n = int(rng.integers(3, 10)) if rng.random() < 0.9 else int(rng.integers(10, 60))
    mon.event("large_suites", n > 30)
    s, ms = _suite(rng, n)
    for p, m in zip(s, ms):
        if rng.random() < 0.3:
            _reject(rng, p, m)
        if rng.random() < 0.03:
            p.reject_limits_outside("frequency", (1e6, None))
            m.reject_limits("frequency", 1e6, None)
    xt = choice(rng, ("frequency", "frequency", "wavelength", "slowness"))
    yt = choice(rng, ("velocity", "velocity", "slowness", "wavelength", "frequency"))
    if not pk.well_spaced(ms, xt):
        raise Skip("two peaks at one location")
    xx = pk.grid(rng, ms, xt, n=int(rng.integers(1, 99)) if rng.random() < 0.3 else int(rng.integers(1, 25)))
    count = int(rng.integers(1, n + 2))
    kw = {} if rng.random() < 0.3 else dict(drop_sample_if_fewer_count=count)
    count = kw.get("drop_sample_if_fewer_count", 3)
    want_corr, subst = rng.random() < 0.5, rng.random() < 0.5
    if want_corr or rng.random() < 0.5:
        kw["ignore_corr"] = not want_corr
    if subst:
        kw["mean_substitution"] = True
    table = np.array([pk.gridded(m, xt, yt, xx) for m in ms])
    members = np.sum(~np.isnan(table), axis=0)
    keep = members >= count
    if want_corr and keep.sum() < 2:
        kw["ignore_corr"], want_corr = True, False
    arg = xx if rng.random() < 0.5 else xx.tolist()
    with mon.unchanged("the suite or the locations", s, arg):
        got = s.statistics(xt, yt, arg, **kw)
    mon.check(len(got) == 4, "number of results", got=len(got))
    gx, mean, std, corr = got
    mon.equal(gx, xx[keep], f"locations kept with at least {count} members")
    data = table[:, keep]
    wmean = np.array([np.mean(c[~np.isnan(c)]) for c in data.T])
    wstd = np.array([np.std(c[~np.isnan(c)], ddof=1) if np.sum(~np.isnan(c)) > 1 else np.nan for c in data.T])
    mon.close(mean, wmean, "mean", rtol=1e-8)
    mon.close(std, wstd, "sample standard deviation", rtol=1e-8, atol=1e-9 * np.max(np.abs(wmean), initial=0))
    mon.event("statistics")
    mon.event("locations_kept", int(keep.sum()))
    mon.event("locations_dropped", int((~keep).sum()))
    mon.event("empty_members", int(np.sum(np.isnan(table).all(axis=1))))
    if not want_corr:
        mon.check(corr is None, "correlations although not asked for")
    else:
        _correlations(mon, corr, data, wmean, wstd, subst)
    mon.describe(nontrivial=bool(np.isnan(table).any()), n=n, xt=xt, yt=yt, count=count, kw=sorted(kw), locations=xx, kept=int(keep.sum()))


def _correlations(mon, corr, data, mean, std, subst):
    corr = np.asarray(corr)
    k = data.shape[1]
    mon.check(corr.shape == (k, k), "shape of the correlations", got=corr.shape, want=(k, k))
    rows = ~np.isnan(data).all(axis=1)
    if not rows.all() and not subst:
        return                                                 # whether such a member still counts is not stated
    use = data.copy()
    if subst:
        use = np.where(np.isnan(use), mean, use)
    clear = ~np.isnan(std) & (std > 1e-6 * np.abs(mean))
    mon.event("with_substitution", subst)
    for i in range(k):
        for j in range(k):
            if not (clear[i] and clear[j]):
                continue
            a, b = use[:, i], use[:, j]
            if np.isnan(a).any() or np.isnan(b).any():
                mon.check(np.isnan(corr[i, j]), "correlation of locations with missing values", i=i, j=j, got=corr[i, j])
                continue
            a, b = a - a.mean(), b - b.mean()
            want = float(np.sum(a * b) / np.sqrt(np.sum(a * a) * np.sum(b * b)))
            mon.check(abs(corr[i, j] - want) <= 1e-7, "correlation", i=i, j=j, got=corr[i, j], want=want)
            mon.event("correlations")
    mon.close(corr, corr.T, "correlations are symmetric", rtol=1e-9)
    d = np.diag(corr)
    mon.check(bool(np.all(np.abs(d[clear & ~np.isnan(d)] - 1) <= 1e-9)), "diagonal of the correlations", got=d)


def few(rng, mon):
    n = int(rng.integers(1, 3))
    s, ms = _suite(rng, n)
    xx = np.linspace(1, 50, int(rng.integers(1, 20)))
    with mon.unchanged("the suite", s):
        mon.raises(ValueError, lambda: s.statistics("frequency", "velocity", xx), f"statistics of {n} members")
    mon.event("refusals")
    mon.describe(nontrivial=True, n=n, first=ms[0].data["velocity"])


SCENARIOS = {"statistics": (statistics, 500, 12000), "few": (few, 40, 400)}
