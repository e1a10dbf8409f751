"""Shared workload of the peak checks: sets of peaks with a plain-array model next to them."""
import numpy as np

from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from .gens import choice

EXTRAS = ("azimuth", "ellipticity", "noise", "power")
BASE = ("frequency", "velocity")
DERIVED = ("slowness", "wavelength", "wavenumber")


class Model:
    def __init__(self, data, ident):
        self.data = {k: np.array(v, float) for k, v in data.items()}
        self.valid = ~np.isnan(self.data["velocity"])
        self.ident = str(ident)

    def copy(self):
        m = Model(self.data, self.ident)
        m.valid = self.valid.copy()
        return m

    def raw(self, attr):
        f, v = self.data["frequency"], self.data["velocity"]
        if attr == "slowness":
            return 1 / v
        if attr == "wavelength":
            return v / f
        if attr == "wavenumber":
            return 2 * np.pi * f / v
        return self.data[attr]

    def get(self, attr):
        return self.raw(attr)[self.valid]

    def reject_limits(self, attr, lo, hi):
        a = self.raw(attr)
        with np.errstate(invalid="ignore"):
            bad = np.zeros(a.shape, bool)
            if lo is not None:
                bad |= a < lo
            if hi is not None:
                bad |= a > hi
        self.valid &= ~bad

    def inside(self, xt, xl, yt, yl):
        x, y = self.raw(xt), self.raw(yt)
        with np.errstate(invalid="ignore"):
            return self.valid & (x > min(xl)) & (x < max(xl)) & (y > min(yl)) & (y < max(yl))

    def reject_box(self, xt, xl, yt, yl):
        self.valid &= ~self.inside(xt, xl, yt, yl)


def data(rng, shape=None, extras=None, missing=None, ints=None, unique_power=True, decibels=0.0):
    """Attribute arrays of one set of peaks."""
    if shape is None:
        shape = choice(rng, ("1d", "1d", "2d"))
    if shape == "1d":
        shape = (int(rng.integers(1, 25) if rng.random() < 0.95 else rng.integers(25, 200)),)
    elif shape == "2d":
        shape = (int(rng.integers(1, 5)), int(rng.integers(1, 15))) if rng.random() < 0.95 else (int(rng.integers(1, 12)), int(rng.integers(15, 80)))
    extras = [e for e in EXTRAS if rng.random() < 0.5] if extras is None else list(extras)
    ints = rng.random() < 0.4 if ints is None else ints
    if len(shape) == 2:
        f = np.sort(rng.uniform(1, 60, shape[1])) if rng.random() < 0.7 else rng.uniform(1, 60, shape[1])
        f = np.tile(f, (shape[0], 1))
    else:
        f = np.sort(rng.uniform(1, 60, shape)) if rng.random() < 0.6 else rng.uniform(1, 60, shape)
    v = rng.uniform(80, 900, shape)
    if ints:
        f, v = np.rint(f) + 0.0, np.rint(v / 20) * 20 + 20
    else:
        f, v = np.round(f, 4), np.round(v, 4)
    missing = rng.random() < 0.4 if missing is None else missing
    d = dict(frequency=f.copy(), velocity=v.copy())
    gone = rng.random(shape) < 0.2 if missing else np.zeros(shape, bool)
    for e in extras:
        if e == "azimuth":
            d[e] = np.round(rng.uniform(0, 360, shape) if rng.random() < 0.7 else rng.uniform(-180, 180, shape), 1)
        elif e == "ellipticity":
            d[e] = np.round(rng.normal(size=shape), 5 if rng.random() < 0.7 else 0)
        elif e == "noise":
            d[e] = np.round(rng.uniform(0, 50, shape), 4) * choice(rng, (1, 1e-6))
        else:
            d[e] = rng.permutation(np.arange(1, f.size + 1)).reshape(shape) * choice(rng, (1.0, 1e-9, 3.7, 1e5))
            if rng.random() < decibels:                       # below a reference: all or some of them negative
                d[e] = d[e] - d[e].max() * choice(rng, (1.0, 0.5, 2.0))
    if missing:
        d["velocity"][gone] = np.nan
        if len(shape) == 2 and rng.random() < 0.7:            # as read from a .max file: the whole peak is missing
            for k in d:
                d[k][gone] = np.nan
    return d


def make(d, ident):
    """(Peaks, Model) from attribute arrays."""
    kw = {k: v.copy() for k, v in d.items() if k not in BASE}
    return Peaks(d["frequency"].copy(), d["velocity"].copy(), identifier=ident, **kw), Model(d, ident)


def state(p):
    """All observable content of a set of peaks."""
    return dict(identifier=p.identifier, attrs=list(p.attrs), values={a: np.array(getattr(p, a)) for a in p.attrs})


def check_state(mon, p, m, what, derived=True):
    mon.check(p.identifier == m.ident, f"{what}: identifier", got=p.identifier, want=m.ident)
    mon.check(sorted(p.attrs) == sorted(m.data), f"{what}: attributes", got=p.attrs, want=sorted(m.data))
    for a in m.data:
        mon.equal(getattr(p, a), m.get(a), f"{what}: {a}")
    if derived:
        for a in DERIVED:
            mon.close(getattr(p, a), m.get(a), f"{what}: {a}", rtol=1e-12)
    mon.event("peaks_compared", int(m.valid.sum()))


def suite(rng, n=None, same_attrs=True, **kw):
    n = int(rng.integers(1, 6) if rng.random() < 0.95 else rng.integers(6, 40)) if n is None else n
    extras = [e for e in EXTRAS if rng.random() < 0.5]
    names = idents(rng, n)
    pairs = [make(data(rng, extras=extras if same_attrs else None, **kw), i) for i in names]
    s = PeaksSuite(pairs[0][0])
    for p, _ in pairs[1:]:
        s.append(p)
    return s, [m for _, m in pairs]


def idents(rng, n):
    style = choice(rng, ("time", "time", "short", "word") if n <= 11 else ("time", "short"))
    if style == "time":
        t = 16200 + rng.permutation(10 * n)[:n] * 60
        return [f"{int(k)}-capon" for k in t]
    if style == "short":                                      # identifiers that contain one another
        return [str(i) for i in rng.permutation(n + 12)[:n]]
    return [f"a {c}\u00e9\"{k}" for k, c in enumerate(rng.permutation(list("zyxwvutsrqp"))[:n])]


def limit_for(rng, m, attr, exact_ok=True):
    """A limit on, just beside, or between values of an attribute; never within rounding of a derived value."""
    vals = m.raw(attr)
    vals = np.sort(vals[np.isfinite(vals)].ravel())
    if len(vals) == 0:
        return 1.0
    if rng.random() < 0.08:                                    # a limit that is exactly zero, below, among or above the values
        return choice(rng, (0, 0.0, -0.0))
    how = choice(rng, ("value", "between", "beyond", "beside"))
    k = int(rng.integers(len(vals)))
    v = float(vals[k])
    if how == "value" and (attr in DERIVED or not exact_ok):
        how = "beside"
    if how == "value":
        return v
    span = max(abs(v), 1e-12)
    if how == "beside":
        return v + choice(rng, (-1, 1)) * 1e-7 * span
    if how == "beyond":
        return float(choice(rng, (vals[0] - 0.1 * abs(vals[0]) - 1e-9, vals[-1] + 0.1 * abs(vals[-1]) + 1e-9)))
    j = min(k + 1, len(vals) - 1)
    return float((vals[k] + vals[j]) / 2) if vals[j] - vals[k] > 1e-7 * span else v + 1e-7 * span


def simplified(m, attr):
    """Per frequency the valid peak of largest power, or the first valid one."""
    if m.valid.ndim == 1:
        return m.get(attr)
    raw, power, out = m.raw(attr), m.data.get("power"), []
    for c in range(m.valid.shape[1]):
        rows = np.nonzero(m.valid[:, c])[0]
        if len(rows):
            out.append(raw[rows[0] if power is None else rows[np.argmax(power[rows, c])], c])
    return np.array(out, float)


def gridded(m, xt, yt, xx):
    """Linear interpolation inside the range of a member's simplified peaks, missing values outside."""
    x, y = simplified(m, xt), simplified(m, yt)
    out = np.full(len(xx), np.nan)
    order = np.argsort(x, kind="stable")
    x, y = x[order], y[order]
    for k, at in enumerate(xx):
        if not len(x) or at < x[0] or at > x[-1]:
            continue
        j = int(np.searchsorted(x, at))
        out[k] = y[j] if x[j] == at else y[j - 1] + (y[j] - y[j - 1]) * (at - x[j - 1]) / (x[j] - x[j - 1])
    return out


def well_spaced(ms, xt):
    """No two simplified peaks of a member at (nearly) one location, where an interpolation has no one value."""
    for m in ms:
        x = np.sort(simplified(m, xt))
        if len(x) > 1 and np.min(np.diff(x)) <= 1e-7 * np.max(np.abs(x)):
            return False
    return True


def grid(rng, ms, xt, n=None):
    """Locations inside, at, between and outside the peaks; derived quantities are not met exactly."""
    xs = np.concatenate([simplified(m, xt) for m in ms])
    lo, hi = (float(np.min(xs)), float(np.max(xs))) if len(xs) else (1.0, 10.0)
    n = int(rng.integers(1, 40) if rng.random() < 0.95 else rng.integers(40, 400)) if n is None else n
    a, b = sorted((lo * rng.uniform(0.5, 1.2), hi * rng.uniform(0.8, 1.5)))
    style = choice(rng, ("linear", "log", "random", "exact"))
    xx = np.geomspace(a, b, n) if style == "log" else np.linspace(a, b, n) if style == "linear" else rng.uniform(a, b, n)
    if style == "exact" and xt not in DERIVED and len(xs):
        k = rng.integers(len(xs), size=n)
        xx = np.where(rng.random(n) < 0.6, xs[k], xx)
        xx[:2] = [np.min(xs), np.max(xs)][:min(2, n)]
    if xt in DERIVED and len(xs):
        near = np.min(np.abs(xx[:, None] - xs[None, :]), axis=1) <= 1e-9 * hi
        xx[near] += 1e-7 * hi
    return xx
