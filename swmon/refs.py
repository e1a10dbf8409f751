"""Independent reference models (written from the statements, not from the code under test)."""
import numpy as np
from scipy import special


def detrend(a):
    """Removal of the least-squares line of every row."""
    a = np.atleast_2d(np.asarray(a, float))
    n = a.shape[1]
    t = np.arange(n) - (n - 1) / 2
    den = np.sum(t * t)
    slope = (a @ t) / den if den > 0 else np.zeros(len(a))
    return a - a.mean(axis=1, keepdims=True) - slope[:, None] * t[None, :]


def axes(n, dt, multiple, fmin, fmax):
    """Indices of the record's Fourier bins reported for [fmin, fmax]."""
    f = np.arange(n) / (n * dt)
    lo, hi = int(np.argmin(np.abs(f - fmin))), int(np.argmin(np.abs(f - fmax)))
    return f, np.arange(lo, hi + 1, multiple)


def velocities(vmin, vmax, nvel, vspace):
    if nvel == 1:
        return np.array([vmin], float)
    i = np.arange(nvel) / (nvel - 1)
    if vspace in ("linear", "lin"):
        return vmin + (vmax - vmin) * i
    return vmin * (vmax / vmin) ** i


def dft(a, dt, freqs):
    """Explicit discrete Fourier transform of every row at arbitrary frequencies (in Hz)."""
    a = np.atleast_2d(np.asarray(a, float))
    k = np.arange(a.shape[1])
    return a @ np.exp(-2j * np.pi * np.outer(k * dt, np.asarray(freqs, float)))


def near_to_far(a, offsets):
    o = np.argsort(offsets, kind="stable")
    return np.asarray(a)[o], np.asarray(offsets, float)[o]


def unit(u):
    """Coefficients of the same phase and unit amplitude; none where there is no amplitude."""
    return np.where(u == 0, 0, u / np.where(u == 0, 1, np.abs(u)))


def fdbf(a, dt, offsets, freqs, vels, weighting, steering):
    a, x = near_to_far(a, offsets)
    u = dft(a, dt, freqs)                                  # channels x frequencies
    if weighting == "invamp":
        u = unit(u)
    w = np.outer(x, x) if weighting == "sqrt" else np.ones((len(x), len(x)))
    out = np.empty((len(vels), len(freqs)), complex)
    for i, f in enumerate(freqs):
        r = np.outer(u[:, i], np.conj(u[:, i])) * w
        k = 2 * np.pi * f / np.asarray(vels)
        kx = np.outer(k, x)
        if steering == "cylindrical":
            s = np.exp(-1j * np.arctan2(special.y0(kx), special.j0(kx)))
        else:
            s = np.exp(-1j * kx)
        out[:, i] = np.einsum("vc,cd,vd->v", np.conj(s), r, s)
    return out


def phaseshift(a, dt, offsets, freqs, vels):
    a, x = near_to_far(a, offsets)
    u = unit(dft(a, dt, freqs))
    out = np.empty((len(vels), len(freqs)))
    for i, f in enumerate(freqs):
        g = np.exp(2j * np.pi * f * np.outer(1 / np.asarray(vels), x)) * u[:, i]
        out[:, i] = np.abs(np.sum((g[:, 1:] + g[:, :-1]) / 2 * np.diff(x), axis=1))
    return out


def slantstack_lengths(n, dt, offsets, vels):
    """Numbers of intercept times at which all velocities are defined: two if the longest delay is a whole number of samples but for rounding."""
    lag = (np.max(offsets) - np.min(offsets)) / np.min(vels) / dt
    return sorted({n - int(lag * (1 + e)) - 1 for e in (-1e-9, 1e-9)})


def slantstack(a, dt, offsets, vels, nt=None):
    a, x = near_to_far(a, offsets)
    x = x - x[0]
    n = a.shape[1]
    nt = slantstack_lengths(n, dt, offsets, vels)[0] if nt is None else nt
    tau = np.arange(nt)
    out = np.empty((len(vels), nt))
    grid = np.arange(n)
    for i, v in enumerate(vels):
        tr = np.array([np.interp(tau + xi / v / dt, grid, ai) for xi, ai in zip(x, a)])
        out[i] = np.sum((tr[1:] + tr[:-1]) / 2 * np.diff(x)[:, None], axis=0)
    return out


def slantstack_power(a, dt, offsets, freqs, vels, nt=None):
    return dft(slantstack(a, dt, offsets, vels, nt), dt, freqs)


def power(kind, a, dt, offsets, freqs, vels, weighting=None, steering=None):
    if kind == "fk":
        return fdbf(a, dt, offsets, freqs, vels, "none", "plane")
    if kind == "fdbf":
        return fdbf(a, dt, offsets, freqs, vels, weighting, steering)
    if kind == "phaseshift":
        return phaseshift(a, dt, offsets, freqs, vels)
    if kind == "slantstack":
        return slantstack_power(a, dt, offsets, freqs, vels)
    raise ValueError(kind)


def trim_indices(time, start, end):
    return int(np.argmin(np.abs(time - start))), int(np.argmin(np.abs(time - end)))


def pad_length(n, dt, df):
    """(padded length, multiple, N) for a frequency step."""
    N = int(round(1 / (df * dt)))
    m = -(-n // N)
    return m * N, m, N


def tukey(m, alpha):
    """Tukey (tapered cosine) window of m samples."""
    if m <= 0:
        return np.zeros(0)
    if m == 1:
        return np.ones(1)
    if alpha <= 0:
        return np.ones(m)
    k = np.arange(m)
    alpha = min(alpha, 1.0)
    w = np.ones(m)
    width = alpha * (m - 1) / 2.0
    lo = k < width
    w[lo] = 0.5 * (1 + np.cos(np.pi * (k[lo] / width - 1)))
    hi = k > (m - 1) - width
    w[hi] = 0.5 * (1 + np.cos(np.pi * (((m - 1) - k[hi]) / width - 1)))
    return w


def mute_window(n, start, stop, alpha):
    """Taper from start (inclusive) to stop (exclusive), cut to the record."""
    w = np.zeros(n)
    t = tukey(stop - start, alpha)
    lo, hi = max(start, 0), min(stop, n)
    if hi > lo:
        w[lo:hi] = t[lo - start:hi - start]
    return w


def line_index(line, x, dt, delay):
    (x1, t1), (x2, t2) = line
    return (t1 + (t2 - t1) * (x - x1) / (x2 - x1) - delay) / dt


def rows_match(got, want, rtol, floor=0.0):
    scale = max(np.max(np.abs(want)), floor) if np.size(want) else 0
    return np.max(np.abs(got - want)) <= rtol * scale if np.size(want) else True
