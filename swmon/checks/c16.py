"""Synthetic waves of known velocity and metamorphic copies (mirrored, moved, scaled) of one survey."""
import numpy as np
from scipy import special

from swprocess import Array1D, Sensor1C, Source
from swprocess.masw import Masw
from .. import gens, refs, xform
from ..gens import choice

RULE = ("a case propagates a noise-free plane or cylindrical wave with constant or frequency-dependent velocity past an array and "
        "looks at the peaks of one transform, directly or through a workflow on files, or compares a survey with its mirrored, moved "
        "or scaled copy; non-trivial = at least three resolvable frequencies, or an invariance compared at two or more frequencies")
REQUIRE = {"peaks_checked": 500, "invariances": 60, "source_right": 40, "workflow_runs": 20, "slantstack_peaks": 50}

FREQ_KINDS = (("fdbf", "plane"), ("fdbf", "cylindrical"), ("fk", "plane"), ("phaseshift", "plane"))




def _geometry(rng, nch):
    d = choice(rng, (1.0, 2.0, 2.0, 1.5))
    x = np.arange(nch) * d
    if rng.random() < 0.3:
        x = np.cumsum(np.concatenate(([0], rng.uniform(0.7, 1.5, nch - 1) * d)))
    gap = float(np.round(rng.uniform(3, 25), 2))
    return np.round(x, 3), gap


def _array(rng, rows, x, gap, dt, delay=0.0):
    """Place the survey with the source to the left or the right and anywhere along the line."""
    shift = float(choice(rng, (0, 0, 100.5, -250)))
    side = choice(rng, ("left", "right"))
    px = shift + (x if side == "left" else -x)
    sx = shift + (-gap if side == "left" else gap)
    sens = [Sensor1C(rows[i], dt, px[i], 0, 0, delay=delay) for i in rng.permutation(len(x))]
    return Array1D(sens, Source(sx, 0, 0)), side


def _velocity_model(rng, vels, nf):
    nv = len(vels)
    if rng.random() < 0.4:
        i = int(rng.integers(2, nv - 2))
        return np.full(nf, i), "constant"
    a, b = sorted(int(v) for v in rng.integers(2, nv - 2, 2))
    return np.round(np.linspace(b, a, nf)).astype(int), "dispersive"


def _spectrum_rows(rng, off, freqs, c, n, dt, wave, df_index):
    """Real records whose Fourier coefficients at the given bins are those of an outgoing wave."""
    u = np.zeros((len(off), n // 2 + 1), complex)
    ph = rng.uniform(0, 2 * np.pi, len(freqs))
    am = rng.uniform(0.5, 2, len(freqs))
    for j, (f, v) in enumerate(zip(freqs, c)):
        kx = 2 * np.pi * f / v * off
        g = np.exp(-1j * kx) if wave == "plane" else special.j0(kx) - 1j * special.y0(kx)
        u[:, df_index[j]] = am[j] * np.exp(1j * ph[j]) * g
    return np.fft.irfft(u, n=n, axis=1) * n


def _resolvable(kind, steering, wt, off, f, v, vels, i, thr):
    """The ideal response at the true velocity stands out from every other trial velocity."""
    kx = np.outer(2 * np.pi * f / vels, off)
    ktrue = 2 * np.pi * f / v * off
    if steering == "cylindrical":
        ang = lambda z: np.arctan2(special.y0(z), special.j0(z))
        amp = np.abs(special.j0(ktrue) - 1j * special.y0(ktrue))
        ph = ang(kx) - ang(ktrue)
    else:
        amp = np.ones(len(off))
        ph = kx - ktrue
    if kind == "phaseshift":
        g = np.exp(1j * ph)
        r = np.abs(np.sum((g[:, 1:] + g[:, :-1]) / 2 * np.diff(off), axis=1))
    else:
        w = off if (wt == "sqrt" and kind == "fdbf") else 1.0
        a = np.ones(len(off)) if wt == "invamp" and kind == "fdbf" else amp
        r = np.abs(np.sum(np.exp(1j * ph) * a * w, axis=1)) ** 2
    others = np.delete(r, i)
    return others.max() < thr * r[i]


def _freq_case(rng):
    nch = gens.channels(rng, 6, 25)
    x, gap = _geometry(rng, nch)
    off = gap + x
    dt = choice(rng, (0.001, 0.002, 0.004))
    n = int(choice(rng, (200, 256, 300, 400)))
    df = 1 / (n * dt)
    nv = int(rng.integers(12, 60))
    vmin = float(np.round(rng.uniform(80, 200)))
    vmax = float(np.round(vmin * rng.uniform(2, 5)))
    vs = choice(rng, ("linear", "log"))
    vels = refs.velocities(vmin, vmax, nv, vs)
    lo = max(2, int(np.ceil(3 / df)))
    hi = min(n // 2 - 2, int(60 / df))
    bins = np.arange(lo, hi + 1)
    if len(bins) > 40:
        s = int(rng.integers(0, len(bins) - 40))
        bins = bins[s:s + 40]
    return nch, x, gap, off, dt, n, df, nv, vmin, vmax, vs, vels, bins


def known_velocity(rng, mon):
    nch, x, gap, off, dt, n, df, nv, vmin, vmax, vs, vels, bins = _freq_case(rng)
    kind, steering = choice(rng, FREQ_KINDS)
    wt = choice(rng, ("sqrt", "invamp", "none"))
    freqs = bins * df
    ci, model = _velocity_model(rng, vels, len(bins))
    rows = _spectrum_rows(rng, off, freqs, vels[ci], n, dt, "plane" if steering == "plane" else "cylindrical", bins)
    a, side = _array(rng, rows, x, gap, dt)
    pad = choice(rng, (None, None, 2, 3))
    settings = dict(transform=kind, fmin=float(freqs[0]), fmax=float(freqs[-1]), vmin=vmin, vmax=vmax, nvel=nv, vspace=vs,
                    **{"fdbf-specific": dict(weighting=wt, steering=steering)})
    if pad:                                                   # decimate: keep every second or third bin
        if n % pad:
            pad = None
        else:
            a.zero_pad(df * pad)
    T = xform.transform_class(kind).from_array(a, settings)
    pk = np.array(T.find_peak_power())
    tf = np.array(T.frequencies)
    checked = 0
    for f, p in zip(tf, pk):
        j = int(np.argmin(np.abs(freqs - f)))
        if abs(freqs[j] - f) > 1e-6 * df:
            continue
        v = vels[ci[j]]
        if not _resolvable(kind, steering, wt, off, f, v, vels, ci[j], 1 - 1e-5):
            continue
        checked += 1
        mon.check(abs(p - v) <= 1e-9 * v, f"peak of {kind} ({wt}, {steering}) is not at the true velocity", frequency=f, got=p, want=v,
                  side=side, model=model)
    mon.event("peaks_checked", checked)
    mon.event("source_" + side)
    mon.describe(nontrivial=checked >= 3, kind=kind, steering=steering, weighting=wt, side=side, model=model, n=n, dt=dt, x=x, gap=gap,
                 checked=checked, decimated=pad)


def between(rng, mon):
    """True velocity between two trial velocities: the peak is at one of the two."""
    nch, x, gap, off, dt, n, df, nv, vmin, vmax, vs, vels, bins = _freq_case(rng)
    kind = choice(rng, ("fdbf", "fk", "phaseshift"))
    i = int(rng.integers(2, nv - 3))
    c = float(vels[i] + rng.uniform(0.2, 0.8) * (vels[i + 1] - vels[i]))
    freqs = bins * df
    rows = _spectrum_rows(rng, off, freqs, np.full(len(bins), c), n, dt, "plane", bins)
    a, side = _array(rng, rows, x, gap, dt)
    settings = dict(transform=kind, fmin=float(freqs[0]), fmax=float(freqs[-1]), vmin=vmin, vmax=vmax, nvel=nv, vspace=vs,
                    **{"fdbf-specific": dict(weighting="none", steering="plane")})
    T = xform.transform_class(kind).from_array(a, settings)
    checked = 0
    dense = np.sort(np.concatenate((vels, [c])))
    ic = int(np.searchsorted(dense, c))
    for f, p in zip(T.frequencies, T.find_peak_power()):
        L = f * (off[-1] - off[0])
        main = 0.5 > L * (1 / vels[i] - 1 / vels[i + 1])      # both neighbours on the main lobe
        keep = np.ones(len(dense), bool)
        keep[[ic - 1, ic + 1]] = False
        sub = dense[keep]
        if not main or not _resolvable(kind, "plane", "none", off, f, c, sub, int(np.searchsorted(sub, c)), 0.97):
            continue
        kx = lambda v: np.abs(np.sum(np.exp(1j * 2 * np.pi * f * off * (1 / v - 1 / c))))
        if max(kx(vels[i]), kx(vels[i + 1])) < 0.99 * nch:
            continue
        checked += 1
        mon.check(min(abs(p - vels[i]), abs(p - vels[i + 1])) <= 1e-9 * p, f"peak of {kind} is not next to the true velocity", frequency=f,
                  got=p, want=(vels[i], c, vels[i + 1]), side=side)
    mon.event("peaks_checked", checked)
    mon.event("source_" + side)
    mon.describe(nontrivial=checked >= 3, kind=kind, side=side, c=c, n=n, dt=dt, x=x, gap=gap, checked=checked)


def _ricker(t, fp):
    a = (np.pi * fp * t) ** 2
    return (1 - 2 * a) * np.exp(-a)


def slantstack(rng, mon):
    nch = gens.channels(rng, 8, 25)
    x, gap = _geometry(rng, nch)
    off = gap + x
    dt, n = 0.001, int(rng.integers(900, 1400))
    nv = int(rng.integers(15, 40))
    vmin, vmax = float(np.round(rng.uniform(120, 180), 1)), float(np.round(rng.uniform(350, 500)))
    vs = choice(rng, ("linear", "log"))
    vels = refs.velocities(vmin, vmax, nv, vs)
    i = int(rng.integers(2, nv - 2))
    c = vels[i]
    fp = float(rng.uniform(20, 35))
    t = np.arange(n) * dt
    t0 = 0.12
    rows = np.array([_ricker(t - t0 - o / c, fp) for o in off])
    if t0 + off[-1] / c + 0.1 > t[-1] - (off[-1] - off[0]) / vmin:
        mon.describe(nontrivial=False)
        return
    a, side = _array(rng, rows, x, gap, dt)
    settings = dict(transform="slantstack", fmin=fp * 0.6, fmax=fp * 1.5, vmin=vmin, vmax=vmax, nvel=nv, vspace=vs)
    T = xform.transform_class("slantstack").from_array(a, settings)
    checked = 0
    for f, p in zip(T.frequencies, T.find_peak_power()):
        if not _resolvable("phaseshift", "plane", "none", off, f, c, vels, i, 0.98):
            continue
        checked += 1
        j = int(np.argmin(np.abs(vels - p)))
        mon.check(abs(j - i) <= 1, "peak of the slant stack is not at the true velocity", frequency=f, got=p, want=c, side=side)
    mon.event("slantstack_peaks", checked)
    mon.event("peaks_checked", checked)
    mon.event("source_" + side)
    mon.describe(nontrivial=checked >= 3, kind="slantstack", side=side, c=c, fp=fp, x=x, gap=gap, checked=checked)


def workflow(rng, mon):
    """End to end: SU files, Masw.run, default-like settings; the peaks are at the velocity of the wave."""
    nch, x, gap, off, dt, n, df, nv, vmin, vmax, vs, vels, bins = _freq_case(rng)
    kind, steering = choice(rng, FREQ_KINDS)
    wt = choice(rng, ("sqrt", "invamp", "none"))
    freqs = bins * df
    ci, model = _velocity_model(rng, vels, len(bins))
    rows = _spectrum_rows(rng, off, freqs, vels[ci], n, dt, "plane" if steering == "plane" else "cylindrical", bins)
    side = choice(rng, ("left", "right"))
    px, sx = (x, -gap) if side == "left" else (-x, gap)
    shift = float(choice(rng, (0, 50.25)))
    wf = choice(rng, ("single", "time-domain", "frequency-domain"))
    nf = 1 if wf == "single" else int(rng.integers(1, 4))
    d = mon.scratch()
    files = [gens.field_file(rng, d / f"s{k}.su", rows, int(round(dt * 1e6)), px + shift, sx + shift,
                             order=[int(v) for v in rng.permutation(nch)]) for k in range(nf)]
    s = Masw.create_settings_dict(workflow=wf, transform=kind, fmin=freqs[0], fmax=freqs[-1], vmin=vmin, vmax=vmax, nvel=nv, vspace=vs,
                                  weighting=wt, steering=steering)
    T = Masw.run(files, s)
    mon.event("workflow_runs")
    checked = 0
    for f, p in zip(T.frequencies, T.find_peak_power()):
        j = int(np.argmin(np.abs(freqs - f)))
        if abs(freqs[j] - f) > 1e-6 * df or j < 2 or f < 8 * df:
            continue
        v = vels[ci[j]]
        if not _resolvable(kind, steering, wt, off, f, v, vels, ci[j], 0.98):
            continue
        checked += 1
        mon.check(abs(p - v) <= 1e-6 * v, f"peak of the {wf} workflow ({kind}, {wt}, {steering}) is not at the true velocity", frequency=f,
                  got=p, want=v, side=side)
    mon.event("peaks_checked", checked)
    mon.event("source_" + side)
    mon.describe(nontrivial=checked >= 3, workflow=wf, kind=kind, steering=steering, weighting=wt, side=side, n=n, dt=dt, gap=gap, checked=checked)


def invariance(rng, mon):
    kind = choice(rng, ("fdbf", "fdbf", "fk", "phaseshift", "slantstack"))
    wt, st = choice(rng, ("sqrt", "invamp", "none")), choice(rng, ("cylindrical", "plane"))
    a, meta = xform.make_array(rng, need_offset=kind == "fdbf" and st == "cylindrical")
    s0 = a.sensors[0]
    vmin = None
    if kind == "slantstack":
        ext = max(a.offsets) - min(a.offsets)
        vmin = round(ext / (rng.uniform(0.1, 0.6) * s0.nsamples * s0.dt), 3)
        if not 0.02 < (ext / vmin / s0.dt) % 1 < 0.98:
            mon.describe(nontrivial=False)
            return
    settings = xform.make_settings(rng, a, weighting=wt, steering=st, transform=kind, vmin=vmin)
    what = choice(rng, ("mirror", "move", "both", "scale"))
    c = float(choice(rng, (0, 37.5, -120.25, 1000)))
    g = float(10 ** rng.uniform(-4, 4)) if what == "scale" else 1.0
    f = {"mirror": lambda v: -v, "move": lambda v: v + c, "both": lambda v: c - v, "scale": lambda v: v}[what]

    def rebuild():
        out = []
        for i in rng.permutation(a.nchannels):
            s = a.sensors[i]
            q = Sensor1C.from_sensor1c(s)
            q = Sensor1C.from_activetimeseries(q, f(s.x), s.y, s.z)
            if g != 1:
                q.amplitude[:] *= g
            out.append(q)
        return Array1D(out, Source(f(a.source.x), a.source.y, a.source.z))
    b = rebuild()
    cls = xform.transform_class(kind)
    T, U = cls.from_array(a, settings), cls.from_array(b, settings)
    mon.describe(nontrivial=len(T.frequencies) > 1, kind=kind, what=what, c=c, g=g, weighting=wt, steering=st, **meta, settings=settings)
    if kind in ("fdbf", "phaseshift") and not xform.live(a, T.frequencies):
        return
    mon.equal(U.frequencies, T.frequencies, f"frequencies after {what}")
    mon.equal(U.velocities, T.velocities, f"velocities after {what}")
    P, Q = np.array(T.power), np.array(U.power)
    if what == "scale":
        T.normalize("frequency-maximum")
        U.normalize("frequency-maximum")
        P, Q = np.array(T.power), np.array(U.power)
    xform.columns_close(mon, Q, P, f"{kind} image after {what}", rtol=2e-6, floor=1e-4 * np.max(np.abs(P)))
    mon.event("invariances")


SCENARIOS = {"known_velocity": (known_velocity, 160, 4000), "between": (between, 60, 1500), "slantstack": (slantstack, 50, 800),
             "workflow": (workflow, 50, 1000), "invariance": (invariance, 160, 4000)}
