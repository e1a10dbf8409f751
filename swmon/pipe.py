"""Shared workload of the workflow checks: surveys on disk, settings, and the documented steps written out in numpy."""
import pathlib
from types import SimpleNamespace

import numpy as np
from scipy.signal import windows

from swprocess.masw import Masw
from . import field, gens, refs, xform
from .gens import choice


class Model:
    """Records as plain numbers: one row per receiver, near and far in order of position."""

    def __init__(self, rows, x, dt, t0, nstacks, sx, multiple=1):
        self.rows, self.x, self.dt, self.t0 = np.asarray(rows, float), np.asarray(x, float), dt, t0
        self.nstacks, self.sx, self.multiple = nstacks, sx, multiple

    def copy(self, **kw):
        d = dict(rows=self.rows.copy(), x=self.x.copy(), dt=self.dt, t0=self.t0, nstacks=self.nstacks, sx=self.sx, multiple=self.multiple)
        d.update(kw)
        return Model(**d)

    @property
    def time(self):
        return self.t0 + np.arange(self.rows.shape[1]) * self.dt

    @property
    def offsets(self):
        return np.abs(self.x - self.sx)

    def offset_limits(self, lo, hi):
        k = (self.offsets > lo) & (self.offsets < hi)
        return self.copy(rows=self.rows[k], x=self.x[k])

    def detrend(self):
        return self.copy(rows=refs.detrend(self.rows))

    def trim(self, begin, end):
        i, j = refs.trim_indices(self.time, begin, end)
        return self.copy(rows=self.rows[:, i:j + 1], t0=self.time[i])

    def pad(self, df):
        n, m, _ = refs.pad_length(self.rows.shape[1], self.dt, df)
        rows = np.zeros((len(self.rows), n))
        rows[:, :self.rows.shape[1]] = self.rows
        return self.copy(rows=rows, multiple=m)


def survey(rng, d, nf=1, fmt=None, nch=None, n=None, where=None, kind=None, pre=None, name="shot", counts=None, dt_us=None,
           x=None, sx=None, burst=False):
    """Shot files with shuffled traces; returns file names, one model per file and the stacked model."""
    if all(v is None for v in (fmt, nch, n, where, kind, pre, counts, dt_us, x, sx)) and rng.random() < 0.06:
        real = real_survey(rng, d, nf, name)
        if real:
            return real
    fmt = fmt or choice(rng, ("SU", "SU", "SEGY", "SEG2"))
    nch = gens.channels(rng, 3, 9) if nch is None else nch
    n = gens.length(rng, 50, 150) if n is None else n
    dt_us = choice(rng, (1000, 2000, 500, 4000)) if dt_us is None else dt_us
    x = np.round(np.sort(gens.positions(rng, nch)) if x is None else np.asarray(x, float), 3)
    if sx is None:
        sx, where = gens.source_x(rng, x, where)
    sx = round(float(sx), 3)
    k = int(rng.integers(0, n // 3)) if pre is None else pre
    delay_ms = -int(np.ceil(k * dt_us / 1000 / 4) * 4) if k else 0     # whole samples for every time step used
    dt = dt_us * 1e-6
    dead = int(rng.integers(nch)) if rng.random() < 0.06 else None   # a receiver that recorded nothing
    blank = int(rng.integers(nf)) if nf > 1 and rng.random() < 0.08 else None   # a shot that recorded nothing
    files, models = [], []
    tags = [int(i) for i in rng.permutation(nf)]             # file names not in the order the files are given
    counts = [int(choice(rng, (1, 1, 2, 3, 7, 40))) for _ in range(nf)] if counts is None else counts
    for f in range(nf):
        amps = [gens.samples(rng, n, kind or choice(rng, ("noise", "trend", "burst"))) for _ in x]
        if dead is not None:
            amps[dead] = np.zeros(n)
        if f == blank:
            amps = [np.zeros(n) for _ in x]
        order = [int(i) for i in rng.permutation(nch)]
        p = d / f"{name}{tags[f]}.{'dat' if fmt == 'SEG2' else fmt.lower()}"
        if fmt == "SEG2":
            gens.write_seg2(str(p), [amps[i] for i in order], dt, [x[i] for i in order], sx, delay=delay_ms / 1000, stack=counts[f])
        else:
            gens.field_file(rng, p, amps, dt_us, x, sx, delay_ms=delay_ms, nstacks=counts[f], fmt=fmt, order=order)
        files.append(str(p))
        models.append(Model([gens.f32(a) for a in amps], x, dt, delay_ms / 1000, counts[f], sx))
    tot = sum(counts)
    rows = sum(c * m.rows for c, m in zip(counts, models)) / tot
    stacked = models[0].copy(rows=rows, nstacks=tot)
    meta = dict(fmt=fmt, nch=nch, n=n, dt_us=dt_us, delay_ms=delay_ms, where=where, x=x, sx=sx, counts=counts, dead=dead, blank=blank)
    return files, models, stacked, meta


def real_survey(rng, d, nf, name="shot"):
    """As survey, with copies of recordings that ship with the repository; None if there are not enough of one source."""
    groups = [g for g in field.groups() if len(g) >= nf]
    if not groups:
        return None
    g = groups[int(rng.integers(len(groups)))]
    shots = [g[int(i)] for i in rng.permutation(len(g))[:nf]]
    files = []
    for k, s in enumerate(shots):
        p = d / f"{name}{k}.dat"
        p.write_bytes(pathlib.Path(s.file).read_bytes())
        files.append(str(p))
    models = [Model(s.rows, s.x, s.dt, s.delay, s.stack, s.sx) for s in shots]
    counts = [s.stack for s in shots]
    stacked = models[0].copy(rows=sum(c * m.rows for c, m in zip(counts, models)) / sum(counts), nstacks=sum(counts))
    s = shots[0]
    return files, models, stacked, dict(fmt="SEG2", nch=len(s.x), n=s.rows.shape[1], dt_us=round(s.dt * 1e6), delay_ms=round(s.delay * 1000),
                                        where="real", x=s.x, sx=s.sx, counts=counts, recordings=[pathlib.Path(v.file).name for v in shots])


# -- settings --------------------------------------------------------------------------------
def preprocessing(rng, m, want=None):
    """Random choice of steps for this record; the model after offsets and trimming sizes later steps."""
    pre = {}
    off = np.sort(m.offsets)
    if rng.random() < 0.5 and len(off) > 3:
        i, j = sorted(rng.choice(len(off) + 1, 2, replace=False))
        if j - i >= 2:
            edges = np.concatenate(([off[0] - 1], off, [off[-1] + 1]))
            lo, hi = (edges[i] + edges[i + 1]) / 2, (edges[j] + edges[j + 1]) / 2
            if min(np.min(np.abs(off - lo)), np.min(np.abs(off - hi))) > 1e-6:
                pre.update(min_offset=float(lo), max_offset=float(hi))
    pre.setdefault("min_offset", -1.0 if rng.random() < 0.3 else 0.0)
    if np.sum(m.offset_limits(pre["min_offset"], pre.get("max_offset", np.inf)).x < np.inf) < 2:
        pre["min_offset"] = -1.0
        pre.pop("max_offset", None)
    n = m.rows.shape[1]
    if rng.random() < 0.6:
        i, j = int(rng.integers(0, n // 4)), n - 1 - int(rng.integers(0, n // 4))
        t = m.time
        pre.update(trim=True, trim_begin=float(t[i] + choice(rng, (0, 0, 0.3, -0.3 if i else 0)) * m.dt),
                   trim_end=float(t[j] - choice(rng, (0, 0, 0.3)) * m.dt))
        n = j - i + 1
    elif rng.random() < 0.5:
        pre.update(trim_begin=float(m.time[2]), trim_end=float(m.time[-3]))      # given, but not to be applied
    if rng.random() < 0.6:
        N = int(choice(rng, (n // 2, n, n + 7, 2 * n, max(10, n // 3), n + n // 2)))
        pre.update(pad=True, df=1 / (m.dt * N))
    elif rng.random() < 0.5:
        pre["df"] = 1 / (m.dt * 2 * n)
    pre["mute"] = bool(rng.random() < 0.5)
    if rng.random() < 0.5:
        pre["window_kwargs"] = dict(alpha=float(np.round(rng.uniform(0.05, 0.9), 2)))
    elif rng.random() < 0.5:
        pre["window_kwargs"] = {}
    if want:
        pre.update(want)
    return pre


def lines(rng, m):
    """Start and end of the signal window on the (trimmed) record, sloping or flat."""
    t, x = m.time, m.x
    T, span = t[-1] - t[0], x[-1] - x[0]
    out = []
    for f in (rng.uniform(0.02, 0.3), rng.uniform(0.65, 1.1)):
        sl = rng.uniform(-0.2, 0.2) * T / span
        xa = rng.uniform(x[0], x[0] + 0.3 * span)
        xb = rng.uniform(x[0] + 0.6 * span, x[-1])
        g = lambda v: t[0] + f * T + sl * (v - x.mean())
        out.append(((float(xa), float(g(xa))), (float(xb), float(g(xb)))))
    return out


def prepared(m, pre):
    """Model up to the point where muting happens."""
    m = m.offset_limits(pre["min_offset"], pre.get("max_offset", np.inf)).detrend()
    if pre.get("trim"):
        m = m.trim(pre["trim_begin"], pre["trim_end"])
    return m


def size_after(m, pre):
    """(samples, multiple) after padding."""
    n = m.rows.shape[1]
    if pre.get("pad"):
        n, mult, _ = refs.pad_length(n, m.dt, pre["df"])
        return n, mult
    return n, 1


def processing(rng, m, pre, transform=None):
    """Transform settings that suit the processed record, or None if this draw has no safe trial velocities."""
    kind = transform or choice(rng, ("fdbf", "fdbf", "fk", "phaseshift", "slantstack"))
    near = np.min(m.offsets) < 1e-9
    if near and kind == "fdbf":                               # a cylindrical wave has no phase at its source
        kind = "fk"
    n, mult = size_after(m, pre)
    vmin = None
    if kind == "slantstack":
        off = m.offsets
        frac = rng.uniform(0.05, 0.6)
        for _ in range(20):
            v = round((off.max() - off.min()) / (frac * n * m.dt), 3)
            if v > 0 and 0.02 < (off.max() - off.min()) / v / m.dt % 1 < 0.98:
                vmin = v
                break
            frac *= 0.97
        else:
            return None
    a = SimpleNamespace(sensors=[SimpleNamespace(dt=m.dt, nsamples=n, multiple=mult)])
    st = xform.make_settings(rng, a, transform=kind, vmin=vmin)
    f, keep = refs.axes(n, m.dt, mult, st["fmin"], st["fmax"])
    for lim in ("fmin", "fmax"):                              # no tie between two Fourier frequencies
        d = np.sort(np.abs(f - st[lim]))
        if d[1] - d[0] < 1e-6 * f[1]:
            st[lim] += 0.1 * f[1]
    return st


def settings_of(workflow, pre, st, **more):
    fs = st["fdbf-specific"]
    return Masw.create_settings_dict(workflow=workflow, **pre, **{k: st[k] for k in ("transform", "fmin", "fmax", "vmin", "vmax", "nvel", "vspace")},
                                     weighting=fs["weighting"], steering=fs["steering"], **more)


# -- oracles ---------------------------------------------------------------------------------
def _cands(v):
    out = set()
    for w in (v - 1e-6, v, v + 1e-6):
        out |= {int(np.floor(w)), int(np.rint(w)), int(w)}
    return sorted(out)


def mute_candidates(m, start, end, kw):
    """Per receiver: every window consistent with rounding the two crossing times to samples."""
    n = m.rows.shape[1]
    out = []
    for xi in m.x:
        ws = []
        for s in _cands(refs.line_index(start, xi, m.dt, m.t0)):
            for e in _cands(refs.line_index(end, xi, m.dt, m.t0)):
                if e <= s:
                    continue
                t = refs.tukey(e - s, 0.2) if not kw else windows.tukey(e - s, **kw)
                w = np.zeros(n)
                lo, hi = max(s, 0), min(e, n)
                if hi > lo:
                    w[lo:hi] = t[lo - s:hi - s]
                ws.append(w)
        out.append(ws)
    return out


def check_array(mon, got, m, pre, muted=None, rtol=1e-8):
    """The array holds the composition of the steps; returns its rows."""
    rows = gens.matrix(got)
    mon.check(got.nchannels == len(m.x), "number of receivers after the offset limits", got=[s.x for s in got.sensors], want=m.x)
    mon.close(np.array([s.x for s in got.sensors]), m.x, "receiver positions in the result", rtol=1e-9)
    mon.check(abs(got.source.x - m.sx) < 1e-6, "source position in the result", got=got.source.x, want=m.sx)
    n, mult = size_after(m, pre)
    n0 = m.rows.shape[1]
    mon.check(rows.shape == (len(m.x), n), "record length after trimming and padding", got=rows.shape, want=(len(m.x), n))
    mon.check(int(got.sensors[0].multiple) == mult, "padding multiple", got=got.sensors[0].multiple, want=mult)
    mon.check(abs(got.sensors[0].delay - m.t0) < 1e-7 * m.dt + 1e-9, "time of the first sample", got=got.sensors[0].delay, want=m.t0)
    for i, row in enumerate(rows):
        mon.check(not np.any(row[n0:]), "padding holds something other than zeros", receiver=i)
        scale = np.max(np.abs(m.rows[i]))
        if muted is None:
            mon.close(row[:n0], m.rows[i], f"record of receiver {i} is not the documented composition", rtol=rtol, atol=1e-12)
        else:
            mon.event("oracle_decisions")
            if not any(np.max(np.abs(row[:n0] - m.rows[i] * w)) <= rtol * scale + 1e-12 for w in muted[i]):
                mon.close(row[:n0], m.rows[i] * muted[i][0], f"record of receiver {i} is not the documented composition (muted)", rtol=rtol, atol=1e-12)
        mon.check(got.sensors[i].nstacks == m.nstacks, "stack count in the result", got=got.sensors[i].nstacks, want=m.nstacks)
        mon.event("rows_compared")
    return rows


def check_axes(mon, T, n, dt, mult, st):
    f, keep = refs.axes(n, dt, mult, st["fmin"], st["fmax"])
    mon.check(np.shape(T.frequencies) == (len(keep),), "number of frequencies", got=np.array(T.frequencies), want=f[keep])
    mon.close(T.frequencies, f[keep], "frequencies of the result", rtol=1e-9)
    mon.close(T.velocities, refs.velocities(st["vmin"], st["vmax"], st["nvel"], st["vspace"]), "velocities of the result", rtol=1e-9)
    return f[keep]


def power_of(rows, m, st, freqs, vels):
    """(power, floor) of these rows or None where phases are rounding noise."""
    fs = st["fdbf-specific"]
    kind = st["transform"]
    if kind == "phaseshift" or kind == "fdbf" and fs["weighting"] == "invamp":
        u = np.abs(refs.dft(rows[np.any(rows != 0, axis=1)], m.dt, freqs))
        if not u.size or not np.min(u) > 1e-6 * np.max(u):
            return None
    want = refs.power(kind, rows, m.dt, m.offsets, freqs, vels, fs["weighting"], fs["steering"])
    floor = 1e-4 * np.max(np.abs(want))
    if kind == "phaseshift":
        floor = 1e-3 * (m.offsets.max() - m.offsets.min())
    return want, floor


def check_power(mon, T, rows, m, st, freqs, rtol=1e-6):
    r = power_of(rows, m, st, freqs, np.array(T.velocities))
    if r is None:
        return False
    xform.columns_close(mon, np.array(T.power), r[0], f"power of the result ({st['transform']})", rtol=rtol, floor=r[1])
    return True
