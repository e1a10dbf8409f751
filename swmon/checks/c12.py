"""Multi-file stacking: receivers are matched by their written identity, files are hashed before and after."""
import hashlib
import pathlib

import numpy as np
import obspy

from swprocess import Array1D
from .. import field, gens
from ..core import FsMonitor, Skip
from ..gens import choice

RULE = ("a case writes two to five (or up to fifty) shot files with the traces of each in its own order, stack counts differing between files and "
        "optional mappings, and reads them in several file orders, in full or only their beginning, or one set with an incompatible file; non-trivial = trace order "
        "differs between files or a refusal")
REQUIRE = {"many_files": 8, "reads": 150, "refusals_checked": 40, "shuffled_files": 50, "mirrored": 15, "partial_reads": 20}

MAPS = {"none": None, "shift": (lambda v: v + 812.25), "mirror": (lambda v: -v), "scale": (lambda v: 0.5 * v - 3)}


def _shot(rng, fmt, d, k, x, y, sx, sy, n, dt_us, delay_ms, nst, order):
    amps = [gens.samples(rng, n, choice(rng, ("noise", "burst", "ints"))) for _ in x]
    f = d / f"shot{k}.{'dat' if fmt == 'SEG2' else fmt.lower()}"
    if fmt == "SEG2":
        gens.write_seg2(str(f), [amps[i] for i in order], dt_us * 1e-6, [x[i] for i in order], sx, delay=delay_ms / 1000, stack=nst)
    else:
        gens.field_file(rng, f, amps, dt_us, x, sx, y=y, sy=sy, delay_ms=delay_ms, nstacks=nst, fmt=fmt, order=order)
    return str(f), amps


def _base(rng):
    fmt = choice(rng, ("SU", "SU", "SEGY", "SEG2"))
    nch, n = gens.channels(rng, 2, 10), gens.length(rng, 15, 60)
    x = [float(v) for v in gens.positions(rng, nch)]
    y = [float(v) for v in np.round(rng.uniform(-3, 3, nch), 3)] if fmt != "SEG2" and rng.random() < 0.4 else [0.0] * nch
    sx = gens.source_x(rng, x)[0]
    sy = float(choice(rng, (0, 2.5))) if fmt != "SEG2" else 0.0
    return fmt, nch, n, x, y, sx, sy, choice(rng, (1000, 500, 2000, 250)), int(choice(rng, (0, -10, -100)))


def _sha(files):
    return [hashlib.sha1(pathlib.Path(f).read_bytes()).hexdigest() for f in files]


def stack(rng, mon):
    fmt, nch, n, x, y, sx, sy, dt_us, delay_ms = _base(rng)
    nf = int(rng.integers(12, 50)) if rng.random() < 0.04 else int(rng.integers(2, 6))
    mon.event("many_files", nf > 10)
    d = mon.scratch()
    style = choice(rng, ("same", "each", "reversed"))
    counts = [int(choice(rng, (1, 1, 2, 3, 10))) for _ in range(nf)]
    files, data, orders = [], [], []
    for k in range(nf):
        order = list(range(nch))
        if style == "each":
            order = [int(i) for i in rng.permutation(nch)]
        elif style == "reversed" and k % 2:
            order = order[::-1]
        f, amps = _shot(rng, fmt, d, k, x, y, sx, sy, n, dt_us, delay_ms, counts[k], order)
        files.append(f)
        data.append([gens.f32(a) for a in amps])
        orders.append(order)
    mx, my = choice(rng, list(MAPS)), choice(rng, ("none", "shift"))
    mon.describe(nontrivial=style != "same", fmt=fmt, nfiles=nf, counts=counts, orders=orders, x=x, y=y, sx=sx, map_x=mx, map_y=my, n=n)
    mon.event("shuffled_files", style != "same")
    mon.event("mirrored", mx == "mirror")
    kw = {}
    if MAPS[mx]:
        kw["map_x"] = MAPS[mx]
    if MAPS[my]:
        kw["map_y"] = MAPS[my]
    read = choice(rng, ("all", "all", "format", "part"))
    if read == "format" and fmt != "SEG2":
        kw["obspy_read_kwargs"] = dict(format=fmt)
    starts = {obspy.read(f)[0].stats.starttime.ns for f in files}
    if read == "part" and len(starts) == 1:                   # obspy is asked for the beginning of each file only
        n = int(rng.integers(5, n))
        kw["obspy_read_kwargs"] = dict(endtime=obspy.UTCDateTime(ns=starts.pop()) + (n - 0.8) * dt_us * 1e-6)
        data = [[v[:n] for v in dk] for dk in data]
        mon.event("partial_reads")
    tot = sum(counts)
    want = [sum(c * np.asarray(data[k][i]) for k, c in enumerate(counts)) / tot for i in range(nch)]
    fx = np.array([MAPS[mx](v) if MAPS[mx] else v for v in x])
    fy = np.array([MAPS[my](v) if MAPS[my] else v for v in y])
    sha = _sha(files)
    for r in range(3):
        perm = list(range(nf)) if r == 0 else [int(i) for i in rng.permutation(nf)]
        names = [files[i] for i in perm]
        arg = choice(rng, (names, tuple(names), [pathlib.Path(f) for f in names]))
        with FsMonitor() as fs:
            with mon.unchanged("the list of file names", arg):
                a = Array1D.from_files(arg, **kw)
        mon.event("reads")
        bad = [p for p in fs["written"] if not p.startswith("/dev/")]
        mon.check(not bad and not fs["other"], "reading wrote to the file system", got=bad + fs["other"])
        mon.check(a.nchannels == nch, "number of receivers", got=a.nchannels, want=nch)
        for s, i in zip(a.sensors, np.argsort(fx)):
            mon.check(abs(s.x - fx[i]) < 1e-6 and abs(s.y - fy[i]) < 1e-6, "receiver position", got=(s.x, s.y), want=(fx[i], fy[i]))
            mon.close(s.amplitude, want[i], f"receiver at {fx[i]} is not the weighted mean of its own traces (file order {perm})", rtol=1e-7)
            mon.check(s.nstacks == tot, "total stack count", got=s.nstacks, want=tot)
            mon.check(abs(s.delay - delay_ms / 1000) < 1e-9 and abs(s.dt - dt_us * 1e-6) < 1e-9, "time step or delay of the stack")
        want_sx = MAPS[mx](sx) if MAPS[mx] else sx
        mon.check(abs(a.source.x - want_sx) < 1e-6, "source of the stack", got=a.source.x, want=want_sx)
        mon.check(_sha(files) == sha, "reading changed a file")


def refusal(rng, mon):
    fmt, nch, n, x, y, sx, sy, dt_us, delay_ms = _base(rng)
    what = choice(rng, ("source_x", "source_y", "receiver_x", "receiver_y", "fewer", "more", "dt", "nsamples", "delay", "all_moved"))
    if fmt == "SEG2" and what in ("source_y", "receiver_y"):
        what = "source_x"
    nf = int(rng.integers(12, 40)) if rng.random() < 0.04 else int(rng.integers(2, 5))
    bad = int(rng.integers(1, nf)) if rng.random() < 0.7 else 0   # the odd one may come first
    d = mon.scratch()
    files = []
    eps = choice(rng, (0.001, 0.01, 1.0, -2.5))
    for k in range(nf):
        p = dict(x=list(x), y=list(y), sx=sx, sy=sy, n=n, dt_us=dt_us, delay_ms=delay_ms)
        if k == bad:
            j = int(rng.integers(nch))
            if what == "source_x":
                p["sx"] += eps
            elif what == "source_y":
                p["sy"] += eps
            elif what == "receiver_x":
                p["x"][j] += eps
                if len({round(v, 3) for v in p["x"]}) < nch:
                    p["x"][j] = max(p["x"]) + 9.5
            elif what == "receiver_y":
                p["y"][j] += eps
            elif what == "fewer":
                p["x"], p["y"] = p["x"][:-1], p["y"][:-1]
                if nch == 2:
                    p["x"], p["y"] = list(x) + [max(x) + 1], list(y) + [0.0]
            elif what == "more":
                e = max(x) + 1.5 if rng.random() < 0.5 else min(x) - 1.5
                p["x"], p["y"] = p["x"] + [e], p["y"] + [0.0]
            elif what == "dt":
                p["dt_us"] = dt_us * 2
            elif what == "nsamples":
                p["n"] = n + int(choice(rng, (-1, 1, 10)))
            elif what == "delay":
                p["delay_ms"] = delay_ms - int(choice(rng, (1, 50)))
            else:
                p["x"] = [v + 3.0 for v in p["x"]]
        m = len(p["x"])
        f, _ = _shot(rng, fmt, d, k, p["x"], p["y"], p["sx"], p["sy"], p["n"], p["dt_us"], p["delay_ms"], 1 + k, [int(i) for i in rng.permutation(m)])
        files.append(f)
    mon.describe(fmt=fmt, what=what, nfiles=nf, bad=bad, eps=eps, x=x, sx=sx, n=n)
    sha = _sha(files)
    mon.raises(ValueError, lambda: Array1D.from_files(files), f"stacking files of which one has a different {what}")
    mon.check(_sha(files) == sha, "a refused read changed a file")


def recorded(rng, mon):
    """Recordings that ship with the repository: shots of one source stacked, shots of two refused."""
    groups = field.groups(long=mon.tier != "quick")
    if len(groups) < 2:
        raise Skip("no recordings on disk")
    g, h = (groups[int(i)] for i in rng.permutation(len(groups))[:2])
    pick = [g[int(i)] for i in rng.permutation(len(g))[:int(rng.integers(1, len(g) + 1))]]
    names, sha = [s.file for s in pick], _sha([s.file for s in pick])
    mon.describe(nontrivial=len(pick) > 1, files=names)
    a = Array1D.from_files(names)
    tot = sum(s.stack for s in pick)
    mon.close(np.array([s.amplitude for s in a.sensors]), sum(s.stack * s.rows for s in pick) / tot, "recordings of one source: mean", rtol=1e-7)
    mon.equal(np.array([s.x for s in a.sensors]), g[0].x, "recordings of one source: positions")
    mon.check({s.nstacks for s in a.sensors} == {tot} and abs(a.source.x - g[0].sx) < 1e-9, "recordings of one source: stacks or source")
    other = h[int(rng.integers(len(h)))].file
    mixed = names + [other] if rng.random() < 0.5 else [other] + names
    mon.raises(ValueError, lambda: Array1D.from_files(mixed), "stacking recordings of two sources")
    mon.check(_sha(names) == sha, "reading changed a file")
    mon.event("recordings", len(pick))


SCENARIOS = {"recorded": (recorded, 10, 200), "stack": (stack, 160, 4000), "refusal": (refusal, 200, 4000)}
