"""Frequency-domain workflow against the mean of single-file runs and of independently computed power, in several file orders."""
import numpy as np

from swprocess.masw import Masw
from .. import gens, pipe, ui, xform
from ..gens import choice

RULE = ("a case writes one to five shot files with different stack counts, runs the frequency-domain workflow on them in several orders "
        "and the single workflow on each, or mixes in a file with another source, receiver count, record length or time step; non-trivial = at least two files, or a refusal")
REQUIRE = {"many_files": 2, "runs": 150, "single_runs": 200, "columns_compared": 1000, "unequal_counts": 50, "muted": 20, "listed_twice": 20, "silent_files": 5, "refusals_checked": 40, "other_frequencies": 25}


def mean(rng, mon):
    d = mon.scratch()
    nf = int(rng.integers(8, 24)) if rng.random() < 0.03 else int(rng.integers(1, 6))
    mon.event("many_files", nf > 6)
    files, models, stacked, meta = pipe.survey(rng, d, nf=nf)
    pre = pipe.preprocessing(rng, models[0])
    ps = [pipe.prepared(m, pre) for m in models]
    st = pipe.processing(rng, ps[0], pre)
    if st is None or len(ps[0].x) < 2:
        mon.describe(nontrivial=False)
        return
    mon.describe(nontrivial=nf > 1, pre=pre, processing=st, **meta)
    line = pipe.lines(rng, ps[0]) if pre["mute"] else []

    def run(workflow, arg):
        script = ui.Script(picks=[[p] for l in line for p in l])
        with ui.user(script, default_press=lambda: None):
            T = Masw.run(arg, pipe.settings_of(workflow, pre, st))
        mon.check(not script.picks, "mute was asked for but not every pick was taken")
        return T
    n, mult = pipe.size_after(ps[0], pre)
    singles = []
    for f, p in zip(files, ps):
        S = run("single", f)
        mon.event("single_runs")
        singles.append(np.array(S.power))
        if np.size(S.power) == 0:
            return
        freqs = pipe.check_axes(mon, S, n, p.dt, mult, st)
        # the single-file image itself is decided independently from the array it reports
        rows = pipe.check_array(mon, S.array, p, pre, pipe.mute_candidates(p, *line, pre.get("window_kwargs")) if line else None)
        if not pipe.check_power(mon, S, rows, p, st, freqs):
            return
    want = sum(singles) / nf
    floor = 1e-9 * np.max(np.abs(want))
    for r in range(1 if nf == 1 else 3):
        perm = [int(i) for i in (rng.permutation(nf) if r else range(nf))]
        if r == 2 and rng.random() < 0.5:                      # a file listed again counts again
            perm.insert(int(rng.integers(nf + 1)), int(rng.integers(nf)))
            mon.event("listed_twice")
        arg = [files[i] for i in perm]
        want = sum(singles[i] for i in perm) / len(perm)
        T = run("frequency-domain", arg[0] if nf == 1 and rng.random() < 0.5 else choice(rng, (arg, tuple(arg))))
        mon.event("runs")
        pipe.check_axes(mon, T, n, ps[0].dt, mult, st)
        xform.columns_close(mon, np.array(T.power), want, f"power is not the mean over the files (order {perm}, stacks {meta['counts']})", rtol=1e-8, floor=floor)
        # what it reports as its array is the last file's, processed
        last = ps[perm[-1]]
        pipe.check_array(mon, T.array, last, pre, pipe.mute_candidates(last, *line, pre.get("window_kwargs")) if line else None)
        mon.check(T.n == len(perm), "number of records represented", got=T.n, want=len(perm))
    mon.event("unequal_counts", len(set(meta["counts"])) > 1)
    mon.event("muted", bool(line))
    mon.event("silent_files", meta.get("blank") is not None)


def refusal(rng, mon):
    d = mon.scratch()
    nf = int(rng.integers(2, 5))
    what = choice(rng, ("source_x", "source_y", "fewer", "more", "longer", "slower"))
    bad = int(rng.integers(nf))
    base = gens.positions(rng, int(rng.integers(3, 8)))
    x = [round(float(v), 3) for v in np.sort(base)]
    sx = round(float(gens.source_x(rng, x, choice(rng, ("left", "right")))[0]), 3)
    fmt = choice(rng, ("SU", "SEGY") if what == "source_y" else ("SU", "SEGY", "SEG2"))
    eps = choice(rng, (0.001, 0.1, 1.0))
    files = []
    for k in range(nf):
        xs, s, sy = list(x), sx, 0.0
        if k == bad:
            if what == "source_x":
                s = sx - eps if sx < x[0] else sx + eps
            elif what == "source_y":
                sy = eps
            elif what == "fewer":
                xs = xs[:-1] if sx < x[0] else xs[1:]
            elif what == "more":
                xs = xs + [xs[-1] + 2.0] if sx < x[0] else [xs[0] - 2.0] + xs
        ns, us = 40, 2000
        if k == bad and what == "longer":                      # another record length or time step is another frequency step
            ns = 40 + int(choice(rng, (1, 2, -1, 7)))
        elif k == bad and what == "slower":
            us = int(choice(rng, (1000, 1900, 2100, 2500)))
        amps = [gens.samples(rng, ns, "noise") for _ in xs]
        p = d / f"f{k}.{fmt.lower()}"
        if fmt == "SEG2":
            gens.write_seg2(str(p), amps, us * 1e-6, xs, s)
        else:
            gens.field_file(rng, p, amps, us, xs, s, sy=sy, fmt=fmt)
        files.append(str(p))
    trim = rng.random() < 0.3                                 # offset limits that would hide the additional receiver
    off = np.abs(np.array(x) - sx)
    kw = dict(min_offset=float(off.min() - 1e-3), max_offset=float(np.sort(off)[-2] + 1e-3)) if trim else dict(min_offset=-1.0)
    settings = Masw.create_settings_dict(workflow="frequency-domain", transform=choice(rng, ("fk", "phaseshift")), nvel=4, vmin=300, fmin=20, fmax=60, **kw)
    mon.describe(what=what, nfiles=nf, bad=bad, x=x, sx=sx, fmt=fmt, eps=eps, offsets=kw)
    mon.event("other_frequencies", what in ("longer", "slower"))
    mon.raises(ValueError, lambda: Masw.run(files, settings), f"frequency-domain stacking with one file of different {what}")


SCENARIOS = {"mean": (mean, 130, 3500), "refusal": (refusal, 60, 600)}
