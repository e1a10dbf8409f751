"""Workflows on files: result array and power against the documented steps written out independently in numpy; mute picks are scripted."""
import warnings

import numpy as np

from swprocess.masw import Masw
from .. import pipe, ui
from ..gens import choice

RULE = ("a case writes one to four shot files (trending noise, shuffled traces, pre-trigger delay), runs the time-domain or single "
        "workflow with a random combination of offset limits, trim, scripted mute and pad, or puts the source inside the array; "
        "non-trivial = at least two of the optional steps apply, or a refusal")
REQUIRE = {"runs": 150, "rows_compared": 600, "columns_compared": 1000, "trimmed": 50, "muted": 50, "padded": 50, "offsets_cut": 30,
           "single_of_several": 15, "refusals_checked": 30}


def _user_lines(mon, start, end):
    return ui.Script(picks=[[p] for line in (start, end) for p in line])


def compose(rng, mon):
    d = mon.scratch()
    workflow = choice(rng, ("time-domain", "time-domain", "single"))
    nf = int(rng.integers(1, 5))
    files, models, stacked, meta = pipe.survey(rng, d, nf=nf)
    m = models[0] if workflow == "single" else stacked
    pre = pipe.preprocessing(rng, m)
    p = pipe.prepared(m, pre)
    st = pipe.processing(rng, p, pre)
    if st is None or len(p.x) < 2:
        mon.describe(nontrivial=False)
        return
    settings = pipe.settings_of(workflow, pre, st)
    steps = [k for k in ("trim", "mute", "pad") if pre.get(k)] + (["offsets"] if len(p.x) < len(m.x) else [])
    mon.describe(nontrivial=len(steps) > 1, workflow=workflow, applied=steps, pre=pre, processing=st, **meta)
    muted, script = None, ui.Script()
    if pre["mute"]:
        start, end = pipe.lines(rng, p)
        script = _user_lines(mon, start, end)
        muted = pipe.mute_candidates(p, start, end, pre.get("window_kwargs"))
        if any(not c for c in muted):
            return
    arg = files
    if nf == 1:
        arg = choice(rng, (files, files[0], tuple(files)))
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        with ui.user(script, default_press=lambda: None):
            T = Masw.run(arg, settings)
    mon.check(not script.picks, "mute was asked for but not every pick was taken", left=script.picks)
    if workflow == "single":
        with warnings.catch_warnings(record=True) as base:
            warnings.simplefilter("always")
            ui_script = ui.Script(picks=[[q] for line in (start, end) for q in line]) if pre["mute"] else ui.Script()
            with ui.user(ui_script, default_press=lambda: None):
                Masw.run(files[0], settings)
        if nf > 1:
            mon.check(len(seen) > len(base), "several files given to the single-file workflow without a warning")
            mon.event("single_of_several")
        else:
            mon.check(len(seen) == len(base), "a warning about several files for one file", got=[str(w.message) for w in seen])
    rows = pipe.check_array(mon, T.array, p, pre, muted)
    n, mult = pipe.size_after(p, pre)
    freqs = pipe.check_axes(mon, T, n, p.dt, mult, st)
    if len(freqs):
        pipe.check_power(mon, T, rows, p, st, freqs)
    mon.check(T.n == 1, "number of records the result represents", got=T.n)
    mon.event("runs")
    for ev, on in (("trimmed", pre.get("trim")), ("muted", pre["mute"]), ("padded", pre.get("pad")), ("offsets_cut", len(p.x) < len(m.x))):
        mon.event(ev, bool(on))


def inside(rng, mon):
    d = mon.scratch()
    workflow = choice(rng, ("time-domain", "single", "frequency-domain"))
    nf = int(rng.integers(1, 3))
    x = np.sort(np.round(np.cumsum(rng.uniform(1, 5, int(rng.integers(3, 8)))) - 6, 2))
    k = int(rng.integers(len(x) - 1))
    how = choice(rng, ("between", "at_receiver", "near_end"))
    sx = {"between": (x[k] + x[k + 1]) / 2, "at_receiver": x[int(rng.integers(1, len(x) - 1))],
          "near_end": choice(rng, (x[0] + 0.001, x[-1] - 0.001))}[how]
    files, models, stacked, meta = pipe.survey(rng, d, nf=nf, nch=len(x), x=x, sx=sx)
    pre = dict(min_offset=-1.0, mute=False)
    if rng.random() < 0.4:                                   # limits that would leave receivers on one side only
        pre["min_offset"] = float(min(sx - x[0], x[-1] - sx))
        if np.sum(stacked.offsets > pre["min_offset"]) < 2:
            pre["min_offset"] = -1.0
    settings = Masw.create_settings_dict(workflow=workflow, transform=choice(rng, ("fdbf", "phaseshift", "slantstack")), nvel=5, vmin=200, **pre)
    mon.describe(workflow=workflow, how=how, pre=pre, **meta)
    mon.raises(ValueError, lambda: Masw.run(files, settings), f"a source at {meta['sx']} strictly inside receivers {x}")


SCENARIOS = {"compose": (compose, 300, 8000), "inside": (inside, 60, 600)}
