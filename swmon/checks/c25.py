"""Settings dictionaries against a table of argument, place and type; runs from dictionaries that went through JSON are compared with the original's."""
import copy
import json

import numpy as np

from swprocess.masw import Masw
from .. import pipe, ui
from ..core import fingerprint
from ..gens import choice

RULE = ("a case builds settings from a random subset of arguments in random spellings (plain, numpy and text numbers, positional or by "
        "name) and compares the whole dictionary, or runs a workflow from a dictionary and from its JSON copy; non-trivial = at least two arguments given")
REQUIRE = {"dictionaries": 400, "values_compared": 8000, "defaults_compared": 2000, "independence": 100, "json_runs": 50}

P, Q, S = "pre-processing", "processing", "signal-to-noise"
TABLE = [  # argument, place, type, default; in the order of the signature
    ("workflow", ("workflow",), str, "time-domain"),
    ("trim", (P, "trim", "apply"), bool, False),
    ("trim_begin", (P, "trim", "begin"), float, 0.0),
    ("trim_end", (P, "trim", "end"), float, 1.0),
    ("mute", (P, "mute", "apply"), bool, False),
    ("method", (P, "mute", "method"), str, "interactive"),
    ("window_kwargs", (P, "mute", "window_kwargs"), dict, {}),
    ("pad", (P, "pad", "apply"), bool, False),
    ("df", (P, "pad", "df"), float, 1.0),
    ("transform", (Q, "transform"), str, "fdbf"),
    ("fmin", (Q, "fmin"), float, 5.0),
    ("fmax", (Q, "fmax"), float, 100.0),
    ("vmin", (Q, "vmin"), float, 100.0),
    ("vmax", (Q, "vmax"), float, 1000.0),
    ("nvel", (Q, "nvel"), int, 200),
    ("vspace", (Q, "vspace"), str, "linear"),
    ("weighting", (Q, "fdbf-specific", "weighting"), str, "sqrt"),
    ("steering", (Q, "fdbf-specific", "steering"), str, "cylindrical"),
    ("snr", (S, "perform"), bool, False),
    ("noise_begin", (S, "noise", "begin"), float, -0.5),
    ("noise_end", (S, "noise", "end"), float, 0.0),
    ("signal_begin", (S, "signal", "begin"), float, 0.0),
    ("signal_end", (S, "signal", "end"), float, 0.5),
    ("pad_snr", (S, "pad", "apply"), bool, True),
    ("df_snr", (S, "pad", "df"), float, 1.0),
    ("min_offset", (P, "offsets", "min"), float, 0.0),
    ("max_offset", (P, "offsets", "max"), float, float("inf")),
]
TEXT = dict(workflow=("time-domain", "frequency-domain", "single", "time-domain-xcorr"), method=("interactive",),
            transform=("fdbf", "fk", "phaseshift", "slantstack"), vspace=("linear", "lin", "log", "logarithmic"),
            weighting=("sqrt", "invamp", "none"), steering=("cylindrical", "plane"))


def _leaves(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict) and path + (k,) != (P, "mute", "window_kwargs"):
            yield from _leaves(v, path + (k,))
        else:
            yield path + (k,), v


def _draw(rng, name, typ):
    """(value as given, value expected)."""
    if typ is bool:
        b = bool(rng.random() < 0.5)
        return choice(rng, (b, int(b), np.bool_(b))), b
    if typ is float:
        v = float(np.round(rng.uniform(-3, 300), 3))
        if name == "max_offset" and rng.random() < 0.2:
            return np.inf, float("inf")
        if rng.random() < 0.15:
            v = 0.0
        how = choice(rng, ("float", "float", "int", "np", "text", "npint"))
        if how == "int":
            return int(v), float(int(v))
        if how == "npint":
            return np.int64(v), float(int(v))
        return {"float": v, "np": np.float64(v), "text": repr(v)}[how], v
    if typ is int:
        v = int(rng.integers(1, 900))
        return choice(rng, (v, np.int32(v), float(v), str(v))), v
    if typ is str:
        v = choice(rng, TEXT[name])
        return choice(rng, (v, np.str_(v))), v
    kw = choice(rng, ({}, dict(alpha=float(np.round(rng.random(), 2))), dict(alpha=0.4, sym=False), None))
    return kw, {} if kw is None else dict(kw)


def _expect(given):
    return {path: given.get(name, default) for name, path, _, default in TABLE}


def _verify(mon, got, want):
    leaves = dict(_leaves(got))
    mon.check(set(leaves) == set(want), "places in the settings", missing=sorted(set(want) - set(leaves)), surplus=sorted(set(leaves) - set(want)))
    types = {path: typ for _, path, typ, _ in TABLE}
    for path, w in want.items():
        v = leaves[path]
        mon.check(type(v) is types[path], f"type of {'/'.join(path)}", got=type(v).__name__, want=types[path].__name__)
        mon.check(v == w, f"value of {'/'.join(path)}", got=v, want=w)
        mon.event("values_compared")


def record(rng, mon):
    style = choice(rng, ("names", "names", "positional", "all", "none"))
    idx = list(range(len(TABLE)))
    if style == "names":
        idx = sorted(int(i) for i in rng.choice(len(TABLE), int(rng.integers(1, len(TABLE))), replace=False))
    elif style == "positional":
        idx = list(range(int(rng.integers(1, len(TABLE) + 1))))
    elif style == "none":
        idx = []
    raw, want = {}, {}
    for i in idx:
        name, _, typ, _ = TABLE[i]
        raw[name], want[name] = _draw(rng, name, typ)
    mon.describe(nontrivial=len(idx) > 1, style=style, given={k: str(v) for k, v in raw.items()})
    with mon.unchanged("an argument", raw):
        if style == "positional":
            d = Masw.create_settings_dict(*[raw[TABLE[i][0]] for i in idx])
        else:
            items = list(raw.items())
            rng.shuffle(items)
            d = Masw.create_settings_dict(**dict((str(k), raw[str(k)]) for k, _ in items))
    mon.event("dictionaries")
    mon.event("defaults_compared", len(TABLE) - len(idx))
    _verify(mon, d, _expect(want))
    back = json.loads(json.dumps(d))
    mon.check(back == d, "settings changed by JSON", got=back, want=d)
    _verify(mon, back, _expect(want))
    # independence: of the arguments, of one another, and of the defaults of later calls
    if rng.random() < 0.4:
        e = Masw.create_settings_dict(**raw)
        ref = fingerprint(e)
        if isinstance(raw.get("window_kwargs"), dict):
            raw["window_kwargs"]["alpha"] = 99.0
        for branch in (d, d[P], d[P]["trim"], d[P]["mute"], d[P]["mute"]["window_kwargs"], d[P]["pad"], d[P]["offsets"], d[Q],
                       d[Q]["fdbf-specific"], d[S], d[S]["noise"], d[S]["signal"], d[S]["pad"]):
            branch["surplus"] = 1
            for k in list(branch):
                if not isinstance(branch[k], dict):
                    branch[k] = "spoiled"
        mon.check(fingerprint(e) == ref, "changing one settings dictionary or an argument changed another")
        _verify(mon, Masw.create_settings_dict(), _expect({}))
        mon.event("independence")


def runs(rng, mon):
    d = mon.scratch()
    wf = choice(rng, ("time-domain", "single", "frequency-domain"))
    pre_n = int(rng.integers(20, 40))
    files, models, stacked, meta = pipe.survey(rng, d, nf=1 if wf == "single" else 2, n=pre_n + 80, pre=pre_n, kind="trend", where=choice(rng, ("left", "right")))
    m = models[0] if wf != "time-domain" else stacked
    pre = pipe.preprocessing(rng, m)
    p = pipe.prepared(m, pre)
    st = pipe.processing(rng, p, pre)
    if st is None or len(p.x) < 2:
        mon.describe(nontrivial=False)
        return
    more = {}
    if not pre.get("trim") and rng.random() < 0.5:
        w = 10 * m.dt
        more = dict(snr=True, noise_begin=float(m.t0), noise_end=float(m.t0) + w, signal_begin=0.0, signal_end=w, df_snr=1 / (60 * m.dt))
    s = pipe.settings_of(wf, pre, st, **more)
    t = json.loads(json.dumps(s))
    line = pipe.lines(rng, p) if pre["mute"] else []
    mon.describe(workflow=wf, pre=pre, processing=st, snr=more, **meta)
    out = []
    for q in (s, t, json.loads(json.dumps(copy.deepcopy(t), indent=2, sort_keys=True))):
        script = ui.Script(picks=[[k] for l in line for k in l])
        with ui.user(script, default_press=lambda: None):
            out.append(Masw.run(files, q))
    for r in out[1:]:
        for a in ("frequencies", "velocities", "power"):
            mon.close(np.array(getattr(r, a)), np.array(getattr(out[0], a)), f"{a} of the run from JSON", rtol=1e-10)
        mon.check((r.snr is None) == (out[0].snr is None), "ratio of the run from JSON")
        if r.snr is not None:
            mon.close(np.array(r.snr), np.array(out[0].snr), "ratio of the run from JSON", rtol=1e-10)
            mon.close(np.array(r.snr_frequencies), np.array(out[0].snr_frequencies), "frequencies of the ratio of the run from JSON", rtol=1e-10)
    mon.event("json_runs")


SCENARIOS = {"record": (record, 600, 20000), "runs": (runs, 80, 1500)}
