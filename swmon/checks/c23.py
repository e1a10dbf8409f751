"""Histories of processing runs sharing settings, lists and file names: fingerprints of every input and earlier result, file hashes, an audit hook for writes, and comparison with the first run of the same job."""
import copy
import hashlib
import pathlib

import numpy as np

from swprocess import Array1D
from swprocess.masw import Masw, MaswXcorr
from .. import gens, pipe, ui
from ..core import FsMonitor, fingerprint
from ..gens import choice

RULE = ("a case is a history of runs (all workflows and transforms, muting by script, signal-to-noise ratio) that share settings dictionaries "
        "and file lists, repeat, interleave, rewrite a file under the same name and misuse earlier results; non-trivial = at least two different jobs")
REQUIRE = {"runs": 250, "repeats": 100, "results_guarded": 200, "argument_fingerprints": 250, "rewritten_files": 15, "misused_results": 40,
           "changed_settings": 15}


def snapshot(T):
    out = dict(f=np.array(T.frequencies), v=np.array(T.velocities), p=np.array(T.power), n=T.n,
               x=np.array([s.x for s in T.array.sensors]), a=gens.matrix(T.array), sx=T.array.source.x,
               d=np.array([s.delay for s in T.array.sensors]), st=np.array([s.nstacks for s in T.array.sensors]))
    if T.snr is not None:
        out.update(snr=np.array(T.snr), sf=np.array(T.snr_frequencies))
    return out


def _same(mon, got, want, what):
    mon.check(set(got) == set(want), f"{what}: parts of the result", got=sorted(got), want=sorted(want))
    for k in want:
        mon.close(got[k], want[k], f"{what}: {k}", rtol=1e-9)


def _job(rng, d, k):
    """A job: files, settings and how to run it."""
    wf = choice(rng, ("time-domain", "single", "frequency-domain", "time-domain", "time-domain-xcorr"))
    nf = int(rng.integers(1, 4))
    files, models, stacked, meta = pipe.survey(rng, d, nf=nf, nch=int(rng.integers(3, 6)), n=int(rng.integers(60, 100)), name=f"job{k}_",
                                               where=choice(rng, ("left", "right")), kind=choice(rng, ("noise", "trend")),
                                               pre=30 if rng.random() < 0.4 else 0)
    m = models[0] if wf == "single" else stacked
    pre = pipe.preprocessing(rng, m)
    if wf == "time-domain-xcorr":
        pre.update(trim=False)
    p = pipe.prepared(m, pre)
    st = pipe.processing(rng, p, pre, transform=None if wf != "time-domain-xcorr" else choice(rng, ("fdbf", "fk", "phaseshift")))
    if st is None or len(p.x) < 2:
        return None
    more = {}
    if meta["delay_ms"] < 0 and wf != "time-domain-xcorr" and not pre.get("trim") and rng.random() < 0.7:
        w = 0.4 * -meta["delay_ms"] / 1000
        more = dict(snr=True, noise_begin=-2 * w, noise_end=-w, signal_begin=0.0, signal_end=w, pad_snr=True, df_snr=1 / (200 * m.dt))
    settings = pipe.settings_of(wf, pre, st, **more)
    lines = pipe.lines(rng, p) if pre["mute"] else []
    src = None
    if wf == "time-domain-xcorr":
        sfile = d / f"src{k}.su"
        gens.field_file(rng, sfile, [gens.samples(rng, 80, "noise")], meta["dt_us"], [0.0], -1.0)
        src = [str(sfile)]
    maps = choice(rng, ({}, {}, dict(map_x=lambda v: v + 100.0), dict(map_y=lambda v: v * 2)))
    if lines and maps:
        maps = {}
    return dict(workflow=wf, files=files, settings=settings, lines=lines, src=src, maps=maps, meta=meta)


def _run(mon, job, settings=None, files=None):
    settings = job["settings"] if settings is None else settings
    files = job["files"] if files is None else files
    script = ui.Script(picks=[[q] for l in job["lines"] for q in l])
    paths = list(files) + list(job["src"] or [])
    sha = [hashlib.sha1(pathlib.Path(f).read_bytes()).hexdigest() for f in paths]
    listing = sorted(str(q) for q in pathlib.Path(paths[0]).parent.iterdir())
    with mon.unchanged("settings, file names or mappings given to a run", settings, files, job["src"], job["maps"]):
        with ui.user(script, default_press=lambda: None):
            with FsMonitor() as fs:
                if job["src"]:
                    T = MaswXcorr.run(files, job["src"], 0, settings, **job["maps"])
                else:
                    T = Masw.run(files, settings, **job["maps"])
    mon.check(not script.picks, "mute was asked for but not every pick was taken")
    bad = [p for p in fs["written"] if not p.startswith("/dev/")]
    mon.check(not bad and not fs["other"], "a run wrote to the file system", got=bad + fs["other"])
    mon.check(sha == [hashlib.sha1(pathlib.Path(f).read_bytes()).hexdigest() for f in paths], "a run changed a file it read")
    mon.check(listing == sorted(str(q) for q in pathlib.Path(paths[0]).parent.iterdir()), "a run created or removed a file")
    mon.event("runs")
    return T


def _misuse(rng, T):
    """Things a user may do with a result."""
    how = choice(rng, ("normalize", "power", "array", "axes", "stack"))
    if how == "normalize":
        T.normalize(choice(rng, ("frequency-maximum", "absolute-maximum", "none")))
    elif how == "power":
        T.power[...] = 0
    elif how == "axes":
        T.frequencies[...] = -1
        T.velocities[...] = -1
    elif how == "stack":
        T.array.sensors[0].stack_append(T.array.sensors[0])
        T.array.zero_pad(7.0)
    else:
        for s in T.array.sensors:
            s.detrend()
        T.array.trim_offsets(-1, np.sort(T.array.offsets)[-1])
    return how


def history(rng, mon):
    d = mon.scratch()
    jobs = [j for j in (_job(rng, d, k) for k in range(int(rng.integers(2, 5)))) if j]
    if len(jobs) < 2:
        mon.describe(nontrivial=False)
        return
    mon.describe(workflows=[j["workflow"] for j in jobs], transforms=[j["settings"]["processing"]["transform"] for j in jobs],
                 files=[j["meta"]["nch"] for j in jobs], x=[j["meta"]["x"] for j in jobs])
    first = {}
    held = []                                               # (result, its fingerprint) that must stay as they were
    for step in range(int(rng.integers(5, 10))):
        k = int(rng.integers(len(jobs)))
        T = _run(mon, jobs[k])
        s = snapshot(T)
        if k in first:
            _same(mon, s, first[k], f"run {step} of the history differs from the first run of the same job")
            mon.event("repeats")
        else:
            first[k] = copy.deepcopy(s)
        for R, fp, arr in held:
            mon.check(fingerprint(R) == fp and fingerprint(R.array) == arr, "an earlier result changed during a later run")
            mon.event("results_guarded")
        if rng.random() < 0.4:
            _misuse(rng, T)
            mon.event("misused_results")
        for R, fp, arr in held:
            mon.check(fingerprint(R) == fp and fingerprint(R.array) == arr, "using a later result changed an earlier one")
        held.append((T, fingerprint(T), fingerprint(T.array)))


def renewed(rng, mon):
    """Same names and objects, other content: the result must follow the content."""
    d, e = mon.scratch(), mon.scratch()
    a = b = None
    seed = int(rng.integers(2 ** 31))
    while a is None:
        seed += 1
        a = _job(np.random.default_rng(seed), d, 0)
    what = choice(rng, ("file", "settings"))
    mon.describe(what=what, workflow=a["workflow"], transform=a["settings"]["processing"]["transform"], **a["meta"])
    T0 = snapshot(_run(mon, a))
    if what == "file":
        # another shot at the same place takes the names of the first one's files
        other = np.random.default_rng(seed)
        b = _job(other, e, 0)
        for f, g in zip(a["files"], b["files"]):
            arr = Array1D.from_files(f)
            fmt = a["meta"]["fmt"]
            amps = [gens.samples(rng, s.nsamples, "noise") for s in arr.sensors]
            x, sx = [s.x for s in arr.sensors], arr.source.x
            for target in (f, g):
                if fmt == "SEG2":
                    gens.write_seg2(target, amps, arr.sensors[0].dt, x, sx, delay=arr.sensors[0].delay, stack=arr.sensors[0].nstacks)
                else:
                    gens.field_file(rng, target, amps, a["meta"]["dt_us"], x, sx, delay_ms=a["meta"]["delay_ms"], nstacks=arr.sensors[0].nstacks, fmt=fmt)
        mon.event("rewritten_files")
        again = snapshot(_run(mon, a))
        fresh = snapshot(_run(mon, b))                        # same content under names never used before
        _same(mon, again, fresh, "a rewritten file gave another result than the same content under a new name")
        mon.check(not np.array_equal(again["a"], T0["a"]), "the result does not follow the content of the file")
    else:
        p = a["settings"]["processing"]
        p["vmax"] = p["vmax"] * 1.5
        p["nvel"] = p["nvel"] + 3
        if p["transform"] != "slantstack" and not a["lines"]:  # which suit the present receivers only
            a["settings"]["pre-processing"]["offsets"]["max"] = float("inf")
        mon.event("changed_settings")
        again = snapshot(_run(mon, a))
        fresh = snapshot(_run(mon, a, settings=copy.deepcopy(a["settings"]), files=list(a["files"])))
        _same(mon, again, fresh, "changed settings gave another result than a fresh dictionary with the same content")
        mon.check(len(again["v"]) == p["nvel"], "the result does not follow the settings", got=len(again["v"]), want=p["nvel"])


SCENARIOS = {"history": (history, 60, 1200), "renewed": (renewed, 60, 800)}
