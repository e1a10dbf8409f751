"""Round trips through files and dictionaries against the plain-array model, byte comparison of refused files, fingerprints of input dictionaries."""
import json
import pathlib
import warnings

import numpy as np

from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from .. import pk
from ..core import FsMonitor
from ..gens import choice

RULE = ("a case is a set of peaks or a suite (missing values, several maxima, extra attributes, rejections) taken through a history of writes, "
        "appends, refused appends and reads; non-trivial = some peaks were rejected or missing, or an append was refused")
REQUIRE = {"files_written": 600, "files_read": 600, "refused_appends": 100, "rejected_peaks_read_back": 200, "missing_values_read_back": 200,
           "dictionaries_reused": 100, "suites": 100, "several_files": 40}


def _reject(rng, p, m):
    for _ in range(int(rng.integers(0, 3))):
        attr = choice(rng, list(m.data))
        lo, hi = sorted((pk.limit_for(rng, m, attr), pk.limit_for(rng, m, attr)))
        p.reject_limits_outside(attr, (lo, hi))
        m.reject_limits(attr, lo, hi)
    if rng.random() < 0.4:
        xl = sorted((pk.limit_for(rng, m, "frequency"), pk.limit_for(rng, m, "frequency")))
        p.reject_box_inside("frequency", xl, "velocity", (0, 1e9))
        m.reject_box("frequency", xl, "velocity", (0, 1e9))


def _data(rng, **kw):
    d = pk.data(rng, **kw)
    if "noise" in d and rng.random() < 0.3:
        d["noise"].flat[int(rng.integers(d["noise"].size))] = choice(rng, (np.nan, np.inf, -np.inf))
    if rng.random() < 0.2:                                     # full double precision
        d["velocity"] = d["velocity"] / 3
    return d


def _file_matches(mon, fname, ms):
    """The file lists exactly these sets in this order with the values the peaks were created from."""
    got = json.loads(pathlib.Path(fname).read_text())
    mon.check(list(got) == [m.ident for m in ms], "identifiers in the file", got=list(got), want=[m.ident for m in ms])
    for m in ms:
        for a, v in m.data.items():
            mon.check(a in got[m.ident], "attribute missing in the file", attr=a)
            mon.equal(np.array(got[m.ident][a], float), v, f"{a} in the file")


def _second_generation(mon, d, obj, again, fname):
    """Writing what was read gives a file with the same content, rejected and missing values included."""
    other = d / "again.json"
    again.to_json(str(other))
    a, b = json.loads(pathlib.Path(fname).read_text()), json.loads(other.read_text())
    mon.check(json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True) and list(a) == list(b),
              "writing what was read gives a different file")


def _count(mon, ms):
    for m in ms:
        have = ~np.isnan(m.data["velocity"])
        mon.event("rejected_peaks_read_back", int((have & ~m.valid).sum()))
        mon.event("missing_values_read_back", int((~have).sum()))


def peaks(rng, mon):
    d = mon.scratch()
    fname = str(d / choice(rng, ("p.json", "p \u00e9.txt")))
    p, m = pk.make(_data(rng), pk.idents(rng, 1)[0])
    _reject(rng, p, m)
    if rng.random() < 0.3:
        pathlib.Path(fname).write_text('{"old": {"frequency": [1], "velocity": [2]}}' * 40)
    with mon.unchanged("the peaks written", p):
        with FsMonitor() as log:
            p.to_json(fname)
    mon.check(set(log["written"]) == {fname}, "other files were written", got=log["written"])
    mon.event("files_written")
    _file_matches(mon, fname, [m])
    before = pathlib.Path(fname).read_bytes()
    q = Peaks.from_json(fname)
    mon.check(pathlib.Path(fname).read_bytes() == before, "reading changed the file")
    mon.event("files_read")
    pk.check_state(mon, q, m, "read back")
    mon.check(list(q.attrs) == list(p.attrs), "order of attributes read back", got=q.attrs, want=p.attrs)
    mon.check(q == p and p == q, "read back peaks are not equal to those written")
    _second_generation(mon, d, p, q, fname)
    if rng.random() < 0.5:                                     # rejections go on after reading
        m2 = m.copy()
        _reject(rng, q, m2)
        pk.check_state(mon, q, m2, "rejected after reading")
        q.to_json(fname)
        pk.check_state(mon, Peaks.from_json(fname), m2, "second read")
        pk.check_state(mon, p, m, "original after its copy was changed")
    _count(mon, [m])
    full = int((~np.isnan(m.data["velocity"])).sum())
    mon.describe(nontrivial=int(m.valid.sum()) < m.valid.size, shape=m.valid.shape, attrs=list(m.data), ident=m.ident,
                 frequency=m.data["frequency"], valid=int(m.valid.sum()), have=full)


def history(rng, mon):
    """Files built by appending, with duplicates refused on the way."""
    d = mon.scratch()
    fname = str(d / "all.json")
    n = int(rng.integers(2, 7))
    names = pk.idents(rng, n)
    inside, refused = [], 0
    for k in range(n):
        p, m = pk.make(_data(rng), names[k])
        _reject(rng, p, m)
        p.to_json(fname, append=k > 0)
        mon.event("files_written")
        inside.append(m)
        _file_matches(mon, fname, inside)
        if rng.random() < 0.3:                                 # the same content as another program would write it
            text = json.dumps(json.loads(pathlib.Path(fname).read_text()), indent=choice(rng, (1, 4, None)))
            pathlib.Path(fname).write_text(text + choice(rng, ("", "\n", "\n\n")), encoding="utf-8")
        if rng.random() < 0.6:
            dup = names[int(rng.integers(k + 1))]
            q, _ = pk.make(_data(rng), dup)
            if rng.random() < 0.3:
                q = Peaks.from_dict({"frequency": [1, 2], "velocity": [3, 4]}, identifier=dup)
            before = pathlib.Path(fname).read_bytes()
            with mon.unchanged("the peaks refused", q):
                mon.raises(KeyError, lambda: q.to_json(fname, append=True), f"identifier {dup!r} appended twice")
            mon.check(pathlib.Path(fname).read_bytes() == before, "a refused append changed the file")
            mon.event("refused_appends")
            refused += 1
    s = PeaksSuite.from_json(choice(rng, (fname, pathlib.Path(fname), [fname], (fname,))))
    mon.event("files_read")
    mon.check(list(s.ids) == names and len(s) == n, "identifiers read back", got=s.ids, want=names)
    for p, m in zip(s, inside):
        pk.check_state(mon, p, m, "suite read from an appended file")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        first = Peaks.from_json(fname)
    pk.check_state(mon, first, inside[0], "first set of several in a file")
    _count(mon, inside)
    mon.describe(nontrivial=refused > 0 or any(not m.valid.all() for m in inside), names=names, refused=refused,
                 sizes=[m.valid.shape for m in inside], first=inside[0].data["frequency"])


def suite(rng, mon):
    d = mon.scratch()
    nfiles = choice(rng, (1, 1, 2, 3))
    sizes = rng.integers(1, 5, nfiles)
    while len(names := pk.idents(rng, int(sizes.sum()))) < sizes.sum():
        pass
    files, allm, k = [], [], 0
    for i, size in enumerate(sizes):
        pairs = []
        for _ in range(size):
            p, m = pk.make(_data(rng), names[k])
            k += 1
            pairs.append((p, m))
        s = PeaksSuite.from_peaks([p for p, _ in pairs])
        for p, m in pairs:
            _reject(rng, p, m)
        f = str(d / f"s{nfiles - i}.json")                     # file names sort against their order
        if rng.random() < 0.3:
            pathlib.Path(f).write_text("[" + "0, " * 5000 + "0]")
        with mon.unchanged("the suite written", s):
            s.to_json(f)
        mon.event("files_written")
        _file_matches(mon, f, [m for _, m in pairs])
        if nfiles == 1:
            again = PeaksSuite.from_json(f)
            mon.check(again == s and s == again, "suite read back is not equal to the one written")
            _second_generation(mon, d, s, again, f)
        files.append(f)
        allm += [m for _, m in pairs]
    arg = files[0] if nfiles == 1 and rng.random() < 0.5 else choice(rng, (list, tuple))(files)
    with mon.unchanged("the list of files", arg):
        s = PeaksSuite.from_json(arg)
    mon.event("files_read", nfiles)
    mon.event("several_files", nfiles > 1)
    mon.event("suites")
    mon.check(list(s.ids) == [m.ident for m in allm], "identifiers read back", got=s.ids, want=[m.ident for m in allm])
    for p, m in zip(s, allm):
        pk.check_state(mon, p, m, "suite read back")
    _count(mon, allm)
    mon.describe(nontrivial=any(not m.valid.all() for m in allm), names=names, nfiles=int(nfiles), sizes=[m.valid.shape for m in allm],
                 first=allm[0].data["velocity"])


def dictionaries(rng, mon):
    n = int(rng.integers(1, 4))
    names = pk.idents(rng, n)
    dicts, ms = {}, []
    for name in names:
        data = _data(rng)
        m = pk.Model(data, name)
        d = {k: (v.tolist() if rng.random() < 0.5 else v.copy()) for k, v in data.items()}
        if rng.random() < 0.6:
            valid = m.valid & (rng.random(m.valid.shape) < 0.7)
            d["valid"] = valid.tolist() if rng.random() < 0.5 else valid.copy()
            m.valid = valid.copy()
        dicts[name] = d
        ms.append(m)
    form = choice(rng, ("one", "several")) if n > 1 else "one"
    arg = dicts if form == "one" else [{k: v} for k, v in dicts.items()]
    for turn in range(2):                                      # the same dictionaries again
        with mon.unchanged("the dictionaries", arg):
            s = PeaksSuite.from_dict(arg)
        mon.check(list(s.ids) == names, "identifiers from dictionaries", got=s.ids, want=names)
        for p, m in zip(s, ms):
            pk.check_state(mon, p, m, f"suite from dictionaries, use {turn + 1}")
        k = int(rng.integers(n))
        with mon.unchanged("the dictionary", dicts[names[k]]):
            p = Peaks.from_dict(dicts[names[k]], identifier=names[k])
        pk.check_state(mon, p, ms[k], f"peaks from a dictionary, use {turn + 1}")
        m2 = ms[k].copy()
        with mon.unchanged("the dictionary its peaks came from", dicts[names[k]]):
            _reject(rng, p, m2)
        pk.check_state(mon, p, m2, "rejected after creation from a dictionary")
    mon.event("dictionaries_reused", n)
    mon.describe(nontrivial=any("valid" in d for d in dicts.values()), names=names, form=form, sizes=[m.valid.shape for m in ms],
                 first=ms[0].data["velocity"])


SCENARIOS = {"peaks": (peaks, 300, 6000), "history": (history, 120, 3000), "suite": (suite, 120, 3000),
             "dictionaries": (dictionaries, 120, 4000)}
