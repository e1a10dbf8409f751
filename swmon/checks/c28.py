"""Histories of additions by every route against an ordered-set model, and pairs of near-identical peaks and suites against equality."""
import json

import numpy as np

from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from .. import pk
from ..gens import choice
from .c29 import _generate, _parse, _times, _write

RULE = ("a case is a history of additions to suites by all routes with duplicates and foreign objects mixed in, or pairs of peaks or suites that differ "
        "in one respect; non-trivial = something was refused, or a pair differs")
REQUIRE = {"max_files_refused": 10, "additions": 600, "refused_duplicates": 300, "refused_types": 150, "constructors_refused": 80, "unequal_pairs": 600, "equal_pairs": 200, "late_duplicates": 40}
FOREIGN = (None, 3, "peaks", {"frequency": [1], "velocity": [2]}, [1, 2], np.arange(3), object())


def _check_suite(mon, s, ms, what):
    mon.check(len(s) == len(ms), f"{what}: number of members", got=len(s), want=len(ms))
    mon.check(list(s.ids) == [m.ident for m in ms], f"{what}: identifiers", got=s.ids, want=[m.ident for m in ms])
    mon.check(len(set(s.ids)) == len(s.ids), f"{what}: an identifier is held twice")
    for k, m in enumerate(ms):
        pk.check_state(mon, s[k], m, f"{what}: member {k}")
    mon.check([p.identifier for p in s] == [m.ident for m in ms], f"{what}: iteration order")


def _new(rng, ident):
    return pk.make(pk.data(rng, shape=(int(rng.integers(1, 8)),) if rng.random() < 0.7 else None), ident)


def history(rng, mon):
    names = pk.idents(rng, 8)
    made = [_new(rng, i) for i in names]
    route = choice(rng, ("init", "from_peaks", "from_dict", "from_json", "from_peakssuite"))
    k = int(rng.integers(1, 4)) if route != "init" else 1
    start, ms = [p for p, _ in made[:k]], [m for _, m in made[:k]]
    d = mon.scratch()
    if route == "init":
        s = PeaksSuite(start[0])
    elif route == "from_peaks":
        arg = choice(rng, (list, tuple))(start)
        with mon.unchanged("the peaks given", arg):
            s = PeaksSuite.from_peaks(arg)
    elif route == "from_dict":
        arg = {m.ident: {a: v.tolist() for a, v in m.data.items()} for m in ms}
        with mon.unchanged("the dictionary given", arg):
            s = PeaksSuite.from_dict(arg)
    elif route == "from_json":
        PeaksSuite.from_peaks(start).to_json(str(d / "a.json"))
        s = PeaksSuite.from_json(str(d / "a.json"))
    else:
        cut = int(rng.integers(1, k + 1))
        parts = [PeaksSuite.from_peaks(start[:cut])] + ([PeaksSuite.from_peaks(start[cut:])] if cut < k else [])
        arg = parts[0] if len(parts) == 1 and rng.random() < 0.5 else parts
        with mon.unchanged("the suites given", *parts):
            s = PeaksSuite.from_peakssuite(arg)
    _check_suite(mon, s, ms, f"suite by {route}")
    mon.event("additions", k)
    log = []
    free = list(range(k, len(made)))
    for _ in range(int(rng.integers(3, 12))):
        op = choice(rng, ("add", "add", "duplicate", "duplicate", "same", "foreign"))
        if op == "add" and free:
            j = free.pop(int(rng.integers(len(free))))
            with mon.unchanged("the peaks added", made[j][0]):
                s.append(made[j][0])
            ms = ms + [made[j][1]]
            mon.event("additions")
        elif op == "duplicate":                                # other content, same identifier
            ident = ms[int(rng.integers(len(ms)))].ident
            q, _ = _new(rng, int(ident) if ident.isdigit() and rng.random() < 0.5 else ident)
            with mon.unchanged("the suite that refused", s):
                mon.raises(KeyError, lambda: s.append(q), "duplicate identifier")
            mon.event("refused_duplicates")
        elif op == "same":
            with mon.unchanged("the suite that refused", s):
                mon.raises(KeyError, lambda: s.append(s[int(rng.integers(len(s)))]), "member added again")
            mon.event("refused_duplicates")
        elif op == "foreign":
            x = choice(rng, FOREIGN + (s,))
            with mon.unchanged("the suite that refused", s):
                mon.raises(TypeError, lambda: s.append(x), f"{type(x).__name__} added")
            mon.event("refused_types")
        log.append(op)
        _check_suite(mon, s, ms, "after " + op)
    mon.describe(nontrivial=any(o != "add" for o in log), route=route, names=names, log=log, first=ms[0].data["velocity"])


def many(rng, mon):
    """A survey's worth of members: no identifier is taken twice however many there are and wherever the first one is."""
    n = int(rng.integers(20, 260))
    names = [choice(rng, ("{}", "shot {}", "{:03d}", "{}.0")).format(i) for i in rng.permutation(n * 2)[:n]]
    names = list(dict.fromkeys(names))
    made = [pk.make(pk.data(rng, shape=(int(rng.integers(1, 4)),)), i) for i in names]
    half = int(rng.integers(1, len(made)))
    s = PeaksSuite.from_peaks([p for p, _ in made[:half]])
    for p, _ in made[half:]:
        s.append(p)
    ms = [m for _, m in made]
    _check_suite(mon, s, ms, "large suite")
    mon.event("additions", len(made))
    for k in {0, len(ms) - 1, *(int(v) for v in rng.integers(len(ms), size=8))}:
        q, _ = _new(rng, ms[k].ident)
        with mon.unchanged("the suite that refused", s):
            mon.raises(KeyError, lambda: s.append(q), f"duplicate of member {k} of {len(ms)}")
            mon.raises(KeyError, lambda: s.append(s[k]), f"member {k} of {len(ms)} added again")
        mon.event("refused_duplicates", 2)
        mon.event("late_duplicates", k > 50)
    k = int(rng.integers(len(made)))
    other = [p for p, _ in made]
    other[k] = pk.make({a: v + (50.5 if a == "velocity" else 0) for a, v in ms[k].data.items()}, ms[k].ident)[0]
    t = PeaksSuite.from_peaks(other)
    same = PeaksSuite.from_peaks([pk.make(m.data, m.ident)[0] for m in ms])
    mon.check(bool(s == same) and bool(same == s), "large suites of the same content compare unequal")
    mon.event("equal_pairs")
    if np.any(np.isfinite(ms[k].data["velocity"])):
        mon.check(not (s == t) and not (t == s), f"large suites compare equal although member {k} of {len(ms)} differs")
        mon.event("unequal_pairs")
    mon.describe(nontrivial=True, n=len(names), names=names[:6])


def constructors(rng, mon):
    """Duplicates and foreign objects among what a suite is made of."""
    n = int(rng.integers(2, 6))
    names = pk.idents(rng, n)
    ps = [_new(rng, i)[0] for i in names]
    at = int(rng.integers(1, n + 1))
    dup = _new(rng, names[int(rng.integers(at))])[0]
    bad = ps[:at] + [dup] + ps[at:]
    route = choice(rng, ("from_peaks", "from_max", "from_dict", "from_json", "from_peakssuite", "type", "type_init"))
    d = mon.scratch()
    if route == "from_peaks":
        with mon.unchanged("the peaks given", bad):
            mon.raises(KeyError, lambda: PeaksSuite.from_peaks(bad), "duplicate in a list")
    elif route == "from_max":
        want = choice(rng, ("rayleigh", "love"))
        files = []
        for k in range(int(rng.integers(1, 8))):
            while True:
                text = _generate(rng, mon, small=True, times=[f"{k + 1}{v}" for v in _times(rng, int(rng.integers(1, 4)), mon)])
                if _parse(text, want)[1]:
                    break
            files.append(_write(d, f"{k}.max", text))
        mon.check(len(PeaksSuite.from_max(files, wavetype=want)) >= len(files), "peaks of distinct .max files")
        files.insert(int(rng.integers(len(files) + 1)), choice(rng, files))
        mon.raises(KeyError, lambda: PeaksSuite.from_max(files, wavetype=want), f"one of {len(files) - 1} .max files listed again")
        mon.event("max_files_refused")
    elif route == "from_dict":
        dicts = [{p.identifier: {a: np.array(getattr(p, a)).tolist() for a in p.attrs}} for p in bad]
        with mon.unchanged("the dictionaries given", dicts):
            mon.raises(KeyError, lambda: PeaksSuite.from_dict(dicts), "duplicate in dictionaries")
    elif route == "from_json":
        PeaksSuite.from_peaks(bad[:at]).to_json(str(d / "a.json"))
        PeaksSuite.from_peaks(bad[at:]).to_json(str(d / "b.json"))
        files = [str(d / "a.json"), str(d / "b.json")]
        mon.raises(KeyError, lambda: PeaksSuite.from_json(files), "duplicate in two files")
        mon.check(len(json.loads((d / "a.json").read_text())) == at, "a file changed")
    elif route == "from_peakssuite":
        a, b = PeaksSuite.from_peaks(bad[:at]), PeaksSuite.from_peaks(bad[at:])
        with mon.unchanged("the suites given", a, b):
            mon.raises(KeyError, lambda: PeaksSuite.from_peakssuite([a, b]), "duplicate in two suites")
            mon.raises(KeyError, lambda: PeaksSuite.from_peakssuite([a, a]), "the same suite twice")
    elif route == "type":
        x = choice(rng, FOREIGN)
        lst = ps[:at] + [x] + ps[at:]
        mon.raises(TypeError, lambda: PeaksSuite.from_peaks(lst), f"{type(x).__name__} in a list")
    else:
        x = choice(rng, FOREIGN)
        mon.raises(TypeError, lambda: PeaksSuite(x), f"suite of {type(x).__name__}")
    mon.event("constructors_refused")
    mon.describe(nontrivial=True, route=route, names=names, at=at)


def _variant(rng, data, ident):
    """Data that differ in one respect, with what it is."""
    d = {k: v.copy() for k, v in data.items()}
    how = choice(rng, ("value", "value", "value", "identifier", "attribute", "extra", "fewer", "more", "order", "rejected"))
    live = np.argwhere(~np.isnan(d["velocity"]))
    if how == "identifier":
        return d, choice(rng, (ident + "0", ident[:-1], "0" + ident, ident + " ")), how
    if how == "attribute":
        ex = [k for k in d if k not in pk.BASE]
        if not ex:
            how = "extra"
        else:
            old = choice(rng, ex)
            new = choice(rng, [e for e in pk.EXTRAS if e != old])
            if new in d:                                       # swap of two equal-sized attributes' names
                d[old], d[new] = d[new], d[old]
                ok = ~np.isnan(d["velocity"])                  # only valid peaks count
                return (d, ident, how) if not np.allclose(d[old][ok], d[new][ok], rtol=1e-2, equal_nan=True) else (None, None, None)
            return {(new if k == old else k): v for k, v in d.items()}, ident, how
    if how == "extra":
        free = [e for e in pk.EXTRAS if e not in d]
        if free:
            d[choice(rng, free)] = np.where(np.isnan(d["velocity"]), np.nan, 1.0)
            return d, ident, how
        how = "value"
    if how == "fewer" and d["velocity"].ndim == 1 and len(live) == d["velocity"].size > 1:
        cut = slice(None, -1) if rng.random() < 0.5 else slice(1, None)
        if rng.random() < 0.3:
            for k in d:                                        # one value against a constant row of it
                d[k][:] = d[k][0]
            return {k: v[:1] for k, v in d.items()}, ident, ("broadcast", d)
        return {k: v[cut] for k, v in d.items()}, ident, how
    if how == "more" and d["velocity"].ndim == 1:
        return {k: np.append(v, 1.0) for k, v in d.items()}, ident, how
    if how == "order" and d["velocity"].ndim == 1 and len(live) == d["velocity"].size > 1:
        if np.ptp(d["velocity"]) / np.max(d["velocity"]) > 0.02 and abs(d["velocity"][0] / d["velocity"][-1] - 1) > 0.02:
            return {k: v[::-1].copy() for k, v in d.items()}, ident, how
    if how == "rejected" and len(live):
        i = tuple(live[int(rng.integers(len(live)))])
        d["velocity"][i] = np.nan
        return d, ident, how
    if not len(live):
        return None, None, None
    i = tuple(live[int(rng.integers(len(live)))])
    a = choice(rng, list(d))
    v = d[a][i]
    d[a][i] = v * choice(rng, (1.02, 0.98, -1, 2, 1e3)) if v != 0 and np.isfinite(v) else 1.0
    if not np.isfinite(v) and np.isnan(v):
        d[a][i] = 5.0
    return d, ident, "value " + a


def _small(rng, d):
    """Powers and noise as small as those of velocity spectra."""
    for k in d:
        if k in ("noise", "power", "ellipticity") and rng.random() < 0.5:
            d[k] = d[k] * choice(rng, (1e-9, 1e-12))
    return d


def _eq(mon, a, b, want, what):
    for x, y, side in ((a, b, ""), (b, a, " (other way round)")):
        got = x == y
        mon.check(isinstance(got, (bool, np.bool_)), "equality is not a truth value", got=got)
        mon.check(bool(got) == want, f"{what} compare {'unequal' if want else 'equal'}{side}")
        mon.check(bool(x != y) == (not want), f"{what}: != disagrees with =={side}")
    mon.event("equal_pairs" if want else "unequal_pairs")


def equality(rng, mon):
    data = _small(rng, pk.data(rng))
    if "noise" in data and rng.random() < 0.3:
        data["noise"].flat[0] = choice(rng, (np.nan, np.inf, -np.inf))
    ident = pk.idents(rng, 1)[0]
    p, m = pk.make(data, ident)
    with mon.unchanged("peaks compared", p):
        _eq(mon, p, p, True, "peaks and themselves")
        _eq(mon, p, pk.make(data, ident)[0], True, "peaks of the same content")
    for x in (None, 1, ident, data, "p"):
        mon.check(not (p == x) and p != x, f"peaks equal {type(x).__name__}")
    d2, i2, how = _variant(rng, data, ident)
    if d2 is None:
        mon.describe(nontrivial=False, data=data["velocity"])
        return
    if isinstance(how, tuple):
        p = pk.make(how[1], ident)[0]
        how = how[0]
    q, _ = pk.make(d2, i2)
    with mon.unchanged("peaks compared", p, q):
        _eq(mon, p, q, False, f"peaks that differ ({how})")
    _eq(mon, PeaksSuite(p), PeaksSuite(q), False, f"suites whose members differ ({how})")
    mon.check(not (p == PeaksSuite(p)) and not (PeaksSuite(p) == p), "a suite equals its member")
    # a rejection tells them apart, the same one on both does not
    a, b = pk.make(data, ident)[0], pk.make(data, ident)[0]
    if m.valid.any():
        v = float(data["velocity"][tuple(np.argwhere(m.valid)[0])])
        for x in (a, b):
            if x is b:
                _eq(mon, a, b, False, "peaks of which one lost a peak")
            x.reject_box_inside("velocity", (v * 0.9999999, v * 1.0000001), "velocity", (0, 1e9))
        _eq(mon, a, b, True, "peaks with the same rejection")
    mon.describe(nontrivial=True, how=how, shape=m.valid.shape, attrs=list(data), frequency=data["frequency"])


def suites(rng, mon):
    n = int(rng.integers(2, 5))
    names = pk.idents(rng, n)
    datas = [_small(rng, pk.data(rng)) for _ in names]
    build = lambda ds, ns: PeaksSuite.from_peaks([pk.make(d, i)[0] for d, i in zip(ds, ns)])
    a = build(datas, names)
    _eq(mon, a, a, True, "a suite and itself")
    _eq(mon, a, build(datas, names), True, "suites of the same content")
    _eq(mon, a, PeaksSuite.from_peakssuite(a), True, "a suite and one made from it")
    _eq(mon, a, build(datas[:-1], names[:-1]), False, "suites of which one lacks the last member")
    _eq(mon, a, build(datas[1:], names[1:]), False, "suites of which one lacks the first member")
    perm = list(range(n))
    i, j = (int(k) for k in rng.choice(n, 2, replace=False))
    perm[i], perm[j] = perm[j], perm[i]
    _eq(mon, a, build([datas[k] for k in perm], [names[k] for k in perm]), False, "suites whose members are in another order")
    k = int(rng.integers(n))
    d2, i2, how = _variant(rng, datas[k], names[k])
    if d2 is not None and not isinstance(how, tuple) and i2 not in names[:k] + names[k + 1:]:
        _eq(mon, a, build(datas[:k] + [d2] + datas[k + 1:], names[:k] + [i2] + names[k + 1:]), False, f"suites of which member {k} differs ({how})")
    for x in (None, 3, list(a.peaks), names):
        mon.check(not (a == x) and a != x, f"a suite equals {type(x).__name__}")
    mon.describe(nontrivial=True, names=names, k=k, how=str(how)[:20], first=datas[0]["velocity"])


SCENARIOS = {"history": (history, 200, 5000), "constructors": (constructors, 150, 3000), "many": (many, 10, 150), "equality": (equality, 400, 8000), "suites": (suites, 100, 2500)}
