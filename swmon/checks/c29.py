"""Generated .max files (and the repository's real ones) against an independent field-by-field parser."""
import pathlib

import numpy as np

from swprocess.peaks import Peaks
from swprocess.peakssuite import PeaksSuite
from .. import env
from ..gens import choice

RULE = ("a case is one or several generated .max files: windows, frequencies, up to N maxima each, three-component or vertical, invalid lines, shuffled or "
        "grouped lines, several number formats; non-trivial = more than one window, several maxima, or invalid lines")
REQUIRE = {"files_parsed": 400, "peaks_compared": 10000, "vertical_files": 80, "love": 60, "invalid_lines": 1000, "shuffled_files": 100,
           "infinite_noise": 100, "several_files": 60, "versions_refused": 40, "prefix_times": 20, "prefix_frequencies": 20,
           "terminations_checked": 8}
REAL_QUICK = ("test/data/rtbf/rtbf_nblockset=1_nmaxima=1.max", "test/data/rtbf/rtbf_nblockset=1_nmaxima=5_trim.max",
              "test/data/rtbf/rtbf_nblockset=3_nmaxima=3.max")
REAL_MORE = ("test/data/rtbf/rtbf_nblockset=1_nmaxima=5.max", "examples/mam/data/fk/nz_wghs_c50_hfk-vt.max",
             "examples/mam/data/fk/nz_wghs_c50_fk-vt.max", "examples/mam/data/fk/nz_wghs_bigx_fk-vt.max",
             "examples/mam/data/fk/nz_wghs_bigx_hfk-vt.max", "examples/mam/data/fk/nz_wghs_c50_rtbf-3c.max")
FIELDS = ("frequency", "slowness", "azimuth", "ellipticity", "noise", "power")
PROCESSES = ("RTBF", "RTBF", "Conventional", "DirectSteering", "Omni", "PoggiVertical")


def _number(rng, v, style=None):
    style = style or choice(rng, ("repr", "long", "exp", "EXP", "short"))
    if v == 0:
        return choice(rng, ("0", "0", "0.0", "0e+00"))
    if style == "repr":
        return repr(float(v))
    if style == "long":
        return f"{v:.20g}"
    if style == "exp":
        return f"{v:.{int(rng.integers(0, 6))}e}"
    if style == "EXP":
        return f"{v:.4E}"
    return f"{v:.4g}"


def _times(rng, n, mon):
    style = choice(rng, ("clock", "clock", "seconds", "decimals", "prefix"))
    k = np.sort(rng.choice(5000, n, replace=False))
    if style == "clock":
        return [f"2017060922{int(i) // 100:02d}{int(i) % 60:02d}.{int(i) % 97:02d}0000" for i in k * 1][:n] if len(set(k)) == n and n < 2 else \
            [f"201706{10 + int(i) % 20}{100000 + int(i)}.{int(i) % 97:02d}0000" for i in k]
    if style == "seconds":
        return [str(int(i) + 7200) for i in k]
    if style == "decimals":
        return [f"{int(i) + 7200}.{int(i) % 10}" for i in k]
    mon.event("prefix_times", n > 1)
    return [("16200" + "0" * j) if j % 2 else ("16200" + "0" * j + ".5") for j in range(n)]


def _frequencies(rng, n, mon):
    style = choice(rng, ("repr", "long", "short", "integer", "prefix", "exp"))
    f = rng.choice(np.arange(10, 900), n, replace=False) / 10
    if style == "integer":
        return [str(int(v)) for v in rng.choice(np.arange(1, 60), n, replace=False)]
    if style == "prefix":
        mon.event("prefix_frequencies", n > 1)
        return [("5" if j == 0 else "5." + "5" * j) for j in range(n)]
    if style == "exp":
        return [f"{v:.3e}" for v in f]
    return [_number(rng, v + (1 / 3 if style == "long" else 0), "repr" if style == "short" else style) for v in f]


def _header(rng, version, nmax, process):
    tools = [f"  QGpCoreTools        2.2.0 from geopsypack-{version}", "      (built on 20191001095018 commit 9a9aca6fa9a4afe876dea557f2abdfcf2a347b70)",
             f"  geopsy-fk           1.0.0 from geopsypack-{version}"]
    stations = [f"UT_STN{k} {rng.normal() * 20:.2f} {rng.normal() * 20:.2f} 0.00" for k in range(3)]
    return ["# MAX FORMAT RELEASE 1.1", "#", "# BEGIN COMMAND LINE ARGUMENTS", "#", "geopsy-fk -db a.gpy -param rtbf_n=1.param -group-path 3c -o out", "#",
            "# BEGIN SOFTWARE VERSION", "#", "  Qt                  5.12.3", *tools, "#", "# BEGIN STATION LIST", "#", *stations, "#", "# BEGIN PARAMETERS", "#",
            "FROM_TIME_TEXT=20170609223200.000000", "MAXIMUM_FREQUENCY=30", "# STEP=ratio between two successive samples for 'log' scales",
            "STEP_FREQUENCY=1.12005", f"PROCESS_TYPE={process}", "EFFECTIVE_ARRAY_RADIUS=0", f"N_MAXIMA={nmax}", "MAXIMUM_DISTANCE=1e+99",
            "#", "# END PARAMETERS", "#", "# BEGIN DATA", "#", "# abs_time frequency polarization slowness azimuth ellipticity noise power valid"]


def _generate(rng, mon, small=False, version="3.2.0", times=None, process=None):
    """A file as text."""
    nwin, nfreq = int(rng.integers(1, 5)), int(rng.integers(1, 8))
    declared = int(choice(rng, (1, 2, 3, 5, 12, 12, 100, 150, 2147483647)))
    cap = 3 if small else {1: 1}.get(declared, int(rng.integers(1, 1 + min(declared, 13))))
    if declared >= 100 and not small and rng.random() < 0.3:             # as many as are read at all
        cap, nwin, nfreq = int(rng.integers(20, 101)), min(nwin, 2), min(nfreq, 3)
    times = _times(rng, nwin, mon) if times is None else times
    freqs = _frequencies(rng, nfreq, mon)
    vertical = rng.random() < 0.4
    waves = ("Vertical",) if vertical else ("Rayleigh", "Love")
    process = choice(rng, PROCESSES) if process is None else process
    lines = []
    for t in times:
        for f in (freqs if rng.random() < 0.7 else list(rng.permutation(freqs))):
            for w in waves:
                for _ in range(int(rng.integers(0, min(cap, declared) + 1))):
                    lines.append([t, str(f), w, "1"])
                for _ in range(int(rng.integers(0, 3)) if rng.random() < 0.4 else 0):
                    lines.append([t, str(f), w, "0"])
                    mon.event("invalid_lines")
    if not any(l[3] == "1" and l[2] in ("Vertical", "Rayleigh") for l in lines):
        lines.append([times[0], freqs[0], waves[0], "1"])
    order = choice(rng, ("grouped", "grouped", "shuffled", "frequency"))
    if order == "shuffled":
        lines = [lines[int(i)] for i in rng.permutation(len(lines))]
        mon.event("shuffled_files")
    elif order == "frequency":
        lines.sort(key=lambda l: freqs.index(l[1]))
    style = choice(rng, (None, "long", "long", "repr"))
    rows = []
    for t, f, w, valid in lines:
        noise = rng.uniform(0, 99) if rng.random() < 0.7 else 0
        ntext = _number(rng, noise, style)
        if rng.random() < 0.12:
            ntext = choice(rng, ("inf", "-inf", "nan"))
            mon.event("infinite_noise", valid == "1")
        slow = 10 ** rng.uniform(-4.5, -2)
        ell = 0 if w == "Love" or rng.random() < 0.2 else rng.normal() * 1.5
        power = choice(rng, (rng.uniform(10, 1e5), rng.uniform(1e6, 1e12), rng.uniform(1e-9, 1), 1.0, 1))
        rows.append(" ".join([t, f, w, _number(rng, slow, style), _number(rng, rng.uniform(0, 360), style), _number(rng, ell, style), ntext,
                              _number(rng, power, style), valid]) + choice(rng, ("", "", "", " ")))
    end = "\r\n" if rng.random() < 0.1 else "\n"
    return end.join(_header(rng, version, declared, process) + rows) + (end if rng.random() < 0.8 else "")


def _parse(text, wave):
    """[(identifier, {field: rows x frequencies})] per window, in file order; the oracle."""
    nmax = process = None
    rows, first = [], None
    for line in text.splitlines():
        if line.startswith("N_MAXIMA="):
            nmax = int(line.split("=")[1])
        elif line.startswith("PROCESS_TYPE="):
            process = line.split("=")[1].strip()
        tok = line.split()
        if len(tok) == 9 and tok[2] in ("Rayleigh", "Love", "Vertical") and tok[8] in ("0", "1") and tok[0][0].isdigit():
            if tok[8] == "1":
                first = first or tok[2]
                rows.append(tok)
    want = wave.capitalize()
    if first == "Vertical":
        if wave == "rayleigh":
            want = "Vertical"
        if process.lower() == "rtbf":
            process = "capon"
    rows = [r for r in rows if r[2] == want]
    windows = list(dict.fromkeys(r[0] for r in rows))
    nmax = min(100, max(1, nmax))
    out = []
    for t in windows:
        out.append((f"{t}-{process.lower()}", t))
    return rows, out, nmax


def _table(rows, t, freqs, nmax):
    tab = {k: np.full((nmax, len(freqs)), np.nan) for k in FIELDS}
    have = np.zeros((nmax, len(freqs)), bool)
    for c, f in enumerate(freqs):
        mine = [r for r in rows if r[0] == t and r[1] == f]
        for k, r in enumerate(mine):
            for name, txt in zip(FIELDS, (r[1], *r[3:8])):
                tab[name][k, c] = float(txt)
            have[k, c] = True
    return tab, have


def _compare(mon, p, ident, tab, have, what):
    mon.check(p.identifier == ident, f"{what}: identifier", got=p.identifier, want=ident)
    mon.check(set(p.attrs) == {"frequency", "velocity", "azimuth", "ellipticity", "noise", "power"}, f"{what}: attributes", got=p.attrs)
    for name in ("frequency", "azimuth", "ellipticity", "noise", "power"):
        mon.equal(getattr(p, name), tab[name][have], f"{what}: {name}")
    mon.close(p.velocity, 1 / tab["slowness"][have], f"{what}: velocity", rtol=1e-12)
    # which of several maxima at a frequency comes first shows in the simplified peaks
    pw = np.where(have, tab["power"], -np.inf)
    best = np.argmax(pw, axis=0)
    cols = np.nonzero(have.any(axis=0))[0]
    mon.equal(np.array(p.simplify_mpeaks("frequency"), float), tab["frequency"][best[cols], cols], f"{what}: frequencies with peaks")
    mon.event("peaks_compared", int(have.sum()))


def _expect(text, wave):
    rows, windows, nmax = _parse(text, wave)
    allf = list(dict.fromkeys(r[1] for r in rows))
    return [(ident, *_table(rows, t, allf, nmax)) for ident, t in windows]


def _suite_matches(mon, s, texts, wave):
    want = [w for text in texts for w in _expect(text, wave)]
    mon.check(list(s.ids) == [w[0] for w in want], "windows read", got=s.ids, want=[w[0] for w in want])
    for p, w in zip(s, want):
        _compare(mon, p, *w, f"window {w[0]}")


def _first_matches(mon, p, text, wave):
    rows, windows, nmax = _parse(text, wave)
    ident, t = windows[0]
    freqs = list(dict.fromkeys(r[1] for r in rows if r[0] == t))
    _compare(mon, p, ident, *_table(rows, t, freqs, nmax), "first window")


def _waves(rng, mon, text):
    """Wave types that the file has lines of."""
    options = [w for w in ("rayleigh", "love") if _parse(text, w)[1]]
    if _parse(text, "vertical")[1]:
        options.append("vertical")
        mon.event("vertical_files")
    w = choice(rng, options)
    mon.event("love", w == "love")
    return w


def _write(d, name, text):
    f = d / name
    f.write_bytes(text.encode())
    return str(f)


def single(rng, mon):
    d = mon.scratch()
    text = _generate(rng, mon)
    wave = _waves(rng, mon, text)
    f = _write(d, "a b.max", text)
    kw = {} if wave == "rayleigh" and rng.random() < 0.5 else dict(wavetype=wave)
    s = PeaksSuite.from_max(choice(rng, (f, [f], pathlib.Path(f))), **kw)
    _suite_matches(mon, s, [text], wave)
    _first_matches(mon, Peaks.from_max(f, **kw), text, wave)
    mon.check(pathlib.Path(f).read_bytes() == text.encode(), "reading changed the file")
    mon.event("files_parsed")
    rows, windows, nmax = _parse(text, wave)
    mon.describe(nontrivial=len(windows) > 1 or len(rows) > len({(r[0], r[1]) for r in rows}), wave=wave, windows=[w[0] for w in windows], nmax=nmax,
                 rows=len(rows), first=rows[0])


def termination(rng, mon):
    """Lines marked invalid, with as many digits as geopsy writes."""
    rows = [f"20170609223200.000000 {rng.uniform(1, 60):.20g} {choice(rng, ('Rayleigh', 'Love'))} " +
            " ".join(f"{rng.uniform(1e-4, 1e3):.20g}" for _ in range(5)) + f" {v}" for v in (0, 0, 1, 0)]
    text = "\n".join(_header(rng, "3.2.0", 3, "RTBF") + rows)
    f = _write(mon.scratch(), "t.max", text)
    mon.ends(lambda: PeaksSuite.from_max(f), 30, "reading four lines")     # takes milliseconds
    mon.describe(nontrivial=True, rows=rows)


def several(rng, mon):
    d = mon.scratch()
    n = int(rng.integers(2, 7))
    want = choice(rng, ("rayleigh", "rayleigh", "love"))
    same = rng.random() < 0.3                                  # the same windows processed in different ways
    procs = ("RTBF", "Conventional", "DirectSteering", "Omni", "MVDR", "CVFK")
    files, texts, kinds = [], [], []
    times0 = _times(rng, 3, mon)
    for k in range(n):
        for _ in range(20):
            t = times0 if same else [f"{k + 1}{x}" for x in _times(rng, int(rng.integers(1, 4)), mon)]
            text = _generate(rng, mon, small=True, times=t, process=procs[k] if same else None)
            if _parse(text, want)[1]:
                break
        texts.append(text)
        kinds.append("V" if " Vertical " in text else "3C")
        files.append(_write(d, f"{n - k}.max", text))
    kw = {} if want == "rayleigh" and rng.random() < 0.5 else dict(wavetype=want)
    arg = choice(rng, (list, tuple))(files)
    with mon.unchanged("the list of files", arg):
        s = PeaksSuite.from_max(arg, **kw)
    _suite_matches(mon, s, texts, want)
    twice = list(files)                                        # a file listed twice brings its identifiers again
    twice.insert(int(rng.integers(n + 1)), choice(rng, files))
    mon.raises(KeyError, lambda: PeaksSuite.from_max(twice, **kw), f"one of {n} files listed again")
    mon.event("files_parsed", n)
    mon.event("several_files")
    mon.event("vertical_files", kinds.count("V"))
    mon.describe(nontrivial=True, kinds=kinds, want=want, ids=list(s.ids), same=same)


def versions(rng, mon):
    d = mon.scratch()
    v = choice(rng, ("3.1.0", "3.2.1", "2.10.1", "3.20.0", "13.2.0", "3.3.0", "3.4.2", "2.9.0", "3.2.10", "3.0.2"))
    text = _generate(rng, mon, small=True, version=v)
    f = _write(d, "v.max", text)
    mon.raises(ValueError, lambda: Peaks.from_max(f), f"version {v} by Peaks")
    mon.raises(ValueError, lambda: PeaksSuite.from_max(f), f"version {v} by PeaksSuite")
    good = _generate(rng, mon, small=True, times=["777"])
    g = _write(d, "g.max", good)
    mon.raises(ValueError, lambda: PeaksSuite.from_max([g, f]), f"version {v} in the second file")
    mon.event("versions_refused")
    mon.describe(nontrivial=True, version=v, lines=len(text.splitlines()), first=text.splitlines()[-1])


def _real(rng, mon, name):
    text = pathlib.Path(env.REPO, name).read_text()
    f = _write(mon.scratch(), "r.max", text)
    for wave in ("rayleigh", "love"):
        if not _parse(text, wave)[1]:
            continue
        _suite_matches(mon, PeaksSuite.from_max(f, wavetype=wave), [text], wave)
        _first_matches(mon, Peaks.from_max(f, wavetype=wave), text, wave)
    mon.event("files_parsed")
    mon.event("real_files")
    mon.describe(nontrivial=True, file=name)


def real(rng, mon):
    _real(rng, mon, choice(rng, REAL_QUICK if mon.tier == "quick" else REAL_QUICK + REAL_MORE))


SCENARIOS = {"termination": (termination, 8, 24), "single": (single, 300, 6000), "several": (several, 100, 2500), "versions": (versions, 60, 600), "real": (real, 4, 24)}
