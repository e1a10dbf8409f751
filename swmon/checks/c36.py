"""Hourly miniSEED files generated with known samples; every extracted file compared sample by sample, and the directory tree before and after."""
import csv
import datetime as dt
import hashlib
import os

import numpy as np
import obspy

from swprocess import utils
from ..core import Skip
from ..gens import choice

RULE = ("a case is a set of hourly files of some stations and a table of blocks cut from them; non-trivial = a block crosses an hour, or there are several rows")
REQUIRE = {"files_extracted": 100, "samples_compared": 50000, "across_hours": 60, "across_days": 20, "across_years_or_months": 8, "refusals": 15,
           "existing_folders": 10, "several_channels": 15, "off_sample_blocks": 3, "trees_compared": 70}
HEAD = ["folder name", "array name", "station number"] + [f"{w} {u}" for w in ("start", "end") for u in ("year", "month", "date", "hour", "minute", "second")] \
    + ["notes"]
STARTS = (dt.datetime(2020, 12, 31, 22), dt.datetime(2021, 12, 31, 20), dt.datetime(2020, 2, 28, 22), dt.datetime(2021, 2, 28, 22), dt.datetime(2020, 2, 29, 21),
          dt.datetime(2019, 6, 30, 23), dt.datetime(2022, 10, 9, 23), dt.datetime(2022, 9, 9, 8), dt.datetime(2022, 3, 5, 0), dt.datetime(2022, 11, 30, 19))
RATES = (1, 1, 2, 0.5, 0.1, 4, 5, 10, 0.3, 0.4, 3)


def _tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d) + "/"] = None
        for n in files:
            f = os.path.join(root, n)
            out[os.path.relpath(f, d)] = hashlib.md5(open(f, "rb").read()).hexdigest()
    return out


class Field:
    """Hourly files of one network and what is in them."""

    def __init__(self, rng, d, network, ext):
        self.dir, self.network, self.ext = d, network, ext
        self.t0 = choice(rng, STARTS)
        if rng.random() < 0.2:
            self.t0 = dt.datetime(2021, 1, 1) + dt.timedelta(hours=int(rng.integers(0, 365 * 24)))
        self.hours = int(rng.integers(1, 9))
        self.stations = [int(k) for k in rng.choice([1, 2, 3, 7, 11, 12, 42, 99, 100, 123], int(rng.integers(1, 4)), replace=False)]
        self.rate = choice(rng, RATES)
        self.channels = choice(rng, (("BHZ",), ("HHZ",), ("BHE", "BHN", "BHZ")))
        self.dtype = choice(rng, (np.int32, np.float32, np.float64))
        per = int(round(3600 * self.rate))
        self.per = per
        self.data = {}
        for s in self.stations:
            for c in self.channels:
                v = rng.integers(-10 ** 6, 10 ** 6, per * self.hours) if rng.random() < 0.7 else np.arange(per * self.hours)
                self.data[s, c] = v.astype(self.dtype) if self.dtype is np.int32 else (v / 7).astype(self.dtype)
            for h in range(self.hours):
                t = self.t0 + dt.timedelta(hours=h)
                st = obspy.Stream()
                for c in self.channels:
                    tr = obspy.Trace(self.data[s, c][h * per:(h + 1) * per].copy())
                    tr.stats.sampling_rate = self.rate
                    tr.stats.starttime = obspy.UTCDateTime(t)
                    tr.stats.network, tr.stats.station, tr.stats.channel = "XY", f"ST{s}", c
                    st.append(tr)
                st.write(str(d / f"{network}.STN{s:02d}_{t.year}{t.month:02d}{t.day:02d}_{t.hour:02d}0000.{ext}"), format="MSEED")

    def seconds(self, rng):
        """A start and an end in whole seconds since the first sample, the end within the last sample recorded."""
        last = (self.per * self.hours - 1) / self.rate
        style = choice(rng, ("any", "any", "hour", "short", "boundary"))
        for _ in range(200):
            a, b = sorted(int(v) for v in rng.integers(0, int(last) + 1, 2))
            if style == "hour":
                a, b = (a // 3600) * 3600, (b // 3600) * 3600
            elif style == "short":
                b = min(int(last), a + int(rng.integers(0, 90)))
            elif style == "boundary" and self.hours > 1:
                k = int(rng.integers(1, self.hours)) * 3600
                a, b = max(0, k - int(rng.integers(0, 3))), min(int(last), k + int(rng.integers(0, 3)))
            if not any(0.4 < (v * self.rate) % 1 < 0.6 for v in (a, b)):        # a bound midway between two samples: either is nearest
                return a, b
        raise Skip("every bound is midway between samples")

    def expected(self, s, c, a, b):
        """What may be cut: every sample inside the block, and a bound between samples may count the nearer one outside (of the file at hand) or not."""
        ia, ib = a * self.rate, b * self.rate
        starts = {int(np.rint(ia)), int(np.ceil(ia - 1e-9))}
        ends = {int(np.rint(ib)), int(np.floor(ib + 1e-9))}
        return [(self.data[s, c][i:j + 1], obspy.UTCDateTime(self.t0) + i / self.rate) for i in starts for j in ends]


def _row(folder, array, station, t0, a, b, note):
    row = [folder, array, station]
    for sec in (a, b):
        t = t0 + dt.timedelta(seconds=sec)
        row += [t.year, t.month, t.day, t.hour, t.minute, t.second]
    return row + [note]


def _table(f, rows):
    with open(f, "w", newline="") as h:
        w = csv.writer(h)
        w.writerow(HEAD)
        w.writerows(rows)


def extract(rng, mon):
    d = mon.scratch()
    (d / "in").mkdir()
    (d / "out").mkdir()
    network, ext = choice(rng, ("NW", "UT", "A")), choice(rng, ("mseed", "mseed", "miniseed"))
    field = Field(rng, d / "in", network, ext)
    folders = [choice(rng, ("array", "007", "c 50", "12")) + str(k) for k in range(3)]
    rows, want = [], {}
    for k in range(int(rng.integers(1, 5))):
        folder, array, s = choice(rng, folders), choice(rng, ("c50", "01", "a b")), choice(rng, field.stations)
        name = f"{folder}/{network}.STN{s:02d}.{array}.{ext}"
        if name in want:
            continue
        a, b = field.seconds(rng)
        want[name] = (s, a, b)
        rows.append(_row(folder, array, s, field.t0, a, b, choice(rng, ("", "half, an hour", "note", "1"))))
        ta, tb = field.t0 + dt.timedelta(seconds=a), field.t0 + dt.timedelta(seconds=b)
        mon.event("across_hours", a // 3600 != b // 3600)
        mon.event("across_days", ta.date() != tb.date())
        mon.event("across_years_or_months", (ta.year, ta.month) != (tb.year, tb.month))
        mon.event("off_sample_blocks", bool((a * field.rate) % 1 or (b * field.rate) % 1))
    table = d / "table.csv"
    _table(table, rows)
    if rng.random() < 0.3:                                     # a folder that exists, with something in it
        (d / "out" / folders[0]).mkdir()
        (d / "out" / folders[0] / "keep.txt").write_text("x")
        mon.event("existing_folders")
    before = _tree(d)
    kw = dict(startend_fname=str(table) if rng.random() < 0.7 else table, network=network)
    where = choice(rng, ("both", "both", "cwd_out", "cwd_in"))
    if where != "cwd_in":
        kw["data_dir"] = str(d / "in") + choice(rng, ("", "/")) if rng.random() < 0.6 else d / "in"
    else:
        os.chdir(d / "in")
    if where != "cwd_out":
        kw["output_dir"] = str(d / "out") + choice(rng, ("", "/")) if rng.random() < 0.6 else d / "out"
    else:
        os.chdir(d / "out")
    if ext != "mseed" or rng.random() < 0.3:
        kw["extension"] = ext
    utils.extract_mseed(**kw)
    after = _tree(d)
    mon.event("trees_compared")
    for f, digest in before.items():
        mon.check(f in after and after[f] == digest, f"{f} was changed or removed")
    new = {f for f in after if f not in before}
    dirs = {f"out/{n.split('/')[0]}/" for n in want} - set(before)
    mon.check(new == {f"out/{n}" for n in want} | dirs, "files and folders written", got=sorted(new), want=sorted(want))
    for name, (s, a, b) in want.items():
        st = obspy.read(str(d / "out" / name))
        mon.check(sorted(tr.stats.channel for tr in st) == sorted(field.channels), f"{name}: channels", got=[tr.id for tr in st])
        for tr in st:
            options = field.expected(s, tr.stats.channel, a, b)
            mon.check((tr.stats.network, tr.stats.station) == ("XY", f"ST{s}"), f"{name}: station", got=tr.id)
            mon.check(abs(tr.stats.sampling_rate - field.rate) <= 1e-6 * field.rate, f"{name}: sampling rate", got=tr.stats.sampling_rate, want=field.rate)
            mon.check(any(abs(tr.stats.starttime - t) < 1e-4 for _, t in options), f"{name}: time of the first sample", got=str(tr.stats.starttime),
                      want=[str(t) for _, t in options])
            options = [v for v, t in options if abs(tr.stats.starttime - t) < 1e-4]
            mon.check(len(tr.data) in [len(v) for v in options], f"{name}: number of samples", got=len(tr.data), want=[len(v) for v in options])
            v = [v for v in options if len(v) == len(tr.data)][0]
            mon.equal(np.asarray(tr.data), v, f"{name}: samples")
            mon.event("samples_compared", len(v))
        mon.event("several_channels", len(st) > 1)
        mon.event("files_extracted")
    mon.describe(nontrivial=len(want) > 1 or any(a // 3600 != b // 3600 for _, a, b in want.values()), t0=str(field.t0), hours=field.hours, rate=field.rate,
                 rows=[str(r) for r in rows], channels=field.channels)


def refused(rng, mon):
    """A block that ends before it starts, alone or after good ones."""
    d = mon.scratch()
    (d / "in").mkdir()
    (d / "out").mkdir()
    field = Field(rng, d / "in", "NW", "mseed")
    while True:
        a, b = field.seconds(rng)
        if b - a >= 2 / field.rate + 2:
            break
    s = field.stations[0]
    if rng.random() < 0.3 and a // 3600 == b // 3600:
        mon.event("same_hour")
    rows = [_row("bad", "c", s, field.t0, b, a, "ends before it starts")]
    if rng.random() < 0.4:
        x, y = field.seconds(rng)
        rows = [_row("good", "c", s, field.t0, x, y, "")] + rows
    _table(d / "t.csv", rows)
    before = _tree(d)
    mon.raises(ValueError, lambda: utils.extract_mseed(str(d / "t.csv"), "NW", data_dir=d / "in", output_dir=d / "out"), "a block that ends before it starts")
    after = _tree(d)
    mon.check(all(after.get(k) == v for k, v in before.items()), "files changed although refused")
    mon.check(not any("bad" in f and not f.endswith("/") for f in after), "a file was written for a refused block", got=sorted(set(after) - set(before)))
    mon.event("refusals")
    mon.describe(nontrivial=True, t0=str(field.t0), rows=[str(r) for r in rows], rate=field.rate)


SCENARIOS = {"extract": (extract, 120, 2500), "refused": (refused, 25, 400)}
