"""Real recordings that ship with the repository, decoded by an independent reader; absent files make the workload shrink, not fail."""
import functools
import pathlib
import struct
from types import SimpleNamespace

import numpy as np

from . import env


def seg2(path):
    """[(headers, samples)] of a SEG2 file, from its bytes."""
    b = pathlib.Path(path).read_bytes()
    n = struct.unpack_from("<H", b, 6)[0]
    out = []
    for p in struct.unpack_from(f"<{n}I", b, 32):
        kind, size, _, ns, code = struct.unpack_from("<HHIIB", b, p)
        assert kind == 0x4422
        q, head = p + 32, {}
        while q < p + size:
            step = struct.unpack_from("<H", b, q)[0]
            if step == 0:
                break
            key, _, val = b[q + 2:q + step].split(b"\0")[0].decode("latin1").strip().partition(" ")
            head.setdefault(key, val.strip())
            q += step
        out.append((head, np.frombuffer(b, {1: "<i2", 2: "<i4", 4: "<f4", 5: "<f8"}[code], ns, p + size).astype(float)))
    return out


def folder():
    return pathlib.Path(env.REPO) / "examples" / "masw" / "data" / "wghs"


@functools.lru_cache(None)
def shots():
    """Shot gathers on disk: file name, headers, samples in order of position."""
    out = []
    for p in sorted(folder().glob("*.dat"), key=lambda p: (len(p.name), p.name)) if folder().is_dir() else []:
        try:
            tr = seg2(p)
            x = np.array([float(h["RECEIVER_LOCATION"]) for h, _ in tr])
            o = np.argsort(x)
            h = tr[0][0]
            out.append(SimpleNamespace(file=str(p), x=x[o], rows=np.array([tr[i][1] for i in o]), dt=float(h["SAMPLE_INTERVAL"]),
                                       delay=float(h["DELAY"]), stack=int(h["STACK"]), sx=float(h["SOURCE_LOCATION"])))
        except Exception:
            continue
    return out


def groups(long=False):
    """Shots of the same source and sampling, in a list of lists."""
    by = {}
    for s in shots():
        if long or s.rows.shape[1] <= 2000:
            by.setdefault((s.sx, s.dt, s.rows.shape[1], s.delay, tuple(s.x)), []).append(s)
    return [g for g in by.values()]
