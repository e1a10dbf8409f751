"""Stacking: sequential model sum(a*n)/sum(n) over histories of stack, self-stack, trim, pad, refusal."""
import numpy as np

from swprocess import ActiveTimeSeries, Sensor1C
from .. import gens
from ..core import Skip
from ..gens import choice, rec_state

RULE = ("a case is a history of stack operations over a pool of compatible records, or one refused stack; "
        "non-trivial = at least two shots end up in one record with unequal counts or the refusal is observed")
REQUIRE = {"stacks": 100, "stacks_onto_itself": 50, "refusals_checked": 50, "decimated": 20}


def _make(rng, kind, amp, dt, nst, delay, xyz):
    if kind == "sensor":
        return Sensor1C(amp, dt, *xyz, nstacks=nst, delay=delay)
    return ActiveTimeSeries(amp, dt, nstacks=nst, delay=delay)


def history(rng, mon):
    kind = choice(rng, ("sensor", "record"))
    n, dt = gens.length(rng, 2, 50), choice(rng, gens.DTS)
    delay = gens.delay_of(rng, dt, n // 2 + 2)
    xyz = tuple(np.round(rng.uniform(-20, 20, 3), 2))
    size = int(rng.integers(2, 7))
    skind = choice(rng, ("noise", "ints", "big", "small", "trend"))
    pool, shots = [], []
    for _ in range(size):
        amp = gens.samples(rng, n, skind)
        nst = int(choice(rng, (1, 1, 2, 3, 10, 137)))
        pool.append(_make(rng, kind, amp, dt, nst, delay, xyz))
        shots.append((amp * nst, nst))                       # model: (sum over shots, count)
    scale = max(np.max(np.abs(s / c)) for s, c in shots) or 1.0
    ops = []
    for _ in range(int(rng.integers(2, 12))):
        op = choice(rng, ("stack", "stack", "stack", "stack", "trim", "pad", "decimate"))
        i, j = int(rng.integers(size)), int(rng.integers(size))
        if op == "stack" and i == j and rng.random() < 0.5:
            j = (j + 1) % size
        if op == "stack":
            if shots[i][1] + shots[j][1] > 10 ** 7:
                continue
            before = [rec_state(p) for p in pool]
            pool[i].stack_append(pool[j])
            shots[i] = (shots[i][0] + shots[j][0], shots[i][1] + shots[j][1])
            mon.event("stacks")
            mon.event("stacks_onto_itself", i == j)
            for k, p in enumerate(pool):
                st = rec_state(p)
                for attr, old in before[k].items():
                    if k == i and attr in ("amplitude", "nstacks"):
                        continue
                    mon.equal(st[attr], old, f"{attr} of {'the stacked' if k == j else 'the target' if k == i else 'another'} record changed")
        elif op == "trim" and n > 6:
            t = np.array(pool[0].time)
            a, b = sorted(rng.choice(n, size=2, replace=False))
            if b - a < 3:
                continue
            for p in pool:
                p.trim(float(t[a]), float(t[b]))
            shots = [(s[a:b + 1], c) for s, c in shots]
            n = b - a + 1
        elif op == "pad" and n < 400:
            N = int(rng.integers(2, 60))
            for p in pool:
                p.zero_pad(1 / (N * dt))
            m = pool[0].nsamples
            shots = [(np.concatenate((s, np.zeros(m - n))), c) for s, c in shots]
            n = m
        elif op == "decimate":                                  # one record alone is to be read at every m-th frequency
            m = int(choice(rng, [d for d in range(1, n + 1) if n % d == 0]))
            pool[i].zero_pad(1 / (n // m * dt))
            if pool[i].nsamples != n:
                raise Skip("the step was rounded")
            mon.event("decimated", pool[i].multiple > 1)
        ops.append((op, i, j))
        for p, (s, c) in zip(pool, shots):
            mon.check(p.nstacks == c, "stack count is not the number of shots", got=p.nstacks, want=c)
            mon.close(p.amplitude, (s / c).squeeze(), "record is not the plain average of its shots", rtol=1e-9, atol=1e-12 * scale)
    mon.describe(nontrivial=len(ops) > 1, kind=kind, n=n, dt=dt, delay=delay, counts=[c for _, c in shots], ops=[f"{o}{i}{j}" for o, i, j in ops])


def grouping(rng, mon):
    """Every order and grouping of the same shots gives the same record."""
    k = int(rng.integers(2, 7))
    base = gens.record(rng)
    n, dt, delay = base.nsamples, base.dt, base.delay
    shots = [gens.samples(rng, n, "noise") for _ in range(k)]
    cnt = [int(c) for c in rng.integers(1, 6, size=k)]
    want = sum(a * c for a, c in zip(shots, cnt)) / sum(cnt)
    mon.describe(shots=k, counts=cnt, n=n, delay=delay)
    for _ in range(3):
        items = [ActiveTimeSeries(a, dt, nstacks=c, delay=delay) for a, c in zip(shots, cnt)]
        while len(items) > 1:                                 # random binary tree
            i, j = rng.choice(len(items), size=2, replace=False)
            items[i].stack_append(items[j])
            mon.event("stacks")
            items.pop(int(j))
        mon.check(items[0].nstacks == sum(cnt), "stack counts do not add up", got=items[0].nstacks, want=sum(cnt))
        mon.close(items[0].amplitude, want, "the stack depends on order or grouping", rtol=1e-10)


def refusal(rng, mon):
    kind = choice(rng, ("sensor", "record"))
    n, dt = gens.length(rng, 3, 40), choice(rng, gens.DTS)
    delay = gens.delay_of(rng, dt, 10, allow_zero=False)
    xyz = [float(v) for v in np.round(rng.uniform(-20, 20, 3), 2)]
    amp, nst = gens.samples(rng, n), int(rng.integers(1, 5))
    a = _make(rng, kind, amp, dt, nst, delay, xyz)
    hist = choice(rng, ("fresh", "stacked", "padded", "trimmed"))
    what = choice(rng, ("dt", "delay", "nsamples", "notrecord") + (("x", "y", "z", "plainrecord") if kind == "sensor" else ()))
    sgn = choice(rng, (-1, 1))
    step = choice(rng, (1e-6, 1e-3, 1.0, 50.0))
    same = _make(rng, kind, gens.samples(rng, n), dt, 2, delay, xyz)
    nst2 = int(rng.integers(1, 5))
    amp2 = gens.samples(rng, n)
    if what == "dt":
        other = _make(rng, kind, amp2, dt * (1 + choice(rng, (1e-3, 1.0, -0.5))), nst2, delay, xyz)
    elif what == "delay":
        other = _make(rng, kind, amp2, dt, nst2, choice(rng, (0.0, delay - dt, delay * 2, delay - 1e-4)), xyz)
    elif what == "nsamples":
        m = max(1, n + choice(rng, (-2, -1, 1, 7)))
        other = _make(rng, kind, gens.samples(rng, m), dt, nst2, delay, xyz)
    elif what in "xyz":
        q = list(xyz)
        q["xyz".index(what)] += sgn * step
        other = _make(rng, kind, amp2, dt, nst2, delay, q)
    elif what == "plainrecord":
        other = ActiveTimeSeries(amp2, dt, nstacks=nst2, delay=delay)
    else:
        other = choice(rng, (None, 3.5, "record", amp2, list(amp2), object()))
    if what != "notrecord":
        mon.describe(kind=kind, what=what, hist=hist, n=n, dt=dt, delay=delay)
    else:
        mon.describe(kind=kind, what=what, hist=hist, other=type(other).__name__, n=n)
    recs = [a] + ([other] if hasattr(other, "nstacks") else [])
    if hist == "stacked":
        a.stack_append(same)
    elif hist == "padded" and what not in ("dt", "nsamples"):
        for r in recs:
            r.zero_pad(1 / (n * 2 * dt))
    elif hist == "trimmed" and what not in ("dt", "delay", "nsamples"):
        t = np.array(a.time)
        for r in recs:
            r.trim(float(t[0]), float(t[-2]))
    before = [rec_state(r) for r in recs]
    mon.raises(ValueError, lambda: a.stack_append(other), f"stacking a record with different {what}")
    for r, b in zip(recs, before):
        after = rec_state(r)
        for attr in b:
            mon.equal(after[attr], b[attr], f"a refused stack changed {attr}")


SCENARIOS = {"history": (history, 400, 20000), "grouping": (grouping, 150, 5000), "refusal": (refusal, 300, 8000)}
