"""Picking sessions driven by an adaptive scripted user, with a state machine of what may be asked when and which points count."""
import builtins
import contextlib

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.figure import Figure

from swprocess.interact import ginput_session
from .. import gens
from ..gens import choice

RULE = ("a case is a picking session (direct, or of first arrivals on a waterfall) with empty, single and multiple selections, mouse and key presses, and a limit "
        "on the number of points; non-trivial = a selection was empty or multiple, or the user ended the session early")
REQUIRE = {"sessions": 300, "points_accepted": 500, "empty_selections": 150, "multiple_selections": 200, "ended_by_user": 80, "ended_by_number": 80,
           "mouse_presses": 200, "adjustments": 100, "first_arrivals": 60, "sessions_on_used_axes": 50, "points_marked": 500}


class User:
    """Answers every blocking call and checks that it may be made now."""

    def __init__(self, rng, mon, npts, adjust, ask, ends, draw):
        self.rng, self.mon, self.npts, self.ask, self.draw = rng, mon, npts, ask, draw
        self.ends = ends                                       # after how many points the user signals the end
        self.stage = "adjust" if adjust else "select"
        self.points, self.log = [], []

    def ginput(self, fig, n=1, timeout=30, *a, **k):
        mon, rng = self.mon, self.rng
        if self.stage == "brief":                              # no end was signalled by not asking for it
            mon.check(False, "the next point is asked for without a chance to end the session", log=self.log[-4:])
        mon.check(self.stage == "select", f"a point is asked for in stage {self.stage}", log=self.log[-4:])
        mon.check(len(self.points) < self.npts, "a point beyond the allowed number is asked for")
        mon.check(timeout is None or timeout <= 0, "the time for selecting a point is limited", timeout=timeout)
        mon.check(n is None or n <= 0, "the selection ends before the user accepts it", n=n)
        k = choice(rng, (0, 1, 1, 1, 2, 3, 6))
        pts = [self.draw(rng) for _ in range(k)]
        if k > 1 and rng.random() < 0.3:                       # the same point twice
            pts[-1] = pts[0]
        self.log.append(("select", k))
        mon.event("empty_selections", k == 0)
        mon.event("multiple_selections", k > 1)
        if k:
            self.points.append(pts[-1])
            self.stage = "continue" if self.ask else "brief"
        return list(pts)

    def wait(self, fig, timeout=-1, *a, **k):
        mon, rng = self.mon, self.rng
        blocking = timeout is None or timeout <= 0
        if self.stage in ("adjust", "continue"):
            mon.check(blocking, f"a limited wait in stage {self.stage}", log=self.log[-4:])
            key = bool(rng.random() < 0.6)
            self.log.append((self.stage, key))
            mon.event("mouse_presses", not key)
            if key:
                mon.event("adjustments", self.stage == "adjust")
                self.stage = "select" if self.stage == "adjust" else "brief"
            return key
        mon.check(self.stage == "brief" and not blocking, f"a wait in stage {self.stage}", log=self.log[-4:], timeout=timeout)
        if len(self.points) >= self.ends:
            self.stage = "ended"
            self.log.append(("brief", True))
            return True
        self.stage = "select"
        r = choice(rng, (None, None, False))
        self.log.append(("brief", r))
        return r

    def finished(self, got):
        mon = self.mon
        by_user, by_number = self.stage == "ended", len(self.points) >= self.npts
        mon.check(by_user or by_number, "the session ended by itself", stage=self.stage, log=self.log[-4:])
        mon.event("ended_by_user", by_user and not by_number)
        mon.event("ended_by_number", by_number)
        mon.check(len(got) == 2, "number of results", got=len(got))
        xs, ys = got
        mon.equal(np.array(list(xs), float), np.array([p[0] for p in self.points], float), "first coordinates of the points")
        mon.equal(np.array(list(ys), float), np.array([p[1] for p in self.points], float), "second coordinates of the points")
        mon.event("points_accepted", len(self.points))
        mon.event("sessions")

    @property
    def eventful(self):
        return self.stage == "ended" or any(l[0] == "select" and l[1] != 1 for l in self.log)


@contextlib.contextmanager
def driven(user):
    saved = Figure.ginput, Figure.waitforbuttonpress, builtins.input, plt.show
    Figure.ginput = lambda fig, *a, **k: user.ginput(fig, *a, **k)
    Figure.waitforbuttonpress = lambda fig, *a, **k: user.wait(fig, *a, **k)
    plt.show = lambda *a, **k: None
    builtins.input = lambda prompt="": user.mon.check(False, "the user is asked by text", prompt=prompt)
    try:
        yield user
    finally:
        Figure.ginput, Figure.waitforbuttonpress, builtins.input, plt.show = saved


def _drawn(mon, ax, user):
    """Every accepted point is marked where it was picked."""
    marks = {(float(a), float(b)) for line in ax.lines for a, b in zip(line.get_xdata(), line.get_ydata())}
    marks |= {(float(a), float(b)) for c in ax.collections for a, b in c.get_offsets()}
    for p in user.points:
        mon.check((float(p[0]), float(p[1])) in marks, "an accepted point is not marked on the axes", point=p, marks=sorted(marks)[:8])
        mon.event("points_marked")


def session(rng, mon):
    npts = choice(rng, (1, 1, 2, 3, 5, 8, np.inf))
    adjust, ask = rng.random() < 0.6, rng.random() < 0.6
    kw = {}
    if npts != 1 or rng.random() < 0.5:
        kw["npts"] = npts
    if not adjust or rng.random() < 0.5:
        kw["initial_adjustment"] = adjust
    if not ask or rng.random() < 0.5:
        kw["ask_to_continue"] = ask
    if rng.random() < 0.2:
        kw["initial_adjustment_message"] = "adjust now"
    if rng.random() < 0.2:
        kw["ask_to_continue_message"] = "go on?"
    ends = int(rng.integers(1, 9) if rng.random() < 0.9 else rng.integers(9, 80)) if npts == np.inf or rng.random() < 0.5 else 10 ** 9
    integers = rng.random() < 0.2
    draw = (lambda r: (int(r.integers(-5, 5)), int(r.integers(-5, 5)))) if integers else (lambda r: (float(r.normal() * 10), float(r.uniform(-1, 1))))
    user = User(rng, mon, npts, adjust, ask, ends, draw)
    fig, ax = plt.subplots()
    ax.plot([0, 1], [0, 1])
    with driven(user):
        got = ginput_session(ax, **kw)
    user.finished(got)
    _drawn(mon, ax, user)
    if rng.random() < 0.4:                                      # another session on the same axes
        first = [list(v) for v in got]
        again = User(rng, mon, int(rng.integers(1, 5)), False, ask, int(rng.integers(1, 9)), draw)
        with driven(again):
            then = ginput_session(ax, npts=again.npts, initial_adjustment=False, ask_to_continue=ask)
        again.finished(then)
        _drawn(mon, ax, again)
        mon.check([list(v) for v in got] == first, "a later session changes the points of an earlier one", got=got, want=first)
        mon.event("sessions_on_used_axes")
    mon.describe(nontrivial=user.eventful, npts=str(npts), options=sorted(kw), log=[str(l) for l in user.log], points=user.points)


def first_arrivals(rng, mon):
    a, meta = gens.array(rng, nch=int(rng.integers(2, 7)), n=int(rng.integers(20, 50)))
    time_ax = choice(rng, ("x", "y", None))
    kw = {} if time_ax is None else dict(time_ax=time_ax)
    if rng.random() < 0.3:
        kw["amplitude_normalization"] = choice(rng, ("each", "all", "none"))
    t = np.array(a.sensors[0].time)
    x = meta["x"]
    horizontal = time_ax == "x"

    def draw(r):                                               # a distance and a time as they lie on the waterfall
        d, when = float(r.uniform(min(x), max(x))), float(r.uniform(t[0], t[-1]))
        return (when, d) if horizontal else (d, when)
    user = User(rng, mon, np.inf, True, True, int(rng.integers(1, 7) if rng.random() < 0.9 else rng.integers(7, 100)), draw)
    with driven(user), mon.unchanged("the array or the arguments", a, kw):
        if kw or rng.random() < 0.5:
            got = a.manual_pick_first_arrivals(waterfall_kwargs=kw)
        else:
            got = a.manual_pick_first_arrivals()
    distance, time = got
    user.finished((time, distance) if horizontal else (distance, time))
    mon.event("first_arrivals")
    mon.describe(nontrivial=user.eventful, time_ax=time_ax, kw=sorted(kw), log=[str(l) for l in user.log], points=user.points)


SCENARIOS = {"session": (session, 300, 6000), "first_arrivals": (first_arrivals, 80, 1500)}
