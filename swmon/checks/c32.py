"""Interactive trimming driven by an adaptive scripted user: mouse events fired at the figure and answers to prompts, with a state-machine model that checks the peaks at every step."""
import builtins
import contextlib

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.backend_bases import MouseEvent
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure

from .. import pk
from ..core import Violation
from ..gens import choice

RULE = ("a case is a session on a suite with one to three pairs of axes: boxes around peaks, empty boxes, boxes over peaks already boxed, stray clicks, clicks in "
        "two axes, continue, undo, quit and unknown answers; non-trivial = a batch was confirmed or undone")
REQUIRE = {"sessions": 60, "boxes_with_peaks": 200, "pauses": 150, "undone_batches": 20, "confirmed_batches": 40, "pairs_in_two_axes": 20,
           "unknown_answers": 30, "peaks_rejected": 200, "peaks_undone": 50, "boxes_in_second_axes": 40, "over_pending_only": 20, "points_seen": 2000, "boxed_seen": 50}
UNKNOWN = ("", "3", "q", "quit", "01", "1 ", "-1", "10", "y", "None", "2.0", "\n", "0 ")


def _key(q):
    return tuple(float(f"{v:.11g}") for v in q)


class User:
    """What the user does and what it must lead to."""

    def __init__(self, rng, mon, suite, models, xt, yt, steps):
        self.rng, self.mon, self.suite, self.ms = rng, mon, suite, models
        self.xt, self.yt, self.steps = xt, yt, steps
        self.pending = [np.zeros(m.valid.shape, bool) for m in models]
        self.asking = self.ended = False
        self.log, self.view, self.first = [], None, {}

    def look(self, when):
        """The peaks hold exactly what was confirmed so far."""
        for p, m in zip(self.suite, self.ms):
            for a in ("frequency", "velocity"):
                self.mon.equal(getattr(p, a), m.get(a), f"{a} of {m.ident} {when}")

    def picture(self, axes):
        """Every axes shows the peaks there are, those boxed since the last pause set apart, in the view of the start."""
        mon = self.mon
        view = [(ax.get_xlim(), ax.get_ylim()) for ax in axes]
        self.view = view if self.view is None else self.view
        mon.close(np.array(view), np.array(self.view), "the view of the axes during the session", rtol=1e-9)
        for k, (ax, xt, yt) in enumerate(zip(axes, self.xt, self.yt)):
            shown = {}
            for line in ax.lines:
                if line.get_marker() not in ("", " ", "None", "none", None):
                    for q in zip(line.get_xdata(), line.get_ydata()):
                        shown.setdefault(_key(q), []).append(to_rgba(line.get_color()))
            kinds, owners = {}, {}
            for m, pend in zip(self.ms, self.pending):
                for q, v, b in zip(zip(np.ravel(m.raw(xt)), np.ravel(m.raw(yt))), np.ravel(m.valid), np.ravel(pend)):
                    owners[_key(q)] = owners.get(_key(q), 0) + 1
                    kinds.setdefault(_key(q), set()).add("gone" if not v else "boxed" if b else "kept")
            colors = {"kept": set(), "boxed": set()}
            live = {q for q, kind in kinds.items() if kind != {"gone"}}
            mon.event("points_seen", len(live))
            left = [q for q in kinds if q in shown and q not in live]
            mon.check(not left, "a rejected peak is still shown", points=left[:4], x=xt, y=yt)
            lost = [q for q in live if q not in shown]
            mon.check(not lost, "a peak is not shown", points=lost[:4], x=xt, y=yt)
            for q in live:
                if kinds[q] in ({"kept"}, {"boxed"}):
                    colors[min(kinds[q])].add(shown[q][-1])
                if kinds[q] == {"kept"} and owners[q] == 1 and self.first.setdefault((k, q), shown[q][-1]) != shown[q][-1]:
                    mon.check(False, "a peak that is kept changes its colour", got=shown[q][-1], want=self.first[k, q])
            stray = [q for q in shown if q not in kinds]
            mon.check(not stray, "a point that is not one of the peaks is shown", points=stray[:4], x=xt, y=yt)
            both = colors["kept"] & colors["boxed"]
            mon.check(not both, "boxed peaks look like the others", colors=sorted(both), x=xt, y=yt)
            mon.event("boxed_seen", bool(colors["boxed"]))

    # -- clicks ---------------------------------------------------------------------------
    def _pixel(self, ax, x, y):
        px, py = ax.transData.transform((x, y))
        b = ax.bbox
        return (float(np.clip(px, b.x0 + 1.3, b.x1 - 1.3)), float(np.clip(py, b.y0 + 1.3, b.y1 - 1.3)))

    def _random_pixel(self, ax):
        b = ax.bbox
        return (float(self.rng.uniform(b.x0 + 2, b.x1 - 2)), float(self.rng.uniform(b.y0 + 2, b.y1 - 2)))

    def _click(self, fig, at):
        ev = MouseEvent("button_press_event", fig.canvas, at[0], at[1], button=1)
        fig.canvas.callbacks.process("button_press_event", ev)
        return ev

    def _corners(self, axes):
        """(axes of each click, pixels of each click, what it is)."""
        rng = self.rng
        k = int(rng.integers(len(self.xt)))
        ax = axes[k]
        what = choice(rng, ("around", "around", "around", "random", "double", "again", "stray")) if self.steps > 0 else "double"
        if what == "stray" and len(self.xt) > 1:
            other = (k + 1) % len(self.xt)
            return (k, other), (self._random_pixel(ax), self._random_pixel(axes[other])), what
        pool = []
        for m, pend in zip(self.ms, self.pending):
            sel = m.valid & pend if what == "again" else m.valid & ~pend
            x, y = m.raw(self.xt[k])[sel], m.raw(self.yt[k])[sel]
            pool += list(zip(x, y))
        if what in ("around", "again") and pool:
            x, y = pool[int(rng.integers(len(pool)))]
            px, py = ax.transData.transform((x, y))
            w, h = (ax.bbox.width, ax.bbox.height)
            s = choice(rng, (0.02, 0.1, 0.4))
            a = (px - rng.uniform(0.002, s) * w, py - rng.uniform(0.002, s) * h)
            b = (px + rng.uniform(0.002, s) * w, py + rng.uniform(0.002, s) * h)
            bb = ax.bbox
            (x0, y0), (x1, y1) = [(float(np.clip(u, bb.x0 + 1.1, bb.x1 - 1.1)), float(np.clip(v, bb.y0 + 1.1, bb.y1 - 1.1))) for u, v in (a, b)]
            c = choice(rng, ([(x0, y0), (x1, y1)], [(x1, y1), (x0, y0)], [(x0, y1), (x1, y0)], [(x1, y0), (x0, y1)]))
            return (k, k), c, what
        if what == "random":
            return (k, k), (self._random_pixel(ax), self._random_pixel(ax)), what
        at = self._random_pixel(ax)
        return (k, k), (at, at), "double"

    def ginput(self, fig, n=1, timeout=30, *a, **kw):
        mon = self.mon
        if n != 2:                                             # clears the queue of events
            return []
        mon.check(not self.ended, "the session goes on after quitting")
        mon.check(not self.asking, "a box is asked for while paused")
        self.look(f"before box {len(self.log)}")
        axes = [ax for ax in fig.axes]
        mon.check(len(axes) == len(self.xt), "number of axes", got=len(axes), want=len(self.xt))
        self.picture(axes)
        self.steps -= 1
        where, pixels, what = self._corners(axes)
        if self.rng.random() < 0.15:                           # beside all axes: not a point
            ev = self._click(fig, (0.5, 0.5))
            mon.check(ev.inaxes is None, "harness: stray click hit axes")
        out = []
        for w, at in zip(where, pixels):
            ev = self._click(fig, at)
            if ev.inaxes is not axes[w]:
                raise RuntimeError("harness: click missed its axes")
            out.append((ev.xdata, ev.ydata))
        self.log.append((what, where, [float(f"{v:.5g}") for q in out for v in q]))
        if where[0] != where[1]:
            mon.event("pairs_in_two_axes")
            return out
        k = where[0]
        hit = [m.inside(self.xt[k], (out[0][0], out[1][0]), self.yt[k], (out[0][1], out[1][1])) for m in self.ms]
        count = sum(int(h.sum()) for h in hit)
        new = sum(int((h & ~p).sum()) for h, p in zip(hit, self.pending))
        for p, h in zip(self.pending, hit):
            p |= h
        mon.event("boxes_with_peaks", count > 0)
        mon.event("boxes_in_second_axes", count > 0 and k > 0)
        mon.event("over_pending_only", count > 0 and new == 0)
        self.asking = count == 0
        return out

    def ask(self, prompt=""):
        mon, rng = self.mon, self.rng
        mon.check(not self.ended, "the session asks after quitting")
        mon.check(self.asking, "a question although the last box held peaks or its clicks were in two axes", log=self.log[-3:])
        self.look("when paused")
        if rng.random() < 0.25:
            a = choice(rng, UNKNOWN)
            mon.event("unknown_answers")
            self.log.append(("answer", a))
            return a
        a = choice(rng, ("1", "1", "2", "2", "0")) if self.steps > 0 else "0"
        boxed = sum(int((p & m.valid).sum()) for p, m in zip(self.pending, self.ms))
        if a in "01":
            for p, m in zip(self.pending, self.ms):
                m.valid &= ~p
            mon.event("peaks_rejected", boxed)
            mon.event("confirmed_batches", boxed > 0)
        else:
            mon.event("peaks_undone", boxed)
            mon.event("undone_batches", boxed > 0)
        self.pending = [np.zeros(m.valid.shape, bool) for m in self.ms]
        self.asking, self.ended = False, a == "0"
        mon.event("pauses")
        self.log.append(("answer", a))
        return a


@contextlib.contextmanager
def driven(user):
    saved = Figure.ginput, builtins.input, plt.show, Figure.show
    Figure.ginput = lambda fig, *a, **k: user.ginput(fig, *a, **k)
    builtins.input = user.ask
    plt.show = lambda *a, **k: None
    Figure.show = lambda *a, **k: None
    try:
        yield user
    finally:
        Figure.ginput, builtins.input, plt.show, Figure.show = saved


def session(rng, mon):
    s, ms = pk.suite(rng, n=int(rng.integers(1, 5) if rng.random() < 0.9 else rng.integers(5, 25)), same_attrs=True)
    for p, m in zip(s, ms):
        if rng.random() < 0.3:
            lim = (pk.limit_for(rng, m, "frequency"), None)
            p.reject_limits_outside("frequency", lim)
            m.reject_limits("frequency", *lim)
    if not any(m.valid.any() for m in ms):
        mon.describe(nontrivial=False, empty=True)
        return
    start = [m.copy() for m in ms]
    options = ["frequency", "wavelength", "slowness", "velocity", "wavenumber"] + [a for a in ms[0].data if a not in pk.BASE and a != "noise"]
    nax = choice(rng, (1, 1, 2, 2, 3))
    xt, yt = [choice(rng, options) for _ in range(nax)], [choice(rng, options) for _ in range(nax)]
    if rng.random() < 0.4:
        xt, yt = [("frequency", "wavelength", "slowness")[k] for k in range(nax)], ["velocity"] * nax
    kw = dict(xtype=xt[0] if nax == 1 and rng.random() < 0.6 else xt, ytype=yt[0] if nax == 1 and rng.random() < 0.6 else tuple(yt))
    if nax == 1 and isinstance(kw["xtype"], list) != isinstance(kw["ytype"], (list, tuple)):
        pass                                                   # a name and a list of one name are the same
    if rng.random() < 0.2 and nax == 1:
        xt, yt, kw = ["wavelength"], ["velocity"], {}
    if rng.random() < 0.3:
        kw["plot_kwargs"] = dict(color=(["r", "g", "b", "k", "c"] * 5)[:len(s)] if rng.random() < 0.5 else "g")
    if rng.random() < 0.3 and all(t in ("frequency", "wavelength") for t in xt):
        kw["resolution_limits"] = (choice(rng, ("wavelength", "wavenumber")), (2.0, 60.0))
    if rng.random() < 0.3:
        kw["margins"] = float(choice(rng, (0.05, 0.3)))
    user = User(rng, mon, s, ms, xt, yt, int(rng.integers(1, 14)))
    with driven(user):
        with mon.unchanged("the arguments of the session", kw):
            out = s.interactive_trimming(**kw)
    mon.check(user.ended, "the session ended without the user quitting", log=user.log[-4:])
    mon.check(out is None, "the session returned something")
    user.look("after the session")
    for p, m in zip(s, ms):
        pk.check_state(mon, p, m, "after the session")
    mon.event("sessions")
    changed = any(np.any(a.valid != m.valid) for a, m in zip(start, ms))
    mon.describe(nontrivial=changed or any(l == ("answer", "2") for l in user.log), xt=xt, yt=yt, members=len(s), log=[str(l) for l in user.log],
                 first=start[0].data["velocity"])


SCENARIOS = {"session": (session, 120, 2500)}
