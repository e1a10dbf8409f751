"""Scripted user: stands in for matplotlib's blocking calls and for input(), recording every question.

The blocking calls are replaced on the Figure class, which is where pyplot's functions of the same
name end up too, so it does not matter which of the two the code under test uses."""
import builtins
import contextlib

from matplotlib.figure import Figure


class EndOfScript(Exception):
    """The code under test asked the user for more than the script provides."""


class Script:
    def __init__(self, picks=(), presses=(), answers=()):
        self.picks, self.presses, self.answers = list(picks), list(presses), list(answers)
        self.log = []                                   # (kind, what the code asked, what it got)

    def left(self):
        return len(self.picks), len(self.presses), len(self.answers)


@contextlib.contextmanager
def user(script, default_press=None):
    """`picks`: list of point lists returned by ginput; a callable is called with the figure.
    `presses`: values returned by waitforbuttonpress (True key, False mouse, None timeout)."""
    def ginput(self, n=1, timeout=30, *a, **k):
        if not script.picks:
            raise EndOfScript("ginput")
        p = script.picks.pop(0)
        pts = p(self) if callable(p) else p
        script.log.append(("ginput", n, pts))
        return [tuple(q) for q in pts]

    def wait(self, timeout=-1):
        if not script.presses:
            if default_press is not None:
                script.log.append(("press", timeout, default_press()))
                return default_press()
            raise EndOfScript("waitforbuttonpress")
        p = script.presses.pop(0)
        p = p(timeout) if callable(p) else p
        script.log.append(("press", timeout, p))
        return p

    def ask(prompt=""):
        if not script.answers:
            raise EndOfScript("input")
        a = script.answers.pop(0)
        script.log.append(("input", str(prompt), a))
        return a
    import matplotlib.pyplot as plt
    saved = (Figure.ginput, Figure.waitforbuttonpress, builtins.input, plt.show)
    Figure.ginput, Figure.waitforbuttonpress, builtins.input = ginput, wait, ask
    plt.show = lambda *a, **k: None
    try:
        yield script
    finally:
        Figure.ginput, Figure.waitforbuttonpress, builtins.input, plt.show = saved
