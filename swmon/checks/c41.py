"""Recording transforms and workflows registered under fresh and existing names: what lookups return, what the workflows call, with what and how often."""
import numpy as np

from swprocess import Masw
from swprocess.masw import MaswXcorr
from swprocess.register import AbstractRegistry, MaswWorkflowRegistry, WavefieldTransformRegistry
from swprocess.wavefieldtransforms import AbstractWavefieldTransform
from .. import gens, pipe, xform
from ..gens import choice

RULE = ("a case registers classes in a sequence of names (new, repeated, the same name in both registries) and looks all of them up after each step, or runs a workflow with "
        "a user's transform, a user's workflow, a replaced built-in transform, or a name nobody registered")
REQUIRE = {"extended_names": 1000, "registered": 800, "replaced": 150, "lookups": 3000, "unknown": 300, "instances": 300, "transforms_used": 120, "stacked": 25, "mapped": 50, "workflows_used": 60, "builtin_replaced": 20}
BUILTIN = {"transforms": ("empty", "slantstack", "phaseshift", "fdbf", "fk"), "workflows": ("single", "time-domain", "time-domain-xcorr", "frequency-domain")}


def _name(rng):
    return choice(rng, ("mine", "my transform", "FDBF", "fdbf2", "")) + f"#{rng.integers(10 ** 15)}"         # never drawn twice


def _make():
    class Recorder:
        def __init__(self, *args, **kwargs):
            self.args, self.kwargs = args, kwargs
    return Recorder


def registry(rng, mon):
    class Own(AbstractRegistry):
        _register = {}

    regs = {"transforms": WavefieldTransformRegistry, "workflows": MaswWorkflowRegistry, "own": Own}
    builtin = {k: {n: regs[k].create_class(n) for n in v} for k, v in BUILTIN.items()}
    known = {k: {} for k in regs}
    pool = [_name(rng) for _ in range(4)]
    if rng.random() < 0.5:                      # names that are nearly another one
        n = pool[0]
        pool += [v for v in sorted({n.swapcase(), n + "0", n[:-1], n.replace(" ", "_"), n.replace("#", "-")} - {n})]
    steps = int(rng.integers(3, 12))
    mon.describe(nontrivial=True, pool=pool, steps=steps)
    for _ in range(steps):
        k, n, c = choice(rng, tuple(regs)), choice(rng, pool), _make()
        mon.event("replaced", n in known[k])
        if rng.random() < 0.5:
            got = regs[k].register(n)(c)
        else:
            deco = regs[k].register(n)          # the decorator is made first and applied later
            got = deco(c)
        mon.check(got is c, "registering gives back another class", got=repr(got))
        known[k][n] = c
        mon.event("registered")
        for kk, reg in regs.items():
            for nn in pool:
                if nn in known[kk]:
                    mon.check(reg.create_class(nn) is known[kk][nn], f"{kk}: {nn} is not the class registered last under this name")
                    mon.event("lookups")
                else:
                    mon.raises(KeyError, lambda: reg.create_class(nn), f"{kk}: class of a name nobody registered there")
                    mon.raises(KeyError, lambda: reg.create_instance(nn), f"{kk}: instance of a name nobody registered there")
                    mon.event("unknown")
        for kk, names in builtin.items():
            for nn, cc in names.items():
                mon.check(regs[kk].create_class(nn) is cc, f"{kk}: built-in {nn} changed by registering {n}")
        base = choice(rng, (n, *(m for v in builtin.values() for m in v)))
        odd = choice(rng, (f"{base}-{choice(rng, ('mine', '1', ''))}", f"-{base}", f"{base} ", f" {base}", f"{base}_2", base.upper(), f"{base}.{base}", base[1:], f"{base}-{n}"))
        for kk, reg in regs.items():                            # a name that extends a known one
            if odd not in known[kk] and odd not in builtin.get(kk, {}):
                mon.raises(KeyError, lambda: reg.create_class(odd), f"{kk}: class of a name nobody registered there ({odd!r})")
                mon.event("unknown")
                mon.event("extended_names")
        a, kw = tuple(int(i) for i in rng.integers(9, size=int(rng.integers(0, 4)))), {"q": int(rng.integers(9))} if rng.random() < 0.5 else {}
        inst = regs[k].create_instance(n, *a, **kw)
        mon.check(type(inst) is c and inst.args == a and inst.kwargs == kw, "instance is not made of the registered class with the arguments given", got=repr(inst), want=(a, kw))
        mon.check(regs[k].create_instance(n) is not regs[k].create_instance(n), "two instances are one object")
        mon.event("instances")


def _recording(rng, base=None):
    """A transform that keeps the arguments of every call; its power is a known function of the record."""
    calls = []

    class Mine(base or AbstractWavefieldTransform):
        @classmethod
        def transform(cls, array, velocities, settings):
            calls.append((array.timeseriesmatrix().copy(), tuple(array.offsets), np.array(velocities), settings))
            sensor = array.sensors[0]
            freqs = np.arange(sensor.nsamples) / (sensor.nsamples * sensor.dt)
            i, j = np.argmin(np.abs(freqs - settings["fmin"])), np.argmin(np.abs(freqs - settings["fmax"]))
            keep = range(i, j + 1, sensor.multiple)
            return freqs[keep], np.outer(np.asarray(velocities), np.ones(len(keep))) * np.sum(array.timeseriesmatrix() ** 2)
    return Mine, calls


def transform(rng, mon):
    d = mon.scratch()
    workflow = choice(rng, ("single", "time-domain", "frequency-domain"))
    nf = 1 if workflow == "single" else int(rng.integers(1, 5))
    files, models, stacked, meta = pipe.survey(rng, d, nf=nf)
    fx, fy, maps = (lambda v: v), (lambda v: v), {}
    if rng.random() < 0.5:
        s, o, oy = float(choice(rng, (2, 0.5, 1))), float(choice(rng, (0, 100, -20))), float(choice(rng, (0, 7)))
        fx, fy = (lambda v: s * v + o), (lambda v: v + oy)
        maps = dict(map_x=fx, map_y=fy)
        for m in models + [stacked]:
            m.x, m.sx = fx(m.x), fx(m.sx)
        mon.event("mapped")
    m0 = stacked if workflow != "frequency-domain" else models[0]
    pre = pipe.preprocessing(rng, m0)
    pre["mute"] = False
    ps = [pipe.prepared(m, pre) for m in ([stacked] if workflow != "frequency-domain" else models)]
    if len(ps[0].x) < 2:
        mon.describe(nontrivial=False)
        return
    if pre.get("pad"):
        ps = [p.pad(pre["df"]) for p in ps]
    n = ps[0].rows.shape[1]
    st = dict(transform=_name(rng), fmin=2 / (n * ps[0].dt), fmax=max(6, n // 4) / (n * ps[0].dt), vmin=100.0, vmax=float(rng.integers(300, 900)),
              nvel=int(rng.integers(2, 12)), vspace=choice(rng, ("linear", "log")), **{"fdbf-specific": dict(weighting="none", steering="plane")})
    builtin = rng.random() < 0.25
    name = choice(rng, ("fdbf", "fk", "phaseshift", "slantstack")) if builtin else st["transform"]
    original = WavefieldTransformRegistry.create_class(name) if builtin else None
    mon.describe(nontrivial=True, workflow=workflow, name=name, pre=pre, processing=st, **meta)
    st["transform"] = name
    settings = pipe.settings_of(workflow, pre, st)
    if not builtin:
        mon.raises(KeyError, lambda: Masw.run(files, settings, **maps), "run with a transform nobody registered")
        mon.event("unknown")
    C, calls = _recording(rng)
    WavefieldTransformRegistry.register(name)(C)
    try:
        T = Masw.run(files[0] if nf == 1 and rng.random() < 0.5 else files, settings, **maps)
    finally:
        if builtin:
            WavefieldTransformRegistry.register(name)(original)
            mon.event("builtin_replaced")
    mon.check(len(calls) == len(ps), "number of times the registered transform was applied", got=len(calls), want=len(ps))
    mon.event("transforms_used", len(calls))
    total = 0
    for (mat, off, vel, s), p in zip(calls, ps):
        mon.close(mat, p.rows, rtol=1e-8, atol=1e-9 * np.max(np.abs(p.rows)) + 1e-300, message="records given to the registered transform")
        mon.close(off, p.offsets, rtol=1e-9, atol=1e-9, message="offsets given to the registered transform")
        want = np.linspace(st["vmin"], st["vmax"], st["nvel"]) if st["vspace"] == "linear" else np.geomspace(st["vmin"], st["vmax"], st["nvel"])
        mon.close(vel, want, rtol=1e-12, message="velocities given to the registered transform")
        mon.equal(s, settings["processing"], message="settings given to the registered transform")
        total += np.sum(np.asarray(p.rows) ** 2) / len(ps)
    if not len(calls):
        return
    mon.close([(r.x, r.y) for r in T.array.sensors] + [(T.array.source.x, T.array.source.y)],
              [(v, fy(0.0)) for v in ps[0].x] + [(ps[0].sx, fy(0.0))], message="positions of receivers and source as mapped", rtol=1e-9, atol=1e-9)
    if workflow != "frequency-domain":
        mon.check(type(T) is C, "result is not of the registered class", got=type(T).__name__)
    else:
        mon.event("stacked", nf > 1)
        mon.check(T.n == nf, "files represented", got=T.n, want=nf)
    power = np.abs(np.asarray(T.power))
    mon.close(power, np.outer(calls[0][2], np.ones(power.shape[1])) * total, rtol=1e-8, message="power reported is not that of the registered transform")
    mon.equal(list(T.velocities), list(calls[0][2]), message="velocities reported")


def workflow(rng, mon):
    name, token, made = _name(rng), object(), []
    settings = Masw.create_settings_dict(workflow=name)
    mon.describe(nontrivial=True, name=name)
    fnames = choice(rng, ("a.su", ["a.su", "b.su"], ("a.su",)))
    mon.raises(KeyError, lambda: Masw.run(fnames, settings), "run of a workflow nobody registered")
    mon.raises((KeyError, NotImplementedError), lambda: MaswXcorr.run(fnames, fnames, 0, settings), "cross-correlation run of another workflow")
    mon.event("unknown")

    def make(result):
        class Flow:
            def __init__(self, fnames=None, settings=None, map_x=None, map_y=None):
                made.append((fnames, settings, map_x, map_y))

            def run(self):
                made.append("run")
                return result
        return Flow
    MaswWorkflowRegistry.register(name)(make(object()))
    MaswWorkflowRegistry.register(name)(make(token))
    fx, fy = (lambda x: 2 * x), (lambda y: y - 1)
    got = Masw.run(fnames, settings, map_x=fx, map_y=fy)
    mon.check(got is token, "run does not return what the registered workflow returns", got=repr(got))
    mon.check(len(made) == 2 and made[1] == "run" and made[0][0] == fnames and made[0][1] == settings, "workflow is not made once of the arguments given and run once", got=repr(made))
    mx, my = made[0][2], made[0][3]
    v = float(rng.normal())
    mon.check(mx(v) == 2 * v and my(v) == v - 1, "coordinate mappings given to the workflow")
    del made[:]
    Masw.run(fnames, settings)
    mon.check(made[0][2](v) == v and made[0][3](v) == v, "default coordinate mappings change coordinates")
    mon.event("workflows_used", 2)


SCENARIOS = {"registry": (registry, 60, 800), "transform": (transform, 60, 1500), "workflow": (workflow, 20, 300)}
