"""Calls into the package on deep copies of the arguments of a call about to happen, with one value in them changed.

Such a call has nothing to do with the one that follows, so what that one does must not depend on whether it took place."""
import builtins
import copy
import inspect
import types
import warnings

import numpy as np

from . import ui

_input = builtins.input
# words that the package understands, each with one that means something else
OTHER = {"linear": "log", "log": "linear", "none": "sqrt", "sqrt": "invamp", "invamp": "none", "plane": "cylindrical", "cylindrical": "plane",
         "frequency-maximum": "absolute-maximum", "absolute-maximum": "frequency-maximum", "each": "all", "all": "each", "x": "y", "y": "x",
         "fdbf": "phaseshift", "phaseshift": "fdbf", "fk": "fdbf", "slantstack": "phaseshift", "frequency": "wavelength", "wavelength": "frequency",
         "velocity": "slowness", "slowness": "velocity", "rayleigh": "love", "love": "rayleigh", "time-domain": "frequency-domain",
         "frequency-domain": "time-domain", "single": "time-domain", "r": "k", "k": "r", "b": "g", "g": "b", "--": "-", "-": "--"}
STYLES = ("plot_kwargs", "errorbar_kwargs", "sensor_kwargs", "source_kwargs", "peak_kwargs")
WRITES = ("to_", "extract", "write", "save", "dump")


def leaves(x, put, depth=0, seen=None):
    """(value, function that replaces it) of everything in a copied argument that a caller could have chosen otherwise."""
    seen = set() if seen is None else seen
    if depth > 6 or isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, np.random.Generator)):
        return
    if isinstance(x, (bool, int, float, str, np.bool_, np.integer, np.floating)):
        yield x, put
        return
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.size and x.dtype.kind in "fiuc" and x.flags.writeable:
            yield x, None
    elif isinstance(x, tuple):
        for i, v in enumerate(x):
            yield from leaves(v, lambda new, i=i: put(x[:i] + (new,) + x[i + 1:]), depth + 1, seen)
    elif isinstance(x, list):
        for i, v in enumerate(x[:50]):
            yield from leaves(v, lambda new, i=i: x.__setitem__(i, new), depth + 1, seen)
    elif isinstance(x, dict):
        for k, v in list(x.items())[:50]:
            yield from leaves(v, lambda new, k=k: x.__setitem__(k, new), depth + 1, seen)
    elif str(type(x).__module__).split(".")[0] in ("swprocess", "sigpropy") and hasattr(x, "__dict__"):
        for k, v in list(vars(x).items()):
            yield from leaves(v, lambda new, k=k: x.__dict__.__setitem__(k, new), depth + 1, seen)


def change(rng, x, put):
    if isinstance(x, np.ndarray):
        i = int(rng.integers(x.size))
        x.flat[i] = x.flat[i] + (1 if x.dtype.kind in "iu" else max(1.0, abs(x.flat[i])) if np.isfinite(x.flat[i]) else 0)
    elif isinstance(x, (bool, np.bool_)):
        put(not x)
    elif isinstance(x, (int, np.integer)):
        put(x + int(rng.choice((-1, 1, 2))))
    elif isinstance(x, (float, np.floating)):
        put(float(x * rng.choice((0.8, 1.25, 1.5))) if x else 0.5)
    else:
        put(OTHER[x])


def graphics(x):
    if isinstance(x, (list, tuple)):
        return any(graphics(v) for v in x)
    if isinstance(x, dict):
        return any(graphics(v) for v in x.values())
    return str(type(x).__module__).split(".")[0] == "matplotlib"


def call(rng, name, args, kwargs, fn):
    """Whether the neighbouring call was made."""
    short = name.split(".")[-1]
    if any(w in short for w in WRITES) or "interactive" in short or "ginput" in short or "manual" in short or builtins.input is not _input:
        return False                                   # would write the same file, or use up what the user is about to enter
    if graphics(args) or graphics(kwargs) or any(inspect.isgenerator(v) for v in args):
        return False
    import matplotlib.pyplot as plt
    figures, current = set(plt.get_fignums()), (plt.gcf().number if plt.get_fignums() else None)
    state = np.random.get_state()
    try:
        a, k = copy.deepcopy((list(args), dict(kwargs)))
        if rng.random() < 0.5:                                 # a style where none is given
            free = [p for p in inspect.signature(fn).parameters if p in STYLES and not k.get(p)]
            if free:
                k[str(rng.choice(free))] = dict(color="m", linewidth=3.5)
        options = [(v, put) for v, put in leaves([a, k], None) if not isinstance(v, str) or v in OTHER]
        if options:
            change(rng, *options[int(rng.integers(len(options)))])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"), ui.user(ui.Script()):         # nobody is there to answer
                fn(*a, **k)
    except Exception:
        pass
    finally:
        np.random.set_state(state)
        for n in set(plt.get_fignums()) - figures:
            plt.close(n)
        if current is not None and plt.fignum_exists(current):
            plt.figure(current)
    return True
