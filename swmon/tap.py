"""Wraps every function and method of the package, so that an observer sees each call from outside into it.

Only the outermost call of a nest is reported.  Nothing is changed about arguments, results or exceptions."""
import functools
import importlib
import inspect
import pkgutil

observer = None             # object with before(name, args, kwargs, fn) and after(name, args, kwargs, result, error)
_depth = 0
_installed = False


def _wrap(name, fn):
    if getattr(fn, "_tapped", False):
        return fn

    @functools.wraps(fn)
    def call(*args, **kwargs):
        global _depth
        if observer is None or _depth:
            return fn(*args, **kwargs)
        obs = observer
        _depth += 1
        try:
            obs.before(name, args, kwargs, fn)
            result = error = None
            try:
                result = fn(*args, **kwargs)
                return result
            except BaseException as e:
                error = e
                raise
            finally:
                obs.after(name, args, kwargs, result, error)
        finally:
            _depth -= 1
    call._tapped = True
    return call


def _class(cls):
    for key, attr in list(vars(cls).items()):
        name = f"{cls.__name__}.{key}"
        if key.startswith("__") and key not in ("__init__", "__eq__", "__getitem__", "__repr__", "__str__", "__len__", "__iter__"):
            continue
        try:
            if isinstance(attr, (classmethod, staticmethod)):
                if inspect.isfunction(attr.__func__):
                    setattr(cls, key, type(attr)(_wrap(name, attr.__func__)))
            elif isinstance(attr, property):
                setattr(cls, key, property(*(_wrap(name, f) if f else None for f in (attr.fget, attr.fset, attr.fdel)), attr.__doc__))
            elif inspect.isfunction(attr) and not inspect.isgeneratorfunction(attr):
                setattr(cls, key, _wrap(name, attr))
        except (AttributeError, TypeError):
            pass


def install():
    """Patches the imported package once; safe to call again."""
    global _installed
    if _installed:
        return
    _installed = True
    import swprocess
    mods = [swprocess]
    for m in pkgutil.iter_modules(swprocess.__path__):
        try:
            mods.append(importlib.import_module(f"swprocess.{m.name}"))
        except Exception:                                       # a module that does not import serves nobody
            pass
    done = {}
    for mod in mods:
        for key, v in list(vars(mod).items()):
            if getattr(v, "__module__", "") is None or not str(getattr(v, "__module__", "")).startswith("swprocess"):
                continue
            if inspect.isclass(v):
                if v not in done:
                    done[v] = v
                    _class(v)
            elif inspect.isfunction(v):
                if v not in done:
                    done[v] = _wrap(f"{v.__module__.split('.')[-1]}.{v.__name__}", v)
                setattr(mod, key, done[v])
