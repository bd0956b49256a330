"""What the library itself keeps alive: everything reachable from its modules
through containers, closures, default arguments and its own objects."""
import collections
import functools
import gc
import sys
import types
import weakref

from . import ambient

_LEAF = (str, bytes, int, float, complex, bool, type(None), types.ModuleType, types.BuiltinFunctionType, types.CodeType, range, slice)
_LRU = type(functools.lru_cache(lambda: 0))


_STD = {"builtins", "itertools", "queue", "_queue", "types", "collections", "_collections", "_thread", "_contextvars", "contextvars", "operator", "array", "heapq", "concurrent.futures.thread", "concurrent.futures._base", "_threading_local"}


def is_lib(name):
    return isinstance(name, str) and (name == "jaxoplanet" or name.startswith("jaxoplanet."))


def children(o):
    """(label, object) pairs below o, or None for a leaf."""
    if isinstance(o, _LEAF):
        return None
    if isinstance(o, dict):
        out = []
        for k, v in list(o.items()):
            lab = f"[{_s(k)}]"
            out.append((lab, v))
            if not isinstance(k, _LEAF):
                out.append(("<key>", k))
        if isinstance(o, collections.defaultdict) and o.default_factory is not None:
            out.append((".default_factory", o.default_factory))
        return out
    if isinstance(o, (list, tuple, set, frozenset, collections.deque)):
        return [(f"[{i}]", v) for i, v in enumerate(list(o))]
    if isinstance(o, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
        return [("<weak>", v) for kv in list(o.items()) for v in kv]
    if isinstance(o, weakref.WeakSet):
        return [("<weak>", v) for v in list(o)]
    if isinstance(o, functools.partial):
        return [(".func", o.func), (".args", o.args), (".keywords", o.keywords)]
    if isinstance(o, _LRU):
        return [("<lru>", x) for x in gc.get_referents(o) if not isinstance(x, (type, types.ModuleType))]
    if isinstance(o, types.MethodType):
        return [(".__self__", o.__self__), (".__func__", o.__func__)]
    if isinstance(o, (classmethod, staticmethod)):
        return [("", o.__func__)]
    if isinstance(o, property):
        return [("", f) for f in (o.fget, o.fset) if f is not None]
    if isinstance(o, types.FunctionType):
        out = []
        if not is_lib(o.__module__) and not str(o.__code__.co_filename).startswith("/repo"):
            if o.__closure__ is None:
                return None
        if o.__closure__:
            for n, c in zip(o.__code__.co_freevars, o.__closure__):
                try:
                    out.append((f".{n}", c.cell_contents))
                except ValueError:
                    pass
        if o.__defaults__:
            out.append((".__defaults__", o.__defaults__))
        if o.__kwdefaults__:
            out.append((".__kwdefaults__", o.__kwdefaults__))
        if o.__dict__:
            out.append((".__dict__", dict(o.__dict__)))
        return out
    if isinstance(o, type):
        if is_lib(getattr(o, "__module__", None)):
            return [(f".{k}", v) for k, v in list(vars(o).items()) if k not in ("__dict__", "__weakref__", "__doc__", "__abstractmethods__", "_abc_impl")]
        return None
    t = type(o)
    if t.__module__ in _STD and gc.is_tracked(o):
        # iterators, suspended generators, queues, locals of threads, ...: all they refer to
        return [(f"<{t.__name__}>", x) for x in gc.get_referents(o) if not isinstance(x, (type, types.ModuleType, types.FrameType)) and x is not vars(sys).get("modules")]
    w = getattr(o, "__wrapped__", None) if not hasattr(o, "_magnitude") and not hasattr(o, "dtype") and callable(o) else None
    if w is not None:
        return [(".__wrapped__", w)]
    if is_lib(t.__module__) and t.__name__ != "Finder":
        out = []
        d = getattr(o, "__dict__", None)
        if d:
            out += [(f".{k}", v) for k, v in list(d.items())]
        for c in t.__mro__:
            for s in getattr(c, "__slots__", ()) or ():
                if isinstance(s, str) and hasattr(o, s):
                    out.append((f".{s}", getattr(o, s)))
        return out
    if t.__module__ == "mpmath.matrices.matrices" and hasattr(o, "_matrix__data"):
        return [("", o._matrix__data)]
    return None


def _s(k):
    s = repr(k) if isinstance(k, _LEAF + (tuple,)) else type(k).__name__
    return s if len(s) < 40 else s[:40] + "~"


def walk(extra=(), limit=300000):
    """Yields (path, object) reachable from the library's modules."""
    seen = set()
    todo = collections.deque()
    for n in sorted(sys.modules):
        if is_lib(n):
            m = sys.modules[n]
            for k, v in list(vars(m).items()):
                if k in ("__builtins__", "__spec__", "__loader__", "__cached__", "id"):
                    continue
                todo.append((f"{n}.{k}", v))
    for path, x in ambient.foreign_added():
        todo.append((path, x))
    for x in extra:
        todo.append(("<objects of the callers>", x))
    keep = []
    while todo:
        path, o = todo.popleft()
        if isinstance(o, _LEAF) and not isinstance(o, types.ModuleType):
            continue
        if isinstance(o, types.ModuleType) or id(o) in seen:
            continue
        seen.add(id(o))
        keep.append(o)
        yield path, o
        if len(seen) > limit:
            return
        ch = children(o)
        if ch:
            for lab, c in ch:
                if not (isinstance(c, _LEAF)):
                    todo.append((path + lab, c))


def tracers(extra=()):
    import jax

    return [p for p, o in walk(extra) if isinstance(o, jax.core.Tracer)]


def _len(o):
    if isinstance(o, (dict, list, set, collections.deque, tuple, frozenset)):
        return len(o)
    if isinstance(o, _LRU):
        return o.cache_info().currsize
    if isinstance(o, (bytearray,)):
        return len(o)
    if type(o).__name__ == "ndarray":
        return int(o.size)
    return 0


def census():
    """Number of objects and sizes of containers the library retains, per place."""
    out = collections.Counter()
    total = 0
    for p, o in walk():
        root = p.split("[")[0][:120]
        out[root] += 1 + _len(o)
        total += 1
    return out


def live():
    """Number of objects of the library's classes, and of its functions, which exist
    at all in the process, whoever keeps them (JAX's caches of compiled or traced
    functions, registries of other packages, ...)."""
    gc.collect()
    out = collections.Counter()
    for o in gc.get_objects():
        t = type(o)
        if t is types.FunctionType:
            if is_lib(o.__module__):
                out[f"function {o.__module__}.{o.__qualname__}"] += 1
        elif is_lib(getattr(t, "__module__", None)):
            out[f"object {t.__module__}.{t.__qualname__}"] += 1
    return out


def classes():
    """How many classes of models exist that the library did not define."""
    import equinox

    n, todo = 0, [equinox.Module]
    while todo:
        for c in type.__subclasses__(todo.pop()):
            n += not is_lib(c.__module__)
            todo.append(c)
    return n


def growth(a, b, c):
    """Places that are larger at b than at a and larger at c than at b."""
    out = []
    for k in sorted(c):
        if a.get(k, 0) < b.get(k, 0) < c[k] or (k not in a and k in b and c[k] > b[k]):
            out.append(f"{k}: {a.get(k, 0)} -> {b.get(k, 0)} -> {c[k]}")
    return "; ".join(out[:4])
