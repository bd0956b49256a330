"""Everything about the process that a library call should leave as it found it."""
import builtins
import decimal
import gc
import hashlib
import importlib
import locale
import logging
import os
import random
import atexit
import faulthandler
import multiprocessing
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings

import numpy as np


def _h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def jax_config():
    import jax

    out = {}
    c = jax.config
    for k in sorted(getattr(c, "_value_holders", None) or getattr(c, "values", {})):
        try:
            out[k] = repr(getattr(c, k) if not hasattr(c, "_read") else c._read(k))
        except Exception:
            pass
    return out


SIGNALS = [getattr(signal, n) for n in ("SIGINT", "SIGTERM", "SIGALRM", "SIGHUP", "SIGUSR1", "SIGUSR2", "SIGCHLD", "SIGPIPE", "SIGFPE", "SIGSEGV", "SIGVTALRM", "SIGPROF")]
TIMERS = (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)
LIMITS = [getattr(resource, n) for n in ("RLIMIT_AS", "RLIMIT_CORE", "RLIMIT_CPU", "RLIMIT_DATA", "RLIMIT_FSIZE", "RLIMIT_NOFILE", "RLIMIT_STACK")]
SIMPLE = {  # name -> (how to read it, how to put it back)
    "threading.stack_size": (threading.stack_size, threading.stack_size),
    "socket timeout": (socket.getdefaulttimeout, socket.setdefaulttimeout),
    "tempfile.tempdir": (lambda: tempfile.tempdir, lambda v: setattr(tempfile, "tempdir", v)),
    "tempfile.template": (lambda: tempfile.template, lambda v: setattr(tempfile, "template", v)),
    "sys.unraisablehook": (lambda: sys.unraisablehook, lambda v: setattr(sys, "unraisablehook", v)),
    "sys.dont_write_bytecode": (lambda: sys.dont_write_bytecode, lambda v: setattr(sys, "dont_write_bytecode", v)),
    "sys.tracebacklimit": (lambda: getattr(sys, "tracebacklimit", 1000), lambda v: setattr(sys, "tracebacklimit", v)),
    "gc.debug": (gc.get_debug, gc.set_debug),
    "logging.raiseExceptions": (lambda: logging.raiseExceptions, lambda v: setattr(logging, "raiseExceptions", v)),
    "logging classes": (lambda: (logging.getLoggerClass(), logging.getLogRecordFactory()), lambda v: (logging.setLoggerClass(v[0]), logging.setLogRecordFactory(v[1]))),
    "logging levels": (lambda: {n: (g.level, g.disabled, g.propagate, len(g.handlers), len(g.filters)) for n, g in sorted(logging.root.manager.loggerDict.items()) if isinstance(g, logging.Logger) and n.split(".")[0] in ("jax", "jaxlib", "pint", "matplotlib", "numpy", "scipy")}, lambda v: _levels(v)),
    "sys.asyncgen_hooks": (sys.get_asyncgen_hooks, lambda v: sys.set_asyncgen_hooks(*v)),
    "numpy.polynomial style": (lambda: np.polynomial.polynomial.Polynomial._use_unicode, lambda v: setattr(np.polynomial.polynomial.Polynomial, "_use_unicode", v)),
}


def _levels(v):
    for n, (level, disabled, propagate, _, _) in v.items():
        g = logging.getLogger(n)
        g.setLevel(level)
        g.disabled, g.propagate = disabled, propagate


def snapshot(fds=True):
    s = {}
    mpm = sys.modules.get("mpmath")
    if mpm is not None:
        s["mpmath.mp.prec"] = mpm.mp.prec
        s["mpmath.mp.dps"] = mpm.mp.dps
        s["mpmath.mp.pretty"] = mpm.mp.pretty
        s["mpmath.mp.trap_complex"] = mpm.mp.trap_complex
        s["mpmath.mp.rounding"] = repr(mpm.mp._prec_rounding)
        s["mpmath.iv.prec"] = mpm.iv.prec
        s["mpmath.pi"] = repr(mpm.mp.pi + 0)
    s["np.errstate"] = repr(np.geterr())
    s["np.errcall"] = repr(np.geterrcall())
    s["np.printoptions"] = repr(np.get_printoptions())
    st = np.random.get_state()
    s["np.random"] = _h((st[0], st[1].tobytes(), st[2], st[3], st[4]))
    s["random"] = _h(random.getstate())
    # registration of a category's own filters by an import is not a setting change
    s["warnings.filters"] = _h([(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters])
    s["warnings.showwarning"] = _h((getattr(warnings.showwarning, "__name__", ""), getattr(warnings.formatwarning, "__name__", "")))
    s["os.environ"] = _h(sorted(os.environ.items()))
    s["cwd"] = os.getcwd()
    um = os.umask(0o22)
    os.umask(um)
    s["umask"] = um
    s["sys.path"] = _h(sys.path)
    s["sys.meta_path"] = len(sys.meta_path)
    s["recursionlimit"] = sys.getrecursionlimit()
    s["switchinterval"] = sys.getswitchinterval()
    s["int_max_str_digits"] = sys.get_int_max_str_digits()
    s["sys.stdout"] = getattr(sys.stdout, "name", type(sys.stdout).__name__)
    s["sys.stderr"] = getattr(sys.stderr, "name", type(sys.stderr).__name__)
    s["sys.hooks"] = (getattr(sys.excepthook, "__qualname__", ""), getattr(sys.displayhook, "__qualname__", ""), getattr(threading.excepthook, "__qualname__", ""))
    s["sys.trace"] = (repr(sys.gettrace()), repr(sys.getprofile()), repr(threading.gettrace()))
    s["locale"] = locale.setlocale(locale.LC_ALL)
    dc = decimal.getcontext()
    s["decimal"] = (dc.prec, dc.rounding, dc.Emin, dc.Emax)
    s["gc"] = (gc.isenabled(), gc.get_threshold())
    s["signals"] = [repr(signal.getsignal(x)) for x in SIGNALS]
    s["itimer"] = [signal.getitimer(x)[0] > 0 for x in TIMERS]
    s["signal mask"] = sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ()))
    s["resource limits"] = [resource.getrlimit(x) for x in LIMITS]
    s["priority"] = (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0)))
    for k, (get, _) in SIMPLE.items():
        s[k] = get()
    s["atexit"] = atexit._ncallbacks()
    s["faulthandler"] = faulthandler.is_enabled()
    s["time zone"] = (time.tzname, time.timezone)
    s["multiprocessing"] = multiprocessing.get_start_method(allow_none=True)
    r = logging.getLogger()
    s["logging"] = (r.level, len(r.handlers), logging.root.manager.disable, logging.getLogger("jax").level, logging.getLogger("pint").level)
    s["builtins"] = _h([(k, id(v)) for k, v in sorted(vars(builtins).items()) if k not in ("_", "__build_class__")])
    for k, v in jax_config().items():
        s["jax." + k] = v
    import jax

    s["jax.x64 (effective)"] = jax.config.jax_enable_x64
    s["jax.prng"] = repr(jax.config.jax_default_prng_impl)
    mpl = sys.modules.get("matplotlib")
    if mpl is not None and hasattr(mpl, "rcParams"):
        s["matplotlib.rcParams"] = _h(sorted((k, repr(mpl.rcParams._get(k) if hasattr(mpl.rcParams, "_get") else mpl.rcParams[k])) for k in mpl.rcParams))
        pl = sys.modules.get("matplotlib.pyplot")
        if pl is not None and hasattr(pl, "get_fignums"):
            s["pyplot.figures"] = tuple(pl.get_fignums())
            s["pyplot.interactive"] = mpl.is_interactive()
    import pint

    s["pint.application_registry"] = _h(id(pint.application_registry.get()) if pint.application_registry._registry is not None else 0)
    s["np.ufunc"] = np.getbufsize()
    import scipy.fft  # noqa: F401

    s["other packages"] = tuple(_foreign[0].changes()) if _foreign[0] else ()
    s["files in cwd"] = tuple(sorted(os.listdir(".")))[:50]
    if fds:
        s["open files"] = open_files()
        s["threads"] = sum(1 for t in threading.enumerate() if not hasattr(t, "_sim") and not isinstance(t, threading._DummyThread))
    return s


def open_files():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if p.startswith("/") and "/dev/" not in p and "/proc/" not in p:
            out.append(p)
    return tuple(sorted(out))


def diff(a, b, ignore=()):
    out = []
    for k in sorted(set(a) | set(b)):
        if k in ignore:
            continue
        if k not in a:  # a module loaded since: nothing to compare with
            continue
        if isinstance(a[k], dict) and isinstance(b.get(k), dict):
            for n, x in a[k].items():
                if b[k].get(n) != x:
                    out.append(f"{k}[{n}]: {x!r} -> {b[k].get(n)!r}"[:200])
            continue
        if a[k] != b.get(k):
            out.append(f"{k}: {a[k]!r} -> {b.get(k)!r}"[:200])
    return out


# Namespaces of other packages: a library that stashes state there keeps it across a
# new import of itself, and changes what every other user of the package sees.
FOREIGN = [
    "builtins", "sys", "os", "threading", "functools", "math", "operator", "weakref", "types", "typing", "dataclasses", "contextlib",
    "collections", "warnings", "numpy", "numpy.linalg", "scipy", "scipy.special", "scipy.sparse", "jax", "jax.numpy", "jax.lax",
    "jax.scipy", "jax.tree_util", "jax.experimental", "equinox", "pint", "pint.util", "jpu", "jpu.registry", "jpu.quantity", "jpu.numpy", "mpmath", "sympy",
    "matplotlib", "matplotlib.pyplot", "matplotlib.axes",
]  # fmt: skip
FOREIGN_CLASSES = [
    ("pint", "UnitRegistry"), ("pint", "Quantity"), ("pint", "Unit"), ("pint", "Context"), ("jpu", "UnitRegistry"), ("jpu.quantity", "JpuQuantity"),
    ("equinox", "Module"), ("threading", "Thread"), ("matplotlib.axes", "Axes"), ("mpmath", "mp"), ("mpmath", "iv"), ("mpmath", "fp"), ("jpu.registry", "UnitRegistry"),
]  # fmt: skip
# what these packages keep in their own namespaces and change themselves
OWN = {
    "sys": {"last_type", "last_value", "last_traceback", "last_exc", "stdin", "stdout", "stderr", "path", "meta_path", "path_importer_cache", "modules", "excepthook", "displayhook", "tracebacklimit", "argv", "flags", "path_hooks"},
    "os": {"environ", "environb"},
    "builtins": {"_", "open", "__build_class__"},
    "threading": {"_counter", "_active", "_limbo", "_dangling", "_shutdown_locks", "_main_thread", "Lock", "RLock", "excepthook"},
    "warnings": {"filters", "_filters_version", "showwarning", "formatwarning", "_filters_mutated", "onceregistry"},
    "matplotlib.pyplot": {"_backend_mod", "_REPL_DISPLAYHOOK", "_IP_REGISTERED", "_get_backend_mod", "_ReplDisplayHook"},
}


def _simple(v):
    return v is None or isinstance(v, (bool, int, float, complex, str, bytes, tuple, frozenset))


class Foreign:
    def __init__(self):
        self.spaces = {}
        for n in FOREIGN:
            try:
                importlib.import_module(n)
            except ImportError:
                continue
        for n in FOREIGN:
            m = sys.modules.get(n)
            if m is not None:
                self.spaces[n] = (m, self.names(n, m))
        for n, c in FOREIGN_CLASSES:
            m = sys.modules.get(n)
            o = getattr(m, c, None) if m is not None else None
            if o is not None:
                self.spaces[f"{n}.{c}"] = (o, self.names(f"{n}.{c}", o))

    def names(self, n, o):
        own = OWN.get(n, ())
        # what packages import or compute lazily about themselves is their own business
        return {
            k: v
            for k, v in vars(o).items()
            if k not in own and not isinstance(v, _Module) and not (k.startswith("__") and k.endswith("__")) and not k.startswith("_abc_")
        }

    def changes(self, undo=False):
        out = []
        for n, (o, was) in self.spaces.items():
            now = self.names(n, o)
            if now.keys() == was.keys() and all(now[k] is v for k, v in was.items()):
                continue
            for k, v in now.items():
                if k not in was:
                    if isinstance(v, type) and (v.__module__ or "").split(".")[0] == n.split(".")[0]:
                        was[k] = v
                        continue
                    out.append(f"{n}.{k} was added")
                    if undo:
                        self.set(o, k)
                elif v is not was[k] and not (_simple(v) and _simple(was[k]) and (v == was[k] or n in ("mpmath.mp", "mpmath.iv", "mpmath.fp"))):
                    if n.startswith("mpmath.") and not callable(v):
                        continue
                    out.append(f"{n}.{k} was replaced")
                    if undo:
                        self.set(o, k, was[k])
            for k, v in was.items():
                if k not in now and k not in vars(o):
                    out.append(f"{n}.{k} was removed")
                    if undo:
                        self.set(o, k, v)
        return out

    def added(self):
        """[(path, object)] the library put into other packages."""
        out = []
        for n, (o, was) in self.spaces.items():
            for k, v in self.names(n, o).items():
                if k not in was or (v is not was[k] and not _simple(v) and not n.startswith("mpmath.")):
                    out.append((f"{n}.{k}", v))
        return out

    @staticmethod
    def set(o, k, *v):
        try:
            if v:
                setattr(o, k, v[0])
            else:
                delattr(o, k)
        except Exception:
            pass


def foreign_added():
    return _foreign[0].added() if _foreign[0] else []


_Module = type(sys)
_foreign = [None]


class Keeper:
    """Restores the settings between simulated runs."""

    def __init__(self):
        import mpmath

        _foreign[0] = Foreign()
        self.np_err = np.geterr()
        self.np_print = np.get_printoptions()
        self.filters = list(warnings.filters)
        self.show = warnings.showwarning
        self.fmt = warnings.formatwarning
        self.env = dict(os.environ)
        self.cwd = os.getcwd()
        self.path = list(sys.path)
        self.reclimit = sys.getrecursionlimit()
        self.level = logging.getLogger().level
        self.jax = None
        self.streams = (sys.stdout, sys.stderr)
        self.excepthook = sys.excepthook
        self.mp = (mpmath.mp.prec, mpmath.mp.pretty, mpmath.mp.trap_complex, mpmath.iv.prec)
        self.gc = gc.get_threshold()
        self.simple = {k: get() for k, (get, _) in SIMPLE.items()}
        self.signals = [signal.getsignal(x) for x in SIGNALS]
        self.limits = [resource.getrlimit(x) for x in LIMITS]
        self.affinity = os.sched_getaffinity(0)
        import jax

        mpl = sys.modules.get("matplotlib")
        self.rc = dict.copy(mpl.rcParams) if mpl is not None else None
        self.jaxvals = {}
        c = jax.config
        for k in list(getattr(c, "_value_holders", {})):
            try:
                self.jaxvals[k] = c._read(k)
            except Exception:
                pass

    def restore(self, seed=0, x64=True):
        import jax
        import mpmath

        _foreign[0].changes(undo=True)
        np.seterr(**self.np_err)
        np.seterrcall(None)
        np.set_printoptions(**{k: v for k, v in self.np_print.items() if k not in ("override_repr",)})
        warnings.filters[:] = self.filters
        if hasattr(warnings, "_filters_mutated"):
            warnings._filters_mutated()
        warnings.showwarning, warnings.formatwarning = self.show, self.fmt
        if dict(os.environ) != self.env:
            os.environ.clear()
            os.environ.update(self.env)
        os.chdir(self.cwd)
        os.umask(0o22)
        sys.path[:] = self.path
        sys.setrecursionlimit(self.reclimit)
        logging.getLogger().setLevel(self.level)
        logging.disable(0)
        sys.stdout, sys.stderr = self.streams
        sys.excepthook = self.excepthook
        sys.settrace(None)
        for k, (get, put) in SIMPLE.items():
            now, was = get(), self.simple[k]
            if now != was and not (isinstance(was, dict) and all(now.get(n) == x for n, x in was.items())):
                put(self.simple[k])
        for x, h in zip(SIGNALS, self.signals):
            if signal.getsignal(x) != h and h is not None:
                signal.signal(x, h)
        for x in TIMERS:
            if signal.getitimer(x)[0]:
                signal.setitimer(x, 0)
        for x, v in zip(LIMITS, self.limits):
            if resource.getrlimit(x) != v:
                try:
                    resource.setrlimit(x, v)
                except (ValueError, OSError):
                    pass
        if os.sched_getaffinity(0) != self.affinity:
            os.sched_setaffinity(0, self.affinity)
        time.tzset()
        gc.disable()
        gc.set_threshold(*self.gc)
        mpmath.mp.prec, mpmath.mp.pretty, mpmath.mp.trap_complex = self.mp[0], self.mp[1], self.mp[2]
        mpmath.iv.prec = self.mp[3]
        np.random.seed(seed % (2**31))
        random.seed(seed)
        for k, v in self.jaxvals.items():
            try:
                if jax.config._read(k) != v and k != "jax_platforms":
                    jax.config.update(k, v)
            except Exception:
                pass
        if jax.config.jax_enable_x64 != x64:
            jax.config.update("jax_enable_x64", x64)
        mpl = sys.modules.get("matplotlib")
        if mpl is not None and hasattr(mpl, "rcdefaults"):
            if self.rc is not None and dict.copy(mpl.rcParams) != self.rc:
                dict.clear(mpl.rcParams)
                dict.update(mpl.rcParams, self.rc)
            pl = sys.modules.get("matplotlib.pyplot")
            if pl is not None and hasattr(pl, "close"):
                pl.close("all")
