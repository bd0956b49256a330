"""Loads the library under test from /repo's working tree, as a fresh instance
each time ("process restart": all module state is new), with every function
instrumented so that the scheduler is called at each line, call and function
start.  Nothing in /repo is changed: the seam is the import system plus
sys.monitoring."""
import ast
import collections
import contextvars
import dis
import importlib.util
import os
import sys
import threading
import types
import weakref
from importlib.machinery import SourceFileLoader

import numpy as np

from . import changed, env

MON = sys.monitoring
TOOL = 4
EV = MON.events

_code_cache = {}  # path -> (mtime_ns,size,code)
ALL_CODES = {}  # code -> path
_code_lines = {}


def _walk(code, path, out):
    out[code] = path
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, path, out)


class SrcError(Exception):
    pass


class Loader(SourceFileLoader):
    def get_code(self, fullname):
        path = self.path
        hit = _code_cache.get(path)
        if hit is None:
            with open(path, "rb") as f:
                src = f.read()
            code = compile(src, path, "exec", dont_inherit=True)
            _code_cache[path] = hit = code
            new = {}
            _walk(code, path, new)
            ALL_CODES.update(new)
            _scan_source(path, src, new)
        return hit

    def exec_module(self, module):
        code = self.get_code(module.__name__)
        for hook in READ_HOOKS:
            hook(self.path)
        for hook in EXEC_HOOKS:
            hook(module, code)
        exec(code, module.__dict__)


EXEC_HOOKS = []
READ_HOOKS = []


class _VersionLoader:
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__version__ = version = "1.0.0"
        module.version = version
        module.__version_tuple__ = module.version_tuple = (1, 0, 0)


class Finder:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] != "jaxoplanet":
            return None
        base = os.path.join(env.SRC, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=Loader(name, init), submodule_search_locations=[base]
            )
        f = base + ".py"
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        if name == "jaxoplanet.jaxoplanet_version":
            return importlib.util.spec_from_loader(name, _VersionLoader())
        if os.path.isdir(base):  # namespace package, as the path finder would give
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "sim")


def all_modules():
    out = []
    for d, dirs, files in os.walk(env.PKG):
        dirs.sort()
        if "__pycache__" in dirs:
            dirs.remove("__pycache__")
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), env.SRC)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                out.append(".".join(rel))
    return out


def purge():
    for n in [n for n in sys.modules if n == "jaxoplanet" or n.startswith("jaxoplanet.")]:
        del sys.modules[n]


class Lib:
    """Attribute access to a fresh instance of the library: L("starry.core.basis")."""

    def __init__(self):
        self._mods = {}

    def __call__(self, name):
        m = self._mods.get(name)
        if m is None:
            full = "jaxoplanet" if not name else "jaxoplanet." + name
            m = self._mods[name] = importlib.import_module(full)
        return m


STD_MODULES = [
    "units",
    "core.kepler",
    "core.limb_dark",
    "object_stack",
    "orbits.keplerian",
    "orbits.transit",
    "orbits.ttv",
    "light_curves.limb_dark",
    "light_curves.transforms",
    "light_curves.emission",
    "starry.core.basis",
    "starry.core.polynomials",
    "starry.core.rotation",
    "starry.core.s2fft_rotation",
    "starry.core.solution",
    "starry.core.wigner3j",
    "starry.ylm",
    "starry.surface",
    "starry.orbit",
    "starry.light_curves",
    "starry.doppler",
    "starry.utils",
    "starry.visualization",
]
MP_MODULES = [
    "starry.multiprecision.basis",
    "starry.multiprecision.flux",
    "starry.multiprecision.precision",
    "starry.multiprecision.rotation",
    "starry.multiprecision.solution",
    "starry.multiprecision.utils",
]


def fresh(preload=True, mp=True, order=None):
    purge()
    L = Lib()
    if preload:
        mods = list(STD_MODULES) + (MP_MODULES if mp else [])
        if order is not None:
            order.shuffle(mods)
        for m in mods:
            L(m)
    return L


# ---------------------------------------------------------------- source facts
CLEANUP = {}  # path -> set of line numbers inside finally/except bodies, __exit__


def _scan_source(path, src, codes):
    lines = set()
    try:
        tree = ast.parse(src)
    except SyntaxError:
        CLEANUP[path] = lines
        return

    def add(nodes):
        for n in nodes:
            for k in range(n.lineno, (n.end_lineno or n.lineno) + 1):
                lines.add(k)

    for n in ast.walk(tree):
        if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            add(n.finalbody)
            for h in n.handlers:
                add(h.body)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__del__", "release", "close"):
            add([n])
    CLEANUP[path] = lines


_with_exit = {}


def with_exit_offsets(code):
    """Offsets of the implicit __exit__(None, None, None) calls of `with`."""
    r = _with_exit.get(code)
    if r is None:
        r = set()
        ins = [i for i in dis.get_instructions(code) if i.opname not in ("CACHE", "NOP", "EXTENDED_ARG")]
        for k, i in enumerate(ins):
            if i.opname == "CALL" and i.arg == 2 and k >= 3:
                p = ins[k - 3 : k]
                if all(q.opname in ("LOAD_CONST", "RETURN_CONST") and q.argval is None for q in p):
                    r.add(i.offset)
        _with_exit[code] = r
    return r


_op_lines = {}
_OPS = ("BINARY_", "COMPARE_OP", "CONTAINS_OP", "UNARY_", "STORE_SUBSCR", "STORE_SLICE", "DELETE_SUBSCR", "FOR_ITER", "BUILD_MAP", "BUILD_LIST", "BUILD_STRING", "LIST_EXTEND", "DICT_UPDATE")


def op_lines(code):
    """Lines on which an operator runs code or allocates, and no call is made."""
    r = _op_lines.get(code)
    if r is None:
        ops, calls = set(), set()
        line = None
        for i in dis.get_instructions(code):
            if i.starts_line is not None:
                line = i.starts_line
            if i.opname.startswith(_OPS):
                ops.add(line)
            elif i.opname.startswith("CALL"):
                calls.add(line)
        r = _op_lines[code] = frozenset(ops - calls)
    return r


# ------------------------------------------------------------------ hot lines
AMBIENT_NAMES = {
    "config", "environ", "seterr", "workdps", "workprec", "extradps", "extraprec", "dps", "prec",
    "simplefilter", "filterwarnings", "catch_warnings", "rcParams", "rc_context", "setattr", "chdir", "gca", "gcf", "sca",
    "errstate", "enable_x64", "disable_x64", "set_printoptions", "seed", "set_state", "setrecursionlimit", "umask",
    "putenv", "setdefault", "globals", "__dict__", "cache_clear", "set_default", "update", "getcwd", "load_definitions",
    "enable_contexts", "default_format", "setlocale", "getcontext",
}  # fmt: skip


def _is_state(v):
    if isinstance(v, (dict, list, set, collections.deque, bytearray, np.ndarray, np.random.Generator, np.random.RandomState)):
        return True
    if isinstance(v, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary, weakref.WeakSet)):
        return True
    if isinstance(v, (threading.local, contextvars.ContextVar)) or type(v).__name__ in ("SimLock", "lock", "RLock"):
        return True
    if hasattr(v, "cache_info"):
        return True
    if isinstance(v, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        if isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("jaxoplanet"):
            return any(k not in ("__wrapped__", "__signature__") for k in v.__dict__)
        return False
    t = type(v)
    if t.__module__ and t.__module__.startswith("jaxoplanet"):
        if hasattr(t, "__dataclass_fields__"):
            return False
        return hasattr(v, "__dict__")
    return t.__module__ in ("itertools", "_collections", "_random", "random", "io", "_io", "queue", "_queue")


def hot_lines():
    """For each instrumented code object, the lines which touch state that outlives
    the call: mutable module globals, closure cells and defaults, class attributes,
    ambient process settings, attribute and item stores."""
    out = {}
    closures = {}
    # the closure cells and defaults of live functions
    for name, mod in list(sys.modules.items()):
        if not (name == "jaxoplanet" or name.startswith("jaxoplanet.")):
            continue
        seen = set()

        def visit(obj, depth=0):
            if id(obj) in seen or depth > 3:
                return
            seen.add(id(obj))
            f = obj
            if isinstance(f, (classmethod, staticmethod)):
                f = f.__func__
            if isinstance(f, property):
                for g in (f.fget, f.fset):
                    if g:
                        visit(g, depth + 1)
                return
            w = getattr(f, "__wrapped__", None)
            if w is not None and not isinstance(f, type):
                visit(w, depth + 1)
            if isinstance(f, types.FunctionType):
                names = set()
                if f.__closure__:
                    for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                        try:
                            v = cell.cell_contents
                        except ValueError:
                            continue
                        if _is_state(v):
                            names.add(nm)
                        if isinstance(v, types.FunctionType):
                            visit(v, depth + 1)
                dflt = set()
                if f.__defaults__:
                    args = f.__code__.co_varnames[: f.__code__.co_argcount]
                    for nm, v in zip(args[-len(f.__defaults__) :], f.__defaults__):
                        if _is_state(v):
                            dflt.add(nm)
                for nm, v in (f.__kwdefaults__ or {}).items():
                    if _is_state(v):
                        dflt.add(nm)
                closures.setdefault(f.__code__, set()).update(names | dflt)
            elif isinstance(f, type) and (f.__module__ or "").startswith("jaxoplanet"):
                for v in list(vars(f).values()):
                    visit(v, depth + 1)

        for v in list(vars(mod).values()):
            visit(v)
    mods = {}
    for name, mod in list(sys.modules.items()):
        if (name == "jaxoplanet" or name.startswith("jaxoplanet.")) and getattr(mod, "__file__", None):
            mods[mod.__file__] = mod
    # local names bound to such state ("cache = CACHE"), also as arguments elsewhere
    local_state = {}
    named = set()
    for code, path in ALL_CODES.items():
        mod = mods.get(path)
        if mod is None or code.co_name == "<module>":
            continue
        g = vars(mod)
        prev = None
        for i in dis.get_instructions(code):
            if i.opname == "STORE_FAST" and prev is not None:
                if prev.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                    v = g.get(prev.argval)
                    if v is not None and _is_state(v):
                        local_state.setdefault(code, set()).add(i.argval)
                elif prev.opname in ("LOAD_DEREF", "LOAD_FAST") and prev.argval in closures.get(code, ()):
                    local_state.setdefault(code, set()).add(i.argval)
            prev = i
        named |= local_state.get(code, set())
    named |= set().union(*closures.values()) if closures else set()
    named = {n for n in named if len(n) > 3 and n not in ("self", "theta", "args", "kwargs", "name", "data", "impl", "func")}
    attrs = _shared_attrs(mods)
    new = {os.path.join(env.SRC, p): n for p, n in changed.lines().items()}
    for code, path in ALL_CODES.items():
        mod = mods.get(path)
        if mod is None or code.co_name == "<module>":
            continue
        g = vars(mod)
        hot = set()
        entered = False
        cell_state = closures.get(code, set()) | local_state.get(code, set())
        cell_state |= named & (set(code.co_varnames[: code.co_argcount + code.co_kwonlyargcount]) | set(code.co_freevars))
        line = code.co_firstlineno
        prev = None
        for i in dis.get_instructions(code):
            if i.starts_line is not None:
                if entered and i.starts_line != line:
                    # inside a with block: what it changed or holds is in force
                    hot.add(i.starts_line)
                    entered = False
                line = i.starts_line
            op = i.opname
            if op == "BEFORE_WITH":
                entered = True
            if op in ("LOAD_GLOBAL", "LOAD_NAME"):
                v = g.get(i.argval)
                if v is not None and _is_state(v):
                    hot.add(line)
                elif i.argval in AMBIENT_NAMES:
                    hot.add(line)
            elif op in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                hot.add(line)
            elif op in ("LOAD_DEREF", "LOAD_FAST", "STORE_FAST", "LOAD_CLASSDEREF") and i.argval in cell_state:
                hot.add(line)
            elif op in ("STORE_DEREF",) and i.argval in code.co_freevars:
                hot.add(line)
            elif op in ("LOAD_ATTR", "LOAD_METHOD", "STORE_ATTR"):
                if i.argval in AMBIENT_NAMES:
                    hot.add(line)
                elif op == "STORE_ATTR" and not (
                    prev is not None and prev.opname == "LOAD_FAST" and prev.argval == "self" and code.co_name == "__init__"
                ):
                    hot.add(line)
                elif prev is not None and prev.opname == "LOAD_GLOBAL":
                    # an attribute of a module, class or function of the library that is mutable state
                    o = g.get(prev.argval)
                    if isinstance(o, (type, types.ModuleType, types.FunctionType)):
                        m = getattr(o, "__module__", None) or getattr(o, "__name__", "")
                        if str(m).startswith("jaxoplanet"):
                            try:
                                if _is_state(getattr(o, i.argval)):
                                    hot.add(line)
                            except Exception:
                                pass
                elif prev is not None and prev.opname in ("LOAD_FAST", "LOAD_DEREF") and prev.argval in ("cls", "self"):
                    if op == "LOAD_ATTR" and (i.argval in attrs.get(path, ()) or _class_state(g, i.argval)):
                        hot.add(line)
            if op not in ("CACHE", "NOP", "PUSH_NULL", "COPY_FREE_VARS", "RESUME"):
                prev = i
        if path in new:
            hot |= new[path] & {n for _, _, n in code.co_lines() if n}
        if hot:
            out[code] = frozenset(hot)
    return out


def _shared_attrs(mods):
    """Per module: attributes of instances which are assigned from shared state."""
    out = {}
    for code, path in ALL_CODES.items():
        mod = mods.get(path)
        if mod is None or code.co_name == "<module>":
            continue
        g = vars(mod)
        src = False
        prev = None
        for i in dis.get_instructions(code):
            if i.opname == "LOAD_GLOBAL":
                v = g.get(i.argval)
                src = src or (v is not None and _is_state(v))
            elif i.opname in ("LOAD_ATTR", "LOAD_METHOD") and prev is not None and prev.argval in ("self", "cls"):
                src = src or _class_state(g, i.argval)
            elif i.opname == "STORE_ATTR":
                if src and prev is not None and prev.argval == "self":
                    out.setdefault(path, set()).add(i.argval)
                src = False
            elif i.opname.startswith(("STORE_", "POP_TOP", "RETURN")):
                src = False
            if i.opname not in ("CACHE", "NOP", "PUSH_NULL"):
                prev = i
    return out


def _class_state(g, attr):
    for v in g.values():
        if isinstance(v, type) and (v.__module__ or "").startswith("jaxoplanet"):
            a = vars(v).get(attr)
            if a is not None and _is_state(a):
                return True
    return False


# ---------------------------------------------------------------- enable events
_enabled = {}


def set_events(mask, modules=False):
    for code in ALL_CODES:
        if code.co_name == "<module>" and not modules:
            if _enabled.get(code):
                MON.set_local_events(TOOL, code, 0)
                _enabled[code] = 0
            continue
        if _enabled.get(code) != mask:
            MON.set_local_events(TOOL, code, mask)
            _enabled[code] = mask
