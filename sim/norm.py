"""Turns whatever a public call returned into a plain, picklable value, and
compares two of those."""
import math
import re

import numpy as np

_ADDR = re.compile(r"0x[0-9a-fA-F]+")
MPDIG = 80


def _arr(a, tag):
    return (tag, str(a.dtype), tuple(a.shape), np.array(a, copy=True))


def norm(x, depth=0):
    if depth > 12:
        return ("DEEP", type(x).__name__)
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, float):
        if isinstance(x, np.floating):
            return ("np", str(x.dtype), (), np.array(x))
        return ("float", x)
    if isinstance(x, complex) and not isinstance(x, np.generic):
        return ("complex", x)
    if hasattr(x, "_magnitude") and hasattr(x, "_units"):
        return ("Q", str(x.units), norm(x.magnitude, depth + 1))
    if isinstance(x, BaseException):
        # the message is kept for the report only: it may legitimately name
        # addresses or depend on rounding
        return ("EXC", type(x).__name__, _ADDR.sub("0x", str(x))[:200])
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarr", tuple(x.shape), [norm(v, depth + 1) for v in x.ravel().tolist()])
        return _arr(x, "np")
    if isinstance(x, np.generic):
        return ("np", str(x.dtype), (), np.array(x))
    import jax

    if isinstance(x, jax.core.Tracer):
        return ("TRACER", type(x).__name__)
    if isinstance(x, jax.Array):
        return _arr(np.asarray(x), "jax")
    import scipy.sparse as sp

    if sp.issparse(x):
        return ("sp", x.format) + _arr(x.toarray(), "np")[1:]
    from jax.experimental.sparse import BCOO

    if isinstance(x, BCOO):
        return ("bcoo", norm(x.todense(), depth + 1))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__ if type(x) in (list, tuple) else "tuple", [norm(v, depth + 1) for v in x])
    if isinstance(x, dict):
        return ("dict", [(repr(k), norm(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(repr(k) for k in x))
    import mpmath

    if isinstance(x, mpmath.matrix):
        return ("mpm", (x.rows, x.cols), [_mp(x[i, j]) for i in range(x.rows) for j in range(x.cols)])
    if isinstance(x, (mpmath.mpf, mpmath.mpc)) or type(x).__module__.startswith("mpmath"):
        return ("mp", _mp(x))
    import dataclasses

    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        out = []
        for f in dataclasses.fields(x):
            out.append((f.name, norm(getattr(x, f.name, "<unset>"), depth + 1)))
        return ("obj", type(x).__name__, out)
    if callable(x):
        return ("fn", getattr(x, "__name__", type(x).__name__))
    return ("repr", type(x).__name__, _ADDR.sub("0x", repr(x))[:300])


def _mp(v):
    """An mpmath number, exactly (mantissa/exponent), whatever the precision now."""
    if isinstance(v, (int, float)):
        return ("py", repr(v))
    if hasattr(v, "_mpf_"):
        s, m, e, b = v._mpf_
        return ("mpf", int(s), int(m), int(e), int(b))
    if hasattr(v, "_mpc_"):
        a, b = v._mpc_
        return ("mpc", tuple(int(i) for i in a), tuple(int(i) for i in b))
    return ("other", _ADDR.sub("0x", repr(v)))


def _mpval(t):
    from fractions import Fraction

    def one(s, m, e, b):
        if m == 0 and e != 0:
            return None
        f = Fraction(m) * (Fraction(2) ** e)
        return -f if s else f

    if t[0] == "py":
        return (Fraction(float(t[1])) if "inf" not in t[1] and "nan" not in t[1] else None, Fraction(0))
    if t[0] == "mpf":
        return (one(*t[1:]), Fraction(0))
    if t[0] == "mpc":
        return (one(*t[1]), one(*t[2]))
    return None


FLOOR = {"float64": 1e-15, "complex128": 1e-15, "float32": 1e-9, "complex64": 1e-9}
LFLOOR = {"float64": 1e-12, "complex128": 1e-12, "float32": 1e-5, "complex64": 1e-5}
RT = {"float64": 1e-11, "complex128": 1e-11, "float32": 2e-6, "complex64": 2e-6, "float16": 1e-2, "bfloat16": 1e-2}


LOOSE = False


def compare_loose(a, b, mprel=None):
    """compare() for a run with uncompiled calls against compiled ones: sums which
    cancel come out as rounding noise of another size."""
    global LOOSE
    LOOSE = True
    try:
        return compare(a, b, mprel)
    finally:
        LOOSE = False


def compare(a, b, mprel=None):
    """None if equal, else a short text saying what differs (a: got, b: expected)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return _cmp_arr(np.asarray(a), np.asarray(b))
    if type(a) is not type(b):
        return f"got {short(a)}, expected {short(b)}"
    if isinstance(a, (tuple, list)):
        if a and isinstance(a, tuple) and a[0] == "EXC" and b and b[0] == "EXC":
            return None if a[1] == b[1] else f"raised {a[1]} ({a[2]}), expected {b[1]} ({b[2]})"
        if a and isinstance(a, tuple) and a[0] in ("mp", "mpm") and b and b[0] == a[0]:
            return _cmp_mp(a, b, mprel)
        if len(a) != len(b):
            return f"got {short(a)}, expected {short(b)}"
        for x, y in zip(a, b):
            d = compare(x, y, mprel)
            if d:
                return d
        return None
    if isinstance(a, (float, complex)):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= 1e-11 * max(abs(a), abs(b)) or LOOSE and abs(a - b) <= 1e-12:
            return None
        return f"got {a!r}, expected {b!r}"
    return None if a == b else f"got {short(a)}, expected {short(b)}"


def _cmp_arr(a, b):
    if a.dtype != b.dtype or a.shape != b.shape:
        return f"got {a.dtype}{a.shape}, expected {b.dtype}{b.shape}"
    if a.dtype.kind not in "fc" and str(a.dtype) != "bfloat16":
        return None if np.array_equal(a, b) else f"got {short(a)}, expected {short(b)}"
    rt = RT.get(str(a.dtype), 1e-6)
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return f"nan pattern differs: got {short(a)}, expected {short(b)}"
    ia, ib = np.isinf(a), np.isinf(b)
    if not np.array_equal(ia, ib) or not np.array_equal(a[ia], b[ib]):
        return f"inf pattern differs: got {short(a)}, expected {short(b)}"
    ok = ~(na | ia)
    x, y = a[ok], b[ok]
    if x.size == 0:
        return None
    scale = float(np.max(np.abs(y)))
    d = float(np.max(np.abs(x - y)))
    if d <= rt * scale + (LFLOOR if LOOSE else FLOOR).get(str(a.dtype), 1e-15):
        return None
    return f"max difference {d:.3g} (scale {scale:.3g}): got {short(a)}, expected {short(b)}"


def _cmp_mp(a, b, mprel):
    from fractions import Fraction

    rel = Fraction(10) ** (-int(mprel)) if mprel else None
    if a[0] == "mp":
        la, lb = [a[1]], [b[1]]
    else:
        if a[1] != b[1]:
            return f"matrix shape {a[1]}, expected {b[1]}"
        la, lb = a[2], b[2]
    if la == lb:
        return None
    va, vb = [_mpval(t) for t in la], [_mpval(t) for t in lb]
    scale = max([max(abs(p or 0) for p in v) for v in vb if v] + [Fraction(0)])
    worst = None
    for i, (p, q) in enumerate(zip(va, vb)):
        if p is None or q is None or None in p or None in q:
            if la[i] != lb[i]:
                return f"entry {i}: got {la[i]}, expected {lb[i]}"
            continue
        d = max(abs(p[0] - q[0]), abs(p[1] - q[1]))
        if rel is None:
            rel = Fraction(10) ** -24
        if d > rel * scale and (worst is None or d > worst[0]):
            worst = (d, i)
    if worst is None:
        return None
    return (
        f"multiprecision entry {worst[1]} off by {float(worst[0]):.3g} (scale {float(scale):.3g},"
        f" allowed relative error {float(rel):.3g})"
    )


def short(x, n=160):
    if isinstance(x, np.ndarray):
        s = np.array2string(x.ravel()[:6], precision=10, separator=",") + ("..." if x.size > 6 else "")
        s = f"{x.dtype}{x.shape}{s}"
    else:
        s = repr(x)
    s = s.replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def same(a, b):
    """Exact equality, for before/after snapshots of one object."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)
