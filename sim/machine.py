"""What library code can learn about the machine and the user it runs under:
environment variables nobody set here, the number of processors, process id,
host and user name, files in the user's directories.  Machine 0 is the real one; on any other machine library code
(and only library code) sees other answers, drawn from the machine's number.
Variables that are set keep their values; so do JAX, NumPy and matplotlib."""
import builtins
import genericpath
import getpass
import hashlib
import io
import os
import pathlib
import platform
import posixpath
import socket
import sys
import uuid

from . import env

number = 0
asked = []

_SKIP = ("<frozen", os.__file__, getpass.__file__, platform.__file__, socket.__file__, uuid.__file__, genericpath.__file__, posixpath.__file__, pathlib.__file__, __file__)


def _library():
    """True if the innermost caller outside the standard modules is library code."""
    f = sys._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if n.startswith(env.PKG):
            return True
        if not n.startswith(_SKIP):
            return False
        f = f.f_back
    return False


def _draw(what, choices):
    asked.append(what)
    h = hashlib.sha1(f"{number}/{what}".encode()).digest()
    return choices[h[0] % len(choices)]


_getitem = os._Environ.__getitem__


def _lookup(self, key):
    try:
        return _getitem(self, key)
    except KeyError:
        if number and isinstance(key, (str, bytes)) and _library():
            k = key if isinstance(key, str) else key.decode("utf-8", "replace")
            v = _draw("environment " + k, ["1", "0", "3", "7", "2"])
            return v if isinstance(key, str) else v.encode()
        raise


def _stand_in(module, name, choices):
    real = getattr(module, name, None)
    if real is None:
        return

    def answer(*a, **k):
        if number and _library():
            return _draw(name, choices)
        return real(*a, **k)

    answer.__name__ = name
    answer.__module__ = module.__name__
    setattr(module, name, answer)


# ------------------------------------------------- files in the user's directories
_CONTENT = {
    ".txt": "# local definitions\nR_sun = 7.0e8 m = solar_radius\nday = 86000 s\n",
    ".json": '{"order": 3, "num_samples": 3, "x64": false}\n',
    ".toml": "order = 3\nnum_samples = 3\n",
    ".ini": "[jaxoplanet]\norder = 3\nnum_samples = 3\n",
    ".cfg": "[jaxoplanet]\norder = 3\nnum_samples = 3\n",
    ".yaml": "order: 3\nnum_samples: 3\n",
    "": "3\n",
}


def _theirs(path):
    """The path of a stand-in for a file that does not exist here but may exist in the
    working, home or temporary directory (or /etc) of another machine."""
    if not number % 2 or isinstance(path, int):
        return None
    try:
        p = os.path.abspath(os.fsdecode(os.fspath(path)))
    except (TypeError, OSError):
        return None
    dirs = [os.getcwd(), os.environ.get("HOME"), os.environ.get("TMPDIR"), "/etc"]
    if not any(d and p.startswith(d.rstrip("/") + "/") for d in dirs) or p.startswith((env.SRC + "/", os.path.dirname(os.__file__) + "/")):
        return None
    if not _library():
        return None
    ext = os.path.splitext(p)[1].lower()
    ext = ext if ext in _CONTENT else ""
    f = os.path.join(os.environ["SIM_SCRATCH"], "theirs" + (ext or ".dat"))
    if not _exists(f):
        with _open(f + f".{_pid()}", "w") as h:
            h.write(_CONTENT[ext])
        os.replace(f + f".{_pid()}", f)
    asked.append("file " + os.path.basename(p))
    return f


_open = io.open
_stat = os.stat
_pid = os.getpid


def _exists(p):
    try:
        _stat(p)
        return True
    except OSError:
        return False


def _open_there(file, mode="r", *a, **k):
    try:
        return _open(file, mode, *a, **k)
    except FileNotFoundError:
        f = _theirs(file) if number and not set(mode) & set("wax+") else None
        if f is None:
            raise
        return _open(f, mode, *a, **k)


def _stat_there(path, *a, **k):
    try:
        return _stat(path, *a, **k)
    except FileNotFoundError:
        f = _theirs(path) if number else None
        if f is None:
            raise
        return _stat(f, *a, **k)


def install():
    from . import disk

    disk._real_open = io.open = builtins.open = _open_there
    os.stat = _stat_there
    os._Environ.__getitem__ = _lookup
    _stand_in(os, "cpu_count", [1, 2, 3, 64])
    _stand_in(os, "process_cpu_count", [1, 2, 3, 64])
    _stand_in(os, "getpid", [77, 4242, 31337])
    _stand_in(os, "getppid", [1, 78, 4243])
    _stand_in(os, "getlogin", ["ann", "bob"])
    _stand_in(os, "getloadavg", [(0.0, 0.1, 0.2), (7.5, 3.0, 1.0)])
    _stand_in(socket, "gethostname", ["alpha", "beta.example.org"])
    _stand_in(platform, "node", ["alpha", "beta.example.org"])
    _stand_in(getpass, "getuser", ["ann", "bob"])
    _stand_in(uuid, "getnode", [0x112233445566, 0xA1B2C3D4E5F6])


def use(n):
    global number
    number = n
    del asked[:]
