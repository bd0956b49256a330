"""The simulated disk under the library's files: every open and read of the
library's sources and data files, and of the unit definition files of pint,
passes here and may fail or return little."""
import builtins
import errno
import io
import os

from . import env

ERR = {k: getattr(errno, k) for k in ("EIO", "EACCES", "EMFILE", "ENFILE", "ENOMEM", "ENOENT", "EINTR", "ESTALE", "EPERM")}
_real_open = io.open
_real_os_open = os.open
_real_os_read = os.read
PLAN = None  # active Plan


class Plan:
    """faults: [[event number or "*", kind], ...]; kinds: an errno name for failing opens
    and reads, "short" for reads which return a few bytes at a time."""

    def __init__(self, faults, only=("open", "read")):
        self.faults = {}
        self.always = None
        self.where = {}
        for n, kind in faults:
            if n == "*":
                self.always = kind
            else:
                self.faults[int(n)] = kind
        self.n = 0
        self.events = []  # (what, file)
        self.fired = []

    def event(self, what, path):
        self.n += 1
        name = os.path.basename(str(path))
        self.events.append((what, name))
        k = self.faults.get(self.n, self.always)
        if k is None:
            return None
        if k in ERR:
            if what == "stat":
                return None
            self.fired.append((what, name, k))
            raise OSError(ERR[k], f"{os.strerror(ERR[k])} (injected by the simulator)", str(path))
        if what == "read":
            self.fired.append((what, name, k))
        return k


def watched(path):
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, str):
        return False
    p = os.path.abspath(p)
    return p.startswith(env.SRC + os.sep) or (os.sep + "pint" + os.sep in p and p.endswith(".txt"))


class Raw(io.FileIO):
    """A file whose reads pass the plan."""

    def readinto(self, b):
        plan = PLAN
        k = plan.event("read", self.name) if plan else None
        if k == "short" and len(b) > 3:
            data = super().read(max(1, min(len(b) // 3, 57)))
            b[: len(data)] = data
            return len(data)
        return super().readinto(b)

    def read(self, n=-1):
        plan = PLAN
        k = plan.event("read", self.name) if plan else None
        if n is None or n < 0:
            return super().readall() if k != "short" else self.readall()
        return super().read(n if k != "short" else max(1, min(n, 57)))

    def readall(self):
        out = []
        while True:
            plan = PLAN
            k = plan.event("read", self.name) if plan else None
            d = super().read(57 if k == "short" else 65536)
            if not d:
                return b"".join(out)
            out.append(d)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    plan = PLAN
    if plan is None or isinstance(file, int) or not watched(file) or set(mode) & set("wax+"):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    plan.event("open", file)
    raw = Raw(file, "r", opener=opener)
    if buffering == 0:
        return raw
    buf = io.BufferedReader(raw)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


_fds = {}


def sim_os_open(path, flags, *a, **k):
    plan = PLAN
    if plan is not None and not isinstance(path, int) and watched(path) and not flags & (os.O_WRONLY | os.O_RDWR):
        plan.event("open", path)
        fd = _real_os_open(path, flags, *a, **k)
        _fds[fd] = path
        return fd
    return _real_os_open(path, flags, *a, **k)


def sim_os_read(fd, n):
    plan = PLAN
    if plan is not None and fd in _fds:
        k = plan.event("read", _fds[fd])
        if k == "short":
            n = max(1, min(n, 57))
    return _real_os_read(fd, n)


class mounted:
    """With this, the library's files are on the simulated disk."""

    def __init__(self, plan):
        self.plan = plan

    def __enter__(self):
        global PLAN
        PLAN = self.plan
        io.open = builtins.open = sim_open
        os.open, os.read = sim_os_open, sim_os_read
        return self.plan

    def __exit__(self, *a):
        global PLAN
        PLAN = None
        io.open = builtins.open = _real_open
        os.open, os.read = _real_os_open, _real_os_read
        _fds.clear()


def source_read(path):
    """The loader reads a source file of the library: it too is on the disk."""
    if PLAN is None:
        return
    with sim_open(path, "rb") as f:
        f.read()


from . import lib  # noqa: E402

lib.READ_HOOKS.append(source_read)
