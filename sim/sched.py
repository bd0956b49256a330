"""The simulator: caller threads run one at a time; at every line, call and
function start of library code the seeded scheduler decides who runs next and
whether the call made there fails."""
import _thread
import sys
import threading
import time
import weakref

from . import env, lib

EV = lib.EV
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_real_thread_rlock = _thread.RLock
_current = None  # the running Simulation
_by_ident = {}

# Beneath these frames JAX holds C++ cache entries other threads would block on,
# so tracing under them is one atomic step of the schedule.
DENY_FILES = ("jax/_src/pjit.py", "jax/_src/interpreters/partial_eval.py")
DENY_EXACT = {}


def _deny_file(fn):
    r = DENY_EXACT.get(fn)
    if r is None:
        r = DENY_EXACT[fn] = fn.endswith(DENY_FILES) or fn.startswith("<frozen importlib")
    return r


class Wedge(RuntimeError):
    """The harness lost control of a thread (harness error, never a verdict)."""


class SimDeadlock(BaseException):
    pass


class Abandon(BaseException):
    pass


class SimThread:
    def __init__(self, idx, body):
        self.idx = idx
        self.body = body
        self.go = _real_lock()
        self.go.acquire()
        self.done = False
        self.blocked = None
        self.op = -1
        self.n = 0  # events in the current op
        self.c = 0  # call points in the current op
        self.pending = None  # a switch that waits for the next allowed point
        self.fault = None  # (c, exc name) for the current op
        self.fired = None
        self.solo = False  # no preemption until the op ends
        self.error = None
        self.hotdepth = 0


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "OSError": OSError,
    "SystemExit": SystemExit,
    "TimeoutError": TimeoutError,  # a user's alarm signal
    "RecursionError": RecursionError,
}


class Policy:
    """Decides preemptions. `rng` drives it, or a recorded list replays it."""

    def __init__(self, rng=None, kind="none", p=0.0, p_hot=0.0, p_op=0.5, solo=0.6, maxsw=60, record=None, aim=None):
        self.rng, self.kind, self.p, self.p_hot, self.p_op, self.solo, self.maxsw = rng, kind, p, p_hot, p_op, solo, maxsw
        self.replay = None if record is None else {(t, o, n): (to, solo) for t, o, n, to, solo in record}
        self.sw = 0
        self.aim = aim or {}

    def want(self, th, hot):
        if self.replay is not None:
            return (th.idx, th.op, th.n) in self.replay
        if self.kind == "none" or self.sw >= self.maxsw:
            return False
        a = self.aim.get((th.idx, th.op))
        if a is not None and th.n in a:
            return True
        p = self.p_hot if hot else self.p
        return p > 0 and self.rng.random() < p

    def pick(self, sim, th, others):
        """The thread to run instead of th, and whether it runs its op without preemption."""
        if self.replay is not None:
            to, solo = self.replay.get((th.idx, th.op, th.n), (None, False))
            for t in others:
                if t.idx == to:
                    return t, bool(solo)
            return None, False
        return self.rng.choice(others), self.rng.random() < self.solo


class Simulation:
    def __init__(self, policy, hot, instr=False, step_limit=400000, watchdog=150.0, hard_limit=8_000_000):
        self.policy = policy
        self.hot = hot  # code -> hot lines
        self.instr = instr
        self.threads = []
        self.ctl = _real_lock()
        self.ctl.acquire()
        self.steps = 0
        self.h = 0x811C9DC5
        self.swh = 0x811C9DC5
        self.switches = []  # recorded preemptions (t, op, n, to, solo)
        self.starts = []  # who ran first / after a thread ended
        self.start_replay = None
        self.step_limit = step_limit
        self.hard_limit = hard_limit  # no run of this size needs more: liveness bound
        self.watchdog = watchdog
        self.deadlock = None
        self.denied = 0
        self.hotsw = 0
        self.profile = None  # set to a dict to record call points per op
        self.last_hot = {}
        self.next_hint = None
        self.abandon = False
        self.livelock = None  # (thread, op) when the step bound was exceeded
        self.modlines = False  # also stop at the lines of modules being imported

    # ---- controller
    def add(self, body):
        t = SimThread(len(self.threads), body)
        self.threads.append(t)
        return t

    def run(self):
        global _current
        assert _current is None
        mask = EV.LINE | EV.PY_START | EV.CALL
        if self.instr:
            mask |= EV.INSTRUCTION
        lib.set_events(mask, self.modlines)
        _current = self
        real = []
        try:
            for t in self.threads:
                th = threading.Thread(target=self._main, args=(t,), daemon=True)
                th._sim = True
                real.append(th)
                th.start()
            k = 0
            while True:
                live = [t for t in self.threads if not t.done]
                if not live:
                    break
                run = [t for t in live if t.blocked is None or not t.blocked.held_by_other(t)]
                if not run:
                    self.deadlock = [(t.idx, t.op, t.blocked.where) for t in live]
                    self.abandon = True
                    run = live
                nxt = None
                if self.next_hint is not None and self.next_hint in run:
                    nxt = self.next_hint
                elif self.start_replay is not None and k < len(self.start_replay):
                    for t in run:
                        if t.idx == self.start_replay[k]:
                            nxt = t
                if nxt is None:
                    nxt = run[0] if self.policy.rng is None or self.policy.replay is not None else self.policy.rng.choice(run)
                if self.next_hint is None:
                    self.starts.append(nxt.idx)
                    k += 1
                self.next_hint = None
                nxt.blocked = None
                nxt.go.release()
                if not self.ctl.acquire(timeout=self.watchdog):
                    raise Wedge(f"thread {nxt.idx} did not come back (op {nxt.op}, event {nxt.n})")
            for th in real:
                th.join(20)
        finally:
            _current = None

    def _main(self, t):
        t.go.acquire()
        _by_ident[_thread.get_ident()] = t
        try:
            t.body(t)
        except Abandon:
            pass
        except BaseException as e:  # harness error
            t.error = e
        finally:
            _by_ident.pop(_thread.get_ident(), None)
            t.done = True
            self.ctl.release()

    def yield_to(self, t, nxt):
        """Called on thread t: give control back; returns when t runs again."""
        self.next_hint = nxt
        self.ctl.release()
        t.go.acquire()
        if self.abandon:
            raise Abandon()

    # ---- ops
    def begin_op(self, t, k, fault=None):
        t.op, t.n, t.c, t.pending, t.fired, t.solo = k, 0, 0, None, None, False
        t.fault = fault

    def end_op(self, t):
        t.fault = None
        t.pending = None
        t.solo = False
        t.n += 1
        others = [o for o in self.threads if o is not t and not o.done and o.blocked is None]
        p = self.policy
        if not others:
            return
        if p.replay is not None:
            want = (t.idx, t.op, -1) in p.replay
        else:
            want = p.kind != "none" and p.rng.random() < p.p_op
        if want:
            t.n = -1
            nxt, solo = p.pick(self, t, others)
            if nxt is not None:
                self.switches.append((t.idx, t.op, -1, nxt.idx, int(solo)))
                nxt.solo = solo
                self.yield_to(t, nxt)

    # ---- events, called from monitoring callbacks on sim threads
    def point(self, t, code, where, kind, line=None):
        t.n += 1
        self.steps += 1
        if self.steps > self.hard_limit:
            self.abandon = True
            self.livelock = (t.idx, t.op, f"{code.co_filename.rsplit('/', 1)[-1]}:{code.co_name}")
        if self.abandon:
            raise Abandon()
        hl = self.hot.get(code)
        if kind == 1:
            hot = hl is not None and where in hl
            self.h = ((self.h ^ (where * 31 + t.idx)) * 0x01000193) & 0xFFFFFFFF
            t.hotline = hot
            if self.profile is not None:
                self.profile.setdefault("lines", set()).add((code.co_filename, where))
                if hot:
                    self.profile.setdefault("hot_l", set()).add((code.co_filename, where))
        else:
            hot = hl is not None and kind == 3 and getattr(t, "hotline", False)
        if kind >= 2 or where in lib.op_lines(code):
            if kind < 4:
                t.c += 1
                pr = self.profile
                if pr is not None:
                    if hl is not None:
                        pr.setdefault("hot_c", []).append(t.c)
                    pr["c"] = t.c
                f = t.fault
                if f is not None and t.c >= f[0]:
                    if not self._in_cleanup(code, where, kind):
                        t.fault = None
                        t.fired = (t.c, f[1], code.co_name)
                        raise EXC[f[1]]("injected by the simulator")
        if self.profile is not None:
            self.profile["n"] = t.n
            if hot and len(self.profile.setdefault("hot_n", [])) < 4000:
                self.profile["hot_n"].append(t.n)
        if len(self.threads) == 1:
            return
        if self.steps > self.step_limit:
            return
        if t.solo and t.pending is None:
            return
        w = t.pending is not None or self.policy.want(t, hot)
        if not w:
            return
        others = [o for o in self.threads if o is not t and not o.done and (o.blocked is None or not o.blocked.held_by_other(o))]
        if not others:
            t.pending = None
            return
        if self._denied():
            self.denied += 1
            if self.policy.replay is None:
                t.pending = True
            return
        t.pending = None
        nxt, solo = self.policy.pick(self, t, others)
        if nxt is None:
            return
        self.policy.sw += 1
        if hot:
            self.hotsw += 1
        self.swh = ((self.swh ^ (hash((t.idx, nxt.idx)) + where * 131 + code.co_firstlineno * 7)) * 0x01000193) & 0xFFFFFFFF
        self.switches.append((t.idx, t.op, t.n, nxt.idx, int(solo)))
        if not nxt.solo:
            nxt.solo = solo
        self.yield_to(t, nxt)

    def _denied(self):
        f = sys._getframe(3)
        while f is not None:
            if _deny_file(f.f_code.co_filename):
                return True
            f = f.f_back
        return False

    def _in_cleanup(self, code, where, kind):
        if kind == 3 and where in lib.with_exit_offsets(code):
            return True
        f = sys._getframe(3)
        while f is not None:
            ls = lib.CLEANUP.get(f.f_code.co_filename)
            if ls and f.f_lineno in ls:
                return True
            fn = f.f_code.co_filename
            if fn.startswith("<frozen importlib"):
                return False
            f = f.f_back
        return False

    def block_on(self, t, lock):
        t.blocked = lock
        self.ctl_block(t)

    def ctl_block(self, t):
        self.next_hint = None
        self.ctl.release()
        t.go.acquire()
        if self.abandon:
            raise Abandon()


def current_thread():
    return _by_ident.get(_thread.get_ident())


def _on_line(code, line):
    s = _current
    if s is None:
        return
    t = _by_ident.get(_thread.get_ident())
    if t is not None:
        s.point(t, code, line, 1)


def _on_start(code, off):
    s = _current
    if s is None:
        return
    t = _by_ident.get(_thread.get_ident())
    if t is not None:
        s.point(t, code, off, 2)


def _on_call(code, off, fn, arg0):
    s = _current
    if s is None:
        return
    t = _by_ident.get(_thread.get_ident())
    if t is not None:
        s.point(t, code, off, 3)


def _on_instr(code, off):
    s = _current
    if s is None:
        return
    t = _by_ident.get(_thread.get_ident())
    if t is not None:
        s.point(t, code, off, 4)


def install():
    lib.install()
    m = lib.MON
    m.register_callback(lib.TOOL, EV.LINE, _on_line)
    m.register_callback(lib.TOOL, EV.PY_START, _on_start)
    m.register_callback(lib.TOOL, EV.CALL, _on_call)
    m.register_callback(lib.TOOL, EV.INSTRUCTION, _on_instr)
    _patch_threading()
    _patch_time()
    if _inject_id not in lib.EXEC_HOOKS:
        lib.EXEC_HOOKS.append(_inject_id)


# ------------------------------------------------------------------- sim locks


def _from_library(depth=2):
    f = sys._getframe(depth)
    for _ in range(6):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(env.PKG):
            return True
        if not f.f_code.co_filename.endswith(("threading.py", "queue.py", "functools.py")):
            return False
        f = f.f_back
    return False


LOCKS = weakref.WeakSet()  # the locks of the current instance of the library


def held():
    """Locks callers of an ended simulation still hold."""
    return [k for k in list(LOCKS) if isinstance(k.owner, SimThread)]


class SimLock:
    """A lock of the library: blocking on it is a scheduling decision."""

    def __init__(self, reentrant=False):
        LOCKS.add(self)
        self.owner = None
        self.count = 0
        self.reentrant = reentrant
        self.where = "lock"

    def _me(self):
        return current_thread() or "main"

    def held_by_other(self, t):
        return self.owner is not None and not (self.reentrant and self.owner is t)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self.owner is None or (self.reentrant and self.owner is me):
                self.owner = me
                self.count += 1
                return True
            if not blocking or me == "main":
                if me == "main" and blocking and timeout < 0:
                    raise SimDeadlock("main thread blocked on a library lock")
                return False
            if timeout is not None and timeout >= 0:
                # a timed wait: let the others run once, then time out
                _clock.advance(timeout)
                if self.owner is None:
                    continue
                return False
            f = sys._getframe(1)
            self.where = f"{f.f_code.co_filename.rsplit('/', 1)[-1]}:{f.f_lineno}"
            _current.block_on(me, self)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self.owner is self._me()

    def _release_save(self):
        c, self.count, o, self.owner = self.count, 0, self.owner, None
        return (c, o)

    def _acquire_restore(self, s):
        self.acquire()
        self.count, self.owner = s


def _patch_threading():
    if getattr(threading, "_sim_patched", False):
        return
    threading._sim_patched = True
    _thread.allocate_lock = lambda: SimLock() if _from_library() else _real_lock()
    _thread.RLock = lambda: SimLock(True) if _from_library() else _real_thread_rlock()

    def Lock():
        return SimLock() if _from_library() else _real_lock()

    def RLock():
        return SimLock(True) if _from_library() else _real_rlock()

    threading.Lock = Lock
    threading.RLock = RLock

    # what threading.Condition waits on; a new thread reports its start to the real one
    def waiter():
        if _from_library():
            f = sys._getframe(1)
            for _ in range(4):
                if f is None:
                    break
                if f.f_code.co_name in ("start", "join"):
                    return _real_lock()
                f = f.f_back
            return SimLock()
        return _real_lock()

    threading._allocate_lock = waiter


# ------------------------------------------------------------------ sim clock
class Clock:
    def __init__(self):
        self.now = 1_700_000_000.0
        self.elapsed = 0.0
        self.reads = 0

    def advance(self, dt):
        self.now += dt
        self.elapsed += dt

    def read(self):
        self.reads += 1
        self.advance(1e-4)
        return self.now


_clock = Clock()


def reset_clock():
    _clock.__init__()


def clock():
    return _clock


def _patch_time():
    if getattr(time, "_sim_patched", False):
        return
    time._sim_patched = True

    def mk(name, real, scale):
        def f(*a):
            fr = sys._getframe(1)
            if fr.f_code.co_filename.startswith(env.PKG):
                v = _clock.read()
                return int(v * 1e9) if scale else v
            return real(*a)

        f.__name__ = name
        return f

    for name in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, name, mk(name, getattr(time, name), False))
        setattr(time, name + "_ns", mk(name + "_ns", getattr(time, name + "_ns"), True))
    real_sleep = time.sleep

    def sleep(dt):
        if sys._getframe(1).f_code.co_filename.startswith(env.PKG):
            _clock.advance(dt)
            return
        real_sleep(dt)

    time.sleep = sleep


# ------------------------------------------------------------------ sim id()
_real_id = id


class Addresses:
    """Simulated id(): addresses of dead objects are reused at once, as an
    allocator may do."""

    def __init__(self):
        self.live = {}
        self.plain = {}
        self.free = []
        self.next = 0x7F0000000000
        self.reused = 0
        self.reuse = True

    def of(self, obj):
        k = _real_id(obj)
        hit = self.live.get(k)
        if hit is not None and hit[0]() is obj:
            return hit[1]
        try:
            ref = weakref.ref(obj, lambda r, k=k: self._die(k))
        except TypeError:
            return self._plain(k, obj)
        return self._new(k, ref)

    def _new(self, k, ref):
        if self.free:
            a = self.free.pop()
            self.reused += 1
        else:
            a = self.next
            self.next += 16
        self.live[k] = (ref, a)
        return a

    def _plain(self, k, obj):
        """Containers and numbers cannot be watched: they are held until nobody else does."""
        hit = self.plain.get(k)
        if hit is not None:
            return hit[1]
        if obj is None or isinstance(obj, (bool, type, type(Ellipsis))):
            return k
        for j in list(self.plain):
            if sys.getrefcount(self.plain[j][0]) <= 2:
                a = self.plain.pop(j)[1]
                if self.reuse:
                    self.free.append(a)
        if len(self.plain) > 400:
            self.plain.pop(next(iter(self.plain)))
        a = self._new(k, None)
        del self.live[k]
        self.plain[k] = (obj, a)
        return a

    def _die(self, k):
        hit = self.live.pop(k, None)
        if hit is not None and self.reuse:
            self.free.append(hit[1])


_addr = Addresses()


def reset_addresses():
    _addr.__init__()


def addresses():
    return _addr


def sim_id(obj):
    return _addr.of(obj)


def _inject_id(module, code):
    module.__dict__["id"] = sim_id
