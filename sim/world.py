"""One simulated run: a fresh instance of the library, caller threads with
scripts of operations, a schedule and a fault plan; and the reference value of
an operation (the same operation, alone, in a fresh instance)."""
import gc
import hashlib
import io
import os
import pickle
import shutil
import sys
import warnings

import jax

from . import ambient, catalog, jaxfast, lib, machine, norm, pintfast, sched
from .catalog import Pool, key, prepare

_keeper = None
_hot = None
_names = None
SCRATCH = os.environ.get("SIM_SCRATCH", "/tmp/sim-scratch")
EXTRA = {}  # op kinds other modules add: name -> fn(ctx, op) -> thunk


class Sink(io.TextIOBase):
    name = "<sim>"

    def write(self, s):
        return len(s)


SINK = Sink()


def setup():
    global _keeper, _hot
    sched.install()
    pintfast.install()
    jaxfast.install()
    machine.install()
    _watch_dispatch()
    os.makedirs(os.path.join(SCRATCH, "ref"), exist_ok=True)
    os.makedirs(os.path.join(SCRATCH, "xla"), exist_ok=True)
    jax.config.update("jax_compilation_cache_dir", os.path.join(SCRATCH, "xla"))
    jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
    jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    jax.config.update("jax_enable_x64", True)
    warnings.simplefilter("ignore")
    import scipy.sparse.linalg  # noqa: F401
    import matplotlib
    import mpmath  # noqa: F401

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401

    jax.numpy.zeros(2).block_until_ready()
    _keeper = ambient.Keeper()
    sys.stdout = SINK
    _keeper.streams = (SINK, sys.stderr)
    lib.fresh()
    _hot = lib.hot_lines()
    gc.collect()
    gc.freeze()
    gc.disable()


def hot():
    return _hot


# JAX never again uses its fast dispatch for a primitive it first met under vmap: after
# many slow dispatches the (pure performance) dispatch table is started anew
_slow = [0]


def _watch_dispatch():
    from jax._src import pjit

    helper = pjit._python_pjit_helper

    def counted(*a, **k):
        _slow[0] += 1
        return helper(*a, **k)

    pjit._python_pjit_helper = counted


def _renew_dispatch():
    if _slow[0] > 600:
        from jax._src import pjit

        pjit._cpp_pjit_cache_fun_only.clear()
        _slow[0] = 0


class Ctx:
    """What one run's operations share."""

    def __init__(self, spec, L):
        self.spec = spec
        self.L = L
        self.pool = Pool(L, share=spec.get("share", True))
        self.held = []  # (where, object, norm) results handed out earlier
        self.argsnap = {}  # (thread, op) -> [(argument, norm before the call)]
        self.edits = 0
        self.import_diff = None


def call(ctx, op, P=None, where=None):
    """Perform op and return its normal form (value or exception)."""
    P = P or ctx.pool
    try:
        x64 = op.get("x64", True)
        dps = op.get("dps")
        if dps is not None:
            import mpmath

            mpmath.mp.dps = dps
        with jax.experimental.enable_x64(x64), jax.disable_jit(bool(op.get("nojit"))):
            if op["e"] in EXTRA:
                r = EXTRA[op["e"]](ctx, op, P)
            else:
                th, args = prepare(ctx.L, P, op)
                if where is not None and ctx.spec.get("args"):
                    ctx.argsnap[where] = [(a, norm.norm(a)) for a in args]
                r = th()
            r = jax.block_until_ready(r)
        return norm.norm(r), r
    except sched.Abandon:
        raise
    except BaseException as e:
        n = norm.norm(e)
        e.__traceback__ = None
        return n, None


def wipe_disk():
    """Nothing the library may have left on disk survives into another world."""
    for d in {os.environ.get("HOME"), os.environ.get("TMPDIR"), os.getcwd()}:
        if not d or not os.path.realpath(d).startswith(os.path.realpath(SCRATCH) + os.sep):
            continue
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)


def fresh_world(spec, diff=None):
    """A new instance of the library in a process with default settings."""
    import random

    imp = spec.get("import", {})
    _keeper.restore(seed=spec.get("seed", 0), x64=True)
    _renew_dispatch()
    wipe_disk()
    sched.reset_clock()
    sched.reset_addresses()
    sched.LOCKS.clear()
    machine.use(spec.get("machine", 0))
    if spec.get("addr") == "fresh":
        sched.addresses().reuse = False
    if spec.get("clock"):
        sched.clock().now += spec["clock"]
    if spec.get("rngseed"):
        import numpy as np

        np.random.seed(spec["rngseed"])
        random.seed(spec["rngseed"])
    if spec.get("junk"):
        # other addresses
        sched.addresses().next += 16 * spec["junk"]
        sched.addresses().free = [0x7E0000000000 + 32 * i for i in range(spec["junk"])]
    order = None
    if imp.get("order") is not None:
        order = random.Random(imp["order"])
    jax.config.update("jax_enable_x64", bool(imp.get("x64", True)))
    try:
        before = ambient.snapshot() if imp.get("watch") else None
        L = lib.fresh(preload=imp.get("preload", True), mp=imp.get("mp", True), order=order)
        if before is not None and diff is not None:
            # the multiprecision package chooses mpmath's initial precision
            diff += [d for d in ambient.diff(before, ambient.snapshot()) if not d.startswith("mpmath")]
        return L
    finally:
        jax.config.update("jax_enable_x64", True)


def op_id(op):
    return hashlib.sha1(key({k: v for k, v in op.items() if not k.startswith("_")}).encode()).hexdigest()


_ref_mem = {}
stats = {"refs_computed": 0, "refs_loaded": 0}


def reference(op):
    """(normal form, profile) of op alone in a fresh library."""
    k = op_id(op)
    r = _ref_mem.get(k)
    if r is not None:
        return r
    op = {k: v for k, v in op.items() if not k.startswith("_")}
    f = os.path.join(SCRATCH, "ref", k)
    try:
        with open(f, "rb") as fh:
            r = pickle.load(fh)
        stats["refs_loaded"] += 1
    except Exception:
        r = compute_reference(op)
        stats["refs_computed"] += 1
        tmp = f + f".{os.getpid()}"
        with open(tmp, "wb") as fh:
            pickle.dump(r, fh)
        os.replace(tmp, f)
    _ref_mem[k] = r
    if len(_ref_mem) > 4000:
        _ref_mem.clear()
    return r


def compute_reference(op):
    # a process in which the precision mode was never anything else
    x64 = bool(op.get("x64", True))
    spec = {"seed": 0, "import": {"x64": x64}}
    L = fresh_world(spec)
    jax.config.update("jax_enable_x64", x64)
    try:
        return _reference(op, L)
    finally:
        jax.config.update("jax_enable_x64", True)


def _reference(op, L):
    ctx = Ctx({"share": True}, L)
    prof = {}
    out = {}

    def body(t):
        sim.begin_op(t, 0)
        out["r"] = call(ctx, op)[0]
        sim.end_op(t)

    sim = sched.Simulation(sched.Policy(), _hot)
    sim.profile = prof
    sim.add(body)
    sim.run()
    if sim.threads[0].error is not None:
        raise sim.threads[0].error
    if sim.deadlock:
        out["r"] = ("DEADLOCK", sim.deadlock)
    if "hot_c" in prof:
        h = prof["hot_c"]
        prof["hot_c"] = h[:: max(1, len(h) // 200)]
    if "hot_n" in prof:
        h = prof["hot_n"]
        prof["hot_n"] = h[:: max(1, len(h) // 200)]
    return out["r"], prof


def execute(spec, hooks=None):
    """Run spec. Returns a dict with per-op results and what was observed."""
    import random

    hooks = hooks or {}
    idiff = []
    L = fresh_world(spec, idiff)
    ctx = Ctx(spec, L)
    ctx.import_diff = idiff
    if hooks.get("start"):
        hooks["start"](ctx)
    sc = spec.get("sched", {"kind": "none"})
    if "record" in sc:
        pol = sched.Policy(record=sc["record"])
    else:
        rng = random.Random(sc.get("seed", spec.get("seed", 0)))
        kind = sc.get("kind", "none")
        aim = {(a[0], a[1]): set(a[2]) for a in sc.get("aim", [])}
        pol = sched.Policy(
            rng if kind != "none" else None, kind, sc.get("p", 0), sc.get("p_hot", 0), sc.get("p_op", 0.5), sc.get("solo", 0.6),
            sc.get("maxsw", 60), aim=aim,
        )
    sim = sched.Simulation(pol, _hot, instr=spec.get("instr", False))
    if "record" in sc:
        sim.start_replay = sc.get("starts")
    sim.modlines = bool(spec.get("modlines"))
    sim.profile = hooks.get("profile")
    faults = {}
    for t, k, c, exc in spec.get("faults", []):
        faults[(t, k)] = (c, exc)
    results = [[None] * len(s) for s in spec["threads"]]
    fired = []
    before = hooks.get("before_op")
    after = hooks.get("after_op")

    if spec.get("prebuild"):
        for s in spec["threads"]:
            for op in s:
                if op["e"] in catalog.ENTRIES:
                    try:
                        if op.get("dps") is not None:
                            import mpmath

                            mpmath.mp.dps = op["dps"]
                        with jax.experimental.enable_x64(op.get("x64", True)), jax.disable_jit(bool(op.get("nojit"))):
                            prepare(L, ctx.pool, op)
                    except Exception:
                        pass

    def mk(ti, script):
        def body(t):
            for k, op in enumerate(script):
                if op["e"].startswith("@"):
                    do_event(ctx, op)
                    results[ti][k] = ("EVENT", op["e"])
                    continue
                sim.begin_op(t, k, None)
                if before:
                    before(ctx, ti, k, op)
                t.fault = faults.get((ti, k))
                n, r = call(ctx, op, where=(ti, k))
                t.fault = None
                if t.fired:
                    fired.append((ti, k) + t.fired)
                results[ti][k] = n
                if after:
                    after(ctx, ti, k, op, n, r, t.fired)
                sim.end_op(t)

        return body

    for ti, script in enumerate(spec["threads"]):
        sim.add(mk(ti, script))
    sim.run()
    for t in sim.threads:
        if t.error is not None:
            raise t.error
    if not (sim.deadlock or sim.livelock) and sched.held():
        sim.deadlock = latecomer(ctx, spec)
    if hooks.get("end") and not (sim.deadlock or sim.livelock):
        hooks["end"](ctx)
    out = {
        "results": results,
        "fired": fired,
        "steps": sim.steps,
        "hash": sim.h,
        "swh": sim.swh,
        "switches": sim.switches,
        "starts": sim.starts,
        "hotsw": sim.hotsw,
        "denied": sim.denied,
        "deadlock": sim.deadlock,
        "ctx": ctx,
        "clock": sched.clock().elapsed,
        "clockreads": sched.clock().reads,
        "edits": ctx.edits,
        "livelock": sim.livelock,
        "reused": sched.addresses().reused,
    }
    return out


def latecomer(ctx, spec):
    """A lock is still held although every call came back: does another caller, who
    makes the same calls now, come back?"""
    ops = []
    for s in spec["threads"]:
        for o in s:
            if not o["e"].startswith("@") and o not in ops:
                ops.append(o)

    def body(t):
        for k, o in enumerate(ops[-12:]):
            sim.begin_op(t, k)
            call(ctx, o)
            sim.end_op(t)

    sim = sched.Simulation(sched.Policy(), _hot)
    sim.add(body)
    sim.run()
    if sim.threads[0].error is not None:
        raise sim.threads[0].error
    return [("a later caller",) + tuple(d[1:]) for d in sim.deadlock] if sim.deadlock else None


def do_event(ctx, op):
    """History events which are not library calls."""
    e = op["e"]
    if e == "@gc":
        gc.collect()
    elif e == "@clock":
        sched.clock().advance(op["dt"])
    elif e == "@drop":
        ctx.pool.objs.clear()
        gc.collect()
    elif e == "@rng":
        import random

        import numpy as np

        np.random.seed(op["v"])
        random.seed(op["v"])
    elif e == "@dps":
        import mpmath

        mpmath.mp.dps = op["v"]
    elif e == "@clear":
        jax.clear_caches()


def digest(results):
    """A hash of the results, for comparing two executions of one seed."""
    h = hashlib.sha1()

    def go(x):
        import numpy as np

        if isinstance(x, np.ndarray):
            h.update(str((x.dtype, x.shape)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(b"(")
            if x and isinstance(x, tuple) and x[0] == "EXC":
                h.update(str(x[1]).encode())
                return
            for y in x:
                go(y)
            h.update(b")")
        else:
            h.update(repr(x).encode())

    go(results)
    return h.hexdigest()[:16]


_collects = 0


def collect():
    """Frees the instances of earlier runs; what survives is looked at again only in
    every fifth collection."""
    global _collects
    lib.purge()
    _collects += 1
    if _collects % 5 == 0:
        gc.unfreeze()
    gc.collect()
    gc.freeze()


_runs = 0


def finish(out):
    """Lets go of the run's library instance."""
    global _runs
    out.pop("ctx", None)
    _runs += 1
    if _runs % 6 == 0:
        collect()


def edit(r, depth=0):
    """What a caller may do with a container it was given: change it in place."""
    import mpmath
    import numpy as np
    import scipy.sparse as sp

    if depth > 4:
        return False
    try:
        if isinstance(r, np.ndarray):
            if r.dtype.kind not in "fc" or r.size == 0 or not r.flags.writeable:
                return False
            r[...] = 7.25
            return True
        if isinstance(r, mpmath.matrix):
            for i in range(r.rows):
                for j in range(r.cols):
                    r[i, j] = mpmath.mpf("7.25")
            return r.rows * r.cols > 0
        if sp.issparse(r):
            if getattr(r, "data", None) is None or r.data.dtype.kind not in "fc":
                return False
            r.data[...] = 7.25
            return True
        if isinstance(r, dict):
            done = [edit(v, depth + 1) for v in list(r.values())]
            r["edited by the caller"] = 7.25
            return True
        if isinstance(r, list):
            done = [edit(v, depth + 1) for v in r]
            r.append(7.25)
            return True
        if isinstance(r, tuple):
            return any([edit(v, depth + 1) for v in r])
        if hasattr(r, "_magnitude") and isinstance(r._magnitude, np.ndarray):
            return edit(r._magnitude, depth + 1)
    except (ValueError, TypeError):
        return False
    return False


def odd_settings(n):
    """Unusual but legal settings of the process the library is called in."""
    import locale  # noqa: F401
    import logging
    import random

    import numpy as np

    if n & 1:
        np.seterr(all="warn", under="print")
        np.set_printoptions(precision=3, suppress=True)
    if n & 2:
        warnings.simplefilter("default")
        warnings.filterwarnings("ignore", category=DeprecationWarning)
    if n & 4:
        sys.setrecursionlimit(sys.getrecursionlimit() + 777)
        logging.getLogger().setLevel(logging.ERROR)
    if n & 8:
        import matplotlib

        matplotlib.rcParams["lines.linewidth"] = 2.75
        matplotlib.rcParams["image.origin"] = "lower"
    if n & 16:
        jax.config.update("jax_default_matmul_precision", "highest")
        os.environ["JAXOPLANET_TEST"] = "1"
        os.umask(0o27)
    if n & 32:
        np.random.seed(99)
        random.seed(99)
