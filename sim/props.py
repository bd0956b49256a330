"""The properties: how a run of each is generated from a seed and how its
outcome is judged."""
import gc
import random

from . import ambient, catalog, gen, lib, norm, reach, world
from .catalog import ENTRIES

ORBIT = [n for n, e in ENTRIES.items() if e.fam == "orbit"]
SURFACE = [n for n, e in ENTRIES.items() if e.fam == "surface"]
MP = [n for n, e in ENTRIES.items() if e.fam == "mp"]
ARG = [n for n, e in ENTRIES.items() if e.fam == "arg"]
PLOT = [n for n, e in ENTRIES.items() if e.fam == "plot"]
CB = [n for n, e in ENTRIES.items() if e.fam == "cb"]
# operations whose value does not depend on multiprecision scheduling
NOMP = ORBIT + SURFACE
LIGHT = [n for n in ORBIT + SURFACE if n not in gen.HEAVY]

PROPS = {}


def walk_flags(n, out):
    """Checks an operation made about itself."""
    if isinstance(n, tuple) and len(n) == 2 and n[0] == "tuple" and isinstance(n[1], list):
        it = n[1]
        if len(it) == 3 and it[0] == ("str", "SAME"):
            d = norm.compare(it[1], it[2])
            if d:
                out.append(("reentry", "nested and separate calls differ: " + d))
        if len(it) == 2 and it[0] == ("str", "leaks"):
            for x in it[1][1]:
                out.append(("leak", x[1]))
    if isinstance(n, (tuple, list)):
        for x in n:
            walk_flags(x, out)


def has_tracer(n):
    if isinstance(n, tuple) and n and n[0] == "TRACER":
        return True
    if isinstance(n, (tuple, list)):
        return any(has_tracer(x) for x in n)
    return False


class Prop:
    id = None
    names = NOMP
    x64 = (True,)
    dps = (None,)
    modes = None
    mprel = 24
    minpos = 1

    def heat(self, env):
        return env.get("heat")

    def make(self, seed, env):
        rng = random.Random(f"{self.id}/{seed}")
        spec = {"prop": self.id, "seed": seed, "threads": []}
        self.gen(rng, spec, env)
        return spec

    def g(self, rng, env, names=None, **kw):
        kw.setdefault("modes", self.modes)
        kw.setdefault("x64", self.x64)
        kw.setdefault("dps", self.dps)
        return gen.Gen(rng, names or self.names, env.get("heat"), **kw)

    # the default judge: every call gives what it gives alone
    def hooks(self, spec, v):
        return {}

    def run(self, spec, env):
        v = []
        hooks = self.hooks(spec, v)
        out = world.execute(spec, hooks)
        if out["deadlock"]:
            v.append({"kind": "deadlock", "op": None, "entry": "", "what": f"no caller can make progress: {out['deadlock']}"})
        if out["livelock"]:
            v.append({"kind": "livelock", "op": list(out["livelock"][:2]), "entry": "", "what": f"no progress within the step bound: {out['livelock']}"})
        fired = {(f[0], f[1]): f for f in out["fired"]}
        if not out["deadlock"] and not out["livelock"]:
            self.judge(spec, out, fired, v)
        world.finish(out)
        return v, out

    def judge(self, spec, out, fired, v):
        for t, script in enumerate(spec["threads"]):
            for k, op in enumerate(script):
                if op["e"].startswith("@"):
                    continue
                got = out["results"][t][k]
                self.judge_op(spec, t, k, op, got, fired.get((t, k)), v)

    def judge_op(self, spec, t, k, op, got, fired, v):
        if got is None:
            v.append({"kind": "lost", "op": [t, k], "entry": op["e"], "what": "the call never came back"})
            return
        if fired and got[0] == "EXC":
            return
        if op.get("_skip"):
            return
        if got[0] == "EXC" and got[1] == "SelfCheck":
            v.append({"kind": "promise", "op": [t, k], "entry": op["e"], "what": f"{catalog.key(op)}: {got[2]}"})
            return
        ref = world.reference(op)[0]
        loose = any(o.get("nojit") for s in spec["threads"] for o in s)
        d = (norm.compare_loose if loose else norm.compare)(got, ref, self.rel(op))
        if d:
            v.append({"kind": "exception" if got[0] == "EXC" and ref[0] != "EXC" else "value", "op": [t, k], "entry": op["e"], "what": f"{catalog.key(op)}: {d}"})
        fl = []
        walk_flags(got, fl)
        for kind, what in fl:
            v.append({"kind": kind, "op": [t, k], "entry": op["e"], "what": f"{catalog.key(op)}: {what}"})

    def rel(self, op):
        return self.mprel


def prop(cls):
    PROPS[cls.id] = cls()
    return cls


# ------------------------------------------------------------------ histories
class History(Prop):
    nmin, nmax = 3, 7
    events = 0.1

    def gen(self, rng, spec, env):
        g = self.g(rng, env)
        if rng.random() < 0.05:
            spec["threads"] = [g.sweep(rng.randint(12, 36))]
            spec["kind"] = "sweep"
        else:
            f = g.focus(rng.choice([1, 1, 2, 3]))
            spec["threads"] = [g.script(f, rng.randint(self.nmin, self.nmax), events=self.events if rng.random() < 0.6 else 0)]
        gen.derive(rng, spec["threads"], 0.3)
        gen.nojit(rng, spec["threads"], 0.06)
        gen.inner(rng, spec["threads"], 0.04)
        spec["share"] = rng.random() < 0.7
        if rng.random() < 0.25:
            spec["import"] = {"order": rng.randrange(1000)}


@prop
class C01(History):
    id = "C01"
    names = ORBIT + ["emission", "emission"]


@prop
class C02(History):
    id = "C02"
    names = SURFACE


# ----------------------------------------------------------------- concurrency
class Concurrent(Prop):
    interrupts = 0.15

    def gen(self, rng, spec, env):
        g = self.g(rng, env)
        f = g.focus(rng.choice([1, 1, 1, 2]))
        n = rng.choice([2, 2, 2, 3, 4])
        bases = {}
        spec["threads"] = [g.script(f, rng.choice([1, 1, 2, 3]), bases, events=0.03) for _ in range(n)]
        gen.nojit(rng, spec["threads"], 0.3)
        gen.derive(rng, spec["threads"], 0.1)
        gen.inner(rng, spec["threads"], 0.04)
        spec["share"] = rng.random() < 0.75
        spec["prebuild"] = rng.random() < 0.4
        if rng.random() < 0.1:
            spec["import"] = {"preload": False}
        if rng.random() < 0.12:
            spec["instr"] = True
        spec["sched"] = gen.sched(rng, rng.randrange(1 << 30), spec["threads"], lambda o: world.reference(o)[1].get("hot_n"))
        if rng.random() < self.interrupts:
            t = rng.randrange(n)
            ks = [k for k, o in enumerate(spec["threads"][t]) if not o["e"].startswith("@")]
            k = rng.choice(ks)
            f = gen.faults(rng, world.reference(spec["threads"][t][k])[1])
            if f:
                spec["faults"] = [[t, k, f[0], f[1]]]


@prop
class C03(Concurrent):
    id = "C03"
    names = ORBIT + ["emission", "emission"]


@prop
class C04(Concurrent):
    id = "C04"
    names = SURFACE


# -------------------------------------------------------------------- failures
class Faulty(Prop):
    """A call fails half way (interrupt, out of memory); then the same call again, then others."""

    def gen(self, rng, spec, env):
        g = self.g(rng, env)
        f = g.focus(rng.choice([1, 1, 2]))
        bases = {}
        s = g.script(f, rng.choice([0, 0, 1, 2]), bases, events=0)
        faults = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = g.op(f[0]) if not bases else (g.vary(rng.choice(list(bases.values()))) if rng.random() < 0.7 else g.op(rng.choice(f)))
            bases.setdefault(o["e"], o)
            ft = gen.faults(rng, world.reference(o)[1])
            if ft:
                faults.append([0, len(s), ft[0], ft[1]])
            s.append(o)
            if rng.random() < 0.8:
                s.append(o)
        if rng.random() < 0.12 and faults:
            # the same call fails at the same point again and again
            _, k, c, x = faults[-1]
            for _ in range(rng.choice([2, 4, 8])):
                s.insert(k, s[k])
                faults = [[t, j + (j >= k), cc, xx] for t, j, cc, xx in faults] + [[0, k, c, x]]
            s.append(s[k])
        n = len(s)
        s += g.script(f, rng.choice([0, 1, 2]), bases, events=0)
        if rng.random() < 0.2:
            s.insert(len(s) - 1, {"e": "@gc"})
            faults = [[t, k + (k >= len(s) - 2), c, x] for t, k, c, x in faults]
        spec["threads"] = [s]
        spec["faults"] = faults
        gen.nojit(rng, spec["threads"], 0.08)
        gen.derive(rng, spec["threads"], 0.1)
        if self.id == "C05" and len(s) > n and rng.random() < 0.4:
            # the calls that follow are made by another thread
            spec["threads"] = [s[:n], s[n:]] if all(f[1] < n for f in faults) else [s]
        spec["share"] = rng.random() < 0.8


@prop
class C05(Faulty):
    id = "C05"
    names = ORBIT + SURFACE + ["mp_A", "mp_R", "mp_sT", "mp_flux", "cb_interp", "cb_integ", "cb_vmap", "cb_units", "cb_raise", "cb_twice", "bad", "bad_many"]

    def rel(self, op):
        return 24


# -------------------------------------------------------------- multiprecision
@prop
class C06(Prop):
    id = "C06"
    names = MP + ["arg_mp"]

    def gen(self, rng, spec, env):
        kind = rng.choice(["history", "history", "history", "threads", "faults"])
        spec["kind"] = kind
        self_dps = (30, 15, 20, 45, 60) if kind != "threads" else (None,)
        g = self.g(rng, env, dps=self_dps)
        f = g.focus(rng.choice([1, 1, 2, 3]))
        if kind == "history":
            spec["threads"] = [g.script(f, rng.randint(3, 7), events=0.06)]
            spec["share"] = rng.random() < 0.8
        elif kind == "threads":
            n = rng.choice([2, 2, 3])
            bases = {}
            spec["threads"] = [g.script(f, rng.choice([1, 1, 2]), bases, events=0) for _ in range(n)]
            spec["share"] = rng.random() < 0.8
            spec["prebuild"] = rng.random() < 0.2
            spec["instr"] = rng.random() < 0.2
            spec["sched"] = gen.sched(rng, rng.randrange(1 << 30), spec["threads"], lambda o: world.reference(o)[1].get("hot_n"))
        else:
            fp = Faulty()
            fp.id, fp.names, fp.dps = self.id, self.names, self_dps
            fp.gen(rng, spec, env)

    def rel(self, op):
        # digits that must agree: close to the working precision of the call
        return 18 if op.get("_thr") else max(6, (op.get("dps") or 30) - 5)

    def judge(self, spec, out, fired, v):
        if spec.get("kind") == "threads":
            # the working precision is one process-wide setting of mpmath, which its own
            # integrator raises and restores: between threads only the digits that
            # survive this are promised
            for t, script in enumerate(spec["threads"]):
                for k, op in enumerate(script):
                    if not op["e"].startswith("@"):
                        self.judge_thr(spec, t, k, op, out["results"][t][k], fired.get((t, k)), v)
            return
        super().judge(spec, out, fired, v)

    def judge_thr(self, spec, t, k, op, got, fired, v):
        ref = world.reference(op)[0]
        d = norm.compare(got, ref, 18)
        if d:
            v.append({"kind": "exception" if got[0] == "EXC" and ref[0] != "EXC" else "value", "op": [t, k], "entry": op["e"], "what": f"{catalog.key(op)}: {d}"})


# ---------------------------------------------------------------- immutability
@prop
class C07(Prop):
    id = "C07"
    names = ORBIT + SURFACE + ARG + ARG + ["mp_A", "mp_R", "mp_sT", "mp_flux", "mp_parts"]

    def gen(self, rng, spec, env):
        kind = rng.choice(["history", "history", "history", "threads", "faults"])
        spec["kind"] = kind
        if kind == "history":
            g = self.g(rng, env)
            f = g.focus(rng.choice([1, 2, 3]))
            spec["threads"] = [g.script(f, rng.randint(2, 6), events=0.04)]
            if rng.random() < 0.5:
                spec["edit"] = True
        elif kind == "threads":
            g = self.g(rng, env, names=[n for n in self.names if not n.startswith("mp_") and n != "arg_mp"])
            f = g.focus(rng.choice([1, 2]))
            bases = {}
            spec["threads"] = [g.script(f, rng.choice([1, 2]), bases, events=0) for _ in range(2)]
            spec["sched"] = gen.sched(rng, rng.randrange(1 << 30), spec["threads"], lambda o: world.reference(o)[1].get("hot_n"))
        else:
            fp = Faulty()
            fp.id, fp.names = self.id, self.names
            fp.gen(rng, spec, env)
        spec["share"] = True
        spec["args"] = True

    def hooks(self, spec, v):
        snaps = {}

        def check_pool(ctx, where, entry):
            for k in list(ctx.pool.objs):
                if k not in snaps:
                    continue
                n = norm.norm(ctx.pool.objs[k])
                if not norm.same(n, snaps[k]):
                    d = norm.compare(n, snaps[k]) or "changed"
                    v.append({"kind": "mutated", "op": where, "entry": entry, "what": f"an object the caller built earlier changed: {k}: {d}"})
                    snaps[k] = n

        def start(ctx):
            orig = ctx.pool.made

            def made(k, o):
                orig(k, o)
                if not k.startswith('["mpcache"') and not k.startswith('["cbmodel"'):
                    snaps[k] = norm.norm(o)

            ctx.pool.made = made

        def after(ctx, t, k, op, n, r, fired):
            check_pool(ctx, [t, k], op["e"])
            for a, b in ctx.argsnap.pop((t, k), []):
                if not norm.same(norm.norm(a), b):
                    d = norm.compare(norm.norm(a), b) or "changed"
                    v.append({"kind": "argument", "op": [t, k], "entry": op["e"], "what": f"{catalog.key(op)}: an argument of the call was modified: {d}"})
            check_held(ctx, [t, k], op["e"])
            if r is not None:
                if spec.get("edit") and not op["e"].startswith("arg"):
                    if world.edit(r):
                        ctx.edits += 1
                else:
                    ctx.held.append(((t, k), op, r, norm.norm(r)))

        def check_held(ctx, where, entry):
            for i, (tk, op, r, n) in enumerate(ctx.held):
                m = norm.norm(r)
                if not norm.same(m, n):
                    d = norm.compare(m, n) or "changed"
                    v.append({"kind": "result", "op": list(tk), "entry": op["e"], "what": f"a result handed out earlier changed ({catalog.key(op)}) during {entry}: {d}"})
                    ctx.held[i] = (tk, op, r, m)

        def end(ctx):
            check_pool(ctx, None, "end")
            check_held(ctx, None, "end")

        return {"start": start, "after_op": after, "end": end}

    def rel(self, op):
        return 24


# --------------------------------------------------------- callbacks/transforms
@prop
class C09(Prop):
    id = "C09"
    names = CB + CB + ["integrate", "interpolate", "integ_user", "interp_user", "vectorize", "quantity_input", "unit_field"]

    def gen(self, rng, spec, env):
        g = self.g(rng, env)
        kind = rng.choice(["history", "history", "faults", "threads"])
        spec["kind"] = kind
        if kind == "history":
            f = g.focus(rng.choice([1, 2, 3]))
            spec["threads"] = [g.script(f, rng.randint(2, 6), events=0.05)]
        elif kind == "faults":
            fp = Faulty()
            fp.id, fp.names = self.id, self.names
            fp.gen(rng, spec, env)
        else:
            g = self.g(rng, env, names=[n for n in self.names if n not in ("cb_interp", "cb_integ")])
            f = g.focus(rng.choice([1, 2]))
            bases = {}
            spec["threads"] = [g.script(f, rng.choice([1, 2]), bases, events=0) for _ in range(rng.choice([2, 3]))]
            gen.nojit(rng, spec["threads"], 0.25)
            spec["sched"] = gen.sched(rng, rng.randrange(1 << 30), spec["threads"], lambda o: world.reference(o)[1].get("hot_n"))
        spec["share"] = rng.random() < 0.8


# ---------------------------------------------------------------------- drawing
@prop
class C10(Prop):
    id = "C10"
    names = PLOT

    def gen(self, rng, spec, env):
        from .catalog2 import PLOT_STATES

        g = self.g(rng, env)
        kind = rng.choice(["history", "history", "threads", "faults"])
        spec["kind"] = kind
        if kind == "history":
            s = g.script(["show"], rng.randint(1, 4), events=0)
            # between drawings, other operations on the same surfaces
            if rng.random() < 0.4:
                h = gen.Gen(rng, ["render", "surface_lc", "ortho_grid", "lines", "intensity"], env.get("heat"))
                s.insert(rng.randrange(len(s) + 1), h.op(h.one()))
            spec["threads"] = [s]
        elif kind == "threads":
            bases = {}
            spec["threads"] = [g.script(["show"], rng.choice([1, 2]), bases, events=0) for _ in range(2)]
            spec["sched"] = gen.sched(rng, rng.randrange(1 << 30), spec["threads"], lambda o: world.reference(o)[1].get("hot_n"))
            if rng.random() < 0.6:
                spec["sched"]["p"] = rng.choice([0.002, 0.01])
        else:
            fp = Faulty()
            fp.id, fp.names = self.id, self.names
            fp.gen(rng, spec, env)
        for sc in spec["threads"]:
            for o in sc:
                if o["e"] == "show":
                    o["_state"] = rng.choice(PLOT_STATES)
                    if len(spec["threads"]) > 1:
                        o["_alone"] = False
        spec["share"] = rng.random() < 0.7


# ------------------------------------------------------------------- precision
@prop
class C11(Prop):
    id = "C11"
    names = NOMP + ["cb_integ", "cb_interp", "cb_vmap", "arg_np"]
    x64 = (True, False)

    def gen(self, rng, spec, env):
        g = self.g(rng, env)
        f = g.focus(rng.choice([1, 1, 2]))
        bases = {}
        if rng.random() < 0.65:
            spec["threads"] = [g.script(f, rng.randint(2, 6), bases, events=0.05)]
        else:
            g = self.g(rng, env, names=[n for n in self.names if n not in ("cb_interp", "cb_integ")])
            f = g.focus(rng.choice([1, 1, 2]))
            spec["threads"] = [g.script(f, rng.choice([1, 2]), bases, events=0) for _ in range(rng.choice([2, 3]))]
            gen.nojit(rng, spec["threads"], 0.25)
            spec["sched"] = gen.sched(rng, rng.randrange(1 << 30), spec["threads"], lambda o: world.reference(o)[1].get("hot_n"))
        r = rng.random()
        if r < 0.25:
            spec["import"] = {"x64": False}
        elif r < 0.35:
            spec["import"] = {"preload": False}
        spec["share"] = rng.random() < 0.3
        if spec["share"]:
            # objects hold arrays of the mode they were built in: shared ones stay in one mode
            m = rng.choice([True, False])
            for sc in spec["threads"]:
                for o in sc:
                    if "x64" in o:
                        o["x64"] = m


# ---------------------------------------------------------------------- tracing
@prop
class C12(Prop):
    id = "C12"
    names = NOMP + ["cb_integ", "cb_interp"]

    def gen(self, rng, spec, env):
        g = self.g(rng, env)
        f = g.focus(rng.choice([1, 1, 2]))
        bases = {}
        s = []
        faults = []
        for _ in range(rng.randint(1, 3)):
            o = g.op(rng.choice(f)) if not bases or rng.random() < 0.4 else g.vary(rng.choice(list(bases.values())))
            e = ENTRIES[o["e"]]
            tr = [m for m in e.modes if m != "eager"]
            r = rng.random()
            if tr and r < 0.65:
                o["mode"] = rng.choice(tr)
            elif (r < 0.8 or not tr) and o["e"] not in gen.HEAVY and not o["e"].startswith("cb_"):
                o["mode"] = "inner"
            bases[o["e"]] = o
            if rng.random() < 0.45:
                ft = gen.faults(rng, world.reference(o)[1], ("KeyboardInterrupt", "MemoryError", "RuntimeError"))
                if ft:
                    faults.append([0, len(s), ft[0], ft[1]])
            s.append(o)
            r = rng.random()
            if r < 0.5:
                s.append({**o, "mode": "eager" if "eager" in e.modes else e.modes[0]})
            elif r < 0.8:
                s.append({**g.vary(o)})
        spec["threads"] = [s]
        spec["faults"] = faults
        spec["share"] = rng.random() < 0.75

    def hooks(self, spec, v):
        def after(ctx, t, k, op, n, r, fired):
            if has_tracer(n):
                v.append({"kind": "tracer", "op": [t, k], "entry": op["e"], "what": f"{catalog.key(op)}: returned a value of a trace that has ended"})
            for where in reach.tracers([ctx.pool.objs]):
                v.append({"kind": "tracer", "op": [t, k], "entry": op["e"], "what": f"{catalog.key(op)}: a value of a trace that has ended is still held at {where}"})

        return {"after_op": after}


# ------------------------------------------------------------------ environment
@prop
class C13(Prop):
    id = "C13"
    names = NOMP + MP + CB + ["show", "arg_mp", "arg_np", "arg_starry"]

    def gen(self, rng, spec, env):
        g = self.g(rng, env, dps=(30, 30, 20, 45))
        r = rng.random()
        if r < 0.2:
            # several callers at once: when all have come back, everything is as before
            g = self.g(rng, env, names=[n for n in self.names if not n.startswith(("mp_", "arg_mp", "bad_mp")) and n not in ("cb_interp", "cb_integ")])
            f = ["show"] if rng.random() < 0.4 else g.focus(rng.choice([1, 1, 2]))
            bases = {}
            spec["threads"] = [g.script(f, rng.choice([1, 2]), bases, events=0) for _ in range(rng.choice([2, 2, 3]))]
            for sc in spec["threads"]:
                for o in sc:
                    if o["e"] == "show":
                        o["_state"] = "oo"
                        o["_alone"] = False
            gen.nojit(rng, spec["threads"], 0.25)
            spec["sched"] = gen.sched(rng, rng.randrange(1 << 30), spec["threads"], lambda o: world.reference(o)[1].get("hot_n"))
            spec["share"] = rng.random() < 0.8
            spec["kind"] = "threads"
            return
        if r < 0.5:
            f = g.focus(rng.choice([1, 2, 3]))
            spec["threads"] = [g.script(f, rng.randint(2, 5), events=0.05)]
        else:
            fp = Faulty()
            fp.id, fp.names, fp.dps = self.id, self.names, (30, 30, 20, 45)
            fp.gen(rng, spec, env)
        if rng.random() < 0.4:
            spec["settings"] = rng.randrange(1, 64)
        if rng.random() < 0.15:
            spec["import"] = {"order": rng.randrange(1000), "x64": rng.random() < 0.7, "watch": True}
        spec["share"] = rng.random() < 0.8

    def hooks(self, spec, v):
        st = {}

        def start(ctx):
            d = ctx.import_diff
            if d:
                v.append({"kind": "ambient", "op": None, "entry": "import", "what": "importing the library changed " + "; ".join(d)})

        if spec.get("kind") == "threads":

            def start_all(ctx):
                st["b"] = ambient.snapshot()

            def end_all(ctx):
                d = ambient.diff(st["b"], ambient.snapshot())
                if d:
                    v.append({"kind": "ambient", "op": None, "entry": spec["threads"][0][0]["e"], "what": f"concurrent {catalog.key([[o['e'] for o in s] for s in spec['threads']])} changed " + "; ".join(d)})

            return {"start": start_all, "end": end_all}

        def before(ctx, t, k, op):
            if spec.get("settings") and not st:
                world.odd_settings(spec["settings"])
            if op.get("dps") is not None:
                import mpmath

                mpmath.mp.dps = op["dps"]
            st["b"] = ambient.snapshot()

        def after(ctx, t, k, op, n, r, fired):
            a = ambient.snapshot()
            d = ambient.diff(st["b"], a)
            if d:
                how = f" (interrupted by {fired[1]} at call {fired[0]} in {fired[2]})" if fired else ""
                v.append({"kind": "ambient", "op": [t, k], "entry": op["e"], "what": f"{catalog.key(op)}{how} changed " + "; ".join(d)})

        return {"start": start, "before_op": before, "after_op": after}

    def judge(self, spec, out, fired, v):
        if spec.get("settings"):
            return
        super().judge(spec, out, fired, v)

    def rel(self, op):
        return max(6, (op.get("dps") or 30) - 6)


# --------------------------------------------------------------------- replicas
@prop
class C14(Prop):
    id = "C14"
    names = NOMP + ["mp_A", "mp_R", "mp_sT", "mp_flux", "cb_integ", "show"]

    def gen(self, rng, spec, env):
        g = self.g(rng, env)
        f = [g.one() for _ in range(rng.randint(1, 4))]
        spec["threads"] = [g.script(f, rng.randint(2, 6), events=0)]
        spec["share"] = True
        spec["replica"] = True

    def make(self, seed, env):
        spec = super().make(seed, env)
        return spec

    def localise(self, spec, r):
        """The same callers on replica r: another import order, clock, random state."""
        rng = random.Random(f"replica/{spec['seed']}/{r}")
        s = dict(spec)
        s["import"] = {"order": None if r == 0 else rng.randrange(1000), "preload": r % 3 != 2}
        s["clock"] = rng.choice([0.0, 86400.0 * 365 * 30, 12345.678]) if r else 0.0
        s["rngseed"] = rng.randrange(1 << 20) if r else 0
        s["junk"] = rng.randrange(0, 50) if r else 0
        s["machine"] = r
        return s


# ----------------------------------------------------------------------- memory
@prop
class C15(Prop):
    id = "C15"
    names = NOMP + ["mp_A", "mp_R", "mp_sT", "mp_flux", "mp_parts", "cb_integ", "cb_units", "cb_vmap", "cb_interp_fail", "arg_np", "arg_starry"]

    def gen(self, rng, spec, env):
        g = self.g(rng, env)
        f = g.focus(rng.choice([1, 1, 2]))
        bases = {}
        cyc = g.script(f, rng.choice([1, 1, 2, 3]), bases, events=0)
        cyc = [o for o in cyc if not o["e"].startswith("@")]
        reps = rng.choice([5, 6])
        n = len(cyc)
        spec["cycle"] = n
        spec["threads"] = [cyc * reps]
        spec["share"] = rng.random() < 0.6
        if rng.random() < 0.6:
            spec["addr"] = "fresh"  # an allocator that does not hand out an address again
        spec["faults"] = []
        if rng.random() < 0.4:
            i = rng.randrange(n)
            ft = gen.faults(rng, world.reference(cyc[i])[1])
            if ft:
                spec["faults"] = [[0, i + n * r, ft[0], ft[1]] for r in range(reps)]
                spec["faults"] = [f for f in spec["faults"] if f[1] >= n]

    def hooks(self, spec, v):
        sizes, classes = [], []

        def after(ctx, t, k, op, n, r, fired):
            if (k + 1) % spec["cycle"] == 0:
                del r
                s = reach.census()
                if len(sizes) >= 2:
                    s.update(reach.live())
                    classes.append(reach.classes())
                sizes.append(s)

        def end(ctx):
            # after the first cycles nothing new may be retained by repeating them
            if len(sizes) >= 5:
                a, b, c = sizes[2], sizes[3], sizes[-1]
                if classes[-1] > classes[0]:
                    # a class the caller defines is kept for ever by JAX, with all it refers to
                    a, b, c = ({k: x for k, x in s.items() if not k.startswith(("object ", "function "))} for s in (a, b, c))
                d = reach.growth(a, b, c)
                if d:
                    v.append({"kind": "growth", "op": [0, len(spec["threads"][0]) - 1], "entry": spec["threads"][0][0]["e"], "what": f"repeating {catalog.key(spec['threads'][0][: spec['cycle']])[:300]} keeps growing what the library retains: {d}"})

        def start(ctx):
            gc.freeze()  # what is there already is not looked at again (see reach.live)

        return {"start": start, "after_op": after, "end": end}

    def judge(self, spec, out, fired, v):
        return
