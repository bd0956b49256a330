"""Importing the library from a failing disk, or interrupting the import, and
trying again in the same process."""
import sys

from . import disk, world
from .props import ORBIT, SURFACE, Prop, prop

# what callers import first
ENTRYPOINTS = [
    "",
    "units",
    "units.registry",
    "units.decorator",
    "units.field",
    "orbits",
    "orbits.keplerian",
    "orbits.ttv",
    "light_curves",
    "light_curves.transforms",
    "core.kepler",
    "object_stack",
    "starry.ylm",
    "starry.surface",
    "starry.orbit",
    "starry.light_curves",
    "starry.multiprecision",
    "starry.multiprecision.flux",
    "starry.visualization",
]
_table = None


def table(reg):
    """Every unit the registry knows and what it is, as plain values."""
    out = {}
    for n in sorted(reg._units):
        try:
            d = reg._units[n]
            out[n] = repr((d.name, d.symbol if d.has_symbol else None, tuple(sorted(d.aliases)), repr(d.converter), repr(sorted(d.reference.items()) if d.reference else None)))
        except Exception as e:
            out[n] = f"{type(e).__name__}"
    out["<prefixes>"] = repr(sorted(reg._prefixes))
    out["<dimensions>"] = repr(sorted(reg._dimensions))
    out["<groups>"] = repr(sorted(reg._groups)) if hasattr(reg, "_groups") else ""
    for n in own_names():
        try:
            q = (1.0 * reg.parse_expression(n)).to_base_units()
            out["=" + n] = f"{float(q.magnitude)!r} {q.units}"
        except Exception as e:
            out["=" + n] = f"{type(e).__name__}: {e}"[:80]
    return out


def own_names():
    """Names the library's own definition files define."""
    import os

    from . import env

    out = []
    d = os.path.join(env.PKG, "units")
    for f in sorted(os.listdir(d)):
        if f.endswith(".txt"):
            for ln in disk._real_open(os.path.join(d, f), encoding="utf-8"):
                ln = ln.split("#")[0].strip()
                if "=" in ln and not ln.startswith("@"):
                    out += [x.strip() for x in [ln.split("=")[0]] if x.strip() and not x.strip().endswith("-")]
    return out


def contents():
    """Every loaded module of the library: its names and what kind of thing each is."""
    out = {}
    for n in sorted(sys.modules):
        m = sys.modules[n]
        if n == "jaxoplanet" or n.startswith("jaxoplanet."):
            out[n] = {k: type(v).__name__ for k, v in vars(m).items() if not k.startswith("__")}
    return out


_good = {}


def good_contents(mod):
    """What importing mod gives in a fresh process."""
    if mod not in _good:
        L = world.fresh_world({"import": {"preload": False}})
        L(mod)
        _good[mod] = contents()
    return _good[mod]


def lacking(good):
    """What of good is not there or is something else."""
    out = []
    now = contents()
    for n, names in good.items():
        if n not in now:
            # a package whose import failed is gone while its submodules stay importable
            continue
        for k, t in names.items():
            # (a submodule that survived a failed import of its package is not bound
            # again in the package: that is Python's way)
            if now[n].get(k) != t and not (t == "module" and k not in now[n]):
                out.append(f"{n}.{k}: {now[n].get(k, 'missing')} instead of {t}")
    return out


def good_table():
    global _table
    if _table is None:
        L = world.fresh_world({"import": {"preload": False}})
        L("orbits.keplerian")
        _table = table(L("units").unit_registry)
    return _table


def attempt(ctx, op, P):
    """One import. Returns what became of it."""
    p = op["p"]
    plan = disk.Plan(p.get("io", []))
    try:
        with disk.mounted(plan):
            for m in p["mods"]:
                ctx.L._mods.pop(m, None)
                ctx.L(m)
    finally:
        ctx.io_events = plan.events
        ctx.io += plan.fired
        ctx.io_op[ctx.at] = list(plan.fired)
    reg = sys.modules.get("jaxoplanet.units.registry")
    r = {"imported": "ok"}
    missing = []
    for m in p["mods"]:
        missing += lacking(_good.get(m, {}))
    if missing:
        r["missing"] = sorted(set(missing))[:6]
    if reg is not None:
        t = table(reg.unit_registry)
        g = _table or {}
        bad = sorted(k for k in set(t) | set(g) if t.get(k) != g.get(k))
        r["units wrong"] = bad[:6] if g else []
    return r


world.EXTRA["import"] = attempt


def io_profile(mods):
    """The disk events of importing mods in a fresh process, and the call points."""
    key = ("io", tuple(mods))
    if key not in _prof:
        spec = {"threads": [[{"e": "import", "p": {"mods": list(mods)}}]], "import": {"preload": False}, "modlines": True}
        prof = {}
        out = world.execute(spec, {"start": start, "profile": prof})
        _prof[key] = (out["ctx"].io_events, prof.get("c", 1))
        world.finish(out)
    return _prof[key]


_prof = {}


def start(ctx):
    ctx.io = []
    ctx.io_op = {}
    ctx.at = 0
    ctx.io_events = []


@prop
class C08(Prop):
    id = "C08"
    names = [n for n in ORBIT if n in ("quantity_input", "unit_field", "convert", "consts", "central", "orbital_body", "light_curve", "integrate", "kepler", "ttv_pos")] + [
        n for n in SURFACE if n in ("surface_lc", "A1", "render", "ylm_ops")
    ]

    def gen(self, rng, spec, env):
        g = self.g(rng, env)
        script, faults = [], []
        for _ in range(rng.choice([1, 1, 2, 3])):
            mods = [rng.choice(ENTRYPOINTS) for _ in range(rng.choice([1, 1, 2]))]
            ev, c = io_profile(mods)
            io_f = []
            r = rng.random()
            if r < 0.55 and ev:
                data = [i + 1 for i, (w, n) in enumerate(ev) if n.endswith(".txt")]
                for _ in range(rng.choice([1, 1, 2])):
                    if data and rng.random() < 0.5:
                        n = rng.choice(data)
                    else:
                        f = rng.choice(sorted({n for w, n in ev}))
                        n = rng.choice([i + 1 for i, (w, x) in enumerate(ev) if x == f])
                    io_f.append([n, rng.choice(["EIO", "EIO", "EMFILE", "EACCES", "ENOMEM", "ENOENT", "ESTALE", "short"])])
            elif r < 0.65:
                io_f.append(["*", "short"])
            if r >= 0.65 or rng.random() < 0.15:
                c = max(c, 1)
                faults.append([0, len(script), rng.randint(1, c), rng.choice(["KeyboardInterrupt", "MemoryError"])])
            script.append({"e": "import", "p": {"mods": mods, "io": io_f}})
        mods = [rng.choice(ENTRYPOINTS)]
        script.append({"e": "import", "p": {"mods": ["units"] + mods, "io": [] if rng.random() < 0.8 else [["*", "short"]]}})
        for _ in range(rng.choice([1, 2])):
            script.append(g.op(g.one()))
        spec["threads"] = [script]
        spec["faults"] = faults
        spec["import"] = {"preload": False}
        spec["modlines"] = True

    def hooks(self, spec, v):
        good_table()
        for script in spec["threads"]:
            for op in script:
                if op["e"] == "import":
                    for m in op["p"]["mods"]:
                        good_contents(m)

        def before(ctx, t, k, op):
            ctx.at = k

        return {"start": start, "before_op": before}

    def judge(self, spec, out, fired, v):
        self.io = out["ctx"].io_op
        out["io"] = list(out["ctx"].io)
        super().judge(spec, out, fired, v)

    def judge_op(self, spec, t, k, op, got, fired, v):
        if op["e"] != "import":
            super().judge_op(spec, t, k, op, got, fired, v)
            return
        hard = [f for f in self.io.get(k, []) if f[2] != "short"]
        what = f"importing {op['p']['mods']}"
        if got is None:
            v.append({"kind": "lost", "op": [t, k], "entry": "import", "what": what + " never came back"})
        elif got[0] == "EXC":
            if not fired and not hard:
                v.append({"kind": "retry", "op": [t, k], "entry": "import", "what": f"{what} without a fault failed after the earlier attempts: {got[1]}: {got[2]}"})
        else:
            d = dict(got[1])
            if hard:
                v.append({"kind": "swallowed", "op": [t, k], "entry": "import", "what": f"{what} reported success although reading {hard[0][1]} failed ({hard[0][2]})"})
            lost = d.get("'missing'")
            if lost:
                v.append({"kind": "partial", "op": [t, k], "entry": "import", "what": f"{what} reported success, but what it gives is incomplete: {[x[1] for x in lost[1]]}"})
            bad = d.get("'units wrong'")
            if bad and bad[1]:
                how = " although a fault was injected" if (hard or fired) else ""
                v.append({"kind": "partial", "op": [t, k], "entry": "import", "what": f"{what} reported success{how}, but the units are incomplete or wrong: {[x[1] for x in bad[1]]}"})
