"""Seeded generation of runs: which callers exist, what they do in which order,
how they are scheduled and what fails."""
from . import catalog as C

PERT = (1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3)

# entries which are about the same objects or tables
GROUPS = [
    ["ld_lc", "ld_lc_u", "ld_solvec", "ld_parts", "light_curve"],
    ["kepler", "kepler_wide", "orbital_body", "system"],
    ["central", "central_from", "obody_new", "orbital_body", "obody_opts"],
    ["system", "system_attr", "system_vmap", "object_stack", "light_curve"],
    ["transit", "transit_new", "light_curve"],
    ["ttv_pos", "ttv_new", "ttv_warp", "expected_times", "light_curve"],
    ["light_curve", "integrate", "interpolate"],
    ["integrate", "integ_user", "interpolate", "interp_user", "vectorize"],
    ["quantity_input", "unit_field", "convert", "consts"],
    ["A1", "A2_inv", "basis", "U", "basis_terms", "poly_basis"],
    ["pijk", "pijk_obj", "poly_prod", "poly_basis", "ylm_mul"],
    ["ylm_mul", "ylm_ops", "ylm_from", "ylm_ld", "ylm_spot", "Bp", "wigner"],
    ["rotmat", "dot_rot", "dot_rz", "project", "axis_angle", "s2fft", "fast_project"],
    ["solvec", "solvec_grad", "rT", "surface_lc"],
    ["surface_new", "surface_attr", "render", "intensity", "surface_lc"],
    ["render", "render_rv", "surface_rv", "rv_expansion", "system_rv"],
    ["surface_lc", "system_lc", "emission", "surface_rv", "system_rv"],
    ["ortho_grid", "lines", "render", "y1d2d", "s2fft"],
    ["mp_A", "mp_R", "mp_sT", "mp_flux", "mp_parts"],
    ["mp_R", "mp_flux"],
    ["mp_sT", "mp_flux", "mp_precision"],
    ["mp_A", "mp_parts", "mp_utils"],
    ["equal_units", "equal_model", "quantity_input", "unit_field"],
    ["equal_model", "orbital_body", "transit", "ttv_new"],
    ["equal_map", "dot_rot", "rotmat", "ylm_ops", "pijk_shared", "surface_new"],
    ["obody_at", "orbital_body", "system", "system_at"],
    ["transit_at", "transit", "ttv_at", "light_curve"],
    ["surface_at", "render", "surface_lc", "intensity", "surface_attr"],
    ["pijk_shared", "pijk", "pijk_obj", "poly_prod", "poly_basis"],
    ["ylm_shared", "ylm_mul", "ylm_ops", "surface_new"],
    ["bad_many", "bad", "order_seen", "quantity_input"],
    ["custom_orbit", "light_curve", "ld_lc"],
    ["cb_raise", "cb_twice", "cb_once", "cb_nest"],
    ["cb_raise", "integrate", "interpolate", "integ_user", "interp_user"],
    ["cb_once", "cb_nest", "integ_user", "vectorize"],
    ["cb_raise", "cb_units", "quantity_input", "unit_field"],
    ["bad_body", "bad", "orbital_body", "system", "obody_new"],
    ["bad_central", "central", "central_from"],
    ["bad_time", "light_curve", "integrate", "interpolate", "transit", "ttv_pos"],
    ["wigner_high", "wigner", "ylm_mul", "ylm_shared"],
    ["dot_rot_bad", "dot_rot", "rotmat"],
    ["project_opts", "project", "fast_project", "surface_lc"],
    ["rv_hp", "surface_rv", "surface_lc"],
    ["mp_more", "mp_parts", "mp_A", "mp_sT3"],
    ["mp_sT3", "mp_sT", "mp_flux"],
    ["poly_fn", "poly_basis", "surface_attr", "render"],
    ["qi_fn", "qi_family", "quantity_input", "unit_field"],
    ["stack_fn", "system_vmap", "object_stack", "lc_family"],
    ["vec_fn", "vectorize", "lc_family", "nested"],
    ["nested", "nested", "integrate", "interpolate", "integ_user", "interp_user"],
    ["lc_family", "qi_family", "integ_user", "interp_user"],
    ["pijk_terms", "pijk_shared", "pijk"],
    ["ylm_terms", "ylm_shared", "ylm_mul"],
    ["rot_high", "dot_rot", "rotmat", "dot_rz"],
    ["map_high", "A1", "poly_basis", "render", "surface_new"],
]
HEAVY = {"system_lc", "system_rv", "surface_rv", "render_rv", "Bp", "ylm_spot", "mp_precision", "emission", "rot_high", "map_high"}


def choose(rng, items, weights):
    t = sum(weights)
    x = rng.random() * t
    for i, w in zip(items, weights):
        x -= w
        if x <= 0:
            return i
    return items[-1]


class Gen:
    """Draws operations for one run."""

    def __init__(self, rng, names, heat=None, modes=None, x64=(True,), dps=(None,), coarse=False):
        self.rng = rng
        self.names = [n for n in names if n in C.ENTRIES]
        self.heat = heat or {}
        self.modes = modes
        self.x64 = x64
        self.dps = dps
        self.coarse = coarse
        self.pref = {}
        self.start = {}  # operations known to execute what changed

    # -- which entries
    def focus(self, k):
        """k entries which have something to do with each other."""
        rng = self.rng
        lines = self.heat.get("lines") or {}
        first = None
        r = rng.random()
        new = self.heat.get("changed")
        if new and rng.random() < 0.55:
            ks = [x for x in sorted(new) if any(o["e"] in self.names for o in new[x])]
            if ks:
                ops = [o for o in new[rng.choice(ks)] if o["e"] in self.names]
                o = choose(rng, ops, [0.4 if o["e"] in HEAVY else 1 for o in ops])
                self.start[o["e"]] = o
                out = [o["e"]]
                while len(out) < k:
                    out.append(choose(rng, ops, [0.4 if o["e"] in HEAVY else 1 for o in ops])["e"] if rng.random() < 0.6 else self.one())
                return out
        if r < 0.45 and lines:
            ks = [x for x in sorted(lines) if any(n in self.names for n in lines[x])]
            if ks:
                users = [n for n in lines[rng.choice(ks)] if n in self.names]
                out = [choose(rng, users, [C.ENTRIES[n].w * (0.4 if n in HEAVY else 1) for n in users]) for _ in range(k)]
                if rng.random() < 0.3 and k > 1:
                    out[-1] = self.one()
                return out
        first = self.one()
        out = [first]
        gs = [g for g in GROUPS if first in g]
        g = [n for n in (rng.choice(gs) if gs else [first]) if n in self.names] or [first]
        while len(out) < k:
            out.append(rng.choice(g) if rng.random() < 0.8 else self.one())
        return out

    def one(self):
        return choose(self.rng, self.names, [C.ENTRIES[n].w * (0.4 if n in HEAVY else 1) for n in self.names])

    # -- parameters
    def params(self, name):
        rng = self.rng
        e = C.ENTRIES[name]
        p = {}
        for k, dom in e.dom.items():
            pk = (k, len(dom), C.key(dom[0]))
            r = rng.random()
            if pk in self.pref and r < 0.7:
                p[k] = self.pref[pk]
            elif r < 0.35:
                p[k] = dom[0]
            else:
                p[k] = rng.choice(dom)
            self.pref.setdefault(pk, p[k])
        return p

    def mode(self, name):
        e = C.ENTRIES[name]
        ms = [m for m in e.modes if self.modes is None or m in self.modes] or [e.modes[0]]
        if "eager" in ms and self.rng.random() < 0.6:
            return "eager"
        return self.rng.choice(ms)

    def op(self, name):
        o = {"e": name, "p": self.params(name), "mode": self.mode(name), "x64": self.rng.choice(self.x64)}
        new = self.heat.get("changed")
        if new:
            s = self.start.get(name)
            if s is None or self.rng.random() < 0.3:
                s = [x for k in sorted(new) for x in new[k] if x["e"] == name]
                s = self.rng.choice(s) if s else None
            if s and self.rng.random() < 0.6:
                o["p"] = {**o["p"], **s["p"]}
                if self.rng.random() < 0.7:
                    o["mode"] = s.get("mode", o["mode"])
        d = self.rng.choice(self.dps)
        if d is not None:
            o["dps"] = d
        return o

    def perturb(self, v):
        """The value with one number moved by a tiny amount, or replaced by one that
        compares equal but is not the same."""
        rng = self.rng
        if isinstance(v, bool) or v is None or isinstance(v, (str, int)):
            return v
        if isinstance(v, float):
            r = rng.random()
            if r < 0.2 and v == 0.0:
                return -0.0
            if r < 0.2 and v == int(v):
                return int(v)
            if r < 0.3:
                return v + rng.choice(PERT)
            return v * (1.0 + rng.choice(PERT))
        if isinstance(v, list):
            ix = [i for i, x in enumerate(v) if isinstance(x, (float, list))]
            if not ix:
                return v
            i = rng.choice(ix)
            return v[:i] + [self.perturb(v[i])] + v[i + 1 :]
        if isinstance(v, dict):
            ks = [k for k in v if isinstance(v[k], (float, list))]
            if not ks:
                return v
            k = rng.choice(ks)
            return {**v, k: self.perturb(v[k])}
        return v

    def vary(self, o):
        """o, or o changed in one respect."""
        rng = self.rng
        e = C.ENTRIES[o["e"]]
        o = {**o, "p": dict(o["p"])}
        r = rng.random()
        dims = [k for k in e.dom if len(e.dom[k]) > 1]
        if r < 0.22 or not dims:
            pass
        elif r < 0.70:
            k = rng.choice(dims)
            o["p"][k] = rng.choice([v for v in e.dom[k] if v != o["p"][k]] or e.dom[k])
        elif r < 0.80:
            for k in rng.sample(dims, min(2, len(dims))):
                o["p"][k] = rng.choice(e.dom[k])
        elif r < 0.88:
            fl = [k for k in e.dom if isinstance(o["p"][k], float) or (isinstance(o["p"][k], (list, dict)) and C.key(o["p"][k]).find(".") >= 0)]
            if fl:
                k = rng.choice(fl)
                o["p"][k] = self.perturb(o["p"][k])
        else:
            o["mode"] = self.mode(o["e"])
        if len(self.x64) > 1 and rng.random() < 0.4:
            o["x64"] = rng.choice(self.x64)
        if len(self.dps) > 1 and rng.random() < 0.4:
            d = rng.choice(self.dps)
            o.pop("dps", None)
            if d is not None:
                o["dps"] = d
        return o

    def script(self, foci, n, bases=None, events=0.08):
        rng = self.rng
        bases = {} if bases is None else bases
        out = []
        for i in range(n):
            name = foci[i] if i < len(foci) and rng.random() < 0.5 else rng.choice(foci)
            if name in bases and rng.random() < 0.85:
                o = self.vary(bases[name])
            else:
                o = self.op(name)
            if name not in bases or rng.random() < 0.25:
                bases[name] = o
            if events and rng.random() < events:
                out.append(self.event())
            out.append(o)
        return out

    def sweep(self, n):
        """Many calls of one kind that all differ, as in a fit, then the first ones again."""
        rng = self.rng
        names = [x for x in self.names if x not in HEAVY]
        name = rng.choice(names)
        base = self.op(name)
        out = []
        for _ in range(n):
            o = self.vary(base)
            e = C.ENTRIES[name]
            for k in e.dom:
                if rng.random() < 0.5:
                    o["p"][k] = rng.choice(e.dom[k])
            fl = [k for k in e.dom if isinstance(o["p"][k], float) or (isinstance(o["p"][k], (list, dict)) and C.key(o["p"][k]).find(".") >= 0)]
            if fl and rng.random() < 0.7:
                k = rng.choice(fl)
                o["p"][k] = self.perturb(o["p"][k])
            out.append(o)
        check = set(rng.sample(range(n), 2))
        res = [{**o, "_skip": True} if i not in check else o for i, o in enumerate(out)]
        return res + [out[0], out[rng.randrange(n)], out[-1]]

    def event(self):
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return {"e": "@gc"}
        if r < 0.55:
            return {"e": "@drop"}
        if r < 0.75:
            return {"e": "@clock", "dt": rng.choice([1.0, 3600.0, 86400.0 * 400, -3600.0])}
        if r < 0.9:
            return {"e": "@rng", "v": rng.randrange(1000)}
        return {"e": "@clear"}


def derive(rng, threads, p):
    """Sometimes a call is made on a copy of the shared object, which is equal to it."""
    if rng.random() < p:
        how = rng.choice(["copy", "deepcopy", "map", "flat", "pickle"])
        for sc in threads:
            for o in sc:
                if not o["e"].startswith("@") and rng.random() < 0.5:
                    o["_derive"] = how


def inner(rng, threads, p):
    """Some calls are made inside a jitted function which closes over their arguments."""
    for s in threads:
        for o in s:
            e = C.ENTRIES.get(o["e"])
            if e is not None and e.fam in ("orbit", "surface") and o["e"] not in HEAVY and not o.get("nojit") and not o.get("_derive") and rng.random() < p:
                o["mode"] = "inner"


def nojit(rng, threads, p):
    """Sometimes the callers run the library without compilation, as one does to debug:
    then callers are also interleaved inside functions JAX would otherwise trace."""
    if rng.random() < p:
        for sc in threads:
            for o in sc:
                if not o["e"].startswith("@") and o["e"] in C.ENTRIES and C.ENTRIES[o["e"]].fam in ("orbit", "surface"):
                    o["nojit"] = True


def sched(rng, seed, threads, hots=None):
    """A schedule policy for one concurrent run. hots(op) gives the event numbers
    at which op touches state that outlives the call, when run alone."""
    kind = rng.random()
    s = {"kind": "rand", "seed": seed, "p": 0.0, "p_hot": 0.0, "p_op": rng.choice([0.2, 0.5, 0.9]), "solo": rng.choice([0.2, 0.6, 0.9]), "maxsw": rng.choice([8, 25, 60])}
    if kind < 0.35:
        s["p_hot"] = rng.choice([0.05, 0.2, 0.5])
        s["p"] = rng.choice([0.0, 0.001])
    elif kind < 0.55:
        s["p"] = rng.choice([0.002, 0.01, 0.04])
        s["p_hot"] = s["p"]
    else:
        aim = []
        for t, sc in enumerate(threads):
            for k, o in enumerate(sc):
                h = (hots(o) if hots and not o["e"].startswith("@") else None) or []
                if h and rng.random() < 0.7:
                    c = rng.choice(h)
                    w = rng.choice([1, 1, 3, 8])
                    aim.append([t, k, [c + d for d in range(w)]])
        s["aim"] = aim
        s["p_hot"] = rng.choice([0.0, 0.0, 0.1])
        s["p"] = 0.0 if aim else 0.01
        s["solo"] = rng.choice([0.6, 0.95])
    return s


def faults(rng, prof, n_kinds=("KeyboardInterrupt", "MemoryError")):
    """Where in the op (call point number) it fails, and how."""
    c = prof.get("c", 0)
    if not c:
        return None
    h = prof.get("hot_c") or []
    r = rng.random()
    if h and r < 0.6:
        at = max(1, rng.choice(h) + rng.choice([-2, -1, 0, 0, 1, 1, 2, 3]))
    elif r < 0.75:
        at = rng.randrange(1, min(c, 30) + 1)
    else:
        at = rng.randrange(1, c + 1)
    if rng.random() < 0.15:
        return at, rng.choice(("TimeoutError", "RecursionError"))
    return at, rng.choice(n_kinds)
