"""The public operations of the library that the simulated callers perform.

Each entry maps a small JSON parameter vector to (function, arguments).  The
parameter domains hold near-collisions on purpose: values which differ in one
respect only (one digit, the dtype, the unit, the order of the numerical
scheme, ...), because that is where shared state that is keyed, invalidated or
initialised incompletely shows."""
import json

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core as _core

ENTRIES = {}
EAGER = ("eager",)
ALL = ("eager", "jit", "grad", "jvp", "vmap")
NOGRAD = ("eager", "jit", "vmap")


class Entry:
    def __init__(self, name, fam, fn, dom, modes, w):
        self.name, self.fam, self.fn, self.dom, self.modes, self.w = name, fam, fn, dom, modes, w


def entry(name, fam, modes=EAGER, w=1.0, **dom):
    def deco(fn):
        assert name not in ENTRIES, name
        ENTRIES[name] = Entry(name, fam, fn, dom, modes, w)
        return fn

    return deco


def key(x):
    return json.dumps(x, sort_keys=True)


class Pool:
    """Builds the objects an operation is about. With share=True operations with
    the same recipe get the very same object, as callers that share a model do."""

    def __init__(self, L, share=True):
        self.L = L
        self.share = share
        self.objs = {}
        self.order = []

    def __call__(self, kind, /, **recipe):
        if not _core.trace_state_clean():
            # what callers share is not built in somebody's trace
            with _core.eval_context():
                return self._get(kind, recipe)
        return self._get(kind, recipe)

    def _get(self, kind, recipe):
        k = key([kind, recipe])
        if self.share and k in self.objs:
            return self.objs[k]
        o = BUILD[kind](self.L, self, **recipe)
        if self.share:
            self.objs[k] = o
            self.order.append(k)
            self.made(k, o)
        return o

    def made(self, k, o):
        pass


BUILD = {}


def build(kind):
    def deco(fn):
        BUILD[kind] = fn
        return fn

    return deco


def q(L, v):
    """[x, "unit"] -> quantity; anything else unchanged (lists of numbers become arrays)."""
    if isinstance(v, list) and len(v) == 2 and isinstance(v[1], str):
        u = L("units").unit_registry
        x = v[0]
        if isinstance(x, list):
            x = jnp.asarray(x)
        return x * getattr(u, v[1]) if v[1] != "1/d" else x / u.d
    if isinstance(v, list):
        return jnp.asarray(v, dtype=float)
    return v


def qd(L, d):
    return {k: q(L, v) for k, v in d.items()}


# ------------------------------------------------------------------ recipes
CENTRALS = [
    {},
    {"mass": 1.0, "radius": 1.0},
    {"mass": 1.0, "radius": 1.0000001},
    {"mass": 1.1, "radius": 0.9},
    {"radius": 0.9, "density": 1.3},
    {"mass": 1.1, "density": 1.3},
    {"mass": [2.0e33, "g"], "radius": [1.0, "R_sun"]},
]
BODY0 = {"period": 3.456, "time_transit": 0.1, "radius": 0.1, "mass": 0.001}
BODIES = [
    BODY0,
    {**BODY0, "radius": 0.1000001},
    {**BODY0, "time_transit": 0.2},
    {**BODY0, "period": 3.4560001},
    {**BODY0, "impact_param": 0.3},
    {**BODY0, "inclination": 1.5},
    {**BODY0, "eccentricity": 0.3, "omega_peri": 0.4},
    {**BODY0, "eccentricity": 0.3, "omega_peri": -1.4},
    {**BODY0, "eccentricity": 0.0, "omega_peri": 0.4},
    {**BODY0, "eccentricity": 0.3, "sin_omega_peri": 0.6, "cos_omega_peri": 0.8},
    {**BODY0, "asc_node": 0.5},
    {**BODY0, "radial_velocity_semiamplitude": 2.5},
    {**BODY0, "parallax": [23.9, "arcsec"]},
    {"semimajor": 9.3, "time_peri": 0.3, "radius": 0.05, "eccentricity": 0.1, "omega_peri": 0.2},
    {"period": [80.0, "hour"], "time_transit": [0.3, "d"], "radius": [1.5, "R_earth"]},
    {"period": 1.3, "radius": 0.07},
    {"period": 5.5, "radius": 0.2, "mass": 0.002, "impact_param": 0.1},
]
# systems: prefix histories on purpose (snapshots of one growing system)
SYSTEMS = [
    {"central": {}, "bodies": [0]},
    {"central": {}, "bodies": [0, 15]},
    {"central": {}, "bodies": [0, 15, 16]},
    {"central": {}, "bodies": [15]},
    {"central": {}, "bodies": [0, 6]},
    {"central": {}, "bodies": [6, 0]},
    {"central": {}, "bodies": [0, 1]},
    {"central": {"mass": 1.1, "radius": 0.9}, "bodies": [0]},
    {"central": {"mass": 1.1, "radius": 0.9}, "bodies": [0, 6, 13]},
    {"central": {}, "bodies": [4, 16]},
    {"central": {}, "bodies": [12]},
    {"central": {}, "bodies": [11, 0]},
]
TIMES = [[0.0, 0.1, 0.25], [0.0, 0.1, 0.2500001], [0.05], [0.1, 1.5, 3.5, 4.0], 0.1, [[0.1, 0.2], [0.3, 3.5]]]
TIMESQ = TIMES + [[[0.1, 0.2], "d"], [[2.4, 4.8], "hour"]]
US = [[0.1, 0.3], [0.1, 0.3000001], [0.3, 0.1], [0.2], [], [0.1, 0.3, 0.05]]
TRANSITS = [
    {"period": 3.0, "duration": 0.2, "time_transit": 0.1, "impact_param": 0.2, "radius_ratio": 0.1},
    {"period": 3.0, "duration": 0.2000001, "time_transit": 0.1, "impact_param": 0.2, "radius_ratio": 0.1},
    {"period": 3.0, "speed": 10.0, "time_transit": 0.1, "impact_param": 0.2, "radius_ratio": 0.1},
    {"period": 3.0, "duration": 0.2, "radius_ratio": 0.1},
    {"period": 3.0, "duration": 0.2, "impact_param": 0.2},
    {"period": [72.0, "hour"], "duration": [4.8, "hour"], "time_transit": 0.1, "impact_param": 0.2, "radius_ratio": 0.1},
    {"period": [3.0, 4.0], "duration": [0.2, 0.3], "time_transit": [0.1, 0.2], "impact_param": [0.0, 0.2], "radius_ratio": [0.1, 0.05]},
]
TTVS = [
    {"period": 3.0, "duration": 0.2, "time_transit": 0.1, "impact_param": 0.1, "radius_ratio": 0.1, "ttvs": [[0.01, -0.02, 0.01, 0.0]]},
    {"period": 3.0, "duration": 0.2, "time_transit": 0.1, "impact_param": 0.1, "radius_ratio": 0.1, "ttvs": [[0.01, -0.02, 0.01, 0.03]]},
    {"period": [3.0, 4.0], "duration": [0.2, 0.2], "time_transit": [0.1, 0.3], "impact_param": [0.1, 0.0], "radius_ratio": [0.1, 0.1],
     "ttvs": [[0.01, -0.02, 0.01], [0.0, 0.03, -0.01]]},
    {"duration": 0.2, "impact_param": 0.1, "radius_ratio": 0.1, "transit_times": [[0.1, 3.12, 6.09, 9.1]]},
    {"duration": 0.2, "impact_param": 0.1, "radius_ratio": 0.1, "transit_times": [[0.1, 3.12, 9.09, 12.1]], "transit_inds": [[0, 1, 3, 4]]},
    {"duration": 0.2, "impact_param": 0.1, "radius_ratio": 0.1, "transit_times": [[0.1, 3.12, 9.09, 12.1]], "transit_inds": [[0, 1, 3, 5]]},
    {"duration": 0.2, "impact_param": 0.1, "radius_ratio": 0.1, "transit_times": [[0.1, 3.12, 6.09, 9.1]], "delta_log_period": 0.01},
]  # fmt: skip


@build("central")
def _(L, P, c):
    return L("orbits.keplerian").Central(**qd(L, c))


@build("body")
def _(L, P, b):
    return L("orbits.keplerian").Body(**qd(L, BODIES[b]))


@build("obody")
def _(L, P, c, b):
    return L("orbits.keplerian").OrbitalBody(P("central", c=c), P("body", b=b))


@build("system")
def _(L, P, central, bodies, via="add"):
    S = L("orbits.keplerian").System
    if via == "init":
        return S(P("central", c=central), bodies=[P("body", b=b) for b in bodies])
    if not bodies:
        return S(P("central", c=central))
    s = P("system", central=central, bodies=bodies[:-1], via=via)
    if via == "body":
        return s.add_body(P("body", b=bodies[-1]))
    return s.add_body(**qd(L, BODIES[bodies[-1]]))


@build("transit")
def _(L, P, t):
    return L("orbits.transit").TransitOrbit(**qd(L, TRANSITS[t]))


@build("ttv")
def _(L, P, t):
    d = dict(TTVS[t])
    kw = {}
    for k, v in d.items():
        if k in ("ttvs", "transit_times"):
            kw[k] = tuple(jnp.asarray(x) for x in v)
        elif k == "transit_inds":
            kw[k] = tuple(jnp.asarray(x) for x in v)
        else:
            kw[k] = q(L, v)
    return L("orbits.ttv").TTVOrbit(**kw)


@build("orbit")
def _(L, P, kind, i, via="add"):
    if kind == "system":
        return P("system", via=via, **SYSTEMS[i])
    return P(kind, t=i)


@build("lc")
def _(L, P, orbit, u, order):
    return L("light_curves.limb_dark").light_curve(P("orbit", **orbit), *([jnp.asarray(u)] if u else []), order=order)


@build("integ")
def _(L, P, lc, exp, order, num):
    return L("light_curves.transforms").integrate(P("lc", **lc), exposure_time=q(L, exp), order=order, num_samples=num)


@build("interp")
def _(L, P, lc, period, t0, dur, num):
    return L("light_curves.transforms").interpolate(
        P("lc", **lc), period=q(L, period), time_transit=q(L, t0), num_samples=num, duration=q(L, dur)
    )


@build("emission")
def _(L, P, sys, order):
    return L("light_curves.emission").light_curve(P("ssystem", **sys), order=order)


# surfaces
YLMS = [
    {"0,0": 1.0, "1,0": 0.3},
    {"0,0": 1.0, "1,0": 0.3000001},
    {"0,0": 1.0, "1,-1": 0.3},
    {"0,0": 1.0, "1,1": 0.2, "2,-1": 0.1},
    {"0,0": 1.0, "2,0": 0.1},
    {"0,0": 2.0, "1,0": 0.6},
    {"0,0": 1.0, "1,0": 0.2, "2,2": 0.1, "3,-1": 0.05},
    {"0,0": 1.0},
    {"1,0": 0.3, "0,0": 1.0},
]
SURFS = [
    {"y": 0, "u": [0.1]},
    {"y": 0, "u": [0.1], "inc": 1.0},
    {"y": 0, "u": [0.1], "inc": 1.0000001},
    {"y": 0, "u": [0.1], "inc": 1.0, "obl": 0.2},
    {"y": 0, "u": [0.1], "inc": 1.0, "obl": 0.3},
    {"y": 1, "u": [0.1]},
    {"y": 0, "u": [0.2]},
    {"y": 0, "u": []},
    {"y": 0, "u": [0.1, 0.2]},
    {"y": 3, "u": [0.1], "inc": 1.0, "obl": 0.2, "period": 2.0},
    {"y": 3, "u": [0.1], "inc": 1.0, "obl": 0.2, "period": 2.0, "phase": 0.3},
    {"y": 3, "u": [], "inc": None},
    {"y": 5, "u": [0.1]},
    {"y": 5, "u": [0.1], "normalize": False, "amplitude": 2.0},
    {"y": 5, "u": [0.1], "normalize": False},
    {"y": 7, "u": [0.1, 0.2]},
    {"y": 7, "u": []},
    {"y": 4, "u": [0.1], "period": 1.5, "radius": 1.2},
    {"y": None, "u": [0.3]},
    {},
]
SURF_RV = [
    {"y": 0, "u": [0.1], "inc": 1.0, "obl": 0.2, "period": 2.0},
    {"y": 0, "u": [0.1], "inc": 1.0, "obl": 0.2, "period": 2.0000001},
    {"y": 2, "u": [], "inc": 1.2, "obl": 0.1, "period": 3.0, "radius": 1.1},
    {"y": 7, "u": [0.1], "inc": 1.0, "obl": 0.2, "period": 2.0},
]
SSYS = [
    {"cs": 9, "bodies": [[0, None]]},
    {"cs": 9, "bodies": [[0, 0]]},
    {"cs": 9, "bodies": [[0, 0], [15, 0]]},
    {"cs": 9, "bodies": [[0, 0], [15, 8]]},
    {"cs": 0, "bodies": [[4, 15]]},
    {"cs": 15, "bodies": [[0, 16]]},
    {"cs": 9, "bodies": []},
    {"cs": None, "bodies": [[0, 0]]},
    {"cs": 10, "bodies": [[0, 1]]},
]


@build("ylm")
def _(L, P, y):
    return L("starry.ylm").Ylm({tuple(int(i) for i in k.split(",")): v for k, v in YLMS[y].items()})


def _surf(L, P, d, cls=None):
    d = dict(d)
    if "y" in d:
        d["y"] = None if d["y"] is None else P("ylm", y=d["y"])
    return L("starry.surface").Surface(**d)


@build("surface")
def _(L, P, s, rv=False):
    return _surf(L, P, (SURF_RV if rv else SURFS)[s])


@build("ssystem")
def _(L, P, s, rv=False):
    d = SSYS[s] if not rv else {"cs": s, "bodies": [[0, None]]}
    S = L("starry.orbit").SurfaceSystem
    cs = None if d["cs"] is None else P("surface", s=d["cs"], rv=rv)
    if not d["bodies"]:
        return S(P("central", c={}), central_surface=cs)
    if len(d["bodies"]) > 1 and s % 2:
        return S(
            P("central", c={}),
            central_surface=cs,
            bodies=[(P("body", b=b), None if x is None else P("surface", s=x)) for b, x in d["bodies"]],
        )
    sy = S(P("central", c={}), central_surface=cs)
    for b, x in d["bodies"]:
        sy = sy.add_body(P("body", b=b), None if x is None else P("surface", s=x))
    return sy


@build("solvec")
def _(L, P, which, l, order):
    m = L("core.limb_dark") if which == "ld" else L("starry.core.solution")
    return m.solution_vector(l, order=order)


@build("spot")
def _(L, P, ydeg, npts, fac):
    return L("starry.ylm").ylm_spot(ydeg, npts=npts, spot_fac=fac)


@build("rotfn")
def _(L, P, deg, ax, theta):
    return L("starry.core.rotation").dot_rotation_matrix(deg, *ax, theta)


@build("starlc")
def _(L, P, sys, order):
    return L("starry.light_curves").light_curve(P("ssystem", **sys), order=order)


@build("starrv")
def _(L, P, s, order):
    return L("starry.doppler").radial_velocity(P("ssystem", s=s, rv=True), order=order)


@build("mpflux")
def _(L, P, ydeg, udeg, kw, cache="lib", prec=None):
    c = P("mpcache", name=cache) if cache != "lib" else None
    return L("starry.multiprecision.flux").flux(ydeg=ydeg, udeg=udeg, cache=c, **kw)


@build("mpcache")
def _(L, P, name):
    from collections import defaultdict

    return defaultdict(lambda: {"R_obl": {}, "R_inc": {}, "sT": {}})


def A(x, dt=None):
    a = jnp.asarray(x)
    if a.dtype.kind == "f":
        a = a.astype(float)
    if dt == "f32":
        a = a.astype(jnp.float32)
    elif dt == "np":
        return np.asarray(x, dtype=float)
    return a


# ------------------------------------------------------------------ core
MS = [[0.3, 1.2, 4.0], [0.3, 1.2, 4.0000001], [0.3], 1.2, [[0.3, 1.2], [2.0, 7.0]], [-0.5, 10.0, 100.0]]


@entry("kepler", "orbit", ALL, M=MS, ecc=[0.1, 0.1000001, 0.0, 0.9, 0.999], dt=[None, "f32", "np"])
def _(L, P, M, ecc, dt):
    M = A(M, dt)
    e = np.full(np.shape(M), ecc) if dt == "np" else jnp.full(jnp.shape(M), ecc, dtype=M.dtype)
    return L("core.kepler").kepler, (M, e)


@entry("kepler_wide", "orbit", NOGRAD, n=[3, 5, 8], ecc=[0.2, 0.6])
def _(L, P, n, ecc):
    return L("core.kepler").kepler, (jnp.linspace(0.0, 6.0, n), jnp.full((n,), ecc))


BS = [[0.0, 0.5, 1.05], [0.0, 0.5, 1.0500001], [0.3], 0.3, [0.99, 1.2], [[0.1, 0.2], [0.9, 1.01]]]
RS = [0.1, 0.1000001, 0.3, 0.0, 1.5]


@entry("ld_lc", "orbit", ALL, w=1.5, u=US, b=BS, r=RS, order=[10, 11, 6, 20], dt=[None, "f32"])
def _(L, P, u, b, r, order, dt):
    f = L("core.limb_dark").light_curve
    return (lambda b, r: f(A(u, dt) if u else jnp.array([]), b, r, order=order)), (A(b, dt), A(r, dt))


@entry("ld_lc_u", "orbit", ("eager", "grad", "jvp"), u=[[0.1, 0.3], [0.1, 0.3000001], [0.2]], b=[0.3, 0.95], order=[10, 6])
def _(L, P, u, b, order):
    f = L("core.limb_dark").light_curve
    return (lambda u: f(u, jnp.asarray(b), jnp.asarray(0.1), order=order)), (A(u),)


@entry("ld_solvec", "orbit", NOGRAD, l=[2, 3, 1, 0], order=[10, 11, 6], b=[0.3, 0.5, 1.05], r=[0.1, 0.2])
def _(L, P, l, order, b, r):
    return P("solvec", which="ld", l=l, order=order), (A(b), A(r))


@entry("ld_parts", "orbit", NOGRAD, u=US, b=[0.3, 0.95, 1.05], r=[0.1, 0.2], part=["greens", "kappas", "s0s2", "p", "kite"])
def _(L, P, u, b, r, part):
    m = L("core.limb_dark")
    if part == "greens":
        return m.greens_basis_transform, (A(u) if u else jnp.array([]),)
    if part == "kappas":
        return m.kappas, (A(b), A(r))
    if part == "kite":
        return m.kite_area, (A(r), A(b), A(1.0))
    if part == "s0s2":

        def g(b, r):
            a, k0, k1 = m.kappas(b, r)
            return m.s0s2(b, r, b**2, r**2, a, k0, k1)

        return g, (A(b), A(r))

    def g(b, r):
        _, k0, _ = m.kappas(b, r)
        return m.p_integral(6, 3, b, r, b**2, r**2, k0)

    return g, (A(b), A(r))


@entry("zero_safe_sqrt", "orbit", ALL, x=[[0.0, 4.0], [1.0], [0.0, 4.0000001]], dt=[None, "f32"])
def _(L, P, x, dt):
    return L("utils").zero_safe_sqrt, (A(x, dt),)


@entry("dtype_eps", "orbit", EAGER, x=[1.0, [1.0]], dt=[None, "f32", "np"])
def _(L, P, x, dt):
    return L("utils").get_dtype_eps, (A(x, dt),)


# ------------------------------------------------------------------ orbits
@entry("central", "orbit", EAGER, w=0.7, c=CENTRALS)
def _(L, P, c):
    def f():
        x = L("orbits.keplerian").Central(**qd(L, c))
        return x, x.shape

    return f, ()


@entry("central_from", "orbit", EAGER, w=0.7, period=[3.0, 3.0000001], a=[9.0, [0.04, "au"]], radius=[None, 1.1], bm=[None, 0.01])
def _(L, P, period, a, radius, bm):
    return lambda: L("orbits.keplerian").Central.from_orbital_properties(
        period=period, semimajor=q(L, a), radius=radius, body_mass=bm
    ), ()


OB_METHODS = ["position", "central_position", "relative_position", "velocity", "central_velocity", "relative_velocity", "radial_velocity"]


@entry("orbital_body", "orbit", ("eager", "jit"), w=1.5, c=CENTRALS[:4], b=list(range(len(BODIES))), m=OB_METHODS, t=[0.1, 0.1000001, 1.7, [2.4, "hour"]])
def _(L, P, c, b, m, t):
    o = P("obody", c=c, b=b)
    return (lambda t: getattr(o, m)(t)), (q(L, t) if isinstance(t, list) else A(t),)


@entry("obody_new", "orbit", EAGER, c=CENTRALS[:3], b=list(range(len(BODIES))))
def _(L, P, c, b):
    def f():
        k = L("orbits.keplerian")
        o = k.OrbitalBody(k.Central(**qd(L, c)), k.Body(**qd(L, BODIES[b])))
        return o, o.shape, o.inclination, o.omega_peri, o.total_mass, o.central_radius

    return f, ()


@entry("obody_opts", "orbit", EAGER, b=[0, 6, 12], m=["relative_angles", "rv_semi", "pos_parallax"], t=[0.1, 1.7], v=[2.0, 3.0])
def _(L, P, b, m, t, v):
    o = P("obody", c={}, b=b)
    u = L("units").unit_registry
    if m == "relative_angles":
        return (lambda t: o.relative_angles(t, parallax=v * u.arcsec)), (A(t),)
    if m == "rv_semi":
        return (lambda t: o.radial_velocity(t, semiamplitude=v)), (A(t),)
    return (lambda t: o.position(t, parallax=v * u.arcsec)), (A(t),)


@entry("system", "orbit", ("eager", "jit"), w=2.0, s=list(range(len(SYSTEMS))), m=OB_METHODS, t=[0.1, 0.1000001, 1.7], via=["add", "init", "body"])
def _(L, P, s, m, t, via):
    o = P("system", via=via, **SYSTEMS[s])
    return (lambda t: getattr(o, m)(t)), (A(t),)


@entry("system_attr", "orbit", EAGER, s=list(range(len(SYSTEMS))), via=["add", "init"])
def _(L, P, s, via):
    def f():
        o = P("system", via=via, **SYSTEMS[s])
        return o.shape, o.radius, o.central_radius, o.central, o.bodies

    return f, ()


@entry("system_vmap", "orbit", EAGER, s=[1, 4, 5, 8, 9], t=[[0.1, 0.2], 0.1], ax=[None, 0], f=["xr", "dict", "period"])
def _(L, P, s, t, ax, f):
    o = P("system", via="add", **SYSTEMS[s])
    n = len(SYSTEMS[s]["bodies"])

    def xr(b, t):
        x = b.position(t if jnp.ndim(t) == 0 else t[0])[0]
        return x / b.radius

    def dct(b, t):
        return {"x": xr(b, t), "p": b.period, "t": jnp.asarray(t) * 2.0}

    def per(b, t):
        return b.period

    fn = {"xr": xr, "dict": dct, "period": per}[f]
    ta = A(t)
    if ax == 0:
        ta = jnp.stack([jnp.atleast_1d(ta) + 0.1 * k for k in range(n)])
        return lambda: o.body_vmap(lambda b, t: fn(b, t[0]), in_axes=0)(ta), ()
    return lambda: o.body_vmap(fn, in_axes=None)(ta), ()


@entry("object_stack", "orbit", EAGER, objs=[[1.0, 2.0], [1.0, 2.0, 3.0], [1.0, [2.0, 3.0]]], hetero=[False, True], out=[0, None], x=[0.5, 0.7])
def _(L, P, objs, hetero, out, x):
    def f():
        items = [{"a": jnp.asarray(o if not isinstance(o, list) else o[0])} for o in objs]
        if hetero:
            items[0] = {"a": items[0]["a"], "b": None}
        st = L("object_stack").ObjectStack(*items)
        g = (lambda o, t: o["a"] * t) if out == 0 else (lambda o, t: t * 2.0)
        return len(st), st.vmap(g, in_axes=None, out_axes=out)(jnp.asarray(x))

    return f, ()


@entry("transit", "orbit", ("eager", "jit"), o=list(range(len(TRANSITS))), t=[0.1, 0.1000001, 2.9, [2.4, "hour"]])
def _(L, P, o, t):
    orb = P("transit", t=o)
    return (lambda t: orb.relative_position(t)), (q(L, t) if isinstance(t, list) else A(t),)


@entry("transit_new", "orbit", EAGER, o=list(range(len(TRANSITS))))
def _(L, P, o):
    def f():
        x = L("orbits.transit").TransitOrbit(**qd(L, TRANSITS[o]))
        return x, x.shape, x.radius, x.central_radius

    return f, ()


@entry("ttv_pos", "orbit", ("eager", "jit"), w=1.5, o=list(range(len(TTVS))), t=[0.1, 3.1, 6.15, [6.15, "d"]])
def _(L, P, o, t):
    orb = P("ttv", t=o)
    return (lambda t: orb.relative_position(t)), (q(L, t) if isinstance(t, list) else A(t),)


@entry("ttv_new", "orbit", EAGER, w=1.5, o=list(range(len(TTVS))))
def _(L, P, o):
    def f():
        x = BUILD["ttv"](L, P, o)
        return x, x.linear_t0, x.linear_period, x.shape

    return f, ()


@entry("ttv_warp", "orbit", EAGER, o=list(range(len(TTVS))), t=[[0.1, 3.1], [0.1, 3.1000001], [6.1, 9.0]])
def _(L, P, o, t):
    orb = P("ttv", t=o)
    return (lambda t: orb._warp_times(t * L("units").unit_registry.d)), (A(t),)


@entry("expected_times", "orbit", EAGER, lo=[0.0, 1.0], hi=[10.0, 12.0], p=[[3.0], [3.0, 4.0], [3.1]], t0=[[0.1], [0.1, 0.3]])
def _(L, P, lo, hi, p, t0):
    return lambda: L("orbits.ttv").compute_expected_transit_times(lo, hi, jnp.asarray(p), jnp.asarray(t0)), ()


# ------------------------------------------------------------------ light curves
ORBITS = [{"kind": "system", "i": i} for i in (0, 1, 4, 7, 9)] + [{"kind": "transit", "i": i} for i in (0, 1, 2, 6)] + [{"kind": "ttv", "i": i} for i in (0, 3)]


@entry("light_curve", "orbit", ("eager", "jit"), w=2.5, orbit=ORBITS, u=US, order=[10, 6], t=TIMESQ)
def _(L, P, orbit, u, order, t):
    f = P("lc", orbit=orbit, u=u, order=order)
    if isinstance(t, list) and len(t) == 2 and isinstance(t[1], str):
        return f, (q(L, t),)
    return f, (A(t),)


LC0 = {"orbit": ORBITS[0], "u": [0.1, 0.3], "order": 6}
LC1 = {"orbit": ORBITS[5], "u": [0.1, 0.3], "order": 6}
LC2 = {"orbit": ORBITS[5], "u": [0.2], "order": 6}


@entry("integrate", "orbit", ("eager", "jit"), w=2.0, lc=[LC1, LC2, LC0], exp=[0.05, 0.0500001, 0.1, [0.5, "hour"], None], order=[0, 1, 2], num=[7, 5, 6], t=TIMES[:4])
def _(L, P, lc, exp, order, num, t):
    return P("integ", lc=lc, exp=exp, order=order, num=num), (A(t),)


@entry("interpolate", "orbit", ("eager", "jit"), w=2.0, lc=[LC1, LC2, LC0], period=[3.0, 3.1, [72.0, "hour"]], t0=[0.1, 0.2], dur=[None, 0.4], num=[21, 31], t=TIMES[:4])
def _(L, P, lc, period, t0, dur, num, t):
    return P("interp", lc=lc, period=period, t0=t0, dur=dur, num=num), (A(t),)


@entry("integ_user", "orbit", EAGER, exp=[0.05, 0.1], order=[0, 1, 2], num=[5, 7], a=[1.0, 2.0], unit=[False, True])
def _(L, P, exp, order, num, a, unit):
    u = L("units").unit_registry

    def model(t, k):
        v = jnp.sin(t.magnitude * k)
        return v * u.m if unit else v

    def f():
        return L("light_curves.transforms").integrate(model, exposure_time=exp, order=order, num_samples=num)(jnp.array([0.1, 0.2]), a)

    return f, ()


@entry("interp_user", "orbit", EAGER, num=[15, 25], args=[[2.0], [3.0], []], kw=[{}, {"c": 0.5}], unit=[False, True])
def _(L, P, num, args, kw, unit):
    u = L("units").unit_registry

    def model(t, k=1.0, c=0.0):
        v = jnp.sin(t.magnitude * k) + c
        return v * u.m if unit else v

    def f():
        g = L("light_curves.transforms").interpolate(
            model, period=3.0, time_transit=0.5, num_samples=num, args=tuple(args), kwargs=kw
        )
        return g(jnp.array([0.1, 0.2, 2.9]))

    return f, ()


@entry("vectorize", "orbit", EAGER, t=[0.1, [0.1, 0.2], [[0.1], [0.3]]], k=[1.0, 2.0], unit=[False, True])
def _(L, P, t, k, unit):
    u = L("units").unit_registry

    def model(t, k):
        return (t.magnitude if unit else t) * k

    def f():
        tt = A(t)
        return L("light_curves.utils").vectorize(model)(tt * u.d if unit else tt, k)

    return f, ()


@entry("emission", "surface", ("eager", "jit"), s=[1, 2, 3, 4, 5, 0], order=[10, 6], t=[[0.05, 1.7], [0.05, 1.7000001], 0.1])
def _(L, P, s, order, t):
    return P("emission", sys={"s": s}, order=order), (A(t),)


# ------------------------------------------------------------------ units
@entry("quantity_input", "orbit", EAGER, w=1.5, a=[1.0, [1.0, "m"], [1.0, "km"], [1.0, "AU"], [1.0, "s"]], b=[2.0, [2.0, "s"], [2.0, "minute"]], strict=[False, True], shape=["flat", "tree"])
def _(L, P, a, b, strict, shape):
    u = L("units").unit_registry
    U = L("units")

    def f():
        if shape == "flat":

            @U.quantity_input(a=u.m, b=u.s, _strict=strict)
            def speed(a, b, flag=None):
                return a / b

            return speed(q(L, a), q(L, b)), speed(q(L, a), b=q(L, b), flag=1)

        @U.quantity_input(p={"a": u.m, "b": u.s, "c": None}, _strict=strict)
        def speed2(p):
            return p["a"] / p["b"], p["c"]

        return speed2({"a": q(L, a), "b": q(L, b), "c": 3})

    return f, ()


@entry("unit_field", "orbit", EAGER, x=[1.0, [1.0, "m"], [1.0, "km"], [1.0, "s"], None], strict=[False, True], dflt=[False, True])
def _(L, P, x, strict, dflt):
    import equinox as eqx

    u = L("units").unit_registry
    field = L("units").field

    def f():
        class M(eqx.Module):
            a: object = field(units=u.m, strict=strict)
            b: object = field(units=u.s, default=2.0) if dflt else field(default=3.0)

        return M(a=q(L, x))

    return f, ()


@entry("convert", "orbit", EAGER, x=[1.0, [1.0, 2.0]], frm=["M_sun", "R_sun", "au", "day", "M_earth", "R_jupiter"], to=["kg", "m", "s", "km"])
def _(L, P, x, frm, to):
    u = L("units").unit_registry
    return lambda: (jnp.asarray(x) * getattr(u, frm)).to(to), ()


@entry("consts", "orbit", EAGER, c=["gravitational_constant", "speed_of_light", "M_sun", "R_sun", "parsec", "R_earth"])
def _(L, P, c):
    u = L("units").unit_registry
    return lambda: (1.0 * getattr(u, c)).to_base_units(), ()


# ------------------------------------------------------------------ harmonics
DEGS = [2, 3, 1, 0]


@entry("A1", "surface", EAGER, l=DEGS)
def _(L, P, l):
    return lambda: L("starry.core.basis").A1(l), ()


@entry("A2_inv", "surface", EAGER, l=DEGS)
def _(L, P, l):
    return lambda: L("starry.core.basis").A2_inv(l), ()


@entry("basis", "surface", EAGER, l=DEGS)
def _(L, P, l):
    return lambda: L("starry.core.basis").basis(l), ()


@entry("U", "surface", EAGER, l=DEGS)
def _(L, P, l):
    return lambda: L("starry.core.basis").U(l), ()


@entry("basis_terms", "surface", EAGER, n=[1, 4, 7, 9], f=["ptilde", "gtilde", "utilde", "Ylm"], m=[-1, 0, 1])
def _(L, P, n, f, m):
    b = L("starry.core.basis")
    if f == "Ylm":
        return lambda: b.Ylm(max(1, n // 3), m), ()
    return lambda: getattr(b, f)(n), ()


@entry("poly_basis", "surface", NOGRAD, d=[2, 1, 3], x=[0.1, 0.2, 0.1000001])
def _(L, P, d, x):
    f = L("starry.core.basis").poly_basis(d)
    return f, (A([x, 0.3]), A([0.2, 0.1]), A([0.9, 0.8]))


PS = [[1.0, 0.2, 0.3, 0.4], [1.0, 0.2, 0.3, 0.4000001], [1.0], [1.0, 0.1, 0.2, 0.3, 0.0, 0.5, 0.0, 0.1, 0.2]]


@entry("pijk", "surface", ("eager", "jit", "grad"), w=1.2, p=PS, r=PS, op=["mul", "add", "scale", "index", "sparse"])
def _(L, P, p, r, op):
    K = L("starry.core.polynomials").Pijk

    def f(p, r):
        a, b = K.from_dense(p), K.from_dense(r)
        if op == "mul":
            return (a * b).todense()
        if op == "add":
            return (a + b).todense()
        if op == "scale":
            return (2.0 * (a * 1.5)).todense()
        if op == "index":
            return a[(0, 0, 0)] + b[(0, 0, 0)]
        return a.tosparse().todense() * 2.0

    return f, (A(p), A(r))


@entry("pijk_obj", "surface", EAGER, p=PS, deg=[None, 3])
def _(L, P, p, deg):
    K = L("starry.core.polynomials").Pijk

    def f():
        k = K.from_dense(jnp.asarray(p), degree=deg)
        return k, k.shape, [repr(i) for i in k.indices], k.todense()

    return f, ()


@entry("poly_prod", "surface", EAGER, p=PS[:3], d=[1, 2])
def _(L, P, p, d):
    return lambda: L("starry.core.polynomials").polynomial_product_matrix(A(p), d), ()


@entry("ylm_mul", "surface", EAGER, w=1.5, a=[0, 1, 2, 3, 4], b=[0, 2, 3, 4])
def _(L, P, a, b):
    def f():
        r = P("ylm", y=a) * P("ylm", y=b)
        return sorted((repr(k), float(v)) for k, v in r.data.items()), r.todense()

    return f, ()


@entry("ylm_ops", "surface", EAGER, w=1.2, a=list(range(len(YLMS))), op=["norm", "dense", "scale", "index", "attrs"])
def _(L, P, a, op):
    def f():
        y = P("ylm", y=a)
        if op == "norm":
            return y.normalize()
        if op == "dense":
            return y.todense()
        if op == "scale":
            return 2.0 * y, y * 3.0
        if op == "index":
            return y[(0, 0)], y[(1, 0)] if y.deg > 0 else None
        return y.shape, repr(y.indices), y.deg, y.diagonal

    return f, ()


@entry("ylm_from", "surface", EAGER, d=[[2.0, 0.2, 0.3, 0.4], [2.0, 0.2, 0.3, 0.4000001], [2.0]], norm=[True, False])
def _(L, P, d, norm):
    return lambda: L("starry.ylm").Ylm.from_dense(jnp.asarray(d), normalize=norm), ()


@entry("ylm_ld", "surface", EAGER, u=[[0.1], [0.1, 0.2], [0.1, 0.2000001], [0.2, 0.1]])
def _(L, P, u):
    return lambda: L("starry.ylm").Ylm.from_limb_darkening(np.array(u)), ()


@entry("ylm_spot", "surface", EAGER, w=1.5, ydeg=[3, 2, 4], npts=[60, 50], fac=[30, 40], c=[0.5, 0.6], r=[0.3, 0.3000001], lat=[0.0, 0.2], lon=[0.0, 0.4])
def _(L, P, ydeg, npts, fac, c, r, lat, lon):
    return lambda: P("spot", ydeg=ydeg, npts=npts, fac=fac)(c, r, lat, lon), ()


@entry("Bp", "surface", EAGER, ydeg=[3, 2, 5], npts=[60, 50], eps=[1e-9, 1e-6], sm=[None, 0.1])
def _(L, P, ydeg, npts, eps, sm):
    return lambda: L("starry.ylm").Bp(ydeg, npts, eps, sm), ()


@entry("wigner", "surface", EAGER, w=1.2, j=[[2, 1, 1], [2, 2, 2], [3, 2, 1], [1, 1, 0], [4, 2, 3]], m=[[0, 0], [1, -1], [1, 0]], f=["w3j", "cg", "calc"])
def _(L, P, j, m, f):
    W = L("starry.core.wigner3j")
    m3 = -(m[0] + m[1])

    def g():
        if f == "w3j":
            return float(W.Wigner3j(*j, m[0], m[1], m3))
        if f == "cg":
            return float(W.clebsch_gordan(j[0], m[0], j[1], m[1], j[2], -m3))
        c = W.Wigner3jCalculator(j[1], j[2])
        a = np.array(c.calculate(j[1], j[2], m[0], m[1]))
        return a, c.size

    return g, ()


AXES = [[1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.6, 0.8, 0.0], [0.6, 0.8000001, 0.0]]


@entry("rotmat", "surface", ("eager", "grad"), w=1.2, d=[2, 1, 3], ax=AXES, th=[0.3, 0.3000001, 0.0])
def _(L, P, d, ax, th):
    return (lambda t: L("starry.core.rotation").compute_rotation_matrices(d, *ax, t)), (A(th),)


@entry("dot_rot", "surface", ("eager", "jit", "grad"), w=1.2, d=[2, 1], ax=AXES + [[None, None, 1.0], [1.0, None, None]], th=[0.3, 0.3000001, None], x=[1.0, 2.0])
def _(L, P, d, ax, th, x):
    f = P("rotfn", deg=d, ax=ax, theta=th)
    n = (d + 1) ** 2
    return f, (jnp.linspace(0.1, x, n),)


@entry("dot_rz", "surface", ("eager", "grad"), d=[2, 1, 3], th=[0.3, 0.3000001], x=[1.0, 2.0])
def _(L, P, d, th, x):
    n = (d + 1) ** 2
    return (lambda t, M: L("starry.core.rotation").dot_rz(d, t)(M)), (A(th), jnp.linspace(0.1, x, n))


@entry("project", "surface", ("eager", "grad"), w=1.2, d=[2, 1], inc=[1.0, 1.0000001, None], obl=[0.2, None], th=[0.3, None], tz=[0.1, 0.0, 0.4], f=["left_project", "right_project"])
def _(L, P, d, inc, obl, th, tz, f):
    g = getattr(L("starry.core.rotation"), f)
    n = (d + 1) ** 2
    return (lambda x: g(d, inc, obl, th, tz, x)), (jnp.linspace(0.1, 1.0, n),)


@entry("axis_angle", "surface", EAGER, inc=[1.0, 1.0000001], obl=[0.2, 0.3], th=[0.3, 0.0], tz=[0.1, 0.0], f=["full", "sky"])
def _(L, P, inc, obl, th, tz, f):
    m = L("starry.core.rotation")
    if f == "full":
        return lambda: m.full_rotation_axis_angle(inc, obl, th, tz), ()
    return lambda: m.sky_projection_axis_angle(inc, obl), ()


@entry("s2fft", "surface", EAGER, d=[2, 1], ax=AXES[:3], th=[0.3, 0.4], hom=[False, True])
def _(L, P, d, ax, th, hom):
    return lambda: L("starry.core.s2fft_rotation").compute_rotation_matrices(d, *ax, th, homogeneous=hom), ()


@entry("fast_project", "surface", EAGER, d=[2, 3], inc=[1.0, 1.2], obl=[0.2, 0.3], th=[0.3, 0.4], tz=[0.1, 0.0])
def _(L, P, d, inc, obl, th, tz):
    n = (d + 1) ** 2
    return lambda: L("starry.core.rotation").fast_direct_left_project(d, inc, obl, th, tz, jnp.linspace(0.1, 1.0, n)), ()


@entry("solvec", "surface", NOGRAD, w=1.5, l=[2, 1, 3, 0], order=[10, 11, 20], b=[0.3, 0.3000001, 0.95, 1.05], r=[0.1, 0.2, 1.3])
def _(L, P, l, order, b, r):
    return P("solvec", which="st", l=l, order=order), (A(b), A(r))


@entry("solvec_grad", "surface", ("grad", "jvp"), l=[2, 1], order=[10, 11], b=[0.3, 0.95], r=[0.1, 0.2])
def _(L, P, l, order, b, r):
    f = L("starry.core.solution").solution_vector(l, order=order)
    return f, (A(b), A(r))


@entry("rT", "surface", EAGER, l=[2, 3, 1, 0, 5])
def _(L, P, l):
    return lambda: L("starry.core.solution").rT(l), ()


# ------------------------------------------------------------------ surfaces
@entry("surface_new", "surface", EAGER, s=list(range(len(SURFS))))
def _(L, P, s):
    def f():
        x = _surf(L, P, SURFS[s])
        return x, x.inc, x.obl, x.udeg, x.ydeg, x.deg, x.vdeg

    return f, ()


@entry("surface_attr", "surface", EAGER, s=[9, 10, 17], t=[0.3, 0.4])
def _(L, P, s, t):
    def f():
        x = P("surface", s=s)
        return x.veq, x.rotational_phase(t), x.y

    return f, ()


@entry("render", "surface", ("eager", "jit"), w=2.0, s=list(range(len(SURFS) - 2)), th=[0.3, None, 0.3000001], res=[6, 7])
def _(L, P, s, th, res):
    x = P("surface", s=s)
    if th is None:
        return lambda: x.render(res=res), ()
    return (lambda t: x.render(t, res=res)), (A(th),)


@entry("render_rv", "surface", EAGER, s=[0, 1, 2], th=[0.3, 0.4], res=[6, 7])
def _(L, P, s, th, res):
    x = P("surface", s=s, rv=True)
    return lambda: x.render(th, res=res, rv=True), ()


@entry("intensity", "surface", EAGER, w=1.2, s=list(range(len(SURFS) - 2)), lat=[0.1, 0.2], lon=[0.3, 0.3000001])
def _(L, P, s, lat, lon):
    x = P("surface", s=s)
    return lambda: x.intensity(jnp.asarray(lat), jnp.asarray(lon)), ()


@entry("surface_lc", "surface", ("eager", "jit", "grad", "vmap"), w=2.5, s=list(range(len(SURFS) - 2)), r=[0.1, 0.1000001, None], y=[0.2, 0.95], th=[0.0, 0.3], order=[10, 12], hp=[False, False, True])
def _(L, P, s, r, y, th, order, hp):
    x = P("surface", s=s)
    f = L("starry.light_curves").surface_light_curve
    if r is None:
        return (lambda th: f(x, theta=th, order=order, higher_precision=hp)), (A(th),)
    return (lambda y, th: f(x, r=r, x=0.1, y=y, z=1.0, theta=th, order=order, higher_precision=hp)), (A(y), A(th))


@entry("system_lc", "surface", ("eager", "jit"), w=2.0, s=list(range(len(SSYS))), order=[10, 12], t=[[0.05, 1.7], [0.05, 1.7000001], 0.1])
def _(L, P, s, order, t):
    return P("starlc", sys={"s": s}, order=order), (A(t),)


@entry("surface_rv", "surface", ("eager", "jit"), w=1.5, s=[0, 1, 2, 3], r=[0.1, 0.2, None], y=[0.2, 0.95], th=[0.0, 0.3], order=[10, 12])
def _(L, P, s, r, y, th, order):
    x = P("surface", s=s, rv=True)
    f = L("starry.doppler").surface_radial_velocity
    return (lambda th: f(x, r=r, x=0.1, y=y, z=1.0, theta=th, order=order)), (A(th),)


@entry("system_rv", "surface", EAGER, s=[0, 2], order=[10, 12], t=[[0.05, 1.7], [0.05, 1.8]])
def _(L, P, s, order, t):
    return P("starrv", s=s, order=order), (A(t),)


@entry("rv_expansion", "surface", ALL, v=[1.0, 2.0, 1.0000001], inc=[1.0, None], obl=[0.2, None], al=[None, 0.1])
def _(L, P, v, inc, obl, al):
    return (lambda v: L("starry.doppler").rv_map_expansion(v, inc, obl, al)), (A(v),)


@entry("ortho_grid", "surface", EAGER, res=[6, 7, 8])
def _(L, P, res):
    return lambda: L("starry.utils").ortho_grid(res), ()


@entry("lines", "surface", EAGER, n=[6, 4], pts=[10, 12], radius=[1.0, 0.5], inc=[1.0, 1.2], obl=[0.1, 0.2], th=[0.0, 0.3], f=["lines", "rotate", "rotation"])
def _(L, P, n, pts, radius, inc, obl, th, f):
    m = L("starry.utils")

    def g():
        if f == "rotation":
            return np.asarray(m.rotation(inc, obl, th).as_matrix())
        lat, lon = m.lon_lat_lines(n=n, pts=pts, radius=radius)
        if f == "lines":
            return np.asarray(lat), np.asarray(lon)
        return m.rotate_lines(lat, inc, obl, th)

    return g, ()


@entry("y1d2d", "surface", EAGER, d=[2, 1], x=[1.0, 2.0])
def _(L, P, d, x):
    m = L("starry.utils")

    def g():
        v = jnp.linspace(0.0, x, (d + 1) ** 2)
        w = m.y1d_to_2d(d, v)
        return w, m.y2d_to_1d(d, w), m.C(d)

    return g, ()


# ------------------------------------------------------------------ multiprecision
def mpnum(L, x):
    """A multiprecision number if it is written as a string."""
    return L("starry.multiprecision").mp.mpf(x) if isinstance(x, str) else x


@entry("mp_A", "mp", EAGER, w=2.0, l=[1, 2, 0], f=["A1", "A2", "A2_inv"], cache=["lib", "mine", "other"])
def _(L, P, l, f, cache):
    b = L("starry.multiprecision.basis")
    if f == "A2_inv":
        return lambda: b.A2_inv(l), ()
    if cache == "lib":
        return lambda: getattr(b, f)(l), ()
    return lambda: getattr(b, f)(l, cache=P("mpcache", name=cache)), ()


@entry("mp_R", "mp", EAGER, w=2.5, l=[1, 2], n=["R_px", "R_mx", "R_obl", "R_inc"], obl=[0.2, 0.2000001, 0.3, 0.0, "0.2", "0.20000000000000000001"], inc=[1.0, 1.0000001, 1.2, "1.0", "1.00000000000000000001"], cache=["lib", "mine"])
def _(L, P, l, n, obl, inc, cache):
    r = L("starry.multiprecision.rotation")
    obl, inc = mpnum(L, obl), mpnum(L, inc)
    kw = {} if cache == "lib" else {"cache": P("mpcache", name=cache)}
    if n in ("R_obl", "R_inc"):
        kw.update(obl=obl, inc=inc)
    return lambda: r.get_R(n, l, **kw), ()


@entry("mp_sT", "mp", EAGER, w=2.5, l=[1, 0, 2], b=[0.5, 0.5000001, 0.95, "0.5", "0.5000000000000000000001"], r=[0.2, 0.2000001, 0.3, "0.2", "0.20000000000000000001"], cache=["lib", "mine"])
def _(L, P, l, b, r, cache):
    s = L("starry.multiprecision.solution")
    b, r = mpnum(L, b), mpnum(L, r)
    kw = {} if cache == "lib" else {"cache": P("mpcache", name=cache)}
    return lambda: s.get_sT(l, b, r, **kw), ()


@entry("mp_parts", "mp", EAGER, l=[1, 2], b=[0.5, 0.6], r=[0.2, 0.3], f=["rT", "q", "kappas", "ld", "R", "rot", "rz", "left", "Y", "fac"])
def _(L, P, l, b, r, f):
    s = L("starry.multiprecision.solution")
    R = L("starry.multiprecision.rotation")
    B = L("starry.multiprecision.basis")
    U = L("starry.multiprecision.utils")
    mp = L("starry.multiprecision").mp

    def g():
        if f == "rT":
            return s.rT(l)
        if f == "q":
            return s.q_numerical(l, b, r)
        if f == "kappas":
            return s.kappas(mp.mpf(b), mp.mpf(r))
        if f == "ld":
            return s.solution_limb_dark(min(l, 2), mp.mpf(b), mp.mpf(r))
        if f == "R":
            return R.R(l, (0.0, 0.6, 0.8), b)
        if f == "rot":
            return R.dot_rotation_matrix(l, (0.0, 0.6, 0.8), b)(mp.matrix([1.0 + r * i for i in range((l + 1) ** 2)]))
        if f == "rz":
            return R.dot_rz(l, b)(mp.matrix([1.0 + r * i for i in range((l + 1) ** 2)]))
        if f == "left":
            return R.left_project(l, 1.0 + b, 0.1, r, 0, mp.matrix([1.0 + i for i in range((l + 1) ** 2)]))
        if f == "Y":
            return sorted((repr(k), str(v)) for k, v in B.Y(l, 1).items())
        return [B.fac(i) for i in range(4 + l)] + [U.fac(5), B.fac(b)]

    return g, ()


@entry("mp_flux", "mp", EAGER, w=3.0, d=[[1, 0], [0, 1], [1, 1], [0, 2]], kw=[{}, {"inc": 1.0}, {"inc": 1.0, "obl": 0.2}, {"inc": 1.0, "obl": 0.3}, {"inc": 1.0000001, "obl": 0.2}], b=[0.5, 0.6, 1.5, "0.5000000000000000000001"], r=[0.2, 0.3, "0.20000000000000000001"], phi=[0.0, 0.1], cache=["lib", "mine"])
def _(L, P, d, kw, b, r, phi, cache):
    # a model keeps the matrices of the precision it was built at
    fl = P("mpflux", ydeg=d[0], udeg=d[1], kw=kw, cache=cache, prec=L("starry.multiprecision").mp.prec)
    b, r = mpnum(L, b), mpnum(L, r)
    y = np.linspace(1.0, 0.1, (d[0] + 1) ** 2)
    u = [0.1 * (i + 1) for i in range(d[1])]
    if d[0] == 0:
        return lambda: fl(min(b, L("starry.multiprecision").mp.mpf(9) / 10) if not isinstance(b, float) else min(b, 0.9), r, u=u), ()
    return lambda: fl(b, r, y=y, u=u, phi=phi), ()


@entry("mp_precision", "mp", EAGER, w=0.7, k=[["starry", 1, 1], ["ld", 0, 2]], r=[0.2, 0.3], order=[10, 20], b=[0.5, 0.6])
def _(L, P, k, r, order, b):
    m = L("starry.multiprecision.precision")
    if k[0] == "starry":
        return lambda: m.starry_light_curve(k[1], k[2], r, order, b), ()
    return lambda: m.limb_dark_light_curve(k[2], r, order, b), ()


@entry("mp_utils", "mp", EAGER, w=0.5, x=[1.0, 2.0], f=["to_mp", "diff", "to_numpy"])
def _(L, P, x, f):
    U = L("starry.multiprecision.utils")

    def g():
        a = np.linspace(0.0, x, 4).reshape(2, 2)
        if f == "to_mp":
            return U.to_mp(a)
        if f == "diff":
            return U.diff_mp(U.to_mp(a), a + 0.5)
        return U.to_numpy(U.to_mp(a))

    return g, ()


# ------------------------------------------------------------------ calls that must fail
BAD = {
    "central_all": lambda L, P: L("orbits.keplerian").Central(mass=1.0, radius=1.0, density=1.0) and L("orbits.keplerian").Central(mass=1.0),
    "central_vec": lambda L, P: L("orbits.keplerian").Central(mass=jnp.ones(2), radius=1.0),
    "central_unit": lambda L, P: L("orbits.keplerian").Central(mass=1.0 * L("units").unit_registry.m, radius=1.0),
    "body_both": lambda L, P: L("orbits.keplerian").Body(period=1.0, semimajor=2.0),
    "body_none": lambda L, P: L("orbits.keplerian").Body(),
    "body_ecc": lambda L, P: L("orbits.keplerian").Body(period=1.0, eccentricity=0.1),
    "body_unit": lambda L, P: L("orbits.keplerian").Body(period=1.0 * L("units").unit_registry.m),
    "system_add_bad": lambda L, P: P("system", via="add", **SYSTEMS[0]).add_body(period=1.0, semimajor=2.0),
    "transit_none": lambda L, P: L("orbits.transit").TransitOrbit(period=1.0),
    "transit_unit": lambda L, P: P("transit", t=0).relative_position(1.0 * L("units").unit_registry.m),
    "ttv_both": lambda L, P: L("orbits.ttv").TTVOrbit(period=1.0, duration=0.1, ttvs=(jnp.zeros(3),), transit_times=(jnp.zeros(3),)),
    "ttv_none": lambda L, P: L("orbits.ttv").TTVOrbit(period=1.0, duration=0.1),
    "ttv_noperiod": lambda L, P: L("orbits.ttv").TTVOrbit(duration=0.1, ttvs=(jnp.zeros(3),)),
    "lc_unit": lambda L, P: P("lc", **LC1)(1.0 * L("units").unit_registry.m),
    "integ_order": lambda L, P: L("light_curves.transforms").integrate(P("lc", **LC1), exposure_time=0.1, order=5),
    "integ_vec": lambda L, P: L("light_curves.transforms").integrate(P("lc", **LC1), exposure_time=jnp.ones(2)),
    "integ_unit": lambda L, P: L("light_curves.transforms").integrate(P("lc", **LC1), exposure_time=1.0 * L("units").unit_registry.m),
    "interp_unit": lambda L, P: L("light_curves.transforms").interpolate(P("lc", **LC1), period=1.0 * L("units").unit_registry.m, time_transit=0.0, num_samples=5),
    "stack_mismatch": lambda L, P: L("object_stack").ObjectStack({"a": 1.0}, {"a": 1.0, "b": None}).vmap(lambda o: {k: 1.0 for k in o})(),
    "qi_notfn": lambda L, P: L("units").quantity_input(3),
    "qi_kwargs": lambda L, P: L("units").quantity_input(lambda **kw: 1, kw=L("units").unit_registry.m),
    "ylm_zero": lambda L, P: L("starry.ylm").Ylm({(0, 0): 1.0, (1, 0): 0.1})["x"],
    "emission_type": lambda L, P: L("light_curves.emission").light_curve(P("system", via="add", **SYSTEMS[0])),
    "surface_bad": lambda L, P: P("surface", s=9).render("x", res=4),
    "sT_occ": lambda L, P: L("starry.multiprecision.solution").check_occultation(2.0, 0.1),
    "flux_len": lambda L, P: L("starry.multiprecision.flux").flux(0, 1)(0.5, 0.1, u=[]),
    "poly_shape": lambda L, P: L("starry.core.rotation").dot_rotation_matrix(2, 1.0, 0.0, 0.0, 0.3)(jnp.ones(3)),
    "add_pijk": lambda L, P: P("ylm", y=0) * "x",
}  # fmt: skip
BAD_MP = ("sT_occ", "flux_len")


@entry("bad", "orbit", EAGER, w=1.0, k=[k for k in BAD if k not in BAD_MP and k not in ("ylm_zero", "surface_bad", "poly_shape", "add_pijk", "emission_type")])
def _(L, P, k):
    return lambda: BAD[k](L, P), ()


@entry("bad_surface", "surface", EAGER, w=0.7, k=["ylm_zero", "surface_bad", "poly_shape", "add_pijk", "emission_type"])
def _(L, P, k):
    return lambda: BAD[k](L, P), ()


@entry("bad_mp", "mp", EAGER, w=0.4, k=list(BAD_MP))
def _(L, P, k):
    return lambda: BAD[k](L, P), ()


# ------------------------------------------------------------------ running one op
def base_op(name):
    e = ENTRIES[name]
    return {"e": name, "p": {k: v[0] for k, v in e.dom.items()}, "mode": e.modes[0], "x64": True}


def inner(fn, args):
    """The call inside a trace which closes over everything it is given: its arguments
    are concrete, what it computes is not."""

    def body():
        return [x for x in jax.tree_util.tree_leaves(fn(*args)) if isinstance(x, (jax.Array, np.ndarray, np.generic))]

    try:
        return jax.jit(body)()
    except (jax.errors.JAXTypeError, jax.errors.JAXIndexError) as e:
        # (the text names places of the trace)
        raise RuntimeError(f"aborted by {type(e).__name__}") from None


def apply_mode(fn, args, mode):
    if mode == "eager":
        return fn(*args)
    if mode == "jit":
        return jax.jit(fn)(*args)
    if mode == "inner":
        return inner(fn, args)
    if mode == "vmap":
        st = tuple(jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x), jnp.asarray(x) * 1.01]), a) for a in args)
        return jax.vmap(fn)(*st)

    def total(*a):
        leaves = jax.tree_util.tree_leaves(fn(*a))
        return sum(jnp.sum(jnp.where(jnp.isfinite(x), x, 0.0)) for x in leaves if jnp.issubdtype(jnp.result_type(x), jnp.floating))

    if mode == "grad":
        return jax.grad(total, argnums=tuple(range(len(args))))(*args)
    if mode == "jvp":
        return jax.jvp(fn, args, jax.tree_util.tree_map(jnp.ones_like, args))
    raise KeyError(mode)


def prepare(L, P, op):
    """Build what the operation is about; returns a thunk that performs it."""
    e = ENTRIES[op["e"]]
    own = {k: v for k, v in op.items() if k.startswith("_") and k != "_derive"}
    if op.get("_derive"):
        P = catalog3.Derived(P, op["_derive"])
    fn, args = e.fn(L, P, **op["p"], **own)
    return (lambda: apply_mode(fn, args, op.get("mode", "eager"))), args


from . import catalog2, catalog3, catalog4, catalog5  # noqa: E402,F401
