"""Rarely used parts of the library: higher degrees, error paths, remaining options."""
import jax.numpy as jnp
import numpy as np

from .catalog import ALL, EAGER, LC1, SYSTEMS, A, entry


# ------------------------------------------------------- calls that must fail, again
BADBODY = {
    "omega_and_sin": {"period": 1.0, "eccentricity": 0.1, "omega_peri": 0.2, "sin_omega_peri": 0.1},
    "sin_alone": {"period": 1.0, "eccentricity": 0.1, "sin_omega_peri": 0.1},
    "cos_alone": {"period": 1.0, "eccentricity": 0.1, "cos_omega_peri": 0.1},
    "node_and_sin": {"period": 1.0, "asc_node": 0.1, "sin_asc_node": 0.1},
    "node_sin_alone": {"period": 1.0, "sin_asc_node": 0.1},
    "omega_alone": {"period": 1.0, "omega_peri": 0.1},
    "inc_and_b": {"period": 1.0, "inclination": 0.1, "impact_param": 0.1},
    "t0_and_tp": {"period": 1.0, "time_transit": 0.1, "time_peri": 0.1},
    "vector": {"period": [1.0, 2.0]},
    "kind": {"period": "x"},
    "fine": {"period": 1.0, "asc_node": 0.1, "radius": 0.1},
}


@entry("bad_body", "orbit", EAGER, w=1.0, k=list(BADBODY), via=["body", "add"])
def _(L, P, k, via):
    kw = {a: np.asarray(v) if isinstance(v, list) else v for a, v in BADBODY[k].items()}

    def f():
        if via == "add":
            return P("system", via="add", **SYSTEMS[0]).add_body(**kw)
        return L("orbits.keplerian").Body(**kw)

    return f, ()


@entry("bad_central", "orbit", EAGER, w=0.7, k=["m", "r", "d", "md", "rd", "none", "prop_vec", "prop_none", "prop_p", "prop_a"], x=[1.0, 1.1])
def _(L, P, k, x):
    K = L("orbits.keplerian")

    def f():
        if k == "prop_vec":
            return K.Central.from_orbital_properties(period=jnp.array([x, 2.0]), semimajor=3.0)
        if k == "prop_none":
            return K.Central.from_orbital_properties(period=x)
        if k == "prop_p":
            return K.Central.from_orbital_properties(period=x, semimajor=3.0, radius=1.2)
        if k == "prop_a":
            return K.Central.from_orbital_properties(period=x, semimajor=3.0, mass=1.2)
        full = {"m": "mass", "r": "radius", "d": "density"}
        return K.Central(**({} if k == "none" else {full[c]: x for c in k}))

    return f, ()


@entry("bad_time", "orbit", EAGER, w=0.7, k=["lc", "integ", "interp", "orbit", "ttv", "transit", "multi"], unit=["m", "d", "s", "none"], t=[0.1, [0.1, 0.2]])
def _(L, P, k, unit, t):
    ureg = L("units").unit_registry

    def f():
        x = jnp.asarray(t)
        if unit != "none":
            x = x * getattr(ureg, unit)
        if k == "lc":
            return P("lc", **LC1)(x)
        if k == "integ":
            return L("light_curves.transforms").integrate(P("lc", **LC1), exposure_time=0.1, num_samples=3)(x)
        if k == "interp":
            return L("light_curves.transforms").interpolate(P("lc", **LC1), period=1.0, time_transit=0.0, num_samples=5)(x)
        if k == "orbit":
            return P("system", via="add", **SYSTEMS[0]).bodies[0].relative_position(x)
        if k == "multi":
            return P("system", via="add", **SYSTEMS[0]).radial_velocity(x)
        if k == "ttv":
            return P("ttv", t=0).relative_position(x)
        return P("transit", t=0).relative_position(x)

    return f, ()


@entry("reprs", "orbit", EAGER, w=0.5, k=["system", "central", "body", "transit", "stack", "tree"], s=[0, 1, 4])
def _(L, P, k, s):
    import jax

    def f():
        y = P("system", via="add", **SYSTEMS[s])
        if k == "system":
            return repr(y)
        if k == "central":
            return repr(y.central), str(y.central)
        if k == "body":
            return [repr(b) for b in y.bodies]
        if k == "stack":
            return repr(y._body_stack)
        if k == "tree":
            return [(jax.tree_util.keystr(k), str(jnp.shape(x))) for k, x in jax.tree_util.tree_leaves_with_path(y)]
        return repr(P("transit", t=0))

    return f, ()


# ---------------------------------------------------------------- harmonic algebra
@entry("wigner_high", "surface", EAGER, w=1.0, j=[[6, 4, 4], [5, 5, 2], [8, 4, 5], [7, 3, 4], [6, 6, 6], [2, 6, 5], [3, 3, 6], [9, 2, 3]], m=[[0, 0], [1, -1], [2, 1], [-3, 2], [4, -1], [-4, -2]], f=["w3j", "cg", "calc", "again"])
def _(L, P, j, m, f):
    W = L("starry.core.wigner3j")
    m3 = -(m[0] + m[1])

    def g():
        if f == "w3j":
            return [float(W.Wigner3j(*j, m[0], m[1], m3)), float(W.Wigner3j(j[2], j[0], j[1], m3, m[0], m[1]))]
        if f == "cg":
            return float(W.clebsch_gordan(j[0], m[0], j[1], m[1], j[2], -m3))
        c = W.Wigner3jCalculator(j[1], j[2])
        a = np.array(c.calculate(j[1], j[2], m[0], m[1]))
        if f == "again":
            # one calculator for several symbols
            b = np.array(c.calculate(j[1], j[2], 0, 0))
            return a, b, np.array(c.calculate(j[1], j[2], m[0], m[1]))
        return a

    return g, ()


@entry("dot_rot_bad", "surface", EAGER, w=0.6, k=["deg", "none", "xvec", "yvec", "zvec", "tvec", "z", "theta0", "x", "shape"], d=[1, 2])
def _(L, P, k, d):
    D = L("starry.core.rotation").dot_rotation_matrix
    v = jnp.ones((d + 1) ** 2)
    arg = {
        "deg": (None, 1.0, 0.0, 0.0, 0.3), "none": (d, None, None, None, 0.3), "xvec": (d, jnp.ones(2), 0.0, 0.0, 0.3), "yvec": (d, 1.0, jnp.ones(2), 0.0, 0.3),
        "zvec": (d, 1.0, 0.0, jnp.ones(2), 0.3), "tvec": (d, 1.0, 0.0, 0.0, jnp.ones(2)), "z": (d, None, None, 1.0, 0.3), "theta0": (d, 1.0, 0.0, 0.0, None),
        "x": (d, 1.0, None, None, 0.3), "shape": (d, 1.0, 0.0, 0.0, 0.3),
    }[k]  # fmt: skip
    return lambda: D(*arg)(jnp.ones(3) if k == "shape" else v), ()


@entry("project_opts", "surface", ("eager", "jit", "grad"), w=1.0, d=[1, 2], inc=[1.0, None], obl=[0.2, None], th=[0.3, 0.0], tz=[0.4, 0.0], f=["left", "right"])
def _(L, P, d, inc, obl, th, tz, f):
    R = L("starry.core.rotation")
    v = jnp.linspace(1.0, 0.2, (d + 1) ** 2)
    g = R.left_project if f == "left" else R.right_project
    return (lambda th, tz: g(d, inc, obl, th, tz, v)), (A(th), A(tz))


@entry("rv_hp", "surface", ("eager", "jit"), w=0.8, s=[0, 1, 2, 3], r=[0.1, None], y=[0.2, 0.95], order=[10, 12])
def _(L, P, s, r, y, order):
    x = P("surface", s=s, rv=True)
    f = L("starry.doppler").surface_radial_velocity
    return (lambda y: f(x, r=r, x=0.1, y=y, z=1.0, theta=0.3, order=order, higher_precision=True)), (A(y),)


@entry("surface_dim", "surface", EAGER, w=0.6, s=[0, 9, 17], what=["setinc", "setobl", "repr", "tree", "rvpoly", "veq", "phase"], x=[0.3, 0.4])
def _(L, P, s, what, x):
    import jax

    def f():
        o = P("surface", s=s)
        if what == "setinc":
            try:
                o.inc = x
            except Exception as e:
                return type(e).__name__, o.inc
            return o.inc
        if what == "setobl":
            try:
                o.obl = x
            except Exception as e:
                return type(e).__name__, o.obl
            return o.obl
        if what == "repr":
            return repr(o), repr(o.y)
        if what == "tree":
            return str(jax.tree_util.tree_structure(o))
        if what == "rvpoly":
            return o._poly_basis(rv=True)(jnp.array([x]), jnp.array([0.1]), jnp.array([0.9]))
        if what == "veq":
            return o.veq
        return o.rotational_phase(x)

    return f, ()


# ---------------------------------------------------------------- multiprecision
@entry("mp_more", "mp", EAGER, w=1.0, l=[3, 2], b=[0.5, 0.95], r=[0.2, 0.3], f=["A2", "A1", "rT", "ld", "full", "out", "leftz", "lefttheta0", "inv", "q"])
def _(L, P, l, b, r, f):
    s = L("starry.multiprecision.solution")
    R = L("starry.multiprecision.rotation")
    B = L("starry.multiprecision.basis")
    F = L("starry.multiprecision.flux")
    mp = L("starry.multiprecision").mp

    def g():
        if f == "A2":
            return B.A2(l)
        if f == "A1":
            return B.A1(l + 1)
        if f == "rT":
            return s.rT(l + 3)
        if f == "ld":
            return s.solution_limb_dark(l, mp.mpf(b), mp.mpf(r))
        if f == "q":
            return s.q_numerical(l, mp.mpf(b), mp.mpf(r))
        if f == "full":
            return F.flux(1, 0)(b, 1.0 + b + r, y=np.ones(4))
        if f == "out":
            return F.flux(1, 0)(1.5 + b, r, y=np.linspace(1.0, 0.4, 4), phi=r)
        if f == "inv":
            return B.A2_inv(l)
        x = mp.matrix([1.0 + i for i in range((l + 1) ** 2)])
        if f == "leftz":
            return R.left_project(l, 1.0 + b, 0.1, r, 0.2, x)
        return R.left_project(l, 1.0 + b, 0, 0, 0, x)

    return g, ()


@entry("mp_sT3", "mp", EAGER, w=0.4, b=[0.5, 0.6], r=["0.2", 0.2], cache=["lib", "mine"])
def _(L, P, b, r, cache):
    from .catalog import mpnum

    s = L("starry.multiprecision.solution")
    kw = {} if cache == "lib" else {"cache": P("mpcache", name=cache)}
    return lambda: s.get_sT(3, b, mpnum(L, r), **kw), ()


_ = ALL
