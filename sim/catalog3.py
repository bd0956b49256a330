"""Further operations: exceptions of user callbacks, user-defined orbits and observables,
models derived from other models, and values that compare equal without being the same."""
import copy
import pickle

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from .catalog import BODIES, BUILD, EAGER, PS, SURFS, SYSTEMS, A, build, entry, q
from .catalog2 import CBM, Boom, Model, SelfCheck


# ------------------------------------------------- exceptions of the user's code
class BoomBase(BaseException):
    pass


class BoomArgs(Exception):
    """One that cannot be rebuilt from its args."""

    def __init__(self, a, *, b):
        super().__init__("user code failed", a)
        self.b = b


class BoomZero(ZeroDivisionError):
    pass


def _dim():
    import pint

    return pint.DimensionalityError("user", "code")


RAISED = {
    "Boom": lambda: Boom("user code failed"),
    "BoomBase": lambda: BoomBase("user code failed"),
    "BoomArgs": lambda: BoomArgs(1, b=2),
    "BoomZero": lambda: BoomZero("user code failed"),
    "KeyError": lambda: KeyError("user code failed"),
    "IndexError": lambda: IndexError("user code failed"),
    "AttributeError": lambda: AttributeError("user code failed"),
    "TypeError": lambda: TypeError("user code failed"),
    "ValueError": lambda: ValueError("user code failed"),
    "RuntimeError": lambda: RuntimeError("user code failed"),
    "NotImplementedError": lambda: NotImplementedError("user code failed"),
    "FloatingPointError": lambda: FloatingPointError("user code failed"),
    "AssertionError": lambda: AssertionError("user code failed"),
    "OSError": lambda: OSError(5, "user code failed"),
    "MemoryError": lambda: MemoryError("user code failed"),
    "RecursionError": lambda: RecursionError("user code failed"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("user code failed"),
    "SystemExit": lambda: SystemExit(3),
    "DimensionalityError": _dim,
    "LookupError": lambda: LookupError("user code failed"),
    "UnicodeError": lambda: UnicodeError("user code failed"),
    "StopIteration": lambda: StopIteration("user code failed"),
    "GeneratorExit": lambda: GeneratorExit("user code failed"),
    "StopAsyncIteration": lambda: StopAsyncIteration("user code failed"),
    "OverflowError": lambda: OverflowError("user code failed"),
    "ImportError": lambda: ImportError("user code failed"),
    "UserWarning": lambda: UserWarning("user code failed"),
    "ExceptionGroup": lambda: ExceptionGroup("user code failed", [ValueError("one"), TypeError("two")]),
    "UnexpectedTracerError": lambda: jax.errors.UnexpectedTracerError("user code failed"),
}


def _state(e):
    """What an exception says (JAX adds a note of its own about the traceback)."""
    d = {k: v for k, v in vars(e).items() if k != "__notes__"}
    return repr((e.args, d, [n for n in getattr(e, "__notes__", ()) if "JAX" not in n]))


class Counted:
    """A user function: counts its calls and raises the given exception at one of them."""

    def __init__(self, fn, at=None, exc=None, hook=None):
        self.fn, self.at, self.exc, self.hook, self.calls = fn, at, exc, hook, 0
        self.__name__ = "user_function"

    def __call__(self, *a, **k):
        self.calls += 1
        if self.at is not None and self.calls == self.at:
            raise self.exc
        if self.hook is not None:
            self.hook()
        return self.fn(*a, **k)


class Orbit:
    """An orbit of the user's own making (the LightCurveOrbit protocol)."""

    def __init__(self, L, fail, exc, k=1.0, hook=None):
        self.u, self.fail, self.exc, self.k, self.hook, self.calls = L("units").unit_registry, fail, exc, k, hook, 0

    def _may(self, what):
        if self.fail == what:
            raise self.exc

    @property
    def shape(self):
        self._may("shape")
        return ()

    @property
    def radius(self):
        self._may("radius")
        return 0.1 * self.u.R_sun

    @property
    def central_radius(self):
        self._may("central_radius")
        return 1.0 * self.u.R_sun

    def relative_position(self, t):
        self.calls += 1
        self._may("position")
        if self.hook is not None:
            self.hook()
        x = self.k * t.magnitude * self.u.R_sun
        return x, 0.1 * self.u.R_sun + 0 * x, 1.0 * self.u.R_sun + 0 * x


def arrives(exc, fn, where):
    """fn raises exc itself, or else the promise is broken."""
    before = _state(exc)
    try:
        r = fn()
    except BaseException as e:
        if e is exc:
            if _state(e) != before:
                raise SelfCheck(f"the user's exception was altered in {where}: {before} -> {_state(e)}") from None
            e.__traceback__ = e.__context__ = e.__cause__ = None
            return "arrived"
        if type(e).__name__ == "Abandon" or "injected by the simulator" in str(e):
            raise
        raise SelfCheck(f"the user's {type(exc).__name__} reached the caller of {where} as {type(e).__name__}: {str(e)[:120]}") from None
    raise SelfCheck(f"the user's {type(exc).__name__} was lost in {where}, which returned {type(r).__name__}")


WHERE = ["interp", "integ", "integ_jit", "vectorize", "vectorize0", "qi", "qi_tree", "field", "vmap", "vmap_het", "stack", "surface_vmap", "orbit", "orbit_attr", "observable", "interp_lc", "integ_lc"]


def user_call(L, P, where, at, exc, x, hook=None):
    """A call of the library into which the user's code is plugged at `where`; the code
    raises exc at its at-th call (never if at is None). Returns (thunk, Counted)."""
    u = L("units").unit_registry
    T = L("light_curves.transforms")
    t = jnp.array([0.1, 0.2 + x])
    sine = Counted(lambda t, *a: jnp.sin((t.magnitude if hasattr(t, "magnitude") else t) * x), at, exc, hook)
    if where == "interp":
        return (lambda: T.interpolate(sine, period=3.0, time_transit=0.5, num_samples=11)(t)), sine
    if where == "integ":
        return (lambda: T.integrate(sine, exposure_time=0.1)(t)), sine
    if where == "integ_jit":
        return (lambda: jax.jit(T.integrate(sine, exposure_time=0.1, order=2))(t)), sine
    if where == "vectorize":
        return (lambda: L("light_curves.utils").vectorize(sine)(t * u.d)), sine
    if where == "vectorize0":
        return (lambda: L("light_curves.utils").vectorize(sine)(jnp.asarray(x))), sine
    if where == "qi":
        f = Counted(lambda a, b: a / b, at, exc, hook)
        g = lambda a, b=2.0: f(a, b)  # noqa: E731
        return (lambda: L("units").quantity_input(g, a=u.m, b=u.s)(x * u.km)), f
    if where == "qi_tree":
        f = Counted(lambda p: p["a"] * 2.0, at, exc, hook)
        g = lambda p: f(p)  # noqa: E731
        return (lambda: L("units").quantity_input(g, p={"a": u.m})({"a": x})), f
    if where == "field":
        conv = Counted(lambda v: v * 2.0, at, exc, hook)

        def make():
            class M(eqx.Module):
                a: object = L("units").field(units=u.m, converter=lambda v: conv(v))

            return M(a=x).a

        return make, conv
    if where in ("vmap", "vmap_het"):
        s = P("system", via="add", **SYSTEMS[1 if where == "vmap" else 4])
        f = Counted(lambda b, t: b.position(t)[0], at, exc, hook)
        return (lambda: s.body_vmap(lambda b, t: f(b, t), in_axes=None)(jnp.asarray(x))), f
    if where == "stack":
        f = Counted(lambda o, t: o["a"] * t, at, exc, hook)
        return (lambda: L("object_stack").ObjectStack({"a": jnp.asarray(1.0)}, {"a": jnp.asarray(2.0), "b": None}).vmap(lambda o, t: f(o, t), in_axes=None)(jnp.asarray(x))), f
    if where == "surface_vmap":
        s = P("ssystem", s=3)
        f = Counted(lambda sf, t: sf.amplitude * t, at, exc, hook)
        return (lambda: s.surface_vmap(lambda sf, t: f(sf, t), in_axes=None)(jnp.asarray(x))), f
    if where == "observable":
        obs = L("starry.system_observable").system_observable
        f = Counted(lambda sf, r=None, x=None, y=None, z=None, theta=None: jnp.asarray(sf.amplitude * (1.0 if r is None else r)), at, exc, hook)
        return (lambda: obs(lambda *a, **k: f(*a, **k))(P("ssystem", s=2))(jnp.array([0.1, x]))), f
    if where in ("orbit", "orbit_attr"):
        o = Orbit(L, None if at is None else ("position" if where == "orbit" else "radius"), exc, x, hook)
        return (lambda: L("light_curves.limb_dark").light_curve(o, jnp.array([0.1, 0.3]), order=6)(t)), o
    o = Orbit(L, None if at is None else "position", exc, x, hook)
    lc = L("light_curves.limb_dark").light_curve(o, jnp.array([0.1, 0.3]), order=6)
    if where == "interp_lc":
        return (lambda: T.interpolate(lc, period=3.0, time_transit=0.5, num_samples=11)(t)), o
    return (lambda: T.integrate(lc, exposure_time=0.1)(t)), o


TWICE = ("vmap_het", "stack")


@entry("cb_raise", "cb", EAGER, w=3.0, where=WHERE, exc=list(RAISED), at=[1, 2], x=[0.3, 0.4], then=[True, False])
def _(L, P, where, exc, at, x, then):
    """The user's code raises: its very exception arrives, and the same call made again works."""

    def f():
        e = RAISED[exc]()
        n = at if where in TWICE else 1
        out = [arrives(e, user_call(L, P, where, n, e, x)[0], where)]
        if then:
            out.append(user_call(L, P, where, None, None, x)[0]())
        return out

    return f, ()


@entry("cb_twice", "cb", EAGER, w=1.5, where=WHERE, exc=["Boom", "KeyError", "TypeError", "BoomBase"], x=[0.3, 0.4])
def _(L, P, where, exc, x):
    """A user's exception handler calls the library again before the first call has ended."""

    def f():
        out = []
        n = 2 if where in TWICE else 1
        e = RAISED[exc]()
        try:
            user_call(L, P, where, n, e, x)[0]()
        except BaseException as g:
            if g is not e:
                raise
            out.append(user_call(L, P, where, None, None, x)[0]())
        out.append(user_call(L, P, where, None, None, x)[0]())
        return out

    return f, ()


@entry("cb_nest", "cb", EAGER, w=2.0, where=WHERE, inner=WHERE, x=[0.3, 0.4], fails=[False, True])
def _(L, P, where, inner, x, fails):
    """The user's code makes another library call, whose own user code may fail and be handled."""

    def f():
        got = []

        def hook():
            if fails:
                e = Boom("inner")
                got.append(arrives(e, user_call(L, P, inner, 1, e, 0.25)[0], inner))
            else:
                user_call(L, P, inner, None, None, 0.25)[0]()

        flat = user_call(L, P, where, None, None, x)[0]()
        nested = user_call(L, P, where, None, None, x, hook)[0]()
        return flat, ("SAME", nested, flat)

    return f, ()


@entry("cb_once", "cb", EAGER, w=2.0, args=[[], [2.0], [2.0, 3.0]], kw=[{}, {"c": 0.5}], unit=[False, True], num=[11, 16, 2], dur=[None, 0.4], wrap=["plain", "obj", "partial", "method"], calls=[1, 2], val=["sin", "nan", "inf", "int", "const", "neg", "allnan", "zero"])
def _(L, P, args, kw, unit, num, dur, wrap, calls, val):
    """The interpolating transform evaluates the model once, when it is transformed."""
    import functools

    u = L("units").unit_registry

    def f():
        seen = []

        def model(t, *a, c=0.0):
            seen.append((jnp.shape(t.magnitude), a, c))
            v = jnp.sin(t.magnitude * (a[0] if a else 1.0)) + c
            if val in ("nan", "inf"):
                v = v.at[num // 2].set(jnp.nan if val == "nan" else jnp.inf)
            elif val == "int":
                v = jnp.arange(num)
            elif val in ("const", "zero", "allnan"):
                v = jnp.full(num, {"const": 1.5, "zero": 0.0, "allnan": jnp.nan}[val])
            elif val == "neg":
                v = -1e30 * v
            return v * u.m if unit else v

        class K:
            def __call__(self, t, *a, c=0.0):
                return model(t, *a, c=c)

            def run(self, t, *a, c=0.0):
                return model(t, *a, c=c)

        fn = {"plain": model, "obj": K(), "partial": functools.partial(model), "method": K().run}[wrap]
        kx = dict(kw)
        g = L("light_curves.transforms").interpolate(fn, period=3.0, time_transit=0.5, num_samples=num, duration=dur, args=tuple(args), kwargs=kx)
        if len(seen) != 1:
            raise SelfCheck(f"the model was evaluated {len(seen)} times when it was transformed")
        shape, a, c = seen[0]
        if shape != (num,) or tuple(a) != tuple(args) or c != kw.get("c", 0.0):
            raise SelfCheck(f"the model was not evaluated on the grid with its arguments: {seen[0]}")
        out = [g(jnp.array([0.1, 2.0])) for _ in range(calls)] + [jax.jit(g)(0.3 * u.d if calls == 2 else jnp.asarray(0.3))]
        if len(seen) != 1:
            raise SelfCheck(f"the model was evaluated {len(seen) - 1} times after it was transformed")
        return out

    return f, ()


@entry("custom_orbit", "orbit", ("eager", "jit"), w=1.2, k=[1.0, 1.0000001, 2.0], u=[[0.1, 0.3], [0.2], []], order=[10, 6], t=[[0.1, 0.5], 0.1])
def _(L, P, k, u, order, t):
    def f(t):
        o = Orbit(L, None, None, k)
        return L("light_curves.limb_dark").light_curve(o, *([jnp.asarray(u)] if u else []), order=order)(t)

    return f, (A(t),)


# ---------------------------------------------- values equal but not the same
SCAL = [0.0, -0.0, 2, 2.0, True, 1.0, 1, {"np": 2.0}, {"np": 0.0}, {"f32": 2.0}, {"jnp": 2.0}, {"int": 2}, {"arr": [2.0]}, {"arr": [2]}, {"list": 1}]


def scalar(v):
    if isinstance(v, dict):
        k, x = next(iter(v.items()))
        return {
            "np": lambda: np.float64(x), "f32": lambda: np.float32(x), "jnp": lambda: jnp.asarray(x), "int": lambda: np.int32(x),
            "arr": lambda: np.array(x), "list": lambda: jnp.asarray([x, x]),
        }[k]()  # fmt: skip
    return v


def raw(x):
    """A value with its type, precision and the sign of zeros."""
    m = x.magnitude if hasattr(x, "_magnitude") else x
    return [str(getattr(x, "units", "")), type(m).__name__, str(getattr(m, "dtype", "")), bool(getattr(m, "weak_type", False)), np.signbit(np.asarray(m, dtype=float)).tolist(), x]


@entry("equal_units", "orbit", EAGER, w=2.0, v=SCAL, unit=["m", "s", "dimensionless", "radian", "d"], f=["qi", "field", "default", "tree"])
def _(L, P, v, unit, f):
    u = L("units").unit_registry
    U = L("units")
    x = scalar(v)
    un = getattr(u, unit)

    def g():
        if f == "qi":
            return raw(U.quantity_input(lambda a: a, a=un)(x))
        if f == "tree":
            p = U.quantity_input(lambda p: p, p=(un, None, un))((x, x, x))
            return [raw(z) for z in p]
        if f == "field":

            class M(eqx.Module):
                a: object = U.field(units=un)

            return raw(M(a=x).a)

        class D(eqx.Module):
            a: object = U.field(units=un, default=x)

        return raw(D().a), raw(D(a=1.0).a)

    return g, ()


@entry("equal_model", "orbit", EAGER, w=1.5, v=SCAL, f=["period", "t0", "ecc", "omega", "central", "transit", "dur", "t", "expo", "b"])
def _(L, P, v, f):
    K = L("orbits.keplerian")
    x = scalar(v)

    def g():
        if f == "central":
            return [raw(z) for z in (lambda c: (c.mass, c.radius, c.density))(K.Central(mass=1.5, radius=x))]
        if f == "transit":
            o = L("orbits.transit").TransitOrbit(period=3.0, duration=0.2, time_transit=x, impact_param=0.1, radius_ratio=0.1)
            return raw(o.time_transit), o.relative_position(0.1)
        if f == "dur":
            o = L("orbits.transit").TransitOrbit(period=3.0, duration=0.2, radius_ratio=x)
            return raw(o.radius_ratio), o.radius, o.relative_position(0.1)
        if f == "expo":
            return L("light_curves.transforms").integrate(lambda t: jnp.sin(t.magnitude), exposure_time=x)(jnp.array([0.1, 0.2]))
        o = P("obody", c={}, b=0)
        if f == "t":
            return o.relative_position(x), o.velocity(x)
        if f == "b":
            return L("core.limb_dark").light_curve(jnp.array([0.1, 0.3]), x, 0.1)
        kw = {"period": 3.0, "radius": 0.1}
        if f == "period":
            kw["period"] = x
        elif f == "t0":
            kw["time_transit"] = x
        elif f == "ecc":
            kw.update(eccentricity=x, omega_peri=0.3)
        else:
            kw.update(eccentricity=0.1, omega_peri=x)
        b = K.Body(**kw)
        ob = K.OrbitalBody(P("central", c={}), b)
        return [raw(z) for z in (ob.period, ob.time_transit, ob.time_ref)] + [ob.relative_position(0.2)]

    return g, ()


@entry("equal_map", "surface", EAGER, w=1.5, v=[z for z in SCAL if not isinstance(z, dict) or "list" not in z and "arr" not in z], f=["theta", "ylm", "inc", "amp", "rz", "render", "u", "mulk", "pijk", "left"])
def _(L, P, v, f):
    Y = L("starry.ylm").Ylm
    x = scalar(v)

    def g():
        if f == "theta":
            return L("starry.light_curves").surface_light_curve(P("surface", s=0), theta=x)
        if f == "ylm":
            y = Y({(0, 0): 1.0, (1, 0): x})
            return [raw(z) for z in y.data.values()], y.todense(), y.normalize()
        if f == "mulk":
            y = P("ylm", y=0) * x
            return [raw(z) for z in y.data.values()]
        if f == "inc":
            return P_surface(L, P, inc=x).render(0.3, res=5)
        if f == "amp":
            return P_surface(L, P, amplitude=x).render(0.3, res=5)
        if f == "u":
            return P_surface(L, P, u=[x]).render(0.3, res=5)
        if f == "rz":
            return L("starry.core.rotation").dot_rz(1, x)(jnp.array([1.0, 0.1, 0.2, 0.3]))
        if f == "left":
            return L("starry.core.rotation").left_project(1, x, 0.1, 0.2, x, jnp.array([1.0, 0.1, 0.2, 0.3]))
        if f == "pijk":
            k = L("starry.core.polynomials").Pijk({(0, 0, 0): x, (1, 0, 0): 0.5})
            return [raw(z) for z in (k * 2.0).data.values()], k.todense()
        return P("surface", s=0).render(x, res=5)

    return g, ()


def P_surface(L, P, **kw):
    kw.setdefault("u", [0.1])
    return L("starry.surface").Surface(y=P("ylm", y=0), **kw)


# ------------------------------------------------------------- derived models
def derive(o, how):
    """Another object equal to o."""
    if not isinstance(o, eqx.Module):
        return o
    if how == "copy":
        return copy.copy(o)
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how in ("map", "flat") and "{" in str(jax.tree_util.tree_structure(o)):
        return o  # (see UNORDERED)
    if how == "map":
        return jax.tree_util.tree_map(lambda x: x, o)
    if how == "flat":
        a, b = jax.tree_util.tree_flatten(o)
        return jax.tree_util.tree_unflatten(b, a)
    if how == "pickle":
        # what a caller's checkpoint holds; pint cannot restore the library's units that way
        return pickle.loads(pickle.dumps(o)) if not any(hasattr(x, "units") for x in jax.tree_util.tree_leaves(o, is_leaf=lambda x: hasattr(x, "units"))) and type(o).__module__.startswith("jaxoplanet.starry.") and type(o).__name__ in ("Ylm", "Surface", "Pijk") else o
    raise KeyError(how)


DERIVE = ["copy", "deepcopy", "map", "flat", "pickle"]
UNORDERED = ("ylm", "surface", "ssystem", "pijk", "terms", "ylmt")  # JAX sorts the keys of their dictionaries
KEEP = ("cbmodel", "mpcache", "cbinterp")


class Derived:
    """The pool, but what it hands out was copied."""

    def __init__(self, P, how):
        self.P, self.how = P, how

    def __call__(self, kind, /, **recipe):
        o = self.P(kind, **recipe)
        if kind in KEEP or (kind in UNORDERED and self.how in ("map", "flat")):
            return o
        return derive(o, self.how)

    def __getattr__(self, n):
        return getattr(self.P, n)


CHANGES = {
    "none": lambda o: o,
    "radius": lambda o: eqx.tree_at(lambda x: x.radius, o, o.radius * 1.5),
    "period": lambda o: eqx.tree_at(lambda x: x.period, o, o.period * 1.25),
    "semimajor": lambda o: eqx.tree_at(lambda x: x.semimajor, o, o.semimajor * 1.25),
    "ecc": lambda o: eqx.tree_at(lambda x: x.eccentricity, o, o.eccentricity * 0.5),
    "central": lambda o: eqx.tree_at(lambda x: x.central.mass, o, o.central.mass * 2.0),
    "t0": lambda o: eqx.tree_at(lambda x: x.time_transit, o, o.time_transit + 0.05 * o.time_transit.units),
    "b": lambda o: eqx.tree_at(lambda x: x.impact_param, o, o.impact_param + 0.2),
    "speed": lambda o: eqx.tree_at(lambda x: x.speed, o, o.speed * 1.1),
    "rr": lambda o: eqx.tree_at(lambda x: x.radius_ratio, o, o.radius_ratio * 1.1),
}


@entry("obody_at", "orbit", EAGER, w=1.2, b=[0, 6, 10, 13], ch=["none", "radius", "period", "semimajor", "central", "t0", "ecc"], m=["relative_position", "velocity", "position", "radial_velocity", "central_position"], t=[0.1, 1.7])
def _(L, P, b, ch, m, t):
    if ch == "ecc" and b not in (6, 13):
        ch = "none"

    def f(t):
        o = CHANGES[ch](P("obody", c={}, b=b))
        return getattr(o, m)(t), o.inclination, o.time_peri

    return f, (A(t),)


@entry("transit_at", "orbit", EAGER, w=1.0, o=[0, 2, 3, 6], ch=["none", "period", "t0", "b", "speed", "rr"], t=[0.1, 2.9])
def _(L, P, o, ch, t):
    def f(t):
        x = CHANGES[ch](P("transit", t=o))
        return x.relative_position(t), x.radius, x.duration

    return f, (A(t),)


@entry("ttv_at", "orbit", EAGER, w=1.0, o=[0, 2, 3], ch=["none", "period", "t0", "b", "speed", "rr"], t=[0.1, 3.1])
def _(L, P, o, ch, t):
    def f(t):
        x = CHANGES[ch](P("ttv", t=o))
        return x.relative_position(t), x.radius, x.linear_t0, x.linear_period

    return f, (A(t),)


@entry("system_at", "orbit", EAGER, w=1.0, s=[0, 1, 4, 7], ch=["none", "central", "grow", "add_obody"], m=["relative_position", "position", "radial_velocity"], t=[0.1, 1.7])
def _(L, P, s, ch, m, t):
    def f(t):
        o = P("system", via="add", **SYSTEMS[s])
        if ch == "central":
            o = eqx.tree_at(lambda x: x.central, o, P("central", c={"mass": 1.1, "radius": 0.9}))
        elif ch == "grow":
            o = o.add_body(period=7.0, radius=0.1, mass=0.01)
        elif ch == "add_obody":
            o = o.add_body(P("obody", c={}, b=0))
        return getattr(o, m)(t), o.radius, o.shape, o.central_radius

    return f, (A(t),)


@entry("surface_at", "surface", EAGER, w=1.5, s=[0, 3, 9, 12], ch=["none", "amplitude", "u", "y", "inc", "obl", "period", "phase", "set_inc"], what=["render", "lc", "intensity", "attrs"], th=[0.3, 0.0])
def _(L, P, s, ch, what, th):
    def f():
        x = P("surface", s=s)
        if ch == "amplitude":
            x = eqx.tree_at(lambda o: o.amplitude, x, 3.0)
        elif ch == "u":
            x = eqx.tree_at(lambda o: o.u, x, (jnp.asarray(0.4),) * len(x.u))
        elif ch == "y":
            x = eqx.tree_at(lambda o: o.y, x, P("ylm", y=6))
        elif ch == "inc" and x._inc is not None:
            x = eqx.tree_at(lambda o: o._inc, x, jnp.asarray(0.7))
        elif ch == "obl" and x._obl is not None:
            x = eqx.tree_at(lambda o: o._obl, x, jnp.asarray(0.7))
        elif ch == "period" and x.period is not None:
            x = eqx.tree_at(lambda o: o.period, x, 3.3)
        elif ch == "phase":
            x = eqx.tree_at(lambda o: o.phase, x, 0.2)
        elif ch == "set_inc":
            x.inc = 0.5  # maps are frozen: this raises
        if what == "render":
            return x.render(th, res=5)
        if what == "lc":
            return L("starry.light_curves").surface_light_curve(x, theta=th)
        if what == "intensity":
            return x.intensity(jnp.asarray(0.1), jnp.asarray(0.2))
        return x.inc, x.obl, x.ydeg, x.udeg, x.deg, x.rotational_phase(0.3), x.veq if x.period is not None else None

    return f, ()


# ------------------------------------------------------- shared polynomials
@build("pijk")
def _(L, P, p, deg=None):
    return L("starry.core.polynomials").Pijk.from_dense(jnp.asarray(p, dtype=float), degree=deg)


@entry("pijk_shared", "surface", EAGER, w=2.0, a=PS, b=PS, deg=[None, 2], op=["add", "mul", "radd", "scale", "dense", "sparse", "index", "attrs", "sum"])
def _(L, P, a, b, deg, op):
    def f():
        x, y = P("pijk", p=a, deg=deg), P("pijk", p=b, deg=None)
        if op == "add":
            r = x + y
        elif op == "radd":
            r = y + x
        elif op == "mul":
            r = x * y
        elif op == "scale":
            r = 2.0 * x
        elif op == "sum":
            r = x + y + x
        elif op == "dense":
            return x.todense()
        elif op == "sparse":
            return x.tosparse().todense()
        elif op == "index":
            return x[(0, 0, 0)], y[(1, 0, 0)]
        else:
            return x.shape, x.degree, x.diagonal, [repr(i) for i in x.indices]
        return r, r.degree, r.shape, r.todense()

    return f, ()


@entry("ylm_shared", "surface", EAGER, w=1.5, a=[0, 2, 3, 4, 5, 8], b=[0, 2, 3, 4], op=["mul", "chain", "surface", "scaled", "normmul"])
def _(L, P, a, b, op):
    def f():
        x, y = P("ylm", y=a), P("ylm", y=b)
        if op == "mul":
            return (x * y).todense(), x.todense()
        if op == "chain":
            return ((x * y) * 0.5).normalize().todense()
        if op == "scaled":
            return (x * 2.0).todense(), (3.0 * x).deg, x.data
        if op == "normmul":
            return (x.normalize() * y.normalize()).todense()
        return L("starry.surface").Surface(y=x, u=[0.1]).render(0.2, res=5)

    return f, ()


# --------------------------------------------------- several wrong arguments
@entry("bad_many", "orbit", EAGER, w=0.8, k=["qi", "qi3", "central", "body", "transit", "ttv", "interp", "tree", "both"])
def _(L, P, k):
    """Several arguments are wrong at once: which error is reported is part of the outcome."""
    u = L("units").unit_registry

    def f():
        if k == "qi":
            return L("units").quantity_input(lambda a, b: a, a=u.m, b=u.s)(1.0 * u.kg, 2.0 * u.radian)
        if k == "qi3":
            return L("units").quantity_input(lambda alpha, beta, gamma, delta=1.0: alpha, alpha=u.m, beta=u.s, gamma=u.kg, delta=u.d)(
                1.0 * u.kg, beta=2.0 * u.radian, gamma=1.0 * u.s, delta=1.0 * u.m
            )
        if k == "central":
            return L("orbits.keplerian").Central(mass=1.0 * u.m, radius=1.0 * u.s)
        if k == "body":
            return L("orbits.keplerian").Body(period=1.0 * u.m, radius=1.0 * u.s, mass=1.0 * u.s, time_transit=1.0 * u.kg)
        if k == "transit":
            return L("orbits.transit").TransitOrbit(period=1.0 * u.m, duration=1.0 * u.kg, impact_param=1.0 * u.s, time_transit=1.0 * u.kg)
        if k == "ttv":
            return L("orbits.ttv").TTVOrbit(period=1.0 * u.m, duration=1.0 * u.kg, impact_param=1.0 * u.s, time_transit=1.0 * u.kg, ttvs=(jnp.zeros(3),))
        if k == "interp":
            return L("light_curves.transforms").interpolate(lambda t: t, period=1.0 * u.m, time_transit=1.0 * u.kg, duration=1.0 * u.radian, num_samples=5)
        if k == "tree":
            return L("units").quantity_input(lambda p: p, p={"a": u.m, "b": u.s, "z": u.kg})({"b": 1.0 * u.radian, "a": 1.0 * u.s, "z": 1.0 * u.m})
        return L("orbits.keplerian").Body(period=1.0, semimajor=2.0, eccentricity=0.1, omega_peri=0.1, sin_omega_peri=0.2, inclination=1.0, impact_param=0.2)

    return f, ()


@entry("order_seen", "orbit", EAGER, w=0.8, k=["qi", "field", "stack"], n=[3, 5])
def _(L, P, k, n):
    """The order in which the library looks at its arguments."""
    u = L("units").unit_registry
    names = ["alpha", "beta", "gamma", "delta", "eps"][:n]

    def f():
        seen = []

        class Noisy:
            """A user's number that records when it is used."""

            def __init__(self, name):
                self.name = name

            @property
            def _magnitude(self):
                seen.append(self.name)
                return 1.0

            _units = None

            def to(self, unit):
                seen.append(self.name + "->" + str(unit))
                return 1.0 * unit

        units = {x: [u.m, u.s, u.kg, u.d, u.radian][i] for i, x in enumerate(names)}
        if k == "qi":
            ns = {}
            exec(f"def fn({', '.join(names)}):\n    return ({', '.join(names)})", ns)
            r = L("units").quantity_input(ns["fn"], **units)(**{x: Noisy(x) for x in names})
        elif k == "field":
            M = type(eqx.Module)("M", (eqx.Module,), {"__annotations__": {x: object for x in names}, "__module__": __name__, **{x: L("units").field(units=units[x]) for x in names}})
            m = M(**{x: Noisy(x) for x in names})
            r = [getattr(m, x) for x in names]
        else:
            st = L("object_stack").ObjectStack(*[{x: jnp.asarray(float(i))} for i, x in enumerate(names)])
            r = len(st)
            st.vmap(lambda o: [seen.append(k) for k in o] and 0.0)()
        return seen, r

    return f, ()


_ = (BODIES, BUILD, SURFS, CBM, Model, q)
