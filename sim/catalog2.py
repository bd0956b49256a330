"""More operations: calls that get mutable arguments of the caller, drawing, and
user callbacks (which count their calls, fail, or call the library again)."""
import threading

import jax
import jax.numpy as jnp
import numpy as np

from .catalog import ALL, EAGER, A, build, entry  # noqa: F401


def N(*x):
    return np.array(x, dtype=float)


# ------------------------------------------------------- mutable arguments
@entry("arg_np", "arg", EAGER, w=3.0, f=["kepler", "ld", "ld_solvec", "zss", "solvec", "render", "slc", "rz", "rot", "left", "right", "full", "s2fft", "y1d", "y2d", "rotl", "axis", "intensity", "poly"], x=[0.3, 0.4])
def _(L, P, f, x):
    if f == "kepler":
        return L("core.kepler").kepler, (N(x, 1.0, 4.0), N(0.1, 0.2, 0.3))
    if f == "ld":
        return L("core.limb_dark").light_curve, (N(0.1, 0.3), N(x, 0.95), N(0.1, 0.1))
    if f == "ld_solvec":
        return P("solvec", which="ld", l=2, order=10), (N(x, 0.95), N(0.1, 0.1))
    if f == "zss":
        return L("utils").zero_safe_sqrt, (N(x, 0.0),)
    if f == "solvec":
        return P("solvec", which="st", l=2, order=10), (N(x), N(0.1))
    if f == "render":
        s = P("surface", s=0)
        return (lambda t: s.render(t, res=5)), (np.array(x),)
    if f == "slc":
        s = P("surface", s=0)
        g = L("starry.light_curves").surface_light_curve
        return (lambda r, xo, y, z, th: g(s, r, xo, y, z, th)), tuple(np.array(v) for v in (0.1, 0.1, x, 1.0, 0.3))
    if f == "rz":
        return (lambda t, M: L("starry.core.rotation").dot_rz(2, t)(M)), (np.array(x), np.linspace(0, 1, 9))
    if f == "rot":
        return (lambda M: L("starry.core.rotation").dot_rotation_matrix(2, 1.0, 0.0, 0.0, x)(M)), (np.linspace(0, 1, 9),)
    if f in ("left", "right"):
        g = getattr(L("starry.core.rotation"), f + "_project")
        return (lambda M: g(2, 1.0, 0.2, x, 0.1, M)), (np.linspace(0, 1, 9),)
    if f == "full":
        return L("starry.core.rotation").full_rotation_axis_angle, tuple(np.array(v) for v in (1.0, 0.2, x, 0.1))
    if f == "s2fft":
        return (lambda M: L("starry.core.rotation").fast_direct_left_project(2, 1.0, 0.2, x, 0.1, M)), (np.linspace(0, 1, 9),)
    if f == "y1d":
        return (lambda v: L("starry.utils").y1d_to_2d(2, v)), (np.linspace(0, x, 9),)
    if f == "y2d":
        return (lambda v: L("starry.utils").y2d_to_1d(2, v)), (np.linspace(0, x, 15).reshape(3, 5),)
    if f == "rotl":
        return (lambda v: L("starry.utils").rotate_lines(v, 1.0, 0.1, x)), (np.linspace(0, 1, 24).reshape(2, 3, 4),)
    if f == "axis":
        return L("starry.core.rotation").sky_projection_axis_angle, (np.array(1.0), np.array(x))
    if f == "intensity":
        s = P("surface", s=0)
        return s.intensity, (np.array(x), np.array(0.1))
    return (lambda *v: L("starry.core.polynomials").polynomial_product_matrix(*v)), (np.linspace(0, x, 4), 1)


@entry("arg_orbit", "arg", EAGER, w=3.0, f=["lc_u", "lc_t", "ttv", "ttv_times", "transit", "expected", "system", "bodies", "body", "central", "warp", "vmap", "stack"], x=[0.1, 0.2])
def _(L, P, f, x):
    K = L("orbits.keplerian")
    if f == "lc_u":
        return (lambda u: L("light_curves.limb_dark").light_curve(P("system", central={}, bodies=[0]), u)(jnp.array([0.1, 0.2]))), (N(x, 0.3),)
    if f == "lc_t":
        return (lambda t: P("lc", orbit={"kind": "system", "i": 0}, u=[0.1, 0.3], order=10)(t)), (N(x, 0.3),)
    if f == "ttv":
        return (
            lambda p, d, t0, tt: L("orbits.ttv").TTVOrbit(period=p, duration=d, time_transit=t0, impact_param=N(0.1), radius_ratio=N(0.1), ttvs=tt).relative_position(0.3)
        ), (N(3.0), N(0.2), N(x), [N(0.01, -0.02, 0.01)])
    if f == "ttv_times":
        return (
            lambda d, tt, ti: L("orbits.ttv").TTVOrbit(duration=d, impact_param=N(0.1), radius_ratio=N(0.1), transit_times=tt, transit_inds=ti).relative_position(3.1)
        ), (N(0.2), [N(x, 3.12, 6.09, 9.1)], [np.array([0, 1, 2, 3])])
    if f == "transit":
        return (lambda p, d, t0, b, r: L("orbits.transit").TransitOrbit(period=p, duration=d, time_transit=t0, impact_param=b, radius_ratio=r).relative_position(0.1)), (
            N(3.0), N(0.2), N(x), N(0.1), N(0.1),
        )  # fmt: skip
    if f == "expected":
        return (lambda p, t0: L("orbits.ttv").compute_expected_transit_times(0.0, 10.0, p, t0)), (N(3.0, 4.0), N(x, 0.3))
    if f == "system":
        return (lambda t: P("system", central={}, bodies=[0, 15]).relative_position(t)), (np.array(x),)
    if f == "bodies":

        def g(bodies):
            s = K.System(P("central", c={}), bodies=bodies)
            return s.add_body(period=9.0, radius=0.1).relative_position(0.1)

        return g, ([P("body", b=0), P("body", b=15)],)
    if f == "body":
        return (lambda kw: K.OrbitalBody(P("central", c={}), K.Body(**kw)).relative_position(0.2)), ({"period": np.array(3.4), "time_transit": np.array(x), "radius": np.array(0.1)},)
    if f == "central":
        return (lambda kw: K.Central(**kw)), ({"mass": np.array(1.0), "radius": np.array(x)},)
    if f == "warp":
        return (lambda t: P("ttv", t=0)._warp_times(t * L("units").unit_registry.d)), (N(x, 0.3),)
    if f == "vmap":
        return (lambda t, ax: P("system", central={}, bodies=[0, 6]).body_vmap(lambda b, t: b.position(t)[0], in_axes=ax)(t)), (np.array(x), [None])
    return (lambda d: L("object_stack").ObjectStack(*d).vmap(lambda o, t: o["a"] * t, in_axes=None)(2.0)), ([{"a": N(x)}, {"a": N(0.3)}],)


@entry("arg_starry", "arg", EAGER, w=3.0, f=["ylm", "pijk", "ylm_dense", "pijk_dense", "ylm_u", "surf_u", "mul", "system", "field", "qi", "interp", "integ", "lines", "spot"], x=[0.1, 0.2])
def _(L, P, f, x):
    Y = L("starry.ylm")
    PJ = L("starry.core.polynomials").Pijk
    if f == "ylm":
        return (lambda d: (Y.Ylm(d).normalize().todense(), Y.Ylm(d) * Y.Ylm(d))), ({(0, 0): 1.0, (1, 0): x},)
    if f == "pijk":
        return (lambda d: (PJ(d).todense(), PJ(d) * PJ(d))), ({(0, 0, 0): 1.0, (1, 0, 0): x},)
    if f == "ylm_dense":
        return (lambda v: Y.Ylm.from_dense(v)), (N(2.0, x, 0.2, 0.3),)
    if f == "pijk_dense":
        return (lambda v: PJ.from_dense(v, degree=1)), (N(2.0, x, 0.2, 0.3),)
    if f == "ylm_u":
        return (lambda u: Y.Ylm.from_limb_darkening(u)), (N(x, 0.2),)
    if f == "surf_u":
        return (lambda u: L("starry.surface").Surface(y=P("ylm", y=0), u=u).render(0.0, res=5)), ([x, 0.2],)
    if f == "mul":
        return (lambda a, b: (a * b, a * 2.0, a.normalize(), a.todense())), (P("ylm", y=0), P("ylm", y=3))
    if f == "system":

        def g(bodies):
            s = L("starry.orbit").SurfaceSystem(P("central", c={}), P("surface", s=9), bodies=bodies)
            s2 = s.add_body(P("body", b=15), P("surface", s=8))
            return len(s.bodies), len(s2.bodies), s.body_surfaces, s2.body_surfaces

        return g, ([(P("body", b=0), P("surface", s=0))],)
    if f == "field":
        import equinox as eqx

        u = L("units").unit_registry

        class M(eqx.Module):
            d: dict = L("units").field(units={"a": u.m, "b": None})

        return (lambda d: M(d).d), ({"a": x, "b": 3.0},)
    if f == "qi":
        u = L("units").unit_registry
        g = L("units").quantity_input(lambda p: p["a"] / p["b"], p={"a": u.m, "b": u.s})
        return g, ({"a": x, "b": 2.0 * u.minute},)
    if f == "interp":

        def model(t, k=1.0, c=0.0):
            return jnp.sin(t.magnitude * k) + c

        return (
            lambda a, kw: L("light_curves.transforms").interpolate(model, period=3.0, time_transit=0.5, num_samples=11, args=a, kwargs=kw)(jnp.array([0.1, 2.0]))
        ), ([2.0], {"c": x})
    if f == "integ":

        def model(t, d):
            return jnp.sin(t.magnitude * d["k"])

        return (lambda t, d: L("light_curves.transforms").integrate(model, exposure_time=0.1)(t, d)), (jnp.array([0.1, 0.2]), {"k": x})
    if f == "lines":
        import matplotlib.figure

        def g(v):
            ax = matplotlib.figure.Figure().subplots()
            L("starry.utils").plot_lines(v, ax=ax)
            return [np.asarray(z.get_xydata()) for z in ax.lines]

        return g, (np.linspace(-1, 1, 24).reshape(2, 3, 4),)
    return (lambda kw: Y.ylm_spot(3, **kw)(0.5, 0.3, x, 0.1)), ({"npts": 50, "spot_fac": 30},)


@entry("arg_mp", "arg", EAGER, w=1.5, f=["flux", "to_mp", "diff", "dot", "rz", "left", "cache"], x=[0.1, 0.2])
def _(L, P, f, x):
    U = L("starry.multiprecision.utils")
    R = L("starry.multiprecision.rotation")
    mp = L("starry.multiprecision").mp
    if f == "flux":
        return (lambda y, u: L("starry.multiprecision.flux").flux(1, 1)(0.5, x, y=y, u=u)), (N(1.0, 0.1, 0.2, 0.3), [0.1])
    if f == "to_mp":
        return U.to_mp, (np.linspace(0, x, 4).reshape(2, 2),)
    if f == "diff":
        m = U.to_mp(np.linspace(0, x, 4).reshape(2, 2))
        return (lambda m, a: (U.diff_mp(m, a), U.to_numpy(m))), (m, np.ones((2, 2)))
    v = mp.matrix([1.0 + x * i for i in range(4)])
    if f == "dot":
        return (lambda v: R.dot_rotation_matrix(1, (0.0, 0.6, 0.8), 0.3)(v)), (v,)
    if f == "rz":
        return (lambda v: R.dot_rz(1, 0.3)(v)), (v,)
    if f == "left":
        return (lambda v: R.left_project(1, 1.0, 0.1, x, 0, v)), (v,)

    def g(b, r):
        c = P("mpcache", name="args")
        s = L("starry.multiprecision.solution").get_sT
        return s(1, b, r, cache=c), s(1, b, r, cache=c)

    return g, (0.5, x)


# ------------------------------------------------------------------ drawing
def axes_content(ax):
    """What one Axes shows, as plain numbers."""
    out = [("lines", [(np.asarray(z.get_xydata(), float), str(z.get_color()), float(z.get_linewidth()), z.get_alpha()) for z in ax.lines])]
    out.append(("images", [(np.asarray(im.get_array(), float), tuple(im.get_extent()), im.get_cmap().name, im.origin) for im in ax.images]))
    out.append(("lims", tuple(ax.get_xlim()), tuple(ax.get_ylim()), bool(ax.axison)))
    out.append(("other", len(ax.collections), len(ax.patches), len(ax.texts), str(ax.get_aspect())))
    out.append(("axes in figure", len(ax.figure.axes)))
    return out


class Canvas:
    """Figures and axes of one caller, in some pyplot state."""

    def __init__(self, state):
        import matplotlib.figure
        import matplotlib.pyplot as plt

        self.state = state
        self.figs = []
        self.axes = []
        if state in ("clean", "last", "first", "closed", "noncurrent", "interactive"):
            f, ax = plt.subplots(1, 2)
            self.figs.append(f)
            self.axes += [ax[1], ax[0]]
            if state == "clean":
                plt.sca(ax[1])
            elif state == "first":
                plt.sca(ax[0])
            elif state == "closed":
                plt.close(f)
            elif state == "noncurrent":
                g, ax2 = plt.subplots()
                self.figs.append(g)
                self.axes.append(ax2)
            elif state == "interactive":
                g, ax2 = plt.subplots(2)
                self.figs.append(g)
                self.axes += list(ax2)
                plt.sca(ax[0])
        else:  # an object-oriented figure pyplot knows nothing about
            f = matplotlib.figure.Figure()
            ax = f.subplots(1, 2)
            self.figs.append(f)
            self.axes += [ax[1], ax[0]]
            if state == "oo+other":
                g, ax2 = plt.subplots()
                self.figs.append(g)
                self.axes.append(ax2)
        self.before = [axes_content(a) for a in self.axes[1:]]
        self.figs_before = [len(f.axes) for f in self.figs]
        self.plt_figs = tuple(plt.get_fignums())

    def report(self, alone=True):
        import matplotlib.pyplot as plt

        from . import norm

        out = [("drawn", axes_content(self.axes[0]))]
        leaks = []
        for k, (a, b) in enumerate(zip(self.axes[1:], self.before)):
            if not norm.same(norm.norm(axes_content(a)), norm.norm(b)):
                leaks.append(f"another axes was drawn on ({k})")
        if [len(f.axes) for f in self.figs] != self.figs_before:
            leaks.append("axes were added to a figure")
        if alone and tuple(plt.get_fignums()) != self.plt_figs:
            leaks.append("a new pyplot figure was opened or closed")
        out.append(("leaks", leaks))
        return out

    def close(self):
        import matplotlib.pyplot as plt

        for f in self.figs:
            plt.close(f)


PLOT_STATES = ["clean", "last", "first", "closed", "noncurrent", "interactive", "oo", "oo+other"]
SHOWN = ["surface", "ylm", "pijk", "dense", "body", "surface_rv", "lines", "lines_axis"]


@entry("show", "plot", EAGER, what=SHOWN, s=[0, 1, 3, 9], th=[0.0, 0.3], res=[6, 8], n=[6, 4, None], white=[True, False], radius=[None, 0.5], phase=[True, False], ret=[False, True])
def _(L, P, what, s, th, res, n, white, radius, phase, ret, _state="clean", _alone=True, _extra=None):
    V = L("starry.visualization")
    kw = dict(theta=th, res=res, n=n, white_contour=white, radius=radius, include_phase=phase, return_im=ret)

    def f():
        if what == "surface":
            o = P("surface", s=s)
        elif what == "surface_rv":
            o = P("surface", s=0, rv=True)
            kw["rv"] = True
        elif what == "ylm":
            o = P("ylm", y=0)
        elif what == "pijk":
            o = L("starry.core.polynomials").Pijk.from_dense(jnp.array([1.0, 0.1, 0.2, 0.3]), degree=1)
        elif what == "dense":
            o = np.array([1.0, 0.1, 0.2, 0.3])
        elif what == "body":
            o = L("starry.orbit").SurfaceBody(period=1.0, radius=0.1, surface=P("surface", s=s))
        c = Canvas(_state)
        try:
            if what.startswith("lines"):
                lat, lon = L("starry.utils").lon_lat_lines(n=n or 6, pts=10, radius=radius or 1.0)
                L("starry.utils").plot_lines(np.asarray(lat), axis=(0, 1) if what == "lines" else (1, 2), ax=c.axes[0], c="k")
                r = None
            else:
                r = V.show_surface(o, ax=c.axes[0], **kw)
                if ret:
                    r = r is not None and r.axes is c.axes[0]
            return r, c.report(_alone)
        finally:
            c.close()

    return f, ()


# ---------------------------------------------------------------- callbacks
class Boom(Exception):
    pass


class SelfCheck(AssertionError):
    """A promise about user code was seen broken: a violation, whatever the same call does
    elsewhere."""


class Model:
    """A user model: counts its evaluations (per thread) and fails or re-enters when told."""

    def __init__(self, kind, k, unit):
        self.kind, self.k, self.unit = kind, k, unit
        self.mine = threading.local()
        self.fail_at = None
        self.hook = None
        self.__name__ = "model"

    @property
    def calls(self):
        return getattr(self.mine, "calls", 0)

    def __call__(self, t, *args, **kw):
        self.mine.calls = self.calls + 1
        if self.fail_at is not None and self.calls == self.fail_at:
            raise Boom(f"user model failed at call {self.calls}")
        k = self.k
        if args:
            k = k * args[0]
        c = kw.get("c", 0.0)
        if self.hook is not None:
            c = c + self.hook()
        tm = t.magnitude if hasattr(t, "magnitude") else t
        v = jnp.sin(tm * k) + c
        return v * self.unit if self.unit is not None else v


@build("cbmodel")
def _(L, P, k, unit, tag="a"):
    return Model("sin", k, L("units").unit_registry.m if unit else None)


@build("cbinterp")
def _(L, P, m, num, args, kw):
    M = P("cbmodel", **m)
    before = M.calls
    g = L("light_curves.transforms").interpolate(M, period=3.0, time_transit=0.5, num_samples=num, args=tuple(args), kwargs=kw)
    g_calls = M.calls - before
    return g, g_calls


CBM = [{"k": 1.0, "unit": False}, {"k": 2.0, "unit": False}, {"k": 1.0, "unit": True}]


@entry("cb_interp", "cb", ("eager", "jit"), w=2.0, m=CBM, num=[11, 15], args=[[], [2.0], [3.0]], kw=[{}, {"c": 0.5}], t=[[0.1, 2.0], [0.1, 2.1], 0.3])
def _(L, P, m, num, args, kw, t):
    g, n = P("cbinterp", m=m, num=num, args=args, kw=kw)
    M = P("cbmodel", **m)

    def f(t):
        b = M.calls
        v = g(t)
        if n != 1:
            raise SelfCheck(f"the model was evaluated {n} times when it was transformed")
        if M.calls != b:
            raise SelfCheck(f"the model was evaluated {M.calls - b} times after it was transformed")
        return v

    return f, (A(t),)


@entry("cb_interp_fail", "cb", EAGER, m=CBM[:2], num=[11, 15], then=[True, False])
def _(L, P, m, num, then):
    """The user's model fails at the first evaluation; its exception arrives, and trying again works."""

    def f():
        M = Model("sin", m["k"], None)
        T = L("light_curves.transforms").interpolate
        M.fail_at = 1
        out = []
        try:
            T(M, period=3.0, time_transit=0.5, num_samples=num)
            raise SelfCheck("the exception of the user's model was lost")
        except Boom:
            out.append("boom")
        if then:
            g = T(M, period=3.0, time_transit=0.5, num_samples=num)
            out += [M.calls, g(jnp.array([0.1, 2.0])), M.calls]
        return out

    return f, ()


@entry("cb_integ", "cb", ("eager", "jit"), w=2.0, m=CBM[:2], exp=[0.1, 0.2], order=[0, 1, 2], num=[5, 7], a=[[], [2.0]], t=[[0.1, 2.0], 0.3], fail=[False, False, True])
def _(L, P, m, exp, order, num, a, t, fail):
    """Integrate a (possibly shared) user model; a call in which it fails comes first."""
    M = P("cbmodel", **m)
    g = L("light_curves.transforms").integrate(M, exposure_time=exp, order=order, num_samples=num)

    def f(t):
        if fail:
            M.fail_at = M.calls + 1
            try:
                g(t, *a)
                raise SelfCheck("the exception of the user's model was lost")
            except Boom:
                pass
            finally:
                M.fail_at = None
        return g(t, *a)

    return f, (A(t),)


@entry("cb_units", "cb", EAGER, w=1.5, what=["ok", "raise", "recurse", "default", "badunit"], a=[1.0, 2.0])
def _(L, P, what, a):
    u = L("units").unit_registry
    qi = L("units").quantity_input

    def f():
        @qi(x=u.m, y=u.s)
        def fn(x, y=None, n=0):
            if what == "raise" and n == 0:
                raise Boom("user function failed")
            if n > 0:
                return x + fn(x * 0.5, y, n=n - 1)
            return x

        if what == "raise":
            try:
                fn(a)
            except Boom:
                return "boom", fn(a, n=1) if a < 0 else None
            raise SelfCheck("the exception of the user's function was lost")
        if what == "recurse":
            return fn(a * u.km, 3.0 * u.minute, n=3)
        if what == "badunit":
            try:
                fn(a * u.s)
            except MemoryError:
                raise
            except Exception as e:
                return type(e).__name__, fn(a)
            return "no exception"
        if what == "default":
            return fn(a), fn(a, y=2.0), fn(x=a * u.cm)
        return fn(a * u.km)

    return f, ()


@entry("cb_vmap", "cb", EAGER, w=1.5, s=[1, 4, 9], what=["ok", "raise", "nest", "inconsistent"], t=[0.1, 0.2], at=[0, 1])
def _(L, P, s, what, t, at):
    """A user function mapped over the bodies of a shared system."""
    from .catalog import SYSTEMS

    o = P("system", via="add", **SYSTEMS[s])

    def f():
        n = [0]

        def fn(b, t):
            n[0] += 1
            if what == "raise" and n[0] == at + 1:
                raise Boom("user function failed")
            if what == "nest":
                r = o.body_vmap(lambda c, t: c.period.magnitude, in_axes=None)(t)
                return b.period.magnitude + r.sum()
            if what == "inconsistent" and n[0] == 2:
                return (b.period.magnitude, b.period.magnitude)
            return b.position(t)[0]

        try:
            r = o.body_vmap(fn, in_axes=None)(jnp.asarray(t))
        except Boom:
            r = "boom"
        except ValueError:
            r = "ValueError"
        return r, o.body_vmap(lambda b, t: b.position(t)[0], in_axes=None)(jnp.asarray(t))

    return f, ()


@entry("cb_reenter", "cb", EAGER, w=2.5, outer=["interp", "integ", "vectorize", "qi", "vmap"], inner=["kepler", "ld", "lc", "units", "self", "surface", "A1", "solvec", "render"], x=[0.3, 0.4])
def _(L, P, outer, inner, x):
    """A user callback calls the library: the outcome is that of calling both one after the other."""
    u = L("units").unit_registry

    def hook():
        if inner == "kepler":
            return jnp.sum(L("core.kepler").kepler(jnp.array([x]), jnp.array([0.1]))[0])
        if inner == "ld":
            return L("core.limb_dark").light_curve(jnp.array([0.1, 0.3]), jnp.asarray(x), jnp.asarray(0.1))
        if inner == "lc":
            return P("lc", orbit={"kind": "system", "i": 0}, u=[0.1, 0.3], order=10)(jnp.asarray(x))[0]
        if inner == "units":
            return L("units").quantity_input(lambda a: a, a=u.m)(x * u.km).magnitude
        if inner == "surface":
            return L("starry.light_curves").surface_light_curve(P("surface", s=0), theta=x)
        if inner == "A1":
            return jnp.sum(jnp.asarray(L("starry.core.basis").A1(2).todense()))
        if inner == "solvec":
            return jnp.sum(P("solvec", which="st", l=1, order=10)(x, 0.2))
        if inner == "render":
            return jnp.nansum(P("surface", s=0).render(x, res=5))
        g = run(lambda: jnp.asarray(0.25))
        return jnp.sum(g)

    def run(h):
        M = Model("sin", 1.0, None)
        M.hook = h
        T = L("light_curves.transforms")
        t = jnp.array([0.1, 2.0])
        if outer == "interp":
            return T.interpolate(M, period=3.0, time_transit=0.5, num_samples=11)(t)
        if outer == "integ":
            return T.integrate(M, exposure_time=0.1)(t)
        if outer == "vectorize":
            return L("light_curves.utils").vectorize(M)(t)
        if outer == "qi":
            return L("units").quantity_input(lambda t: M(t), t=u.d)(0.3)
        return P("system", central={}, bodies=[0, 6]).body_vmap(lambda b, t: M(t) + 0 * b.period.magnitude, in_axes=None)(0.3)

    def f():
        v = hook()
        flat = run(lambda: v)
        nested = run(hook)
        again = run(lambda: v)
        return flat, ("SAME", nested, flat), ("SAME", again, flat)

    return f, ()
