"""Functions the library returns and callers keep, transforms inside transforms,
sparse polynomials, families of user functions that differ in little."""
import jax
import jax.numpy as jnp
import numpy as np

from .catalog import NOGRAD, SYSTEMS, EAGER, A, build, entry, q


# ------------------------------------------------ functions callers keep and share
@build("polyfn")
def _(L, P, d):
    return L("starry.core.basis").poly_basis(d)


@entry("poly_fn", "surface", NOGRAD, w=1.5, d=[2, 1, 3, 0, 5], x=[0.1, 0.2, 0.1000001], n=[2, 1, 3])
def _(L, P, d, x, n):
    return P("polyfn", d=d), (A([x, 0.3, 0.2][:n]), A([0.2, 0.1, -0.1][:n]), A([0.9, 0.8, 0.7][:n]))


@build("qifn")
def _(L, P, unit, tree, strict):
    u = L("units").unit_registry
    to = getattr(u, unit)
    if tree:
        return L("units").quantity_input(lambda p, k=2.0: p["x"] * k + p["y"][0], p={"x": to, "y": [to]}, _strict=strict)
    return L("units").quantity_input(lambda x, y=None, k=2.0: (x * k if y is None else x * k + y), x=to, y=to, _strict=strict)


@entry("qi_fn", "orbit", ("eager", "jit"), w=1.5, unit=["m", "AU", "R_sun"], tree=[False, True], strict=[False, True], a=[1.0, [1.0, 2.0]], given=["none", "km", "s", "m"], y=[None, 0.5, [0.5, "km"]], k=[None, 3.0])
def _(L, P, unit, tree, strict, a, given, y, k):
    u = L("units").unit_registry
    f = P("qifn", unit=unit, tree=tree, strict=strict)
    kw = {} if k is None else {"k": k}

    def go(v):
        x = v if given == "none" else v * getattr(u, given)
        if tree:
            return f({"x": x, "y": [x if y is None else q(L, y)]}, **kw)
        return f(x, **kw) if y is None else f(x, q(L, y), **kw)

    return go, (A(a),)


@build("stackfn")
def _(L, P, s, f, ax):
    fn = {
        "r": lambda b, t: b.radius * t,
        "pos": lambda b, t: b.position(t)[0],
        "dict": lambda b, t: {"p": b.period, "t": t * 2.0},
    }[f]
    return P("system", via="add", **SYSTEMS[s]).body_vmap(fn, in_axes=ax)


@entry("stack_fn", "orbit", ("eager", "jit"), w=1.5, s=[1, 4, 5, 8, 9], f=["r", "pos", "dict"], ax=[None, 0], t=[0.1, 0.2, [0.1, 0.2]])
def _(L, P, s, f, ax, t):
    n = len(SYSTEMS[s]["bodies"])
    x = A(t)
    if ax == 0:
        x = jnp.stack([x + 0.1 * i for i in range(n)])
    return P("stackfn", s=s, f=f, ax=ax), (x,)


@build("vecfn")
def _(L, P, unit):
    u = L("units").unit_registry

    def model(t, k=1.0, c=0.0):
        return (t.magnitude if unit else t) * k + c

    return L("light_curves.utils").vectorize(model)


@entry("vec_fn", "orbit", ("eager", "jit"), w=1.0, unit=[False, True], t=[0.1, [0.1, 0.2], [[0.1], [0.3]], [0.1, 0.2, 0.3]], args=[[], [2.0], [2.0, 0.5]])
def _(L, P, unit, t, args):
    u = L("units").unit_registry
    f = P("vecfn", unit=unit)
    return (lambda t: f(t * u.d if unit else t, *args)), (A(t),)


# --------------------------------------------- families of nearly equal functions
@entry("qi_family", "orbit", EAGER, w=1.5, ks=[[1.0, 2.0], [2.0, 1.0], [1.0, 1.0000001], [0, 0.0], [1, True]], units=[["m", "m"], ["m", "km"], ["s", "m"]], how=["default", "closure", "kwdefault", "method", "partial"], given=["none", "km"])
def _(L, P, ks, units, how, given):
    """Decorated functions of one name from one factory which differ in a default, in
    what they close over or in their unit."""
    import functools

    u = L("units").unit_registry

    def make(k, unit):
        to = getattr(u, unit)
        if how == "default":
            @L("units").quantity_input(x=to)
            def fn(x, k=k):
                return x * k
        elif how == "kwdefault":
            @L("units").quantity_input(x=to)
            def fn(x, *, k=k):
                return x * k
        elif how == "method":
            class C:
                def __init__(self):
                    self.k = k

                @L("units").quantity_input(x=to)
                def fn(self, x):
                    return x * self.k

            return C().fn
        elif how == "partial":
            def fn(k, x):
                return x * k

            return L("units").quantity_input(functools.partial(fn, k), x=to)
        else:
            @L("units").quantity_input(x=to)
            def fn(x):
                return x * k
        return fn

    def f():
        fs = [make(k, un) for k, un in zip(ks, units)]
        out = []
        for g in fs + fs[::-1]:
            try:
                out.append(g(1.5 if given == "none" else 1.5 * getattr(u, given)))
            except TypeError as e:
                out.append(f"{type(e).__name__}: {e}")
        return out

    return f, ()


@entry("lc_family", "orbit", EAGER, w=1.2, ks=[[1.0, 2.0], [2.0, 1.0], [1.0, 1.0000001]], how=["integ", "interp", "vectorize", "stack", "interp_args"], default=[False, True])
def _(L, P, ks, how, default):
    """Models of one name from one factory which differ in a default or in what they close over."""
    T = L("light_curves.transforms")

    def make(k):
        if default:
            def model(t, k=k):
                return jnp.sin((t.magnitude if hasattr(t, "magnitude") else t) * k)
        else:
            def model(t):
                return jnp.sin((t.magnitude if hasattr(t, "magnitude") else t) * k)
        return model

    def apply(m):
        t = jnp.array([0.1, 0.7])
        if how == "integ":
            return T.integrate(m, exposure_time=0.1, order=2, num_samples=5)(t)
        if how == "vectorize":
            return L("light_curves.utils").vectorize(m)(t)
        if how == "stack":
            st = L("object_stack").ObjectStack(*[{"a": jnp.asarray(x)} for x in (1.0, 2.0)])
            return st.vmap(lambda o, t: o["a"] * m(t), in_axes=None)(t)
        kw = {"args": (3.0,)} if how == "interp_args" and default else {}
        return T.interpolate(m, period=3.0, time_transit=0.5, num_samples=15, **kw)(t)

    def f():
        ms = [make(k) for k in ks]
        return [apply(m) for m in ms + ms[::-1]]

    return f, ()


# -------------------------------------------------------- transforms in transforms
def transform(L, kind, inner, k):
    T = L("light_curves.transforms")

    def model(t):
        v = jnp.sin((t.magnitude if hasattr(t, "magnitude") else t) * k)
        return v if inner is None else v + inner(t)

    if kind == "integ":
        return T.integrate(model, exposure_time=0.1, order=1, num_samples=3)
    if kind == "interp":
        return T.interpolate(model, period=3.0, time_transit=0.5, num_samples=7)
    if kind == "vectorize":
        return L("light_curves.utils").vectorize(model)
    if kind == "qi":
        return L("units").quantity_input(model, t=L("units").unit_registry.d)
    if kind == "stack":
        st = L("object_stack").ObjectStack({"a": jnp.asarray(1.0)}, {"a": jnp.asarray(2.0)})
        return lambda t: jnp.sum(st.vmap(lambda o, t: o["a"] * model(t), in_axes=None)(t.magnitude if hasattr(t, "magnitude") else t))
    raise KeyError(kind)


KINDS = ["integ", "interp", "qi", "vectorize", "stack"]
PAIRS = [["integ", "interp"], ["interp", "integ"], ["integ", "integ"], ["interp", "interp"], ["qi", "integ"], ["stack", "interp"], ["integ", "stack"], ["interp", "qi"], ["vectorize", "interp"], ["stack", "stack"], ["interp", "vectorize"], ["qi", "qi"]]


@entry("nested", "orbit", EAGER, w=3.0, pair=PAIRS, third=[None] + KINDS[:3], built=["before", "inside"], k=[1.0, 1.0000001, 2.0], t=[0.3, 0.4])
def _(L, P, pair, third, built, k, t):
    """A transformed model whose model is a transformed model."""
    outer, inner = pair

    def f():
        def low(t):
            return transform(L, third, None, 0.5 * k)(t) if third else 0.0 * (t.magnitude if hasattr(t, "magnitude") else t)

        if built == "before":
            g = transform(L, inner, low, k)
            h = transform(L, outer, g, 2.0 * k)
        else:
            h = transform(L, outer, lambda t: transform(L, inner, low, k)(t), 2.0 * k)
        x = jnp.asarray(t)
        if outer in ("vectorize", "qi", "integ", "interp"):
            x = x * L("units").unit_registry.d
        r = h(x)
        return r

    return f, ()


# ------------------------------------------------------------- sparse polynomials
TERMS = [
    [[1, 0, 0, 2.0], [0, 1, 0, 1.0]],
    [[1, 0, 0, 2.0], [0, 1, 0, 1.0], [0, 0, 0, 5.0]],
    [[0, 0, 1, 3.0], [0, 1, 0, 1.0]],
    [[0, 0, 0, 1.0]],
    [[1, 0, 0, 2.0]],
    [[0, 0, 0, 0.5], [2, 0, 0, 1.5]],
    [[0, 0, 0, 0.5], [1, 1, 0, 1.5], [1, 0, 1, 0.25]],
    [[0, 1, 0, 1.0], [1, 0, 0, 2.0]],
]


@build("terms")
def _(L, P, i):
    return L("starry.core.polynomials").Pijk({(a, b, c): jnp.asarray(v) for a, b, c, v in TERMS[i]})


@entry("pijk_terms", "surface", EAGER, w=2.5, a=list(range(len(TERMS))), b=list(range(len(TERMS))), op=["mul", "add", "radd", "square", "chain", "dense", "attrs"])
def _(L, P, a, b, op):
    def f():
        x, y = P("terms", i=a), P("terms", i=b)
        if op == "dense":
            return x.todense(), x.tosparse().todense()
        if op == "attrs":
            return x.degree, x.shape, [repr(i) for i in x.indices], x[(0, 0, 0)]
        r = {"mul": lambda: x * y, "add": lambda: x + y, "radd": lambda: y + x, "square": lambda: x * x, "chain": lambda: (x * y) * x + y}[op]()
        return r.degree, sorted((repr(k), float(v)) for k, v in r.data.items()), r.todense()

    return f, ()


# ---------------------------------------------------------- sparse harmonics, rest
YT = [
    {"0,0": 1.0, "2,1": 0.3},
    {"0,0": 1.0, "2,1": 0.3, "1,0": 0.2, "2,-2": 0.1},
    {"2,2": 0.4},
    {"0,0": 1.0, "1,1": 0.3, "3,0": 0.1},
    {"0,0": 1.0, "3,3": 0.3, "3,-1": 0.1},
]


@build("ylmt")
def _(L, P, i):
    return L("starry.ylm").Ylm({tuple(int(x) for x in k.split(",")): jnp.asarray(v) for k, v in YT[i].items()})


@entry("ylm_terms", "surface", EAGER, w=1.5, a=list(range(len(YT))), b=list(range(len(YT))), op=["mul", "dense", "sparse", "rot", "surface"])
def _(L, P, a, b, op):
    def f():
        x, y = P("ylmt", i=a), P("ylmt", i=b)
        if op == "mul":
            r = x * y
            return sorted((repr(k), float(v)) for k, v in r.data.items())
        if op == "sparse":
            return x.tosparse().todense(), x.indices, x.shape, x.diagonal
        if op == "rot":
            return L("starry.core.rotation").dot_rotation_matrix(x.deg, 1.0, 0.0, 0.0, 0.3)(x.todense())
        if op == "surface":
            return L("starry.surface").Surface(y=x, u=[0.1], normalize=False).render(0.2, res=5)
        return x.todense(), x.deg

    return f, ()


@entry("test_utils", "orbit", EAGER, w=0.6, a=[1.0, [1.0, 2.0]], off=[0.0, 1e-9, 1e-3], unit=[None, "m", "km"], convert=[False, True], kw=[{}, {"rtol": 1e-2}], tree=[False, True])
def _(L, P, a, off, unit, convert, kw, tree):
    T, u = L("test_utils"), L("units").unit_registry

    def f():
        x = A(a)
        y = x + off
        if unit:
            x, y = x * u.m, (y if unit == "m" else y * 1e-3) * getattr(u, unit)
        kx = dict(kw)
        try:
            if tree:
                T.assert_quantity_pytree_allclose({"a": x, "b": [x]}, {"a": y, "b": [y]}, convert=convert, **kx)
            elif unit or convert:
                T.assert_quantity_allclose(x, y, convert=convert, **kx)
            else:
                T.assert_allclose(x, y, **kx)
        except AssertionError:
            return "differ", kx == kw
        return "equal", kx == kw

    return f, ()


# ------------------------------------------------------------------ higher degrees
@entry("rot_high", "surface", EAGER, w=0.8, d=[5, 9, 10, 7], f=["dot", "rz", "left", "ylm"], th=[0.3, 0.3000001], ax=[[0.2, 0.9, 0.3], [1.0, 0.0, 0.0]])
def _(L, P, d, f, th, ax):
    R = L("starry.core.rotation")
    n = (d + 1) ** 2
    norm = float(np.sqrt(sum(a * a for a in ax)))
    ax = [a / norm for a in ax]

    def g():
        v = jnp.linspace(0.1, 1.0, n)
        if f == "dot":
            return R.dot_rotation_matrix(d, *ax, th)(v)
        if f == "rz":
            return R.dot_rz(d, th)(v)
        if f == "left":
            return R.left_project(d, 1.2, 0.1, th, 0.2, v)
        y = L("starry.ylm").Ylm.from_dense(v)
        return y.deg, y.todense()[::7], y.tosparse().todense()[::5]

    return g, ()


@entry("map_high", "surface", EAGER, w=0.6, d=[6, 8, 10, 9], f=["poly", "render", "A1", "intensity", "mul"], x=[0.1, 0.1000001])
def _(L, P, d, f, x):
    n = (d + 1) ** 2
    B = L("starry.core.basis")

    def g():
        v = jnp.linspace(0.01, x, n).at[0].set(1.0)
        if f == "A1":
            return B.A1(d).todense() @ v
        if f == "poly":
            return B.poly_basis(d)(A([x, 0.3]), A([0.2, 0.1]), A([0.9, 0.8])) @ v
        y = L("starry.ylm").Ylm.from_dense(v)
        if f == "mul":
            return (L("starry.ylm").Ylm.from_dense(v[:9]) * L("starry.ylm").Ylm({(d - 4, 1): 0.5, (d - 4, -2 % (d - 3)): 0.1})).todense()
        s = L("starry.surface").Surface(y=y, inc=1.1, obl=0.2, u=[0.1])
        return s.render(x, res=4) if f == "render" else s.intensity(x, 0.3)

    return g, ()
