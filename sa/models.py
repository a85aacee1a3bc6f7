"""Transfer functions for the library operations the repository uses.

Array-library operations are interpreted per generic element: an opaque term stands for a generic
leaf (dtype casts, broadcasting of leading constants are identities); numpy object arrays stand for
arrays whose leading extent is a compile-time constant."""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as np
from . import terms as tm
from .terms import T, const, app, ite, lnot, land, lor, NONE, TRUE, FALSE, ZERO, ONE
from .values import *
from .loader import ClassInfo

MODELS = {}


def model(*names):
    def deco(f):
        for n in names: MODELS[n] = f
        return f
    return deco


JNP = ("jax.numpy.", "numpy.")
def jnp(*names):
    return model(*[p + n for n in names for p in JNP])


def U(msg):
    from .interp import Unsupported
    return Unsupported(msg)


def arr(I, v):
    """python sequences -> object ndarray when rectangular, else the value itself"""
    if isinstance(v, np.ndarray): return v
    if isinstance(v, Choice): return I.merge(v.c, arr(I, v.a), arr(I, v.b))
    if isinstance(v, (PyTuple, PyList)):
        it = [arr(I, x) for x in I.iterate(v)]
        if any(isinstance(x, (Maybe, Star)) for x in it): return v
        if not it: return np.empty((0,), dtype=object)
        shapes = {x.shape if isinstance(x, np.ndarray) else () for x in it}
        if len(shapes) != 1: raise U("ragged array")
        sh = shapes.pop()
        out = np.empty((len(it),) + sh, dtype=object)
        for i, x in enumerate(it): out[i] = x
        return out
    if isinstance(v, Path): return arr(I, v.v)
    return v


def ew(f):
    """elementwise lifting of a function on terms"""
    def g(I, *vs):
        vs = [arr(I, v) for v in vs]
        if any(isinstance(v, Omega) for v in vs):
            raise U("elementwise on omega")
        for k, v in enumerate(vs):
            if isinstance(v, Choice):
                return I.merge(v.c, g(I, *vs[:k], v.a, *vs[k + 1:]), g(I, *vs[:k], v.b, *vs[k + 1:]))
        if any(isinstance(v, np.ndarray) for v in vs):
            n = [v if isinstance(v, np.ndarray) else box(v) for v in vs]
            n = np.broadcast_arrays(*n)
            out = np.empty(n[0].shape, dtype=object)
            for i in np.ndindex(out.shape): out[i] = g(I, *[x[i] for x in n])
            return out if out.ndim else out.item()
        return f(*[I.to_term(v) for v in vs])
    return g


def box(v):
    a = np.empty((), dtype=object); a[()] = v; return a


def unary(name): return ew(lambda x: app(name, x))


_where = ew(lambda c, a, b: ite(c, a, b))


@jnp("where")
def m_where(I, a, k):
    if len(a) == 1: return app("where1", I.to_term(a[0]))
    c, x, y = a
    c = arr(I, c)
    if isinstance(c, Choice) : c = I.truthy(c)
    if isinstance(c, T): c = asbool(I, c)
    x, y = arr(I, x), arr(I, y)
    if isinstance(c, np.ndarray) or not (isinstance(x, T) and isinstance(y, T)):
        return _where(I, c, x, y)
    return ite(c, x, y)


def asbool(I, c): return I.truthy(c) if not isinstance(c, T) else c


def reg1(names, f):
    def g(I, a, k): return ew(f)(I, a[0])
    jnp(*names)(g)


reg1(["sqrt"], lambda x: app("sqrt", x))
reg1(["exp"], lambda x: app("exp", x))
reg1(["expm1"], lambda x: app("exp", x) - 1)
reg1(["log"], lambda x: app("log", x))
reg1(["log2"], lambda x: app("log2", x))
reg1(["sin"], lambda x: app("sin", x))
reg1(["abs", "absolute", "fabs"], lambda x: app("abs", x))
reg1(["sign"], lambda x: app("sign", x))
reg1(["square"], lambda x: tm.mul(x, x))
reg1(["negative"], lambda x: tm.neg(x))
reg1(["reciprocal"], lambda x: tm.inv(x))
reg1(["isnan"], lambda x: app("isnan", x))
reg1(["isinf"], lambda x: app("isinf", x))
reg1(["isposinf"], lambda x: app("isposinf", x))
reg1(["isneginf"], lambda x: app("isneginf", x))
reg1(["isfinite"], lambda x: app("isfinite", x))
reg1(["logical_not", "invert", "bitwise_not"], lambda x: lnot(x))
reg1(["floor"], lambda x: app("floor", x))
reg1(["ceil"], lambda x: app("ceil", x))
reg1(["conj", "conjugate"], lambda x: app("conj", x))
_conj = MODELS["jax.numpy.conj"]
MODELS["jax.numpy.conj"] = lambda I, a, k: a[0] if I.scalar_leaves else _conj(I, a, k)
reg1(["real"], lambda x: app("real", x))
MODELS["math.sqrt"] = MODELS["numpy.sqrt"]
MODELS["math.exp"] = MODELS["numpy.exp"]
MODELS["math.log"] = MODELS["numpy.log"]
MODELS["math.log2"] = MODELS["numpy.log2"]
MODELS["math.fabs"] = MODELS["numpy.abs"]
MODELS["jax.lax.sqrt"] = MODELS["numpy.sqrt"]
MODELS["jax.lax.rsqrt"] = lambda I, a, k: ew(lambda x: tm.inv(app("sqrt", x)))(I, a[0])
MODELS["jax.nn.relu"] = lambda I, a, k: ew(lambda x: app("max", x, ZERO))(I, a[0])


def reg2(names, f):
    def g(I, a, k): return ew(f)(I, *a[:2])
    jnp(*names)(g)


reg2(["minimum", "fmin"], lambda x, y: app("min", x, y))
reg2(["maximum", "fmax"], lambda x, y: app("max", x, y))
reg2(["add"], tm.add); reg2(["subtract"], tm.sub); reg2(["multiply"], tm.mul)
reg2(["divide", "true_divide"], tm.div); reg2(["power", "pow", "float_power"], tm.power)
reg2(["logical_and", "bitwise_and"], land); reg2(["logical_or", "bitwise_or"], lor)
reg2(["logical_xor", "bitwise_xor"], lambda a, b: app("xor", a, b))
reg2(["less"], tm.lt); reg2(["less_equal"], tm.le); reg2(["greater"], tm.gt); reg2(["greater_equal"], tm.ge)
reg2(["equal"], tm.eq); reg2(["not_equal"], lambda a, b: lnot(tm.eq(a, b)))
reg2(["mod", "remainder"], lambda a, b: app("mod", a, b))
reg2(["floor_divide"], lambda a, b: app("floordiv", a, b))
reg2(["nextafter"], lambda a, b: app("nextafter2", a, b))
reg2(["isclose"], lambda a, b: app("isclose", a, b))


@jnp("sort")
def m_sort(I, a, k):
    x = arr(I, a[0])
    if isinstance(x, np.ndarray) and x.ndim == 1 and len(x) <= 6:
        v = [I.to_term(q) for q in x]
        for i in range(len(v)):
            for j in range(len(v) - 1 - i):
                v[j], v[j + 1] = app("min", v[j], v[j + 1]), app("max", v[j], v[j + 1])
        out = np.empty(len(v), dtype=object); out[:] = v
        return out
    return app("jax.numpy.sort", I.to_term(x))


@jnp("searchsorted")
def m_searchsorted(I, a, k):
    x, v = arr(I, a[0]), arr(I, a[1])
    side = k.get("side", a[2] if len(a) > 2 else const("left"))
    if isinstance(x, np.ndarray) and x.ndim == 1 and isinstance(v, T) and isinstance(side, T) and side.is_const:
        r = tm.ZERO
        for q in x: r = tm.add(r, ite(tm.le(q, v) if side.data == "right" else tm.lt(q, v), tm.ONE, tm.ZERO))
        return r
    return app("searchsorted", I.to_term(x), I.to_term(v), I.to_term(side))


@jnp("clip")
def m_clip(I, a, k):
    lo = a[1] if len(a) > 1 else k.get("min", k.get("a_min", NONE))
    hi = a[2] if len(a) > 2 else k.get("max", k.get("a_max", NONE))
    x = a[0]
    if not (isinstance(lo, T) and lo is NONE): x = ew(lambda p, q: app("max", p, q))(I, x, lo)
    if not (isinstance(hi, T) and hi is NONE): x = ew(lambda p, q: app("min", p, q))(I, x, hi)
    return x


@jnp("asarray", "array", "astype", "real_if_close", "asanyarray", "atleast_1d")
def m_asarray(I, a, k): return arr(I, a[0])


for _n in ("stop_gradient",):
    pass


@model("jax.lax.stop_gradient")
def m_stopgrad(I, a, k):
    if I.track_grad: return wrap_leaf(I, "stop_gradient", a[0])
    return a[0]


def wrap_leaf(I, name, v):
    def f(x):
        if isinstance(x, T):
            if x.is_const: return x
            return app(name, x)
        if isinstance(x, np.ndarray): return I.npmap(f, x)
        return x
    return I.mapv(f, v)


@jnp("ndim")
def m_ndim(I, a, k): return ndim(I, a[0])


def ndim(I, v):
    v = arr(I, v)
    if isinstance(v, np.ndarray): return const(v.ndim)
    if isinstance(v, T) and (v.is_const or I.scalar_leaves or I.concrete_arrays): return ZERO
    return app("ndim", I.to_term(v))


@jnp("shape")
def m_shape(I, a, k): return shape(I, a[0])


def shape(I, v):
    v = arr(I, v)
    if isinstance(v, np.ndarray):
        tail = []
        if v.size:
            e = v.reshape(-1)[0]
            if isinstance(e, T) and not e.is_const: tail = [Star(app("shape", e))]
        return PyTuple([const(n) for n in v.shape] + tail) if not tail else PyTuple([const(n) for n in v.shape])
    if isinstance(v, T) and (v.is_const or I.concrete_arrays): return PyTuple([])
    if isinstance(v, Choice): return I.merge(v.c, shape(I, v.a), shape(I, v.b))
    return app("shape", I.to_term(v))


@jnp("size")
def m_size(I, a, k):
    v = arr(I, a[0])
    if isinstance(v, np.ndarray): return const(v.size)
    return app("size", I.to_term(v))


def full(I, shp, v):
    if isinstance(shp, T):
        if shp.is_const and isinstance(shp.data, Fraction):
            n = int(shp.data)
            out = np.empty((n,), dtype=object)
            for i in range(n): out[i] = v
            return out
        if shp.op == "app" and shp.data == "shape": return v
        if shp.op == "app" and shp.data == "tuple": return full(I, PyTuple(shp.args), v)
        return app("full", shp, I.to_term(v))
    if isinstance(shp, Choice): return I.merge(shp.c, full(I, shp.a, v), full(I, shp.b, v))
    if isinstance(shp, (PyTuple, PyList)):
        it = [x for x in I.iterate(shp) if not isinstance(x, Star)]
        if all(isinstance(x, T) and x.is_const and isinstance(x.data, Fraction) for x in it):
            dims = tuple(int(x.data) for x in it)
            if not dims: return v
            out = np.empty(dims, dtype=object)
            for i in np.ndindex(dims): out[i] = v
            return out
        return app("full", app("tuple", *[I.to_term(x) for x in it]), I.to_term(v))
    raise U("full shape")


@jnp("zeros")
def m_zeros(I, a, k): return full(I, a[0] if a else k["shape"], ZERO)
@jnp("ones")
def m_ones(I, a, k): return full(I, a[0] if a else k["shape"], ONE)
@jnp("empty")
def m_empty(I, a, k): return full(I, a[0] if a else k["shape"], ZERO)
@jnp("full")
def m_full(I, a, k): return full(I, a[0] if a else k["shape"], a[1] if len(a) > 1 else k["fill_value"])


@jnp("zeros_like")
def m_zeros_like(I, a, k): return like(I, a[0], ZERO)
@jnp("ones_like")
def m_ones_like(I, a, k): return like(I, a[0], ONE)
@jnp("full_like")
def m_full_like(I, a, k): return like(I, a[0], a[1])
@jnp("empty_like")
def m_empty_like(I, a, k): return like(I, a[0], ZERO)


def like(I, v, c):
    v = arr(I, v)
    if isinstance(v, np.ndarray): return I.npmap(lambda x: c, v)
    if isinstance(v, Choice): return I.merge(v.c, like(I, v.a, c), like(I, v.b, c))
    return c


@jnp("arange")
def m_arange(I, a, k):
    try: n = [I.intval(x) for x in a]
    except Exception: return app("arange", *[I.to_term(x) for x in a])
    r = list(range(*n))
    out = np.empty((len(r),), dtype=object)
    for i, x in enumerate(r): out[i] = const(x)
    return out


@jnp("eye", "identity")
def m_eye(I, a, k):
    if I.scalar_leaves: return ONE
    try: n = I.intval(a[0])
    except Exception: return app("eye", I.to_term(a[0]))
    out = np.empty((n, n), dtype=object)
    for i in np.ndindex((n, n)): out[i] = ONE if i[0] == i[1] else ZERO
    return out


@jnp("broadcast_to")
def m_broadcast_to(I, a, k):
    x, s = arr(I, a[0]), (a[1] if len(a) > 1 else k["shape"])
    if isinstance(s, (PyTuple, PyList)) and not isinstance(x, np.ndarray):
        r = full(I, s, x)
        if isinstance(r, np.ndarray): return r
        if isinstance(r, T) and r.op == "app" and r.data == "full": return app("broadcast_to", I.to_term(x), I.to_term(s))
        return r
    if isinstance(x, np.ndarray) and isinstance(s, (PyTuple, PyList)):
        try:
            dims = tuple(I.intval(d) for d in I.iterate(s) if not isinstance(d, Star))
            return np.broadcast_to(x, dims).copy()
        except Exception: pass
    return x


@jnp("stack")
def m_stack(I, a, k):
    x = a[0]
    if isinstance(x, T): return app("stack", x)
    if isinstance(x, np.ndarray): return x
    it = I.iterate(x)
    ax = k.get("axis", a[1] if len(a) > 1 else ZERO)
    if any(isinstance(v, np.ndarray) for v in it) and I.intval(ax) != 0:
        return np.stack(list(it), axis=I.intval(ax))
    return arr(I, PyTuple(it))


@jnp("concatenate", "hstack")
def m_concat(I, a, k):
    it = [arr(I, v) for v in I.iterate(a[0])] if not isinstance(a[0], T) else None
    if it is None: return app("concatenate", a[0])
    if all(isinstance(v, np.ndarray) for v in it): return np.concatenate(it)
    return app("concatenate", *[I.to_term(v) for v in it])


@jnp("append")
def m_append(I, a, k): return m_concat(I, [PyTuple([a[0], box1(a[1])])], {})
def box1(v):
    o = np.empty((1,), dtype=object); o[0] = v; return o


@jnp("insert")
def m_insert(I, a, k):
    x = arr(I, a[0])
    if isinstance(x, np.ndarray):
        i = I.intval(a[1]); v = a[2]
        return np.concatenate([x[:i], box1(v), x[i:]])
    return app("insert", *[I.to_term(v) for v in a])


@jnp("expand_dims")
def m_expand(I, a, k):
    x = arr(I, a[0])
    return x if isinstance(x, np.ndarray) and False else x


@jnp("squeeze", "ravel", "moveaxis", "transpose", "swapaxes", "reshape")
def m_ident(I, a, k): return arr(I, a[0])


@jnp("flip")
def m_flip(I, a, k):
    x = arr(I, a[0])
    return x[::-1] if isinstance(x, np.ndarray) else app("flip", I.to_term(x))


@jnp("sum")
def m_sum(I, a, k):
    x = arr(I, a[0]); ax = a[1] if len(a) > 1 else k.get("axis", NONE)
    return reduce_(I, x, ax, tm.add, ZERO, "sum")


@jnp("prod")
def m_prod(I, a, k):
    x = arr(I, a[0]); ax = a[1] if len(a) > 1 else k.get("axis", NONE)
    return reduce_(I, x, ax, tm.mul, ONE, "prod")


@jnp("any")
def m_any(I, a, k): return reduce_(I, arr(I, a[0]), k.get("axis", NONE), lor, FALSE, "any", True)
@jnp("all")
def m_all(I, a, k): return reduce_(I, arr(I, a[0]), k.get("axis", NONE), land, TRUE, "all", True)
@jnp("max", "amax")
def m_max(I, a, k): return reduce_(I, arr(I, a[0]), k.get("axis", NONE), lambda x, y: app("max", x, y), None, "amax", True)
@jnp("min", "amin")
def m_min(I, a, k): return reduce_(I, arr(I, a[0]), k.get("axis", NONE), lambda x, y: app("min", x, y), None, "amin", True)


def reduce_(I, x, ax, f, unit, name, leaf_ident=False):
    if isinstance(x, np.ndarray):
        if isinstance(ax, T) and ax.is_const and ax.data is not None and x.ndim > 1:
            return np.apply_along_axis(lambda r: red1(I, r, f, unit), I.intval(ax), x)
        return red1(I, x.reshape(-1), f, unit)
    if isinstance(x, Choice): return I.merge(x.c, reduce_(I, x.a, ax, f, unit, name, leaf_ident), reduce_(I, x.b, ax, f, unit, name, leaf_ident))
    x = I.to_term(x)
    if leaf_ident and (tm.is_boolish(x) or x.is_const): return app(name, x) if not x.is_const and name in ("any", "all") and I_keep(I) else x
    return app(name, x)


def I_keep(I): return getattr(I, "keep_reductions", False)


def red1(I, r, f, unit):
    out = unit
    for v in r:
        v = I.to_term(v)
        out = v if out is None else f(out, v)
    return out


@jnp("mean")
def m_mean(I, a, k):
    x = arr(I, a[0])
    if isinstance(x, np.ndarray): return tm.div(red1(I, x.reshape(-1), tm.add, ZERO), const(x.size))
    return app("mean", I.to_term(x))


def wsum(I, c, v):
    """sum_i c[i]*v[i] where v[i] may be arrays/terms"""
    import ast as _ast
    s = None
    for x, y in zip(c, v):
        p = I.binop(_ast.Mult(), x, y)
        s = p if s is None else I.binop(_ast.Add(), s, p)
    return ZERO if s is None else s


@jnp("tensordot")
def m_tensordot(I, a, k):
    x, y = arr(I, a[0]), arr(I, a[1])
    axes = a[2] if len(a) > 2 else k.get("axes")
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        if isinstance(axes, T) and axes.is_const and axes.data == 1:
            if x.shape[-1] != y.shape[0]: raise U("tensordot extents")
            if x.ndim == 1: return wsum(I, x, y)
            return np.array([m_tensordot(I, [r, y, axes], {}) for r in x], dtype=object)
        if isinstance(axes, PyTuple):
            ax = [i for i in axes.items]
            try:
                i0 = [I.intval(q) for q in (I.iterate(ax[0]) if isinstance(ax[0], (PyTuple, PyList)) else [ax[0]])]
                i1 = [I.intval(q) for q in (I.iterate(ax[1]) if isinstance(ax[1], (PyTuple, PyList)) else [ax[1]])]
            except Exception: i0 = None
            if i0 and len(i0) == 1 and len(i1) == 1:
                xx = np.moveaxis(x, i0[0], -1); yy = np.moveaxis(y, i1[0], 0)
                return m_tensordot(I, [xx, yy, ONE], {})
    xt, yt = I.to_term(x), I.to_term(y)
    if I.scalar_leaves: return tm.mul(xt, yt)
    at = I.to_term(axes) if axes is not None else const(2)
    return app("tensordot", xt, yt, at)


@jnp("dot", "matmul", "vdot", "inner")
def m_dot(I, a, k):
    x, y = arr(I, a[0]), arr(I, a[1])
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray): return I.matmul(x, y)
    return app("dot", I.to_term(x), I.to_term(y))


@jnp("einsum")
def m_einsum(I, a, k): return app("einsum", *[I.to_term(x) for x in a])


@jnp("polyval")
def m_polyval(I, a, k):
    import ast as _ast
    p, x = arr(I, a[0]), a[1]
    if isinstance(p, np.ndarray):
        s = None
        for c in p:
            s = c if s is None else I.binop(_ast.Add(), I.binop(_ast.Mult(), s, x), c)
        return ZERO if s is None else s
    return app("polyval", I.to_term(p), I.to_term(x))


@jnp("allclose")
def m_allclose(I, a, k): return TRUE


@jnp("diff")
def m_diff(I, a, k):
    x = arr(I, a[0])
    if isinstance(x, np.ndarray): return I.npbin(__import__("ast").Sub(), x[1:], x[:-1])
    return app("diff", I.to_term(x))


@jnp("issubdtype")
def m_issub(I, a, k): return app("issubdtype", *[I.to_term(x) for x in a])
@jnp("result_type")
def m_rt(I, a, k): return app("result_type", *[I.to_term(x) for x in a])
@jnp("promote_types")
def m_pt(I, a, k): return app("result_type", *[I.to_term(x) for x in a])
@jnp("iscomplexobj")
def m_icx(I, a, k):
    v = arr(I, a[0])
    if isinstance(v, T) and v.is_const: return FALSE
    return app("iscomplexobj", I.to_term(v))


@jnp("finfo")
def m_finfo(I, a, k): return app("finfo", *[I.to_term(x) for x in a])


for _n in "float16 float32 float64 int8 int16 int32 int64 uint32 bool_ complex64 complex128".split():
    @jnp(_n)
    def _cast(I, a, k): return arr(I, a[0])


# ---------------------------------------------------------------- lax
def cond_(I, a, k):
    pred, tf, ff = a[0], a[1], a[2]
    ops = list(a[3:])
    if "operand" in k: ops = [k["operand"]]
    pred = arr(I, pred)
    if isinstance(pred, np.ndarray): pred = pred.item()
    c = I.truthy(pred)
    return I.branch(c, lambda: I.call(tf, ops, {}), lambda: I.call(ff, ops, {}))


MODELS["jax.lax.cond"] = cond_
MODELS["equinox.internal.filter_cond"] = cond_
MODELS["jax.lax.select"] = lambda I, a, k: I.merge(I.truthy(a[0]), a[1], a[2])


@model("jax.lax.switch")
def m_switch(I, a, k):
    idx, fs, ops = a[0], I.iterate(a[1]), list(a[2:])
    def go(i):
        if i == len(fs) - 1: return I.call(fs[i], ops, {})
        return I.branch(tm.le(idx, const(i)), lambda: I.call(fs[i], ops, {}), lambda: go(i + 1))
    return go(0)


def leading(I, xs):
    """leading extent of a pytree of arrays if it is a constant"""
    if isinstance(xs, np.ndarray): return xs.shape[0]
    if isinstance(xs, (PyTuple, PyList)):
        for x in I.iterate(xs):
            n = leading(I, x)
            if n is not None: return n
    if isinstance(xs, PyDict):
        for x in I.hget(xs.uid).values():
            n = leading(I, x)
            if n is not None: return n
    if isinstance(xs, Obj):
        for x in I.fields(xs).values():
            n = leading(I, x)
            if n is not None: return n
    if isinstance(xs, Choice): return leading(I, xs.a) if leading(I, xs.a) == leading(I, xs.b) else None
    return None


def bound_like(I, v, tag):
    """same structure with every leaf a bound variable"""
    cnt = [0]
    def f(x):
        if isinstance(x, T):
            if x is NONE: return x
            cnt[0] += 1
            s = tm.sym(f"{tag}{cnt[0]}")
            if x in I.hints: I.hints[s] = I.hints[x]
            return s
        if isinstance(x, np.ndarray): return I.npmap(f, x)
        return x
    return I.mapv(f, v)


def term_list(I, v):
    out = []
    def f(x):
        if isinstance(x, np.ndarray):
            for y in x.reshape(-1): f(y)
        else: out.append(I.to_term(x))
        return x
    I.mapv(f, v)
    return out


def rebuild_like(I, v, mk):
    cnt = [0]
    def f(x):
        if isinstance(x, T):
            if x is NONE: return x
            cnt[0] += 1
            return mk(cnt[0] - 1, x)
        if isinstance(x, np.ndarray): return I.npmap(f, x)
        return x
    return I.mapv(f, v)


@model("jax.lax.scan", "equinox.internal.scan")
def m_scan(I, a, k):
    f, init = a[0], a[1] if len(a) > 1 else k["init"]
    xs = a[2] if len(a) > 2 else k.get("xs", NONE)
    length = a[3] if len(a) > 3 else k.get("length", NONE)
    rev = k.get("reverse", FALSE)
    rv = tm.truth(rev)
    if rv is None: raise U("scan direction")
    n = leading(I, xs)
    if n is None and isinstance(length, T) and length.is_const and length.data is not None: n = I.intval(length)
    if n is not None:
        idx = list(range(n))
        if rv: idx.reverse()
        carry, ys = init, {}
        for i in idx:
            x = NONE if (isinstance(xs, T) and xs is NONE) else index_tree(I, xs, const(i))
            r = I.call(f, [carry, x], {})
            carry, y = I.unpack(r, 2)
            ys[i] = y
        return PyTuple([carry, stack_trees(I, [ys[i] for i in range(n)])])
    I.lam += 1
    try:
        tag = f"λ{I.lam}."
        bc = bound_like(I, init, tag + "c")
        bx = bound_like(I, xs, tag + "x")
        saved = I.calls; 
        r = I.call(f, [bc, bx], {})
        c2, y = I.unpack(r, 2)
        body = app("scanbody", *term_list(I, c2), app("|"), *term_list(I, y))
    finally: I.lam -= 1
    base = [body, app("tuple", *term_list(I, init)), app("tuple", *term_list(I, xs)), const(rv)]
    carry = rebuild_like(I, init, lambda i, x: app("scan.carry", const(i), *base))
    yout = rebuild_like(I, y, lambda i, x: app("scan.ys", const(i), *base))
    return PyTuple([carry, yout])


def index_tree(I, v, i):
    if isinstance(v, (PyTuple, PyList, PyDict, Obj)):
        if isinstance(v, PyTuple): return PyTuple([index_tree(I, x, i) for x in v.items])
        if isinstance(v, PyList): return I.mklist([index_tree(I, x, i) for x in I.items(v)])
        if isinstance(v, PyDict): return I.mkdict({q: index_tree(I, x, i) for q, x in I.hget(v.uid).items()})
        return I.mkobj(v.cls, {q: index_tree(I, x, i) for q, x in I.fields(v).items()}, v.base)
    if isinstance(v, T) and v is NONE: return v
    return I.subscript(v, i)


def stack_trees(I, ys):
    y0 = ys[0]
    if isinstance(y0, PyTuple): return PyTuple([stack_trees(I, [I.subscript(y, const(i)) for y in ys]) for i in range(len(y0.items))])
    if isinstance(y0, PyList): return I.mklist([stack_trees(I, [I.subscript(y, const(i)) for y in ys]) for i in range(len(I.items(y0)))])
    if isinstance(y0, PyDict): return I.mkdict({q: stack_trees(I, [I.hget(y.uid)[q] for y in ys]) for q in I.hget(y0.uid)})
    if isinstance(y0, Obj): return I.mkobj(y0.cls, {q: stack_trees(I, [I.getattr(y, q) for y in ys]) for q in I.fields(y0)})
    if isinstance(y0, T) and y0 is NONE: return y0
    return arr(I, PyTuple(ys))


@model("jax.lax.fori_loop")
def m_fori(I, a, k):
    lo, hi, f, v = a[:4]
    try: r = range(I.intval(lo), I.intval(hi))
    except Exception:
        return app("fori", *[I.to_term(x) for x in (lo, hi)], I.lambda_term(f, 2), I.to_term(v))
    for i in r: v = I.call(f, [const(i), v], {})
    return v


@model("jax.lax.while_loop", "equinox.internal.while_loop")
def m_while(I, a, k):
    names = ["cond_fun", "body_fun", "init_val"]
    kk = dict(zip(names, a)); kk.update(k)
    cond, body, v = kk["cond_fun"], kk["body_fun"], kk["init_val"]
    hook = getattr(I, "while_hook", None)
    if hook is not None:
        r = hook(I, cond, body, v, kk)
        if r is not None: return r
    n = 0
    while True:
        c = I.decide(I.truthy(arr(I, I.call(cond, [v], {}))))
        if c is None: break
        if not c: return v
        v = I.call(body, [v], {})
        n += 1
        if n > I.unroll_limit: raise U("while_loop unroll limit")
    if n: 
        raise U("while_loop condition becomes symbolic after unrolling")
    I.lam += 1
    try:
        tag = f"λ{I.lam}."
        b = bound_like(I, v, tag + "w")
        ct = I.truthy(arr(I, I.call(cond, [b], {})))
        r = I.call(body, [b], {})
        # fixpoint of structure: the body must keep the carry's leaves
        bt = app("whilebody", ct, *term_list(I, r))
    finally: I.lam -= 1
    base = [bt, app("tuple", *term_list(I, v))]
    return rebuild_like(I, v, lambda i, x: app("while", const(i), *base))


@model("jax.lax.dynamic_update_slice_in_dim")
def m_dus(I, a, k):
    kk = dict(zip(("operand", "update", "start_index", "axis"), a)); kk.update(k)
    x, u = arr(I, kk["operand"]), arr(I, kk["update"])
    ax = I.to_term(kk.get("axis", ZERO))
    if isinstance(x, Choice): return I.merge(x.c, m_dus(I, [x.a, u, kk["start_index"], ax], {}), m_dus(I, [x.b, u, kk["start_index"], ax], {}))
    if isinstance(u, Choice): return I.merge(u.c, m_dus(I, [x, u.a, kk["start_index"], ax], {}), m_dus(I, [x, u.b, kk["start_index"], ax], {}))
    if isinstance(x, np.ndarray) and isinstance(u, np.ndarray) and x.ndim == u.ndim and ax is ZERO:
        n, l = x.shape[0], u.shape[0]
        if l > n: raise U("update longer than operand")
        st = app("max", app("min", I.to_term(kk["start_index"]), const(n - l)), ZERO)      # the start index is clamped
        out = x.copy()
        for j in range(n):
            for r in range(l):
                if 0 <= j - r <= n - l: out[j] = I.merge(tm.eq(st, const(j - r)), u[r], out[j])
        return out
    return app("dynamic_update_slice", *[I.to_term(x) for x in a])


@model("jax.lax.dynamic_index_in_dim")
def m_dii(I, a, k): return I.subscript(a[0], a[1])


# ---------------------------------------------------------------- equinox
@model("equinox.error_if", "equinox.internal.error_if")
def m_error_if(I, a, k):
    x, pred = a[0], a[1] if len(a) > 1 else k["pred"]
    msg = a[2] if len(a) > 2 else k.get("msg", const(""))
    p = arr(I, pred)
    if isinstance(p, np.ndarray): p = red1(I, p.reshape(-1), lor, FALSE)
    p = I.truthy(p)
    m = msg.data if isinstance(msg, T) and msg.is_const and isinstance(msg.data, str) else ""
    I.guard(p, "error_if", "error_if", m)
    return x


def ident(i=0):
    return lambda I, a, k: a[i]


BATCH_SITES = set()      # reduction sites reached


def unvmap_of(I, q, r):
    """reduction over a whole batch of which this is one element: the other elements are arbitrary"""
    BATCH_SITES.add((I.file, I.line))
    c = I.truthy(r)
    if I.batched is False or tm.truth(c) is (q == "any"): return r
    if isinstance(I.batched, T): return tm.lor(c, I.batched) if q == "any" else tm.land(c, I.batched)      # all other elements have this value
    o = I.batch_others.get((q, c.uid))
    if o is None: o = I.batch_others[q, c.uid] = tm.sym(f"others_{q}{len(I.batch_others)}", "bool")
    return tm.lor(c, o) if q == "any" else tm.land(c, o)


def unvmap(q):
    return lambda I, a, k: unvmap_of(I, q, MODELS["jax.numpy." + q](I, a, k))


for _n in ("any", "all"): MODELS["equinox.internal.unvmap_" + _n] = unvmap(_n)


@model("equinox.internal.unvmap_max")
def m_umax(I, a, k): return app("unvmap_max", I.to_term(a[0]))
@model("equinox.internal.unvmap_min")
def m_umin(I, a, k): return app("unvmap_min", I.to_term(a[0]))


@model("equinox.internal.eval_empty")
def m_eval_empty(I, a, k):
    """uninitialised values of the structure that the function returns: every use must be dead"""
    return m_tree_map(I, [Native(lambda I, x, kw: tm.sym("uninitialised", "real"), "empty"), I.call(a[0], list(a[1:]), k)], {})


for _n in ("nonbatchable", "announce_transform", "doc_repr"):
    MODELS["equinox.internal." + _n] = ident()


@model("equinox.internal.eval_zero")
def m_eval_zero(I, a, k):
    """zeros of the structure that the function returns"""
    return m_tree_map(I, [Native(lambda I, x, kw: tm.ZERO, "zero"), I.call(a[0], list(a[1:]), k)], {})


def _grad(name):
    def f(I, a, k):
        if I.track_grad: return wrap_leaf(I, name, a[0])
        return a[0]
    return f


for _n in ("nondifferentiable", "nondifferentiable_backward", "nontraceable", "noinline"):
    MODELS["equinox.internal." + _n] = _grad(_n)
MODELS["equinox.nondifferentiable"] = _grad("nondifferentiable")


@model("equinox.internal.buffer_at_set")
def m_bufset(I, a, k):
    buf, idx, val = a[0], a[1], a[2]
    pred = a[3] if len(a) > 3 else k.get("pred", TRUE)
    new = at_set(I, buf, idx, val)
    if isinstance(pred, T) and pred is NONE: return new
    return I.merge(I.truthy(pred), new, buf)


def at_set(I, x, idx, val):
    x = arr(I, x)
    if isinstance(x, Choice): return I.merge(x.c, at_set(I, x.a, idx, val), at_set(I, x.b, idx, val))
    if isinstance(x, np.ndarray):
        try: ix = I.npindex(idx)
        except Exception:
            if isinstance(idx, T):
                out = x.copy()
                for j in range(x.shape[0]): out[j] = I.merge(tm.eq(idx, const(j)), val, x[j])
                return out
            return app("at_set", I.to_term(x), I.to_term(idx), I.to_term(val))
        if isinstance(ix, int) and not isinstance(ix, bool) and not -x.shape[0] <= ix < x.shape[0]: return x.copy()    # out of bounds writes are dropped
        out = x.copy()
        v = arr(I, val)
        out[ix] = v
        return out
    return app("at_set", I.to_term(x), I.to_term(idx), I.to_term(val))


MODELS["equinox.internal.nextafter"] = lambda I, a, k: ew(lambda x: app("nextafter", x))(I, a[0])
MODELS["equinox.internal.prevbefore"] = lambda I, a, k: ew(lambda x: app("prevbefore", x))(I, a[0])


@model("equinox.partition")
def m_partition(I, a, k):
    spec = I.to_term(a[1])
    return PyTuple([PartV(a[0], spec, True), PartV(a[0], spec, False)])


@model("equinox.combine")
def m_combine(I, a, k):
    if len(a) == 2 and isinstance(a[0], PartV) and isinstance(a[1], PartV):
        p, q = a
        if p.spec is q.spec and p.which != q.which:
            if p.x is q.x or I.to_term(p.x) is I.to_term(q.x): return p.x if p.which else q.x
            if not p.which: p, q = q, p
            h = getattr(I, "combine_hook", None)
            if h is not None:
                r = h(I, p, q)
                if r is not None: return r
            return p.x
    return app("combine", *[I.to_term(x) for x in a])


@model("equinox.filter")
def m_filter(I, a, k): return PartV(a[0], I.to_term(a[1]), True)


@model("equinox.filter_eval_shape", "jax.eval_shape")
def m_eval_shape(I, a, k):
    I.muted += 1
    n = len(I.calls)
    try: return I.call(a[0], a[1:], k)
    finally:
        I.muted -= 1
        del I.calls[n:]


@model("equinox.filter_closure_convert")
def m_fcc(I, a, k): return a[0]
@model("equinox.Partial", "functools.partial", "jax.tree_util.Partial")
def m_partial(I, a, k): return Partial(a[0], tuple(a[1:]), dict(k))
@model("equinox.tree_equal")
def m_tree_equal(I, a, k): return app("tree_equal", *[I.to_term(x) for x in a])


@model("equinox.internal.ω")
def m_omega(I, a, k): return Omega(a[0])


@model("equinox.tree_at")
def m_tree_at(I, a, k):
    names = ["where", "pytree", "replace", "replace_fn", "is_leaf"]
    kk = dict(zip(names, a)); kk.update(k)
    tree = kk["pytree"]
    w = I.call(kk["where"], [Path(tree, ())], {})
    paths = I.iterate(w) if isinstance(w, (PyTuple, PyList)) else [w]
    multi = isinstance(w, (PyTuple, PyList))
    if "replace" in kk:
        rep = kk["replace"]
        reps = I.iterate(rep) if multi else [rep]
    else:
        fn = kk["replace_fn"]
        reps = [I.call(fn, [p.v], {}) for p in paths]
    if len(reps) != len(paths): raise U("tree_at arity")
    for p, r in zip(paths, reps):
        if not isinstance(p, Path): raise U("tree_at where")
        if isinstance(r, Path): r = r.v
        tree = set_path(I, tree, p.path, r)
    return tree


def set_path(I, v, path, val):
    if not path: return val
    (kind, key), rest = path[0], path[1:]
    if isinstance(v, Choice):
        return I.merge(v.c, set_path(I, v.a, path, val), set_path(I, v.b, path, val))
    if kind == "a":
        sub = set_path(I, I.getattr(v, key), rest, val)
        if isinstance(v, Obj):
            d = dict(I.fields(v)); d[key] = sub
            return I.mkobj(v.cls, d, v.base)
        if isinstance(v, T):
            h = I.hints.get(v)
            return I.mkobj(h[0] if h else None, {key: sub}, v)
        raise U("tree_at attribute of " + type(v).__name__)
    if isinstance(v, PyTuple):
        it = list(v.items); it[int(key)] = set_path(I, it[int(key)], rest, val); return PyTuple(it)
    if isinstance(v, PyList):
        it = list(I.items(v)); it[int(key)] = set_path(I, it[int(key)], rest, val); return I.mklist(it)
    if isinstance(v, PyDict):
        d = dict(I.hget(v.uid)); d[key] = set_path(I, d[key], rest, val); return I.mkdict(d)
    if isinstance(v, T):
        sub = set_path(I, I.subscript(v, const(key) if not isinstance(key, T) else key), rest, val)
        return app("tree_set", v, const(key) if not isinstance(key, T) else key, I.to_term(sub))
    raise U("tree_at index of " + type(v).__name__)


# ---------------------------------------------------------------- jax transforms
@model("jax.named_call", "jax.checkpoint", "jax.jit", "equinox.filter_jit", "equinox.filter_checkpoint", "equinox.internal.scan_trick_")
def m_named(I, a, k): return a[0]


@model("equinox.internal.scan_trick")
def m_scan_trick(I, a, k):
    carry = I.call(a[0], [a[2]], {})
    for f in I.iterate(a[1]):
        carry = I.call(a[0], [I.call(f, [carry], {})], {})
    return carry


_fresh = [0]


def linearise(I, fun, pr, kw=None):
    """Value of fun at pr plus a derivative oracle: (out, d) with d(out_leaf_term, i) the partial by the i-th input leaf."""
    from .deriv import deriv
    lv = [l for p in pr for l in leaves(I, p)]
    if any(isinstance(l, Maybe) for l in lv): raise U("derivative of optional leaves")
    _fresh[0] += 1
    fr = [tm.sym(f"∂x{_fresh[0]}.{i}") for i in range(len(lv))]
    it = iter(fr)
    args = [unflat(I, struct(I, p), it) for p in pr]
    # derivatives of hinted / opaque leaves: keep what is not a plain term as it is
    args2 = []
    k = 0
    for p, q in zip(pr, args): args2.append(q)
    I.muted += 1
    try: out = I.call(fun, args2, dict(kw or {}))
    finally: I.muted -= 1
    m = {f: I.to_term(l) for f, l in zip(fr, lv)}
    def part(t, i): return tm.subst(deriv(I.to_term(t), fr[i]), m)
    def back(v): return map_leaves(I, v, lambda t: tm.subst(I.to_term(t), m))
    return back(out), out, part, len(lv)


def map_leaves(I, v, f):
    if isinstance(v, (PyTuple, PyList, PyDict)) or (isinstance(v, Obj) and v.base is None and v.cls is not None and v.cls.is_pytree) \
            or (isinstance(v, T) and v.op == "app" and v.data == "tuple"):
        return unflat(I, struct(I, v), iter([f(x) for x in leaves(I, v)]))
    if isinstance(v, T) and v is NONE: return NONE
    return f(v)


def m_jac(I, a, k):
    fun = a[0]
    an = k.get("argnums", a[1] if len(a) > 1 and isinstance(a[1], T) else ZERO)
    def g(I, b, kk):
        n = I.intval(an)
        b = list(b)
        f = Native(lambda I, c, kk2: I.call(fun, b[:n] + [c[0]] + b[n + 1:], kk2), "jac")
        _, raw, part, cnt = linearise(I, f, [b[n]], kk)
        s = struct(I, b[n])
        return map_leaves(I, raw, lambda t: unflat(I, s, iter([part(t, i) for i in range(cnt)])))
    return Native(g, "jac")


for _n in ("jax.jacfwd", "jax.jacrev", "jax.grad", "equinox.filter_jacfwd", "equinox.filter_jacrev", "equinox.filter_grad"): MODELS[_n] = m_jac


@model("jax.jvp", "equinox.filter_jvp")
def m_jvp(I, a, k):
    fun, pr, tg = a[0], I.iterate(a[1]), I.iterate(a[2])
    out, raw, part, cnt = linearise(I, fun, pr)
    tl = [l for t in tg for l in leaves(I, t)]
    if len(tl) != cnt: raise U("jvp tangent structure")
    def lf(t):
        s = ZERO
        for i in range(cnt): s = tm.add(s, tm.mul(part(t, i), I.to_term(tl[i])))
        return s
    return PyTuple([out, map_leaves(I, raw, lf)])


@model("jax.linearize")
def m_linearize(I, a, k):
    fun, pr = a[0], list(a[1:])
    out = I.call(fun, pr, {})
    def push(I, b, kk): return m_jvp(I, [fun, PyTuple(pr), PyTuple(b)], {}).items[1]
    return PyTuple([out, Native(push, "linearize")])


def pullback(I, fun, pr):
    out, raw, part, cnt = linearise(I, fun, pr)
    rl = leaves(I, raw)
    def pull(I, b, kk):
        cl = leaves(I, b[0])
        if len(cl) != len(rl): raise U("vjp cotangent structure")
        res = []
        for i in range(cnt):
            s = ZERO
            for t, c in zip(rl, cl): s = tm.add(s, tm.mul(part(t, i), I.to_term(c)))
            res.append(s)
        it = iter(res)
        return PyTuple([unflat(I, struct(I, p), it) for p in pr])
    return out, Native(pull, "vjp")


@model("jax.vjp", "equinox.filter_vjp")
def m_vjp(I, a, k):
    out, pull = pullback(I, a[0], list(a[1:]))
    return PyTuple([out, pull])


@model("jax.linear_transpose")
def m_lt(I, a, k):
    return pullback(I, a[0], list(a[1:]))[1]


@model("jax.vmap", "equinox.filter_vmap")
def m_vmap(I, a, k):
    fun = a[0]
    axes = k.get("in_axes", a[1] if len(a) > 1 else ZERO)
    def g(I, b, kk):
        ax = I.iterate(axes) if isinstance(axes, (PyTuple, PyList)) else [axes] * len(b)
        n = None
        for x, q in zip(b, ax):
            if isinstance(q, T) and q is NONE: continue
            m = leading(I, x)
            if m is not None: n = m
        if n is not None:
            outs = []
            for i in range(n):
                outs.append(I.call(fun, [x if (isinstance(q, T) and q is NONE) else index_tree(I, x, const(i)) for x, q in zip(b, ax)], kk))
            return stack_trees(I, outs)
        # generic element
        I.lam += 1
        try:
            tag = f"λ{I.lam}.v"
            bs = [x if (isinstance(q, T) and q is NONE) else bound_like(I, x, tag + str(i) + ".") for i, (x, q) in enumerate(zip(b, ax))]
            r = I.call(fun, bs, kk)
            body = app("vmapbody", *term_list(I, r))
        finally: I.lam -= 1
        base = [body] + [I.to_term(x) for x in b] + [I.to_term(axes)]
        return rebuild_like(I, r, lambda i, x: app("vmap", const(i), *base))
    return Native(g, "vmap")


@model("jax.pure_callback", "jax.experimental.io_callback", "jax.debug.callback")
def m_cb(I, a, k):
    I.log("callback", a, k)
    return app("callback", *[I.to_term(x) for x in a[1:]])


MODELS["jax.ensure_compile_time_eval"] = lambda I, a, k: NONE
MODELS["jax.numpy_dtype_promotion"] = lambda I, a, k: NONE
MODELS["jax.numpy_rank_promotion"] = lambda I, a, k: NONE
MODELS["jax.disable_jit"] = lambda I, a, k: NONE


@model("jax.ShapeDtypeStruct")
def m_sds(I, a, k):
    kk = dict(zip(["shape", "dtype"], a)); kk.update(k)
    return app("sds", I.to_term(kk["shape"]), I.to_term(kk.get("dtype", NONE)))


# ---------------------------------------------------------------- random
@model("jax.random.split")
def m_split(I, a, k):
    key = I.to_term(a[0]); n = a[1] if len(a) > 1 else k.get("num", const(2))
    I.log("random.split", key)
    try: m = I.intval(n)
    except Exception: return app("random.split", key, I.to_term(n))
    out = np.empty((m,), dtype=object)
    for i in range(m): out[i] = app("random.subkey", key, const(i), const(m))
    return out


def _draw(name):
    def f(I, a, k):
        kk = dict(zip(["key", "shape", "dtype"], a)); kk.update(k)
        I.log("random.draw", I.to_term(kk["key"]))
        shp = kk.get("shape", PyTuple([]))
        return app("random." + name, I.to_term(kk["key"]), I.to_term(shp) if not isinstance(shp, (PyTuple, PyList)) else app("tuple", *[I.to_term(x) for x in I.iterate(shp)]))
    return f


for _n in ("normal", "uniform", "rademacher", "bernoulli", "bits"):
    MODELS["jax.random." + _n] = _draw(_n)


@model("jax.random.multivariate_normal")
def m_mvn(I, a, k):
    kk = dict(zip(["key", "mean", "cov", "shape"], a)); kk.update(k)
    I.log("random.draw", I.to_term(kk["key"]))
    return app("random.mvn", I.to_term(kk["key"]), I.to_term(kk["mean"]), I.to_term(kk["cov"]), I.to_term(kk.get("shape", NONE)))


@model("jax.random.fold_in")
def m_fold(I, a, k):
    I.log("random.fold_in", I.to_term(a[0]))
    return app("random.fold_in", *[I.to_term(x) for x in a])


# ---------------------------------------------------------------- trees
class Leafless(Exception): pass


@model("builtins.callable")
def b_callable(I, a, k):
    v = a[0]
    if isinstance(v, Path): v = v.v
    if isinstance(v, (PyTuple, PyList, PyDict, np.ndarray)): return tm.FALSE
    if isinstance(v, Obj) and v.base is None and v.cls is not None: return const(v.cls.lookup("__call__") is not None)
    if isinstance(v, T): return tm.FALSE if v.op == "const" else app("callable", v)
    if isinstance(v, Choice): return tm.ite(v.c, I.to_term(b_callable(I, [v.a], k)), I.to_term(b_callable(I, [v.b], k)))
    return tm.TRUE


def is_leaf_true(I, f, v):
    if f is None or (isinstance(f, T) and f is NONE): return False
    r = I.truthy(I.call(f, [v], {}))
    t = I.decide(r)
    return t is True


def tmap(I, f, v, rest, is_leaf, top=False):
    if is_leaf_true(I, is_leaf, v): return I.call(f, [v] + rest, {})
    if isinstance(v, PyTuple):
        o = [sub_list(I, r, len(v.items)) for r in rest]
        return PyTuple([tmap(I, f, x, [q[i] for q in o], is_leaf) for i, x in enumerate(v.items)])
    if isinstance(v, PyList):
        it = I.items(v)
        o = [sub_list(I, r, len(it)) for r in rest]
        out = []
        for i, x in enumerate(it):
            if isinstance(x, Maybe): out.append(Maybe(x.c, tmap(I, f, x.v, [q[i] for q in o], is_leaf)))
            else: out.append(tmap(I, f, x, [q[i] for q in o], is_leaf))
        return I.mklist(out)
    if isinstance(v, PyDict):
        d = I.hget(v.uid)
        return I.mkdict({q: tmap(I, f, x, [I.subscript(r, const(q)) for r in rest], is_leaf) for q, x in d.items()})
    if isinstance(v, Obj) and v.base is None and v.cls is not None and v.cls.is_pytree:
        return I.mkobj(v.cls, {q: x if q in v.cls.static_fields() else tmap(I, f, x, [I.getattr(r, q) for r in rest], is_leaf) for q, x in I.fields(v).items()}, v.base)
    if isinstance(v, Choice):
        return I.branch(v.c, lambda: tmap(I, f, v.a, [pick(r, v.c, True) for r in rest], is_leaf), lambda: tmap(I, f, v.b, [pick(r, v.c, False) for r in rest], is_leaf))
    if isinstance(v, T) and v is NONE: return NONE
    if isinstance(v, T) and v.op == "app" and v.data == "tuple":
        return tmap(I, f, PyTuple(v.args), rest, is_leaf)
    if isinstance(v, PartV):
        r = tmap(I, f, v.x, [q.x if isinstance(q, PartV) else q for q in rest], is_leaf)
        return PartV(r, v.spec, v.which)
    return I.call(f, [v] + rest, {})


def pick(r, c, which):
    if isinstance(r, Choice) and r.c is c: return r.a if which else r.b
    if isinstance(r, T) and r.op == "ite" and r.args[0] is c: return r.args[1 if which else 2]
    return r


def sub_list(I, r, n):
    if isinstance(r, (PyTuple, PyList)):
        it = I.iterate(r)
        if len(it) != n: raise U("tree_map structure")
        return it
    if isinstance(r, Choice):
        a, b = sub_list(I, r.a, n), sub_list(I, r.b, n)
        return [I.merge(r.c, x, y) for x, y in zip(a, b)]
    if isinstance(r, T) and not r.is_const: return [I.subscript(r, const(i)) for i in range(n)]
    if isinstance(r, PartV): return sub_list(I, r.x, n)
    raise U("tree_map structure mismatch")


@model("jax.tree_util.tree_map", "jax.tree.map", "jax.tree_map")
def m_tree_map(I, a, k):
    return tmap(I, a[0], a[1], list(a[2:]), k.get("is_leaf"))


def leaves(I, v, is_leaf=None):
    if is_leaf_true(I, is_leaf, v): return [v]
    if isinstance(v, Path) and isinstance(v.v, (PyTuple, PyList)): return [y for x in I.iterate(v) for y in leaves(I, x, is_leaf)]
    if isinstance(v, Path) and isinstance(v.v, PyDict): return [y for q in sorted(I.hget(v.v.uid), key=str) for y in leaves(I, Path(I.hget(v.v.uid)[q], v.path + (("i", q),)), is_leaf)]
    if isinstance(v, Path) and isinstance(v.v, Obj) and v.v.base is None and v.v.cls is not None and v.v.cls.is_pytree:
        f = I.fields(v.v)
        return [y for q in v.v.cls.all_fields() if q in f and q not in v.v.cls.static_fields() for y in leaves(I, Path(f[q], v.path + (("a", q),)), is_leaf)]
    if isinstance(v, Path) and v.v is NONE: return []
    if isinstance(v, (PyTuple, PyList)):
        out = []
        for x in I.iterate(v):
            if isinstance(x, Maybe):
                out += [Maybe(x.c, y) for y in leaves(I, x.v, is_leaf)]
            else: out += leaves(I, x, is_leaf)
        return out
    if isinstance(v, PyDict):
        d = I.hget(v.uid)
        return [y for q in sorted(d, key=str) for y in leaves(I, d[q], is_leaf)]
    if isinstance(v, Obj) and v.base is None and v.cls is not None and v.cls.is_pytree:
        f = I.fields(v)
        st = v.cls.static_fields()
        order = [q for q in v.cls.all_fields() if q in f and q not in st] + [q for q in f if q not in v.cls.all_fields()]
        return [y for q in order for y in leaves(I, f[q], is_leaf)]
    if isinstance(v, T) and v is NONE: return []
    if isinstance(v, T) and v.op == "app" and v.data == "tuple": return leaves(I, PyTuple(v.args), is_leaf)
    if isinstance(v, PartV): return leaves(I, v.x, is_leaf)
    if isinstance(v, Choice):
        a, b = leaves(I, v.a, is_leaf), leaves(I, v.b, is_leaf)
        if len(a) == len(b): return [I.merge(v.c, x, y) for x, y in zip(a, b)]
        return [Maybe(v.c, x) for x in a] + [Maybe(lnot(v.c), x) for x in b]
    return [v]


@model("jax.tree_util.tree_leaves", "jax.tree.leaves", "jax.tree_leaves")
def m_leaves(I, a, k): return I.mklist(leaves(I, a[0], k.get("is_leaf", a[1] if len(a) > 1 else None)))


def struct(I, v, is_leaf=None):
    if is_leaf_true(I, is_leaf, v): return "*"
    if isinstance(v, PyTuple): return ("tuple",) + tuple(struct(I, x, is_leaf) for x in v.items)
    if isinstance(v, PyList): return ("list",) + tuple(struct(I, x, is_leaf) for x in I.items(v))
    if isinstance(v, PyDict):
        d = I.hget(v.uid)
        return ("dict",) + tuple((q, struct(I, d[q], is_leaf)) for q in sorted(d, key=str))
    if isinstance(v, Obj) and v.base is None and v.cls is not None and v.cls.is_pytree:
        f = I.fields(v)
        order = [q for q in v.cls.all_fields() if q in f]
        st = v.cls.static_fields()
        return ("obj", v.cls.qual) + tuple((q, ("$", f[q]) if q in st else struct(I, f[q], is_leaf)) for q in order)
    if isinstance(v, PartV): return ("part", struct(I, v.x, is_leaf), v.spec, v.which)
    if isinstance(v, T) and v is NONE: return "None"
    if isinstance(v, T) and v.op == "app" and v.data == "tuple": return ("tuple",) + tuple(struct(I, x, is_leaf) for x in v.args)
    if isinstance(v, T) and v.op in ("sym", "app"): return ("?", v.uid) if I_structs(I) else "*"
    return "*"


def I_structs(I): return getattr(I, "opaque_structs", False)


def unflat(I, s, ls):
    if s == "*" or (isinstance(s, tuple) and s and s[0] == "?"): return next(ls)
    if s == "None": return NONE
    if s[0] == "$": return s[1]
    if s[0] == "part": return PartV(unflat(I, s[1], ls), s[2], s[3])
    if s[0] == "tuple": return PyTuple([unflat(I, x, ls) for x in s[1:]])
    if s[0] == "list": return I.mklist([unflat(I, x, ls) for x in s[1:]])
    if s[0] == "dict": return I.mkdict({q: unflat(I, x, ls) for q, x in s[1:]})
    if s[0] == "obj":
        return I.mkobj(I.repo.classes[s[1]], {q: unflat(I, x, ls) for q, x in s[2:]})
    raise U("unflatten")


def nleaves(s):
    if s == "*" or (isinstance(s, tuple) and s and s[0] == "?"): return 1
    if s == "None" or s[0] == "$": return 0
    if s[0] == "part": return nleaves(s[1])
    if s[0] in ("tuple", "list"): return sum(nleaves(x) for x in s[1:])
    if s[0] == "dict": return sum(nleaves(x) for _, x in s[1:])
    return sum(nleaves(x) for _, x in s[2:])


@model("jax.tree_util.tree_structure", "jax.tree.structure", "jax.tree_structure")
def m_structure(I, a, k): return Treedef(struct(I, a[0], k.get("is_leaf", a[1] if len(a) > 1 else None)))
@model("jax.tree_util.tree_flatten", "jax.tree.flatten")
def m_flatten(I, a, k):
    il = k.get("is_leaf", a[1] if len(a) > 1 else None)
    return PyTuple([I.mklist(leaves(I, a[0], il)), Treedef(struct(I, a[0], il))])
@model("jax.tree_util.tree_unflatten", "jax.tree.unflatten")
def m_unflatten(I, a, k):
    td, ls = a[0], a[1]
    if isinstance(td, Treedef):
        if isinstance(ls, T) and not (ls.op == "app" and ls.data == "tuple"):
            n = nleaves(td.s)
            return unflat(I, td.s, iter([I.subscript(ls, const(i)) for i in range(n)]))
        it = I.iterate(ls)
        return unflat(I, td.s, iter(it))
    return app("tree_unflatten", I.to_term(td), I.to_term(ls))


@model("jax.tree_util.tree_transpose", "jax.tree.transpose", "jax.tree_transpose")
def m_transpose(I, a, k):
    outer, inner, tree = a
    if not isinstance(outer, Treedef) or not isinstance(inner, Treedef): raise U(f"tree_transpose {type(outer).__name__} {type(inner).__name__} {outer} {inner}")
    ls = leaves(I, tree)
    no, ni = nleaves(outer.s), nleaves(inner.s)
    if len(ls) != no * ni:
        if isinstance(tree, T): return app("tree_transpose", tree)
        raise U("tree_transpose sizes")
    if inner.s is None: raise U("tree_transpose")
    cols = []
    for j in range(ni): cols.append(unflat(I, outer.s, iter([ls[i * ni + j] for i in range(no)])))
    return unflat(I, inner.s, iter(cols))


@model("jax.tree_util.tree_all")
def m_tree_all(I, a, k):
    return tm.land_all([I.truthy(x) for x in leaves(I, a[0])])


@model("jax.tree_util.tree_reduce", "functools.reduce")
def m_reduce(I, a, k):
    it = leaves(I, a[1]) if not isinstance(a[1], (PyTuple, PyList)) else I.iterate(a[1])
    out = a[2] if len(a) > 2 else None
    for x in it: out = x if out is None else I.call(a[0], [out, x], {})
    return out


MODELS["operator.mul"] = lambda I, a, k: I.binop(__import__("ast").Mult(), a[0], a[1])
MODELS["operator.add"] = lambda I, a, k: I.binop(__import__("ast").Add(), a[0], a[1])
MODELS["operator.or_"] = lambda I, a, k: I.binop(__import__("ast").BitOr(), a[0], a[1])
MODELS["operator.and_"] = lambda I, a, k: I.binop(__import__("ast").BitAnd(), a[0], a[1])
MODELS["typing.cast"] = ident(1)
MODELS["functools.cache"] = ident(0)
MODELS["functools.wraps"] = lambda I, a, k: Native(lambda I, b, kk: b[0], "wraps")


@model("warnings.warn")
def m_warn(I, a, k):
    m = a[0].data if isinstance(a[0], T) and a[0].is_const else ""
    if not I.muted: I.warns.append((I.pc_term(), m, I.file, I.line))
    return NONE


MODELS["RESULTS.where"] = lambda I, a, k: I.merge(I.truthy(arr(I, a[0])), a[1], a[2])
MODELS["RESULTS.promote"] = lambda I, a, k: app("promote", I.to_term(a[0]))


# ---------------------------------------------------------------- builtins
def bi(name):
    return model("builtins." + name)


@bi("len")
def b_len(I, a, k):
    v = a[0]
    if isinstance(v, (PyTuple, PyList, PySet)):
        it = I.iterate(v)
        n = ZERO
        for x in it:
            if isinstance(x, Star): return app("len", I.to_term(v))
            n = tm.add(n, ite(x.c, ONE, ZERO) if isinstance(x, Maybe) else ONE)
        return n
    if isinstance(v, PyDict): return const(len(I.hget(v.uid)))
    if isinstance(v, np.ndarray): return const(v.shape[0])
    if isinstance(v, Choice): return ite(v.c, b_len(I, [v.a], {}), b_len(I, [v.b], {}))
    if isinstance(v, Path): return b_len(I, [v.v], {})
    if isinstance(v, T) and v.op == "app" and v.data == "tuple": return const(len(v.args))
    if isinstance(v, T) and v.is_const and isinstance(v.data, str): return const(len(v.data))
    return app("len", I.to_term(v))


PYT = {"builtins.int": "int", "builtins.float": "float", "builtins.bool": "bool", "builtins.str": "str",
       "builtins.tuple": "tuple", "builtins.list": "list", "builtins.dict": "dict", "builtins.set": "set"}


def isinst(I, v, c):
    if isinstance(c, (PyTuple, PyList)): return tm.lor_all([isinst(I, v, x) for x in I.iterate(c)])
    if isinstance(v, Path): v = v.v
    if isinstance(v, Choice): return ite(v.c, isinst(I, v.a, c), isinst(I, v.b, c))
    if isinstance(c, ClassInfo):
        if isinstance(v, Obj):
            if v.cls is None: return isinst(I, v.base, c)
            m = c.metaclass()
            if m is not None and "__instancecheck__" in m.attrs:
                r = I.call(I.bind_class_func(m, m.attrs["__instancecheck__"], c, m), [v], {})
                t = tm.truth(r)
                return const(t) if t is not None else I.to_term(r)
            return const(v.cls.issub(c))
        if isinstance(v, T):
            h = I.hints.get(v)
            if h is not None:
                if h[0].issub(c): return TRUE
                if h[1]: return FALSE
                if not c.issub(h[0]) and not related(I, c, h[0]): return FALSE
                return app("isinstance", v, I.to_term(c))
            if v.is_const or v.op in ("add", "mul", "inv", "lt", "le", "eq", "and", "or", "not", "enum"): return FALSE
            if v.op == "ite": return ite(v.args[0], isinst(I, v.args[1], c), isinst(I, v.args[2], c))
            if v.op == "sym" and v.data[1] is not None: return FALSE
            return app("isinstance", v, I.to_term(c))
        return FALSE
    if isinstance(c, Ext):
        n = c.name
        if n in PYT:
            p = PYT[n]
            if isinstance(v, PyTuple): return const(p == "tuple")
            if isinstance(v, PyList): return const(p == "list")
            if isinstance(v, PyDict): return const(p == "dict")
            if isinstance(v, (Obj, Func, Bound, np.ndarray, ClassInfo)): 
                if isinstance(v, Obj) and v.cls is None: return isinst(I, v.base, c)
                return FALSE
            if isinstance(v, T):
                if v.is_const:
                    d = v.data
                    if isinstance(d, bool): return const(p in ("bool", "int"))
                    if isinstance(d, Fraction): return const(p == ("int" if d.denominator == 1 else "float") or (p == "float" and d.denominator == 1 and False))
                    if isinstance(d, str): return const(p == "str")
                    return FALSE
                if v.op == "enum": return FALSE
                if v in I.hints: return FALSE
                if v.op == "app" and v.data == "tuple": return const(p == "tuple")
                if v.op == "ite": return ite(v.args[0], isinst(I, v.args[1], c), isinst(I, v.args[2], c))
                if p in ("tuple", "list", "dict") and getattr(I, "leaf_mode", True): return app("isinstance", v, I.to_term(c)) if v.op == "app" and v.data.startswith("attr:") else app("isinstance", v, I.to_term(c))
                return app("isinstance", v, I.to_term(c))
        if n.startswith("lineax.") and n.endswith("LinearOperator"):
            e = I.ext_class.get(v) if isinstance(v, T) else None
            if e is not None: return const(n in (e, "lineax.AbstractLinearOperator"))
            if isinstance(v, np.ndarray) or isinstance(v, T) and (v.is_const or v.op in ("add", "mul", "inv", "lt", "le", "eq", "and", "or", "not", "enum") or v.op == "sym" and v.data[1] is not None): return FALSE
        if n.startswith("numpy.") and isinstance(v, np.ndarray): return const(n in ("numpy.ndarray",))
        if n.startswith("numpy.") and isinstance(v, T):
            return FALSE if not getattr(I, "np_opaque", False) else app("isinstance", v, I.to_term(c))
        if isinstance(v, Obj) and v.cls is not None:
            eb = v.cls.external_bases()
            if any(b.split(".")[-1] == n.split(".")[-1] for b in eb): return TRUE
            return FALSE
        if isinstance(v, (PyTuple, PyList, PyDict)): return FALSE
        if isinstance(v, T) and v in I.hints:
            eb = I.hints[v][0].external_bases()
            if any(b.split(".")[-1] == n.split(".")[-1] for b in eb): return TRUE
        if isinstance(v, T) and v is NONE: return FALSE
    try: return app("isinstance", I.to_term(v), I.to_term(c))
    except Exception: return FALSE


def related(I, a, b):
    """some class of the repository derives from both"""
    return any(c.issub(a) and c.issub(b) for c in I.repo.classes.values())


@bi("isinstance")
def b_isinstance(I, a, k): return isinst(I, a[0], a[1])


@bi("super")
def b_super(I, a, k):
    from .values import Super
    if len(a) == 2: return Super(a[0], a[1])
    raise U("super")


@bi("issubclass")
def b_issubclass(I, a, k):
    if isinstance(a[0], ClassInfo) and isinstance(a[1], ClassInfo): return const(a[0].issub(a[1]))
    return app("issubclass", I.to_term(a[0]), I.to_term(a[1]))


@bi("range")
def b_range(I, a, k):
    return I.mklist([const(i) for i in range(*[I.intval(x) for x in a])])


@bi("enumerate")
def b_enumerate(I, a, k):
    out = []
    for i, x in enumerate(I.iterate(a[0])):
        out.append(Maybe(x.c, PyTuple([const(i), x.v])) if isinstance(x, Maybe) else PyTuple([const(i), x]))
    return I.mklist(out)


@bi("zip")
def b_zip(I, a, k):
    ls = [I.iterate(x) for x in a]
    out = []
    for r in zip(*ls):
        cs = [x.c for x in r if isinstance(x, Maybe)]
        v = PyTuple([x.v if isinstance(x, Maybe) else x for x in r])
        out.append(Maybe(tm.land_all(cs), v) if cs else v)
    return I.mklist(out)


@bi("tuple")
def b_tuple(I, a, k):
    if not a: return PyTuple([])
    if isinstance(a[0], T) and not (a[0].op == "app" and a[0].data == "tuple"): return a[0]
    return PyTuple(I.iterate(a[0]))
@bi("list")
def b_list(I, a, k): return I.mklist(I.iterate(a[0])) if a else I.mklist([])
@bi("iter")
def b_iter(I, a, k): return a[0]
@bi("set")
def b_set(I, a, k): return PySet(I.iterate(a[0])) if a else PySet([])
MODELS["builtins.frozenset"] = b_set
@bi("dict")
def b_dict(I, a, k):
    d = {}
    if a:
        if isinstance(a[0], PyDict): d.update(I.hget(a[0].uid))
        else:
            for p in I.iterate(a[0]):
                x, y = I.unpack(p, 2); d[I.key(x)] = y
    d.update(k)
    return I.mkdict(d)


@bi("any")
def b_any(I, a, k):
    r = FALSE
    for x in I.iterate(a[0]):
        r = lor(r, land(x.c, I.truthy(x.v)) if isinstance(x, Maybe) else I.truthy(x))
    return r
@bi("all")
def b_all(I, a, k):
    if isinstance(a[0], T) and a[0].op == "app" and a[0].data == "map": return app("all", a[0])
    r = TRUE
    for x in I.iterate(a[0]):
        r = land(r, lor(lnot(x.c), I.truthy(x.v)) if isinstance(x, Maybe) else I.truthy(x))
    return r


@bi("sum")
def b_sum(I, a, k):
    import ast as _ast
    it = I.iterate(a[0])
    s = a[1] if len(a) > 1 else k.get("start", ZERO)
    for x in it:
        if isinstance(x, Maybe): s = I.merge(x.c, I.binop(_ast.Add(), s, x.v), s)
        else: s = I.binop(_ast.Add(), s, x)
    return s


def b_minmax(name):
    def f(I, a, k):
        it = a if len(a) > 1 else I.iterate(a[0])
        out = None
        for x in it:
            x = I.to_term(x)
            out = x if out is None else app(name, out, x)
        return out
    return f
MODELS["builtins.min"] = b_minmax("min")
MODELS["builtins.max"] = b_minmax("max")
MODELS["builtins.abs"] = MODELS["numpy.abs"]
MODELS["builtins.pow"] = MODELS["numpy.power"]


@bi("getattr")
def b_getattr(I, a, k):
    v, n = a[0], a[1].data
    if len(a) > 2:
        h = b_hasattr(I, a[:2], {})
        t = tm.truth(h)
        if t is False: return a[2]
        if t is None: return I.merge(h, I.getattr(v, n), a[2])
    return I.getattr(v, n)


@bi("hasattr")
def b_hasattr(I, a, k):
    v, n = a[0], a[1].data
    if isinstance(v, Path): v = v.v
    if isinstance(v, Choice): return ite(v.c, b_hasattr(I, [v.a, a[1]], {}), b_hasattr(I, [v.b, a[1]], {}))
    if isinstance(v, Obj) and v.cls is not None and (n in I.fields(v) or v.cls.lookup(n) is not None): return TRUE
    if isinstance(v, Obj) and v.base is not None and isinstance(v.base, Obj): return b_hasattr(I, [v.base, a[1]], {})
    if isinstance(v, Obj) and v.base is None and v.cls is not None and v.cls.is_pytree:
        return const(n in I.fields(v) or v.cls.lookup(n) is not None)
    if isinstance(v, ClassInfo): return const(v.lookup(n) is not None)
    if isinstance(v, T) and v in I.hints:
        cls, ex = I.hints[v]
        if cls.lookup(n) is not None or n in cls.all_fields(): return TRUE
    if isinstance(v, (Func, Bound, PyTuple, PyList, PyDict)): return FALSE
    return app("hasattr", I.to_term(v), const(n))


@bi("type")
def b_type(I, a, k):
    v = a[0]
    if isinstance(v, Obj) and v.cls is not None: return v.cls
    if isinstance(v, PyTuple): return Ext("builtins.tuple")
    if isinstance(v, PyList): return Ext("builtins.list")
    if isinstance(v, PyDict): return Ext("builtins.dict")
    if isinstance(v, T) and v.is_const:
        d = v.data
        return Ext("builtins." + ("bool" if isinstance(d, bool) else "str" if isinstance(d, str) else "NoneType" if d is None else "int" if d.denominator == 1 else "float"))
    if isinstance(v, T) and v in I.hints and I.hints[v][1]: return I.hints[v][0]
    return app("type", I.to_term(v))


for _n in ("float", "int"):
    @bi(_n)
    def b_num(I, a, k):
        v = a[0] if a else ZERO
        if isinstance(v, np.ndarray) and v.size == 1: v = v.item()
        if isinstance(v, T) and v.is_const and isinstance(v.data, str):
            s = v.data.lower()
            if "inf" in s: return tm.neg(tm.INF) if s.startswith("-") else tm.INF
            return const(float(s))
        return v
@bi("bool")
def b_bool(I, a, k): return I.truthy(a[0])
@bi("object")
def b_object(I, a, k): return I.mkobj(None, {})
@bi("map")
def b_map(I, a, k):
    ls = [I.iterate(x) for x in a[1:]]
    return I.mklist([I.call(a[0], list(r), {}) for r in zip(*ls)])
@bi("reversed")
def b_rev(I, a, k): return I.mklist(list(reversed(I.iterate(a[0]))))
@bi("str")
def b_str(I, a, k): return app("str", I.to_term(a[0])) if a else const("")
@bi("repr")
def b_repr(I, a, k): return const("repr")
@bi("id")
def b_id(I, a, k):
    v = a[0]
    return app("id", I.to_term(v))
@bi("sorted")
def b_sorted(I, a, k): return app("sorted", I.to_term(a[0]))
@bi("slice")
def b_slice(I, a, k):
    a = list(a)
    if len(a) == 1: return SliceV(NONE, a[0], NONE)
    return SliceV(*(a + [NONE] * (3 - len(a))))
@bi("next")
def b_next(I, a, k): return app("next", I.to_term(a[0]))
@bi("print")
def b_print(I, a, k):
    I.log("print", a); return NONE


# leading parameters of library functions: keyword arguments are normalised to positional ones
_X = ["x"]; _XY = ["x1", "x2"]; _XYy = ["x", "y"]
SIG = {"where": ["condition", "x", "y"], "asarray": ["a"], "array": ["object"], "clip": ["arr", "min", "max"], "stack": ["arrays"], "concatenate": ["arrays"],
       "full": ["shape", "fill_value"], "full_like": ["a", "fill_value"], "zeros_like": ["a"], "ones_like": ["a"], "broadcast_to": ["array", "shape"],
       "tensordot": ["a", "b"], "expand_dims": ["a", "axis"], "sum": ["a"], "max": ["a"], "min": ["a"], "any": ["a"], "all": ["a"], "mean": ["a"],
       "searchsorted": ["a", "v", "side"], "flip": ["m"], "minimum": _XYy, "maximum": _XYy, "power": _XY, "multiply": _XYy, "isnan": _X, "isinf": _X, "isfinite": _X,
       "sqrt": _X, "square": _X, "abs": _X, "exp": _X, "astype": ["x", "dtype"], "nextafter": ["x", "y"], "logical_and": _XYy, "logical_or": _XYy}
SIGS = {"jax.numpy." + n: v for n, v in SIG.items()}
SIGS.update({"numpy." + n: v for n, v in SIG.items()})
for _p in ("jax.tree_util.tree_", "jax.tree.", "jax.tree_"):
    SIGS.update({_p + "map": ["f", "tree"], _p + "leaves": ["tree"], _p + "structure": ["tree"], _p + "flatten": ["tree"], _p + "unflatten": ["treedef", "leaves"],
                 _p + "transpose": ["outer_treedef", "inner_treedef", "pytree_to_transpose"], _p + "reduce": ["function", "tree", "initializer"], _p + "all": ["tree"]})
SIGS.update({"jax.lax.cond": ["pred", "true_fun", "false_fun"], "equinox.internal.cond": ["pred", "true_fun", "false_fun"],
             "jax.lax.fori_loop": ["lower", "upper", "body_fun", "init_val"], "jax.lax.scan": ["f", "init", "xs"], "equinox.internal.scan": ["f", "init", "xs"],
             "jax.lax.stop_gradient": ["x"], "jax.random.split": ["key", "num"], "jax.random.fold_in": ["key", "data"],
             "jax.lax.dynamic_index_in_dim": ["operand", "index"], "equinox.error_if": ["x", "pred", "msg"], "equinox.internal.error_if": ["x", "pred", "msg"],
             "equinox.partition": ["pytree", "filter_spec"], "equinox.filter": ["pytree", "filter_spec"], "jax.vmap": ["fun"], "jax.jvp": ["fun", "primals", "tangents"],
             "jax.vjp": ["fun"], "functools.reduce": ["function", "iterable", "initial"], "jax.eval_shape": ["fun"]})


def positional(name, a, k):
    sig = SIGS.get(name)
    if not sig or not k: return a, k
    a, k = list(a), dict(k)
    while len(a) < len(sig) and sig[len(a)] in k: a.append(k.pop(sig[len(a)]))
    return a, k


def lookup(name):
    if name.endswith("RESULTS.where"): return MODELS["RESULTS.where"]
    if name.endswith("RESULTS.promote"): return MODELS["RESULTS.promote"]
    if name.endswith(".ω"): return m_omega
    if name.startswith("jax.lax."):
        n = name[8:]
        m = {"min": "minimum", "max": "maximum", "add": "add", "sub": "subtract", "mul": "multiply", "div": "divide",
             "abs": "abs", "exp": "exp", "sign": "sign", "neg": "negative", "lt": "less", "le": "less_equal", "gt": "greater",
             "ge": "greater_equal", "eq": "equal", "ne": "not_equal", "pow": "power", "square": "square",
             "convert_element_type": "asarray", "broadcast": "asarray", "clamp": None}.get(n)
        if m: return MODELS["jax.numpy." + m]
    return None


# ---------------------------------------------------------------- attributes of values
def ndarray_attr(I, v, name):
    if name == "shape": return PyTuple([const(n) for n in v.shape])
    if name == "ndim": return const(v.ndim)
    if name == "size": return const(v.size)
    if name == "T": return v.T
    if name == "dtype": return app("dtype", v.reshape(-1)[0]) if v.size and isinstance(v.reshape(-1)[0], T) else tm.sym("dtype")
    if name == "at": return At(v)
    if name in ("astype", "copy", "reshape", "squeeze", "ravel", "flatten"): return Native(lambda I, a, k: v, name)
    if name == "tolist": return Native(lambda I, a, k: I.mklist([x if not isinstance(x, np.ndarray) else x for x in v]), name)
    if name == "item": return Native(lambda I, a, k: v.item() if v.size == 1 else v, name)
    if name in ("sum", "any", "all", "max", "min", "mean", "prod", "dot", "conj", "clip"):
        return Native(lambda I, a, k: MODELS["jax.numpy." + name](I, [v] + list(a), k), name)
    if name in ("setflags", "flags"): return Native(lambda I, a, k: NONE, name)
    raise U("ndarray attribute " + name)


def at_attr(I, v, name):
    if isinstance(v.x, Omega):
        x = v.x.v
        def g(I, a, k):
            val = a[0].v if isinstance(a[0], Omega) else a[0]
            return Omega(I.mapv(lambda b, c: at_op(I, name, b, v.idx, c), x, val))
        return Native(g, "at." + name)
    return Native(lambda I, a, k: at_op(I, name, v.x, v.idx, a[0] if a else NONE), "at." + name)


def at_op(I, name, x, idx, val):
    import ast as _ast
    if isinstance(x, Choice): return I.merge(x.c, at_op(I, name, x.a, idx, val), at_op(I, name, x.b, idx, val))
    if name == "set": return at_set(I, x, idx, val)
    if name == "get": return I.subscript(x, idx)
    cur = I.subscript(x, idx)
    op = {"add": _ast.Add(), "subtract": _ast.Sub(), "mul": _ast.Mult(), "multiply": _ast.Mult(), "divide": _ast.Div()}.get(name)
    if op is not None: return at_set(I, x, idx, I.binop(op, cur, val))
    if name in ("min", "max"): return at_set(I, x, idx, ew(lambda p, q: app(name, p, q))(I, cur, val))
    raise U("at." + name)


def list_attr(I, v, name):
    def append(I, a, k):
        I.hset(v.uid, I.items(v) + (a[0],)); return NONE
    def extend(I, a, k):
        I.hset(v.uid, I.items(v) + tuple(I.iterate(a[0]))); return NONE
    def insert(I, a, k):
        l = list(I.items(v)); l.insert(I.intval(a[0]), a[1]); I.hset(v.uid, tuple(l)); return NONE
    def pop(I, a, k):
        l = list(I.items(v)); i = I.intval(a[0]) if a else -1
        x = l.pop(i); I.hset(v.uid, tuple(l)); return x
    def index(I, a, k): return app("index", I.to_term(v), I.to_term(a[0]))
    def reverse(I, a, k):
        I.hset(v.uid, tuple(reversed(I.items(v)))); return NONE
    d = {"append": append, "extend": extend, "insert": insert, "pop": pop, "index": index, "reverse": reverse,
         "copy": lambda I, a, k: I.mklist(I.items(v))}
    if name in d: return Native(d[name], "list." + name)
    if name == "shape": return shape(I, v)
    return app("attr:" + name, I.to_term(v))


def dict_attr(I, v, name):
    def kk(q): return const(q) if not isinstance(q, (T, V)) else q
    def get(I, a, k):
        d = I.hget(v.uid); q = I.key(a[0])
        return d.get(q, a[1] if len(a) > 1 else NONE)
    def items(I, a, k): return I.mklist([PyTuple([kk(q), x]) for q, x in I.hget(v.uid).items()])
    def values(I, a, k): return I.mklist(list(I.hget(v.uid).values()))
    def keys(I, a, k): return I.mklist([kk(q) for q in I.hget(v.uid)])
    def update(I, a, k):
        d = dict(I.hget(v.uid))
        if a: d.update(I.hget(a[0].uid))
        d.update(k); I.hset(v.uid, d); return NONE
    def pop(I, a, k):
        d = dict(I.hget(v.uid)); q = I.key(a[0])
        r = d.pop(q, a[1] if len(a) > 1 else NONE); I.hset(v.uid, d); return r
    def copy(I, a, k): return I.mkdict(I.hget(v.uid))
    def setdefault(I, a, k):
        d = dict(I.hget(v.uid)); q = I.key(a[0])
        if q not in d: d[q] = a[1]; I.hset(v.uid, d)
        return d[q]
    d = dict(get=get, items=items, values=values, keys=keys, update=update, pop=pop, copy=copy, setdefault=setdefault)
    if name in d: return Native(d[name], "dict." + name)
    return app("attr:" + name, I.to_term(v))


def tuple_attr(I, v, name):
    if isinstance(v, Treedef):
        if name == "num_leaves": return const(nleaves(v.s))
        if name == "compose":
            def comp(I, a, k):
                if not isinstance(a[0], Treedef): raise U("compose")
                inner = a[0].s
                def go(s):
                    if s == "*" or (isinstance(s, tuple) and s and s[0] == "?"): return inner
                    if s == "None": return s
                    if s[0] in ("tuple", "list"): return (s[0],) + tuple(go(x) for x in s[1:])
                    if s[0] == "dict": return ("dict",) + tuple((q, go(x)) for q, x in s[1:])
                    return s[:2] + tuple((q, go(x)) for q, x in s[2:])
                return Treedef(go(v.s))
            return Native(comp, name)
        if name == "unflatten": return Native(lambda I, a, k: unflat(I, v.s, iter(I.iterate(a[0]))), name)
        return app("attr:" + name, I.to_term(v))
    if name in ("index", "count"): return Native(lambda I, a, k: app("index", I.to_term(v), I.to_term(a[0])), name)
    return app("attr:" + name, I.to_term(v))


def term_attr(I, v, name):
    if v.is_const and isinstance(v.data, str):
        return Native(lambda I, a, k: const("str." + name) if name not in ("startswith", "endswith") else app("str." + name, v, *[I.to_term(x) for x in a]), "str." + name)
    if name == "at": return At(v)
    if I.scalar_leaves and name in ("conj", "reshape", "ravel"): return Native(lambda I, a, k: v, name)
    if name == "shape":
        if v.is_const or I.scalar_leaves: return PyTuple([])
        return app("shape", v)
    if name == "ndim": return ndim(I, v)
    if name == "size": return app("size", v)
    if name == "T": return app("transpose", v)
    if name == "dtype": return app("dtype", v)
    if name in ("astype", "copy", "squeeze"): return Native(lambda I, a, k: v, name)
    if name in ("sum", "any", "all", "max", "min", "mean", "prod", "dot", "conj", "clip", "real"):
        if name == "real": return app("real", v)
        return Native(lambda I, a, k: MODELS["jax.numpy." + name](I, [v] + list(a), k), name)
    if name == "item": return Native(lambda I, a, k: v, name)
    if name == "is_traced": return Native(lambda I, a, k: const(v.op != "enum"), name)
    if name == "error_if":
        def f(I, a, k):
            I.guard(I.truthy(arr(I, a[1])), "error_if", "result", tm.show(v))
            I.log("result.error_if", v, a[0], I.truthy(arr(I, a[1])))
            return a[0]
        return Native(f, "error_if")
    if v.op == "enum" and name in ("where",): return Ext("RESULTS.where")
    if name in ("cumsum", "repeat", "swapaxes", "take", "argmax", "argmin", "sort", "nonzero", "ptp", "var", "std", "trace", "diagonal", "transpose", "tolist", "round"):
        return app("jax.numpy.ndarray." + name, v)      # no transfer function: recognised as unmodelled
    return None


@model("builtins.object.__setattr__", "builtins.setattr")
def b_setattr(I, a, k):
    o, n, v = a
    if isinstance(o, Obj):
        d = dict(I.fields(o)); d[n.data] = v; I.hset(o.uid, d)
    else: I.log("setattr", o, n, v)
    return NONE
