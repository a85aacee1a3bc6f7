"""C20: path interpolation passes through its data, with matching derivative; missing data filled as documented."""
import itertools
import numpy as np
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, lst
from sa.deriv import deriv
from sa.interp import Unsupported
from checks import c07
from checks.c07 import O, nd, flat
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of evaluate/derivative and of the missing-data fills; case split on every missing-data pattern by constant propagation; value numbering against the documented formulas"
EXPLANATION = ("evaluate and derivative of the linear and cubic interpolations are extracted as value graphs over symbolic increasing knots, data and query time (left and right limits, increments, state trees), and compared "
               "with the documented formula on the interval containing the query. The missing-data routines (fill-forward, linear, rectilinear, backward Hermite) are extracted once per pattern of missing values and per "
               "option, for scalar and channelled leaves, and compared entry by entry with the documented fill.")
ASSUMPTIONS = ["knots increase; queries lie in the interval", "up to five knots: the scan bodies cannot see their position, so longer grids repeat the same step",
               "a channel with no observation at all and no instruction covering it stays missing"]
FLOOR = 2500
NAN = tm.NAN


def box(x): return x if isinstance(x, np.ndarray) else np.array(x, dtype=object) if isinstance(x, (list, tuple)) else O([x])


def models(I):
    c07.models(I); I.concrete_arrays = True
    def isnan(I, a, k):
        x = nd(I, a[0])
        def f(q):
            q = I.to_term(q)
            if q is NAN: return tm.TRUE
            if tm.contains(q, lambda z: z is NAN): raise Unsupported("partly missing value")
            return tm.FALSE
        return I.npmap(f, x) if isinstance(x, np.ndarray) else f(x)
    I.user_models["jax.numpy.isnan"] = isnan
    def repeat(I, a, k):
        x = nd(I, a[0]); n = I.intval(a[1] if len(a) > 1 else k["repeats"])
        ax = k.get("axis", a[2] if len(a) > 2 else None)
        if ax is None or ax is tm.NONE: return np.repeat(x.reshape(-1), n)
        return np.repeat(x, n, axis=I.intval(ax))
    I.user_models["jax.numpy.repeat"] = repeat
    def concat(I, a, k):
        return np.concatenate([nd(I, v) for v in I.iterate(a[0])], axis=I.intval(k.get("axis", a[1] if len(a) > 1 else tm.ZERO)))
    I.user_models["jax.numpy.concatenate"] = concat
    def clip(I, a, k):
        kk = dict(zip(("x", "min", "max"), a)); kk.update({dict(a_min="min", a_max="max", a="x").get(q, q): v for q, v in k.items()})
        x, lo, hi = (I.to_term(kk.get(q, tm.NONE)) for q in ("x", "min", "max"))
        if lo is hi and lo is not tm.NONE: return lo
        if lo is not tm.NONE: x = app("max", x, lo)
        if hi is not tm.NONE: x = app("min", x, hi)
        return x
    I.user_models["jax.numpy.clip"] = clip


def knots(n):
    b = tm.sym("tau", "real"); out = [b]
    for i in range(1, n): out.append(out[-1] + tm.sym(f"dt{i}", "pos"))
    return out


def inside(t, ts): return tm.land(tm.le(ts[0], t), tm.le(t, ts[-1]))


def pick(t, ts, left, f):
    """f(i) on the interval containing t: left limit t_i < t <= t_{i+1}, right limit t_i <= t < t_{i+1}; the end intervals closed"""
    n = len(ts) - 1
    r = f(n - 1)
    for i in reversed(range(n - 1)):
        r = ite(tm.le(t, ts[i + 1]) if left else tm.lt(t, ts[i + 1]), f(i), r)
    return r


def data(n, tag, shape): 
    a = np.empty((n,) + shape, dtype=object)
    for ix in np.ndindex(a.shape): a[ix] = tm.sym(tag + "_".join(map(str, ix)), "real")
    return a


SHAPES = ((), (2,))


def evaluation(ck, cls, nm, build, value, slope):
    """build(I, ts, n) -> (object, leaves); value/slope(leaf entry index, i, t, ts)"""
    w, wd = at(cls, "evaluate"), at(cls, "derivative")
    for n in ((2, 3, 4, 5) if ck.tier != "quick" else (2, 3, 5)):
        def go(n=n):
            I = ck.interp(); models(I)
            ts = knots(n); t, s = tm.sym("t", "real"), tm.sym("s", "real")
            o, leaves = build(I, ts, n)
            def out(v):
                r = []
                for x in I.iterate(v): r += flat(I, x)
                return r
            def spec(f, t, left): return [pick(t, ts, left, lambda i: f(leaf, ix, i, t, ts)) for leaf in leaves for ix in np.ndindex(leaf[0].shape[1:])]
            def call(meth, a, k): return out(I.call(I.method(cls, meth, o), a, k))
            for tag, left, kw in (("default", True, {}), ("left", True, {"left": tm.TRUE}), ("right", False, {"left": tm.FALSE})):
                g, e = call("evaluate", [t], kw), spec(value, t, left)
                ck.use(I)
                if ck.require(f"{nm}.{n}.{tag}.leaves", len(g) == len(e), w, "interpolated value has another structure than the data"):
                    ck.equal_many([(f"{nm}.{n}.evaluate.{tag}[{i}]", a, b) for i, (a, b) in enumerate(zip(g, e))], w, "value is not the documented formula on the interval containing the query", I=I, assume=inside(t, ts))
                g, e = call("derivative", [t], kw), spec(slope, t, left)
                ck.equal_many([(f"{nm}.{n}.derivative.{tag}[{i}]", a, b) for i, (a, b) in enumerate(zip(g, e))], wd, "derivative is not that of the value on the interval containing the query", I=I, assume=inside(t, ts))
                g = call("evaluate", [t, s], kw); e = [a - b for a, b in zip(spec(value, s, left), spec(value, t, left))]
                ck.equal_many([(f"{nm}.{n}.increment.{tag}[{i}]", a, b) for i, (a, b) in enumerate(zip(g, e))], w, "increment is not the difference of the values at the ends", I=I, assume=tm.land(inside(t, ts), inside(s, ts)))
                for j in range(n):      # at the knots themselves
                    g = call("evaluate", [ts[j]], kw)
                    i = max(j - 1, 0) if left else min(j, n - 2)
                    e = [value(leaf, ix, i, ts[j], ts) for leaf in leaves for ix in np.ndindex(leaf[0].shape[1:])]
                    ck.equal_many([(f"{nm}.{n}.knot{j}.{tag}[{q}]", a, b) for q, (a, b) in enumerate(zip(g, e))], w, "value at a knot is not the limit asked for", I=I)
                    g = call("derivative", [ts[j]], kw)
                    e = [slope(leaf, ix, i, ts[j], ts) for leaf in leaves for ix in np.ndindex(leaf[0].shape[1:])]
                    ck.equal_many([(f"{nm}.{n}.knot{j}.slope.{tag}[{q}]", a, b) for q, (a, b) in enumerate(zip(g, e))], wd, "derivative at a knot is not the one-sided derivative asked for", I=I)
            ck.equal(f"{nm}.{n}.t0", at(cls, "t0"), I.to_term(I.getattr(o, "t0")), ts[0], I=I, what="start of the interpolation is not its first knot")
            ck.equal(f"{nm}.{n}.t1", at(cls, "t1"), I.to_term(I.getattr(o, "t1")), ts[-1], I=I, what="end of the interpolation is not its last knot")
        ck.attempt(f"{nm}.{n}", go)


def linear(ck):
    cls = ck.repo.cls("LinearInterpolation")
    def build(I, ts, n):
        leaves = [(data(n, "y", s),) if i == 0 else (data(n, "z", s),) for i, s in enumerate(SHAPES)]
        return I.mkobj(cls, {"ts": O(ts), "ys": PyTuple([l[0] for l in leaves])}), leaves
    val = lambda l, ix, i, t, ts: l[0][(i,) + ix] + (l[0][(i + 1,) + ix] - l[0][(i,) + ix]) * ((t - ts[i]) / (ts[i + 1] - ts[i]))
    slo = lambda l, ix, i, t, ts: (l[0][(i + 1,) + ix] - l[0][(i,) + ix]) / (ts[i + 1] - ts[i])
    evaluation(ck, cls, "LinearInterpolation", build, val, slo)
    # through every observation
    def go():
        I = ck.interp(); models(I); n = 4
        ts = knots(n); y = data(n, "y", (2,))
        o = I.mkobj(cls, {"ts": O(ts), "ys": y})
        for left in (True, False):
            for j in range(n):
                g = flat(I, I.call(I.method(cls, "evaluate", o), [ts[j]], {"left": const(left)}))
                ck.equal_many([(f"LinearInterpolation.observation.{j}.{left}[{c}]", a, y[j, c]) for c, a in enumerate(g)], at(cls, "evaluate"), "value at an observation time is not the observation", I=I)
        ck.use(I)
    ck.attempt("LinearInterpolation.observation", go)


def cubic(ck):
    cls = ck.repo.cls("CubicInterpolation")
    def build(I, ts, n):
        leaves = [tuple(data(n - 1, f"{q}{i}.", s) for q in "dcba") for i, s in enumerate(SHAPES)]
        return I.mkobj(cls, {"ts": O(ts), "coeffs": PyTuple([PyTuple([l[q] for l in leaves]) for q in range(4)])}), leaves
    def val(l, ix, i, t, ts):
        d, c, b, a = (q[(i,) + ix] for q in l); x = t - ts[i]
        return d * x * x * x + c * x * x + b * x + a
    def slo(l, ix, i, t, ts):
        d, c, b, a = (q[(i,) + ix] for q in l); x = t - ts[i]
        return 3 * d * x * x + 2 * c * x + b
    evaluation(ck, cls, "CubicInterpolation", build, val, slo)


# ------------------------------------------------------------------ missing data
def fill_linear(col, ts, rep, ff):
    """documented fill of one channel; None where the documentation does not decide"""
    n = len(col)
    col = list(col)
    if all(v is None for v in col):
        if rep is None: return [NAN] * n
        return [rep] * n if ff else [None] * n
    obs = {i: v for i, v in enumerate(col) if v is not None}
    if rep is not None and 0 not in obs: obs[0] = rep
    out = []
    for i in range(n):
        lo = [j for j in obs if j <= i]; hi = [j for j in obs if j >= i]
        if i in obs: out.append(obs[i])
        elif lo and hi:
            p, q = max(lo), min(hi)
            out.append(obs[p] + (obs[q] - obs[p]) * (ts[i] - ts[p]) / (ts[q] - ts[p]))
        elif lo and ff: out.append(obs[max(lo)])
        else: out.append(NAN)
    return out


def fill_forward(col, rep):
    out, last = [], NAN if rep is None else rep
    for v in col:
        if v is not None: last = v
        out.append(last)
    return out


def hermite(col, ts, d0, rep, ff):
    """(d, c, b, a) per interval of one channel"""
    n = len(col); col = list(col)
    if rep is not None and col[0] is None:
        if all(v is None for v in col) and not ff: return [None] * (n - 1)
        col[0] = rep
    if ff:
        seen = [i for i, v in enumerate(col) if v is not None]
        if seen:
            for i in range(max(seen) + 1, n): col[i] = col[max(seen)]
    nodes = [i for i, v in enumerate(col) if v is not None]
    out = []
    for i in range(n - 1):
        lo = [j for j in nodes if j <= i]; hi = [j for j in nodes if j > i]
        if not lo or not hi: out.append((NAN,) * 4); continue
        p, q = max(lo), min(hi)
        s = (col[q] - col[p]) / (ts[q] - ts[p])
        before = [j for j in nodes if j < p]
        if before: dp = (col[p] - col[max(before)]) / (ts[p] - ts[max(before)])
        elif p == 0 and d0 is not None: dp = d0
        else: dp = s
        L = ts[q] - ts[p]
        D, C, B, A = -(s - dp) / (L * L), 2 * (s - dp) / L, dp, col[p]
        x = ts[i] - ts[p]
        out.append((D, C + 3 * D * x, B + 2 * C * x + 3 * D * x * x, A + B * x + C * x * x + D * x * x * x))
    return out


def compare(ck, I, w, items, what):
    """(name, got, want): missing must be missing, the rest equal and finite"""
    eqs = []
    for nm, g, e in items:
        if e is None: continue
        if e is NAN or g is NAN:
            ck.require(nm, g is e, w, f"{what}: entry is {'missing' if g is NAN else 'filled in'}, the documentation says it is {'missing' if e is NAN else 'filled in'}", dict(computed=tm.show(g, 8), specified=tm.show(e, 8)))
            continue
        eqs.append((nm, g, e))
    ck.equal_many(eqs, w, what, I=I)


def masks(n): return list(itertools.product((0, 1), repeat=n))
def pattern(m, tag): return [tm.sym(f"{tag}{i}", "real") if q else None for i, q in enumerate(m)]
def vals(col): return [NAN if v is None else v for v in col]
def ptag(m): return "".join("x" if q else "-" for q in m)


def modfn(ck, I, name):
    mod = ck.repo.cls("LinearInterpolation").module
    return I.global_value(mod, name)


def missing(ck):
    R = ck.repo
    mod = R.cls("LinearInterpolation").module
    n = 4 if ck.tier == "quick" else 5
    ms = masks(n)
    def where(f): return f"{mod.path}:{mod.functions[f].lineno} {f}" if hasattr(mod, "functions") and f in mod.functions else f"{mod.path} {f}"
    rep, rep2, d0, d02 = (tm.sym(q, "real") for q in ("rep", "rep2", "deriv0", "deriv02"))
    for a, m in enumerate(ms):
        m2 = ms[(a * 7 + 3) % len(ms)]          # the second channel has another pattern
        m3 = ms[(a * 5 + 6) % len(ms)]
        for shape in ("scalar", "channels", "tree"):
            if ck.tier == "quick" and (shape == "channels" and a % 3 or shape == "tree" and a % 5 != 1): continue
            cols = {"scalar": [pattern(m, "y")], "channels": [pattern(m, "y"), pattern(m2, "z")], "tree": [pattern(m, "y"), pattern(m2, "z"), pattern(m3, "u")]}[shape]
            def tree(f):
                """f(list of columns) -> array, one per leaf"""
                arr1 = lambda c: O(vals(c))
                arr2 = lambda cs: np.array([vals(c) for c in cs], dtype=object).T.copy()
                if shape == "scalar": return arr1(cols[0])
                if shape == "channels": return arr2(cols)
                return PyTuple([arr2(cols[:2]), arr1(cols[2])])
            def entries(I, v, rows):
                """per column list of entries"""
                if shape == "scalar": x = nd(I, v); return [[x[i] for i in range(rows)]]
                if shape == "channels": x = nd(I, v); return [[x[i, c] for i in range(rows)] for c in range(2)]
                p, q = I.iterate(v); p, q = nd(I, p), nd(I, q)
                return [[p[i, c] for i in range(rows)] for c in range(2)] + [[q[i] for i in range(rows)]]
            def opt(v, v2):
                """an option, broadcast over channels (scalar) or per channel"""
                if shape == "scalar": return v
                if shape == "channels": return O([v, v2]) if a % 4 >= 2 else v
                return PyTuple([O([v, v2]), v])
            def optcol(v, v2):
                if shape == "scalar": return [v]
                if shape == "channels": return [v, v2] if a % 4 >= 2 else [v, v]
                return [v, v2, v]
            ts = knots(n)
            for ff in (False, True):
                for rp in (False, True):
                    tg = f"{shape}.{ptag(m)}.{'end' if ff else ''}{'start' if rp else ''}"
                    kw = {}
                    if ff: kw["fill_forward_nans_at_end"] = tm.TRUE
                    if rp: kw["replace_nans_at_start"] = opt(rep, rep2)
                    reps = optcol(rep, rep2) if rp else [None] * len(cols)
                    def lin():
                        I = ck.interp(); models(I)
                        f = modfn(ck, I, "linear_interpolation")
                        g = entries(I, I.call(f, [O(ts), tree(None)], kw), n)
                        ck.use(I)
                        compare(ck, I, where("linear_interpolation"), [(f"linear.{tg}[{c}][{i}]", I.to_term(g[c][i]), e) for c in range(len(cols)) for i, e in enumerate(fill_linear(cols[c], ts, reps[c], ff))],
                                "linear_interpolation does not fill as documented")
                    ck.attempt(f"linear.{tg}", lin)
                    if not ff:
                        def rect():
                            I = ck.interp(); models(I)
                            f = modfn(ck, I, "rectilinear_interpolation")
                            r = I.call(f, [O(ts), tree(None)], kw)
                            tt, yy = I.unpack(r, 2)
                            g = entries(I, yy, 2 * n - 1)
                            tt = flat(I, tt)
                            ck.use(I)
                            w = where("rectilinear_interpolation")
                            if ck.require(f"rectilinear.{tg}.length", len(tt) == 2 * n - 1, w, f"{len(tt)} times from {n} observations"):
                                ck.equal_many([(f"rectilinear.{tg}.t[{i}]", tt[i], ts[(i + 1) // 2]) for i in range(2 * n - 1)], w, "rectilinear times are not the documented ones", I=I)
                            it = []
                            for c in range(len(cols)):
                                ffd = fill_forward(cols[c], reps[c])
                                it += [(f"rectilinear.{tg}[{c}][{i}]", I.to_term(g[c][i]), ffd[i // 2]) for i in range(2 * n - 1)]
                            compare(ck, I, w, it, "rectilinear_interpolation does not fill as documented")
                        ck.attempt(f"rectilinear.{tg}", rect)
                    for dd in (False, True):
                        def herm():
                            I = ck.interp(); models(I)
                            f = modfn(ck, I, "backward_hermite_coefficients")
                            k2 = dict(kw)
                            if dd: k2["deriv0"] = opt(d0, d02)
                            r = I.call(f, [O(ts), tree(None)], k2)
                            co = [entries(I, x, n - 1) for x in I.unpack(r, 4)]
                            ck.use(I)
                            it = []
                            ds = optcol(d0, d02) if dd else [None] * len(cols)
                            for c in range(len(cols)):
                                for i, e in enumerate(hermite(cols[c], ts, ds[c], reps[c], ff)):
                                    for q in range(4): it.append((f"hermite.{tg}{'.deriv0' if dd else ''}[{c}][{i}].{'dcba'[q]}", I.to_term(co[q][c][i]), None if e is None else e[q]))
                            compare(ck, I, where("backward_hermite_coefficients"), it, "backward_hermite_coefficients is not the documented spline")
                        ck.attempt(f"hermite.{tg}{'.deriv0' if dd else ''}", herm)
    def bare():
        I = ck.interp(); models(I)
        for m in ms:
            for rp in (False, True):
                col, col2 = pattern(m, "y"), pattern(m[::-1], "z")
                y = np.array([vals(col), vals(col2)], dtype=object).T.copy()
                misc = [q for q in R.modules.values() if q.name.endswith("._misc")][0] if hasattr(R, "modules") else None
                f = I.global_value(misc, "fill_forward")
                g = nd(I, I.call(f, [y] + ([rep] if rp else []), {}))
                it = [(f"fill_forward.{ptag(m)}.{rp}[{c}][{i}]", I.to_term(g[i, c]), e) for c, cc in enumerate((col, col2)) for i, e in enumerate(fill_forward(cc, rep if rp else None))]
                compare(ck, I, f"{misc.path} fill_forward", it, "fill_forward does not fill with the most recent observation")
        ck.use(I)
    ck.attempt("fill_forward", bare)
    def empty():
        I = ck.interp(); models(I)
        f = modfn(ck, I, "backward_hermite_coefficients")
        r = I.iterate(I.call(f, [O(knots(3)), PyTuple([])], {}))
        ck.use(I)
        ck.require("hermite.empty", len(r) == 4 and all(isinstance(x, PyTuple) and not x.items for x in r), where("backward_hermite_coefficients"), "coefficients of an empty tree are not four empty trees")
    ck.attempt("hermite.empty", empty)


def refusals(ck):
    from checks.c18 import refusal
    R = ck.repo
    mod = R.cls("LinearInterpolation").module
    q = [tm.sym(f"q{i}", "real") for i in range(3)]
    inc = tm.land(tm.lt(q[0], q[1]), tm.lt(q[1], q[2]))
    for fn, tail in (("linear_interpolation", []), ("rectilinear_interpolation", []), ("backward_hermite_coefficients", [])):
        def go(fn=fn):
            I = ck.interp(); models(I)
            f = modfn(ck, I, fn)
            y = data(3, "y", ())
            n0 = len(I.guards)
            c, gs, err = refusal(I, lambda: I.call(f, [O(q), y], {}), n0)
            if err is not None and tm.truth(c) is not True: raise Unsupported(str(err))
            ck.use(I)
            ck.equal(f"{fn}.increasing", f"{mod.path} {fn}", c, tm.lnot(inc), I=I, what="times that do not strictly increase are accepted, or increasing ones refused")
        ck.attempt(f"{fn}.increasing", go)
        for tag, tsv, bad in (("2d", np.array([[q[0], q[1]], [q[1], q[2]]], dtype=object), True), ("short", O(q[:1]), True)):
            def dim(fn=fn, tsv=tsv):
                I = ck.interp(); models(I)
                f = modfn(ck, I, fn); n0 = len(I.guards)
                c, gs, err = refusal(I, lambda: I.call(f, [tsv, data(tsv.shape[0], "y", ())], {}), n0)
                ck.use(I)
                if err is not None and tm.truth(c) is not True: raise Unsupported(str(err))
                ck.equal(f"{fn}.{tag}", f"{mod.path} {fn}", c, tm.TRUE, I=I, what="times of the wrong shape are accepted")
            ck.attempt(f"{fn}.{tag}", dim)


def run(ck):
    tm.NANPROP[0] = True
    try:
        linear(ck)
        cubic(ck)
        missing(ck)
        refusals(ck)
    finally: tm.NANPROP[0] = False
