"""C03: dense output of every solver: continuous extension order conditions, end values, increments."""
import mpmath as mp
import numpy as np
from fractions import Fraction as Fr
from sa import butcher as B, terms as tm
from sa.common import *
LEVEL = "proof"
TECHNIQUE = ("constant propagation of the interpolant's weight polynomials b_i(theta) out of the interpolation classes (stages and states symbolic), then the "
             "Butcher conditions of the continuous extension; gated value-graph equality for the affine rescaling of time, increments and end values")
EXPLANATION = ("For every Runge-Kutta solver the interpolation class is constructed on symbolic states and stages and its evaluate method is reduced to the stage "
               "weights b_i(theta); these are decided against sum b_i(theta) Phi_i(t) = theta^|t|/gamma(t) for all rooted (coloured) trees up to the order of the "
               "extension at several abscissae, against y0 at theta=0 and the solution row b at theta=1; evaluation at (t; t0, t1) is shown to depend on the affine "
               "fraction only, and evaluate(s, t) to be evaluate(t) - evaluate(s), on two-leaf states. Linear interpolation and the dense-output container are compared "
               "with their specifications.")
ASSUMPTIONS = ["t0 != t1 for a step", "y1 is y0 plus the b-weighted stages, which C04 decides", "coefficients compared at 1e-9 (documented to double precision)"]
FLOOR = 60
TOL = mp.mpf(10) ** -9
# order of the continuous extension each method provides (and, for Midpoint/Ralston, documents)
ORDER = dict(Bosh3=3, Dopri5=4, Dopri8=5, Heun=2, KenCarp3=2, KenCarp4=3, KenCarp5=3, Kvaerno3=3, Kvaerno4=3, Kvaerno5=3, Midpoint=2, Ralston=2, Sil3=2, Tsit5=4)
THETAS = (Fr(1, 7), Fr(2, 5), Fr(3, 5), Fr(6, 7))


def weights_of(r, th, Y, Y1, ks, tabs, theta):
    def val(on):
        m = {x: tm.ZERO for x in tm.symbols(r)}
        m[th] = tm.const(theta)
        if on is not None: m[on] = tm.ONE
        return B.num(tm.subst(r, m))
    z = val(None)
    cy, cy1 = val(Y) - z, val(Y1) - z
    return z, cy, cy1, [[val(ks[c][i]) - z + cy1 * t.b[i] for i in range(t.s)] for c, t in enumerate(tabs)]


def rk(ck, cls):
    I = ck.interp()
    w = at(cls)
    tabs = tableaus(I, cls); s = tabs[0].s
    ks = [[tm.sym(f"k{c}_{i}") for i in range(s)] for c in range(len(tabs))]
    Y, Y1, th = tm.sym("Y"), tm.sym("Y1"), tm.sym("θ")
    arrs = [np.array(k, dtype=object) for k in ks]
    k = arrs[0] if len(arrs) == 1 else PyTuple(arrs)
    ic = I.getattr(I.mkobj(cls, {}), "interpolation_cls")
    obj = I.call(ic, [], dict(t0=tm.ZERO, t1=tm.ONE, y0=Y, y1=Y1, k=k))
    r = I.to_term(I.call(I.getattr(obj, "evaluate"), [th], {}))
    icn = getattr(obj, "cls", None)
    w = at(icn, "evaluate") if icn is not None else w
    z0, cy, cy1, e0 = weights_of(r, th, Y, Y1, ks, tabs, Fr(0))
    ck.require(f"{cls.name}.start-exact", abs(z0) < TOL and abs(cy + cy1 - 1) < TOL and all(abs(x) < TOL for ww in e0 for x in ww), w,
               "at the start of the step the interpolant is not the start value", str([mp.nstr(x, 8) for ww in e0 for x in ww])[:400])
    _, cy, cy1, e1 = weights_of(r, th, Y, Y1, ks, tabs, Fr(1))
    ck.require(f"{cls.name}.end-exact", abs(cy + cy1 - 1) < TOL and all(abs(x - y) < TOL for ww, t in zip(e1, tabs) for x, y in zip(ww, t.b)), w,
               "at the end of the step the interpolant is not the solver's value there",
               [(c, i, mp.nstr(x, 12), mp.nstr(t.b[i], 12)) for c, (ww, t) in enumerate(zip(e1, tabs)) for i, x in enumerate(ww) if abs(x - t.b[i]) >= TOL][:6])
    p = ORDER.get(cls.name)
    if p is None:
        p = 1
        ck.notes.append(f"{cls.name}: no documented extension order; only order 1 required")
    memo, worst = {}, {}
    for theta in THETAS:
        z, cy, cy1, ww = weights_of(r, th, Y, Y1, ks, tabs, theta)
        ck.require(f"{cls.name}.affine@{theta}", abs(z) < TOL and abs(cy + cy1 - 1) < TOL, w, "constant solutions are not reproduced")
        T_ = mp.mpf(theta.numerator) / theta.denominator
        for t, rr in B.residuals(ww, tabs, p, memo, scale=lambda t: T_ ** B.order(t) / B.gamma(t)):
            q = B.order(t)
            if q not in worst or abs(rr) > worst[q][0]: worst[q] = (abs(rr), B.show(t), str(theta))
    for q in range(1, p + 1):
        ck.require(f"{cls.name}.dense-order-{q}", worst[q][0] < TOL, w, f"the dense output violates an order-{q} condition (extension order {p})", mp.nstr(worst[q][0], 8) + " " + str(worst[q][1:]))
    # polynomial in theta only, any (t0, t1), per leaf; increments
    T0, T1, a, b = tm.sym("T0"), tm.sym("T1"), tm.sym("a", "real"), tm.sym("b", "real")
    Ys = [tm.sym(f"Y{i}") for i in range(2)]; Y1s = [tm.sym(f"Y1{i}") for i in range(2)]
    kl = [[[tm.sym(f"k{c}_{i}_{l}") for i in range(s)] for c in range(len(tabs))] for l in range(2)]
    def kk(c): return PyTuple([np.array(kl[l][c], dtype=object) for l in range(2)])
    k2 = kk(0) if len(tabs) == 1 else PyTuple([kk(c) for c in range(len(tabs))])
    o2 = I.call(ic, [], dict(t0=T0, t1=T1, y0=PyTuple(Ys), y1=PyTuple(Y1s), k=k2))
    ev = I.getattr(o2, "evaluate")
    ass = tm.lnot(tm.eq(T0, T1))
    va, vb = lst(I, I.call(ev, [a], {}), 2), lst(I, I.call(ev, [b], {}), 2)
    frac = (a - T0) / (T1 - T0)
    for l in range(2):
        m = {th: frac, Y: Ys[l], Y1: Y1s[l]}
        for c in range(len(tabs)):
            for i in range(s): m[ks[c][i]] = kl[l][c][i]
        ck.equal(f"{cls.name}.rescale[{l}]", w, va[l], tm.subst(r, m), assume=ass, what="evaluation at t is not the step polynomial at (t - t0)/(t1 - t0), leaf by leaf", I=I)
    vi = lst(I, I.call(ev, [a, b], {}), 2)
    for l in range(2):
        ck.equal(f"{cls.name}.increment[{l}]", w, vi[l], vb[l] - va[l], assume=ass, what="evaluate(s, t) is not evaluate(t) - evaluate(s)", I=I)
    ck.use(I)


def linear(ck):
    I = ck.interp()
    cls = ck.repo.cls("LocalLinearInterpolation")
    w = at(cls, "evaluate")
    T0, T1, a, b = (tm.sym(x, "real") for x in ("T0", "T1", "a", "b"))
    Y0, Y1 = [tm.sym("Y00"), tm.sym("Y01")], [tm.sym("Y10"), tm.sym("Y11")]
    o = I.call(cls, [], dict(t0=T0, t1=T1, y0=PyTuple(Y0), y1=PyTuple(Y1)))
    ev = I.getattr(o, "evaluate")
    ass = tm.lnot(tm.eq(T0, T1))
    va = lst(I, I.call(ev, [a], {}), 2)
    vi = lst(I, I.call(ev, [a, b], {}), 2)
    for l in range(2):
        ck.equal(f"LocalLinear.evaluate[{l}]", w, va[l], Y0[l] + (a - T0) / (T1 - T0) * (Y1[l] - Y0[l]), assume=ass, what="is not the chord", I=I)
        ck.equal(f"LocalLinear.increment[{l}]", w, vi[l], (b - a) / (T1 - T0) * (Y1[l] - Y0[l]), assume=ass, what="increment is not the chord's increment", I=I)
    ck.use(I)


def others(ck):
    """Non-RK solvers return linear dense output whose ends are the step's ends."""
    base = ck.repo.cls("AbstractSolver")
    rks = set(rk_solvers(ck.repo))
    lin = ck.repo.cls("LocalLinearInterpolation")
    for cls in sorted(ck.repo.classes.values(), key=lambda c: c.qual):
        if not cls.issub(base) or cls in rks or cls.name.startswith("Abstract") or cls.name.startswith("_"): continue
        if cls.lookup("step") is None or cls.name == "HalfSolver": continue
        def one(cls=cls):
            I = ck.interp()
            ic = I.getattr(I.mkobj(cls, {}), "interpolation_cls")
            if not isinstance(ic, ClassInfo) and not hasattr(ic, "lookup"):
                ck.undecided(f"{cls.name}.interpolation", f"{ic}"); return
            ck.require(f"{cls.name}.interpolation", ic is lin, at(cls), f"interpolates with {ic.name}, its dense information is that of linear interpolation")
        ck.attempt(f"{cls.name}.interpolation", one)


def run(ck):
    for cls in rk_solvers(ck.repo):
        ck.attempt(cls.name, lambda: rk(ck, cls))
    ck.attempt("LocalLinear", lambda: linear(ck))
    others(ck)
    from checks import dense
    dense.container(ck)
    dense.halfsolver(ck)
