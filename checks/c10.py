"""C10: adaptive step control (value graph of PIDController, special-value propagation, gradient-path analysis)."""
import math
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of the PID controller and value numbering against the accept/limit/clip specification; nan/inf propagation and derivative-path analysis over the same graph"
EXPLANATION = ("adapt_step_size, init, _select_initial_step and _get_error_order are abstractly interpreted with symbolic tolerances, limits, coefficients, states and errors, for every presence/absence "
               "combination of dtmin, dtmax and force_dtmin; each returned component gets the same value number as its specification; the consequences the property names (bounds of the step change) are "
               "then validities of that graph; non-finite errors are propagated through the graph; no derivative path leads from states, errors or tolerances to the next step size.")
ASSUMPTIONS = ["real-number arithmetic except for the nan/inf propagation, which uses IEEE rules", "the norm is an arbitrary non-negative function", "library operations have their documented semantics"]
FLOOR = 60
t0, t1, ctl = tm.sym("t0"), tm.sym("t1"), "PIDController"
F = {k: tm.sym(k, "pos") for k in ("rtol", "atol", "safety", "factormin", "factormax")}
NORM = "norm_out"


def norm(I, a, k): return app(NORM, *lst(I, a[0]))


def build(ck, dtmin, dtmax, force, coeffs, track=False):
    I = ck.interp(track_grad=track)
    cls = ck.repo.cls(ctl)
    f = dict(F)
    f.update(norm=Native(norm, "norm"), dtmin=tm.sym("dtmin", "pos") if dtmin else tm.NONE, dtmax=tm.sym("dtmax", "pos") if dtmax else tm.NONE,
             force_dtmin=const(force), error_order=tm.NONE)
    f.update(zip(("pcoeff", "icoeff", "dcoeff"), coeffs))
    return I, cls, I.mkobj(cls, f), f


def adapt(ck, I, cls, o, st):
    y0, y1, ye = state("y"), state("z"), state("e")
    r = I.call(I.method(cls, "adapt_step_size", o), [t0, t1, y0, y1, tm.sym("args"), ye, tm.sym("order", "pos"), st], {})
    ck.use(I)
    return I.unpack(r, 6), list(y0.items), list(y1.items), list(ye.items)


def spec(f, y0, y1, ye, at_dtmin, p1, p2):
    mx = lambda a, b: app("max", a, b)
    mn = lambda a, b: app("min", a, b)
    errs = []
    for a, b, e in zip(y0, y1, ye):
        b = ite(app("isnan", b), a, b)
        errs.append(e / (f["atol"] + mx(app("abs", a), app("abs", b)) * f["rtol"]))
    se = app(NORM, *errs)
    keep = tm.lt(se, const(1))
    if f["dtmin"] is not tm.NONE: keep = tm.lor(keep, at_dtmin)
    inv = const(1) / se
    o = tm.sym("order", "pos")
    pc, ic, dc = f["pcoeff"], f["icoeff"], f["dcoeff"]
    fac = f["safety"] * tm.power(inv, (pc + ic + dc) / o) * tm.power(p1, -(pc + const(2) * dc) / o) * tm.power(p2, dc / o)
    lo, hi = ite(keep, const(1), f["factormin"]), ite(keep, f["factormax"], f["safety"])
    fac = mn(mx(fac, lo), hi)
    dt = (t1 - t0) * fac
    res = tm.enum("RESULTS.successful")
    if f["dtmax"] is not tm.NONE: dt = mn(dt, f["dtmax"])
    m = at_dtmin
    if f["dtmin"] is not tm.NONE:
        if f["force_dtmin"] is tm.FALSE: res = ite(tm.lt(dt, f["dtmin"]), tm.enum("RESULTS.dt_min_reached"), res)
        dt = ite(tm.land(at_dtmin, tm.eq(fac, const(1))), f["dtmin"], dt)
        m = tm.le(dt, f["dtmin"])
        dt = mx(dt, f["dtmin"])
    n0 = ite(keep, t1, t0)
    bad = tm.lor(tm.eq(inv, const(0)), app("isinf", inv))
    s1 = ite(keep, ite(bad, const(1), inv), p1)
    s2 = ite(keep, p1, p2)
    return dict(keep=keep, t0=n0, t1=n0 + dt, jump=tm.FALSE, state=[s1, s2, m], result=res, fac=fac, dt=dt)


C = [("I", (const(0), const(1), const(0))), ("PI", (const(0.4), const(0.3), const(0))), ("PID", (const(0.2), const(0.3), const(0.1))),
     ("traced", (tm.sym("pc", "pos"), tm.sym("ic", "pos"), tm.sym("dc", "pos")))]


def adaptation(ck, nm, dtmin, dtmax, force, coeffs):
    I, cls, o, f = build(ck, dtmin, dtmax, force, coeffs)
    for s in coeffs:
        if not s.is_const: I.hints[s] = (None, False)
    p1, p2, m = tm.sym("p1", "pos"), tm.sym("p2", "pos"), tm.sym("at_dtmin", "bool")
    got, y0, y1, ye = adapt(ck, I, cls, o, PyTuple([p1, p2, m]))
    S = spec(f, y0, y1, ye, m, p1, p2)
    w = at(cls, "adapt_step_size")
    doms = {}
    E = lambda n, g, s, what: ck.equal(f"{nm}.{n}", w, I.to_term(g), s, what=what, I=I)
    E("accepts-iff", got[0], S["keep"], "a step is not accepted exactly when its scaled error is below one (or the minimum step forces it)")
    E("next-start", got[1], S["t0"], "the next attempt does not start at the end of an accepted step / the start of a rejected one")
    E("next-end", got[2], S["t1"], "the next step size is not the old one times the limited factor, clipped to the minimum and maximum")
    E("no-jump", got[3], S["jump"], "reports a jump")
    st = [I.to_term(x) for x in I.unpack(got[4], 3)]
    for i, k in enumerate(("inverse-error", "previous-inverse-error", "at-minimum")):
        if i == 2 and not dtmin: continue
        E("state." + k, st[i], S["state"][i], "the controller's memory is not that of the last accepted steps")
    E("result", got[5], S["result"], "hitting the minimum step size is not reported exactly when asked for")
    # consequences, on the extracted graph itself
    dt = I.to_term(got[2]) - I.to_term(got[1])
    old = t1 - t0
    keep = I.to_term(got[0])
    pos = lambda x: tm.lt(const(0), x)
    hyp = tm.land_all([pos(old), tm.lt(f["safety"], const(1)), tm.lt(f["factormin"], f["safety"]), tm.le(const(1), f["factormax"])])
    if dtmin and dtmax: hyp = tm.land(hyp, tm.le(f["dtmin"], f["dtmax"]))
    nrm = lambda v, a: v.draw(v._opaque(NORM, a), "pos")
    imp = lambda n, g, c, what: ck.implies(f"{nm}.{n}", w, tm.land(hyp, g), c, what)
    imp("rejected-step-shrinks", tm.lnot(keep), (tm.lor(tm.lt(dt, old), tm.le(dt, f["dtmin"])) if dtmin else tm.lt(dt, old)), "a rejected step is retried with a step that is not smaller")
    up = old * f["factormax"]
    imp("growth-limited", tm.TRUE, tm.lor(tm.le(dt, up), tm.le(dt, f["dtmin"])) if dtmin else tm.le(dt, up), "the step size grows by more than the configured factor")
    lo = old * app("min", const(1), f["factormin"])
    imp("shrink-limited", tm.TRUE, tm.lor(tm.le(lo, dt), tm.le(f["dtmax"], dt)) if dtmax else tm.le(lo, dt), "the step size shrinks by more than the configured factor")
    if dtmax and not dtmin: imp("at-most-dtmax", tm.TRUE, tm.le(dt, f["dtmax"]), "the step size exceeds dtmax")
    if dtmax and dtmin: imp("at-most-dtmax", tm.TRUE, tm.le(dt, f["dtmax"]), "the step size exceeds dtmax")
    if dtmin: imp("at-least-dtmin", tm.TRUE, tm.le(f["dtmin"], dt), "the step size falls below dtmin")
    # special values: an infinite error
    small = {k: (lambda x: lambda v, n: x)(x) for k, x in (("pc", 0.2), ("ic", 0.3), ("dc", 0.1))}
    for val, vn in ((math.inf, "infinite"), (math.nan, "nan")):
        d = {NORM: (lambda v: lambda V, a: v)(val), "t0": lambda v, n: 1.0, "t1": lambda v, n: 3.5, **small}
        free = tm.lnot(m) if dtmin else None
        V = tm.special(keep, lambda x: x == 0, seed=ck.seed, doms=d, assume=free)
        ck.require(f"{nm}.{vn}-error-rejected", V is None, w, f"a step with {vn} error is accepted")
        if vn == "nan": continue
        for what, t in (("next start", got[1]), ("next end", got[2]), ("memory", st[0]), ("memory", st[1])):
            V = tm.special(I.to_term(t), lambda x: isinstance(x, float) and math.isfinite(x), seed=ck.seed, doms=d)
            ck.require(f"{nm}.{vn}-error.{what}-finite", V is None, w, f"an {vn} error estimate makes the {what} non-finite")
        V = tm.special(tm.lt(I.to_term(got[2]) - I.to_term(got[1]), t1 - t0) if not dtmin else tm.TRUE, lambda x: x != 0, seed=ck.seed, doms=dict(d, safety=lambda v, n: 0.9, factormin=lambda v, n: 0.2))
        ck.require(f"{nm}.{vn}-error-shrinks", V is None, w, f"an {vn} error does not shrink the step")
    d = {NORM: lambda V, a: 0.0, "t0": lambda v, n: 1.0, "t1": lambda v, n: 3.5, **small}
    for what, t in (("next end", got[2]), ("memory", st[0])):
        V = tm.special(I.to_term(t), lambda x: isinstance(x, float) and math.isfinite(x), seed=ck.seed, doms=d)
        ck.require(f"{nm}.zero-error.{what}-finite", V is None, w, f"a zero error estimate makes the {what} non-finite")


def gradients(ck):
    I, cls, o, f = build(ck, True, True, True, C[2][1], track=True)
    p1, p2, m = tm.sym("p1", "pos"), tm.sym("p2", "pos"), tm.sym("at_dtmin", "bool")
    got, *_ = adapt(ck, I, cls, o, PyTuple([p1, p2, m]))
    w = at(cls, "adapt_step_size")
    data = {"y0", "y1", "z0", "z1", "e0", "e1", "rtol", "atol", "safety", "factormin", "factormax", "order"}
    for n, v in (("next-start", got[1]), ("next-end", got[2])):
        bad = tm.differentiable_symbols(I.to_term(v)) & (data | {"p1", "p2"})
        ck.require(f"gradient.{n}", not bad, w, "a derivative flows from the error estimate into the choice of step size", dict(reaches=sorted(bad)))
    st = [I.to_term(x) for x in I.unpack(got[4], 3)]
    for i in range(2):
        bad = tm.differentiable_symbols(st[i]) & data
        ck.require(f"gradient.state{i}", not bad, w, "a derivative flows from the error estimate into the controller's memory", dict(reaches=sorted(bad)))


def rk_func(I, a, k):
    y = lst(I, a[2])
    return PyTuple([app(f"f{i}", I.to_term(a[1]), *y) for i in range(2)])


def initial(ck):
    for dtmin in (False, True):
        for dtmax in (False, True):
            for given in (True, False):
                I, cls, o, f = build(ck, dtmin, dtmax, True, C[0][1])
                I.hints[tm.sym("terms")] = (ck.repo.cls("ODETerm"), True)
                dt0 = tm.sym("dt0", "pos")
                h = app("selected_step")
                I.opaque["diffrax._step_size_controller.pid._select_initial_step"] = lambda I, a, k: h
                y = state("y")
                r = I.unpack(I.call(I.method(cls, "init", o), [tm.sym("terms"), t0, t1, y, dt0 if given else tm.NONE, tm.sym("args"), Native(rk_func, "func"), tm.sym("order", "pos")], {}), 2)
                ck.use(I)
                w = at(cls, "init")
                nm = f"init dtmin={dtmin} dtmax={dtmax} dt0={given}"
                if given:
                    s = dt0
                    if dtmax: s = app("min", s, f["dtmax"])
                    if dtmin: s = app("max", s, f["dtmin"])
                    ck.equal(nm + ".first-step", w, I.to_term(r[0]), t0 + s, what="the first step is not the requested one clipped to the limits", I=I)
                else:
                    d = I.to_term(r[0]) - t0
                    if dtmax and not dtmin: ck.implies(nm + ".first-step<=dtmax", w, tm.TRUE, tm.le(d, f["dtmax"]), "the automatically chosen first step exceeds dtmax")
                    if dtmin: ck.implies(nm + ".first-step>=dtmin", w, tm.TRUE, tm.le(f["dtmin"], d), "the automatically chosen first step is below dtmin")
                st = [I.to_term(x) for x in I.unpack(r[1], 3)]
                for i, s in enumerate((const(1), const(1), tm.FALSE)):
                    ck.equal(f"{nm}.state{i}", w, st[i], s, what="fresh controller state is not the neutral one", I=I)


def selection(ck):
    """the automatic first step (Hairer, Norsett, Wanner II.4)"""
    I = ck.interp(track_grad=True)
    cls = ck.repo.cls(ctl)
    I.hints[tm.sym("terms")] = (ck.repo.cls("ODETerm"), True)
    f = dict(F); f.update(norm=Native(norm, "norm"), dtmin=tm.NONE, dtmax=tm.NONE, force_dtmin=tm.TRUE, error_order=tm.NONE, pcoeff=const(0), icoeff=const(1), dcoeff=const(0))
    o = I.mkobj(cls, f)
    y = state("y")
    order = tm.sym("order", "pos")
    r = I.unpack(I.call(I.method(cls, "init", o), [tm.sym("terms"), t0, t1, y, tm.NONE, tm.sym("args"), Native(rk_func, "func"), order], {}), 2)
    ck.use(I)
    w = at(cls, "init")
    yl = list(y.items)
    scale = [f["atol"] + app("abs", a) * f["rtol"] for a in yl]
    f0 = [app(f"f{i}", t0, *yl) for i in range(2)]
    d0 = app(NORM, *[a / s for a, s in zip(yl, scale)])
    d1 = app(NORM, *[a / s for a, s in zip(f0, scale)])
    small = tm.lor(tm.lt(d0, const(1e-5)), tm.lt(d1, const(1e-5)))
    h0 = ite(small, const(1e-6), const(0.01) * d0 / ite(small, const(1), d1))
    f1 = [app(f"f{i}", t0 + h0, *[a + h0 * b for a, b in zip(yl, f0)]) for i in range(2)]
    d2 = app(NORM, *[(b - a) / s for a, b, s in zip(f0, f1, scale)]) / h0
    m = app("max", d1, d2)
    h1 = ite(tm.le(m, const(1e-15)), app("max", const(1e-6), h0 * const(1e-3)), tm.power(const(0.01) / m, const(1) / order))
    spec = t0 + app("min", const(100) * h0, h1)
    strip = lambda t: tm.subst_apps(t, {"stop_gradient": lambda a: a})
    ck.equal("automatic-first-step", w, strip(I.to_term(r[0])), spec, what="the automatically selected first step is not the documented one", I=I)
    bad = tm.differentiable_symbols(I.to_term(r[0])) - {"t0"}
    ck.require("automatic-first-step.gradient", not bad, w, "a derivative flows into the automatically selected first step", dict(reaches=sorted(bad)))
    # stochastic terms: a fixed first step, no vector field evaluation
    I2 = ck.interp(); o2 = I2.mkobj(cls, f)
    I2.hints[tm.sym("terms2")] = (ck.repo.cls("MultiTerm"), True)
    called = []
    r = I2.unpack(I2.call(I2.method(cls, "init", o2), [tm.sym("terms2"), t0, t1, y, tm.NONE, tm.sym("args"), Native(lambda I, a, k: called.append(1) or rk_func(I, a, k), "func"), order], {}), 2)
    ck.equal("automatic-first-step.sde", w, I2.to_term(r[0]), t0 + const(0.01), what="the first step for stochastic problems is not the fixed one", I=I2)
    ck.require("automatic-first-step.sde-no-evaluation", not called, w, "evaluates the vector field although no initial step selection is defined for stochastic problems")


def orders(ck):
    for given in (True, False):
        I, cls, o, f = build(ck, False, False, True, C[0][1])
        own = tm.sym("own_order", "pos")
        I.hset(o.uid, dict(I.fields(o), error_order=own if given else tm.NONE))
        so = tm.sym("solver_order", "pos")
        ck.equal(f"error-order given={given}", at(cls, "_get_error_order"), I.call(I.method(cls, "_get_error_order", o), [so], {}), own if given else so,
                 what="an explicitly given error order does not take precedence over the solver's", I=I)
        if not given:
            n = len(I.guards)
            try: I.call(I.method(cls, "_get_error_order", o), [tm.NONE], {})
            except Exception: pass
            g = tm.lor_all([x.cond for x in I.guards[n:]])
            ck.equal("error-order.unknown-refused", at(cls, "_get_error_order"), g, tm.TRUE, what="an unknown error order is not refused", I=I)
    I, cls, o, f = build(ck, False, False, True, C[0][1])
    y0 = state("y")
    try: I.call(I.method(cls, "adapt_step_size", o), [t0, t1, y0, state("z"), tm.sym("args"), tm.NONE, tm.sym("order", "pos"), PyTuple([tm.ONE, tm.ONE, tm.FALSE])], {})
    except Exception: pass
    ck.equal("missing-error-estimate-refused", at(cls, "adapt_step_size"), tm.lor_all([g.cond for g in I.guards if g.kind == "raise"]), tm.TRUE,
             what="a solver without error estimate is not refused", I=I)


def run(ck):
    ck.attempt("wrap", lambda: wrap(ck))
    for dtmin in (False, True):
        for dtmax in (False, True):
            for force in ((True, False) if dtmin else (True,)):
                for cn, co in C:
                    nm = f"{cn} dtmin={int(dtmin)} dtmax={int(dtmax)} force={int(force)}"
                    ck.attempt(nm, lambda: adaptation(ck, nm, dtmin, dtmax, force, co))
    ck.attempt("gradients", lambda: gradients(ck))
    ck.attempt("init", lambda: initial(ck))
    ck.attempt("select", lambda: selection(ck))
    ck.attempt("orders", lambda: orders(ck))


def wrap(ck):
    I, cls, o, f = build(ck, True, True, False, C[2][1])
    r = I.call(I.method(cls, "wrap", o), [tm.sym("direction", ("choice", (1, -1)))], {})
    for k in f:
        if k == "norm": continue
        ck.equal(f"wrap.{k}", at(cls, "wrap"), I.getattr(r, k), f[k], what="reversing time changes the controller", I=I)
