"""C22: implicit stages are accepted only when converged to the requested tolerances."""
import itertools, math
from fractions import Fraction
from sa.framework import unmodelled
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, lst, state
from sa.interp import Unsupported
from checks import c18
from checks import loopkit as lk
from checks.solvekit import Solve
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of the chord iteration's step and stopping rule, compared with their specification; exhaustive evaluation of the extracted rule on IEEE special values; constant propagation of tolerances through the solve's set-up"
EXPLANATION = ("The iteration's start, step and stopping rule are extracted with the linear solver and the function opaque. The step is compared with a fixed-linearisation Newton step, the stopping rule with the specified partition of "
               "all states into continue, success and failure (as the driving loop of optimistix reads the returned pair), for both precisions and on zero, infinite and not-a-number sizes. Tolerances are propagated through "
               "diffeqsolve for every subset left open, every wrapper of solver and controller, and compared with the controller's or the given ones.")
ASSUMPTIONS = ["optimistix continues iterating exactly while the stopping rule says not to terminate and reports success, treats an unterminated successful state at the step limit as failure, and checks the iterate for finiteness",
               "lineax.linear_solve(operator, b, solver, state) solves operator x = b"]
FLOOR = 2500
OK, DIV = tm.enum("RESULTS.successful"), tm.enum("RESULTS.nonlinear_divergence")
FAILS = ("RESULTS.successful", "RESULTS.successful", "RESULTS.singular", "RESULTS.breakdown")
S = lambda n, s="real": tm.sym(n, s)


class H:
    def __init__(self, ck, prec=15):
        self.ck = ck
        I = self.I = ck.interp(); lk.models(I)
        I.scalar_leaves = True
        self.cls = ck.repo.cls("VeryChord")
        self.ls = S("linear_solver")
        I.user_models["jax.numpy.finfo"] = lambda I, a, k: I.mkobj(None, {"precision": const(prec), "eps": S("eps", "pos")})
        I.user_models["jax.lax.stop_gradient"] = lambda I, a, k: a[0]
        I.user_models["RESULTS.promote"] = lambda I, a, k: a[0]
        self.norms = []
        def norm(I, a, k):
            x = lst(I, a[0], 2); self.norms.append(x)
            return app("norm", *x)
        self.f = dict(rtol=S("rtol", "pos"), atol=S("atol", "pos"), norm=Native(norm, "norm"), kappa=S("kappa", "pos"), linear_solver=self.ls)
        self.linit = []
        def linit(I, a, k):
            self.linit.append((list(a), dict(k))); return app("linear_init", *[I.to_term(x) for x in a])
        I.attr_models[(self.ls, "init")] = Native(linit, "linear_solver.init")
        self.fcalls = []
        def fn(I, a, k):
            y = lst(I, a[0], 2); self.fcalls.append(y)
            return PyTuple([PyTuple([app("fn0", *y, I.to_term(a[1])), app("fn1", *y, I.to_term(a[1]))]), app("aux", *y, I.to_term(a[1]))])
        self.fn = Native(fn, "fn")
        self.solves = []
        def jac(I, a, k):
            d = dict(zip(("fn", "x", "args", "tags"), a)); d.update(k)
            u = PyTuple([S("u0"), S("u1")])
            v = I.call(d["fn"], [u, d.get("args", tm.NONE)], {})
            return app("jacobian", I.to_term(v), I.to_term(d["x"]), I.to_term(d.get("tags", tm.NONE)))
        I.user_models["lineax.JacobianLinearOperator"] = jac
        I.user_models["lineax.linearise"] = lambda I, a, k: app("linearise", I.to_term(a[0]))
        def lsolve(I, a, k):
            d = dict(zip(("operator", "vector", "solver"), a)); d.update(k)
            self.solves.append(d)
            b = lst(I, d["vector"], 2)
            x = PyTuple([app(f"solve{i}", I.to_term(d["operator"]), *b) for i in range(2)])
            return I.mkobj(None, {"value": x, "result": S("linear_result"), "stats": S("lstats"), "state": S("lstate")})
        I.user_models["lineax.linear_solve"] = lsolve
        self.o = I.mkobj(self.cls, self.f)
        self.st = ck.repo.cls("_VeryChordState")
        self.y = PyTuple([S("y0"), S("y1")])
        self.args = S("args")

    def w(self, m): return at(self.cls, m)

    def state(self, **over):
        d = dict(linear_state=PyTuple([S("jac"), S("lin_state")]), diff=PyTuple([S("pd0"), S("pd1")]), diffsize=S("diffsize", "pos"), diffsize_prev=S("prev", "pos"), result=S("result", ("enum", FAILS)), step=S("step", "nat"))
        d.update(over)
        return self.I.mkobj(self.st, d)

    def call(self, m, *a, **k): 
        r = self.I.call(self.I.method(self.cls, m, self.o), list(a), k); self.ck.use(self.I); return r


def init(ck):
    def go():
        h = H(ck); I = h.I
        r = h.call("init", h.fn, h.y, h.args, I.mkdict({}), S("f_struct"), S("aux_struct"), S("tags"))
        w = h.w("init")
        E = lambda q, g, s, what: ck.equal("init." + q, w, I.to_term(g), I.to_term(s), I=I, what=what)
        jac, lin = I.unpack(I.getattr(r, "linear_state"), 2)
        u = [S("u0"), S("u1")]
        want = app("linearise", app("jacobian", I.to_term(PyTuple([app("fn0", *u, h.args), app("fn1", *u, h.args)])), I.to_term(h.y), S("tags")))
        E("jacobian", jac, want, "the linearisation is not that of the function at the given point")
        E("linear_state", lin, app("linear_init", want), "the linear solver's state is not that of the linearisation")
        E("step", I.getattr(r, "step"), const(0), "the iteration does not start at zero")
        E("result", I.getattr(r, "result"), OK, "the iteration does not start successful")
        E("diffsize", I.getattr(r, "diffsize"), tm.INF if hasattr(tm, "INF") else const(math.inf), "the first change is not infinite: the iteration could stop at once")
    ck.attempt("init", go)
    def given():
        h = H(ck); I = h.I
        st = h.state()
        r = h.call("init", h.fn, h.y, h.args, I.mkdict({"init_state": st}), S("f_struct"), S("aux_struct"), S("tags"))
        ck.require("init.given-state", r is st, h.w("init"), "a given linearisation is not the one used")
        ck.require("init.given-state.no-linearisation", not h.linit and not h.fcalls, h.w("init"), "a linearisation is computed although one was given")
    ck.attempt("init.given", given)


def step(ck):
    def go():
        h = H(ck); I = h.I; w = h.w("step")
        s = h.state()
        r = h.call("step", h.fn, h.y, h.args, I.mkdict({}), s, S("tags"))
        ny, ns, aux = I.unpack(r, 3)
        y = [S("y0"), S("y1")]
        E = lambda q, g, sp, what: ck.equal("step." + q, w, I.to_term(g), I.to_term(sp), I=I, what=what)
        f = [app("fn0", *y, h.args), app("fn1", *y, h.args)]
        d = [app(f"solve{i}", S("jac"), *f) for i in range(2)]
        new = [a - b for a, b in zip(y, d)]
        for i, (g, sp) in enumerate(zip(lst(I, ny, 2), new)): E(f"y{i}", g, sp, "the iterate does not take a Newton step with the fixed linearisation")
        sc = [a / (h.f["atol"] + h.f["rtol"] * app("abs", b)) for a, b in zip(d, new)]
        E("diffsize", I.getattr(ns, "diffsize"), app("norm", *sc), "the change is not measured in the given norm relative to atol + rtol*|y|")
        E("diffsize_prev", I.getattr(ns, "diffsize_prev"), S("diffsize", "pos"), "the previous change is not kept")
        for i, (g, sp) in enumerate(zip(lst(I, I.getattr(ns, "diff"), 2), d)): E(f"diff{i}", g, sp, "the change kept is not the one made")
        E("step", I.getattr(ns, "step"), S("step", "nat") + const(1), "iterations are not counted one by one")
        E("result", I.getattr(ns, "result"), S("linear_result"), "a failure of the linear solve is lost")
        a, b = I.unpack(I.getattr(ns, "linear_state"), 2)
        E("jacobian", a, S("jac"), "the linearisation is not kept fixed"); E("linear_state", b, S("lin_state"), "the linearisation is not kept fixed")
        E("aux", aux, app("aux", *y, h.args), "auxiliary output is not that of the current iterate")
        if ck.require("step.one-solve", len(h.solves) == 1, w, "a step does not solve exactly one linear system"):
            q = h.solves[0]
            E("solve.operator", q["operator"], S("jac"), "the linear system is not the linearisation")
            E("solve.solver", q.get("solver", tm.NONE), h.ls, "the linear system is not solved with the given linear solver")
            E("solve.state", q.get("state", tm.NONE), S("lin_state"), "the linear solver's state is not that of the linearisation")
            E("solve.throw", q.get("throw", tm.TRUE), tm.FALSE, "a singular linear system raises instead of rejecting the step")
        ck.require("step.one-evaluation", len(h.fcalls) == 1, w, f"the function is evaluated {len(h.fcalls)} times per iteration")
    ck.attempt("step", go)


def spec_rule(prec, d, p, st, res, rtol, kappa):
    two = tm.le(const(2), st)
    small = tm.land(tm.lt(d * rtol, const(Fraction(10) ** (2 - prec))), tm.lt(d, kappa))
    rate = d / p
    fac = d * rate / (const(1) - rate)
    div = tm.lt(const(2), rate)
    conv = tm.land(tm.lt(const(0), fac), tm.lt(fac, kappa))
    lin = tm.lnot(tm.eq(res, OK))
    succ = tm.land_all([tm.lnot(lin), two, tm.lor(small, conv)])
    fail = tm.lor(lin, tm.land_all([two, tm.lnot(small), div]))
    undecided = tm.land_all([two, tm.lnot(lin), tm.lnot(small), tm.lnot(div), tm.lnot(conv)])     # neither converged nor diverged: go on
    return succ, fail, ite(lin, res, DIV), undecided


def ieee_rule(prec, d, p, st, rtol, kappa):
    """(success, failure) on IEEE numbers, linear solves successful"""
    import numpy as np
    with np.errstate(all="ignore"):
        d, p = np.float64(d), np.float64(p)
        rate = d / p
        fac = d * rate / (1 - rate)
        small = bool(d * rtol < 10.0 ** (2 - prec)) and bool(d < kappa)
        div = not np.isfinite(rate) or rate > 2
        conv = bool(fac > 0) and bool(fac < kappa)
    if st < 2: return False, False
    if small: return True, False
    if div: return False, True
    return bool(conv), False if conv else None


MAG = tuple(Fraction(m, 97) * Fraction(10) ** e for e in range(-17, 6) for m in (131, 587))


def rule(ck):
    for prec in (6, 15):
        def go():
            h = H(ck, prec); I = h.I; w = h.w("terminate")
            I.user_models["jax.numpy.isfinite"] = lambda I, a, k: tm.TRUE
            h.f["rtol"], h.f["kappa"] = S("rtol", ("choice", tuple(Fraction(1, 10 ** e) for e in (2, 3, 5, 8, 11)))), S("kappa", ("choice", (Fraction(1, 100), Fraction(1, 7))))
            h.o = I.mkobj(h.cls, h.f)
            s = h.state(diffsize=S("diffsize", ("choice", MAG)), diffsize_prev=S("prev", ("choice", MAG)), step=S("step", ("choice", (0, 1, 2, 2, 3, 3, 4, 7))))
            d, p, st, res = (I.getattr(s, q) for q in ("diffsize", "diffsize_prev", "step", "result"))
            done, out = (I.to_term(x) for x in I.unpack(h.call("terminate", h.fn, h.y, h.args, I.mkdict({}), s, S("tags")), 2))
            done, isok = I.truthy(done), tm.eq(out, OK)
            succ, fail, code, und = spec_rule(prec, d, p, st, res, h.f["rtol"], h.f["kappa"])
            if prec == 15:
                ck.equal("rule.keeps-iterating", w, tm.land(und, tm.lor(done, tm.lnot(isok))), tm.FALSE, I=I, n=900, what="the iteration is given up at its second iterate although it neither diverged, failed nor reached the step limit")
            near = tm.land(tm.lt(d, p * const(3)), tm.lt(p, d * const(1000)))
            for q, hyp in (("any", tm.TRUE), ("contracting", near)):
                E = lambda n, g, sp, what: ck.equal(f"rule.{prec}.{q}.{n}", w, g, sp, I=I, what=what, n=900, assume=hyp)
                E("success", tm.land(done, isok), succ, "the iterate is accepted without having converged, or refused although it has")
                ck.equal(f"rule.{prec}.{q}.failure", w, tm.lnot(isok), fail, I=I, n=900, assume=tm.land(hyp, tm.lnot(und)), what="the iteration is given up although it neither diverged nor failed, or continued although it did")
                E("code", ite(fail, out, OK), ite(fail, code, OK), "the reason of a failure is not reported")
        ck.attempt(f"rule.{prec}", go)
        def ieee():
            h = H(ck, prec); I = h.I; w = h.w("terminate")
            s = h.state(result=OK)
            done, out = (I.to_term(x) for x in I.unpack(h.call("terminate", h.fn, h.y, h.args, I.mkdict({}), s, S("tags")), 2))
            done, isok = I.truthy(done), tm.eq(out, OK)
            if unmodelled(done) or unmodelled(isok): raise Unsupported("unmodelled in the stopping rule")
            both = app("tuple", tm.land(done, isok), tm.lnot(isok))
            vals = [0.0, 1e-300, 1e-14, 2.1e-11, 1e-5, 3e-3, 0.4, 1.0, 3.0, 1e8, math.inf, math.nan]
            for dv, pv, sv, rt in itertools.product(vals, vals, (0, 1, 2, 5), (1e-3, 1e-6)):
                dm = {"diffsize": lambda v, n: dv, "prev": lambda v, n: pv, "step": lambda v, n: float(sv), "rtol": lambda v, n: rt, "kappa": lambda v, n: 1e-2}
                es, ef = ieee_rule(prec, dv, pv, sv, rt, 1e-2)
                for n, t, e in (("success", tm.land(done, isok), es), ("failure", tm.lnot(isok), ef)):
                    if e is None: continue         # rule.keeps-iterating
                    V = tm.special(t, lambda x: bool(x) == e, n=1, seed=ck.seed, doms=dm)
                    ck.require(f"rule.{prec}.{n}({dv},{pv},{sv},{rt})", V is None, w, f"change {dv} after {pv} (in units of the tolerance) at iteration {sv}, rtol={rt}: should {'' if e else 'not '}count as {n}")
        ck.attempt(f"rule.{prec}.special", ieee)


def post(ck):
    def go():
        h = H(ck); I = h.I
        r = h.call("postprocess", h.fn, h.y, S("aux"), h.args, I.mkdict({}), h.state(), S("tags"), OK)
        y, aux, _ = I.unpack(r, 3)
        ck.equal("post.y", h.w("postprocess"), I.to_term(y), I.to_term(h.y), I=I, what="the iterate returned is not the one accepted")
        ck.equal("post.aux", h.w("postprocess"), I.to_term(aux), S("aux"), I=I, what="the auxiliary output returned is not that of the accepted iterate")
    ck.attempt("post", go)


# ------------------------------------------------------------------ tolerances
def sentinel(I):
    r = I.global_value(I.repo.modules["diffrax._root_finder._with_tols"], "use_stepsize_tol")
    return r["use_stepsize_tol"] if isinstance(r, dict) else r


def innermost(I, s):
    while isinstance(s, Obj) and "root_finder" not in I.fields(s): s = I.getattr(s, "solver")
    return I.getattr(s, "root_finder")


def tolerances(ck):
    T3 = ("rtol", "atol", "norm")
    for ctrl in ("PID", "Clip(PID)", "Clip(Clip(PID))", "Constant", "StepTo"):
        for mask in itertools.product((0, 1), repeat=3):
            if ctrl in ("Constant", "StepTo") and any(mask): continue
            for scls in ("ImplicitEuler", "Kvaerno3", "Kvaerno5", "KenCarp4", "Sil3", "Half(ImplicitEuler)", "Half(Half(Kvaerno3))"):
                nm = f"tolerances.{scls}.{ctrl}.unset={''.join(map(str, mask))}"
                def go():
                    St = Solve(ck); I = St.I
                    c = c18.mkctrl(St, ctrl)
                    rf = I.mkobj(ck.repo.cls("VeryChord"), dict({n: sentinel(I) if m else S("own_" + n) for n, m in zip(T3, mask)}, kappa=S("own_kappa"), linear_solver=S("own_linear")))
                    sol = St.mksolver(scls.split("(")[-1].rstrip(")"), root_finder=rf)
                    for _ in range(scls.count("(")): sol = St.mksolver("HalfSolver", solver=sol)
                    St.call(subs=[lambda I: lk.Sub(I, "A", t1=True)], solver=sol, controller=c)
                    w = f"{St.mod.path}:{St.node.lineno} {St.node.name}"
                    if not ck.require(nm + ".one-solve", len(St.loops) == 1, w, "the solve is not run exactly once"): return
                    got = innermost(I, St.loops[0]["solver"])
                    for n, m in zip(T3, mask):
                        want = I.getattr(c, n) if m else S("own_" + n)
                        ck.equal(f"{nm}.{n}", w, I.to_term(I.getattr(got, n)), I.to_term(want), I=I, what=f"an unspecified {n} is not the step size controller's" if m else f"a given {n} is overridden")
                    for n in ("kappa", "linear_solver"):
                        ck.equal(f"{nm}.{n}", w, I.to_term(I.getattr(got, n)), I.to_term(I.getattr(rf, n)), I=I, what="something other than the tolerances of the root finder is changed")
                ck.attempt(nm, go)


def wrapper(ck):
    R = ck.repo
    mod = R.modules["diffrax._root_finder._with_tols"]
    def mk(I):
        I.user_models["builtins.hasattr"] = lambda I, a, k, o=I.user_models.get("builtins.hasattr"): tm.FALSE if isinstance(a[0], Ext) else (o(I, a, k) if o else (_ for _ in ()).throw(Unsupported("hasattr")))
        return I.call(I.global_value(mod, "with_stepsize_controller_tols"), [R.cls("VeryChord")], {})
    for kw in ({}, {"kappa": S("own_kappa")}, {"linear_solver": S("own_ls"), "kappa": S("own_kappa")}):
        nm = f"unspecified.{'+'.join(kw) or 'plain'}"
        def go():
            I = ck.interp(); lk.models(I); I.scalar_leaves = True
            o = I.call(mk(I), [], dict(kw))
            ck.use(I)
            w = f"{mod.path} with_stepsize_controller_tols"
            for n in ("rtol", "atol", "norm"):
                ck.equal(f"{nm}.{n}", w, I.to_term(I.getattr(o, n)), I.to_term(sentinel(I)), I=I, what=f"{n} is not marked as to be taken from the controller")
            for n, v in kw.items(): ck.equal(f"{nm}.{n}", w, I.to_term(I.getattr(o, n)), v, I=I, what=f"{n} is not the one given")
        ck.attempt(nm, go)


def defaults(ck):
    """every implicit solver's default root finder takes its tolerances from the controller"""
    R = ck.repo
    for cls in sorted((c for c in R.classes.values() if c.issub(R.cls("AbstractImplicitSolver")) and not c.is_abstract()), key=lambda c: c.name):
        f = cls.all_fields().get("root_finder")
        if f is None: continue
        nm = f"default.{cls.name}"
        def go():
            I = ck.interp(); lk.models(I); I.scalar_leaves = True
            seen = []
            def wt(I, a, k):
                return Native(lambda I, b, q: (seen.append((a, b, q)), S("default_finder"))[1], "make")
            I.opaque["diffrax._root_finder._with_tols.with_stepsize_controller_tols"] = wt
            o = I.call(cls, [], {})
            ck.use(I)
            ck.equal(nm, at(cls), I.to_term(I.getattr(o, "root_finder")), S("default_finder"), I=I, what="the default root finder does not take its tolerances from the step size controller")
        ck.attempt(nm, go)


def run(ck):
    init(ck); step(ck); rule(ck); post(ck)
    tolerances(ck); wrapper(ck); defaults(ck)
