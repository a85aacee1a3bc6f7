"""C17: results and failures."""
import re, itertools
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
from sa.interp import Unsupported
from checks.loopkit import *
from checks import solvekit as sk
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of every place where a result is produced, combined, dropped or raised (stages, solvers, controllers, loop body, after the loop, diffeqsolve), and value numbering against 'the first failure is kept'"
EXPLANATION = ("The result of a step, of a controller and of the running solve are symbols ranging over all outcomes; the loop body, the code after the loop and the end of diffeqsolve are extracted and compared with the rule that the first failure is "
               "kept, that rejected steps do not count, and that success needs the end time or an event. The result algebra is evaluated on every pair of outcomes. The producers of failures (implicit stages, minimum step size, rejected-step store, root find) are decided with the harnesses of the properties they belong to.")
ASSUMPTIONS = ["outcomes range over the members used by the library", "the bounded while loop runs its body while its condition holds, at most max_steps times"]
FLOOR = 170
ALL = ["successful", "event_occurred", "max_steps_reached", "dt_min_reached", "max_steps_rejected", "internal_error", "nonlinear_divergence", "nonlinear_max_steps_reached", "singular"]
R = lambda n: tm.enum("RESULTS." + n)
MAXED = R("max_steps_reached")


def algebra(ck):
    m = ck.repo.modules["diffrax._solution"]
    I = ck.interp(); I.scalar_leaves = True
    fr = I.modframe(m)
    import ast
    fns = {n.name: n for n in m.tree.body if isinstance(n, ast.FunctionDef)}
    w = lambda n: f"{m.path}:{fns[n].lineno} {n}"
    call = lambda n, *a: I.to_term(I.call(I.mkfunc(fns[n], None, m, None), list(a), {}))
    for n in ALL:
        ck.equal(f"is_successful({n})", w("is_successful"), call("is_successful", R(n)), const(n == "successful"), what="success is misjudged", I=I)
        ck.equal(f"is_event({n})", w("is_event"), call("is_event", R(n)), const(n == "event_occurred"), what="an event is misjudged", I=I)
        ck.equal(f"is_okay({n})", w("is_okay"), call("is_okay", R(n)), const(n in ("successful", "event_occurred")), what="a failure counts as a normal end (or the converse)", I=I)
    for a, b in itertools.product(ALL, ALL):
        fail = lambda x: x not in ("successful", "event_occurred")
        want = a if fail(a) else b if fail(b) else a if a != "successful" else b
        ck.equal(f"update_result({a},{b})", w("update_result"), call("update_result", R(a), R(b)), R(want), what="combining results loses the first failure (or an event)", I=I)
    ck.use(I)


def step(ck, nm, event=None, kind="traced", jump="traced"):
    K = Kit(ck, subs=[lambda I: Sub(I, "A", t1=True)], events=event, result=kind)
    I = K.I
    sd = None
    if kind == "static":
        K.run(K.mk(K.sym_state("i_", result=SUCC)), K.mk(K.sym_state("f_"))); K.clear()
        sd = K.sym_state("s_", result=SUCC)
        s = K.mk(sd)
        cond = I.truthy(I.call(K.cap["cond_fun"], [s], {})); new = I.call(K.cap["body_fun"], [s], {})
    else: sd, new, cond = K.one_step()
    w = where(K)
    E = lambda n, g, s, what, **kk: ck.equal(f"{nm}.{n}", w, I.to_term(g), s, what=what, I=I, doms=DOMS, **kk)
    r = ite(is_okay(sd["result"]), ite(K.keep, K.sres, SUCC), sd["result"])
    r = ite(is_okay(r), K.cres, r)
    if event is not None:
        kinds = K.events.kinds
        from checks.c15 import triggers
        had = tm.lor_all([triggers(kd, d, K.events.old(i), K.events.val(i, None, None, None)) for i, (kd, d) in enumerate(zip(kinds, K.events.dirs))])
        r = ite(tm.land(is_okay(r), had), EVT, r)
    g = I.to_term(field(I, new, "result"))
    E("first-failure-kept", g, r, "the first failure is not kept (a later result, or an event, replaces it; or a rejected step's failure is reported)")
    fail = lambda x: tm.lnot(is_okay(x))
    ck.implies(f"{nm}.failure-is-final", w, fail(sd["result"]), tm.eq(g, sd["result"]), "a reported failure is overwritten by a later step", doms=DOMS)
    ck.implies(f"{nm}.accepted-failure-reported", w, tm.land_all([is_okay(sd["result"]), K.keep, fail(K.sres)]), tm.eq(g, K.sres), "the failure of an accepted step is not reported", doms=DOMS)
    ck.implies(f"{nm}.controller-failure-reported", w, tm.land_all([is_okay(sd["result"]), tm.lor(tm.lnot(K.keep), is_okay(K.sres)), fail(K.cres)]), tm.eq(g, K.cres), "the failure of the step size controller is not reported", doms=DOMS)
    E("continues-iff", cond, tm.land(tm.lt(sd["tprev"], K.t1), is_succ(sd["result"])), "the solve continues after a failure, or stops before the end without one")
    E("step-limit", K.cap.get("max_steps", tm.NONE), K.max_steps, "the step limit is not applied")
    for i, (got, e) in enumerate(zip(lst(I, K.adapt_calls[0][5]), K.yerr.items)):
        E(f"nan-error{i}", got, ite(app("isnan", e), tm.INF, e), "a NaN error estimate is not treated as an infinite error")


def after(ck, nm, events=None, controller=None):
    K = Kit(ck, subs=[lambda I: Sub(I, "A", t1=True)], events=events, controller=controller)
    I = K.I
    f = K.sym_state("f_")
    r = K.run(K.mk(K.sym_state("i_")), K.mk(f))
    w = where(K)
    res = f["result"]
    if events is not None and K.events.rf is not tm.NONE:
        had = tm.lor_all([K.events.oldmask(i) for i in range(len(K.events.kinds))])
        res = ite(tm.land_all([had, tm.lnot(tm.eq(K.root_res, SUCC)), is_okay(f["result"])]), app("promote", K.root_res), res)
    run_ = tm.lt(f["tprev"], K.t1) if controller != "StepTo" else tm.lt(f["num_steps"], const(K.stepto_n - 1))
    unfinished = tm.land(run_, is_succ(f["result"]))
    ck.equal(nm + ".unfinished", w, I.to_term(field(I, r[0], "result")), ite(unfinished, MAXED, res), what="success is reported although the end time was not reached, or a failure is lost", I=I, doms=DOMS)


def final(ck):
    """diffeqsolve: what is raised, what is returned"""
    for throw in (True, False):
        for event in (False, True):
            nm = f"diffeqsolve throw={throw}{' event' if event else ''}"
            def go():
                S = sk.Solve(ck)
                I = S.I
                box = {}
                def fin(I, k):
                    f = sk.final_state(I, S.subs, event=event); box.update(f)
                    return I.mkobj(I.repo.cls("State"), f)
                sol = S.call(subs=[lambda I: Sub(I, "A", t1=True)], final=fin, throw=throw, event=Events(I, ["float", "bool"], [None, None], False).obj if event else None)
                w = sk.where(S)
                gs = [g for g in I.guards if g.exc == "result"]
                bad = tm.lnot(is_okay(box["result"]))
                got = tm.lor_all([g.cond for g in gs]) if gs else tm.FALSE
                ck.equal(nm + ".raised-iff-failed", w, got, bad if throw else tm.FALSE, what="an exception is not raised exactly when the solve failed and the user did not opt out", I=I)
                if throw: ck.require(nm + ".raises-result", gs and all(g.msg == tm.show(box["result"]) for g in gs), w, "the exception raised is not that of the reported result")
                ck.equal(nm + ".result", w, I.to_term(I.getattr(sol, "result")), box["result"], what="the result returned is not that of the solve", I=I)
                st = I.hget(I.getattr(sol, "stats").uid)
                for n, s in (("num_steps", box["num_steps"]), ("num_accepted_steps", box["num_accepted_steps"]), ("num_rejected_steps", box["num_rejected_steps"]), ("max_steps", const(7))):
                    ck.equal(f"{nm}.stats.{n}", w, I.to_term(st.get(n, tm.sym("missing"))), s, what="the statistics are not those of the solve", I=I)
                st0 = S.loops[0]["init_state"]
                if not event: ck.equal(nm + ".initial-result", w, I.to_term(I.getattr(st0, "result")), SUCC, what="the solve does not start out successful", I=I)
                for n in ("num_steps", "num_accepted_steps", "num_rejected_steps"): ck.equal(f"{nm}.initial-{n}", w, I.to_term(I.getattr(st0, n)), const(0), what="counts do not start at zero", I=I)
                ck.equal(nm + ".step-limit", w, I.to_term(S.loops[0]["max_steps"]), const(7), what="the step limit is not passed on", I=I)
                ck.use(I)
            ck.attempt(nm, go)


def part(ck, fn, keep, *mods):
    """run the obligations of another property's harness, keep those about results"""
    sub = type(ck)(ck.pid, ck.root, ck.tier, ck.seed)
    fn(sub)
    k = lambda n: re.search(keep, n)
    ck.ok += [x for x in sub.ok if k(x[0])]
    ck.bad += [x for x in sub.bad if k(x["obligation"])]
    ck.und += [x for x in sub.und if k(x[0])]
    ck.functions |= sub.functions


def producers(ck):
    from checks import c04, c05, c10, c11, c12, c15
    keep = r"result|no-throw|y_error|max-steps|root-finder|\.solve|implicit-equation"
    cfgs = [("ESDIRK", "AbstractESDIRK", [dict(implicit="esdirk", fsal=True, ssal=True)], None), ("SDIRK", "AbstractSDIRK", [dict(implicit="sdirk", fsal=False, ssal=True)], None),
            ("DIRK", "AbstractDIRK", [dict(implicit="dirk", fsal=False, ssal=False)], None), ("ERK", "AbstractERK", [dict(fsal=True, ssal=True)], None),
            ("IMEX", "AbstractRungeKutta", [dict(fsal=True, ssal=True), dict(implicit="esdirk", fsal=True, ssal=True)], "second_stage")]
    def stages(s):
        for name, base, tabs, jac in cfgs:
            for exp in (False, True):
                fs = all(t["fsal"] for t in tabs) and not exp
                for first, jump in ([(True, False), (False, False)] if fs else [(None, False)]):
                    nm = f"{name}{'.expensive' if exp else ''}.first={first}"
                    s.attempt(nm, lambda: c04.config(s, nm, base, [dict(t) for t in tabs], exp, jac, 3, first, jump))
    part(ck, stages, keep)
    def solvers(s):
        for n, f in c05.ALL: s.attempt(n, lambda f=f: f(s))
    part(ck, solvers, r"result|no-throw|max-steps|root-finder|^(ImplicitEuler|HalfSolver)\.error-estimate")
    def dtmin(s):
        for force in (False, True):
            for dtmax in (False, True):
                nm = f"pid force_dtmin={force} dtmax={dtmax}"
                s.attempt(nm, lambda: c10.adaptation(s, nm, True, dtmax, force, c10.C[1][1]))
        s.attempt("pid no dtmin", lambda: c10.adaptation(s, "pid no dtmin", False, False, True, c10.C[1][1]))
    part(ck, dtmin, r"\.result")
    def store(s):
        R_ = c11.names("r", 3)
        for fill in range(4): s.attempt(f"rejected-store free={fill}", lambda: c11.case(s, f"rejected-store free={fill}", None, 0, None, 0, R_, fill, None))
        s.attempt("clip no store", lambda: c11.case(s, "clip no store", c11.names("s", 3), 0, c11.names("j", 3), 0, None, 0, None))
    part(ck, store, r"\.result")


def run(ck):
    ck.attempt("algebra", lambda: algebra(ck))
    ev = lambda kinds, dirs, rf, sym: (lambda I: Events(I, kinds, dirs, rf, sym))
    ck.attempt("step", lambda: step(ck, "step"))
    ck.attempt("step.static", lambda: step(ck, "step.static", kind="static"))
    for nm, kinds, dirs in (("float", ["float"], [None]), ("bool", ["bool"], [None]), ("two", ["float", "bool"], [True, None])):
        ck.attempt("step.event." + nm, lambda: step(ck, "step.event." + nm, ev(kinds, dirs, False, True)))
        ck.attempt("after.event." + nm, lambda: after(ck, "after.event." + nm, ev(kinds, dirs, False, False)))
        ck.attempt("after.root." + nm, lambda: after(ck, "after.root." + nm, ev(kinds, dirs, True, False)))
    ck.attempt("after", lambda: after(ck, "after"))
    ck.attempt("after.StepTo", lambda: after(ck, "after.StepTo", controller="StepTo"))
    final(ck)
    producers(ck)
