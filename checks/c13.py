"""C13: the per-step state transition of the integration loop."""
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
from sa.interp import Unsupported
from checks.loopkit import *
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of the loop body and loop condition over an arbitrary state (inductive step), value numbering against the accept/reject transition, and validity of the time bounds on the extracted graph"
EXPLANATION = ("`loop` is abstractly interpreted with an arbitrary solver, controller, save request, event set and progress meter; its while loop is cut, and the body and condition are extracted as functions of an "
               "arbitrary symbolic state. Under rejection every field must have the value number it had before; under acceptance every field must be that of the new time; the bounds on time are validities of the extracted graph.")
ASSUMPTIONS = ["adjacent floating-point numbers are modelled as x +- ulp", "output buffers of 4 slots at every index", "states with 2 leaves", "the bounded while loop of equinox runs its body while its condition holds, at most max_steps times"]
FLOOR = 300


def configs():
    q = [tm.sym("q0", "real"), tm.sym("q0", "real") + tm.sym("qgap", "pos")]
    A = lambda I: Sub(I, "A", t0=True, t1=True, steps=1)
    A3 = lambda I: Sub(I, "A", steps=3)
    B = lambda I: Sub(I, "B", ts=q)
    ev = lambda I: Events(I, ["float", "bool"], [None, None], True)
    yield "plain", dict(subs=[lambda I: Sub(I, "A", t1=True)])
    yield "dense", dict(subs=[], dense=True)
    yield "steps", dict(subs=[A])
    yield "ts+steps3+dense", dict(subs=[B, A3], dense=True)
    yield "event+ts", dict(subs=[B], events=ev)
    yield "static-jump", dict(subs=[A], jump="static")
    yield "static-result", dict(subs=[A], result="static")
    yield "StepTo", dict(subs=[A], controller="StepTo")


def transition(ck, nm, kw):
    K = Kit(ck, **kw)
    I = K.I
    sd = None
    if kw.get("jump") == "static" or kw.get("result") == "static":
        # the initial state then holds trace-time constants
        i = K.sym_state("i_", result=SUCC if kw.get("result") == "static" else None, made_jump=tm.FALSE if kw.get("jump") == "static" else None)
        K.run(K.mk(i), K.mk(K.sym_state("f_"))); K.clear()
        sd = K.sym_state("s_", result=SUCC if kw.get("result") == "static" else None, made_jump=tm.FALSE if kw.get("jump") == "static" else None)
        s = K.mk(sd)
        cond = I.truthy(I.call(K.cap["cond_fun"], [s], {})); new = I.call(K.cap["body_fun"], [s], {})
    else:
        sd, new, cond = K.one_step()
    w = where(K)
    k = K.keep
    E = lambda n, g, sp, what, **kk: ck.equal(f"{nm}.{n}", w, I.to_term(g), sp, what=what, I=I, doms=DOMS, **kk)
    F = lambda n: field(I, new, n)
    # what the solver and the controller are given
    ck.require(f"{nm}.one-step", len(K.step_calls) == 1 and len(K.adapt_calls) == 1, w, "the loop body does not make exactly one step and adapt it once")
    tup = lambda xs: app("tuple", *[I.to_term(x) for x in xs])
    for n, g, sp in zip(("terms", "start", "end", "state", "args", "solver-state", "jump-flag"), K.step_calls[0],
                        (K.terms, sd["tprev"], sd["tnext"], sd["y"], K.args, sd["solver_state"], sd["made_jump"])):
        E("step-given." + n, tup(lst(I, g)), tup(lst(I, sp)), "the step is not made from the current state over the current interval")
    err = PyTuple([ite(app("isnan", e), tm.INF, e) for e in K.yerr.items])
    for n, g, sp in zip(("start", "end", "state", "candidate", "args", "error", "order", "controller-state"), K.adapt_calls[0],
                        (sd["tprev"], sd["tnext"], sd["y"], K.y1, K.args, err, app("error_order", K.terms), sd["controller_state"])):
        E("controller-given." + n, tup(lst(I, g)), tup(lst(I, sp)), "the controller does not see the step that was made")
    # evolving state
    for i, (g, a, b) in enumerate(zip(lst(I, F("y"), 2), K.y1.items, sd["y"].items)): E(f"y{i}", g, ite(k, a, b), "the state is not kept on rejection / advanced on acceptance")
    for i, (g, a, b) in enumerate(zip(lst(I, F("solver_state"), 2), K.sstate.items, sd["solver_state"].items)): E(f"solver-state{i}", g, ite(k, a, b), "the solver state is not kept on rejection / advanced on acceptance")
    E("jump-flag", F("made_jump"), ite(k, K.cjump, sd["made_jump"]), "the jump flag is not kept on rejection / advanced on acceptance")
    E("controller-state", F("controller_state"), K.cstate, "the controller's state is not the one it returned")
    mn = lambda a, b: app("min", a, b)
    tp = mn(K.ct0, K.t1)
    E("time", F("tprev"), tp, "the current time is not the controller's, bounded by the end time")
    # the attempted step: never past the end, exactly to the end when it would pass it
    tn = I.to_term(F("tnext"))
    I_ = lambda n, h, c, what: ck.implies(f"{nm}.{n}", w, h, c, what, doms=DOMS)
    pre = tm.lt(K.t0, K.t1)
    far = tm.lt(K.ct1, K.t1 - const(400) * ULP)
    E("next-end.far", tn, K.ct1, "a step that ends well before the end time is altered", assume=far)
    E("next-end.reach", tn, K.t1, "an accepted solution's next step that would pass the end time does not end exactly at it", assume=tm.land(k, tm.le(K.t1, K.ct1)))
    I_("next-end.bounded", tm.TRUE, tm.le(tn, K.t1), "the next step passes the end time")
    I_("next-end.retry-shorter", tm.land_all([tm.lnot(k), tm.lt(K.ct0, K.t1), tm.le(K.t1, K.ct1)]), tm.land(tm.lt(tn, K.t1), tm.lt(K.ct0, tn)), "a rejected step that would reach the end time is not retried over a shorter, non-empty interval")
    I_("next-end.exact-or-short", tm.land(k, tm.lt(K.ct1, K.t1)), tm.lor(tm.eq(tn, K.ct1), tm.eq(tn, K.t1)), "the next step is neither the controller's nor the rest of the interval")
    # counts
    E("num-steps", F("num_steps"), sd["num_steps"] + const(1), "attempted steps are miscounted")
    E("num-accepted", F("num_accepted_steps"), sd["num_accepted_steps"] + ite(k, const(1), const(0)), "accepted steps are miscounted")
    E("num-rejected", F("num_rejected_steps"), sd["num_rejected_steps"] + ite(k, const(0), const(1)), "rejected steps are miscounted")
    I_("counts-add-up", tm.eq(sd["num_steps"], sd["num_accepted_steps"] + sd["num_rejected_steps"]),
       tm.eq(I.to_term(F("num_steps")), I.to_term(F("num_accepted_steps")) + I.to_term(F("num_rejected_steps"))), "attempted differs from accepted plus rejected")
    # progress
    ck.require(f"{nm}.progress-once", len(K.pm_calls) == 1, w, "progress is not reported once per step")
    # saved output: no trace of a rejected step
    rej = tm.lnot(k)
    ss = F("save_state")
    sss = [ss] if len(K.subs) == 1 else (I.unpack(ss, len(K.subs)) if K.subs else [])
    for sub, v in zip(K.subs, sss):
        ts, ys, ix, tix = sub.read(I, v)
        for i in range(N):
            E(f"rejected.{sub.nm}.ts[{i}]", ts[i], sub.bts[i], "a rejected step changes the saved times", assume=rej)
            for l in range(sub.nl): E(f"rejected.{sub.nm}.ys{l}[{i}]", ys[l][i], sub.bys[l][i], "a rejected step changes the saved output", assume=rej)
        E(f"rejected.{sub.nm}.index", ix, sub.ix, "a rejected step advances the output position", assume=rej)
        E(f"rejected.{sub.nm}.request-index", tix, sub.tix, "a rejected step uses up a requested time", assume=rej)
    # dense output
    if K.dense:
        dts = fetch(I, F("dense_ts")); inf = I.hget(F("dense_infos").uid) if isinstance(F("dense_infos"), PyDict) else None
        for i in range(N):
            E(f"dense.ts[{i}]", dts[i], ite(tm.land(k, tm.eq(K.dix + const(1), const(i))), tp, K.dts[i]), "the end of the accepted step is not recorded as the next interval boundary (or a rejected one is)")
        if inf is None: raise Unsupported("dense infos")
        for q in K.info:
            for i, x in enumerate(fetch(I, inf[q])):
                E(f"dense.info_{q}[{i}]", x, ite(tm.land(k, tm.eq(K.dix, const(i))), K.info[q], K.dinf[q][i]), "the dense information of an accepted step is not recorded for its interval (or that of a rejected one is)")
        E("dense.index", F("dense_save_index"), K.dix + ite(k, const(1), const(0)), "the number of recorded intervals is not the number of accepted steps")
    # loop condition
    if kw.get("controller") == "StepTo": run_ = tm.lt(sd["num_steps"], const(K.stepto_n - 1))
    else: run_ = tm.lt(sd["tprev"], K.t1)
    E("continues-iff", cond, tm.land(run_, is_succ(sd["result"])), "the solve does not continue exactly until the end time or the first failure or event")
    if kw.get("controller") != "StepTo": I_("ends-at-end", tm.land(tm.lnot(run_), tm.le(sd["tprev"], K.t1)), tm.eq(sd["tprev"], K.t1), "stops short of the end time")
    E("max-steps", K.cap.get("max_steps", tm.NONE), K.max_steps, "the step limit is not applied")


def before(ck):
    """The state handed to the while loop; the answer read off it."""
    K = Kit(ck, subs=[lambda I: Sub(I, "A", t0=True, t1=True)], dense=True)
    I = K.I
    i = K.sym_state("i_")
    dts, dix = list(K.dts), K.dix
    f = K.sym_state("f_")
    r = K.run(K.mk(i), K.mk(f))
    s = K.cap["init_val"]
    w = where(K)
    for n in ("tprev", "tnext", "made_jump", "controller_state", "result", "num_steps", "num_accepted_steps", "num_rejected_steps", "dense_save_index"):
        ck.equal("start." + n, w, I.to_term(field(I, s, n)), I.to_term(i[n]), what="the loop does not start from the initial state", I=I, doms=DOMS)
    for n in ("y", "solver_state"):
        for j, (a, b) in enumerate(zip(lst(I, field(I, s, n)), lst(I, i[n]))): ck.equal(f"start.{n}{j}", w, a, b, what="the loop does not start from the initial state", I=I)
    d = fetch(I, field(I, s, "dense_ts"))
    for j in range(N): ck.equal(f"start.dense_ts[{j}]", w, d[j], K.t0 if j == 0 else dts[j], what="dense output does not start at the initial time", I=I, doms=DOMS)
    for n in ("tprev", "tnext", "made_jump", "controller_state", "num_steps", "num_accepted_steps", "num_rejected_steps", "dense_save_index"):
        ck.equal("end." + n, w, I.to_term(field(I, r[0], n)), I.to_term(f[n]), what="the final state is altered after the loop", I=I, doms=DOMS)
    for n in ("y", "solver_state", "dense_ts"):
        g = fetch(I, field(I, r[0], n)) if n == "dense_ts" else lst(I, field(I, r[0], n))
        h = fetch(I, f[n]) if n == "dense_ts" else lst(I, f[n])
        for j, (a, b) in enumerate(zip(g, h)): ck.equal(f"end.{n}{j}", w, a, b, what="the final state is altered after the loop", I=I)


def run(ck):
    for nm, kw in configs(): ck.attempt(nm, lambda: transition(ck, nm, kw))
    ck.attempt("before", lambda: before(ck))
