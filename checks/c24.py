"""C24: splitting and resuming a solve."""
import itertools
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
from sa.interp import Unsupported
from checks.loopkit import *
from checks import solvekit as sk
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of the hand-over of solver state, controller state and jump flag (diffeqsolve in, loop, diffeqsolve out) and of the fixed-step controllers across a split, value numbering against 'continue from the returned state'"
EXPLANATION = ("diffeqsolve is extracted for every combination of passed and omitted solver state, controller state, jump flag and first step; what the integration loop starts from, which initialisers run and with which arguments, and what is returned for an "
               "arbitrary final state are compared with the rule. The loop's own entry and exit are shown to leave these fields alone, and the step sequence of the fixed-step controllers is composed across a split.")
ASSUMPTIONS = ["solver, controller and terms are arbitrary", "states with 2 leaves"]
FLOOR = 200
pm = tm.sym("passed_made_jump", "bool")
MS = ("solver_state", "controller_state", "made_jump")


def passed():
    return PyTuple([tm.sym("passed_solver_state0", "real"), tm.sym("passed_solver_state1", "real")]), tm.sym("passed_controller_state", "real"), pm


def entry(ck, ps, pc, pj, dt, back=False):
    nm = f"start solver_state={ps} controller_state={pc} made_jump={pj} dt0={dt}"
    def go():
        S = sk.Solve(ck); I = S.I
        st, cs, mj = passed()
        over = {}
        if ps: over["solver_state"] = st
        if pc: over["controller_state"] = cs
        if pj: over["made_jump"] = mj
        if not dt: over["dt0"] = tm.NONE
        S.call(subs=[lambda I: Sub(I, "A", t1=True)], **over)
        w = sk.where(S)
        k = S.loops[0]; s = k["init_state"]
        E = lambda n, g, sp, what: ck.equal(f"{nm}.{n}", w, I.to_term(g), sp, what=what, I=I)
        ck.require(nm + ".one-solve", len(S.loops) == 1, w, "the solve is not run exactly once")
        a0, a1, d0 = sk.D * S.t0, sk.D * S.t1, sk.D * S.dt0
        first = a0 + d0 if (pc and dt) else tm.sym("controller_tnext", "real")
        first = app("min", first, a1)
        E("first-step.start", field(I, s, "tprev"), a0, "the first step does not start at the initial time")
        E("first-step.end", field(I, s, "tnext"), first, "the first step does not have the given length (or, when none is given, the controller's), bounded by the end time")
        for j, (g, y) in enumerate(zip(lst(I, field(I, s, "y")), S.y0.items)): E(f"state{j}", g, y, "the solve does not start from the given state")
        for j, (g, y, fr) in enumerate(zip(lst(I, field(I, s, "solver_state")), st.items, ("fresh_solver_state0", "fresh_solver_state1"))):
            E(f"solver-state{j}", g, y if ps else tm.sym(fr, "real"), "a passed solver state is not the one used, or a fresh one is not built when none is passed")
        E("controller-state", field(I, s, "controller_state"), cs if pc else tm.sym("fresh_controller_state", "real"), "a passed controller state is not the one used, or a fresh one is not built when none is passed")
        E("made-jump", field(I, s, "made_jump"), pm if pj else tm.FALSE, "a passed jump flag is not the one used, or is not false when none is passed")
        ck.require(nm + ".solver-init", len(S.inits) == (0 if ps else 1), w, "the solver is initialised although its state was passed, or not exactly once otherwise", len(S.inits))
        ck.require(nm + ".controller-init", len(S.cinits) == (0 if (pc and dt) else 1), w, "the controller is initialised although it has a state and a first step, or not exactly once otherwise", len(S.cinits))
        tu = lambda v: sk.tup(I, v)
        terms = I.to_term(k["terms"]) if isinstance(k["terms"], T) else k["terms"]
        if not ps and S.inits:
            g = S.inits[0]
            ck.require(nm + ".init-terms", g[0] is k["terms"], w, "the solver's state is not built from the terms that are solved")
            for n, x, sp in zip(("start", "end", "state", "args"), g[1:], (a0, first, tu(S.y0), S.args)): E("init-" + n, tu(x) if n == "state" else x, sp, "the solver's state is not built for the first step")
        if not (pc and dt) and S.cinits:
            g = S.cinits[0]
            ck.require(nm + ".controller-init-terms", g[0] is k["terms"], w, "the controller's state is not built from the terms that are solved")
            for n, x, sp in zip(("start", "end", "state", "first-step", "args", "func", "order"), g[1:], (a0, a1, tu(S.y0), d0 if dt else tm.NONE, S.args, tm.sym("solver.func"), None)):
                if n == "order":
                    ck.require(nm + ".controller-init-order", isinstance(I.to_term(x), T) and I.to_term(x).op == "app" and I.to_term(x).data == "error_order", w, "the controller is not given the solver's error order")
                else: E("controller-init-" + n, tu(x) if n == "state" else x, sp, "the controller's state is not built for this solve")
        E("told-solver-state", k["passed_solver_state"], const(ps), "the adjoint is told the wrong thing about the solver state")
        E("told-controller-state", k["passed_controller_state"], const(pc), "the adjoint is told the wrong thing about the controller state")
        ck.require(nm + ".controller", k["stepsize_controller"] is S.wrapped, w, "the solve does not use the controller in the direction of integration")
    ck.attempt(nm, go)


def exit_(ck, keep, dense=False):
    nm = f"end keep={','.join(keep) or 'nothing'}{' dense' if dense else ''}"
    def go():
        S = sk.Solve(ck); I = S.I
        box = {}
        def fin(I, k):
            f = sk.final_state(I, S.subs); box.update(f)
            return I.mkobj(I.repo.cls("State"), f)
        st, cs, mj = passed()
        for given in (False, True):
            S = sk.Solve(ck); I = S.I
            over = dict(solver_state=st, controller_state=cs, made_jump=mj) if given else {}
            sol = S.call(subs=[lambda I: Sub(I, "A", t1=True)], final=fin, keep=keep, throw=False, **over)
            w = sk.where(S)
            for n in MS:
                g = I.getattr(sol, n)
                what = "the state returned on request is not the final one" if n in keep else "state is returned although it was not requested"
                if n == "solver_state" and n in keep:
                    for j, (a, b) in enumerate(zip(lst(I, g), box[n].items)): ck.equal(f"{nm} given={given}.{n}{j}", w, a, b, what=what, I=I)
                else: ck.equal(f"{nm} given={given}.{n}", w, I.to_term(g), I.to_term(box[n]) if n in keep else tm.NONE, what=what, I=I)
    ck.attempt(nm, go)


def through(ck):
    """the loop starts from, and returns, these fields untouched"""
    for nm, kw in (("plain", dict(subs=[lambda I: Sub(I, "A", t0=True, t1=True)])), ("steps+dense", dict(subs=[lambda I: Sub(I, "A", steps=2, t1=True)], dense=True)),
                   ("event", dict(subs=[lambda I: Sub(I, "A", t1=True)], events=lambda I: Events(I, ["float"], [None], False)))):
        def go():
            K = Kit(ck, **kw); I = K.I
            i, f = K.sym_state("i_"), K.sym_state("f_")
            r = K.run(K.mk(i), K.mk(f))
            s, w = K.cap["init_val"], where(K)
            for n in ("made_jump", "controller_state", "tprev", "tnext"):
                ck.equal(f"loop {nm}.in.{n}", w, I.to_term(field(I, s, n)), I.to_term(i[n]), what="the loop does not start from the state it is given", I=I, doms=DOMS)
                ck.equal(f"loop {nm}.out.{n}", w, I.to_term(field(I, r[0], n)), I.to_term(f[n]), what="the loop does not return its final state", I=I, doms=DOMS)
            for n in ("solver_state", "y"):
                for j in range(2):
                    ck.equal(f"loop {nm}.in.{n}{j}", w, lst(I, field(I, s, n))[j], i[n].items[j], what="the loop does not start from the state it is given", I=I, doms=DOMS)
                    ck.equal(f"loop {nm}.out.{n}{j}", w, lst(I, field(I, r[0], n))[j], f[n].items[j], what="the loop does not return its final state", I=I, doms=DOMS)
        ck.attempt("loop " + nm, go)
    def step():
        K = Kit(ck, subs=[lambda I: Sub(I, "A", t1=True)]); I = K.I
        sd, new, _ = K.one_step(); w = where(K)
        tu = lambda xs: app("tuple", *[I.to_term(x) for x in lst(I, xs)])
        for n, j in (("solver_state", 5),): ck.equal(f"step.given.{n}", w, tu(K.step_calls[0][j]), tu(sd[n]), what="a step does not use the state carried so far", I=I)
        ck.equal("step.given.made_jump", w, I.to_term(K.step_calls[0][6]), sd["made_jump"], what="a step does not use the jump flag carried so far", I=I)
        ck.equal("step.given.controller_state", w, I.to_term(K.adapt_calls[0][7]), sd["controller_state"], what="the controller does not use the state carried so far", I=I)
        for j in range(2): ck.equal(f"step.next.solver_state{j}", w, lst(I, field(I, new, "solver_state"))[j], ite(K.keep, K.sstate.items[j], sd["solver_state"].items[j]), what="the solver state carried on is not that of the current time", I=I)
        ck.equal("step.next.made_jump", w, I.to_term(field(I, new, "made_jump")), ite(K.keep, K.cjump, sd["made_jump"]), what="the jump flag carried on is not that of the current time", I=I)
        ck.equal("step.next.controller_state", w, I.to_term(field(I, new, "controller_state")), K.cstate, what="the controller state carried on is not the latest", I=I)
    ck.attempt("step", step)


def controllers(ck):
    from checks import c12
    c12.resumed(ck)


def run(ck):
    for ps, pc, pj, dt in itertools.product((False, True), repeat=4): entry(ck, ps, pc, pj, dt)
    for n in range(4):
        for keep in itertools.combinations(MS, n): exit_(ck, keep)
    through(ck)
    controllers(ck)
