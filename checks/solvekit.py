"""Shared harness: abstract interpretation of diffeqsolve with the adjoint's loop captured."""
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
from sa.interp import Unsupported
from checks import loopkit as lk
from checks.loopkit import models, find, arr, fetch, Sub, Events, N


class Solve:
    """Arguments of diffeqsolve as symbols; `call()` returns the Solution object; `self.loop` holds what the adjoint was given."""
    def __init__(self, ck, **kw):
        self.ck = ck
        I = self.I = ck.interp()
        I.scalar_leaves = True
        models(I)
        self.mod, self.node = find(ck, "diffrax._integrate", "diffeqsolve")
        self.t0, self.t1 = tm.sym("t0", "real"), tm.sym("t1", "real")
        self.dt0 = tm.sym("dt0", "real")
        self.y0 = state("y0", 2)
        self.args = tm.sym("args")
        self.inits, self.cinits, self.steps, self.loops, self.errs = [], [], [], [], []
        self.solver_kind = "AbstractSolver"

    def mkterm(self, cls="ODETerm"):
        I = self.I
        return I.mkobj(I.repo.cls(cls), {"vector_field": tm.sym("vector_field")})

    def mksolver(self, cls="AbstractSolver", **f):
        I = self.I
        def init(I, a, k):
            self.inits.append(list(a) + list(k.values()))
            return PyTuple([tm.sym("fresh_solver_state0", "real"), tm.sym("fresh_solver_state1", "real")])
        def step(I, a, k):
            self.steps.append(list(a) + list(k.values()))
            return PyTuple([state("dummy_y", 2), state("dummy_e", 2), I.mkdict({"a": tm.sym("dummy_info_a", "real"), "b": tm.sym("dummy_info_b", "real")}), tm.sym("dummy_state"), tm.enum("RESULTS.successful")])
        d = {"init": Native(init, "init"), "step": Native(step, "step"), "func": tm.sym("solver.func"),
             "interpolation_cls": tm.sym("interpolation_cls"), "term_structure": tm.sym("term_structure"), "term_compatible_contr_kwargs": tm.sym("contr_kwargs"),
             "error_order": Native(lambda I, a, k: app("error_order", *[I.to_term(x) for x in a]), "error_order")}
        d.update(f)
        self.solver = I.mkobj(I.repo.cls(cls), d)
        return self.solver

    def mkcontroller(self, cls="AbstractAdaptiveStepSizeController", **f):
        I = self.I
        def wrap(I, a, k):
            self.wraps.append(I.to_term(a[0] if a else k["direction"])); return self.wrapped
        def cinit(I, a, k):
            self.cinits.append(list(a) + list(k.values()))
            return PyTuple([tm.sym("controller_tnext", "real"), tm.sym("fresh_controller_state", "real")])
        self.wraps = []
        d = {"wrap": Native(wrap, "wrap"), "init": Native(lambda I, a, k: (_ for _ in ()).throw(Unsupported("init of unwrapped controller")), "init"),
             "rtol": tm.sym("c_rtol", "real"), "atol": tm.sym("c_atol", "real"), "norm": tm.sym("c_norm", "real")}
        d.update(f)
        d2 = dict(d, init=Native(cinit, "init"))
        self.wrapped = I.mkobj(I.repo.cls(cls), d2)
        self.controller = I.mkobj(I.repo.cls(cls), d)
        return self.controller

    def call(self, subs=(), subtree=None, dense=False, solver=None, controller=None, terms=None, event=None, max_steps=const(7), throw=True, keep=(), final=None, opaque_guards=True, **over):
        I = self.I
        self.solver_obj = solver or self.mksolver()
        self.ctrl_obj = controller or self.mkcontroller()
        self.terms = terms or self.mkterm()
        self.subs = [s(I) if callable(s) else s for s in subs]
        tree = subtree or ((lambda xs: xs[0]) if len(self.subs) == 1 else (lambda xs: PyTuple(xs)))
        K = {f: const(f in keep) for f in ("solver_state", "controller_state", "made_jump")}
        self.saveat = I.mkobj(I.repo.cls("SaveAt"), {"subs": tree([s.obj for s in self.subs]) if self.subs else tm.NONE, "dense": const(dense), **K})
        if opaque_guards:
            I.opaque["diffrax._integrate._assert_term_compatible"] = lambda I, a, k: tm.NONE
            I.opaque["diffrax._heuristics.is_sde"] = lambda I, a, k: tm.FALSE
            I.opaque["diffrax._heuristics.is_unsafe_sde"] = lambda I, a, k: tm.FALSE
        def loop(I, a, k):
            k = dict(k); self.loops.append(k)
            st = k["init_state"]
            fin = final(I, k) if final else st
            return PyTuple([fin, I.mkdict({})])
        self.adjoint = I.mkobj(I.repo.cls("AbstractAdjoint"), {"loop": Native(loop, "loop")})
        self.meter_calls = []
        def mc(nm, r):
            def g(I, a, k): self.meter_calls.append((nm, [I.to_term(x) for x in a])); return r
            return Native(g, nm)
        self.meter = I.mkobj(I.repo.cls("AbstractProgressMeter"), {"init": mc("init", tm.sym("meter_state", "real")), "close": mc("close", tm.NONE)})
        kw = dict(terms=self.terms, solver=self.solver_obj, t0=self.t0, t1=self.t1, dt0=self.dt0, y0=self.y0, args=self.args, saveat=self.saveat,
                  stepsize_controller=self.ctrl_obj, adjoint=self.adjoint, event=event if event is not None else tm.NONE, max_steps=max_steps, throw=const(throw),
                  progress_meter=self.meter, solver_state=tm.NONE, controller_state=tm.NONE, made_jump=tm.NONE, discrete_terminating_event=tm.NONE)
        kw.update(over)
        f = I.mkfunc(self.node, None, self.mod, None)
        self.sol = I.call(f, [], kw)
        self.ck.use(I)
        return self.sol


D = ite(tm.lt(tm.sym("t0", "real"), tm.sym("t1", "real")), const(1), const(-1))       # direction of integration, as specified


def where(S): return f"{S.mod.path}:{S.node.lineno} {S.node.name}"


def final_state(I, subs, p="f_", event=False):
    """An arbitrary final state"""
    one = len(subs) == 1
    f = dict(y=state(p + "y", 2), tprev=tm.sym(p + "tprev", "real"), tnext=tm.sym(p + "tnext", "real"), made_jump=tm.sym(p + "made_jump", "bool"),
             solver_state=PyTuple([tm.sym(p + "solver_state0", "real"), tm.sym(p + "solver_state1", "real")]), controller_state=tm.sym(p + "controller_state", "real"),
             progress_meter_state=tm.sym(p + "meter_state", "real"), result=tm.sym(p + "result", lk.ENUM), num_steps=tm.sym(p + "num_steps", "nat"),
             num_accepted_steps=tm.sym(p + "num_accepted", "nat"), num_rejected_steps=tm.sym(p + "num_rejected", "nat"),
             save_state=(subs[0].save_state(I) if one else PyTuple([s.save_state(I) for s in subs])) if subs else tm.NONE,
             dense_ts=tm.sym(p + "dense_ts"), dense_infos=tm.sym(p + "dense_infos"), dense_save_index=tm.sym(p + "dense_index", "nat"),
             event_tprev=tm.NONE, event_tnext=tm.NONE, event_dense_info=tm.NONE, event_values=tm.NONE,
             event_mask=PyTuple([tm.sym(p + "mask0", "bool"), tm.sym(p + "mask1", "bool")]) if event else tm.NONE)
    return f


def tup(I, v): return app("tuple", *[I.to_term(x) for x in (lst(I, v) if not isinstance(v, T) else [v])])


# ------------------------------------------------------------------------------------------------ output sizes and padding
def capacity(ck, nm, t0, t1, nts, steps, ms):
    def go():
        S = Solve(ck)
        ts = [tm.sym(f"q{i}", "real") for i in range(nts)] if nts else None
        sol = S.call(subs=[lambda I: Sub(I, "A", t0=t0, t1=t1, ts=ts, steps=steps), lambda I: Sub(I, "B", t1=True)], max_steps=const(ms))
        I = S.I
        ss = I.unpack(I.getattr(S.loops[0]["init_state"], "save_state"), 2)[0]
        bts, bys = I.getattr(ss, "ts"), I.unpack(I.getattr(ss, "ys"), 2)
        size = len(fetch(I, bts))
        w = where(S)
        need = int(t0) + nts + max((a // steps if steps else 0) + int(t1 and not (steps and a and a % steps == 0)) for a in range(ms + 1))
        ok = size == need if not steps else size >= need
        ck.require(nm + ".entries", ok, w, f"the output has room for {size} entries; the requests need {need}", dict(t0=t0, t1=t1, ts=nts, steps=steps, max_steps=ms))
        ck.require(nm + ".values", all(len(fetch(I, y)) == size for y in bys), w, "saved values and saved times have different lengths")
        for x in ("save_index", "saveat_ts_index"): ck.equal(f"{nm}.{x}", w, I.getattr(ss, x), const(0), I=I, what="saving does not start at the first slot")
        out = fetch(I, I.unpack(I.getattr(sol, "ts"), 2)[0])
        ck.equal_many([(f"{nm}.pad-ts[{i}]", x, tm.INF) for i, x in enumerate(out)] + [(f"{nm}.pad-ys{l}[{i}]", x, tm.INF) for l, y in enumerate(bys) for i, x in enumerate(fetch(I, y))],
                      w, "an unused output slot is not infinite padding", I=I)
    ck.attempt(nm, go)


def outputs(ck, nm, dense=False, keep=(), events=False):
    """the Solution object, as a function of an arbitrary final state"""
    S = Solve(ck)
    I = S.I
    box = {}
    def final(I, k):
        f = final_state(I, S.subs, event=events); box.update(f)
        return I.mkobj(I.repo.cls("State"), f)
    sol = S.call(subs=[lambda I: Sub(I, "A", t1=True), lambda I: Sub(I, "B", t0=True)], dense=dense, keep=keep, final=final, throw=False)
    return S, sol, box


def saved_output(ck):
    def go():
        S, sol, f = outputs(ck, "out")
        I, w = S.I, where(S)
        for sub, ts, ys in zip(S.subs, I.unpack(I.getattr(sol, "ts"), 2), I.unpack(I.getattr(sol, "ys"), 2)):
            for i, x in enumerate(fetch(I, ts)): ck.equal(f"solution.{sub.nm}.ts[{i}]", w, x, sub.bts[i] * D, I=I, what="a saved time is not returned in the user's time")
            for l, y in enumerate(I.unpack(ys, 2)):
                for i, x in enumerate(fetch(I, y)): ck.equal(f"solution.{sub.nm}.ys{l}[{i}]", w, x, sub.bys[l][i], I=I, what="a saved value is altered on return")
    ck.attempt("solution", go)
    def pad():
        S = Solve(ck)
        I = S.I
        def final(I, k):
            f = final_state(I, S.subs)
            f["save_state"] = I.mkobj(I.repo.cls("SaveState"), {"saveat_ts_index": const(0), "ts": arr([tm.INF, D * tm.INF]), "ys": PyTuple([arr([tm.INF, tm.INF])]), "save_index": const(0)})
            return I.mkobj(I.repo.cls("State"), f)
        sol = S.call(subs=[lambda I: Sub(I, "A", t1=True)], final=final, throw=False)
        for i, x in enumerate(fetch(I, I.getattr(sol, "ts"))):
            ck.equal("solution.padding." + ("deleted", "unused")[i], where(S), x, tm.INF, I=I, what="a deleted or unused output slot is not infinite padding in either direction")
    ck.attempt("solution.padding", pad)


def saveat_constructors(ck):
    I = ck.interp(); I.scalar_leaves = True; models(I)
    Sub_, Sv = ck.repo.cls("SubSaveAt"), ck.repo.cls("SaveAt")
    ts = arr([tm.sym("q0", "real"), tm.sym("q1", "real")])
    fn = tm.sym("fn")
    def sub():
        w = at(Sub_)
        for t0 in (False, True):
            for t1 in (False, True):
                for steps, n in ((False, 0), (True, 1), (3, 3), (0, 0)):
                    for q in (None, ts):
                        if not (t0 or t1 or n or q is not None): continue
                        nm = f"SubSaveAt(t0={t0},t1={t1},steps={steps},ts={q is not None})"
                        o = I.call(Sub_, [], dict(t0=const(t0), t1=const(t1), steps=const(steps), ts=tm.NONE if q is None else q, fn=fn))
                        for n_, v in (("t0", const(t0)), ("t1", const(t1)), ("steps", const(n)), ("fn", fn)): ck.equal(f"{nm}.{n_}", w, I.getattr(o, n_), v, I=I, what="a requested save is not recorded as requested")
                        g = I.getattr(o, "ts")
                        ck.require(nm + ".ts", (g is tm.NONE) == (q is None) and (q is None or [x for x in g] == [x for x in q]), w, "the requested times are not recorded as requested")
    ck.attempt("SubSaveAt", sub)
    def sv():
        w = at(Sv)
        o = I.call(Sv, [], dict(t0=tm.TRUE, t1=tm.TRUE, ts=ts, steps=const(2), fn=fn))
        s = I.getattr(o, "subs")
        for n_, v in (("t0", tm.TRUE), ("t1", tm.TRUE), ("steps", const(2)), ("fn", fn)): ck.equal("SaveAt.subs." + n_, w, I.getattr(s, n_), v, I=I, what="SaveAt does not forward the request")
        ck.require("SaveAt.subs.ts", list(I.getattr(s, "ts")) == list(ts), w, "SaveAt does not forward the requested times")
        x = I.mkobj(Sub_, dict(t0=tm.TRUE, t1=tm.FALSE, ts=tm.NONE, steps=const(0), fn=fn))
        o = I.call(Sv, [], dict(subs=x, dense=tm.TRUE, solver_state=tm.TRUE, controller_state=tm.FALSE, made_jump=tm.TRUE))
        ck.require("SaveAt.given-subs", I.getattr(o, "subs") is x, w, "given sub-requests are not kept")
        for n_, v in (("dense", True), ("solver_state", True), ("controller_state", False), ("made_jump", True)): ck.equal("SaveAt." + n_, w, I.getattr(o, n_), const(v), I=I, what="SaveAt does not record the request")
        for kw in ("t0", "t1", "steps", "ts"):
            o = I.call(Sv, [], {kw: ts if kw == "ts" else tm.TRUE})
            ck.require(f"SaveAt({kw}).alone", I.getattr(o, "subs") is not tm.NONE, w, f"SaveAt({kw}=...) alone requests nothing")
    ck.attempt("SaveAt", sv)
