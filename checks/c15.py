"""C15: events."""
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
from sa.interp import Unsupported
from checks.loopkit import *
from checks import solvekit as sk
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of the event code (initial evaluation, per-step evaluation, root find and clean-up after the loop) over an arbitrary state, and value numbering against the event rules"
EXPLANATION = ("Condition functions, their old and new values (including zero), directions, step outcomes and the root finder's answer are symbolic. The initial evaluation, one loop iteration and the code after the loop are extracted "
               "and compared with the rule: which conditions trigger, which one is flagged, where the final time is sought, what is deleted and what the final value is.")
ASSUMPTIONS = ["up to 3 conditions of mixed kind", "output buffers of 4 slots", "the root finder returns an arbitrary time and result"]
FLOOR = 250
CONFIGS = [("none", ["float"], [None]), ("up", ["float"], [True]), ("down", ["float"], [False]), ("bool", ["bool"], [None]),
           ("mixed", ["float", "bool", "float"], [None, None, True]), ("mixed2", ["bool", "float"], [None, False])]
EV = lambda kinds, dirs, rf, symbolic=False: (lambda I: Events(I, kinds, dirs, rf, symbolic))


def pos(x): return tm.lt(const(0), x)
def neg(x): return tm.lt(x, const(0))
def zero(x): return tm.eq(x, const(0))


def triggers(kind, d, old, new):
    if kind == "bool": return new
    if d is None: return tm.lnot(tm.lor_all([tm.land(pos(old), pos(new)), tm.land(neg(old), neg(new)), tm.land(zero(old), zero(new))]))
    up = tm.land(tm.lnot(pos(old)), pos(new))
    return up if d else tm.land(pos(old), tm.lnot(pos(new)))


def flags(trig):
    out, had = [], tm.FALSE
    for x in trig: out.append(tm.land(x, tm.lnot(had))); had = tm.lor(had, x)
    return out, had


def per(I, K, v): return [v] if len(K.events.kinds) == 1 else I.unpack(v, len(K.events.kinds))


def step(ck, nm, kinds, dirs, rf):
    K = Kit(ck, subs=[lambda I: Sub(I, "A", t1=True)], events=EV(kinds, dirs, rf, True))
    I = K.I
    d, new, cond = K.one_step()
    w, k, ev = where(K), K.keep, K.events
    E = lambda n, g, s, what, **kk: ck.equal(f"{nm}.{n}", w, I.to_term(g), s, what=what, I=I, doms=DOMS, **kk)
    tp = app("min", K.ct0, K.t1)
    y = [ite(k, a, b) for a, b in zip(K.y1.items, d["y"].items)]
    for i in range(len(kinds)):
        c = [x for x in ev.calls if x[0] == i]
        ck.require(f"{nm}.evaluated-once{i}", len(c) == 1, w, "a condition is not evaluated exactly once per step")
        if not c: continue
        _, (t_, y_, a_), kw = c[0]
        E(f"given{i}.t", t_, tp, "a condition is not evaluated at the current time")
        E(f"given{i}.y", app("tuple", *y_), app("tuple", *y), "a condition is not evaluated at the current state")
        E(f"given{i}.args", a_, K.args, "a condition is not given the arguments")
        for n, s in (("terms", K.terms), ("t0", K.t0), ("t1", K.t1), ("dt0", K.dt0), ("max_steps", K.max_steps)):
            E(f"given{i}.{n}", kw.get(n, tm.sym("missing")), s, "a condition is not given the documented keyword arguments")
        for n, s in (("solver", K.solver), ("stepsize_controller", K.controller), ("saveat", K.saveat)):
            ck.require(f"{nm}.given{i}.{n}", kw.get(n) is s, w, "a condition is not given the documented keyword arguments")
    trig = [triggers(kind, dr, ev.old(i), ev.val(i, None, None, None)) for i, (kind, dr) in enumerate(zip(kinds, dirs))]
    fl, had = flags(trig)
    for i, (g, s) in enumerate(zip(per(I, K, field(I, new, "event_mask")), fl)):
        E(f"flag{i}", I.truthy(g), s, "a condition is flagged when it did not trigger first, or not flagged when it did")
    for i, g in enumerate(per(I, K, field(I, new, "event_values"))): E(f"value{i}", g, ev.val(i, None, None, None), "the condition's value is not remembered for the next step")
    sr = ite(k, K.sres, SUCC)
    r0 = ite(is_okay(d["result"]), sr, d["result"])
    r1 = ite(is_okay(r0), K.cres, r0)
    E("result", field(I, new, "result"), ite(tm.land(is_okay(r1), had), EVT, r1), "an event does not stop the solve exactly when a condition triggers on a step that did not fail")
    E("interval.start", field(I, new, "event_tprev"), d["tprev"], "the interval of the triggering step is not remembered")
    E("interval.end", field(I, new, "event_tnext"), d["tnext"], "the interval of the triggering step is not remembered")
    info = I.hget(field(I, new, "event_dense_info").uid)
    for q in K.info: E(f"interval.info_{q}", info[q], K.info[q], "the dense information of the triggering step is not remembered")


def after(ck, nm, kinds, subs, occurred=None, floats_only=False):
    """root finder present"""
    K = Kit(ck, subs=subs, events=EV(kinds, [None] * len(kinds), True))
    I, ev = K.I, K.events
    w = where(K)
    f = K.sym_state("f_")
    n = len(kinds)
    if occurred is False: f["event_mask"] = ev.tree([tm.FALSE] * n)
    K.clear()
    r = K.run(K.mk(K.sym_state("i_")), K.mk(f))
    E = lambda n_, g, s, what, **kk: ck.equal(f"{nm}.{n_}", w, I.to_term(g), s, what=what, I=I, doms=DOMS, **kk)
    m = [ev.oldmask(i) if occurred is None else tm.FALSE for i in range(n)]
    # at most one condition is flagged (established by the step and by the initial state)
    one = tm.land_all([tm.lnot(tm.land(m[i], m[j])) for i in range(n) for j in range(i)])
    happened = tm.lor_all(m)
    info = dict(t0=f["event_tprev"], t1=f["event_tnext"], **{q: tm.sym(f"f_event_info_{q}", "real") for q in K.info})
    if occurred is not False:
        ck.require(nm + ".root-find", len(K.root_calls) == 1, w, "the event time is not sought exactly once")
        d = K.root_calls[0]
        E("root-find.start", d.get("y0", tm.NONE), f["event_tnext"], "the event time is not sought from the end of the last step")
        E("root-find.finder", d.get("solver", tm.NONE), ev.rf, "the event's root finder is not used")
        E("root-find.no-throw", d.get("throw", tm.TRUE), tm.FALSE, "a failed root find raises instead of being reported in the result")
        o = I.hget(d["options"].uid) if isinstance(d.get("options"), PyDict) else {}
        E("root-find.lower", o.get("lower", tm.NONE), f["event_tprev"], "the event time is not sought within the last step")
        E("root-find.upper", o.get("upper", tm.NONE), f["event_tnext"], "the event time is not sought within the last step")
        t = tm.sym("t_try", "real")
        ev.calls.clear()
        vals = I.call(d["fn"], [t, d.get("args", tm.NONE)], {})
        yt = K.evaluate(info, t)
        res = [app("tuple", *[I.to_term(x) for x in per(I, K, vals)])]
        spec = []
        for i, kind in enumerate(kinds):
            v = f["event_tnext"] - t if kind == "bool" else ev.val(i, t, yt, K.args)
            spec.append(ite(happened, ite(m[i], v, const(0)), f["event_tnext"] - t))
        for i, (g, s) in enumerate(zip(per(I, K, vals), spec)):
            E(f"root-find.function{i}", g, s, "the function whose root is sought is not the flagged condition along the last step", assume=one)
    tfin = ite(happened, K.root, f["tprev"])
    yroot = K.evaluate(info, K.root)
    yfin = [ite(happened, ite(tm.eq(f["num_steps"], const(0)), a, b), a) for a, b in zip(f["y"].items, yroot)]
    # result
    bad = tm.land_all([happened, tm.lnot(tm.eq(K.root_res, SUCC)), is_okay(f["result"])])
    rr = ite(bad, app("promote", K.root_res), f["result"])
    running = tm.land(tm.lt(f["tprev"], K.t1), is_succ(f["result"]))
    E("result", field(I, r[0], "result"), ite(running, tm.enum("RESULTS.max_steps_reached"), rr), "the result is not that of the solve, or the root find's failure")
    # event flags are returned
    for i, g in enumerate(per(I, K, field(I, r[0], "event_mask"))): E(f"flag{i}", I.truthy(g), m[i], "the returned flags are not those of the triggering step")
    # saved output: everything later than the final time is deleted, then the final value is saved
    ss = field(I, r[0], "save_state")
    for sub, v in zip(K.subs, [ss] if len(K.subs) == 1 else I.unpack(ss, len(K.subs))):
        ts, ys, ix, _ = sub.read(I, v)
        late = [tm.lt(tfin, x) for x in sub.bts]
        # saved times are finite, in order and come first; later slots are padding
        used = [tm.lt(const(i), sub.ix) for i in range(N)]
        bt = [ite(u, x, tm.INF) for u, x in zip(used, sub.bts)]
        by_steps = tm.FALSE
        if sub.steps:
            a = f["num_accepted_steps"]
            by_steps = tm.lt(const(0), a) if sub.steps == 1 else tm.land(tm.lt(const(0), a), tm.eq(app("mod", a, const(sub.steps)), const(0)))
        deleted = tm.land(happened, tm.lt(K.root, f["tprev"]))
        want = ite(by_steps, deleted, const(sub.t1)) if sub.steps else const(sub.t1)
        cnt = sub.ix
        for i in range(N): cnt = cnt - ite(tm.land(used[i], late[i]), const(1), const(0))
        sv = sub.value(tfin, yfin, K.args)
        order = [tm.lor(tm.lnot(used[i + 1]), tm.le(sub.bts[i], sub.bts[i + 1])) for i in range(N - 1)]
        past = [tm.lor(tm.lnot(u), tm.le(x, f["tprev"])) for u, x in zip(used, sub.bts)]      # nothing is saved ahead of the current time
        h = tm.land_all([one, tm.lt(K.t0, K.t1)] + order + past)
        sm = {x: ite(u, x, tm.INF) for u, x in zip(used, sub.bts)}
        sm.update({y: ite(u, y, tm.INF) for l in range(sub.nl) for u, y in zip(used, sub.bys[l])})
        room = tm.lt(cnt, const(N))
        for i in range(N):
            lt = tm.land(used[i], late[i])
            here = tm.land(want, tm.eq(cnt, const(i)))
            E(f"{sub.nm}.ts[{i}]", tm.subst(ts[i], sm), ite(here, tfin, ite(lt, tm.INF, bt[i])), "output later than the final time is kept, or earlier output is lost, or the final value is not saved once", assume=tm.land(h, room))
            for l in range(sub.nl):
                E(f"{sub.nm}.ys{l}[{i}]", tm.subst(ys[l][i], sm), ite(here, sv[l], ite(lt, tm.INF, ite(used[i], sub.bys[l][i], tm.INF))), "output later than the final time is kept, or earlier output is lost, or the final value is not saved once", assume=tm.land(h, room))


def after_noroot(ck, nm, kinds):
    K = Kit(ck, subs=[lambda I: Sub(I, "A", t1=True)], events=EV(kinds, [None] * len(kinds), False))
    I = K.I
    f = K.sym_state("f_")
    r = K.run(K.mk(K.sym_state("i_")), K.mk(f))
    w = where(K)
    sub = K.subs[0]
    ts, ys, ix, _ = sub.read(I, field(I, r[0], "save_state"))
    sv = sub.value(f["tprev"], f["y"].items, K.args)
    for i in range(N):
        here = tm.eq(sub.ix, const(i))
        ck.equal(f"{nm}.A.ts[{i}]", w, ts[i], ite(here, f["tprev"], sub.bts[i]), I=I, doms=DOMS, what="without a root finder the solve does not end at the end of the triggering step", assume=tm.lt(K.t0, K.t1))
        for l in range(2): ck.equal(f"{nm}.A.ys{l}[{i}]", w, ys[l][i], ite(here, sv[l], sub.bys[l][i]), I=I, doms=DOMS, what="without a root finder the solve does not end at the end of the triggering step", assume=tm.lt(K.t0, K.t1))
    ck.require(nm + ".no-root-find", not K.root_calls, w, "a root is sought although no root finder was given")
    ck.equal(nm + ".result", w, I.to_term(field(I, r[0], "result")), ite(tm.land(tm.lt(f["tprev"], K.t1), is_succ(f["result"])), tm.enum("RESULTS.max_steps_reached"), f["result"]), I=I, doms=DOMS, what="the result is not that of the solve")


def initial(ck, nm, kinds):
    """diffeqsolve: the state before the first step"""
    S = sk.Solve(ck)
    I = S.I
    ev = Events(I, kinds, [None] * len(kinds), True, True)
    S.call(subs=[lambda I: Sub(I, "A", t1=True)], event=ev.obj)
    w = sk.where(S)
    st = S.loops[0]["init_state"]
    n = len(kinds)
    get = lambda x: I.unpack(field(I, st, x), n) if n > 1 else [field(I, st, x)]
    E = lambda n_, g, s, what: ck.equal(f"{nm}.{n_}", w, I.to_term(g), s, what=what, I=I)
    vals = [ev.val(i, None, None, None) for i in range(n)]
    fl, had = flags([v if k == "bool" else tm.FALSE for k, v in zip(kinds, vals)])
    for i in range(n):
        E(f"value{i}", get("event_values")[i], vals[i], "the initial value of a condition is not remembered")
        E(f"flag{i}", I.truthy(get("event_mask")[i]), fl[i], "before the first step exactly the first true boolean condition must be flagged")
    E("result", field(I, st, "result"), ite(had, EVT, SUCC), "a boolean condition that is true at the start does not stop the solve at once")
    E("interval.start", field(I, st, "event_tprev"), sk.D * S.t0, "the (empty) last interval does not start at the initial time")
    E("interval.end", field(I, st, "event_tnext"), sk.D * S.t0, "the (empty) last interval does not end at the initial time")
    info = I.hget(field(I, st, "event_dense_info").uid)
    ck.require(nm + ".info", sorted(map(str, info)) == ["a", "b"], w, "the dense information does not have the structure of the solver's")


def constructor(ck):
    cls = ck.repo.cls("Event")
    w = at(cls, "__init__")
    def go():
        I = ck.interp(); I.scalar_leaves = True
        a, b = Native(lambda I, a, k: tm.sym("a"), "cond_a"), Native(lambda I, a, k: tm.sym("b"), "cond_b")
        rf = tm.sym("rf")
        for d in (None, True, False):
            dv = tm.NONE if d is None else const(d)
            for nm, c in (("one", a), ("tuple", PyTuple([a, b])), ("nested", PyTuple([a, PyTuple([b, a])]))):
                o = I.call(cls, [c, rf, dv], {})
                g = I.getattr(o, "direction")
                flat = []
                def fl(v): [fl(x) for x in v.items] if isinstance(v, PyTuple) else flat.append(v)
                fl(g)
                want = {"one": 1, "tuple": 2, "nested": 3}[nm]
                ck.require(f"Event({nm},{d}).direction", len(flat) == want and all(I.to_term(x) is dv for x in flat), w, "a single direction does not apply to every condition")
                ck.equal(f"Event({nm},{d}).root_finder", w, I.to_term(I.getattr(o, "root_finder")), rf, I=I, what="the root finder is not kept")
                ck.require(f"Event({nm},{d}).cond_fn", I.getattr(o, "cond_fn") is c, w, "the condition functions are not kept")
        o = I.call(cls, [PyTuple([a, b])], {"direction": PyTuple([tm.TRUE, tm.NONE])})
        g = I.unpack(I.getattr(o, "direction"), 2)
        ck.require("Event.direction.tree", I.to_term(g[0]) is tm.TRUE and I.to_term(g[1]) is tm.NONE, w, "per-condition directions are not kept")
        o = I.call(cls, [a], {})
        ck.require("Event.defaults", I.getattr(o, "direction") is tm.NONE and I.getattr(o, "root_finder") is tm.NONE, w, "the default is not 'either direction, no root find'")
        ck.use(I)
    ck.attempt("Event", go)


def steady_state(ck):
    mod, node = find(ck, "diffrax._event", "steady_state_event")
    w = f"{mod.path}:{node.lineno} steady_state_event"
    for given in (True, False):
        def go():
            I = ck.interp(); I.scalar_leaves = True
            models(I)
            R = lambda p: {n: tm.sym(p + n, "real") for n in ("rtol", "atol")}
            norm = lambda p: Native(lambda I, a, k: app(p + "norm", I.to_term(a[0])), p + "norm")
            g, c = R("g_"), R("c_")
            kw = dict(g, norm=norm("g_")) if given else {}
            f = I.call(I.mkfunc(node, None, mod, None), [], kw)
            ctrl = I.mkobj(ck.repo.cls("AbstractAdaptiveStepSizeController"), dict(c, norm=norm("c_")))
            calls = []
            def func(I, a, k): calls.append(list(a) + list(k.values())); return tm.sym("vf_value")
            solver = I.mkobj(ck.repo.cls("AbstractSolver"), {"func": Native(func, "func")})
            t, y, ar, terms = tm.sym("t", "real"), tm.sym("y"), tm.sym("args"), tm.sym("terms")
            r = I.truthy(I.call(f, [t, y, ar], dict(terms=terms, solver=solver, stepsize_controller=ctrl, t0=tm.sym("t0"), t1=tm.sym("t1"), dt0=tm.sym("dt0"), saveat=tm.sym("saveat"), max_steps=tm.sym("ms"))))
            p, v = ("g_", g) if given else ("c_", c)
            nm = f"steady-state(given={given})"
            ck.equal(nm, w, r, tm.lt(app(p + "norm", tm.sym("vf_value")), v["atol"] + v["rtol"] * app(p + "norm", y)), I=I, what="does not stop exactly when the vector field is within tolerance of zero")
            for n_, a, b in zip(("terms", "t", "y", "args"), calls[0], (terms, t, y, ar)): ck.equal(f"{nm}.{n_}", w, I.to_term(a), b, I=I, what="the vector field is not evaluated at the current time and state")
            ck.use(I)
        ck.attempt(f"steady-state(given={given})", go)


def saved_once(ck):
    """used by C14 as well"""
    S = lambda nm, **kw: (lambda I: Sub(I, nm, **kw))
    q = [tm.sym("q0", "real"), tm.sym("q0", "real") + tm.sym("qgap", "pos")]
    for st in (0, 1, 2):
        for t1 in (False, True):
            if not st and not t1: continue
            nm = f"event-clean-up steps={st} t1={t1}"
            ck.attempt(nm, lambda: after(ck, nm, ["float"], [S("A", steps=st, t1=t1, leaves=1)]))
            ck.attempt(nm + " none", lambda: after(ck, nm + " none", ["float"], [S("A", steps=st, t1=t1, leaves=1)], occurred=False))
    ck.attempt("event-clean-up ts", lambda: after(ck, "event-clean-up ts", ["float"], [S("A", ts=q, leaves=1), S("B", ts=q, t1=True, leaves=2)]))


def run(ck):
    for nm, kinds, dirs in CONFIGS:
        ck.attempt("step." + nm, lambda: step(ck, "step." + nm, kinds, dirs, nm != "up"))
        ck.attempt("initial." + nm, lambda: initial(ck, "initial." + nm, kinds))
        ck.attempt("no-root-finder." + nm, lambda: after_noroot(ck, "no-root-finder." + nm, kinds))
        ck.attempt("root-finder." + nm, lambda: after(ck, "root-finder." + nm, kinds, [lambda I: Sub(I, "A", t1=True)]))
    saved_once(ck)
    constructor(ck)
    steady_state(ck)
    sk.saved_output(ck)
