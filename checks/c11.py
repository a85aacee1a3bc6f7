"""C11: clipped stepping (value graph of ClipStepSizeController over an arbitrary inner controller)."""
import numpy as np
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
from sa.interp import Unsupported
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of the clipping controller (index-search loops unrolled to their bound, with a termination obligation) and value numbering against the clipping specification"
EXPLANATION = ("init and adapt_step_size are abstractly interpreted with an arbitrary inner controller, arrays of n symbolic sorted step/jump times (n up to the bound), every starting hint index, every fill level of the "
               "rejected-step store and the boundary placements of the next start (on, one ulp before, one ulp after a time); each returned component gets the value number of the specification.")
ASSUMPTIONS = ["adjacent floating-point numbers are modelled as x +- ulp", "arrays of at most n=3 (thorough 4) times", "times passed to the inner controller are unconstrained"]
FLOOR = 120
ULP = tm.sym("ulp", "pos")
t0, t1 = tm.sym("t0", "real"), tm.sym("t1", "real")
DOMS = {"ulp": lambda v, n: v.draw(v.rnd(0x99), ("choice", (const(1e-7), const(2e-7), const(3e-8))))}
OK = ("RESULTS.successful", "RESULTS.event_occurred")


def array(xs):
    a = np.empty(len(xs), dtype=object); a[:] = xs
    return a


def prep(ck):
    I = ck.interp()
    from sa.models import ew
    I.user_models["equinox.internal.nextafter"] = lambda I, a, k: ew(lambda x: x + ULP)(I, a[0])
    I.user_models["equinox.internal.prevbefore"] = lambda I, a, k: ew(lambda x: x - ULP)(I, a[0])
    I.loops = []
    def hook(I, cond, body, v, kk):
        if not isinstance(v, T): return None
        for _ in range(9):
            c = I.truthy(I.call(cond, [v], {}))
            if tm.truth(c) is False: return v
            v = I.merge(c, I.call(body, [v], {}), v)
        I.loops.append(I.truthy(I.call(cond, [v], {})))
        return v
    I.while_hook = hook
    return I


class Inner:
    def __init__(self, I):
        self.keep, self.n0, self.n1, self.jump = tm.sym("in_keep", "bool"), tm.sym("in_t0", "real"), tm.sym("in_t1", "real"), tm.sym("in_jump", "bool")
        self.state, self.newstate = tm.sym("in_state", "real"), tm.sym("in_newstate", "real")
        self.result = tm.sym("in_result", ("enum", ("RESULTS.successful", "RESULTS.successful", "RESULTS.dt_min_reached", "RESULTS.event_occurred")))
        self.calls = []
        def adapt(I, a, k):
            self.calls.append((a, k)); return PyTuple([self.keep, self.n0, self.n1, self.jump, self.newstate, self.result])
        def init(I, a, k):
            self.calls.append((a, k)); return PyTuple([self.n1, self.newstate])
        self.wrapped = []
        def wrap(I, a, k):
            self.wrapped.append(I.to_term(a[0])); return tm.sym("in_wrapped", "real")
        self.obj = I.mkobj(I.repo.cls("AbstractAdaptiveStepSizeController"), {"adapt_step_size": Native(adapt, "adapt"), "init": Native(init, "init"), "wrap": Native(wrap, "wrap"),
                                                                             "rtol": tm.sym("in_rtol", "real"), "atol": tm.sym("in_atol", "real"), "norm": tm.sym("in_norm", "real")})


def sorted_hyp(xs): return tm.TRUE if xs and len(xs) > 1 and xs[-1].op == "add" else tm.land_all([tm.le(a + const(1e-3), b) for a, b in zip(xs, xs[1:])])


def first_after(xs, t):
    """first of the sorted xs strictly after t (infinity if none)"""
    r = tm.INF
    for x in reversed(xs): r = ite(tm.lt(t, x), x, r)
    return r


def bump(xs, n0):
    on = tm.lor_all([tm.eq(n0, x) for x in xs])
    before = tm.lor_all([tm.eq(n0 + ULP, x) for x in xs])
    return ite(on, n0 + ULP, ite(before, n0 + ULP + ULP, n0)), tm.lor(on, before)


def okay(r): return tm.lor_all([tm.eq(r, tm.enum(x)) for x in OK])


def adapt(ck, I, cls, inn, S, Sidx, J, Jidx, R, Ridx, store=None):
    scls = ck.repo.cls("_ClipState")
    pair = lambda i, xs: tm.NONE if xs is None else PyTuple([const(i), array(xs)])
    st = I.mkobj(scls, {"step_info": pair(Sidx, S), "jump_info": pair(Jidx, J), "reject_info": pair(Ridx, R), "inner_state": inn.state})
    o = I.mkobj(cls, {"controller": inn.obj, "step_ts": tm.NONE if S is None else array(S), "jump_ts": tm.NONE if J is None else array(J),
                      "store_rejected_steps": tm.NONE if R is None else const(len(R)), "callback_on_reject": tm.NONE})
    y0, y1, ye, args, order = state("y"), state("z"), state("e"), tm.sym("args"), tm.sym("order")
    r = I.unpack(I.call(I.method(cls, "adapt_step_size", o), [t0, t1, y0, y1, args, ye, order, st], {}), 6)
    ck.use(I)
    return r, (y0, y1, args, ye, order)


def case(ck, nm, S, Sidx, J, Jidx, R, Ridx, at_):
    I = prep(ck); inn = Inner(I)
    if at_ is not None: inn.n0 = at_
    cls = ck.repo.cls("ClipStepSizeController")
    r, A = adapt(ck, I, cls, inn, S, Sidx, J, Jidx, R, Ridx)
    w = at(cls, "adapt_step_size")
    hyp = tm.land_all([sorted_hyp(x) for x in (S, J) if x is not None])
    if R is not None: hyp = tm.land(hyp, sorted_hyp(R[Ridx:]))
    E = lambda n, g, s, what, extra=tm.TRUE: ck.equal(f"{nm}.{n}", w, I.to_term(g), s, what=what, I=I, assume=tm.land(hyp, extra), doms=DOMS, n=60)
    for c in I.loops: E("search-terminates", c, tm.FALSE, "the index search has not terminated within its bound")
    a, k = inn.calls[0]
    want = [t0, t1, A[0], A[1], A[2], A[3], A[4], inn.state]
    E("inner-arguments", app("tuple", *[I.to_term(x) for x in list(a) + list(k.values())]), app("tuple", *[I.to_term(x) for x in want]), "the inner controller is not given the step that was made")
    n0, n1, jump, res = inn.n0, inn.n1, inn.jump, inn.result
    if S is not None:
        b, _ = bump(S, n0)
        n1 = app("min", first_after(S, b), n1)
    if J is not None:
        n0, made = bump(J, n0)
        n1 = app("max", n0 + ULP, n1)
        jump = tm.lor(jump, made)
        n1 = app("min", first_after(J, n0) - ULP, n1)
    extra = tm.TRUE
    if R is not None:
        top = R[Ridx] if Ridx < len(R) else tm.INF
        pop = tm.eq(t1, top) if Ridx < len(R) else tm.FALSE
        rest0, rest1 = R[Ridx:], R[Ridx + 1:]
        if Ridx < len(R): res = ite(tm.land(tm.lt(top, t1), okay(res)), tm.enum("RESULTS.internal_error"), res)
        full = tm.land_all([tm.lnot(inn.keep), tm.lnot(pop)]) if Ridx == 0 else tm.FALSE
        res = ite(tm.land(full, okay(res)), tm.enum("RESULTS.max_steps_rejected"), res)
        extra = tm.lnot(full)
        # the store after the step, from the top
        def stack(j):
            g = lambda xs, i: xs[i] if 0 <= i < len(xs) else tm.INF
            kept = ite(pop, g(rest1, j), g(rest0, j))
            pushed = t1 if j == 0 else ite(pop, g(rest1, j - 1), g(rest0, j - 1))
            return ite(inn.keep, kept, pushed)
        n1 = app("min", stack(0), n1)
    E("accepts", r[0], inn.keep, "acceptance is not the inner controller's")
    E("next-start", r[1], n0, "the next step does not start where the inner controller says (just after a jump)")
    E("next-end", r[2], n1, "the next step passes over, or is needlessly shortened by, a requested time", extra)
    E("jump", r[3], jump, "a jump is not reported exactly when one is crossed")
    E("result", r[5], res, "the failure of the rejected-step store is not reported (only) when it happens")
    st = r[4]
    E("inner-state", I.getattr(st, "inner_state"), inn.newstate, "the inner controller's state is lost")
    for fld, xs in (("step_info", S), ("jump_info", J)):
        v = I.getattr(st, fld)
        if xs is None:
            E(fld, v, tm.NONE, "state appears for a request that was not made"); continue
        idx, arr = I.unpack(v, 2)
        for i, x in enumerate(lst_arr(I, arr)): E(f"{fld}.ts{i}", x, xs[i], "the requested times change during the solve")
        i = I.to_term(idx)
        ck.equal(f"{nm}.{fld}.index-in-range", w, tm.land(tm.le(const(0), i), tm.le(i, const(len(xs)))), tm.TRUE, what="the search hint leaves its range", I=I, assume=hyp, doms=DOMS, n=60)
    if R is None: E("reject_info", I.getattr(st, "reject_info"), tm.NONE, "state appears for a request that was not made")
    else:
        idx, arr = I.unpack(I.getattr(st, "reject_info"), 2)
        i = I.to_term(idx)
        for j in range(len(R)):
            ii = i + const(j)
            got = tm.INF
            for q, x in reversed(list(enumerate(lst_arr(I, arr)))): got = ite(tm.eq(ii, const(q)), x, got)
            E(f"rejected-times[{j}]", got, stack(j), "the store of rejected times is not: popped when reached, pushed when rejected", extra)


def lst_arr(I, a):
    if isinstance(a, np.ndarray): return [I.to_term(x) for x in a]
    if isinstance(a, Choice):
        p, q = lst_arr(I, a.a), lst_arr(I, a.b)
        return [ite(a.c, x, y) for x, y in zip(p, q)]
    raise Unsupported("array")


def names(p, n):
    """n symbolic times in increasing order"""
    xs = [tm.sym(f"{p}0", "real")]
    for i in range(1, n): xs.append(xs[-1] + const(1e-3) + tm.sym(f"{p}gap{i}", "pos"))
    return xs[:n]


def anyorder(p, n): return [tm.sym(f"{p}{i}", "real") for i in range(n)]


def init(ck, n, what):
    I = prep(ck); inn = Inner(I)
    cls = ck.repo.cls("ClipStepSizeController")
    S = names("s", n) if "step" in what else None
    J = names("j", n) if "jump" in what else None
    o = I.mkobj(cls, {"controller": inn.obj, "step_ts": tm.NONE if S is None else array(S), "jump_ts": tm.NONE if J is None else array(J),
                      "store_rejected_steps": const(3) if "reject" in what else tm.NONE, "callback_on_reject": tm.NONE})
    y, dt0, args, func, order, terms = state("y"), tm.sym("dt0", "pos"), tm.sym("args"), tm.sym("func"), tm.sym("order"), tm.sym("terms")
    r = I.unpack(I.call(I.method(cls, "init", o), [terms, t0, t1, y, dt0, args, func, order], {}), 2)
    ck.use(I)
    w = at(cls, "init")
    hyp = tm.land_all([sorted_hyp(x) for x in (S, J) if x is not None])
    nm = f"init {'+'.join(what) or 'none'} n={n}"
    a, k = inn.calls[0]
    E = lambda m, g, s, msg: ck.equal(f"{nm}.{m}", w, I.to_term(g), s, what=msg, I=I, assume=hyp, doms=DOMS, n=60)
    E("inner-arguments", app("tuple", *[I.to_term(x) for x in list(a) + list(k.values())]), app("tuple", *[I.to_term(x) for x in (terms, t0, t1, y, dt0, args, func, order)]), "the inner controller is not initialised with the problem")
    n1 = inn.n1
    if S is not None: n1 = app("min", first_after(S, t0), n1)
    if J is not None: n1 = app("min", first_after(J, t0) - ULP, n1)
    E("first-step", r[0], n1, "the first step passes over, or is needlessly shortened by, a requested time")
    st = r[1]
    E("inner-state", I.getattr(st, "inner_state"), inn.newstate, "the inner controller's state is lost")
    for fld, xs in (("step_info", S), ("jump_info", J)):
        v = I.getattr(st, fld)
        if xs is None: E(fld, v, tm.NONE, "state appears for a request that was not made"); continue
        idx, arr = I.unpack(v, 2)
        for i, x in enumerate(lst_arr(I, arr)): E(f"{fld}.ts{i}", x, xs[i], "the requested times are changed")
        i = I.to_term(idx)
        ck.equal(f"{nm}.{fld}.index-in-range", w, tm.land(tm.le(const(0), i), tm.le(i, const(n))), tm.TRUE, what="the search hint leaves its range", I=I, assume=hyp, doms=DOMS, n=60)
    if "reject" in what:
        idx, arr = I.unpack(I.getattr(st, "reject_info"), 2)
        E("rejected-store-empty", idx, const(len(lst_arr(I, arr))), "the store of rejected times does not start empty")
        ck.require(nm + ".rejected-store-size", len(lst_arr(I, arr)) == 3, w, "the store of rejected times does not have the requested capacity")
    else: E("reject_info", I.getattr(st, "reject_info"), tm.NONE, "state appears for a request that was not made")


def construct(ck):
    cls = ck.repo.cls("ClipStepSizeController")
    n = 3
    raw, rawj = anyorder("a", n), anyorder("b", n)
    for d in (1, -1):
        I = prep(ck); inn = Inner(I)
        srt = lambda xs: array(xs)
        S, J = names("s", n), names("j", n)
        o = I.mkobj(cls, {"controller": inn.obj, "step_ts": array(S), "jump_ts": array(J), "store_rejected_steps": const(5), "callback_on_reject": tm.NONE})
        r = I.call(I.method(cls, "wrap", o), [const(d)], {})
        ck.use(I)
        hyp = tm.land(sorted_hyp(S), sorted_hyp(J))
        for fld, xs in (("step_ts", S), ("jump_ts", J)):
            want = [const(d) * x for x in (xs if d == 1 else reversed(xs))]
            for i, (x, y) in enumerate(zip(lst_arr(I, I.getattr(r, fld)), want)):
                ck.equal(f"wrap d={d}.{fld}{i}", at(cls, "wrap"), x, y, what="times are not converted to (and sorted in) the direction of integration", I=I, assume=hyp, doms=DOMS)
        ck.equal(f"wrap d={d}.inner", at(cls, "wrap"), I.getattr(r, "controller"), tm.sym("in_wrapped", "real"), what="the inner controller is not converted", I=I)
        ck.require(f"wrap d={d}.inner-direction", len(inn.wrapped) == 1 and tm.same(inn.wrapped[0], const(d)), at(cls, "wrap"), "the inner controller is not converted with the same direction")
        ck.equal(f"wrap d={d}.store", at(cls, "wrap"), I.getattr(r, "store_rejected_steps"), const(5), what="the store of rejected steps is lost", I=I)
    for fld in ("rtol", "atol", "norm"):
        ck.equal(f"forwards.{fld}", at(cls, fld), I.getattr(o, fld), tm.sym("in_" + fld, "real"), what="does not forward the inner controller's tolerances", I=I)
    I = prep(ck); inn = Inner(I)
    r = I.call(cls, [inn.obj], {"step_ts": array(raw), "jump_ts": array(rawj), "store_rejected_steps": const(4)})
    ck.use(I)
    for fld, xs in (("step_ts", raw), ("jump_ts", rawj)):
        want = lst_arr(I, I.call(Ext("jax.numpy.sort"), [array(xs)], {}))
        for i, (x, y) in enumerate(zip(lst_arr(I, I.getattr(r, fld)), want)):
            ck.equal(f"construct.{fld}{i}", at(cls, "__init__"), x, y, what="requested times are not put in order", I=I)
    ck.equal("construct.store", at(cls, "__init__"), I.getattr(r, "store_rejected_steps"), const(4), what="the requested capacity is lost", I=I)
    for v, bad in ((0, True), (-2, True), (1, False), (None, False)):
        I = prep(ck); inn = Inner(I)
        try: I.call(cls, [inn.obj], {"store_rejected_steps": const(v)})
        except Unsupported as e: ck.undecided(f"construct.capacity {v}", e); continue
        ck.equal(f"construct.capacity {v}", at(cls, "__init__"), tm.lor_all([g.cond for g in I.guards]), const(bad), what="capacities are refused other than when not positive", I=I)


    for which in ("step_ts", "jump_ts"):
        I = prep(ck); inn = Inner(I)
        S = names("s", n)
        o = I.mkobj(cls, {"controller": inn.obj, "step_ts": tm.NONE, "jump_ts": tm.NONE, "store_rejected_steps": tm.NONE, "callback_on_reject": tm.NONE, which: array(S)})
        r = I.call(I.method(cls, "wrap", o), [const(-1)], {})
        for fld in ("step_ts", "jump_ts"):
            v = I.getattr(r, fld)
            if fld != which: ck.equal(f"wrap {which}-only.{fld}", at(cls, "wrap"), v, tm.NONE, what="a request appears that was not made", I=I); continue
            for i, (x, y) in enumerate(zip(lst_arr(I, v), [const(-1) * x for x in reversed(S)])):
                ck.equal(f"wrap {which}-only.{fld}{i}", at(cls, "wrap"), x, y, what="times are not converted to (and sorted in) the direction of integration", I=I, doms=DOMS)
    I = prep(ck)
    fixed = I.mkobj(ck.repo.cls("ConstantStepSize"), {})
    try: I.call(cls, [fixed], {})
    except Unsupported as e: ck.undecided("construct.inner-fixed", e)
    ck.equal("construct.inner-fixed", at(cls, "__init__"), tm.lor_all([g.cond for g in I.guards]), tm.TRUE, what="a fixed-step inner controller is not refused", I=I)
    I = prep(ck); inn = Inner(I)
    I.call(cls, [inn.obj], {"step_ts": array(raw)})
    ck.equal("construct.inner-adaptive", at(cls, "__init__"), tm.lor_all([g.cond for g in I.guards]), tm.FALSE, what="an adaptive inner controller is refused", I=I)


def run(ck):
    N = 3
    ck.attempt("construct", lambda: construct(ck))
    for what in ((), ("step",), ("jump",), ("reject",), ("step", "jump"), ("step", "jump", "reject")):
        for n in ((0, 1, N) if "step" in what or "jump" in what else (N,)):
            ck.attempt(f"init {what} {n}", lambda: init(ck, n, what))
    ck.attempt("none", lambda: case(ck, "no-requests", None, 0, None, 0, None, 0, None))
    S, J, R = names("s", N), names("j", N), names("r", N)
    for n in (0, 1, N):
        for hint in range(n + 1):
            for who in ("step", "jump"):
                xs = (S if who == "step" else J)[:n]
                spots = [("anywhere", None)]
                if n:
                    m = xs[n // 2]
                    spots += [("on", m), ("before", m - ULP), ("2before", m - ULP - ULP), ("after", m + ULP)]
                for sn, sp in spots:
                    nm = f"{who} n={n} hint={hint} start={sn}"
                    if who == "step": ck.attempt(nm, lambda: case(ck, nm, xs, hint, None, 0, None, 0, sp))
                    else: ck.attempt(nm, lambda: case(ck, nm, None, 0, xs, hint, None, 0, sp))
    for fill in range(N + 1):
        nm = f"reject free={fill}"
        ck.attempt(nm, lambda: case(ck, nm, None, 0, None, 0, R, fill, None))
        if fill < N:
            nm2 = nm + " reached"
            def reached():
                RR = list(R); RR[fill] = t1
                case(ck, nm2, None, 0, None, 0, RR, fill, None)
            ck.attempt(nm2, reached)
    for sn, sp in (("anywhere", None), ("on jump", J[1]), ("before jump", J[1] - ULP), ("on step", S[1]), ("before step", S[1] - ULP)):
        nm = f"all start={sn}"
        ck.attempt(nm, lambda: case(ck, nm, S, 1, J, 2, R, 1, sp))
