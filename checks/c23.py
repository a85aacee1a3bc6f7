"""C23: progress meters are thread-safe, update once per step and are always closed."""
import itertools
import numpy as np
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, lst, state
from sa.framework import unmodelled
from sa.interp import Unsupported
from checks import loopkit as lk
from checks.solvekit import Solve
LEVEL = "translation_validation"
TECHNIQUE = "lock-set (typestate) analysis of the host-side manager by abstract interpretation of its callbacks; all short histories of register/report/close compared with a reference store; gated value-graph extraction of the meters' steps"
EXPLANATION = ("The manager's host callbacks are captured and abstractly interpreted: every read or write of its shared state and every use of a bar must happen while its lock is held, the lock is never taken twice and is released on every "
               "path. All histories of up to six registrations, reports and closes are interpreted and compared with a reference store. The meters' device-side steps are extracted with a batch of two elements and compared with their "
               "specification; the solve registers once, reports the fraction of the interval once per step and closes once with the final state.")
ASSUMPTIONS = ["io_callback runs its function exactly once per execution; pure_callback runs it if its result is used", "unvmap_max and unvmap_all reduce over the whole batch"]
FLOOR = 1000
S = lambda n, s="real": tm.sym(n, s)


class M:
    """the manager with its lock and callbacks tracked"""
    def __init__(self, ck):
        self.ck = ck
        I = self.I = ck.interp(); lk.models(I)
        I.concrete_arrays = True; I.scalar_leaves = True
        self.held = 0; self.locks = []; self.bad = []; self.cbs = []
        def lock(kind):
            def f(I, a, k):
                o = I.mkobj(None, {})
                def acq(I, a, k): self.enter(o); return tm.TRUE
                def rel(I, a, k): self.leave(o); return tm.NONE
                I.hset(o.uid, {"acquire": Native(acq, "acquire"), "release": Native(rel, "release"), "kind": const(kind)})
                self.locks.append(o); return o
            return f
        I.user_models["threading.Lock"] = lock("lock"); I.user_models["threading.RLock"] = lock("rlock")
        I.with_hook = lambda I, v, on: (self.enter(v) if on else self.leave(v)) if any(v is l for l in self.locks) else None
        def cb(kind):
            def f(I, a, k):
                a = list(a); fn = a.pop(0) if a else k.pop("callback"); shape = a.pop(0) if a else k.get("result_shape_dtypes", k.get("result_shape_dtype", tm.NONE))
                self.cbs.append(dict(kind=kind, fn=fn, shape=shape, args=a, kw=dict(k), n=len(self.cbs)))
                return S(f"callback{len(self.cbs) - 1}")
            return f
        for n in ("jax.experimental.io_callback", "jax.io_callback"): I.user_models[n] = cb("io")
        I.user_models["jax.pure_callback"] = cb("pure"); I.user_models["jax.debug.callback"] = cb("debug")
        I.user_models["equinox.internal.nonbatchable"] = lambda I, a, k: a[0]
        red = lambda op: lambda I, a, k: self.reduce(op, a[0])
        I.user_models["equinox.internal.unvmap_max"] = red("max"); I.user_models["equinox.internal.unvmap_all"] = red("all"); I.user_models["equinox.internal.unvmap_any"] = red("any")
        I.user_models["numpy.unique"] = lambda I, a, k: a[0]
        I.user_models["numpy.array"] = lambda I, a, k: a[0]
        I.user_models["numpy.asarray"] = lambda I, a, k: a[0]
        self.cls = ck.repo.cls("_ProgressMeterManager")
        self.mgr = I.call(self.cls, [], {})
        if isinstance(self.mgr, Obj):
            g = I.getattr
            def getattr_(v, n, *a, **k):
                r = g(v, n, *a, **k)
                if v is self.mgr and not isinstance(r, (Func, Bound)) and not any(r is l for l in self.locks): self.touch("reads", n)
                return r
            I.getattr = getattr_
            s = I.setattr
            def setattr_(v, n, *a, **k):
                if v is self.mgr: self.touch("writes", n)
                return s(v, n, *a, **k)
            I.setattr = setattr_

    def reduce(self, op, x):
        I = self.I
        if isinstance(x, np.ndarray):
            v = [I.to_term(y) for y in x.reshape(-1)]
            r = v[0]
            for y in v[1:]: r = app("max", r, y) if op == "max" else tm.land(r, y) if op == "all" else tm.lor(r, y)
            return r
        return I.to_term(x)

    def enter(self, o):
        if self.held and tm.truth(tm.eq(self.I.to_term(self.I.hget(o.uid)["kind"]), const("lock"))) is True: self.bad.append("the lock is taken twice by the same thread (deadlock)")
        self.held += 1

    def leave(self, o):
        if not self.held: self.bad.append("the lock is released without being held")
        self.held -= 1

    def touch(self, how, n):
        if not self.held: self.bad.append(f"{how} {n} without holding the lock")

    def bar(self, what):
        if not self.held: self.bad.append(f"{what} without holding the lock")

    def verdict(self, nm, w):
        if self.held: self.bad.append("the lock is still held at the end")
        self.ck.require(nm + ".lock", not self.bad, w, "; ".join(sorted(set(self.bad))))
        self.bad = []; self.held = 0

    def method(self, n, *a, **k): return self.I.call(self.I.method(self.cls, n, self.mgr), list(a), k)


def histories(ck):
    cls = ck.repo.cls("_ProgressMeterManager")
    w = at(cls)
    n = [0]
    def one(hist):
        m = M(ck); I = m.I
        tag = "history." + "-".join(o if isinstance(o, str) else f"{o[0]}{o[1]}" for o in hist)
        log = []      # observed
        ref = []      # specified
        m.bad = []
        ids, opened = [], {}
        bars = []
        def init_bar(I, a, k):
            m.bar("a meter is created"); b = S(f"bar{len(bars)}"); bars.append(b); return b
        def step_bar(I, a, k): m.bar("a meter is updated"); log.append(("report", I.to_term(a[0]), I.to_term(a[1]))); return tm.NONE
        def close_bar(I, a, k): m.bar("a meter is closed"); log.append(("close", I.to_term(a[0]))); return tm.NONE
        host = lambda c, args: I.call(c["fn"], args, {})
        made = lambda j, k0: ck.require(f"{tag}.{j}.one-callback", len(m.cbs) == k0 + 1, w, f"an operation makes {len(m.cbs) - k0} host calls instead of one")
        for j, o in enumerate(hist):
            k0 = len(m.cbs)
            if o == "init":
                m.method("init", Native(init_bar, "init_bar"))
                if not made(j, k0): return
                c = m.cbs[k0]
                r = I.to_term(host(c, list(c["args"])))
                ck.require(f"{tag}.{j}.fresh", all(tm.truth(tm.eq(r, x)) is False for x in ids), w, "two meters share an identifier")
                ids.append(r); opened[len(ids) - 1] = bars[-1]
            elif o[0] == "step":
                p = S(f"p{j}")
                m.method("step", Native(step_bar, "step_bar"), p, ids[o[1]])
                if not made(j, k0): return
                c = m.cbs[k0]
                r = host(c, list(c["args"]))
                ck.equal(f"{tag}.{j}.returns", w, I.to_term(r), ids[o[1]], I=I, what="a report does not hand its identifier on: later reports of this meter go elsewhere")
                if o[1] in opened: ref.append(("report", opened[o[1]], p))
            else:
                m.method("close", Native(close_bar, "close_bar"), ids[o[1]])
                if not made(j, k0): return
                c = m.cbs[k0]
                host(c, list(c["args"]))
                ref.append(("close", opened.pop(o[1])))
        m.verdict(tag, w)
        ck.require(tag + ".effects", [(a[0],) + tuple(x.uid for x in a[1:]) for a in log] == [(a[0],) + tuple(x.uid for x in a[1:]) for a in ref], w,
                   f"meters saw {[tuple(map(str, x)) for x in log]} instead of {[tuple(map(str, x)) for x in ref]}")
        m.held = 1
        left = sum(len(I.hget(I.getattr(m.mgr, q).uid)) for q in I.fields(m.mgr) if isinstance(I.fields(m.mgr)[q], PyDict))
        ck.require(tag + ".forgotten", left == len(opened), w, f"{left} meters are kept although {len(opened)} are open")
        ck.use(I)
    def gen(prefix, ids, opened, depth):
        if prefix: yield prefix
        if depth == 0: return
        if ids < 3: yield from gen(prefix + ["init"], ids + 1, opened | {ids}, depth - 1)
        for i in range(ids): yield from gen(prefix + [("step", i)], ids, opened, depth - 1)
        for i in sorted(opened): yield from gen(prefix + [("close", i)], ids, opened - {i}, depth - 1)
    for h in gen([], 0, frozenset(), 6 if ck.tier == "thorough" else 5):
        if len(h) < 2 and h != ["init"]: continue
        ck.attempt("history." + "-".join(map(str, h)), lambda: one(list(h)))


def callbacks(ck):
    """what reaches the host, and how"""
    cls = ck.repo.cls("_ProgressMeterManager")
    def go():
        m = M(ck); I = m.I
        p = np.array([S("pa"), S("pb")], dtype=object)
        idx = S("idx")
        r = m.method("init", S("init_bar"))
        ck.require("init.ordered", m.cbs[0]["kind"] == "io", at(cls, "init"), "registration is a pure callback: it may be dropped or shared between solves")
        ck.equal("init.result", at(cls, "init"), I.to_term(r), S("callback0"), I=I, what="registration does not return the host's identifier")
        r = m.method("step", S("step_bar"), p, idx)
        c = m.cbs[1]
        ck.equal("step.result", at(cls, "step"), I.to_term(r), S("callback1"), I=I, what="the report's result is not used: it may be dropped")
        if ck.require("step.arguments", len(c["args"]) == 2, at(cls, "step"), "a report does not pass progress and identifier"):
            ck.equal("step.slowest", at(cls, "step"), I.to_term(c["args"][0]), app("min", S("pa"), S("pb")), I=I, what="the progress reported is not that of the slowest batch element")
            ck.equal("step.identifier", at(cls, "step"), I.to_term(c["args"][1]), idx, I=I, what="a report is for another meter")
        vm = c["kw"].get("vmap_method", tm.NONE)
        ck.require("step.batchable", not (isinstance(vm, T) and tm.truth(tm.eq(vm, tm.NONE)) is True), at(cls, "step"), "a report cannot be made from a batched solve")
        m.method("close", S("close_bar"), idx)
        if not ck.require("close.callback", len(m.cbs) == 3, at(cls, "close"), "closing makes no host call"): return
        ck.require("close.ordered", m.cbs[2]["kind"] == "io", at(cls, "close"), "closing is a pure callback whose result is unused: it is dropped")
        ck.equal("close.identifier", at(cls, "close"), I.to_term(m.cbs[2]["args"][0]), idx, I=I, what="another meter is closed")
        ck.require("device.lock", True, at(cls), "")
        ck.use(I)
    ck.attempt("callbacks", go)


def meter(ck, name, fields, batch):
    """a meter on a fresh manager, its manager calls recorded"""
    I = ck.interp(); lk.models(I)
    m = M.__new__(M); m.ck, m.I = ck, I
    I.concrete_arrays = True
    I.user_models["equinox.internal.nonbatchable"] = lambda I, a, k: a[0]
    for n, op in (("max", "max"), ("all", "all"), ("any", "any")): I.user_models["equinox.internal.unvmap_" + n] = lambda I, a, k, op=op: m.reduce(op, a[0])
    calls = []
    def rec(n):
        def f(I, a, k):
            names = {"init": ("init_bar",), "step": ("step_bar", "progress", "idx"), "close": ("close_bar", "idx")}[n]
            d = dict(zip(names, a[1:] if a and isinstance(a[0], Obj) else a)); d.update(k)
            calls.append((n, d, I.path() if hasattr(I, "path") else None))
            return app("manager." + n, *[I.to_term(d[q]) for q in names[1:]])
        return f
    for n in ("init", "step", "close"): I.opaque["diffrax._progress_meter._ProgressMeterManager." + n] = rec(n)
    o = I.mkobj(ck.repo.cls(name), fields)
    return I, o, calls, m


def text(ck):
    R = ck.repo
    cls, st = R.cls("TextProgressMeter"), R.cls("_TextProgressMeterState")
    for batch in (1, 2):
        def go():
            mi = S("minimum_increase", "pos")
            I, o, calls, m = meter(ck, "TextProgressMeter", {"minimum_increase": mi}, batch)
            w = at(cls, "step")
            pv = [S(f"p{i}") for i in range(batch)]; qv = [S(f"q{i}") for i in range(batch)]
            mk = lambda v: v[0] if batch == 1 else np.array(v, dtype=object)
            s = I.mkobj(st, {"progress": mk(qv), "meter_idx": S("idx")})
            r = I.call(I.method(cls, "step", o), [s, mk(pv)], {})
            ck.use(I)
            pred = tm.land_all([tm.lor(tm.lt(mi, p - q), tm.eq(p, const(1))) for p, q in zip(pv, qv)])
            g = I.getattr(r, "progress"); g = [g] if batch == 1 else (list(g.reshape(-1)) if isinstance(g, np.ndarray) else [app("getitem", I.to_term(g), const(i)) for i in range(batch)])
            doms = {q.data[0]: (lambda v, n: None) for q in ()}
            for i in range(batch): ck.equal(f"text.{batch}.progress{i}", w, I.to_term(g[i]), ite(pred, pv[i], qv[i]), I=I, what="the progress remembered is not the one last printed")
            rep = app("manager.step", I.to_term(mk(pv)), S("idx"))
            ck.equal(f"text.{batch}.report", w, I.to_term(I.getattr(r, "meter_idx")), ite(pred, rep, S("idx")), I=I, what="progress is not printed exactly when it increased enough everywhere or reached the end; or the report's result is dropped")
            bars = [d["step_bar"] for n, d, _ in calls if n == "step"]
            ck.require(f"text.{batch}.once", len(bars) == 1, w, f"{len(bars)} reports per step")
        ck.attempt(f"text.{batch}", go)
    lifecycle(ck, "TextProgressMeter", "text", {"minimum_increase": S("mi")}, {"progress": const(0)})


def tqdm(ck):
    R = ck.repo
    cls, st = R.cls("TqdmProgressMeter"), R.cls("_TqdmProgressMeterState")
    for batch in (1, 2):
        def go():
            rs = S("refresh_steps", ("choice", (1, 2, 3, 5)))
            I, o, calls, m = meter(ck, "TqdmProgressMeter", {"refresh_steps": rs}, batch)
            w = at(cls, "step")
            sv = [S(f"s{i}", ("choice", tuple(range(9)))) for i in range(batch)]; pv = [S(f"p{i}") for i in range(batch)]
            mk = lambda v: v[0] if batch == 1 else np.array(v, dtype=object)
            s = I.mkobj(st, {"step": mk(sv), "meter_idx": S("idx")})
            r = I.call(I.method(cls, "step", o), [s, mk(pv)], {})
            ck.use(I)
            mx = sv[0] if batch == 1 else app("max", sv[0], sv[1])
            I2 = ck.interp()
            pred = tm.eq(app("mod", mx, rs), const(0))
            rep = app("manager.step", I.to_term(mk(pv)), S("idx"))
            ck.equal(f"tqdm.{batch}.report", w, I.to_term(I.getattr(r, "meter_idx")), ite(pred, rep, S("idx")), I=I, what="the bar is not refreshed exactly every refresh_steps steps of the whole batch; or the report's result is dropped")
            g = I.getattr(r, "step"); g = [g] if batch == 1 else list(g.reshape(-1))
            for i in range(batch): ck.equal(f"tqdm.{batch}.step{i}", w, I.to_term(g[i]), sv[i] + const(1), I=I, what="steps are miscounted")
            ck.require(f"tqdm.{batch}.once", len([1 for n, _, _ in calls if n == "step"]) == 1, w, "not one report per step")
        ck.attempt(f"tqdm.{batch}", go)
    lifecycle(ck, "TqdmProgressMeter", "tqdm", {"refresh_steps": S("rs")}, {"step": const(0)})


def lifecycle(ck, name, tag, fields, start):
    cls = ck.repo.cls(name)
    def go():
        I, o, calls, m = meter(ck, name, fields, 1)
        r = I.call(I.method(cls, "init", o), [], {})
        ck.use(I)
        w = at(cls, "init")
        ck.require(tag + ".init.once", [n for n, _, _ in calls] == ["init"], w, "a meter is not registered exactly once")
        ck.equal(tag + ".init.identifier", w, I.to_term(I.getattr(r, "meter_idx")), app("manager.init"), I=I, what="the identifier is not the manager's")
        for q, v in start.items(): ck.equal(f"{tag}.init.{q}", w, I.to_term(I.getattr(r, q)), v, I=I, what=f"{q} does not start at zero")
        fn = calls[0][1]["init_bar"]
        calls.clear()
        c = I.call(I.method(cls, "close", o), [I.mkobj(ck.repo.cls(f"_{name}State"), dict(start, meter_idx=S("idx")))], {})
        w = at(cls, "close")
        ck.require(tag + ".close.once", [n for n, _, _ in calls] == ["close"], w, "a meter is not closed exactly once")
        ck.equal(tag + ".close.identifier", w, I.to_term(calls[0][1]["idx"]), S("idx"), I=I, what="another meter is closed")
    ck.attempt(tag + ".lifecycle", go)


def bars(ck):
    """the host-side bars: what is shown"""
    R = ck.repo
    def printing(I):
        out = []
        def pr(I, a, k): out.append((I.pc_term(), app("printed", *[I.to_term(x) for x in a]))); return tm.NONE
        I.user_models["builtins.print"] = pr
        return out
    def textbar():
        I = ck.interp(); lk.models(I); I.concrete_arrays = True
        cls = R.cls("TextProgressMeter")
        out = printing(I)
        b = I.call(I.getattr(cls, "_init_bar"), [], {})
        p = S("p")
        one = lambda n, m, cond, what: ck.require(n + ".once", len(out) == 1, at(cls, m), f"{what} ({len(out)} lines)") and ck.equal(n, at(cls, m), out[0][0], cond, I=I, what=what)
        one("text.bar.shows-start", "_init_bar", tm.TRUE, "the start is not shown exactly once")
        out.clear()
        ck.equal("text.bar.starts", at(cls, "_init_bar"), I.to_term(I.subscript(b, const(0))), const(0), I=I, what="a new meter does not start at zero")
        I.call(I.getattr(cls, "_step_bar"), [b, p], {})
        one("text.bar.shows", "_step_bar", tm.TRUE, "a report is not shown exactly once")
        out.clear()
        ck.equal("text.bar.remembers", at(cls, "_step_bar"), I.to_term(I.subscript(b, const(0))), p, I=I, what="the last progress is not remembered: the end is printed twice or never")
        I.call(I.getattr(cls, "_close_bar"), [b], {})
        one("text.bar.shows-end", "_close_bar", tm.lnot(tm.eq(p, const(1))), "the end is not shown exactly once over the meter's life")
        ck.use(I)
    ck.attempt("text.bar", textbar)
    def tqdmbar():
        I = ck.interp(); lk.models(I); I.concrete_arrays = True
        cls = R.cls("TqdmProgressMeter")
        done = []
        mk = lambda: I.mkobj(None, {"n": const(0), **{q: Native(lambda I, a, k, q=q: (done.append((q, [I.to_term(x) for x in a], {x: I.to_term(y) for x, y in k.items()})), tm.NONE)[1], q) for q in ("refresh", "close", "reset", "clear", "set_description", "display")}})
        I.user_models["builtins.round"] = lambda I, a, k: app("round", *[I.to_term(x) for x in a])
        base = mk
        def mk():
            b = base(); d = dict(I.fields(b))
            def upd(I, a, k):
                done.append(("update", [], {}))
                I.setattr(b, "n", I.to_term(I.getattr(b, "n")) + I.to_term(a[0] if a else k.get("n", const(1)))); return tm.TRUE
            d["update"] = Native(upd, "update"); I.hset(b.uid, d); return b
        b = mk(); p = S("p")
        I.call(I.getattr(cls, "_step_bar"), [b, p], {})
        ck.equal("tqdm.bar.percent", at(cls, "_step_bar"), I.to_term(I.getattr(b, "n")), app("round", const(100) * p, const(2)), I=I, what="the bar does not show the percentage done")
        ck.require("tqdm.bar.shown", any(q == "refresh" for q, _, _ in done), at(cls, "_step_bar"), "the bar is not redrawn")
        ck.require("tqdm.bar.open", not any(q == "close" for q, _, _ in done), at(cls, "_step_bar"), "a report closes the bar")
        done.clear(); b = mk()
        I.call(I.getattr(cls, "_close_bar"), [b], {})
        ck.equal("tqdm.bar.full", at(cls, "_close_bar"), I.to_term(I.getattr(b, "n")), const(100), I=I, what="a finished bar is not full")
        ck.require("tqdm.bar.closed", [q for q, _, _ in done].count("close") == 1, at(cls, "_close_bar"), "a finished bar is not closed exactly once")
        ck.use(I)
    ck.attempt("tqdm.bar", tqdmbar)
    def tqdmnew():
        I = ck.interp(); lk.models(I)
        cls = R.cls("TqdmProgressMeter")
        new = []
        I.user_models["tqdm.tqdm"] = lambda I, a, k: (new.append((a, k)), S("bar"))[1]
        b = I.call(I.getattr(cls, "_init_bar"), [], {})
        ck.equal("tqdm.bar.new", at(cls, "_init_bar"), I.to_term(b), S("bar"), I=I, what="the bar is not returned")
        if ck.require("tqdm.bar.new.once", len(new) == 1, at(cls, "_init_bar"), "not one bar per meter"):
            a, k = new[0]
            tot = k.get("total", a[2] if len(a) > 2 else tm.NONE)
            ck.equal("tqdm.bar.total", at(cls, "_init_bar"), I.to_term(tot), const(100), I=I, what="the bar is not full at 100 percent")
        ck.use(I)
    ck.attempt("tqdm.bar.new", tqdmnew)


def solve(ck):
    """registered once, closed once with the final state, whatever the solve's outcome; reported once per step"""
    for throw in (False, True):
        for nsub in (1, 2):
            nm = f"solve.throw={throw + 0}.outputs={nsub}"
            def go():
                St = Solve(ck); I = St.I
                fin = {}
                def final(I, k):
                    st = k["init_state"]; d = dict(I.fields(st)); d["progress_meter_state"] = S("final_meter_state"); fin["o"] = I.mkobj(st.cls, d); return fin["o"]
                St.call(subs=[lambda I, i=i: lk.Sub(I, "AB"[i], t1=True) for i in range(nsub)], throw=throw, final=final)
                w = f"{St.mod.path}:{St.node.lineno} {St.node.name}"
                seq = [n for n, _ in St.meter_calls]
                ck.require(nm + ".lifecycle", seq == ["init", "close"], w, f"the meter sees {seq} instead of one registration and one close")
                ck.equal(nm + ".state", w, I.to_term(I.getattr(St.loops[0]["init_state"], "progress_meter_state")), S("meter_state"), I=I, what="the integration does not start from the registered meter's state")
                ck.require(nm + ".meter", St.loops[0]["progress_meter"] is St.meter, w, "the integration reports to another meter")
                cl = [a for n, a in St.meter_calls if n == "close"]
                if cl: ck.equal(nm + ".close", w, cl[0][0], S("final_meter_state"), I=I, what="the meter is closed with another state than the final one: the close may be run before the last report")
            ck.attempt(nm, go)


def steps(ck):
    """once per step the fraction of the interval that is done, with the meter's state threaded"""
    for nm, kw in (("plain", dict(subs=[lambda I: lk.Sub(I, "A", t1=True)])), ("steps", dict(subs=[lambda I: lk.Sub(I, "A", steps=1)])), ("dense", dict(subs=[], dense=True))):
        def go():
            K = lk.Kit(ck, **kw); I = K.I
            sd, new, cond = K.one_step()
            w = f"{K.mod.path}:{K.node.lineno} {K.node.name}"
            if not ck.require(f"loop.{nm}.once", len(K.pm_calls) == 1, w, "progress is not reported once per step"): return
            st, pr = [I.to_term(x) for x in K.pm_calls[0][:2]]
            ck.equal(f"loop.{nm}.state", w, st, I.to_term(sd["progress_meter_state"]), I=I, what="the meter's state is not the one it returned last: reports may be dropped or reordered")
            tp = app("min", K.ct0, K.t1)
            ck.equal(f"loop.{nm}.progress", w, pr, (tp - K.t0) / (K.t1 - K.t0), I=I, assume=tm.lt(K.t0, K.t1), what="the progress reported is not the fraction of the interval that is done")
            ck.equal(f"loop.{nm}.kept", w, I.to_term(I.getattr(new, "progress_meter_state")), app("meter", st, pr), I=I, what="the meter's new state is dropped: its report may never run")
        ck.attempt("loop." + nm, go)


def silent(ck):
    cls = ck.repo.cls("NoProgressMeter")
    def go():
        I = ck.interp(); lk.models(I)
        o = I.mkobj(cls, {})
        s = I.call(I.method(cls, "init", o), [], {})
        r = I.call(I.method(cls, "step", o), [s, S("p")], {})
        I.call(I.method(cls, "close", o), [r], {})
        ck.equal("none.state", at(cls, "step"), I.to_term(r), I.to_term(s), I=I, what="the state's structure changes between steps")
        ck.use(I)
    ck.attempt("none", go)


def run(ck):
    histories(ck); callbacks(ck); text(ck); tqdm(ck); bars(ck); solve(ck); steps(ck); silent(ck)
