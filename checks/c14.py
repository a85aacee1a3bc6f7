"""C14: saved output."""
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
from sa.interp import Unsupported
from checks.loopkit import *
from checks import solvekit
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of every write to an output buffer (before, during and after the loop, for an arbitrary state) and value numbering against a list-append reference; capacity decided by constant propagation over the allocation"
EXPLANATION = ("The output buffers, their positions and the indices of requested times are symbolic; each piece of the loop (initial save, per-step saves, final saves, empty interval) is extracted as a function of them and compared, "
               "slot by slot, with appending the requested entries in order. Buffer capacity is compared with the worst-case number of entries for every combination of requests and small step limits.")
ASSUMPTIONS = ["output buffers of 4 slots at every index (2 leaves each)", "up to 3 requested times per sub-request, any number of them already used", "step limits 1..8 and subsampling 1..4 for the capacity obligations",
               "bounded while loops run their body while the condition holds"]
FLOOR = 500


class Model:
    """Reference output: list append."""
    def __init__(self, sub):
        self.ts, self.ys, self.ix = list(sub.bts), [list(y) for y in sub.bys], sub.ix
    def append(self, cond, t, vals):
        for i in range(N):
            here = tm.land(cond, tm.eq(self.ix, const(i)))
            self.ts[i] = ite(here, t, self.ts[i])
            for l, v in enumerate(vals): self.ys[l][i] = ite(here, v, self.ys[l][i])
        self.ix = self.ix + ite(cond, const(1), const(0))


def compare(ck, nm, w, I, sub, ss, M, what, index=True, tix=None, assume=None):
    ts, ys, ix, ti = sub.read(I, ss)
    E = lambda n, g, s: ck.equal(f"{nm}.{n}", w, g, s, what=what, I=I, doms=DOMS, assume=assume)
    for i in range(N):
        E(f"ts[{i}]", ts[i], M.ts[i])
        for l in range(sub.nl): E(f"ys{l}[{i}]", ys[l][i], M.ys[l][i])
    if index: E("index", ix, M.ix)
    if tix is not None: E("request-index", ti, tix)


def every(a, n): return tm.TRUE if n == 1 else tm.eq(app("mod", a, const(n)), const(0))


def by_steps_possible(sub): return sub.steps > 0 or not sub.t1


def qs(n):
    out = [tm.sym("q0", "real")]
    for i in range(1, n): out.append(out[-1] + tm.sym(f"qgap{i}", "pos"))
    return out[:n]


def parts(K, v): return [v] if len(K.subs) == 1 else K.I.unpack(v, len(K.subs))


def before(ck, nm, subs):
    K = Kit(ck, subs=subs)
    I = K.I
    i = K.sym_state("i_")
    K.run(K.mk(i), K.mk(K.sym_state("f_")))
    s = K.cap["init_val"]
    for sub, v in zip(K.subs, parts(K, field(I, s, "save_state"))):
        M = Model(sub)
        if sub.t0: M.append(tm.TRUE, K.t0, sub.value(K.t0, i["y"].items, K.args))
        compare(ck, f"{nm}.initial.{sub.nm}", where(K), I, sub, v, M, "the initial value is not saved exactly when requested", tix=sub.tix)


def during(ck, nm, subs, used=0, **kw):
    K = Kit(ck, subs=subs, **kw)
    I = K.I
    for s in K.subs: s.tix = const(used if s.ts is not None else 0)
    d, new, _ = K.one_step()
    k = K.keep
    tp = app("min", K.ct0, K.t1)
    y = [ite(k, a, b) for a, b in zip(K.y1.items, d["y"].items)]
    info = dict(t0=d["tprev"], t1=d["tnext"], **K.info)
    for sub, v in zip(K.subs, parts(K, field(I, new, "save_state"))):
        M = Model(sub)
        n = const(used)
        if sub.ts is not None:
            for q in sub.ts[used:]:
                c = tm.land(k, tm.le(q, d["tnext"]))
                M.append(c, q, sub.value(q, K.evaluate(info, q), K.args))
                n = n + ite(c, const(1), const(0))
        if sub.steps:
            acc = d["num_accepted_steps"] + ite(k, const(1), const(0))
            M.append(tm.land(k, every(acc, sub.steps)), tp, sub.value(tp, y, K.args))
        compare(ck, f"{nm}.step.{sub.nm}", where(K), I, sub, v, M, "a step does not append exactly the requested times inside it (from its own interpolation) and, every n-th accepted step, its end", tix=n if sub.ts is not None else None)


def after(ck, nm, subs, empty=False, full=False, nonempty_steps=None):
    """no event"""
    T0 = tm.sym("t0", "real")
    K = Kit(ck, subs=subs, t0=T0, t1=T0 if empty else None)
    I = K.I
    f = K.sym_state("f_")
    if empty: f["num_accepted_steps"] = const(0)
    if full:
        for s in K.subs: s.ix = const(N)
        f = K.sym_state("f_")
    r = K.run(K.mk(K.sym_state("i_")), K.mk(f))
    assume = tm.TRUE
    if not empty: assume = tm.lt(K.t0, K.t1)
    room = tm.TRUE
    for sub, v in zip(K.subs, parts(K, field(I, r[0], "save_state"))):
        M = Model(sub)
        if empty and sub.ts is not None:
            for _ in sub.ts: M.append(tm.TRUE, K.t0, sub.value(K.t0, f["y"].items, K.args))
            room = tm.le(sub.ix + const(len(sub.ts) + (1 if sub.t1 else 0)), const(N))
        by_steps = tm.FALSE
        if sub.steps:
            a = f["num_accepted_steps"]
            by_steps = tm.land(tm.lt(const(0), a), every(a, sub.steps))
        want = tm.lnot(by_steps) if sub.t1 else tm.FALSE
        h = tm.land_all([assume, room])
        if full: h = tm.land(h, tm.lnot(want))
        if not by_steps_possible(sub) and full: continue
        M.append(want, f["tprev"], sub.value(f["tprev"], f["y"].items, K.args))
        compare(ck, f"{nm}.final.{sub.nm}", where(K), I, sub, v, M, "the final value is not saved exactly once when requested, or something else is written after the loop", index=False, assume=h)


def capacity(ck):
    """output sizes, from constant propagation through diffeqsolve's allocation"""
    n = 0
    for t0 in (False, True):
        for t1 in (False, True):
            for nts in (0, 2):
                for steps in (0, 1, 2, 3):
                    if not (t0 or t1 or nts or steps): continue
                    for ms in (1, 2, 3, 4, 6, 7):
                        solvekit.capacity(ck, f"capacity t0={t0} t1={t1} ts={nts} steps={steps} max={ms}", t0, t1, nts, steps, ms)


def run(ck):
    S = lambda nm, **kw: (lambda I: Sub(I, nm, **kw))
    q3 = qs(3)
    for t0 in (False, True):
        ck.attempt(f"t0={t0}", lambda: before(ck, f"t0={t0}", [S("A", t0=t0, t1=True), S("B", ts=q3, t0=not t0)]))
        ck.attempt(f"single t0={t0}", lambda: before(ck, f"single t0={t0}", [S("A", t0=t0, t1=True)]))
    for used in range(4):
        ck.attempt(f"ts used={used}", lambda: during(ck, f"ts used={used}", [S("A", ts=q3), S("B", t1=True)], used))
    ck.attempt("one time", lambda: during(ck, "one time", [S("A", ts=qs(1))]))
    for n in (1, 2, 3):
        ck.attempt(f"steps={n}", lambda: during(ck, f"steps={n}", [S("A", steps=n)]))
        ck.attempt(f"steps={n}+ts", lambda: during(ck, f"steps={n}+ts", [S("A", steps=n, ts=qs(2), t0=True, t1=True), S("B", steps=1, leaves=1)]))
    for st in (0, 1, 2, 3):
        for t1 in (False, True):
            if not st and not t1: continue
            nm = f"steps={st} t1={t1}"
            ck.attempt(nm, lambda: after(ck, nm, [S("A", steps=st, t1=t1), S("B", ts=q3, t1=not t1)]))
            ck.attempt(nm + " full", lambda: after(ck, nm + " full", [S("A", steps=st, t1=t1)], full=True))
            ck.attempt(nm + " empty", lambda: after(ck, nm + " empty", [S("A", steps=st, t1=t1), S("B", ts=qs(2), t1=not t1), S("C", ts=qs(2), steps=st, t1=t1)], empty=True))
    capacity(ck)
    solvekit.saved_output(ck)
    solvekit.saveat_constructors(ck)
    from checks.c15 import saved_once
    saved_once(ck)
