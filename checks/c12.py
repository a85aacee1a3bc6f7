"""C12: fixed-step controllers visit exactly the prescribed times (value graphs of init and of repeated adapt_step_size)."""
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
LEVEL = "translation_validation"
TECHNIQUE = "value-graph composition of init with repeated adapt_step_size of the fixed-step controllers; value numbering against the prescribed times; extraction of the refusal guards"
EXPLANATION = ("the sequence of step ends produced by init followed by k calls of adapt_step_size (k up to the bound) is built as one value graph over symbolic t0, dt0, t1 and prescribed times and compared with "
               "t0 + k*dt0 (t1 for the last one) and ts[k]; acceptance, jump flag and result are compared with the constants; guard conditions are compared with the refusal specification.")
ASSUMPTIONS = ["real-number arithmetic (nextafter is the identity)", "k bounded (quick 5, thorough 9); the step count enters the code only through arithmetic on the counter"]
FLOOR = 30
t0, t1, dt0 = tm.sym("t0", "real"), tm.sym("t1", "real"), tm.sym("dt0", "pos")


def prep(ck):
    I = ck.interp()
    ident = lambda I, a, k: a[0]
    for n in ("nextafter", "prevbefore"): I.user_models["equinox.internal." + n] = ident
    return I


def chain(ck, I, cls, o, args, K, where):
    """-> [(keep, start, end, jump, result)] of K consecutive steps"""
    r = I.unpack(I.call(I.method(cls, "init", o), args, {}), 2)
    out = [(tm.TRUE, args[1], I.to_term(r[0]), tm.FALSE, None)]
    st = r[1]
    for k in range(K):
        y, z, e = state(f"y{k}_"), state(f"z{k}_"), state(f"e{k}_")
        s = I.unpack(I.call(I.method(cls, "adapt_step_size", o), [out[-1][1], out[-1][2], y, z, tm.sym("args"), e, tm.sym("order"), st], {}), 6)
        out.append(tuple(I.to_term(x) for x in (s[0], s[1], s[2], s[3], s[5])))
        st = s[4]
    ck.use(I)
    return out


def steps(ck, nm, I, cls, out, ends, assume=None, doms=None):
    w = at(cls, "adapt_step_size")
    ok = tm.enum("RESULTS.successful")
    for k, (keep, s, e, j, res) in enumerate(out):
        ass = assume(k) if assume else None
        ck.equal(f"{nm}.step{k}.end", at(cls, "init") if k == 0 else w, e, ends[k], what=f"step {k} does not end at the prescribed time", I=I, assume=ass, doms=doms)
        if k == 0: continue
        ck.equal(f"{nm}.step{k}.accepted", w, keep, tm.TRUE, what="a fixed step is rejected", I=I)
        ck.equal(f"{nm}.step{k}.start", w, s, out[k - 1][2], what="a step does not start where the last one ended", I=I)
        ck.equal(f"{nm}.step{k}.jump", w, j, tm.FALSE, what="a fixed-step controller reports a jump", I=I)
        ck.equal(f"{nm}.step{k}.result", w, res, ok, what="a fixed-step controller reports a failure", I=I)


def constant(ck):
    K = 5 if ck.tier == "quick" else 9
    cls = ck.repo.cls("ConstantStepSize")
    I = prep(ck)
    o = I.mkobj(cls, {})
    args = [tm.sym("terms"), t0, t1, state("y"), dt0, tm.sym("args"), tm.sym("func"), tm.sym("order")]
    out = chain(ck, I, cls, o, args, K, None)
    ends = [t0 + const(k + 1) * dt0 for k in range(K + 1)]
    fin = app("isfinite", t1)
    # interior steps: the end lies before t1
    ck_steps = lambda nm, f: steps(ck, nm, I, cls, out, ends, assume=f)
    n = len(ck.ok)
    interior(ck, "ConstantStepSize", I, cls, out, ends, K)
    g = I.guards
    I2 = prep(ck); o2 = I2.mkobj(cls, {})
    args2 = list(args); args2[4] = tm.NONE
    try: I2.call(I2.method(cls, "init", o2), args2, {})
    except Exception: pass
    ck.equal("ConstantStepSize.dt0-required", at(cls, "init"), tm.lor_all([x.cond for x in I2.guards]), tm.TRUE, what="a missing step size is not refused", I=I2)
    ck.equal("ConstantStepSize.dt0-accepted", at(cls, "init"), tm.lor_all([x.cond for x in g]), tm.FALSE, what="a given step size is refused", I=I)
    r = I.call(I.method(cls, "wrap", o), [tm.sym("direction")], {})
    ck.require("ConstantStepSize.wrap", isinstance(r, Obj) and r.cls is cls, at(cls, "wrap"), "reversing time changes the controller")


def interior(ck, nm, I, cls, out, ends, K):
    """ceil is interpreted: the interval is m*dt0 plus a remainder, enumerated over (m, remainder)"""
    def rewrite(t, m, frac):
        # t1 = t0 + (m + frac) * dt0, finite
        s = tm.subst(t, {t1: t0 + const(m + frac) * dt0})
        def ceil(x):
            v = const_of(x)
            return const(-((-v) // 1)) if v is not None else app("ceil", x)
        return tm.subst_apps(s, {"ceil": ceil, "isfinite": lambda x: tm.TRUE})
    def const_of(x):
        """value of x if it does not depend on t0, dt0"""
        from fractions import Fraction
        vals = []
        for a, b in ((Fraction(3), Fraction(2, 7)), (Fraction(-5, 3), Fraction(11)), (Fraction(7, 2), Fraction(1, 9))):
            y = tm.subst(x, {t0: const(a), dt0: const(b)})
            if not (y.is_const and isinstance(y.data, Fraction)): return None
            vals.append(y.data)
        return vals[0] if len(set(vals)) == 1 else None
    from fractions import Fraction
    for m in range(1, K + 1):
        for frac in (Fraction(0), Fraction(1, 3), Fraction(9, 10)):
            n = m + (1 if frac else 0)
            end = t0 + const(m + frac) * dt0
            for k, (keep, s, e, j, res) in enumerate(out):
                if k >= n: break
                got = rewrite(e, m, frac)
                # the driver shortens a step that would pass t1
                last = k == n - 1
                if last:
                    ck.equal(f"{nm}.interval={m + frac}*dt0.step{k}", at(cls, "adapt_step_size"), app("min", got, end), end, what="the final step does not reach the final time", I=I)
                else:
                    ck.equal(f"{nm}.interval={m + frac}*dt0.step{k}", at(cls, "adapt_step_size"), got, ends[k], what=f"step {k} does not have the constant size", I=I)
    inf = [(k, tm.subst_apps(e, {"isfinite": lambda x: tm.FALSE})) for k, (_, _, e, _, _) in enumerate(out)]
    for k, e in inf:
        ck.equal(f"{nm}.infinite.step{k}", at(cls, "adapt_step_size"), e, ends[k], what="steps of an unbounded solve do not have the constant size", I=I)
    w = at(cls, "adapt_step_size")
    ok = tm.enum("RESULTS.successful")
    for k, (keep, s, e, j, res) in enumerate(out):
        if k == 0: continue
        ck.equal(f"{nm}.step{k}.accepted", w, keep, tm.TRUE, what="a fixed step is rejected", I=I)
        ck.equal(f"{nm}.step{k}.start", w, s, out[k - 1][2], what="a step does not start where the last one ended", I=I)
        ck.equal(f"{nm}.step{k}.jump", w, j, tm.FALSE, what="a fixed-step controller reports a jump", I=I)
        ck.equal(f"{nm}.step{k}.result", w, res, ok, what="a fixed-step controller reports a failure", I=I)


def stepto(ck):
    import numpy as np
    K = 4 if ck.tier == "quick" else 8
    cls = ck.repo.cls("StepTo")
    I = prep(ck)
    T_ = increasing("T", K + 2)
    ts = np.array(T_, dtype=object)
    o = I.mkobj(cls, {"ts": ts})
    args = [tm.sym("terms"), t0, t1, state("y"), tm.NONE, tm.sym("args"), tm.sym("func"), tm.sym("order")]
    out = chain(ck, I, cls, o, args, K, None)
    steps(ck, "StepTo", I, cls, out, T_[1:])
    w = at(cls, "init")
    ck.equal("StepTo.ends-match", w, tm.lor_all([g.cond for g in I.guards]), tm.lor(tm.lnot(tm.eq(t0, T_[0])), tm.lnot(tm.eq(t1, T_[-1]))),
             what="prescribed locations are refused other than when their ends differ from the interval's", I=I)
    I2 = prep(ck); o2 = I2.mkobj(cls, {"ts": ts})
    args2 = list(args); args2[4] = dt0
    try: I2.call(I2.method(cls, "init", o2), args2, {})
    except Exception: pass
    ck.equal("StepTo.dt0-refused", w, tm.lor_all([x.cond for x in I2.guards if x.kind == "raise"]), tm.TRUE, what="a step size given together with prescribed locations is not refused", I=I2)
    I3 = prep(ck); o3 = I3.mkobj(cls, {"ts": ts})
    d = tm.sym("direction", ("choice", (1, -1)))
    r = I3.call(I3.method(cls, "wrap", o3), [d], {})
    got = lst(I3, I3.getattr(r, "ts"))
    if len(got) == 1 and isinstance(I3.getattr(r, "ts"), np.ndarray): got = list(I3.getattr(r, "ts"))
    for i, x in enumerate(got): ck.equal(f"StepTo.wrap.ts{i}", at(cls, "wrap"), x, T_[i] * d, what="times are not converted to the direction of integration", I=I3)
    for n in (2, 3):
        I3 = prep(ck); o3 = I3.mkobj(cls, {"ts": np.array(T_[:n], dtype=object)})
        I3.call(I3.method(cls, "wrap", o3), [d], {})
        bad = tm.lor_all([tm.le(b * d, a * d) for a, b in zip(T_[:n], T_[1:n])])
        gs = [g for g in I3.guards if g.kind == "error_if"]
        ck.equal(f"StepTo.monotone{n}", at(cls, "wrap"), tm.lor_all([g.cond for g in gs]), bad, what="locations are refused other than when not strictly increasing in the direction of integration", I=I3)
        ck.equal(f"StepTo.monotone{n}.ties", at(cls, "wrap"), tm.subst(tm.lor_all([g.cond for g in gs]), {T_[1]: T_[0]}), tm.TRUE, what="repeated locations are accepted", I=I3)
    for shape, ok in ((1, False), (2, True), (3, True)):
        I4 = prep(ck)
        try: I4.call(cls_value(I4, cls), [], {"ts": np.array(T_[:shape], dtype=object)})
        except Exception as e: ck.undecided(f"StepTo.length{shape}", e); continue
        ck.equal(f"StepTo.length{shape}", at(cls), tm.lor_all([g.cond for g in I4.guards]), const(not ok), what="the number of locations is not checked to be at least two", I=I4)


def increasing(p, n):
    xs = [tm.sym(p + "0", "real")]
    while len(xs) < n: xs.append(xs[-1] + const(1e-3) + tm.sym(f"{p}gap{len(xs)}", "pos"))
    return xs


def resumed(ck):
    """continuing at the end of an earlier solve, with the controller state that solve returned"""
    from fractions import Fraction
    import numpy as np
    def go_constant(m, frac):
        cls = ck.repo.cls("ConstantStepSize"); w = at(cls, "adapt_step_size")
        I = prep(ck); o = I.mkobj(cls, {})
        n = m + (1 if frac else 0)
        end = t0 + const(m + frac) * dt0
        args = [tm.sym("terms"), t0, end, state("y"), dt0, tm.sym("args"), tm.sym("func"), tm.sym("order")]
        fix = lambda t: tm.subst_apps(I.to_term(t), {"ceil": lambda x: const(n), "isfinite": lambda x: tm.TRUE})
        _, st = I.unpack(I.call(I.method(cls, "init", o), args, {}), 2)
        adapt = lambda a, b, st: I.unpack(I.call(I.method(cls, "adapt_step_size", o), [a, b, state("y"), state("z"), tm.sym("args"), state("e"), tm.sym("order"), st], {}), 6)
        for k in range(n): st = adapt(t0 + const(k) * dt0, end if k == n - 1 else t0 + const(k + 1) * dt0, st)[4]
        for k in range(3):
            r = adapt(end + const(k) * dt0, end + const(k + 1) * dt0, st); st = r[4]
            ck.equal(f"ConstantStepSize.resumed {m + frac}*dt0.step{k + 1}", w, fix(r[2]), end + const(k + 2) * dt0, what="a resumed solve does not continue with the constant step size", I=I)
        ck.use(I)
    for m in (1, 2, 3):
        for frac in (Fraction(0), Fraction(1, 3), Fraction(9, 10)):
            ck.attempt(f"ConstantStepSize.resumed {m + frac}", lambda: go_constant(m, frac))
    def go_stepto(n):
        cls = ck.repo.cls("StepTo"); w = at(cls, "adapt_step_size")
        I = prep(ck)
        A = increasing("A", n); B = increasing("B", 5); B = [tm.subst(x, {B[0]: A[-1]}) for x in B]
        o, o2 = (I.mkobj(cls, {"ts": np.array(x, dtype=object)}) for x in (A, B))
        _, st = I.unpack(I.call(I.method(cls, "init", o), [tm.sym("terms"), A[0], A[-1], state("y"), tm.NONE, tm.sym("args"), tm.sym("func"), tm.sym("order")], {}), 2)
        adapt = lambda o, a, b, st: I.unpack(I.call(I.method(cls, "adapt_step_size", o), [a, b, state("y"), state("z"), tm.sym("args"), state("e"), tm.sym("order"), st], {}), 6)
        for k in range(n - 1): st = adapt(o, A[k], A[k + 1], st)[4]
        for k in range(3):
            r = adapt(o2, B[k], B[k + 1], st); st = r[4]
            ck.equal(f"StepTo.resumed after {n - 1}.step{k + 1}", w, I.to_term(r[2]), B[k + 2], what="a resumed solve does not step to the prescribed times", I=I)
        ck.use(I)
    for n in (2, 4): ck.attempt(f"StepTo.resumed {n}", lambda: go_stepto(n))


def cls_value(I, cls):
    return cls


def run(ck):
    ck.attempt("ConstantStepSize", lambda: constant(ck))
    ck.attempt("StepTo", lambda: stepto(ck))
    resumed(ck)
