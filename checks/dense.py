"""The dense-output container and the step-halving wrapper's dense information (part of C03; C16 reuses the container)."""
from sa import terms as tm
from sa.terms import app, const, ite
from sa.common import *


def build(ck):
    I = ck.interp()
    cls = ck.repo.cls("DenseInterpolation")
    ts, n, d = tm.sym("ts"), tm.sym("ts_size", ("choice", (1, 2, 3, 5))), tm.sym("direction", ("choice", (1, -1)))
    i0, i1 = tm.sym("info_a"), tm.sym("info_b")
    y0 = [tm.sym("ytriv0"), tm.sym("ytriv1")]
    t0t = tm.sym("t0triv")
    loc = ck.repo.cls("AbstractLocalInterpolation")
    def ev(name, t0, t1, infos, t):
        return [app(f"local.{name}{l}", t0, t1, *infos, t) for l in range(2)]
    def new(I, a, k):
        infos = [I.to_term(k.get("a")), I.to_term(k.get("b"))]
        args = (I.to_term(k["t0"]), I.to_term(k["t1"]), infos)
        mk = lambda nm: Native(lambda I, aa, kk: PyTuple(ev(nm, *args, I.to_term(aa[0] if aa else kk.get("t0", kk.get("t")))) ) if len(aa) <= 1 or aa[1] is None else PyTuple(
            [p - q for p, q in zip(ev(nm, *args, I.to_term(aa[1])), ev(nm, *args, I.to_term(aa[0])))]), nm)
        return I.mkobj(loc, {"evaluate": mk("evaluate"), "derivative": mk("derivative"), "t0": args[0], "t1": args[1]})
    o = I.mkobj(cls, {"ts": ts, "ts_size": n, "infos": I.mkdict({"a": i0, "b": i1}), "interpolation_cls": Native(new, "interpolation_cls"),
                      "direction": d, "t0_if_trivial": t0t, "y0_if_trivial": PyTuple(y0)})
    g = lambda a, i: I.to_term(I.subscript(a, i))
    def local(nm, t, left):
        oob = tm.lor_all([tm.le(n, const(1)), tm.lt(t, g(ts, const(0))), tm.gt(t, g(ts, n - const(1)))])
        tb = ite(oob, tm.NAN, t)
        idx = I.to_term(I.call(Ext("jax.numpy.searchsorted"), [ts, tb], {"side": const("left" if left else "right")})) - const(1)
        idx = I.to_term(I.call(Ext("jax.numpy.clip"), [idx], {"min": const(0), "max": n - const(2)}))
        return ev(nm, g(ts, idx), g(ts, idx + const(1)), [g(i0, idx), g(i1, idx)], tb)
    return I, cls, o, dict(ts=ts, n=n, d=d, t0t=t0t, y0=y0, local=local, g=g)


def container(ck, prefix=""):
    def go():
        I, cls, o, S = build(ck)
        a, b = tm.sym("a", "real"), tm.sym("b", "real")
        doms = None
        for left in (True, False):
            t = a * S["d"]
            triv = tm.land(tm.eq(t, S["t0t"]), tm.eq(S["n"], const(1)))
            spec = [ite(triv, y, l) for y, l in zip(S["y0"], S["local"]("evaluate", t, left))]
            w = at(cls, "evaluate")
            got = lst(I, I.call(I.getattr(o, "evaluate"), [a], {"left": const(left)}), 2)
            for l in range(2):
                ck.equal(f"{prefix}Dense.evaluate[{l}] left={left}", w, got[l], spec[l], I=I, what="does not evaluate the step containing t (user time, NaN out of range)")
            gd = lst(I, I.call(I.getattr(o, "derivative"), [a], {"left": const(left)}), 2)
            sd = [S["d"] * x for x in S["local"]("derivative", t, left)]
            for l in range(2):
                ck.equal(f"{prefix}Dense.derivative[{l}] left={left}", at(cls, "derivative"), gd[l], sd[l], I=I, what="is not the derivative with respect to user time")
            t2 = b * S["d"]
            triv2 = tm.land(tm.eq(t2, S["t0t"]), tm.eq(S["n"], const(1)))
            spec2 = [ite(triv2, y, l) for y, l in zip(S["y0"], S["local"]("evaluate", t2, left))]
            gi = lst(I, I.call(I.getattr(o, "evaluate"), [a, b], {"left": const(left)}), 2)
            for l in range(2):
                ck.equal(f"{prefix}Dense.increment[{l}] left={left}", w, gi[l], spec2[l] - spec[l], I=I, what="evaluate(s, t) is not evaluate(t) - evaluate(s)")
        n, d, g, ts = S["n"], S["d"], S["g"], S["ts"]
        ck.equal(prefix + "Dense.t0", at(cls, "t0"), I.getattr(o, "t0"), ite(tm.eq(n, const(1)), S["t0t"], g(ts, const(0))) * d, I=I, what="is not the start of the solve in user time")
        ck.equal(prefix + "Dense.t1", at(cls, "t1"), I.getattr(o, "t1"), ite(tm.eq(n, const(1)), S["t0t"], g(ts, n - const(1))) * d, I=I, what="is not the end of the solve in user time")
        ck.use(I)
    ck.attempt(prefix + "Dense", go)


def halfsolver(ck):
    def go():
        I = ck.interp()
        cls = ck.repo.cls("HalfSolver")
        inner = tm.sym("solver")
        I.hints[inner] = (ck.repo.cls("AbstractSolver"), False)
        o = I.mkobj(cls, {"solver": inner})
        t0, t1, args, terms, ss, jump, y0 = (tm.sym(x) for x in ("t0", "t1", "args", "terms", "solver_state", "made_jump", "y0"))
        full = I.to_term(I.call(I.getattr(inner, "step"), [], dict(terms=terms, t0=t0, t1=t1, y0=y0, args=args, solver_state=ss, made_jump=jump)))
        out = I.unpack(I.call(I.method(cls, "step", o), [terms, t0, t1, y0, args, ss, jump], {}), 5)
        dense, y1 = I.to_term(out[2]), I.to_term(out[0])
        if tm.same(dense, app("getitem", full, const(2))):
            # dense information of one inner step over [t0, t1]: its end value is that step's value
            ck.equal("HalfSolver.end-exact", at(cls, "step"), app("getitem", full, const(0)), y1, I=I,
                     what="dense information is that of the single full step, whose end is not the returned value")
        else:
            ck.undecided("HalfSolver.end-exact", "dense information not recognised as one inner step's")
        ic = I.getattr(o, "interpolation_cls")
        ck.equal("HalfSolver.interpolation", at(cls), ic, I.getattr(inner, "interpolation_cls"), I=I, what="does not interpolate with the wrapped solver's interpolation")
        ck.use(I)
    ck.attempt("HalfSolver", go)
