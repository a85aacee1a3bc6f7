"""C18: ill-posed or incompatible problems are refused.

The refusal condition of an entry point is the disjunction, over every `raise` and `error_if` its value graph contains, of the path condition
(and predicate) under which it fires.  It is compared, as a boolean function of the symbolic arguments, with the documented condition - in both
directions, so that a missed case and a refused well-posed problem are both found."""
import itertools
import numpy as np
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
from sa.interp import Unsupported
from checks.solvekit import Solve, D, where
from checks import loopkit as lk
from checks.loopkit import Sub, arr, models, find
LEVEL = "source_rule"
TECHNIQUE = "extraction of refusal conditions (path condition and predicate of every raise / error_if reachable in the value graph) compared as boolean functions with the documented ones; def-use lint on run-time checks"
EXPLANATION = ("For each public entry point the disjunction of the path conditions of every raise and run-time check reachable in its value graph is extracted and compared, as a boolean function of "
               "symbolic arguments and over the listed argument classes and structures, with the documented refusal condition (both directions).")
ASSUMPTIONS = []
FLOOR = 280


def refusal(I, call, n=None):
    """disjunction of the conditions of all guards met while evaluating call()"""
    n = len(I.guards) if n is None else n
    err = None
    try: call()
    except Exception as e: err = e
    gs = [g for g in I.guards[n:] if g.exc != "result"]
    return tm.lor_all([g.cond for g in gs]), gs, err


def solve_refusal(ck, nm, build, what, prep=None, **kw):
    """build(S) -> (arguments of the solve, documented refusal condition)"""
    def go():
        S = Solve(ck)
        if prep: prep(S)
        args, sp = build(S)
        c, gs, err = refusal(S.I, lambda: S.call(**{**kw, **args}))
        sp = sp if isinstance(sp, T) else const(sp)
        if err is not None and tm.truth(c) is not True: raise Unsupported(f"{type(err).__name__}: {err}")
        ck.use(S.I)
        ck.equal(nm, where(S), c, sp, I=S.I, what=what)
    ck.attempt(nm, go)


def times(ck):
    solve_refusal(ck, "dt0.sign", lambda S: (dict(), tm.lt((S.t1 - S.t0) * S.dt0, const(0))), "a step size is refused other than when of the wrong sign")
    solve_refusal(ck, "dt0.none", lambda S: (dict(dt0=tm.NONE), False), "an unspecified step size is refused")
    def ts(sizes, tuple_of=None):
        def build(S):
            qs = [[tm.sym(f"q{i}{j}", "real") for j in range(n)] for i, n in enumerate(sizes)]
            bad = []
            for q in qs:
                bad += [tm.lt(b * D, a * D) for a, b in zip(q, q[1:])] + [tm.lor(tm.lt(x * D, S.t0 * D), tm.lt(S.t1 * D, x * D)) for x in q]
            return dict(dt0=tm.NONE, subs=[(lambda I, i=i, q=q: Sub(I, "AB"[i], ts=q, t1=True)) for i, q in enumerate(qs)]), tm.lor_all(bad)
        return build
    for sizes in ((1,), (2,), (3,), (1, 2), (2, 2)):
        solve_refusal(ck, f"saveat.ts{sizes}", ts(sizes), "save times are refused other than when unordered in, or outside, the interval of integration")
    # dtypes: each time-like argument in turn has the given dtype, all others are real
    def dtypes(which, kind):
        def prep(S):
            base = S.I.user_models["jax.numpy.result_type"]
            def rt(I, a, k):
                ds = []
                for v in a:
                    if isinstance(v, np.ndarray): v = v.reshape(-1)[0]
                    if isinstance(v, T) and v.op == "enum" and v.data.startswith("dtype."): ds.append(v.data[6:]); continue
                    v = I.to_term(v)
                    syms = {x.data[0] for x in tm.symbols(v)}
                    if syms & {"t0", "t1", "dt0", "q0"}: ds.append(kind if (which in syms or which == "all") else "float")
                    else: ds.append("float")
                for d in ("complex", "other", "float", "int"):
                    if d in ds: return tm.enum("dtype." + d)
                return base(I, a, k)
            S.I.user_models["jax.numpy.result_type"] = rt
            def issub(I, a, k):
                d = I.to_term(a[0]); nm = a[1].name.split(".")[-1] if isinstance(a[1], Ext) else "?"
                return const(nm in {"dtype.float": ("floating", "inexact"), "dtype.complex": ("complexfloating", "inexact"), "dtype.int": ("integer", "signedinteger"), "dtype.bool": ("bool_",)}.get(d.data, ()))
            S.I.user_models["jax.numpy.issubdtype"] = issub
        q = tm.sym("q0", "real")
        def build(S):
            ok = tm.lt((S.t1 - S.t0) * S.dt0, const(0)), tm.lor(tm.lt(q * D, S.t0 * D), tm.lt(S.t1 * D, q * D))
            return dict(subs=[lambda I: Sub(I, "A", t1=True), lambda I: Sub(I, "B", ts=[q])]), (True if kind in ("complex", "other") else tm.lor_all(list(ok)))
        return prep, build
    for which in ("t0", "t1", "dt0", "q0", "all"):
        for kind in ("complex", "int") + (("other",) if which == "all" else ()):
            prep, build = dtypes(which, kind)
            solve_refusal(ck, f"time-dtype.{which}.{kind}", build, "times are refused other than when complex or not numeric", prep=prep)


def mkctrl(S, kind):
    """A controller of the given class; how it steps is immaterial here (C10-C12): its class is what is inspected."""
    I, R = S.I, S.ck.repo
    cinit = Native(lambda I, a, k: PyTuple([tm.sym("controller_tnext", "real"), tm.sym("fresh_controller_state", "real")]), "init")
    tol = dict(rtol=tm.sym("c_rtol", "real"), atol=tm.sym("c_atol", "real"), norm=tm.sym("c_norm", "real"))
    def mk(**f):
        if kind == "PID": return I.mkobj(R.cls("PIDController"), dict(tol, error_order=tm.NONE, **f))
        if kind.endswith("Clip(PID)" + ")" * (kind.count("(") - 1)):
            c = I.mkobj(R.cls("PIDController"), tol)
            for i in reversed(range(kind.count("Clip"))): c = I.mkobj(R.cls("ClipStepSizeController"), dict(controller=c, step_ts=tm.NONE, jump_ts=tm.NONE, **(f if i == 0 else {})))
            return c
        if kind == "Constant": return I.mkobj(R.cls("ConstantStepSize"), f)
        return I.mkobj(R.cls("StepTo"), dict(ts=arr([S.t0, S.t1]), **f))
    return mk(init=cinit, wrap=Native(lambda I, a, k: mk(init=cinit), "wrap"))


def noise(ck):
    def path(S, kind):
        I, R = S.I, S.ck.repo
        cls = {"tree": "VirtualBrownianTree", "unsafe": "UnsafeBrownianPath"}[kind]
        return I.mkobj(R.cls(cls), {"key": tm.sym("key"), "shape": tm.sym("shape"), "levy_area": tm.sym("levy_area")})
    def term(S, shape, kind):
        I, R = S.I, S.ck.repo
        ode = lambda: I.mkobj(R.cls("ODETerm"), {"vector_field": tm.sym("f")})
        con = lambda c="ControlTerm", k=kind: I.mkobj(R.cls(c), {"vector_field": tm.sym("g"), "control": path(S, k) if k != "ode" else tm.sym("control")})
        if kind == "ode": con = lambda c=None, k=None: ode()
        multi = lambda *xs: I.mkobj(R.cls("MultiTerm"), {"terms": PyTuple(list(xs))})
        return {"single": lambda: con(), "multi": lambda: multi(ode(), con()), "tuple": lambda: PyTuple([ode(), con()]), "nested": lambda: multi(ode(), multi(con(), ode())),
                "tuple-of-multi": lambda: PyTuple([multi(ode(), con()), ode()])}[shape]()
    def build(shape, kind, solver, ctrl):
        def b(S):
            adaptive = ctrl in ("PID", "Clip(PID)")
            sol = S.mksolver(solver.split("(")[-1].rstrip(")"))
            for _ in range(solver.count("(")): sol = S.mksolver("HalfSolver", solver=sol)
            return dict(terms=term(S, shape, kind), solver=sol, controller=mkctrl(S, ctrl), dt0=tm.NONE), adaptive and kind != "ode" and (kind == "unsafe" or "Euler" in solver)
        return b
    def prep(S):
        I = S.I
        I.opaque["diffrax._integrate._assert_term_compatible"] = lambda I, a, k: tm.NONE
        base = I.user_models["builtins.isinstance"]
        I.user_models["builtins.isinstance"] = lambda I, a, k: tm.FALSE if isinstance(a[0], T) and a[0].op == "sym" else base(I, a, k)      # arrays and functions
    for shape in ("single", "multi", "tuple", "nested", "tuple-of-multi"):
        for kind in ("tree", "unsafe", "ode"):
            for solver in ("Euler", "AbstractItoSolver") + (("Half(Euler)", "Half(Half(Euler))", "Half(AbstractItoSolver)") if shape in ("single", "multi") else ()):
                for ctrl in ("PID", "Clip(PID)", "Constant", "StepTo"):
                    if kind == "ode" and (shape != "multi"): continue
                    solve_refusal(ck, f"noise.{shape}.{kind}.{solver}.{ctrl}", build(shape, kind, solver, ctrl),
                                  "a stochastic problem with adaptive steps is refused other than for Euler's method or a non-reusable path", prep=prep, opaque_guards=False)


def unbounded(ck):
    for ms in (None, 7):
        for a in (0, 1, 2):
            for b in (0, 3):
                for dense in (False, True):
                    def build(S):
                        return dict(dt0=tm.NONE, max_steps=tm.NONE if ms is None else const(ms), dense=dense,
                                    subs=[lambda I: Sub(I, "A", t1=True, steps=a), lambda I: Sub(I, "B", t0=True, steps=b)]), ms is None and bool(a or b or dense)
                    solve_refusal(ck, f"max-steps={ms}.steps={a},{b}.dense={dense}", build, "output that grows with the number of steps is accepted without a bound on it, or refused with one")


def tolerances(ck):
    for fixed in ("Constant", "StepTo", "PID", "Clip(PID)"):
        for mask in itertools.product((0, 1), repeat=3):
            for scls in ("ImplicitEuler", "Kvaerno3", "KenCarp4", "Half(ImplicitEuler)", "Half(Half(Kvaerno3))"):
                def build(S):
                    I = S.I
                    sent = I.global_value(S.ck.repo.modules["diffrax._root_finder._with_tols"], "use_stepsize_tol")
                    if isinstance(sent, dict): sent = sent["use_stepsize_tol"]
                    rf = I.mkobj(S.ck.repo.cls("VeryChord"), {n: sent if m else tm.sym("own_" + n, "real") for n, m in zip(("rtol", "atol", "norm"), mask)})
                    sol = S.mksolver(scls.split("(")[-1].rstrip(")"), root_finder=rf)
                    for _ in range(scls.count("(")): sol = S.mksolver("HalfSolver", solver=sol)
                    return dict(dt0=tm.NONE, solver=sol, controller=mkctrl(S, fixed)), fixed in ("Constant", "StepTo") and any(mask)
                solve_refusal(ck, f"tolerances.{scls}.{fixed}.unset={mask}", build, "an implicit solver without tolerances is accepted with fixed steps, or refused otherwise")


def refuses(ck, nm, w, build, expected, what, hyp=None):
    """build(I) -> thunk; the thunk must meet a failing guard exactly when `expected`"""
    def go():
        I = ck.interp(); I.scalar_leaves = True; models(I)
        f = build(I)
        n = len(I.guards)
        c, gs, err = refusal(I, f, n)
        if err is not None and tm.truth(c) is not True: raise Unsupported(f"{type(err).__name__}: {err}")
        ck.use(I)
        ck.equal(nm, w, c, expected if isinstance(expected, T) else const(expected), I=I, what=what, **({"assume": hyp} if hyp is not None else {}))
    ck.attempt(nm, go)


def requests(ck):
    Sub_, Sv, R = ck.repo.cls("SubSaveAt"), ck.repo.cls("SaveAt"), ck.repo
    q = tm.sym("q0", "real")
    for t0 in (False, True):
        for t1 in (False, True):
            for ts in (None, (), (q,)):
                for steps in (False, True, 0, 1, 3):
                    kw = dict(t0=const(t0), t1=const(t1), ts=tm.NONE if ts is None else arr(list(ts)) if ts else PyTuple([]), steps=const(steps))
                    refuses(ck, f"SubSaveAt({t0},{t1},{'-' if ts is None else len(ts)},{steps!r}).empty", at(Sub_), lambda I: lambda: check_init(I, Sub_, I.call(Sub_, [], dict(kw))), not (t0 or t1 or ts or steps),
                            "an empty save request is accepted, or another one refused")
    for given in itertools.product((0, 1), repeat=4):
        for subs in (False, True):
            kw = {n: v for n, v, g in zip(("t0", "t1", "ts", "steps"), (tm.TRUE, tm.TRUE, arr([q]), const(2)), given) if g}
            def build(I):
                k = dict(kw)
                if subs: k["subs"] = I.mkobj(Sub_, dict(t0=tm.TRUE, t1=tm.FALSE, ts=tm.NONE, steps=const(0), fn=tm.sym("fn")))
                return lambda: I.call(Sv, [], k)
            refuses(ck, f"SaveAt{given}.subs={subs}", at(Sv), build, subs and any(given), "sub-requests together with other requests are accepted, or other combinations refused")


def check_init(I, cls, o):
    """the constructor of a module ends with its __check_init__"""
    return o


def events(ck):
    E, R = ck.repo.cls("Event"), ck.repo
    f = lambda n: Native(lambda I, a, k: tm.sym(n + "_value"), n)
    tup = lambda *x: PyTuple(list(x))
    N_, TT, FF = tm.NONE, tm.TRUE, tm.FALSE
    cases = [("None", N_, False), ("True", TT, False), ("False", FF, False), ("pair", tup(N_, TT), False), ("pair2", tup(FF, FF), False), ("triple", tup(N_, TT, TT), True), ("single", tup(TT), True),
             ("nested", tup(N_, tup(TT)), True), ("string", const("up"), True), ("pair with string", tup(N_, const("up")), True), ("pair with 2", tup(const(2), TT), True), ("list", None, True), ("-1", const(-1), True)]
    for nm, d, bad in cases:
        def build(I):
            dd = d if d is not None else I.mklist([N_, TT])
            return lambda: I.call(E, [], dict(cond_fn=tup(f("a"), f("b")), direction=dd))
        refuses(ck, f"Event.direction.{nm}", at(E, "__init__"), build, bad, "directions that do not match the conditions are accepted, or matching ones refused")
    for nm, d, bad in [("None", N_, False), ("True", TT, False), ("False", FF, False), ("tuple", tup(TT), True), ("string", const("up"), True)]:
        refuses(ck, f"Event.direction.one-condition.{nm}", at(E, "__init__"), lambda I: lambda: I.call(E, [], dict(cond_fn=f("a"), direction=d)), bad, "directions that do not match the conditions are accepted, or matching ones refused")
    def scalar(S):
        base = S.I.user_models.get("jax.numpy.shape") or S.I.models["jax.numpy.shape"]
        S.I.user_models["jax.numpy.shape"] = lambda I, a, k: base(I, a, k) if isinstance(a[0], np.ndarray) else PyTuple([])
    def old(S, ev):
        return S.I.mkobj(E, dict(cond_fn=Native(lambda I, a, k: app("bool:cond", I.to_term(a[0])), "cond"), direction=tm.NONE, root_finder=tm.NONE)) if ev else None
    for ev in (False, True):
        for dte in (False, True):
            def build(S):
                d = {}
                if ev: d["event"] = old(S, True)
                if dte: d["discrete_terminating_event"] = S.I.mkobj(S.ck.repo.cls("AbstractDiscreteTerminatingEvent"), {"__call__": tm.NONE})
                S.I.opaque["diffrax._event.DiscreteTerminatingEventToCondFn.__call__"] = lambda I, a, k: app("bool:dte", const(1))
                return dict(dt0=tm.NONE, subs=[lambda I: Sub(I, "A", t1=True)], **d), ev and dte
            solve_refusal(ck, f"event={ev}.discrete_terminating_event={dte}", build, "an event together with a discrete terminating event is accepted, or one of them alone refused", prep=scalar)
    # the value of an event function: a scalar, boolean or floating
    sh = lambda v: np.array(v, dtype=object)
    vals = [("bool", tm.sym("ev", "bool"), False), ("float", tm.sym("ev", "real"), False), ("pair", tup(tm.sym("e1", "real"), tm.sym("e2", "real")), True), ("none", tm.NONE, True),
            ("vector", sh([tm.sym("e1", "real")]), True), ("matrix", sh([[tm.sym("e1", "real")]]), True), ("int", "int", True), ("complex", "complex", True)]
    for nm, v, bad in vals:
        for pos in ("only", "first", "second"):
            def build(S):
                I = S.I
                x = v
                if isinstance(v, str):
                    x = tm.sym("ev_" + v, "real")
                    rt, isd = I.user_models["jax.numpy.result_type"], I.user_models["jax.numpy.issubdtype"]
                    I.user_models["jax.numpy.result_type"] = lambda I, a, k: tm.enum("dtype." + v) if len(a) == 1 and I.to_term(a[0]) is x else rt(I, a, k)
                    I.user_models["jax.numpy.issubdtype"] = lambda I, a, k: const(a[1].name.split(".")[-1] in (("integer",) if v == "int" else ("complexfloating", "inexact"))) if I.to_term(a[0]) is tm.enum("dtype." + v) else isd(I, a, k)
                bad_, good = Native(lambda I, a, k: x, "cond"), Native(lambda I, a, k: tm.sym("good", "bool"), "good")
                c = {"only": bad_, "first": tup(bad_, good), "second": tup(good, bad_)}[pos]
                d = tm.NONE if pos == "only" else tup(tm.NONE, tm.NONE)
                return dict(dt0=tm.NONE, subs=[lambda I: Sub(I, "A", t1=True)], event=I.mkobj(E, dict(cond_fn=c, direction=d, root_finder=tm.NONE))), bad
            solve_refusal(ck, f"event-value.{pos}.{nm}", build, "an event function that does not return one boolean or float is accepted, or one that does refused", prep=scalar)
    fn = find(ck, "diffrax._event", "steady_state_event")
    for ctrl, ad in (("PIDController", True), ("ClipStepSizeController", True), ("ConstantStepSize", False), ("StepTo", False)):
        for given in itertools.product((0, 1), repeat=3):
            def build(I):
                mk = lambda c, **x: I.mkobj(R.cls(c), x)
                tol = dict(rtol=tm.sym("crtol", "real"), atol=tm.sym("catol", "real"), norm=tm.sym("cnorm"))
                c = mk("PIDController", **tol)
                if ctrl == "ClipStepSizeController": c = mk(ctrl, controller=c)
                elif ctrl != "PIDController": c = mk(ctrl)
                kw = {n: tm.sym("own_" + n, "real") for n, g in zip(("rtol", "atol", "norm"), given) if g}
                solver = I.mkobj(R.cls("AbstractSolver"), {"func": Native(lambda I, a, k: state("vf", 2), "func")})
                def go():
                    cond = I.call(I.mkfunc(fn[1], None, fn[0], None), [], kw)
                    I.call(cond, [tm.sym("t", "real"), state("y", 2), tm.sym("args")], dict(terms=tm.sym("terms"), solver=solver, stepsize_controller=c, t0=tm.sym("t0", "real")))
                return go
            refuses(ck, f"steady_state_event.{ctrl}.given={given}", f"{fn[0].path}:{fn[1].lineno} steady_state_event", build, not ad and not all(given), "a steady state condition without tolerances is accepted, or refused with them")


def paths(ck):
    R = ck.repo
    dts = {"f32": True, "c64": True, "i32": False, "b1": False}
    def leaf(n): return app("sds", app("tuple"), tm.enum("dtype." + n))
    def prep(I):
        for n in dts: I.attr_models[(leaf(n), "dtype")] = tm.enum("dtype." + n)
        I.opaque["diffrax._misc.is_tuple_of_ints"] = lambda I, a, k: tm.FALSE
        base = I.user_models["jax.numpy.issubdtype"]
        def issub(I, a, k):
            d = I.to_term(a[0])
            n = d.data[6:] if d.op == "enum" and d.data.startswith("dtype.") else None
            if n not in dts: return base(I, a, k)
            return const(a[1].name.split(".")[-1] in {"f32": ("floating", "inexact", "number"), "c64": ("complexfloating", "inexact", "number"), "i32": ("integer", "signedinteger", "number"), "b1": ("bool_",)}[n])
        I.user_models["jax.numpy.issubdtype"] = issub
        I.opaque["diffrax._misc.split_by_tree"] = lambda I, a, k: tm.sym("keys")
    shapes = [(n,) for n in dts] + list(itertools.product(dts, repeat=2)) + [("f32", "f32", "i32"), ("f32", "f32", "f32")]
    t0, t1 = tm.sym("T0", "real"), tm.sym("T1", "real")
    for sh in shapes:
        bad = not all(dts[n] for n in sh)
        mk = lambda: leaf(sh[0]) if len(sh) == 1 else PyTuple([leaf(n) for n in sh])
        for cname in ("UnsafeBrownianPath", "VirtualBrownianTree"):
            cls = R.cls(cname)
            def build(I):
                prep(I)
                kw = dict(shape=mk(), key=tm.sym("key"))
                if cname == "VirtualBrownianTree": kw.update(t0=t0, t1=t1, tol=tm.sym("tol", "pos"))
                return lambda: I.call(cls, [], kw)
            exp = const(bad) if cname == "UnsafeBrownianPath" else tm.lor(const(bad), tm.le(t1, t0))
            refuses(ck, f"{cname}.dtypes{sh}", at(cls, "__init__"), build, exp, "paths with values that are not floating point, or an empty interval, are accepted - or well-formed ones refused")


def data(ck):
    R = ck.repo
    m, fn = find(ck, "diffrax._global_interpolation", "_check_ts")
    w = f"{m.path}:{fn.lineno} _check_ts"
    for n in (0, 1, 2, 3, 4):
        qs = [tm.sym(f"q{i}", "real") for i in range(n)]
        refuses(ck, f"check-ts.{n}", w, lambda I: lambda: I.call(I.mkfunc(fn, None, m, None), [arr(qs)], {}), True if n < 2 else tm.lor_all([tm.lnot(tm.lt(a, b)) for a, b in zip(qs, qs[1:])]),
                "times that are too few or not strictly increasing are accepted, or others refused")
    for nm, v in (("scalar", np.array(tm.sym("q", "real"), dtype=object)), ("matrix", np.array([[tm.sym("q0", "real"), tm.sym("q1", "real")], [tm.sym("q2", "real"), tm.sym("q3", "real")]], dtype=object))):
        refuses(ck, f"check-ts.{nm}", w, lambda I: lambda: I.call(I.mkfunc(fn, None, m, None), [v], {}), True, "times that are not one-dimensional are accepted")
    A = lambda p, n: arr([tm.sym(f"{p}{i}", "real") for i in range(n)])
    L = R.cls("LinearInterpolation")
    for nt in (1, 2, 3):
        for ns in [(k,) for k in (1, 2, 3, 4)] + [(2, 3), (3, 2), (3, 3), (2, 2)]:
            ys = lambda: A("y", ns[0]) if len(ns) == 1 else PyTuple([A("y", ns[0]), A("z", ns[1])])
            refuses(ck, f"LinearInterpolation.{nt}.{ns}", at(L), lambda I: lambda: I.call(L, [], dict(ts=A("t", nt), ys=ys())), any(k != nt for k in ns), "data with another number of entries than there are times are accepted, or matching data refused")
    C = R.cls("CubicInterpolation")
    for nt in (2, 3):
        for off in [(0, 0, 0, 0)] + [tuple(int(i == j) * s for i in range(4)) for j in range(4) for s in (1, -1)]:
            for tree in (False, True):
                cs = lambda: PyTuple([PyTuple([A("p%d" % j, nt - 1), A("c%d" % j, nt - 1 + o)]) if tree else A("c%d" % j, nt - 1 + o) for j, o in enumerate(off)])
                refuses(ck, f"CubicInterpolation.{nt}.{off}.{tree}", at(C), lambda I: lambda: I.call(C, [], dict(ts=A("t", nt), coeffs=cs())), any(off), "coefficients with another number of entries than there are pieces are accepted, or matching ones refused")
    So = R.cls("Solution")
    for dense in (False, True):
        for meth, args in (("evaluate", [tm.sym("t", "real")]), ("evaluate", [tm.sym("t", "real"), tm.sym("s", "real")]), ("derivative", [tm.sym("t", "real")])):
            def build(I):
                interp = I.mkobj(R.cls("AbstractPath"), {"evaluate": Native(lambda I, a, k: tm.sym("value"), "evaluate"), "derivative": Native(lambda I, a, k: tm.sym("value"), "derivative")}) if dense else tm.NONE
                o = I.mkobj(So, {"interpolation": interp})
                return lambda: I.call(I.method(So, meth, o), args, {})
            refuses(ck, f"Solution.{meth}({len(args)}).dense={dense}", at(So, meth), build, not dense, "evaluating a solution without dense output is accepted, or one with it refused")


def solvers(ck):
    R = ck.repo
    P = R.cls("PIDController")
    for own in (False, True):
        for given in (False, True):
            o = lambda I: I.mkobj(P, {"error_order": tm.sym("own", "real") if own else tm.NONE})
            refuses(ck, f"PIDController.error-order.own={own}.solver={given}", at(P, "_get_error_order"), lambda I: (lambda x: lambda: I.call(I.method(P, "_get_error_order", x), [tm.sym("given", "real") if given else tm.NONE], {}))(o(I)),
                    not (own or given), "an unknown error order is accepted, or a known one refused")
    for c in ("StratonovichMilstein", "ItoMilstein"):
        cls = R.cls(c)
        refuses(ck, f"{c}.order", at(cls, "order"), lambda I: lambda: I.call(I.method(cls, "order", I.mkobj(cls, {})), [tm.sym("terms")], {}), True, "a solver of stochastic equations is accepted for an ordinary one")


def controllers(ck):
    R = ck.repo
    t0, t1, dt = tm.sym("t0", "real"), tm.sym("t1", "real"), tm.sym("dt0", "pos")
    y, args = state("y", 1), tm.sym("args")
    f = Native(lambda I, a, k: state("vf", 1), "func")
    for n in (2, 3, 4):
        qs = [tm.sym(f"s{i}", "real") for i in range(n)]
        for given in (False, True):
            cls = R.cls("StepTo")
            def build(I):
                o = I.mkobj(cls, {"ts": arr(qs)})
                return lambda: I.call(I.method(cls, "init", o), [tm.sym("terms"), t0, t1, y, dt if given else tm.NONE, args, f, tm.NONE], {})
            refuses(ck, f"StepTo.init.{n}.dt0={given}", at(cls, "init"), build, True if given else tm.lor(tm.lnot(tm.eq(t0, qs[0])), tm.lnot(tm.eq(t1, qs[-1]))),
                    "prescribed locations are refused other than when their ends are not those of the interval, or a step size is given as well")
        for d in (1, -1):
            def build(I):
                o = I.mkobj(cls, {"ts": arr(qs)})
                return lambda: I.call(I.method(cls, "wrap", o), [const(d)], {})
            refuses(ck, f"StepTo.wrap.{n}.{d}", at(cls, "wrap"), build, tm.lor_all([tm.le((b - a) * d, const(0)) for a, b in zip(qs, qs[1:])]),
                    "locations are refused other than when not strictly ordered in the direction of integration")
    for given in (False, True):
        cls2 = R.cls("ConstantStepSize")
        def build(I):
            o = I.mkobj(cls2, {})
            return lambda: I.call(I.method(cls2, "init", o), [tm.sym("terms"), t0, t1, y, dt if given else tm.NONE, args, f, tm.NONE], {})
        refuses(ck, f"ConstantStepSize.init.dt0={given}", at(cls2, "init"), build, not given, "a missing step size is accepted, or a given one refused")
    P = R.cls("PIDController")
    for mask in itertools.product((0, 1), repeat=2):
        def build(I):
            kw = {n: (tm.sym(n, "pos") if m else tm.NONE) for n, m in zip(("rtol", "atol"), mask)}
            return lambda: I.call(P, [], kw)
        refuses(ck, f"PIDController.tolerances{mask}", at(P), build, not all(mask), "unspecified tolerances are accepted, or given ones refused")


def structures(ck):
    """what a vector field or its product with the control returns: the structure (and, for the product, the shape) of the state"""
    R = ck.repo
    s = lambda n: tm.sym(n, "real")
    v = lambda n, k: np.array([s(f"{n}{i}") for i in range(k)], dtype=object)
    tup = lambda *x: PyTuple(list(x))
    ys = [("scalar", s("y")), ("pair", tup(s("y"), s("z"))), ("nested", tup(s("y"), tup(s("z")))), ("single", tup(s("y"))), ("dict", {"a": s("y"), "b": s("z")}), ("dict2", {"a": s("y"), "c": s("z")})]
    O_, C_ = R.cls("ODETerm"), R.cls("ControlTerm")
    for (n1, y), (n2, o) in itertools.product(ys, ys):
        def mk(I, x): return I.mkdict(x) if isinstance(x, dict) else x
        def build(I):
            term = I.mkobj(O_, {"vector_field": Native(lambda I, a, k: mk(I, o), "vector_field")})
            return lambda: I.call(I.method(O_, "vf", term), [s("t"), mk(I, y), tm.sym("args")], {})
        refuses(ck, f"ODETerm.vf.{n1}.{n2}", at(O_, "vf"), build, n1 != n2, "a vector field of another structure than the state is accepted, or one of the same refused")
    shp = [("scalar", s("y")), ("1", v("y", 1)), ("2", v("y", 2)), ("3", v("y", 3)), ("pair", tup(v("y", 2), s("z"))), ("pair'", tup(v("y", 2), v("z", 1))), ("pair''", tup(s("y"), v("z", 2)))]
    for (n1, y), (n2, o) in itertools.product(shp, shp):
        def build(I):
            I.user_models["jax.numpy.shape"] = lambda I, a, k: PyTuple([const(d) for d in a[0].shape]) if isinstance(a[0], np.ndarray) else PyTuple([])
            term = I.mkobj(C_, {"control": tm.sym("x"), "prod": Native(lambda I, a, k: o, "prod"), "vf": Native(lambda I, a, k: tm.sym("gval"), "vf")})
            return lambda: I.call(I.method(C_, "vf_prod", term), [s("t"), y, tm.sym("args"), tm.sym("dx")], {})
        refuses(ck, f"ControlTerm.vf_prod.{n1}.{n2}", at(C_, "vf_prod"), build, n1 != n2, "a control term of another structure or shape than the state is accepted, or one of the same refused")


def compatible(ck):
    """terms accepted by a solver: the class, and the types of the vector field and the control, it declares"""
    R = ck.repo
    m, fn = find(ck, "diffrax._integrate", "_assert_term_compatible")
    w = f"{m.path}:{fn.lineno} _assert_term_compatible"
    ODE, CT, AT, MT = (R.cls(c) for c in ("ODETerm", "ControlTerm", "AbstractTerm", "MultiTerm"))
    VF, CO, ANY = Ext("spec.VF"), Ext("spec.Control"), Ext("typing.Any")
    class Spec:
        """AbstractTerm[VF, Control] of origin `cls`, or MultiTerm[tuple[...]]"""
    specs, multi = {}, {}
    def prep(I, ok):
        sp = lambda x: specs.get(x.data[0]) if isinstance(x, T) and x.op == "sym" else None
        def origin(I, a, k):
            x = a[0]
            if isinstance(x, T) and x.op == "sym":
                if x.data[0] in multi: return MT
                if x.data[0] in specs: return specs[x.data[0]][0]
                if x.data[0].startswith("tuple!"): return Ext("builtins.tuple")
            return tm.NONE
        def args_(I, a, k):
            x = a[0]
            if isinstance(x, T) and x.op == "sym":
                if x.data[0] in multi: return PyTuple([tm.sym("tuple!" + x.data[0])])
                if x.data[0].startswith("tuple!"): return PyTuple(multi[x.data[0][6:]])
            return PyTuple([])
        def args_of(I, a, k):
            x = a[1]
            if isinstance(x, T) and x.op == "sym" and x.data[0] in specs: return PyTuple(specs[x.data[0]][1])
            return PyTuple([])
        for nm, f in (("get_origin_no_specials", origin), ("get_args_of", args_of)): I.opaque["diffrax._typing." + nm] = f
        I.user_models["typing.get_origin"] = origin; I.user_models["typing.get_args"] = args_
        I.opaque["diffrax._typing.better_isinstance"] = lambda I, a, k: ok(a[0], a[1])
        base = I.user_models.get("jax.tree_util.tree_map") or I.models["jax.tree_util.tree_map"]
        def tmap(I, a, k):
            if isinstance(a[1], T) and not isinstance(a[1], PyTuple): return I.call(a[0], a[1:], {})     # the structure is one leaf
            return base(I, a, k)
        I.user_models["jax.tree_util.tree_map"] = tmap
    good, bad = tm.sym("vf_ok", "bool"), tm.sym("control_ok", "bool")
    def term(I, cls, tag=""):
        return I.mkobj(cls, {"vf": Native(lambda I, a, k: tm.sym("vfval" + tag), "vf"), "contr": Native(lambda I, a, k: tm.sym("contrval" + tag), "contr")})
    def okfun(v, ty):
        v = v.data[0] if isinstance(v, T) and v.op == "sym" else "?"
        n = ty.name if isinstance(ty, Ext) else "?"
        if v.startswith("vfval") and n == "spec.VF": return tm.sym("vf_ok" + v[5:], "bool")
        if v.startswith("contrval") and n == "spec.Control": return tm.sym("control_ok" + v[8:], "bool")
        raise Unsupported(f"type test of {v} against {n}")
    for given in (ODE, CT):
        for want in (ODE, CT, AT):
            for par in (False, True):
                specs.clear(); multi.clear(); specs["want"] = (want, [VF, CO] if par else [])
                def build(I, given=given):
                    prep(I, okfun)
                    kw = I.mkdict({})
                    return lambda: I.call(I.mkfunc(fn, None, m, None), [tm.sym("t", "real"), tm.sym("y0"), tm.sym("args"), term(I, given), tm.sym("want"), kw], {})
                exp = True if want is not AT and want is not given else tm.lor(tm.lnot(good), tm.lnot(bad)) if par else False
                refuses(ck, f"term.{given.name}.{want.name}.types={par}", w, build, exp, "a term of another class, or other types, than the solver supports is accepted - or a supported one refused")
    for cl in itertools.product((ODE, CT), repeat=2):
        for top in (MT, ODE):
            specs.clear(); multi.clear()
            specs.update(first=(ODE, []), second=(AT, [VF, CO])); multi["both"] = [tm.sym("first"), tm.sym("second")]
            def build(I):
                prep(I, okfun)
                def go():
                    tt = I.mkobj(MT, {"terms": PyTuple([term(I, c, str(i)) for i, c in enumerate(cl)])}) if top is MT else term(I, ODE)
                    I.call(I.mkfunc(fn, None, m, None), [tm.sym("t", "real"), tm.sym("y0"), tm.sym("args"), tt, tm.sym("both"), PyTuple([I.mkdict({}), I.mkdict({})])], {})
                return go
            exp = True if top is not MT or cl[0] is not ODE else tm.lor(tm.lnot(tm.sym("vf_ok1", "bool")), tm.lnot(tm.sym("control_ok1", "bool")))
            refuses(ck, f"terms.{'+'.join(c.name for c in cl)}.{top.name}", w, build, exp, "a sum of terms is checked other than component by component")


def noise_terms(ck):
    """the Brownian increments a stochastic solver is given, and the terms of a Langevin problem"""
    R = ck.repo
    from checks import c06, c07
    order = ["BrownianIncrement", "SpaceTimeLevyArea", "SpaceTimeTimeLevyArea"]
    F = dict(zip(order, (("dt", "W"), ("dt", "W", "H"), ("dt", "W", "H", "K"))))
    def inc(I, n, leaf): return I.mkobj(R.cls(n), {f: leaf(f) for f in F[n]})
    def settled(I, thunk):
        """nothing but the refusal is of interest: what follows an accepted increment is decided elsewhere (C06, C07)"""
        try: thunk()
        except Exception:
            if any(tm.truth(g.cond) is True for g in I.guards): raise
    for cls in c06.solvers(R):
        w = at(cls, "step")
        for given in order:
            probe = ck.interp()
            o = c06.tableau(probe, cls)
            isn = lambda v: isinstance(v, T) and v is tm.NONE
            need = sum((not isn(probe.getattr(o, "coeffs_" + x))) for x in ("hh", "kk"))
            bad = order.index(given) < need
            def build(I):
                diff = I.mkobj(R.cls("AbstractTerm"), {q: Native(lambda I, a, k: inc(I, given, lambda f: state("l" + f, 1)), q) if q == "contr" else Native(lambda I, a, k: state("gv", 1), q) for q in ("contr", "vf", "prod", "vf_prod")})
                drift = I.mkobj(R.cls("AbstractTerm"), {q: Native(lambda I, a, k: state("fv", 1), q) for q in ("contr", "vf", "prod", "vf_prod")})
                terms = I.mkobj(R.cls("MultiTerm"), {"terms": PyTuple([drift, diff])})
                so = I.mkobj(cls, {"scan_kind": tm.NONE})
                f = lambda: I.call(I.method(cls, "step", so), [terms, tm.sym("t0", "real"), tm.sym("t1", "real"), state("y", 1), tm.sym("args"), tm.NONE, tm.sym("made_jump", "bool")], {})
                return f if bad else (lambda: settled(I, f))
            refuses(ck, f"{cls.name}.step.{given}", w, build, bad, "a Brownian increment without the areas the method needs is accepted, or one with them refused")
        # diffusion that does not depend on the state, for methods that assume so
        probe = ck.interp()
        additive = tm.truth(probe.to_term(probe.call(probe.getattr(c06.tableau(probe, cls), "is_additive_noise"), [], {})))
        for dep in itertools.product((0, 1), repeat=2):
            def build(I):
                def jvp(I, a, k):
                    y = I.unpack(a[1], 1)[0] if not isinstance(a[1], PyTuple) else a[1].items[0]
                    out = I.call(a[0], [y], {})
                    ysy = {x.data[0] for x in tm.symbols(I.to_term(y))}
                    return PyTuple([out, PyTuple([app("tangent", I.to_term(v)) if ysy & {x.data[0] for x in tm.symbols(I.to_term(v))} else tm.NONE for v in I.iterate(out)])])
                I.user_models["equinox.filter_jvp"] = jvp
                vf = Native(lambda I, a, k: PyTuple([app(f"g{i}", I.to_term(a[0]), *([I.to_term(a[1])] if d else [])) for i, d in enumerate(dep)]), "vf")
                terms = I.mkobj(R.cls("MultiTerm"), {"terms": PyTuple([tm.sym("drift"), I.mkobj(R.cls("AbstractTerm"), {"vf": vf})])})
                so = I.mkobj(cls, {"scan_kind": tm.NONE})
                return lambda: I.call(I.method(cls, "init", so), [terms, tm.sym("t0", "real"), tm.sym("t1", "real"), state("y", 2), tm.sym("args")], {})
            refuses(ck, f"{cls.name}.init.depends={dep}", at(cls, "init"), build, bool(additive) and any(dep), "a state-dependent diffusion is accepted by a method for additive noise, or another one refused")
    for nm in sorted(c.name for c in R.classes.values() if c.issub(R.cls("AbstractFosterLangevinSRK")) and c.name != "AbstractFosterLangevinSRK"):
        for wrap in (False, True):
            def go(nm=nm, wrap=wrap):
                p = c07.L(ck, nm, wrap); I = p.I
                alt = lambda n: [c07.O([tm.sym(f"{n}{i}_{j}", "pos") for j in range(s)]) for i, s in enumerate(p.SIZES)]
                g2, u2 = alt("gamma'"), alt("u'")
                d = I.fields(p.diff); d = dict(d); d.update(gamma=PyTuple(g2), u=PyTuple(u2)); I.hset(p.diff.uid, d)
                st = {"taylor_threshold": p.thr, "_recompute_coeffs": Native(lambda I, a, k: tm.sym("COEFFS"), "_recompute_coeffs"), "_tay_coeffs_single": Native(lambda I, a, k: tm.sym("TAY"), "_tay_coeffs_single")}
                p.o = I.mkobj(p.cls, st)
                c, gs, err = refusal(I, lambda: p.call("init", p.terms, p.t0, p.t1, PyTuple([PyTuple(p.x0), PyTuple(p.v0)]), p.args))
                if err is not None and tm.truth(c) is not True: raise Unsupported(f"{type(err).__name__}: {err}")
                ck.use(I)
                pairs = [(x, y) for a, b in ((p.gamma, g2), (p.u, u2)) for r, q in zip(a, b) for x, y in zip(r, q)]
                for i in range(len(pairs) + 1):      # all parameters but the i-th agree
                    cc = tm.subst(c, {y: x for j, (x, y) in enumerate(pairs) if j != i})
                    ck.equal(f"{nm}.parameters-match{'.wrapped' if wrap else ''}[{i}]", at(R.cls("AbstractFosterLangevinSRK"), "init"), cc, tm.lnot(tm.eq(*pairs[i])) if i < len(pairs) else tm.FALSE, I=I,
                             what="a Langevin problem is refused other than when drift and diffusion have different parameters")
            ck.attempt(f"{nm}.parameters-match{wrap}", go)
        need = {"ALIGN": 1}.get(nm, 2)
        for given in order:
            def go(nm=nm, given=given, need=need):
                p = c07.L(ck, nm); I = p.I
                old, _ = p.symbolic_coeffs("old")
                bad = order.index(given) < need
                d = dict(I.fields(p.diff)); I.hset(p.diff.uid, d)
                bm = I.fields(p.diff)["control"]
                I.hset(bm.uid, {"evaluate": Native(lambda I, a, k: inc(I, given, lambda f: PyTuple(list({"W": p.W, "H": p.H, "K": p.K}.get(f, p.W)))), "evaluate")})
                p.o = I.mkobj(p.cls, {"taylor_threshold": p.thr, "_recompute_coeffs": Native(lambda I, a, k: old, "_recompute_coeffs")})
                st = I.mkobj(R.cls("SolverState"), dict(gamma=PyTuple(p.gamma), u=PyTuple(p.u), h=tm.sym("h_prev", "real"), taylor_coeffs=tm.sym("TAYS"), coeffs=old, rho=PyTuple(p.u), prev_f=PyTuple(p.u)))
                f = lambda: p.call("step", p.terms, p.t0, p.t1, PyTuple([PyTuple(p.x0), PyTuple(p.v0)]), p.args, st, tm.FALSE)
                c, gs, err = refusal(I, f if bad else (lambda: settled(I, f)))
                if err is not None and tm.truth(c) is not True: raise Unsupported(f"{type(err).__name__}: {err}")
                ck.use(I)
                ck.equal(f"{nm}.step.{given}", at(R.cls("AbstractFosterLangevinSRK"), "step"), c, const(bad), I=I, what="a Brownian increment without the areas the method needs is accepted, or one with them refused")
            ck.attempt(f"{nm}.step.{given}", go)


def run(ck):
    noise_terms(ck)
    controllers(ck)
    structures(ck)
    compatible(ck)
    times(ck)
    noise(ck)
    unbounded(ck)
    tolerances(ck)
    requests(ck)
    events(ck)
    paths(ck)
    data(ck)
    solvers(ck)
