"""C16: integrating backwards in time."""
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
from sa.interp import Unsupported
from checks import solvekit as sk, dense
from checks.solvekit import Solve, D, where, tup, final_state
from checks.loopkit import Sub, Events, fetch, arr, field, models
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of diffeqsolve up to and after the integration loop with a symbolic direction; value numbering of every time-like input and output against multiplication by the direction exactly once; the same for term wrapping, dense output and controllers"
EXPLANATION = ("diffeqsolve is abstractly interpreted with symbolic start and end time (either order) and an arbitrary solver, controller, terms, save requests and events. Everything handed to the loop, everything a user callable receives, "
               "and every time-like output is compared with the user's quantity multiplied by the direction of integration.")
ASSUMPTIONS = ["states with 2 leaves, 2 requested times per sub-request", "the joint law of Brownian motion under time reversal: increments and the space-time-time area change sign, space-time area and interval length do not"]
FLOOR = 150


def wiring(ck):
    """What the loop, the controller and the solver receive."""
    for nm, kw, q in (("ts", {}, 2), ("dt0=None", dict(dt0=tm.NONE), 0), ("multi", {}, 2)):
        def go():
            S = Solve(ck)
            I = S.I
            qs = [tm.sym("q0", "real"), tm.sym("q1", "real")]
            S.mkcontroller()
            terms = None
            if nm == "multi":
                a, b = tm.sym("term_a"), tm.sym("term_b")
                for x in (a, b): I.hints[x] = (ck.repo.cls("AbstractTerm"), False)
                mk = lambda c, x: I.mkobj(ck.repo.cls(c), {"vector_field": x} if c == "ODETerm" else {"vector_field": x, "control": tm.sym("control")})
                ta, tb = mk("ODETerm", a), mk("ControlTerm", b)
                terms = I.mkobj(ck.repo.cls("MultiTerm"), {"terms": PyTuple([ta, tb])})
            sol = S.call(subs=[lambda I: Sub(I, "A", ts=qs, t1=True), lambda I: Sub(I, "B", t0=True)], controller=S.controller, terms=terms, **kw)
            w = where(S)
            L = S.loops[0]
            E = lambda n, g, s, what: ck.equal(f"{nm}.{n}", w, I.to_term(g), s, I=I, what=what)
            ck.require(nm + ".one-loop", len(S.loops) == 1, w, "the integration loop is not run exactly once")
            E("loop.t0", L["t0"], D * S.t0, "the loop does not start at the initial time in the direction of integration")
            E("loop.t1", L["t1"], D * S.t1, "the loop does not end at the final time in the direction of integration")
            E("loop.dt0", L["dt0"], tm.NONE if "dt0" in kw else D * S.dt0, "the first step size is not taken in the direction of integration")
            ck.require(nm + ".loop.controller", L["stepsize_controller"] is S.wrapped and len(S.wraps) == 1, w, "the loop does not use the controller wrapped once for the direction")
            E("controller.direction", S.wraps[0] if S.wraps else tm.NONE, D, "the controller is not told the direction of integration")
            subs = I.unpack(field_subs(I, L["saveat"]), 2)
            for i, x in enumerate(fetch(I, I.getattr(subs[0], "ts"))): E(f"saveat.ts[{i}]", x, D * qs[i], "a requested time is not converted once")
            t, y, ar = tm.sym("t_", "real"), state("y_", 2), tm.sym("args_")
            for s, o in zip(S.subs, subs):
                s.calls.clear()
                r = lst(I, I.call(I.getattr(o, "fn"), [t, y, ar], {}), 2)
                for l, (g, sp) in enumerate(zip(r, s.value(D * t, y.items, ar))): E(f"fn.{s.nm}[{l}]", g, sp, "the user's save function is not given the user's time")
                for n in ("t0", "t1", "steps"): E(f"saveat.{s.nm}.{n}", I.getattr(o, n), I.getattr(s.obj, n), "a save request is altered")
            st = L["init_state"]
            E("init.tprev", field(I, st, "tprev"), D * S.t0, "the loop state does not start at the initial time")
            E("init.tnext", field(I, st, "tnext"), app("min", tm.sym("controller_tnext", "real"), D * S.t1), "the first step does not end where the controller says, bounded by the final time")
            ci = S.cinits
            ck.require(nm + ".controller-init-once", len(ci) == 1 and len(S.inits) == 1, w, "controller or solver is not initialised exactly once")
            for n, g, s in zip(("t0", "t1", "y0", "dt0", "args", "func", "order"), ci[0][1:], (D * S.t0, D * S.t1, tup(I, S.y0), tm.NONE if "dt0" in kw else D * S.dt0, S.args, tm.sym("solver.func"), None)):
                if s is not None: E("controller-init." + n, tup(I, g) if n == "y0" else g, s, "the controller is initialised with the wrong quantity")
            for n, g, s in zip(("t0", "t1", "y0", "args"), S.inits[0][1:], (D * S.t0, app("min", tm.sym("controller_tnext", "real"), D * S.t1), tup(I, S.y0), S.args)):
                E("solver-init." + n, tup(I, g) if n == "y0" else g, s, "the solver is initialised with the wrong quantity")
            # every use of the terms goes through the same wrapped terms
            for n, g in (("controller-init", ci[0][0]), ("solver-init", S.inits[0][0]), ("loop", L["terms"])): wrapped(ck, f"{nm}.terms.{n}", w, I, S, g, multi=nm == "multi")
            # outputs
            E("solution.t0", I.getattr(sol, "t0"), S.t0, "the solution's start is not the user's initial time")
            E("solution.t1", I.getattr(sol, "t1"), S.t1, "the solution's end is not the user's final time")
            ck.use(I)
        ck.attempt(nm, go)


def field_subs(I, saveat): return I.getattr(saveat, "subs")


def wrapped(ck, nm, w, I, S, terms, multi):
    """`terms` evaluates the user's terms at the user's time"""
    t, y, ar = tm.sym("t_", "real"), tm.sym("y_"), tm.sym("args_")
    def vfs(x): return [I.to_term(I.call(I.getattr(x, "vf"), [t, y, ar], {}))]
    if multi:
        got = I.unpack(I.getattr(terms, "terms"), 2)
        for i, (g, f) in enumerate(zip(got, ("term_a", "term_b"))):
            ck.equal(f"{nm}[{i}]", w, vfs(g)[0], I.to_term(I.call(tm.sym(f), [D * t, y, ar], {})), I=I, what="a term's vector field is not evaluated at the user's time")
    else:
        ck.equal(nm, w, vfs(terms)[0], I.to_term(I.call(tm.sym("vector_field"), [D * t, y, ar], {})), I=I, what="the vector field is not evaluated at the user's time")


def events(ck):
    for kinds in (["float"], ["bool", "float"]):
        def go():
            S = Solve(ck)
            I = S.I
            ev = Events(I, kinds, [None] * len(kinds), True)
            S.call(subs=[lambda I: Sub(I, "A", t1=True)], event=ev.obj)
            w = where(S)
            L = S.loops[0]
            cs = I.getattr(L["event"], "cond_fn")
            cs = I.unpack(cs, len(kinds)) if len(kinds) > 1 else [cs]
            st = L["init_state"]
            got = [c for c in ev.calls]
            ck.require(f"events{len(kinds)}.initial-calls", sorted(c[0] for c in got) == list(range(len(kinds))), w, "each condition is not evaluated once at the start")
            for i, (t, y, a), k in got: check_call(ck, f"events{len(kinds)}.initial{i}", w, I, S, t, y, a, k, S.t0, S.y0.items, S.args)
            t_, y_, a_ = tm.sym("t_", "real"), state("y_", 2), tm.sym("args_")
            for how in ("positional", "keyword"):
                for i, c in enumerate(cs):
                    ev.calls.clear()
                    kw = dict(terms=L["terms"], solver=L["solver"], t0=L["t0"], t1=L["t1"], dt0=L["dt0"], saveat=L["saveat"], stepsize_controller=L["stepsize_controller"], max_steps=L["max_steps"])
                    if how == "positional": I.call(c, [t_, y_, a_], kw)
                    else: I.call(c, [], dict(kw, t=t_, y=y_, args=a_))
                    (j, (t, y, a), k), = ev.calls
                    check_call(ck, f"events{len(kinds)}.loop{i}.{how}", w, I, S, t, y, a, k, D * t_, y_.items, a_)
            ck.use(I)
        ck.attempt(f"events{len(kinds)}", go)


def check_call(ck, nm, w, I, S, t, y, a, k, t_, y_, a_):
    what = "an event function is not given the user's own times, state and arguments"
    ck.equal(nm + ".t", w, t, t_, I=I, what=what)
    ck.equal(nm + ".y", w, app("tuple", *y), app("tuple", *y_), I=I, what=what)
    ck.equal(nm + ".args", w, a, a_, I=I, what=what)
    for n, s in (("t0", S.t0), ("t1", S.t1), ("dt0", S.dt0)):
        if n in k: ck.equal(f"{nm}.{n}", w, I.to_term(k[n]), s, I=I, what=what)
    if "terms" in k:
        t2, y2, a2 = tm.sym("t2_", "real"), tm.sym("y2_"), tm.sym("args2_")
        ck.equal(nm + ".terms", w, I.to_term(I.call(I.getattr(k["terms"], "vf"), [t2, y2, a2], {})), I.to_term(I.call(tm.sym("vector_field"), [t2, y2, a2], {})), I=I, what="an event function is not given the user's own terms")


def solution(ck):
    sk.saved_output(ck)
    def go():
        S, sol, f = sk.outputs(ck, "dense", dense=True)
        I, w = S.I, where(S)
        o = I.getattr(sol, "interpolation")
        for n, s in (("ts", f["dense_ts"]), ("ts_size", f["dense_save_index"] + const(1)), ("infos", f["dense_infos"]), ("interpolation_cls", tm.sym("interpolation_cls")), ("direction", D),
                     ("t0_if_trivial", D * S.t0)):
            ck.equal("dense." + n, w, I.to_term(I.getattr(o, n)), s, I=I, what="dense output is not built from the recorded steps and the direction of integration")
        ck.equal("dense.y0_if_trivial", w, tup(I, I.getattr(o, "y0_if_trivial")), tup(I, S.y0), I=I, what="dense output of an empty solve is not the initial value")
        a, b = tm.sym("a_", "real"), tm.sym("b_", "real")
        cls = ck.repo.cls("Solution")
        seen = []
        x = I.mkobj(cls, {"interpolation": I.mkobj(ck.repo.cls("DenseInterpolation"), {n: Native(lambda I, aa, kk, n=n: seen.append((n, aa, kk)) or app(n, *[I.to_term(q) for q in list(aa) + [kk[z] for z in sorted(kk)]]), n) for n in ("evaluate", "derivative")})})
        for n, args, kw, sp in (("evaluate", [a], {}, (a, tm.NONE, tm.TRUE)), ("evaluate", [a, b], {"left": tm.FALSE}, (a, b, tm.FALSE)), ("derivative", [a], {"left": tm.FALSE}, (a, tm.FALSE))):
            I.call(I.method(cls, n, x), list(args), dict(kw))
            _, aa, kk = seen[-1]
            full = list(aa) + list(kk.values())
            for i, (g, s) in enumerate(zip(full, sp)): ck.equal(f"Solution.{n}({len(args)}).arg{i}", at(cls, n), I.to_term(g), s, I=I, what="does not evaluate the dense output at the given time")
    ck.attempt("dense", go)
    dense.container(ck, "user-time.")


def wrapterm(ck):
    repo = ck.repo
    cls = repo.cls("WrapTerm")
    for d in (1, -1):
        def go():
            I = ck.interp()
            inner, dr = tm.sym("term"), tm.sym("direction", ("choice", (1, -1))) if d is None else const(d)
            t0, t1, t = tm.sym("t0", "real"), tm.sym("t1", "real"), tm.sym("t", "real")
            y, ar, ct = tm.sym("y"), tm.sym("args"), tm.sym("control")
            log = []
            ret = {}
            def nat(n, params):
                def f(I, a, k):
                    a = list(a) + [k.pop(p) for p in params[len(a):] if p in k]
                    log.append((n, a, dict(k)))
                    return ret[n] if n in ret else app("inner." + n, *[I.to_term(x) for x in a])
                return Native(f, n)
            term = I.mkobj(repo.cls("AbstractTerm"), {"vf": nat("vf", ("t", "y", "args")), "contr": nat("contr", ("t0", "t1")), "prod": nat("prod", ("vf", "control")),
                                                      "vf_prod": nat("vf_prod", ("t", "y", "args", "control")), "is_vf_expensive": nat("is_vf_expensive", ("t0", "t1", "y", "args"))})
            o = I.mkobj(cls, {"term": term, "direction": const(d)})
            call = lambda n, a, k={}: I.call(I.method(cls, n, o), list(a), dict(k))
            E = lambda n, m, g, s, what: ck.equal(f"WrapTerm({d}).{n}", at(cls, m), I.to_term(g), s, I=I, what=what)
            E("vf", "vf", call("vf", [t, y, ar]), app("inner.vf", const(d) * t, y, ar), "the vector field is not evaluated at the user's time")
            E("prod", "prod", call("prod", [y, ct]), app("inner.prod", y, ct), "prod is altered")
            E("vf_prod", "vf_prod", call("vf_prod", [t, y, ar, ct]), app("inner.vf_prod", const(d) * t, y, ar, ct), "the vector field is not evaluated at the user's time")
            a, b = (t0, t1) if d == 1 else (-t1, -t0)
            E("expensive", "is_vf_expensive", call("is_vf_expensive", [t0, t1, y, ar]), app("inner.is_vf_expensive", a, b, y, ar), "the wrong interval is asked about")
            def contr(nm, value, spec, **kw):
                ret["contr"] = value
                log.clear()
                g = call("contr", [t0, t1], kw)
                (n, aa, kk), = [x for x in log if x[0] == "contr"]
                E(nm + ".start", "contr", aa[0], a, "the control is not asked for over the user's interval in increasing time")
                E(nm + ".end", "contr", aa[1], b, "the control is not asked for over the user's interval in increasing time")
                for q, v in kw.items(): E(f"{nm}.{q}", "contr", kk.get(q, tm.NONE), v, "a keyword argument is not passed on")
                return g
            x = tm.sym("increment", "real")
            E("contr.scalar", "contr", contr("contr.scalar", x, None), const(d) * x, "an increment does not change sign with the direction")
            g = lst(I, contr("contr.tree", PyTuple([x, tm.sym("increment2", "real")]), None, use_levy=tm.TRUE), 2)
            for i, (p, q) in enumerate(zip(g, (x, tm.sym("increment2", "real")))): E(f"contr.tree{i}", "contr", p, const(d) * q, "an increment does not change sign with the direction")
            for cname in ("BrownianIncrement", "SpaceTimeLevyArea", "SpaceTimeTimeLevyArea"):
                c = repo.cls(cname)
                f = [n for n in c.all_fields()]
                for sh in ("leaf", "tree"):
                    val = lambda n: tm.sym(n, "real") if sh == "leaf" else PyTuple([tm.sym(n + "0", "real"), tm.sym(n + "1", "real")])
                    v = I.mkobj(c, {n: val(n) for n in f})
                    g = contr(f"contr.{cname}.{sh}", v, None, use_levy=tm.TRUE)
                    for n in f:
                        s = const(1) if n in ("dt", "H") else const(d)
                        gg, ss = I.getattr(g, n), val(n)
                        pairs = [(gg, ss)] if sh == "leaf" else zip(lst(I, gg, 2), ss.items)
                        for i, (p, q) in enumerate(pairs): E(f"contr.{cname}.{sh}.{n}{i}", "contr", p, s * q, {"dt": "the interval length is not that of the interval", "H": "the space-time area is not that of the time-reversed path"}.get(n, "does not change sign with the direction"))
            ck.use(I)
        ck.attempt(f"WrapTerm({d})", go)


def controllers(ck):
    """wrap() of every controller: nested controllers wrapped, nothing but time-like data altered"""
    repo = ck.repo
    base = repo.cls("AbstractStepSizeController")
    for cls in sorted(repo.subclasses(base), key=lambda c: c.qual):
        if cls.is_abstract(): continue
        for d in (1, -1):
            def go():
                I = ck.interp(); I.scalar_leaves = True
                models(I)
                inner = []
                def w(I, a, k): inner.append(I.to_term(a[0] if a else k["direction"])); return tm.sym("wrapped_controller")
                f = {}
                for n in cls.all_fields():
                    # (StepTo takes its times in the order of integration, ClipStepSizeController keeps them increasing)
                    if n == "ts" or n.endswith("_ts"): f[n] = arr([const(3), const(5), const(9)] if d == 1 or n != "ts" else [const(9), const(5), const(3)])
                    elif n == "controller": f[n] = I.mkobj(base, {"wrap": Native(w, "wrap")})
                    elif n == "store_rejected_steps": f[n] = const(10)
                    else: f[n] = tm.sym("field_" + n)
                o = I.mkobj(cls, f)
                r = I.call(I.method(cls, "wrap", o), [const(d)], {})
                for n in f:
                    g = I.getattr(r, n)
                    nm = f"{cls.name}.wrap({d}).{n}"
                    if n == "ts" or n.endswith("_ts"):
                        for i, (x, y) in enumerate(zip(fetch(I, g), [3, 5, 9] if d == 1 else [-9, -5, -3])): ck.equal(f"{nm}[{i}]", at(cls, "wrap"), x, const(y), I=I, what="times are not converted to the direction of integration in increasing order")
                    elif n == "controller":
                        ck.equal(nm, at(cls, "wrap"), I.to_term(g), tm.sym("wrapped_controller"), I=I, what="the wrapped controller is not itself wrapped for the direction")
                        ck.require(nm + ".direction", [tm.truth(tm.eq(x, const(d))) for x in inner] == [True], at(cls, "wrap"), "the wrapped controller is not told the direction once")
                    else: ck.equal(nm, at(cls, "wrap"), I.to_term(g), I.to_term(f[n]), I=I, what="something other than times is altered by the direction")
                ck.held(f"{cls.name}.wrap({d})")
                ck.use(I)
            ck.attempt(f"{cls.name}.wrap({d})", go)


def run(ck):
    wiring(ck)
    events(ck)
    solution(ck)
    wrapterm(ck)
    controllers(ck)
    from checks import c11, c17
    c17.part(ck, c11.construct, r"^(construct|wrap)\b")
