"""C21: the choice of adjoint never changes the solution nor silently corrupts gradients."""
import itertools
import numpy as np
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, lst, state
from sa.interp import Unsupported
from checks import c07, c18
from checks import loopkit as lk
from checks.c07 import O, nd, flat
from checks.solvekit import Solve
from checks.loopkit import find
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of every adjoint's loop with the integration as an uninterpreted function; barrier (taint) tracking of differentiability; the backward pass unrolled over symbolic save times and compared with the adjoint recursion"
EXPLANATION = ("Each adjoint's loop is extracted with the forward integration left opaque: the arguments it is given, the result handed back and the differentiability barrier on every leaf of it are compared with the specification, for "
               "every combination of bounded/unbounded steps, checkpoints, noise and passed-in states. The backward pass of the continuous adjoint is unrolled for one to five saved times, with and without the initial time, and every "
               "sub-solve's times, augmented state, states handed on and jump flag are compared with the adjoint recursion. Refusals are compared with the documented list over all save configurations.")
ASSUMPTIONS = ["equinox's nondifferentiable barriers raise when differentiated; its while loops of kind 'checkpointed' and 'bounded' are differentiable, of kind 'lax' only in forward mode",
               "optimistix's implicit_jvp differentiates the root of the function it is given"]
FLOOR = 3000


# ------------------------------------------------------------------ barriers
def barrier(I, name):
    def wrap(v):
        def f(x):
            if x is None or x is tm.NONE: return x
            if isinstance(x, np.ndarray): return I.npmap(f, x)
            if not isinstance(x, T): return x
            if x.is_const or x.op == "app" and x.data == name: return x
            return app(name, x)
        return I.mapv(f, v)
    return wrap


def same(I, a, b):
    """structural equality of two configuration values"""
    if isinstance(a, Obj) or isinstance(b, Obj):
        if not (isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls): return False
        fa, fb = I.fields(a), I.fields(b)
        return set(fa) == set(fb) and all(same(I, fa[q], fb[q]) for q in fa)
    if isinstance(a, T) and isinstance(b, T): return a is b
    if isinstance(a, T) or isinstance(b, T):
        return False
    if a is b: return True
    if isinstance(a, Func) and isinstance(b, Func): return a.node is b.node
    if type(a) is not type(b): return False
    raise Unsupported("comparison of " + type(a).__name__)


def models(I):
    lk.models(I)
    I.scalar_leaves = True
    I.track_grad = True
    for n in ("nondifferentiable", "nondifferentiable_backward"):
        w = barrier(I, n)
        I.user_models["equinox.internal." + n] = lambda I, a, k, w=w: w(a[0] if a else k["x"])
    I.user_models["equinox.nondifferentiable"] = I.user_models["equinox.internal.nondifferentiable"]
    w2 = barrier(I, "stop_gradient")
    I.user_models["jax.lax.stop_gradient"] = lambda I, a, k: w2(a[0] if a else k["x"])
    I.user_models["equinox.tree_equal"] = lambda I, a, k: const(all(same(I, a[0], x) for x in a[1:]))
    kinds = []
    def wl(I, a, k):
        kinds.append(dict(k)); return a[2] if len(a) > 2 else k.get("init_val", tm.NONE)
    I.user_models["equinox.internal.while_loop"] = wl
    I.kinds = kinds


def kind_of(I, f):
    """(kind, checkpoints) a captured while loop runs with"""
    n = len(I.kinds)
    I.call(f, [tm.sym("cond_fun"), tm.sym("body_fun"), tm.sym("init_val")], {})
    k = I.kinds[n]
    return I.to_term(k.get("kind", tm.NONE)), I.to_term(k.get("checkpoints", tm.NONE)), I.to_term(k.get("max_steps", tm.NONE))


class H:
    """one adjoint's loop with symbolic arguments and the integration opaque"""
    def __init__(self, ck, cls, fields=None, unsafe=False, sde=False, solver=None, saveat=None, event=None, max_steps=const(7), passed=(False, False), over=None):
        self.ck, self.nm = ck, cls
        I = self.I = ck.interp(); models(I)
        R = ck.repo
        self.cls = R.cls(cls)
        I.opaque["diffrax._heuristics.is_unsafe_sde"] = lambda I, a, k: const(unsafe) if isinstance(unsafe, bool) else unsafe
        I.opaque["diffrax._heuristics.is_sde"] = lambda I, a, k: const(sde)
        self.o = I.mkobj(self.cls, fields or {})
        ss = lambda p: I.mkobj(R.cls("SaveState"), {"saveat_ts_index": tm.sym(p + "ts_index", "nat"), "ts": tm.sym(p + "ts", "real"), "ys": state(p + "ys", 2), "save_index": tm.sym(p + "save_index", "nat")})
        sc = R.cls("State")
        def st(p):
            f = {}
            for q in sc.all_fields(): f[q] = tm.sym(p + q, "real")
            f["y"] = state(p + "y", 2); f["save_state"] = ss(p); f["event_mask"] = tm.NONE; f["dense_infos"] = PyTuple([tm.sym(p + "di0", "real"), tm.sym(p + "di1", "real")])
            f["solver_state"] = PyTuple([tm.sym(p + "ss0", "real"), tm.NONE, tm.sym(p + "ss1", "real")]); f["controller_state"] = PyTuple([tm.sym(p + "cs0", "real")])
            return f
        self.init = st("i."); self.final = st("f.")
        self.stats = I.mkdict({"stat": tm.sym("stat", "real")})
        self.calls = []
        def loop(I, a, k):
            if a: raise Unsupported("positional arguments to the integration")
            self.calls.append(dict(k))
            return PyTuple([I.mkobj(sc, dict(self.final)), self.stats])
        I.opaque["diffrax._integrate.loop"] = loop
        self.solver = solver(I) if solver else I.mkobj(R.cls("AbstractSolver"), {"term_structure": tm.sym("term_structure", "real"), "func": tm.sym("solver.func")})
        self.args = dict(args=tm.sym("args"), terms=I.mkobj(R.cls("ODETerm"), {"vector_field": tm.sym("vf")}), solver=self.solver, stepsize_controller=tm.sym("controller"), event=event(I) if event else tm.NONE,
                         saveat=saveat(I) if saveat else mk_saveat(I, t1=True), t0=tm.sym("t0", "real"), t1=tm.sym("t1", "real"), dt0=tm.sym("dt0", "real"), max_steps=max_steps, throw=tm.sym("throw", "bool"),
                         init_state=I.mkobj(sc, dict(self.init)), passed_solver_state=const(passed[0]), passed_controller_state=const(passed[1]), progress_meter=tm.sym("meter"))
        if over: self.args.update(over(I))
        self.w = at(self.cls, "loop")

    def run(self):
        r = self.I.call(self.I.method(self.cls, "loop", self.o), [], dict(self.args))
        self.ck.use(self.I)
        return r


def mk_saveat(I, t0=False, t1=False, ts=None, steps=False, fn=None, dense=False, subs=None, **kw):
    R = I.repo
    save_y = I.global_value(R.modules["diffrax._saveat"], "save_y")
    sub = lambda **q: I.mkobj(R.cls("SubSaveAt"), dict(dict(t0=const(t0), t1=const(t1), ts=tm.NONE if ts is None else ts, steps=const(int(steps)), fn=fn if fn is not None else save_y), **q))
    s = subs(sub) if subs else sub()
    if not subs and not (t0 or t1 or ts is not None or steps): s = tm.NONE
    return I.mkobj(R.cls("SaveAt"), dict(subs=s, dense=const(dense), solver_state=const(False), controller_state=const(False), made_jump=const(False), **kw))


FWD = ("args", "terms", "stepsize_controller", "event", "saveat", "t0", "t1", "dt0", "max_steps", "progress_meter")


def forward(ck, h, nm, blocked=None):
    """the integration was run once, with the arguments of the solve"""
    I, w = h.I, h.w
    if not ck.require(nm + ".once", len(h.calls) == 1, w, f"the integration is run {len(h.calls)} times"): return False
    k = h.calls[0]
    for q in FWD:
        if not ck.require(f"{nm}.passes.{q}", q in k, w, f"the integration is not given {q}"): continue
        ck.equal(f"{nm}.forward.{q}", w, I.to_term(k[q]), I.to_term(h.args[q]), I=I, what=f"the forward integration does not run with the solve's {q}")
    extra = set(k) - set(FWD) - {"solver", "init_state", "inner_while_loop", "outer_while_loop"}
    ck.require(nm + ".extra", not extra, w, f"the integration is given {sorted(extra)}")
    init = k["init_state"]
    for q, v in h.init.items():
        want = v
        if blocked and q in blocked: want = barrier(I, blocked[q])(v)
        ck.equal(f"{nm}.init_state.{q}", w, I.to_term(I.getattr(init, q)), I.to_term(want), I=I,
                 what=f"the forward integration starts from another {q}" if not (blocked and q in blocked) else f"{q} is not {'refused' if blocked[q] == 'nondifferentiable' else 'held constant'} under differentiation")
    return True


def result(ck, h, r, nm, mark):
    """mark(field, value) -> specified value of the final state's field"""
    I, w = h.I, h.w
    st, aux = I.unpack(r, 2)
    for q, v in h.final.items():
        got = I.getattr(st, q)
        if q == "save_state":
            for s in ("saveat_ts_index", "ts", "ys", "save_index"):
                ck.equal(f"{nm}.final.save_state.{s}", w, I.to_term(I.getattr(got, s)), I.to_term(mark("save_state." + s, I.getattr(v, s))), I=I, what=f"saved {s}: not the integration's result with the specified differentiability")
            continue
        ck.equal(f"{nm}.final.{q}", w, I.to_term(got), I.to_term(mark(q, v)), I=I, what=f"{q}: not the integration's result with the specified differentiability")
    ck.equal(f"{nm}.stats", w, I.to_term(I.strip(aux) if hasattr(I, "strip") else aux), I.to_term(mark("stats", h.stats)), I=I, what="statistics are not those of the integration")


def loops(ck, h, nm, kind, checkpoints=None):
    I, w = h.I, h.w
    k = h.calls[0]
    for q in ("inner_while_loop", "outer_while_loop"):
        if not ck.require(f"{nm}.{q}", q in k, w, f"the integration is not given {q}"): continue
        a, c, m = kind_of(I, k[q])
        ck.equal(f"{nm}.{q}.kind", w, a, const(kind), I=I, what=f"{q} does not support the differentiation the adjoint promises (or promises to refuse)")
        if q == "outer_while_loop" and kind == "checkpointed":
            ck.equal(f"{nm}.{q}.checkpoints", w, c, checkpoints, I=I, what="number of checkpoints is not the one asked for")


def solver_same(ck, h, nm):
    ck.equal(f"{nm}.forward.solver", h.w, h.I.to_term(h.calls[0]["solver"]), h.I.to_term(h.solver), I=h.I, what="the forward integration does not run with the solve's solver")


# ------------------------------------------------------------------ the adjoints that differentiate the solve
def checkpointed(ck):
    for cp in (None, 5):
        for ms in (None, 7):
            for ps in itertools.product((False, True), repeat=2):
                nm = f"RecursiveCheckpoint.checkpoints={cp}.max_steps={ms}.passed={ps[0] + 0}{ps[1] + 0}"
                def go():
                    h = H(ck, "RecursiveCheckpointAdjoint", {"checkpoints": tm.NONE if cp is None else const(cp)}, max_steps=tm.NONE if ms is None else const(ms), passed=ps)
                    r = h.run()
                    if not forward(ck, h, nm): return
                    solver_same(ck, h, nm)
                    bad = cp is None and ms is None
                    loops(ck, h, nm, "lax" if bad else "checkpointed", tm.NONE if cp is None else const(cp))
                    b = barrier(h.I, "nondifferentiable_backward")
                    result(ck, h, r, nm, lambda q, v: b(v) if bad else v)
                ck.attempt(nm, go)


def rk(scan, wrap=0, name="Tsit5", **f):
    def mk(I):
        R = I.repo
        s = I.mkobj(R.cls(name), dict(scan_kind=scan, **f))
        for _ in range(wrap): s = I.mkobj(R.cls("HalfSolver"), {"solver": s})
        return s
    return mk


def scan(ck, h, nm, want):
    """the innermost Runge-Kutta solver's stage loop; everything else of the solver unchanged"""
    I = h.I
    def walk(a, b, path):
        if isinstance(b, Obj) and b.cls is not None and b.cls.name == "HalfSolver":
            if not ck.require(nm + ".solver.wrapper", isinstance(a, Obj) and a.cls is b.cls, h.w, "the wrapped solver is replaced"): return
            return walk(I.getattr(a, "solver"), I.getattr(b, "solver"), path)
        if not ck.require(nm + ".solver.class", isinstance(a, Obj) and a.cls is b.cls, h.w, "the solver is replaced"): return
        for q, v in I.fields(b).items():
            ck.equal(f"{nm}.solver.{q}", h.w, I.to_term(I.getattr(a, q)), want if q == "scan_kind" else I.to_term(v), I=I,
                     what="the stage loop does not support the differentiation the adjoint promises" if q == "scan_kind" else "the solver is altered")
    walk(h.calls[0]["solver"], h.solver, "")


SOLVERS = [("plain", None, 0), ("Tsit5", None, 0), ("Tsit5", "lax", 0), ("Tsit5", "checkpointed", 0), ("Tsit5", None, 1), ("Tsit5", None, 2), ("Kvaerno3", None, 0), ("SEA", None, 0), ("ShARK", "checkpointed", 0), ("SEA", None, 1)]


def direct(ck):
    for unsafe in (False, True):
        for ms in (None, 7):
            for i, (s, k, wr) in enumerate(SOLVERS):
                if i and (unsafe or ms is None) and i not in (1, 5): continue
                nm = f"Direct.unsafe={unsafe + 0}.max_steps={ms}.{'Half(' * wr}{s}{')' * wr}.{k}"
                def go():
                    sol = None if s == "plain" else rk(tm.NONE if k is None else const(k), wr, s)
                    h = H(ck, "DirectAdjoint", unsafe=unsafe, max_steps=tm.NONE if ms is None else const(ms), solver=sol)
                    r = h.run()
                    if not forward(ck, h, nm): return
                    if sol is None: solver_same(ck, h, nm)
                    else: scan(ck, h, nm, const("bounded") if k is None else const(k))
                    bad = unsafe or ms is None
                    loops(ck, h, nm, "lax" if bad else "bounded")
                    b = barrier(h.I, "nondifferentiable_backward")
                    result(ck, h, r, nm, lambda q, v: b(v) if bad else v)
                ck.attempt(nm, go)


def forwardmode(ck):
    for i, (s, k, wr) in enumerate(SOLVERS):
        for ms in (None, 7):
            nm = f"ForwardMode.max_steps={ms}.{'Half(' * wr}{s}{')' * wr}.{k}"
            def go():
                sol = None if s == "plain" else rk(tm.NONE if k is None else const(k), wr, s)
                h = H(ck, "ForwardMode", max_steps=tm.NONE if ms is None else const(ms), solver=sol)
                r = h.run()
                if not forward(ck, h, nm): return
                if sol is None: solver_same(ck, h, nm)
                else: scan(ck, h, nm, const("lax") if k is None else const(k))
                loops(ck, h, nm, "lax")
                result(ck, h, r, nm, lambda q, v: v)
            ck.attempt(nm, go)


BLOCK = lambda ps: {"solver_state": "nondifferentiable" if ps[0] else "stop_gradient", "controller_state": "nondifferentiable" if ps[1] else "stop_gradient"}


def implicit(ck):
    for ps in itertools.product((False, True), repeat=2):
        nm = f"Implicit.passed={ps[0] + 0}{ps[1] + 0}"
        def go():
            h = H(ck, "ImplicitAdjoint", {"linear_solver": tm.sym("linear_solver"), "tags": tm.sym("tags")}, passed=ps)
            I = h.I
            seen = []
            def ij(I, a, k):
                kk = dict(zip(("fn_primal", "fn_rewrite", "inputs", "tags", "linear_solver"), a)); kk.update(k)
                seen.append(kk)
                return I.call(kk["fn_primal"], [kk["inputs"]], {})
            I.user_models["optimistix.internal.implicit_jvp"] = ij
            r = h.run()
            if not ck.require(nm + ".rule", len(seen) == 1, h.w, "the implicit function theorem is not applied exactly once"): return
            if not forward(ck, h, nm, BLOCK(ps)): return
            solver_same(ck, h, nm)
            loops(ck, h, nm, "lax")
            b = barrier(I, "nondifferentiable_backward")
            result(ck, h, r, nm, lambda q, v: v if q in ("save_state.ys", "stats") else b(v))
            kk = seen[0]
            ck.equal(nm + ".tags", h.w, I.to_term(kk["tags"]), tm.sym("tags"), I=I, what="linear system solved without the given tags")
            ck.equal(nm + ".linear_solver", h.w, I.to_term(kk["linear_solver"]), tm.sym("linear_solver"), I=I, what="linear system not solved with the given linear solver")
            # the tangent is attached to the saved value, and the root is that of the vector field at the final time
            out, res = I.unpack(I.call(kk["fn_primal"], [kk["inputs"]], {}), 2)
            ck.equal(nm + ".primal", h.w, I.to_term(out), I.to_term(I.getattr(h.final["save_state"], "ys")), I=I, what="the implicit derivative is not attached to the saved value")
            fc = []
            if isinstance(h.solver, Obj):
                d = dict(I.fields(h.solver)); d["func"] = Native(lambda I, a, k: (fc.append((list(a), dict(k))), app("func", *[I.to_term(x) for x in a], *[I.to_term(x) for x in k.values()]))[1], "func"); I.hset(h.solver.uid, d)
            ys = PyTuple([O([tm.sym("p0", "real")]), O([tm.sym("p1", "real")])])
            got = I.call(kk["fn_rewrite"], [ys, res, kk["inputs"]], {})
            want = app("func", I.to_term(h.args["terms"]), h.final["tprev"], I.to_term(PyTuple([tm.sym("p0", "real"), tm.sym("p1", "real")])), h.args["args"])
            ck.equal(nm + ".root", h.w, I.to_term(got), want, I=I, what="the root is not that of the vector field at the final time and value")
        ck.attempt(nm, go)


# ------------------------------------------------------------------ continuous adjoint
def backsolve_forward(ck):
    for ps in itertools.product((False, True), repeat=2):
        nm = f"Backsolve.passed={ps[0] + 0}{ps[1] + 0}"
        def go():
            h = H(ck, "BacksolveAdjoint", {"kwargs": tm.sym("bkw")}, passed=ps)
            I = h.I
            h.solver = I.mkobj(ck.repo.cls("AbstractSolver"), {"term_structure": I.repo.cls("AbstractTerm")}); h.args["solver"] = h.solver
            r = h.run()
            if not forward(ck, h, nm, BLOCK(ps)): return
            solver_same(ck, h, nm)
            loops(ck, h, nm, "lax")
            b = barrier(I, "nondifferentiable_backward")
            result(ck, h, r, nm, lambda q, v: v if q in ("save_state.ys", "stats") else b(v))
        ck.attempt(nm, go)
    def fwd():
        h = H(ck, "BacksolveAdjoint", {"kwargs": tm.sym("bkw")})
        I = h.I
        mod, node = find(ck, "diffrax._adjoint", "_loop_backsolve_fwd")
        f = I.mkfunc(node, None, mod, None)
        kw = {q: v for q, v in h.args.items() if q not in ("args", "terms", "passed_solver_state", "passed_controller_state")}
        y = state("y", 2)
        r = I.call(f, [tm.sym("perturbed"), PyTuple([y, h.args["args"], h.args["terms"]])], dict(kw, self=h.o))
        ck.use(I)
        out, res = I.unpack(r, 2)
        w = f"{mod.path}:{node.lineno} {node.name}"
        st, aux = I.unpack(out, 2)
        for q, v in h.final.items(): ck.equal(f"Backsolve.fwd.{q}", w, I.to_term(I.getattr(st, q)), I.to_term(v), I=I, what="the differentiated forward pass returns another solution")
        ts, ys = I.unpack(res, 2)
        ck.equal("Backsolve.fwd.ts", w, I.to_term(ts), I.to_term(I.getattr(h.final["save_state"], "ts")), I=I, what="the backward pass is not given the saved times")
        ck.equal("Backsolve.fwd.ys", w, I.to_term(ys), I.to_term(I.getattr(h.final["save_state"], "ys")), I=I, what="the backward pass is not given the saved values")
        ck.require("Backsolve.fwd.once", len(h.calls) == 1, w, f"the integration is run {len(h.calls)} times")
        ck.equal("Backsolve.fwd.y", w, I.to_term(I.getattr(h.calls[0]["init_state"], "y")), I.to_term(y), I=I, what="the forward pass does not start from the differentiated initial value")
        for q in ("args", "terms"): ck.equal("Backsolve.fwd." + q, w, I.to_term(h.calls[0][q]), I.to_term(h.args[q]), I=I, what="the forward pass does not use the differentiated " + q)
    ck.attempt("Backsolve.fwd", fwd)


def backward(ck):
    for nts in (1, 2, 3, 4, 5):
        for t0saved in (False, True):
            for own in ((), ("solver", "dt0", "max_steps", "throw", "stepsize_controller", "adjoint")):
                for dt in ("given", None):
                    if (own or dt is None) and nts != 3: continue
                    for lastnone in (False, True):
                        if lastnone and (own or dt is None or nts > 2): continue
                        nm = f"Backsolve.backward.saved={nts}.t0={t0saved + 0}" + (".own" if own else "") + (".no-dt0" if dt is None else "") + (".no-grad-leaf" if lastnone else "")
                        ck.attempt(nm, lambda: one_backward(ck, nm, nts, t0saved, own, dt, lastnone))


def one_backward(ck, nm, nts, t0saved, own, dt, lastnone):
    I = ck.interp(); c07.models(I)
    I.concrete_arrays = True
    R = ck.repo
    mod, node = find(ck, "diffrax._adjoint", "_loop_backsolve_bwd")
    w = f"{mod.path}:{node.lineno} {node.name}"
    calls = []
    S = lambda n: tm.sym(n, "real")
    ts = [S(f"s{i}") for i in range(nts)]
    ys = [[S(f"y{l}_{i}") for i in range(nts)] for l in range(2)]
    gs = [[S(f"g{l}_{i}") for i in range(nts)] for l in range(2)]
    args = [S("arg0"), tm.sym("arg1", "bool")]
    y = [S("yi0"), S("yi1")]
    isin = lambda x: isinstance(x, T) and x in (args[0], tm.sym("theta", "real"), *y) 
    I.user_models["equinox.is_inexact_array"] = lambda I, a, k: const(not (isinstance(a[0], T) and (a[0] is args[1] or a[0].is_const or a[0].op == "sym" and a[0].data[1] != "real")))
    def flt(I, a, k):
        inexact = I.user_models["equinox.is_inexact_array"]
        return I.mapv(lambda x: x if x is tm.NONE or tm.truth(I.truthy(I.call(a[1], [x], {}))) is True else tm.NONE, a[0])
    I.user_models["equinox.filter"] = flt
    theta = S("theta")
    term = I.mkobj(R.cls("ODETerm"), {"vector_field": theta})
    def parts(v):
        a, b, c, d = I.unpack(v, 4)
        return a, b, c, d
    def dsolve(I, a, k):
        if a: raise Unsupported("positional arguments to the backward solve")
        k = dict(k); calls.append(k)
        st = [I.to_term(k.get(q, tm.NONE)) for q in ("t0", "t1", "y0", "solver_state", "controller_state", "made_jump")]
        f = lambda n: app(n, *st)
        _, ay, aa, at_ = parts(k["y0"])
        def like(v, p):
            c = [0]
            def g(x):
                if x is tm.NONE: return x
                c[0] += 1
                return O([f(f"{p}{c[0]}")])
            return I.mapv(g, v)
        out = PyTuple([like(PyTuple(list(y)), "y"), like(ay, "ay"), like(aa, "aa"), like(at_, "at")])
        return I.mkobj(R.cls("Solution"), {"ys": out, "solver_state": f("solver_state"), "controller_state": f("controller_state")})
    I.opaque["diffrax._integrate.diffeqsolve"] = dsolve
    ownkw = {q: S("own_" + q) for q in own}
    adj = I.mkobj(R.cls("BacksolveAdjoint"), {"kwargs": I.mkdict(ownkw)})
    garr = lambda l: tm.NONE if lastnone and l == 1 else O(gs[l])
    gstate = I.mkobj(R.cls("State"), {"save_state": I.mkobj(R.cls("SaveState"), {"ys": PyTuple([garr(0), garr(1)])})})
    if lastnone: gs[1] = [tm.ZERO] * nts
    dt0 = S("dt0") if dt else tm.NONE
    save = mk_saveat(I, t0=t0saved, ts=tm.sym("given_ts", "real"))
    kw = dict(self=adj, solver=tm.sym("solver"), stepsize_controller=tm.sym("controller"), event=tm.NONE, saveat=save, t0=S("t0"), t1=S("t1"), dt0=dt0, max_steps=tm.sym("max_steps", "nat"), throw=tm.sym("throw", "bool"),
              init_state=tm.sym("init_state"), progress_meter=tm.sym("meter"))
    f = I.mkfunc(node, None, mod, None)
    r = I.call(f, [PyTuple([O(ts), PyTuple([O(ys[0]), O(ys[1])])]), PyTuple([gstate, tm.sym("gaux")]), tm.sym("perturbed"), PyTuple([PyTuple(list(y)), PyTuple(list(args)), term])], kw)
    ck.use(I)
    # specification: integrate back through each saved time in turn
    spans = []          # (from index, time to)
    for i in reversed(range(nts)):
        if i == 0:
            if not t0saved: spans.append((0, S("t0")))
        else: spans.append((i, ts[i - 1]))
    if not ck.require(nm + ".solves", len(calls) == len(spans), w, f"{len(calls)} backward solves for {nts} saved times, expected {len(spans)}"): return
    ay, aa, ath = [tm.ZERO, tm.ZERO], [tm.ZERO, tm.NONE], tm.ZERO
    ss, cs = tm.NONE, tm.NONE
    for n, ((i, to), k) in enumerate(zip(spans, calls)):
        tag = f"{nm}[{n}]"
        E = lambda q, a, b, what: ck.equal(f"{tag}.{q}", w, I.to_term(a), I.to_term(b), I=I, what=what)
        E("from", k["t0"], ts[i], "a backward solve does not start at the saved time")
        E("to", k["t1"], to, "a backward solve does not end at the previous saved time")
        a0 = [p + g[i] for p, g in zip(ay, gs)]
        py, pay, paa, pat = parts(k["y0"])
        for l in range(2):
            E(f"y{l}", I.unpack(py, 2)[l], ys[l][i], "a backward solve does not start from the saved value")
            E(f"cotangent{l}", I.unpack(pay, 2)[l], a0[l], "the output's cotangent is not added exactly once at its saved time")
        E("args0", I.unpack(paa, 2)[0], aa[0], "the arguments' cotangent is not carried on")
        ck.require(f"{tag}.args1", I.to_term(I.unpack(paa, 2)[1]) is tm.NONE, w, "a non-differentiable argument is given a cotangent")
        lv = [x for x in lst_leaves(I, pat)]
        if ck.require(f"{tag}.terms.leaves", len(lv) == 1, w, f"{len(lv)} parameter cotangents instead of one"): E("terms", lv[0], ath, "the terms' cotangent is not carried on")
        E("solver_state", k.get("solver_state", tm.NONE), ss, "the solver state is not handed on between backward solves")
        E("controller_state", k.get("controller_state", tm.NONE), cs, "the controller state is not handed on between backward solves")
        E("made_jump", k.get("made_jump", tm.NONE), const(n > 0), "the jump of the cotangent at a saved time is not announced to the solver")
        sv = k["saveat"]
        E("saveat.t1", I.getattr(I.getattr(sv, "subs"), "t1"), tm.TRUE, "the end of a backward solve is not saved")
        for q in ("t0", "steps"): E("saveat." + q, I.getattr(I.getattr(sv, "subs"), q), tm.FALSE, "a backward solve saves more than its end")
        for q in ("solver_state", "controller_state"): E("saveat." + q, I.getattr(sv, q), tm.TRUE, f"the {q} of a backward solve is not kept")
        E("args", k["args"], PyTuple(list(args)), "a backward solve runs with other arguments")
        te = k["terms"]
        if ck.require(f"{tag}.adjoint-term", isinstance(te, Obj) and te.cls is R.cls("AdjointTerm"), w, "a backward solve does not integrate the adjoint of the term"):
            E("adjoint-term.of", I.getattr(te, "term"), term, "a backward solve integrates the adjoint of another term")
        std = dict(solver=tm.sym("solver"), stepsize_controller=tm.sym("controller"), adjoint=adj, dt0=tm.NONE if dt is None else -dt0, max_steps=kw["max_steps"], throw=kw["throw"])
        for q, v in std.items():
            if ck.require(f"{tag}.passes.{q}", q in k, w, f"a backward solve is not given {q}"): E(q, k[q], ownkw.get(q, v), f"a backward solve does not use the {'overriding' if q in ownkw else 'forward'} {q}")
        for q in set(k) - set(std) - {"t0", "t1", "y0", "args", "terms", "solver_state", "controller_state", "made_jump", "saveat"}:
            ck.violation(f"{tag}.extra.{q}", w, f"a backward solve is given {q}")
        st = [to if q == "t1" else ts[i] if q == "t0" else I.to_term(k["y0"]) if q == "y0" else I.to_term(k.get(q, tm.NONE)) for q in ("t0", "t1", "y0", "solver_state", "controller_state", "made_jump")]
        f_ = lambda n: app(n, *st)
        ay, aa, ath, ss, cs = [f_("ay1"), f_("ay2")], [f_("aa1"), tm.NONE], f_("at1"), f_("solver_state"), f_("controller_state")
    if t0saved: ay = [p + g[0] for p, g in zip(ay, gs)]
    gy, ga, gt = I.unpack(r, 3)
    for l in range(2): ck.equal(f"{nm}.grad.y{l}", w, I.to_term(I.unpack(gy, 2)[l]), ay[l], I=I, what="gradient of the initial value is not the final cotangent (plus that of a saved initial value)")
    ck.equal(f"{nm}.grad.args", w, I.to_term(I.unpack(ga, 2)[0]), aa[0], I=I, what="gradient of the arguments is not the accumulated cotangent")
    lv = lst_leaves(I, gt)
    if ck.require(f"{nm}.grad.terms.leaves", len(lv) == 1, w, "gradient of the terms has another structure"): ck.equal(f"{nm}.grad.terms", w, lv[0], ath, I=I, what="gradient of the terms is not the accumulated cotangent")


def lst_leaves(I, v):
    out = []
    def f(x):
        if isinstance(x, np.ndarray):
            for y in x.reshape(-1): f(y)
        elif x is not None and x is not tm.NONE: out.append(I.to_term(x))
        return x
    I.mapv(f, v)
    return out


# ------------------------------------------------------------------ refusals
def refuse(ck, nm, mk, expected, what):
    def go():
        h = mk()
        c, gs, err = c18.refusal(h.I, h.run, len(h.I.guards))
        if err is not None and tm.truth(c) is not True: raise Unsupported(f"{type(err).__name__}: {err}")
        h.ck.use(h.I)
        ck.equal(nm, h.w, c, const(expected), I=h.I, what=what)
    ck.attempt(nm, go)


def refusals(ck):
    R = ck.repo
    for unsafe in (False, True):
        refuse(ck, f"refuse.RecursiveCheckpoint.unsafe={unsafe + 0}", lambda: H(ck, "RecursiveCheckpointAdjoint", {"checkpoints": tm.NONE}, unsafe=unsafe), unsafe, "a path that cannot be replayed is accepted by the checkpointed adjoint, or another one refused")
        refuse(ck, f"refuse.ForwardMode.unsafe={unsafe + 0}", lambda: H(ck, "ForwardMode", unsafe=unsafe), False, "forward mode refuses a solve")
        refuse(ck, f"refuse.Direct.unsafe={unsafe + 0}", lambda: H(ck, "DirectAdjoint", unsafe=unsafe), False, "the direct adjoint refuses a solve")
    fn = Native(lambda I, a, k: tm.sym("user_fn_value"), "user_fn")
    saves = []
    for t0, t1, ts, steps, f, dense in itertools.product((False, True), (False, True), (None, "q"), (False, True, 2), (None, "fn"), (False, True)):
        if not (t0 or t1 or ts or steps): continue
        tsv = None if ts is None else tm.sym("given_ts", "real")
        saves.append((f"t0={t0 + 0}.t1={t1 + 0}.ts={ts}.steps={steps + 0}.fn={f}.dense={dense + 0}", dict(t0=t0, t1=t1, ts=tsv, steps=steps, fn=fn if f else None, dense=dense)))
    bs = lambda I: I.mkobj(R.cls("AbstractSolver"), {"term_structure": R.cls("AbstractTerm")})
    for nm, q in saves:
        bad = bool(q["dense"] or q["steps"] or q["fn"] is not None)
        refuse(ck, f"refuse.Backsolve.{nm}", lambda: H(ck, "BacksolveAdjoint", {"kwargs": tm.sym("bkw")}, saveat=lambda I: mk_saveat(I, **q), solver=bs), bad,
               "the continuous adjoint accepts an output it does not differentiate, or refuses another")
        only = q["t1"] and not (q["t0"] or q["ts"] is not None or q["steps"] or q["fn"] is not None or q["dense"])
        refuse(ck, f"refuse.Implicit.{nm}", lambda: H(ck, "ImplicitAdjoint", {"linear_solver": tm.sym("ls"), "tags": tm.sym("tags")}, saveat=lambda I: mk_saveat(I, **q), over=implicit_model), not only,
               "the implicit adjoint accepts an output it does not differentiate, or refuses its only one")
    two = lambda I: mk_saveat(I, t1=True, subs=lambda sub: PyTuple([sub(), sub()]))
    one = lambda I: mk_saveat(I, t1=True, subs=lambda sub: PyTuple([sub()]))
    none = lambda I: mk_saveat(I, subs=lambda sub: tm.NONE, dense=True)
    for tag, s in (("two", two), ("tuple-of-one", one), ("none", none)):
        refuse(ck, f"refuse.Backsolve.subs={tag}", lambda: H(ck, "BacksolveAdjoint", {"kwargs": tm.sym("bkw")}, saveat=s, solver=bs), True, "the continuous adjoint accepts several outputs")
        refuse(ck, f"refuse.Implicit.subs={tag}", lambda: H(ck, "ImplicitAdjoint", {"linear_solver": tm.sym("ls"), "tags": tm.sym("tags")}, saveat=s, over=implicit_model), True, "the implicit adjoint accepts several outputs")
    for unsafe, sde, scls, ev, structure in itertools.product((False, True), (False, True), ("AbstractSolver", "AbstractItoSolver", "AbstractStratonovichSolver", "Half(AbstractItoSolver)", "Half(AbstractStratonovichSolver)"), (False, True), ("single", "tuple", "multi")):
        def mk(I):
            c = scls.split("(")[-1].rstrip(")")
            st = R.cls("AbstractTerm") if structure == "single" else PyTuple([R.cls("AbstractTerm"), R.cls("AbstractTerm")])
            s = I.mkobj(R.cls(c), {"term_structure": st})
            if "(" in scls: s = I.mkobj(R.cls("HalfSolver"), {"solver": s})
            return s
        if structure == "multi": continue
        bad = unsafe or ev or structure != "single" or (sde and "Ito" in scls)
        refuse(ck, f"refuse.Backsolve.unsafe={unsafe + 0}.sde={sde + 0}.{scls}.event={ev + 0}.{structure}",
               lambda: H(ck, "BacksolveAdjoint", {"kwargs": tm.sym("bkw")}, unsafe=unsafe, sde=sde, solver=mk, event=(lambda I: I.mkobj(R.cls("Event"), {"cond_fn": tm.sym("cond"), "root_finder": tm.NONE, "direction": tm.NONE})) if ev else None),
               bad, "the continuous adjoint accepts a problem it does not differentiate, or refuses another")
        if scls == "AbstractSolver" and not bad:
            def warned(sde=sde):
                h = H(ck, "BacksolveAdjoint", {"kwargs": tm.sym("bkw")}, sde=sde, solver=mk); n = len(h.I.warns); h.run()
                ck.require(f"warn.Backsolve.sde={sde + 0}", (len(h.I.warns) > n) == sde, h.w, "a solver of unknown stochastic convergence is used without a warning, or an ordinary one with")
            ck.attempt(f"warn.Backsolve.sde={sde + 0}", warned)
    keys = ("dt0", "solver", "stepsize_controller", "adjoint", "max_steps", "throw")
    for k in keys + ("t0", "args", "saveat", "terms", "y0", "event", "progress_meter", "solver_state"):
        def go(k=k):
            I = ck.interp(); models(I)
            cls = R.cls("BacksolveAdjoint")
            c, gs, err = c18.refusal(I, lambda: I.call(cls, [], {k: tm.sym("v"), "solver": tm.sym("s")}), len(I.guards))
            if err is not None and tm.truth(c) is not True: raise Unsupported(str(err))
            ck.use(I)
            ck.equal(f"refuse.Backsolve.kwarg.{k}", at(cls, "__init__"), c, const(k not in keys), I=I, what="an argument that cannot be overridden in the backward solve is accepted, or another refused")
        ck.attempt(f"refuse.Backsolve.kwarg.{k}", go)


def implicit_model(I):
    I.user_models["optimistix.internal.implicit_jvp"] = lambda I, a, k: I.call(a[0], [a[2]], {})
    return {}


def heuristics(ck):
    """detection of stochastic / unreplayable / controlled terms anywhere inside the terms"""
    R = ck.repo
    for fn, hits in (("is_sde", ("tree", "unsafe")), ("is_unsafe_sde", ("unsafe",)), ("is_cde", ("path",))):
        for kind in ("tree", "unsafe", "path", "ode"):
            for shape in ("control", "multi", "tuple", "nested", "wrapped"):
                nm = f"{fn}.{kind}.{shape}"
                def go():
                    I = ck.interp(); models(I)
                    base = I.user_models.get("builtins.isinstance")
                    mod = R.modules["diffrax._heuristics"]
                    ode = I.mkobj(R.cls("ODETerm"), {"vector_field": O([tm.sym("theta", "real")])})
                    pth = {"tree": lambda: I.mkobj(R.cls("VirtualBrownianTree"), {"t0": tm.sym("a", "real"), "t1": tm.sym("b", "real"), "tol": tm.sym("tol", "real"), "key": O([tm.sym("key", "real")])}),
                           "unsafe": lambda: I.mkobj(R.cls("UnsafeBrownianPath"), {"key": O([tm.sym("key", "real")])}),
                           "path": lambda: I.mkobj(R.cls("LinearInterpolation"), {"ts": O([tm.sym("k0", "real")]), "ys": O([tm.sym("k1", "real")])})}
                    con = I.mkobj(R.cls("ControlTerm"), {"vector_field": O([tm.sym("g", "real")]), "control": pth[kind]()}) if kind != "ode" else ode
                    multi = lambda *x: I.mkobj(R.cls("MultiTerm"), {"terms": PyTuple(list(x))})
                    t = {"control": con, "multi": multi(ode, con), "tuple": PyTuple([ode, con]), "nested": multi(ode, multi(con, ode)), "wrapped": I.mkobj(R.cls("WrapTerm"), {"term": multi(con, ode), "direction": tm.sym("dir", "real")})}[shape]
                    r = I.call(I.global_value(mod, fn), [t], {})
                    ck.use(I)
                    ck.equal(nm, f"{mod.path} {fn}", I.truthy(r), const(kind in hits), I=I, what="the kind of noise or control inside the terms is not recognised, so a refusal is missed or made wrongly")
                ck.attempt(nm, go)


def flags(ck):
    """the solve tells the adjoint which states the user passed in"""
    for a, b in itertools.product((False, True), repeat=2):
        def go():
            S = Solve(ck)
            kw = {}
            if a: kw["solver_state"] = PyTuple([tm.sym("given0", "real"), tm.sym("given1", "real")])
            if b: kw["controller_state"] = tm.sym("given_cs", "real")
            S.call(subs=[lambda I: lk.Sub(I, "A", t1=True)], **kw)
            I = S.I
            w = f"{S.mod.path}:{S.node.lineno} {S.node.name}"
            k = S.loops[0]
            ck.equal(f"solve.passed-solver-state={a + 0}{b + 0}", w, I.to_term(k["passed_solver_state"]), const(a), I=I, what="a passed-in solver state is not marked as such, so differentiating it is silently zero")
            ck.equal(f"solve.passed-controller-state={a + 0}{b + 0}", w, I.to_term(k["passed_controller_state"]), const(b), I=I, what="a passed-in controller state is not marked as such, so differentiating it is silently zero")
        ck.attempt(f"solve.passed={a + 0}{b + 0}", go)


def run(ck):
    checkpointed(ck)
    direct(ck)
    forwardmode(ck)
    implicit(ck)
    backsolve_forward(ck)
    backward(ck)
    refusals(ck)
    heuristics(ck)
    flags(ck)
