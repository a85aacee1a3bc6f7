"""C05: update rules of the solvers that are not written as tableaus (value-graph translation validation)."""
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, SymTerm, multiterm, lst
from sa.interp import Unsupported
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of step/init/func and value numbering against the published update rule"
EXPLANATION = ("step, init and func of every non-tableau solver are abstractly interpreted over a symbolic step (symbolic times, two-leaf state, "
               "arbitrary vector field and control with a bilinear product); the resulting terms get the same value number as the specification terms.")
ASSUMPTIONS = ["real-number arithmetic; leaves abstracted as scalars (array broadcasting not modelled)", "term products are bilinear (C19)"]
FLOOR = 30
h = const(0.5)
add = lambda *xs: [sum(c[1:], c[0]) for c in zip(*xs)]
sub = lambda a, b: [x - y for x, y in zip(a, b)]
mul = lambda a, b: [x * y for x, y in zip(a, b)]
sc = lambda k, a: [k * x for x in a]
t0, t1 = tm.sym("t0"), tm.sym("t1")
args = tm.sym("args")


class Setup:
    def __init__(self, ck, name, multi=False, fields=None):
        self.ck, self.name = ck, name
        I = self.I = ck.interp()
        self.cls = ck.repo.cls(name)
        self.y = state("y"); self.yl = list(self.y.items)
        self.jump = tm.sym("made_jump", "bool")
        if multi:
            self.f, self.g = SymTerm(I, "drift"), SymTerm(I, "diffusion")
            self.terms = multiterm(I, self.f, self.g)
        else:
            self.f = SymTerm(I, "term"); self.terms = self.f.obj
        self.solver = I.mkobj(self.cls, fields or {})

    def step(self, solver_state=tm.NONE, y=None):
        I = self.I
        r = I.call(I.method(self.cls, "step", self.solver), [self.terms, t0, t1, y or self.y, args, solver_state, self.jump], {})
        out = I.unpack(r, 5)
        self.ck.use(I)
        return out

    def eq(self, what, got, spec, meth="step", **kw):
        g = lst(self.I, got, len(spec))
        for i, (a, b) in enumerate(zip(g, spec)):
            self.ck.equal(f"{self.name}.{what}[{i}]", at(self.cls, meth), a, b, what=f"{what} is not the value the method prescribes", I=self.I, **kw)

    def common(self, out, y1, err=None, state=None, result="RESULTS.successful", y0=None):
        ck, I = self.ck, self.I
        self.eq("y1", out[0], y1)
        if err is None:
            ck.equal(f"{self.name}.no-error-estimate", at(self.cls, "step"), I.to_term(out[1]), tm.NONE,
                     what="reports an error estimate although the method has none")
        di = out[2]
        if isinstance(di, PyDict):
            d = I.hget(di.uid)
            self.eq("dense.y0", d["y0"], y0 or self.yl)
            self.eq("dense.y1", d["y1"], y1)
        if state is not None: self.eq("state", out[3], state)
        if isinstance(result, str): result = tm.enum(result)
        ck.equal(f"{self.name}.result", at(self.cls, "step"), I.to_term(out[4]), result, what="reported result is wrong")

    def func(self, spec, y=None):
        r = self.I.call(self.I.method(self.cls, "func", self.solver), [self.terms, t0, y or self.y, args], {})
        self.eq("func", r, spec, "func")

    def init(self):
        return self.I.call(self.I.method(self.cls, "init", self.solver), [self.terms, t0, t1, self.y, args], {})

    def interp_cls(self, want):
        r = self.I.class_attr(self.cls, "interpolation_cls")
        self.ck.require(f"{self.name}.interpolation", r is not None and getattr(r[2], "name", None) == want, at(self.cls), f"dense output class is not {want}")


def euler(ck):
    s = Setup(ck, "Euler")
    s.common(s.step(), add(s.yl, mul(s.f.f(t0, s.yl, args), s.f.c(t0, t1))))
    s.func(s.f.f(t0, s.yl, args))


def euler_heun(ck):
    s = Setup(ck, "EulerHeun", multi=True)
    dt, dw = s.f.c(t0, t1), s.g.c(t0, t1)
    f0, g0 = mul(s.f.f(t0, s.yl, args), dt), mul(s.g.f(t0, s.yl, args), dw)
    gp = mul(s.g.f(t0, add(s.yl, g0), args), dw)
    s.common(s.step(), add(s.yl, f0, sc(h, add(g0, gp))))
    s.func(s.f.f(t0, s.yl, args) + s.g.f(t0, s.yl, args))


def root_find(ck, name, where, residual, k, result, finder, max_steps):
    """transfer function of optimistix.root_find: the unknown is `k`; the residual must vanish iff the specified one does"""
    def f(I, a, kw):
        names = ("fn", "solver", "y0", "args", "options", "has_aux", "max_steps", "adjoint", "throw", "tags")
        d = dict(zip(names, a)); d.update(kw)
        has_aux = tm.truth(I.to_term(d["has_aux"])) if "has_aux" in d else False
        kk = PyTuple(k) if len(k) > 1 else k[0]
        r = I.call(d["fn"], [kk, d.get("args", tm.NONE)], {})
        if has_aux: r = I.unpack(r, 2)[0]
        rl = lst(I, r, len(k))
        spec = residual(I, d)
        for i, (x, y) in enumerate(zip(rl, spec)):
            if tm.same(x, y, n=60) or tm.same(x, -y, n=60): ck.held(f"{name}.implicit-equation[{i}]")
            else: ck.equal(f"{name}.implicit-equation[{i}]", where, x, y, what="the implicit equation solved is not the one that defines the method", I=I)
        ck.equal(f"{name}.no-throw", where, I.to_term(d.get("throw", tm.TRUE)), tm.FALSE, what="a failed implicit solve raises instead of failing the step")
        ck.equal(f"{name}.root-finder", where, I.to_term(d["solver"]), finder, what="does not use the configured root finder")
        ck.equal(f"{name}.max-steps", where, I.to_term(d.get("max_steps", const(256))), max_steps, what="does not use the configured step limit of the root finder")
        return I.mkobj(None, {"value": kk, "result": result, "stats": tm.sym("stats"), "state": tm.sym("rfstate"), "aux": tm.NONE})
    return f


def implicit_euler(ck):
    rf, ms = tm.sym("root_finder"), tm.sym("root_find_max_steps", "nat")
    s = Setup(ck, "ImplicitEuler", fields={"root_finder": rf, "root_find_max_steps": ms})
    k = [tm.sym("k0"), tm.sym("k1")]
    c = s.f.c(t0, t1)
    res = tm.sym("nonlinear_result", FAILS)
    s.I.user_models["optimistix.root_find"] = root_find(ck, "ImplicitEuler", at(s.cls, "step"),
        lambda I, d: sub(mul(s.f.f(t1, add(s.yl, k), args), c), k), k, res, rf, ms)
    out = s.step()
    s.common(out, add(s.yl, k), err=True, result=app("promote", res))
    s.eq("error-estimate", out[1], [reject_failed(app("promote", res), e) for e in sc(h, sub(k, mul(s.f.f(t0, s.yl, args), c)))])
    s.func(s.f.f(t0, s.yl, args))


def leapfrog(ck):
    s = Setup(ck, "LeapfrogMidpoint")
    tp, yp = tm.sym("tm1"), state("ym")
    out = s.step(PyTuple([tp, yp]))
    s.common(out, add(list(yp.items), mul(s.f.f(t0, s.yl, args), s.f.c(tp, t1))), state=[t0] + s.yl)
    s.eq("init", s.init(), [t0] + s.yl, "init")
    s.func(s.f.f(t0, s.yl, args))


def reversible_heun(ck):
    s = Setup(ck, "ReversibleHeun")
    yh, v = state("yhat"), state("vf")
    vl = [ite(s.jump, a, b) for a, b in zip(s.f.f(t0, s.yl, args), v.items)]
    c = s.f.c(t0, t1)
    yh1 = add(sc(const(2), s.yl), sc(const(-1), list(yh.items)), mul(vl, c))
    v1 = s.f.f(t1, yh1, args)
    out = s.step(PyTuple([yh, v]))
    s.common(out, add(s.yl, sc(h, mul(add(vl, v1), c))), err=True, state=yh1 + v1)
    s.eq("error-estimate", out[1], sc(h, mul(sub(v1, vl), c)))
    s.eq("init", s.init(), s.yl + s.f.f(t0, s.yl, args), "init")
    s.func(s.f.f(t0, s.yl, args))


def semi_implicit(ck):
    s = Setup(ck, "SemiImplicitEuler")
    a, b = SymTerm(s.I, "term1"), SymTerm(s.I, "term2")
    s.terms = PyTuple([a.obj, b.obj])
    p, q = state("p"), state("q")
    y = PyTuple([p, q]); pl, ql = list(p.items), list(q.items)
    p1 = add(pl, mul(a.f(t0, ql, args), a.c(t0, t1)))
    q1 = add(ql, mul(b.f(t0, p1, args), b.c(t0, t1)))
    s.common(s.step(y=y), p1 + q1, y0=pl + ql)
    s.func(a.f(t0, ql, args) + b.f(t0, pl, args), y=y)


def strat_milstein(ck):
    s = Setup(ck, "StratonovichMilstein", multi=True)
    from sa.deriv import deriv
    dt, dw = s.f.c(t0, t1), s.g.c(t0, t1)
    f0, g0 = mul(s.f.f(t0, s.yl, args), dt), mul(s.g.f(t0, s.yl, args), dw)
    v = []
    for i in range(2):
        r = tm.ZERO
        for j in range(2): r = r + deriv(g0[i], s.yl[j]) * g0[j]
        v.append(r)
    s.common(s.step(), add(s.yl, f0, g0, sc(h, v)))
    s.func(s.f.f(t0, s.yl, args) + s.g.f(t0, s.yl, args))


def ito_milstein(ck):
    """State with two scalar leaves, two-leaf noise, full diffusion matrix."""
    from sa.deriv import deriv
    I = ck.interp()
    I.scalar_leaves = True
    cls = ck.repo.cls("ItoMilstein")
    w = at(cls, "step")
    f = SymTerm(I, "drift")
    Nn = lambda fn, nm: Native(fn, nm)
    G = lambda t, y, a: [[app(f"g{i}{j}", t, app("tuple", *y), a) for j in range(2)] for i in range(2)]
    def vf(I, a, k):
        a = list(a) + [k[q] for q in ("t", "y", "args")[len(a):]]
        m = G(I.to_term(a[0]), lst(I, a[1], 2), I.to_term(a[2]))
        return PyTuple([PyTuple(r) for r in m])
    def prod(I, a, k):
        a = list(a) + [k[q] for q in ("vf", "control")[len(a):]]
        m = [lst(I, r, 2) for r in I.iterate(a[0])]; c = lst(I, a[1], 2)
        return PyTuple([m[i][0] * c[0] + m[i][1] * c[1] for i in range(2)])
    dw = [tm.sym("dw0"), tm.sym("dw1")]
    def contr(I, a, k):
        a = list(a) + [k[q] for q in ("t0", "t1")[len(a):]]
        ok = I.to_term(a[0]) is t0 and I.to_term(a[1]) is t1
        return PyTuple(dw) if ok else PyTuple([app("contr0", *[I.to_term(x) for x in a]), app("contr1", *[I.to_term(x) for x in a])])
    g = I.mkobj(ck.repo.cls("AbstractTerm"), {"vf": Nn(vf, "vf"), "prod": Nn(prod, "prod"), "contr": Nn(contr, "contr"),
        "vf_prod": Nn(lambda I, a, k: prod(I, [vf(I, a[:3], {}), a[3]], {}), "vf_prod")})
    dt = tm.sym("dt")
    class D: pass
    fo = dict(I.fields(f.obj))
    fo["contr"] = Nn(lambda I, a, k: ite(app("is-interval", I.to_term(a[0]), I.to_term(a[1])), dt, dt) if I.to_term(a[0]) is t0 and I.to_term(a[1]) is t1 else tm.sym("wrong-dt"), "contr")
    def fprod(I, a, k):
        a = list(a) + [k[q] for q in ("vf", "control")[len(a):]]
        return PyTuple([x * I.to_term(a[1]) for x in lst(I, a[0], 2)])
    fo["prod"] = Nn(fprod, "prod")
    fo["vf_prod"] = Nn(lambda I, a, k: fprod(I, [f.F(I.to_term(a[0]), a[1], a[2]), a[3]], {}), "vf_prod")
    I.hset(f.obj.uid, fo)
    terms = I.mkobj(ck.repo.cls("MultiTerm"), {"terms": PyTuple([f.obj, g])})
    y = state("y"); yl = list(y.items)
    g0 = G(t0, yl, args)
    spec = []
    for i in range(2):
        r = yl[i] + f.f(t0, yl, args)[i] * dt + g0[i][0] * dw[0] + g0[i][1] * dw[1]
        for j1 in range(2):
            for j2 in range(2):
                L = tm.ZERO
                for k in range(2): L = L + g0[k][j1] * deriv(g0[i][j2], yl[k])
                ww = dw[j1] * dw[j2]
                if j1 == j2: ww = ww - dt
                r = r + h * L * ww
        spec.append(r)
    o = I.mkobj(cls, {})
    out = I.unpack(I.call(I.method(cls, "step", o), [terms, t0, t1, y, args, tm.NONE, tm.sym("made_jump", "bool")], {}), 5)
    ck.use(I)
    for i, x in enumerate(lst(I, out[0], 2)):
        ck.equal(f"ItoMilstein.y1[{i}]", w, x, spec[i], what="is not the Itô-Milstein update (drift + diffusion + half the derivative term with Itô correction)", I=I)
    ck.equal("ItoMilstein.no-error-estimate", w, out[1], tm.NONE, I=I)
    ck.equal("ItoMilstein.result", w, out[4], tm.enum("RESULTS.successful"), I=I)
    d = I.hget(out[2].uid)
    for n, sp in (("y0", yl), ("y1", spec)):
        for i, x in enumerate(lst(I, d[n], 2)): ck.equal(f"ItoMilstein.dense.{n}[{i}]", w, x, sp[i], I=I)
    r = I.call(I.method(cls, "func", o), [terms, t0, y, args], {})
    for i, (x, sp) in enumerate(zip(lst(I, r, 6), f.f(t0, yl, args) + g0[0] + g0[1])):
        ck.equal(f"ItoMilstein.func[{i}]", at(cls, "func"), x, sp, I=I)


OKS = ("RESULTS.successful", "RESULTS.event_occurred")
FAILS = ("enum", ("RESULTS.successful", "RESULTS.successful", "RESULTS.nonlinear_divergence", "RESULTS.nonlinear_max_steps_reached", "RESULTS.dt_min_reached"))
def okay(r): return tm.lor_all([tm.eq(r, tm.enum(x)) for x in OKS])
def reject_failed(r, e): return ite(okay(r), e, tm.INF)


def half(ck):
    I = ck.interp()
    I.scalar_leaves = True
    cls = ck.repo.cls("HalfSolver"); w = at(cls, "step")
    terms, ss, jump = tm.sym("terms"), tm.sym("solver_state"), tm.sym("made_jump", "bool")
    y0 = state("y0")
    calls = {}
    names = ("terms", "t0", "t1", "y0", "args", "solver_state", "made_jump")
    def out_of(nm): return dict(y=state(f"{nm}_y"), e=state(f"{nm}_e"), d=tm.sym(f"{nm}_dense"), s=tm.sym(f"{nm}_state"), r=tm.sym(f"{nm}_result", FAILS))
    O = {nm: out_of(nm) for nm in ("first", "second", "full")}
    def step(I, a, k):
        d = {**dict(zip(names, a)), **k}
        x, y = tm.same(I.to_term(d["t0"]), t0), tm.same(I.to_term(d["t1"]), t1)
        nm = {(True, False): "first", (False, True): "second", (True, True): "full"}.get((x, y))
        if nm is None or nm in calls: raise Unsupported("the inner steps are not two halves and a whole")
        calls[nm] = d
        o = O[nm]
        return PyTuple([o["y"], o["e"], o["d"], o["s"], o["r"]])
    inner = I.mkobj(ck.repo.cls("AbstractSolver"), {"step": Native(step, "step"), "func": Native(lambda I, a, k: app("inner.func", *[I.to_term(x) for x in list(a) + list(k.values())]), "func"),
                                                    "init": Native(lambda I, a, k: app("inner.init", *[I.to_term(x) for x in list(a) + list(k.values())]), "init")})
    o = I.mkobj(cls, {"solver": inner})
    out = I.unpack(I.call(I.method(cls, "step", o), [terms, t0, t1, y0, args, ss, jump], {}), 5)
    ck.use(I)
    th = t0 + h * (t1 - t0)
    A, B, C = O["first"], O["second"], O["full"]
    spec = {"first": (t0, th, y0, ss, jump), "second": (th, t1, A["y"], A["s"], tm.FALSE), "full": (t0, t1, y0, ss, jump)}
    if set(calls) != set(spec): raise Unsupported("the inner steps are not two halves and a whole")
    for nm, (a, b, y, s_, j) in spec.items():
        d = calls[nm]
        E = lambda q, x, v, what: ck.equal(f"HalfSolver.{nm}.{q}", w, I.to_term(x), v, I=I, what=what)
        E("t0", d["t0"], a, "an inner step is not over its half of the interval"); E("t1", d["t1"], b, "an inner step is not over its half of the interval")
        for i, (x, v) in enumerate(zip(lst(I, d["y0"], 2), y.items)): E(f"y{i}", x, v, "an inner step starts from the wrong state")
        E("state", d["solver_state"], s_, "an inner step is given the wrong solver state"); E("jump", d["made_jump"], j, "an inner step is told of the wrong jump")
        E("terms", d["terms"], terms, "an inner step is given other terms"); E("args", d["args"], args, "an inner step is given other args")
    res = [x["r"] for x in (A, B, C)]
    ok = tm.land_all([okay(r) for r in res])
    for i, (x, e, y, z) in enumerate(zip(lst(I, out[0], 2), lst(I, out[1], 2), B["y"].items, C["y"].items)):
        ck.equal(f"HalfSolver.y1[{i}]", w, x, y, what="solution is not that of the two half steps", I=I)
        ck.equal(f"HalfSolver.error-estimate[{i}]", w, app("abs", I.to_term(e)), ite(ok, app("abs", y - z), tm.INF), what="error estimate is not the difference between two half steps and one full step (infinite if one of them failed)", I=I)
    ck.equal("HalfSolver.state", w, out[3], B["s"], what="solver state is not that after the second half step", I=I)
    ck.equal("HalfSolver.result-success-iff-all", w, okay(I.to_term(out[4])), ok, what="reports success although an inner step failed (or the converse)", I=I)
    ck.equal("HalfSolver.result-of-a-step", w, tm.lor_all([tm.eq(I.to_term(out[4]), r) for r in res]), tm.TRUE, what="reports a result that none of the steps had", I=I)
    ck.equal("HalfSolver.func", at(cls, "func"), I.call(I.method(cls, "func", o), [terms, t0, y0, args], {}), app("inner.func", *[I.to_term(x) for x in (terms, t0, y0, args)]), I=I)
    ck.equal("HalfSolver.init", at(cls, "init"), I.call(I.method(cls, "init", o), [terms, t0, t1, y0, args], {}), app("inner.init", *[I.to_term(x) for x in (terms, t0, t1, y0, args)]), I=I)


ALL = [("Euler", euler), ("EulerHeun", euler_heun), ("ImplicitEuler", implicit_euler), ("LeapfrogMidpoint", leapfrog),
       ("ReversibleHeun", reversible_heun), ("SemiImplicitEuler", semi_implicit), ("StratonovichMilstein", strat_milstein),
       ("ItoMilstein", ito_milstein), ("HalfSolver", half)]


def run(ck):
    for n, f in ALL: ck.attempt(n, lambda f=f: f(ck))


def error_estimates(ck):
    """The error-estimate obligations of the non-tableau solvers, for C02."""
    sub = type(ck)("C05", ck.root, ck.tier, ck.seed)
    run(sub)
    keep = lambda n: "error-estimate" in n
    ck.ok += [x for x in sub.ok if keep(x[0])]
    ck.bad += [x for x in sub.bad if keep(x["obligation"])]
    ck.und += [x for x in sub.und if keep(x[0])]
    ck.functions |= sub.functions
