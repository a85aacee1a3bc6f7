"""C04: the Runge-Kutta step, for a symbolic tableau, equals the method its coefficients define."""
import numpy as np
from sa import terms as tm
from sa.terms import app, const, ite
from sa.common import *
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph translation validation of AbstractRungeKutta.step/init/func against the Runge-Kutta formula, with fully symbolic tableaus, terms, times and states"
EXPLANATION = ("The stepping code is reduced to value graphs for symbolic 3-stage tableaus of every structural kind (explicit, FSAL, ESDIRK, SDIRK, DIRK, additive; "
               "cheap and expensive vector fields) and for every combination of first step / jump / carried-over stage; stages, end value, error estimate, dense "
               "information, carried-over stage, implicit equations and failure handling are compared with the definition of the method.")
ASSUMPTIONS = ["number of stages is uniform in the code (loop body does not depend on the number of stages other than as a bound), so 3-4 symbolic stages stand for any number",
               "optimistix.root_find returns a root of the function it is given, or a failure result"]
FLOOR = 150
OKR = None


def S(n, dom=None): return tm.sym(n, dom)


def tableau(I, nm, s, implicit=None, fsal=False, ssal=False, esd=False):
    """A symbolic tableau object; structural zeros/equalities implied by the flags are built in."""
    repo = I.repo
    a = [[S(f"{nm}a{i}{j}", "real") for j in range(i)] for i in range(s)]
    b = [S(f"{nm}b{j}", "real") for j in range(s)]
    be = [S(f"{nm}e{j}", "real") for j in range(s)]
    c = [S(f"{nm}c{i}", "real") for i in range(s)]
    d = [tm.ZERO] * s
    if implicit:
        g = S(f"{nm}d", "real")
        if implicit == "esdirk": d = [tm.ZERO] + [g] * (s - 1)
        elif implicit == "sdirk": d = [g] * s
        else: d = [S(f"{nm}d{i}", "real") for i in range(s)]
    if implicit is None or d[0] is tm.ZERO: c[0] = tm.ZERO
    if ssal: b = a[s - 1] + [d[s - 1]]
    if fsal: pass
    arr = lambda xs: np.array(xs, dtype=object)
    lower = PyTuple([arr(a[i]) for i in range(1, s)])
    pred = PyTuple([arr([S(f"{nm}p{i}{j}", "real") for j in range(i)]) for i in range(1, s)])
    f = dict(c=arr(c[1:]), b_sol=arr(b), b_error=arr(be), a_lower=lower, a_diagonal=arr(d) if implicit else tm.NONE,
             a_predictor=pred if implicit else tm.NONE, c1=c[0] if (implicit and implicit != "esdirk") else tm.NONE,
             ssal=const(ssal), fsal=const(fsal), implicit=const(implicit is not None), num_stages=const(s))
    o = I.mkobj(repo.cls("ButcherTableau"), f)
    A = [[a[i][j] if j < i else (d[i] if j == i else tm.ZERO) for j in range(s)] for i in range(s)]
    return o, dict(A=A, b=b, be=be, c=c, d=d, s=s, implicit=implicit)


def dot(cs, ks, n): 
    out = [tm.ZERO] * n
    for c, k in zip(cs, ks):
        out = [o + c * x for o, x in zip(out, k)]
    return out


def config(ck, name, base, tabs, expensive, jac=None, s=3, first=None, jump=None, n=2, others=False):
    """tabs: list of dict(implicit=, fsal=, ssal=)"""
    I = ck.interp()
    I.batched = const(others)      # is it the first step, or was there a jump, for the other elements of a batch
    cls = ck.repo.cls(base)
    w = at(ck.repo.cls("AbstractRungeKutta"), "step")
    obs, specs = [], []
    for i, t in enumerate(tabs):
        o, sp = tableau(I, f"T{i}", s, **t); obs.append(o); specs.append(sp)
    multi = len(tabs) > 1
    tab = obs[0] if not multi else I.mkobj(ck.repo.cls("MultiButcherTableau"), {"tableaus": PyTuple(obs)})
    ts = [SymTerm(I, f"f{i}", n, expensive=expensive) for i in range(len(tabs))]
    terms = ts[0].obj if not multi else multiterm(I, *ts)
    rf, ms = S("root_finder"), S("root_find_max_steps", "nat")
    fields = {"tableau": tab, "scan_kind": tm.NONE, "root_finder": rf, "root_find_max_steps": ms}
    if jac: fields["calculate_jacobian"] = I.getattr(ck.repo.cls("CalculateJacobian"), jac)
    o = I.mkobj(cls, fields)
    t0, t1, args = S("t0", "real"), S("t1", "real"), S("args")
    y0 = [S(f"y{i}", "real") for i in range(n)]
    y0v = PyTuple(y0) if n > 1 else y0[0]
    fsal = all(t.get("fsal") for t in tabs) and not expensive
    carried = None
    if fsal:
        carried = [[S(f"F{c}_{l}", "real") for l in range(n)] for c in range(len(tabs))]
        pk = [PyTuple(x) if n > 1 else x[0] for x in carried]
        st = PyTuple([const(first), pk[0] if not multi else PyTuple(pk)])
    else:
        st = tm.NONE
    ctr = [t.c(t0, t1) for t in ts]
    dt = t1 - t0
    imp = [i for i, t in enumerate(tabs) if t.get("implicit")]
    imp = imp[0] if imp else None
    # ---- specification, stage by stage
    K = [[] for _ in tabs]        # K[c][i] list of leaves
    fvals = [[] for _ in tabs]
    reuse = fsal and not first and not jump and not others
    unk = []
    calls = []
    results = []

    def rootfind(I, a, kw):
        names = ("fn", "solver", "y0", "args", "options", "has_aux", "max_steps", "adjoint", "throw", "tags")
        d = dict(zip(names, a)); d.update(kw)
        i = len(calls)
        u = [S(f"u{i}_{l}", "real") for l in range(n)]
        r = S(f"r{i}")
        uv = PyTuple(u) if n > 1 else u[0]
        res = lst(I, I.call(d["fn"], [uv, d.get("args", tm.NONE)], {}), n)
        calls.append(dict(u=u, res=res, d=d))
        results.append(app("promote", r))
        return I.mkobj(None, {"value": uv, "result": r, "stats": S("stats"), "state": S("rfstate"), "aux": tm.NONE})
    I.user_models["optimistix.root_find"] = rootfind
    inits = []
    def rfinit(I, a, kw):
        inits.append((a, kw)); return S(f"jac{len(inits)}")
    out = I.unpack(I.call(I.method(cls, "step", o), [terms, t0, t1, y0v, args, st, const(bool(jump))], {}), 5)
    ck.use(I)
    in_f = bool(fsal)     # implicit unknown lives in f-space (else k-space)
    ci = 0
    ok_eq = True
    for i in range(s):
        if i == 0 and reuse:
            for c in range(len(tabs)):
                fvals[c].append(carried[c]); K[c].append([x * y for x, y in zip(carried[c], ctr[c])])
            continue
        base_y = list(y0)
        for c, sp in enumerate(specs):
            base_y = [p + q for p, q in zip(base_y, dot(sp["A"][i][:i], K[c][:i], n))]
        Y = base_y
        if imp is not None:
            if ci >= len(calls):
                ck.violation(f"{name}.stage{i}.solve", w, "an implicit stage is not solved for"); return
            u, res = calls[ci]["u"], calls[ci]["res"]; d = calls[ci]["d"]; ci += 1
            sp = specs[imp]
            dd = sp["d"][i]
            ti = t0 + sp["c"][i] * dt
            # decide the space of the unknown from the residual itself
            done = False
            for space in (("f", "k") if in_f else ("k", "f")):
                ki = [x * y for x, y in zip(u, ctr[imp])] if space == "f" else u
                Yi = [p + dd * q for p, q in zip(base_y, ki)]
                fv = ts[imp].f(ti, Yi, args)
                spec = [x - y for x, y in zip(u, fv)] if space == "f" else [x - y * z for x, y, z in zip(u, fv, ctr[imp])]
                if tm.same(app("tuple", *res), app("tuple", *spec), n=60) or tm.same(app("tuple", *res), app("tuple", *[-q for q in spec]), n=60):
                    ck.held(f"{name}.stage{i}.implicit-equation"); done = True; break
            if not done:
                space = "f" if in_f else "k"
                ki = [x * y for x, y in zip(u, ctr[imp])] if space == "f" else u
                Yi = [p + dd * q for p, q in zip(base_y, ki)]
                fv = ts[imp].f(ti, Yi, args)
                spec = [x - y for x, y in zip(u, fv)] if space == "f" else [x - y * z for x, y, z in zip(u, fv, ctr[imp])]
                for l in range(n):
                    ck.equal(f"{name}.stage{i}.implicit-equation[{l}]", w, res[l], spec[l], what="the equation solved for an implicit stage is not the one that defines the method", I=I)
            ck.equal(f"{name}.stage{i}.no-throw", w, I.to_term(d.get("throw", tm.TRUE)), tm.FALSE, what="a failed implicit solve raises instead of failing the step", I=I)
            ck.equal(f"{name}.stage{i}.root-finder", w, I.to_term(d["solver"]), rf, what="does not use the configured root finder", I=I)
            ck.equal(f"{name}.stage{i}.max-steps", w, I.to_term(d.get("max_steps", const(256))), ms, what="ignores root_find_max_steps", I=I)
            Y = Yi
        for c, sp in enumerate(specs):
            if c == imp:
                fvals[c].append(u if space == "f" else None)
                K[c].append(ki)
            else:
                fv = ts[c].f(t0 + sp["c"][i] * dt, Y, args)
                fvals[c].append(fv)
                K[c].append([x * y for x, y in zip(fv, ctr[c])])
    ck.require(f"{name}.solves", ci == len(calls), w, f"{len(calls)} implicit solves for {ci} implicit stages")
    y1 = list(y0); err = [tm.ZERO] * n
    for c, sp in enumerate(specs):
        y1 = [p + q for p, q in zip(y1, dot(sp["b"], K[c], n))]
        err = [p + q for p, q in zip(err, dot(sp["be"], K[c], n))]
    ok = tm.enum("RESULTS.successful")
    allok = tm.land_all([tm.eq(r, ok) for r in results]) if results else tm.TRUE
    got = lst(I, out[0], n)
    ck.equal_many([(f"{name}.y1[{l}]", got[l], y1[l]) for l in range(n)], w, "the end value is not the coefficient-weighted sum of the stages", I=I)
    ge = lst(I, out[1], n)
    ck.equal_many([(f"{name}.y_error[{l}]", ge[l], ite(allok, err[l], tm.INF)) for l in range(n)], w,
                  "the error is not the weighted sum of stages, infinite after a failed implicit solve", I=I)
    di = out[2]
    items = []
    for key, val in (("y0", y0), ("y1", y1)):
        g = lst(I, I.subscript(di, const(key)), n)
        items += [(f"{name}.dense.{key}[{l}]", g[l], val[l]) for l in range(n)]
    kd = I.subscript(di, const("k"))
    for c in range(len(tabs)):
        kc = kd if not multi else I.subscript(kd, const(c))
        leavesk = [kc] if n == 1 else [I.subscript(kc, const(l)) for l in range(n)]
        items += [(f"{name}.dense.k{c}[{i}][{l}]", I.subscript(leavesk[l], const(i)), K[c][i][l]) for l in range(n) for i in range(s)]
    ck.equal_many(items, w, "dense information is not that of this step", I=I)
    if fsal:
        ns = I.unpack(out[3], 2)
        ck.equal(f"{name}.state.first_step", w, ns[0], tm.FALSE, what="after a step the next one is still marked as the first", I=I)
        for c in range(len(tabs)):
            x = ns[1] if not multi else I.subscript(ns[1], const(c))
            g = lst(I, x, n)
            ck.equal_many([(f"{name}.state.f1[{c}][{l}]", g[l], fvals[c][s - 1][l]) for l in range(n)], w, "the carried-over stage is not the last stage of this step", I=I)
    else:
        ck.require(f"{name}.state", out[3] is tm.NONE or (isinstance(out[3], T) and tm.same(out[3], tm.NONE)), w, "carries state although nothing is reused")
    res = I.to_term(out[4])
    ck.equal(f"{name}.result-ok", w, tm.eq(res, ok), allok, what="reports success although an implicit solve failed (or the converse)", I=I)
    if results:
        spec = results[-1]
        for r in reversed(results[:-1]): spec = ite(tm.eq(r, ok), spec, r)
        ck.equal(f"{name}.result-first", w, res, spec, what="does not report the first failure of its implicit solves", I=I)


def init_func(ck):
    for multi in (False, True):
        for fsal in (True, False):
            for exp in (True, False):
                nm = f"init{'.multi' if multi else ''}.fsal={fsal}.expensive={exp}"
                def go():
                    I = ck.interp()
                    cls = ck.repo.cls("AbstractRungeKutta"); n = 2
                    tabs = [tableau(I, f"T{i}", 3, fsal=fsal)[0] for i in range(2 if multi else 1)]
                    tab = tabs[0] if not multi else I.mkobj(ck.repo.cls("MultiButcherTableau"), {"tableaus": PyTuple(tabs)})
                    ts = [SymTerm(I, f"f{i}", n, expensive=exp) for i in range(len(tabs))]
                    terms = ts[0].obj if not multi else multiterm(I, *ts)
                    o = I.mkobj(cls, {"tableau": tab})
                    t0, t1, args = S("t0", "real"), S("t1", "real"), S("args")
                    y0 = [S(f"y{i}", "real") for i in range(n)]
                    r = I.call(I.method(cls, "init", o), [terms, t0, t1, PyTuple(y0), args], {})
                    if fsal and not exp:
                        p = I.unpack(r, 2)
                        ck.equal(nm + ".first", at(cls, "init"), p[0], tm.TRUE, what="the first step is not marked as such", I=I)
                        g = lst(I, p[1])
                        ck.require(nm + ".zero", len(g) == n * len(tabs) and all(tm.same(x, tm.ZERO) for x in g), at(cls, "init"), "the initial carried-over stage is not zero")
                    else:
                        ck.require(nm + ".none", isinstance(r, T) and tm.same(r, tm.NONE), at(cls, "init"), "carries state although nothing is reused")
                    f = lst(I, I.call(I.method(cls, "func", o), [terms, t0, PyTuple(y0), args], {}), None)
                    spec = [x for t in ts for x in t.f(t0, y0, args)]
                    for l, (x, y) in enumerate(zip(f, spec)):
                        ck.equal(nm + f".func[{l}]", at(cls, "func"), x, y, what="func is not the vector field", I=I)
                    ck.use(I)
                ck.attempt(nm, go)


def run(ck):
    E = dict(fsal=True, ssal=True)
    cfgs = [("ERK-FSAL-SSAL", "AbstractERK", [dict(fsal=True, ssal=True)], None),
            ("ERK-FSAL", "AbstractERK", [dict(fsal=True, ssal=False)], None),
            ("ERK-plain", "AbstractERK", [dict(fsal=False, ssal=False)], None),
            ("ERK-SSAL", "AbstractERK", [dict(fsal=False, ssal=True)], None),
            ("ESDIRK", "AbstractESDIRK", [dict(implicit="esdirk", fsal=True, ssal=True)], None),
            ("ESDIRK-not-SSAL", "AbstractESDIRK", [dict(implicit="esdirk", fsal=True, ssal=False)], None),
            ("ESDIRK-not-FSAL", "AbstractESDIRK", [dict(implicit="esdirk", fsal=False, ssal=False)], None),
            ("SDIRK", "AbstractSDIRK", [dict(implicit="sdirk", fsal=False, ssal=True)], None),
            ("DIRK", "AbstractDIRK", [dict(implicit="dirk", fsal=False, ssal=False)], None),
            ("IMEX", "AbstractRungeKutta", [dict(fsal=True, ssal=True), dict(implicit="esdirk", fsal=True, ssal=True)], "second_stage"),
            ("IMEX-rev", "AbstractRungeKutta", [dict(implicit="esdirk", fsal=True, ssal=False), dict(fsal=True, ssal=False)], "second_stage"),
            ("IMEX-not-FSAL", "AbstractRungeKutta", [dict(fsal=False, ssal=False), dict(implicit="sdirk", fsal=False, ssal=True)], "first_stage"),
            ("IMEX-mixed-FSAL", "AbstractRungeKutta", [dict(fsal=True, ssal=True), dict(implicit="esdirk", fsal=False, ssal=False)], "second_stage"),
            ("two-explicit", "AbstractERK", [dict(fsal=True, ssal=True), dict(fsal=True, ssal=False)], None)]
    for name, base, tabs, jac in cfgs:
        for exp in (False, True):
            fs = all(t["fsal"] for t in tabs) and not exp
            for first, jump, oth in ([(True, False, False), (False, False, False), (False, True, False), (True, True, False), (False, False, True), (True, False, True)] if fs else [(None, False, False), (None, True, False)]):
                nm = f"{name}{'.expensive' if exp else ''}" + (f".first={first}.jump={jump}" if fs else f".jump={jump}") + (".others-jump" if oth else "")
                ck.attempt(nm, lambda: config(ck, nm, base, [dict(t) for t in tabs], exp, jac, 3 if ck.tier == "quick" else 4, first, jump, others=oth))
    init_func(ck)
