"""C06: stochastic Runge-Kutta methods: strong order conditions and the step itself."""
import itertools
from collections import defaultdict
import mpmath as mp
from sa import terms as tm, butcher as B
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst, SymTerm
from sa.interp import Unsupported
from sa.butcher import num, vec
LEVEL = "translation_validation"
TECHNIQUE = "constant propagation of the coefficient tables with exact stochastic tree-order conditions, and gated value-graph translation validation of the step"
EXPLANATION = ("The stochastic tableaus are evaluated from the source by constant propagation. Their elementary weights (polynomials in the Brownian increment and the Lévy areas) over all "
               "bi-coloured rooted trees are compared with the Stratonovich integrals: exactly up to the strong order claimed for the noise type, in expectation half an order above. "
               "The step of every solver is then abstractly interpreted and value-numbered against the scheme its table defines.")
ASSUMPTIONS = ["conditions are for scalar (hence, by symmetry, commutative) noise; for general noise the claim is order one half", "real arithmetic; leaves abstracted as scalars"]
FLOOR = 120
CLAIMS = {  # documented: strong order for additive noise, for commutative noise (None: only additive noise accepted)
    "SEA": (1, None), "SRA1": (1.5, None), "ShARK": (1.5, None), "SlowRK": (1.5, 1.5), "SPaRK": (1.5, 1), "GeneralShARK": (1.5, 1)}
EPS = mp.mpf(10) ** -12


# ------------------------------------------------ polynomials in W, H, K (step length 1)
class Poly(dict):
    def __add__(a, b):
        r = Poly(a)
        for k, v in b.items(): r[k] = r.get(k, 0) + v
        return r
    def __mul__(a, b):
        r = Poly()
        for (k, v), (l, w) in itertools.product(a.items(), b.items()):
            m = tuple(x + y for x, y in zip(k, l)); r[m] = r.get(m, 0) + v * w
        return r
    def scale(a, c): return Poly({k: v * c for k, v in a.items()})
    def expect(a):
        s = mp.mpf(0)
        for k, v in a.items():
            if any(x % 2 for x in k): continue
            e = v
            for x, var in zip(k, (1, mp.mpf(1) / 12, mp.mpf(1) / 720)):
                for i in range(1, x, 2): e *= i * var
            s += e
        return s
    def close(a, b): return all(abs(a.get(k, 0) - b.get(k, 0)) < EPS for k in set(a) | set(b))


C = lambda v: Poly({(0, 0, 0): mp.mpf(v)})
Wp, Hp = Poly({(1, 0, 0): mp.mpf(1)}), Poly({(0, 1, 0): mp.mpf(1)})
f, g = lambda *c: (0, tuple(sorted(c))), lambda *c: (1, tuple(sorted(c)))
third = mp.mpf(1) / 3
EXACT = {f(): C(1), g(): Wp, g(g()): (Wp * Wp).scale(.5), g(g(), g()): (Wp * Wp * Wp).scale(third), g(g(g())): (Wp * Wp * Wp).scale(third / 2),
         f(g()): Wp.scale(.5) + Hp, g(f()): Wp.scale(.5) + Hp.scale(-1)}
MEAN2 = {f(f()): .5, f(g(), g()): .5, f(g(g())): .25, g(f(), g()): .25, g(f(g())): 0, g(g(f())): .25}


def gamma(t):
    n = size(t); r = n
    for c in t[1]: r *= gamma(c)
    return r


def size(t): return 1 + sum(size(c) for c in t[1])
def order2(t): return (2 if t[0] == 0 else 1) + sum(order2(c) for c in t[1])      # twice the order
def show(t): return "fg"[t[0]] + ("(" + ",".join(show(c) for c in t[1]) + ")" if t[1] else "")
def leafy(t): return (t[0] == 0 or not t[1]) and all(leafy(c) for c in t[1])


class STab:
    def __init__(self, I, o):
        G = lambda x, n: I.getattr(x, n)
        isn = lambda v: isinstance(v, T) and v is tm.NONE
        self.b = vec(G(o, "b_sol")); s = self.s = len(self.b)
        sq = lambda rows: [[mp.mpf(0)] * s] + [vec(r) + [mp.mpf(0)] * (s - i - 1) for i, r in enumerate(rows)]
        self.A = sq(I.iterate(G(o, "a"))); self.c = [mp.mpf(0)] + vec(G(o, "c"))
        be = G(o, "b_error"); self.be = None if isn(be) else vec(be)
        self.additive = None; self.noise = []      # per W, H, K: (a rows, b, b_error)
        for nm in ("coeffs_w", "coeffs_hh", "coeffs_kk"):
            cf = G(o, nm)
            if isn(cf): self.noise.append(None); continue
            add = cf.cls.name == "AdditiveCoeffs"
            self.additive = add if self.additive is None else self.additive
            if add: self.noise.append((vec(G(cf, "a")), num(I.to_term(scalar(G(cf, "b_sol")))), None))
            else:
                e = G(cf, "b_error")
                self.noise.append((sq(I.iterate(G(cf, "a"))), vec(G(cf, "b_sol")), None if isn(e) else vec(e)))
        ig = lambda n: None if isn(G(o, n)) else [bool(tm.truth(I.to_term(x))) for x in G(o, n)]
        self.ig_f, self.ig_g = ig("ignore_stage_f"), ig("ignore_stage_g")

    def weights(self):
        """phi[colour](i, j): stage coefficient, and B[colour](i)"""
        s = self.s
        mono = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
        Af = [[C(x) for x in r] for r in self.A]; Bf = [C(x) for x in self.b]
        if self.additive:
            # the diffusion is a single extra stage without children, seen by stage i with weight a_i
            Ag = [sum((Poly({m: n[0][i]}) for m, n in zip(mono, self.noise) if n), Poly()) for i in range(s)]
            Bg = sum((Poly({m: n[1]}) for m, n in zip(mono, self.noise) if n), Poly())
        else:
            Ag = [[sum((Poly({m: n[0][i][j]}) for m, n in zip(mono, self.noise) if n), Poly()) for j in range(s)] for i in range(s)]
            Bg = [sum((Poly({m: n[1][i]}) for m, n in zip(mono, self.noise) if n), Poly()) for i in range(s)]
        return Af, Bf, Ag, Bg

    def weight(self, t):
        Af, Bf, Ag, Bg = self.weights()
        s = self.s
        def stagewise(t):      # list over stages i: sum_j A^c_ij prod children_j
            if self.additive and t[0] == 1:
                return [Ag[i] for i in range(s)]
            p = inner(t)
            A = Af if t[0] == 0 else Ag
            return [sum((A[i][j] * p[j] for j in range(s)), Poly()) for i in range(s)]
        def inner(t):
            p = [C(1)] * s
            for c in t[1]:
                q = stagewise(c)
                p = [x * y for x, y in zip(p, q)]
            return p
        if self.additive and t[0] == 1: return Bg
        p = inner(t); Bx = Bf if t[0] == 0 else Bg
        return sum((Bx[i] * p[i] for i in range(s)), Poly())


def scalar(v):
    import numpy as np
    return v.item() if isinstance(v, np.ndarray) and v.ndim == 0 else v


def bitrees(maxo2):
    out = {}
    for n in range(1, maxo2 + 1):
        for t in B.trees(n, 2):
            u = canon(t)
            if order2(u) <= maxo2: out[u] = u
    return list(out)


def canon(t): return (t[0], tuple(sorted(canon(c) for c in t[1])))


def solvers(repo):
    base = repo.cls("AbstractSRK")
    return [c for c in sorted(repo.classes.values(), key=lambda c: c.qual) if c is not base and c.issub(base) and c.lookup("tableau") and c.lookup("tableau")[0] is not base]


def tableau(I, cls): return I.class_attr(cls, "tableau")[2]


def coefficients(ck, cls):
    I = ck.interp()
    o = tableau(I, cls); tb = STab(I, o)
    n, w = cls.name, at(cls, "tableau")
    add_p, com_p = CLAIMS.get(n, (None, None))
    ck.use(I)
    for i in range(tb.s):
        ck.require(f"{n}.stage-time[{i}]", abs(tb.c[i] - sum(tb.A[i])) < EPS, w, "stage time is not the row sum of the drift coefficients")
    # declared orders (deterministic part: all noise zero)
    from sa.common import const_method
    d = num(I.to_term(const_method(I, cls, "order", tm.sym("terms"))))
    for t in bitrees(2 * int(d)):
        if any(True for _ in nodes(t) if _ == 1): continue
        ck.require(f"{n}.ode-order.{show(t)}", abs(tb.weight(t).get((0, 0, 0), 0) - mp.mpf(1) / gamma(t)) < EPS, w,
                   f"drift coefficients violate the order condition for tree {show(t)} at declared order {int(d)}")
    so = num(I.to_term(const_method(I, cls, "strong_order", tm.sym("terms"))))
    if n in CLAIMS:
        exp = {"SEA": 1, "SRA1": 1.5, "ShARK": 1.5, "SlowRK": 1.5, "SPaRK": 0.5, "GeneralShARK": 0.5}[n]
        ck.require(f"{n}.declared-strong-order", abs(so - exp) < EPS, at(cls, "strong_order"), f"declares strong order {so}, documented {exp}")
    else:
        add_p = so
    for kind, p, pred in (("additive", add_p, leafy), ("commutative", com_p, lambda t: True)):
        if p is None or (kind == "commutative" and tb.additive): continue
        p2 = int(2 * mp.mpf(p))
        for t in bitrees(p2 + 1):
            if not pred(t): continue
            wt = tb.weight(t); o2 = order2(t)
            if o2 <= p2:
                ck.require(f"{n}.{kind}.{show(t)}", wt.close(EXACT[t]), w,
                           f"strong order {p} ({kind} noise): the weight of {show(t)} is not the corresponding Stratonovich integral", dict(computed=pp(wt), required=pp(EXACT[t])))
            else:
                if o2 % 2: want = 0
                elif o2 == 2: want = {f(): 1, g(g()): .5}[t]
                else: want = MEAN2[t] if t in MEAN2 else mp.mpf(3) / gamma(t)
                ck.require(f"{n}.{kind}.mean.{show(t)}", abs(wt.expect() - want) < EPS, w,
                           f"strong order {p} ({kind} noise): the mean weight of {show(t)} is {mp.nstr(wt.expect(), 8)}, must be {want}")
    if n == "SEA":
        ck.require("SEA.additive.f(g)", tb.weight(f(g())).close(EXACT[f(g())]), w, "documented local error O(h^2) needs the exact weight of f(g)")
    # consistency of embedded estimates and skipped stages
    if tb.be is not None: ck.require(f"{n}.embedded.drift", abs(sum(tb.be)) < EPS, w, "drift error coefficients do not sum to zero")
    for nm, q in zip("WHK", tb.noise):
        if q and q[2] is not None: ck.require(f"{n}.embedded.{nm}", abs(sum(q[2])) < EPS, w, f"error coefficients for {nm} do not sum to zero")
    for j in range(tb.s):
        if tb.ig_f and tb.ig_f[j]:
            ck.require(f"{n}.skip-f[{j}]", all(abs(r[j]) < EPS for r in tb.A) and abs(tb.b[j]) < EPS and (tb.be is None or abs(tb.be[j]) < EPS), w,
                       f"drift evaluation of stage {j} is skipped but used")
        if tb.ig_g and tb.ig_g[j] and not tb.additive:
            ck.require(f"{n}.skip-g[{j}]", all(all(abs(r[j]) < EPS for r in q[0]) and abs(q[1][j]) < EPS and (q[2] is None or abs(q[2][j]) < EPS) for q in tb.noise if q), w,
                       f"diffusion evaluation of stage {j} is skipped but used")


def nodes(t):
    yield t[0]
    for c in t[1]: yield from nodes(c)


def pp(p): return {str(k): mp.nstr(v, 8) for k, v in p.items() if abs(v) > EPS}


t0, t1, args = tm.sym("t0"), tm.sym("t1"), tm.sym("args")


def step(ck, cls, extra=0):
    """extra: Lévy areas supplied beyond the minimum"""
    I = ck.interp()
    I.scalar_leaves = True
    o = tableau(I, cls); n = cls.name
    G = lambda x, k: I.getattr(x, k)
    isn = lambda v: isinstance(v, T) and v is tm.NONE
    drift = SymTerm(I, "drift")
    add = G(o, "coeffs_w").cls.name == "AdditiveCoeffs"
    have = [True, not isn(G(o, "coeffs_hh")), not isn(G(o, "coeffs_kk"))]
    nlev = sum(have)
    lev = [[tm.sym(f"{x}{i}") for i in range(2)] for x in "WHK"]
    acls = ["BrownianIncrement", "SpaceTimeLevyArea", "SpaceTimeTimeLevyArea"][min(2, nlev - 1 + extra)]
    inc = I.mkobj(ck.repo.cls(acls), dict([("dt", PyTuple([t1 - t0, t1 - t0])), ("W", PyTuple(lev[0]))] + ([("H", PyTuple(lev[1]))] if acls != "BrownianIncrement" else [])
                                           + ([("K", PyTuple(lev[2]))] if "TimeTime" in acls else [])))
    hasy = not add
    gf = lambda t, y: [app(f"g{i}", t, app("tuple", *y), args) if hasy else app(f"g{i}", t, args) for i in range(2)]
    N = lambda fn, nm: Native(fn, nm)
    def norm(a, k, names): return list(a) + [k[q] for q in names[len(a):]]
    def vf(I, a, k):
        a = norm(a, k, ("t", "y", "args"))
        return PyTuple([app(f"g{i}", I.to_term(a[0]), app("tuple", *lst(I, a[1], 2)), I.to_term(a[2])) if hasy else app(f"g{i}", I.to_term(a[0]), I.to_term(a[2])) for i in range(2)])
    def prod(I, a, k):
        a = norm(a, k, ("vf", "control"))
        return PyTuple([x * y for x, y in zip(lst(I, a[0], 2), lst(I, a[1], 2))])
    def vf_prod(I, a, k):
        a = norm(a, k, ("t", "y", "args", "control"))
        return prod(I, [vf(I, a[:3], {}), a[3]], {})
    def contr(I, a, k):
        a2 = [I.to_term(x) for x in norm(a[:2], k, ("t0", "t1"))]
        ck.equal(f"{n}.step.interval", at(cls, "step"), app("tuple", *a2), app("tuple", t0, t1), what="Brownian increment over the wrong interval", I=I)
        return inc
    diff = I.mkobj(ck.repo.cls("AbstractTerm"), {"vf": N(vf, "vf"), "prod": N(prod, "prod"), "vf_prod": N(vf_prod, "vf_prod"), "contr": N(contr, "contr")})
    # the drift's control is the elapsed time: vf_prod(t, y, args, h)
    def dprod(I, a, k):
        a = norm(a, k, ("t", "y", "args", "control"))
        h = I.to_term(a[3])
        return PyTuple([x * h for x in drift.f(I.to_term(a[0]), lst(I, a[1], 2), I.to_term(a[2]))])
    def dprod2(I, a, k):
        a = norm(a, k, ("vf", "control"))
        return PyTuple([x * I.to_term(a[1]) for x in lst(I, a[0], 2)])
    fl = dict(I.fields(drift.obj)); fl["vf_prod"] = N(dprod, "vf_prod"); fl["prod"] = N(dprod2, "prod")
    fl["contr"] = N(lambda I, a, k: I.to_term(norm(a, k, ("t0", "t1"))[1]) - I.to_term(norm(a, k, ("t0", "t1"))[0]), "contr")
    I.hset(drift.obj.uid, fl)
    terms = I.mkobj(ck.repo.cls("MultiTerm"), {"terms": PyTuple([drift.obj, diff])})
    y = state("y"); yl = list(y.items)
    so = I.mkobj(cls, {"scan_kind": tm.NONE})
    out = I.unpack(I.call(I.method(cls, "step", so), [terms, t0, t1, y, args, tm.NONE, tm.sym("made_jump", "bool")], {}), 5)
    ck.use(I)
    # ---- specification
    h = t1 - t0
    b = [I.to_term(x) for x in G(o, "b_sol")]; s = len(b)
    sq = lambda rows: [[tm.ZERO] * s] + [[I.to_term(x) for x in r] + [tm.ZERO] * (s - i - 1) for i, r in enumerate(rows)]
    A = sq(I.iterate(G(o, "a"))); c = [tm.ZERO] + [I.to_term(x) for x in G(o, "c")]
    cf = [G(o, k) if hv else None for k, hv in zip(("coeffs_w", "coeffs_hh", "coeffs_kk"), have)]
    vecs = lambda v: [I.to_term(x) for x in v]
    comb = lambda cs: [sum((k * lev[q][i] for q, k in enumerate(cs) if k is not None), tm.ZERO) for i in range(2)]
    F, Gs = [], []
    if add:
        aN = [vecs(G(x, "a")) if x is not None else None for x in cf]
        bN = [I.to_term(scalar(G(x, "b_sol"))) if x is not None else None for x in cf]
        g0, g1 = gf(t0, yl), gf(t1, yl)
    else:
        aN = [sq(I.iterate(G(x, "a"))) if x is not None else None for x in cf]
        bN = [vecs(G(x, "b_sol")) if x is not None else None for x in cf]
        eN = [None if x is None or isn(G(x, "b_error")) else vecs(G(x, "b_error")) for x in cf]
    for j in range(s):
        z = []
        nz = comb([q[j] if q else None for q in aN]) if add else None
        for i in range(2):
            v = yl[i]
            for k in range(j): v = v + A[j][k] * h * F[k][i]
            if add: v = v + g0[i] * nz[i]
            else:
                for k in range(j): v = v + Gs[k][i] * comb([q[j][k] if q else None for q in aN])[i]
            z.append(v)
        t = t0 + c[j] * h
        F.append(drift.f(t, z, args)); Gs.append(gf(t, z) if not add else None)
    y1 = []
    for i in range(2):
        v = yl[i]
        for k in range(s): v = v + b[k] * h * F[k][i]
        if add:
            v = v + g0[i] * comb(bN)[i]
            tv = lev[0][i] * const(0.5) - (lev[1][i] if have[1] else tm.ZERO)
            v = v + (g1[i] - g0[i]) * tv
        else:
            for k in range(s): v = v + Gs[k][i] * comb([q[k] if q else None for q in bN])[i]
        y1.append(v)
    w = at(cls, "step")
    tag = f"{n}.step" + ("+" * extra)
    ck.equal_many([(f"{tag}.y1[{i}]", x, y1[i]) for i, x in enumerate(lst(I, out[0], 2))], w, "is not the update the tableau defines", I=I)
    be = G(o, "b_error")
    if isn(be): ck.equal(f"{tag}.no-error", w, out[1], tm.NONE, what="reports an error without an embedded method", I=I)
    else:
        be = vecs(be); err = []
        for i in range(2):
            v = tm.ZERO
            for k in range(s): v = v + be[k] * h * F[k][i]
            if not add and eN[0] is not None:
                for k in range(s): v = v + Gs[k][i] * comb([q[k] if q else None for q in eN])[i]
            err.append(v)
        ck.equal_many([(f"{tag}.error[{i}]", x, err[i]) for i, x in enumerate(lst(I, out[1], 2))], w, "error estimate is not the embedded combination", I=I)
    d = I.hget(out[2].uid)
    ck.equal_many([(f"{tag}.dense.{k}[{i}]", x, sp[i]) for k, sp in (("y0", yl), ("y1", y1)) for i, x in enumerate(lst(I, d[k], 2))], w, "dense information is not the end values of the step", I=I)
    ck.equal(f"{tag}.result", w, out[4], tm.enum("RESULTS.successful"), I=I)
    # the Lévy area demanded of the control
    ml = I.getattr(so, "minimal_levy_area")
    want = ["AbstractBrownianIncrement", "AbstractSpaceTimeLevyArea", "AbstractSpaceTimeTimeLevyArea"][nlev - 1]
    ck.require(f"{tag}.minimal-levy-area", getattr(ml, "name", None) == want, at(cls, "minimal_levy_area"), f"demands {getattr(ml, 'name', ml)} instead of {want}")


def run(ck):
    for cls in solvers(ck.repo):
        ck.attempt(cls.name + ".coefficients", lambda: coefficients(ck, cls))
        for e in (0, 1): ck.attempt(cls.name + ".step", lambda: step(ck, cls, e))
