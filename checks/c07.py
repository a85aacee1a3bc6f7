"""C07: underdamped Langevin solvers: coefficients are the exact integrals of the damped flow; the step combines them as published."""
from fractions import Fraction
from math import factorial
import ast
import numpy as np
import mpmath as mp
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, lst
from sa.interp import Unsupported
from sa.models import unvmap_of
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of the coefficient functions and of init/step, compared with the moments of the damped linear flow (exact power series and closed forms) and with the published step"
EXPLANATION = ("Both coefficient strategies (power series; closed form) are extracted as functions of the friction and the step and compared, coefficient by coefficient, with the exact integrals "
               "of the damped linear flow; the selection between them, the reuse across steps, the noise amplitude, the carried force evaluation and the step itself are compared with their definitions "
               "for vector- and tree-valued positions.")
ASSUMPTIONS = ["real arithmetic; the truncation error of the six-term series below the default threshold is bounded in the check, a user-chosen threshold is the user's",
               "array operations are modelled elementwise on two-element and one-element leaves"]
FLOOR = 800


def O(xs):
    out = np.empty((len(xs),), dtype=object)
    for i, x in enumerate(xs): out[i] = x
    return out


# ------------------------------------------------------------------ specification: integrals of the damped flow
# g(x) series in x = c * theta * h;  every coefficient is  h^p * c^q * series(x)
def _inv(n): return Fraction(1, factorial(n))
N = 24
EXP = [Fraction((-1) ** k) * _inv(k) for k in range(N)]                        # exp(-x)
PHI1 = [Fraction((-1) ** k) * _inv(k + 1) for k in range(N)]                   # (1 - exp(-x)) / x
PHI2 = [Fraction((-1) ** k) * _inv(k + 2) for k in range(N)]                   # (exp(-x) - 1 + x) / x^2
def moment(weight):
    """series in x of  int_0^1 phi(1 - s) weight(s) ds  with phi(r) = (1 - exp(-x r)) / x, weight a polynomial in s (list of coefficients)"""
    out = []
    for k in range(N):
        # phi(r) = sum_k (-x)^k r^(k+1) / (k+1)!
        tot = Fraction(0)
        for j, w in enumerate(weight):
            # int_0^1 (1-s)^(k+1) s^j ds = (k+1)! j! / (k+j+2)!
            tot += Fraction(w) * Fraction(factorial(k + 1) * factorial(j), factorial(k + j + 2))
        out.append(Fraction((-1) ** k) * tot * _inv(k + 1))
    return out
# dW = (W + 6 (1 - 2 s) H + d/ds[120 s (1/2 - s)(1 - s)] K + ...) ds   (s in [0, 1]);  120 s(1/2-s)(1-s) = 60 s - 180 s^2 + 120 s^3
CHH = moment([6, -12])
CKK = moment([60, -360, 360])


def closed(name, x, E):
    """closed forms of the same functions (x = c*theta*h, E = exp(-x))"""
    if name == "exp": return E
    if name == "phi1": return (1 - E) / x
    if name == "phi2": return (E + x - 1) / (x * x)
    if name == "chh": return 6 * (E * (x + 2) + x - 2) / (x * x * x)
    if name == "ckk": return 60 * (E * (x * (x + 6) + 12) - x * (x - 6) - 12) / (x * x * x * x)
SERIES = dict(exp=EXP, phi1=PHI1, phi2=PHI2, chh=CHH, ckk=CKK)
l_, r_ = "l", "r"
S3 = tm.app("sqrt", const(3))
THETA = {"l": const(1) / 2 - S3 / 6, "r": const(1) / 2 + S3 / 6}
# class -> field -> list of (function, theta, power of theta*h multiplying it, power of h multiplying it)
FIELDS = {
    "ALIGN": dict(beta=[("exp", 1, 0, 0)], a1=[("phi1", 1, 1, 0)], b1=[("phi2", 1, 1, 0)], aa=[("phi1", 1, 0, 0)], chh=[("chh", 1, 1, 0)]),
    "ShOULD": dict(beta_half=[("exp", Fraction(1, 2), 0, 0)], a_half=[("phi1", Fraction(1, 2), 1, 0)], b_half=[("phi2", Fraction(1, 2), 2, -1)],
                   beta1=[("exp", 1, 0, 0)], a1=[("phi1", 1, 1, 0)], b1=[("phi2", 1, 1, 0)], aa=[("phi1", 1, 0, 0)], chh=[("chh", 1, 1, 0)], ckk=[("ckk", 1, 1, 0)]),
    "QUICSORT": dict(beta_lr1=[("exp", "l", 0, 0), ("exp", "r", 0, 0), ("exp", 1, 0, 0)], a_lr1=[("phi1", "l", 1, 0), ("phi1", "r", 1, 0), ("phi1", 1, 1, 0)],
                     b_lr1=[("phi2", "l", 2, -1), ("phi2", "r", 2, -1), ("phi2", 1, 2, -1)], a_third=[("phi1", Fraction(1, 3), 1, 0)], a_div_h=[("phi1", 1, 0, 0)]),
}
def theta(t): return THETA[t] if isinstance(t, str) else const(t)
def exact(e, c, h):
    """closed form of one coefficient"""
    f, th, p, q = e
    x = c * theta(th) * h
    return closed(f, x, app("exp", -x)) * (theta(th) * h) ** p * h ** q
def series(e, c):
    """[coefficient of h^5 .. h^0]"""
    f, th, p, q = e
    out = []
    for n in range(5, -1, -1):
        k = n - p - q
        out.append(const(0) if k < 0 else const(SERIES[f][k]) * theta(th) ** (k + p) * c ** k)
    return out


def self_check(ck):
    """the two specifications (series, closed form) are the same function"""
    for nm, s in SERIES.items():
        for x in (mp.mpf("0.3"), mp.mpf("1.1")):
            v = sum(mp.mpf(a.numerator) / a.denominator * x ** k for k, a in enumerate(s))
            assert abs(v - closed(nm, x, mp.exp(-x))) < mp.mpf(10) ** -18, nm


# ------------------------------------------------------------------ array models
def nd(I, v):
    if isinstance(v, np.ndarray): return v
    if isinstance(v, (PyTuple, PyList)):
        it = [nd(I, x) for x in I.iterate(v)]
        if all(isinstance(x, np.ndarray) for x in it): return np.stack(it)
        return O([I.to_term(x) for x in it])
    return v


def models(I):
    def dims(I, s): return tuple(I.intval(x) for x in I.iterate(s))
    def expand(I, a, k):
        x = nd(I, a[0]); ax = a[1] if len(a) > 1 else k["axis"]
        if not isinstance(x, np.ndarray): x = O([x]); return x
        return np.expand_dims(x, I.intval(ax))
    def move(I, a, k):
        return np.moveaxis(nd(I, a[0]), I.intval(a[1]), I.intval(a[2]))
    def bto(I, a, k):
        s = a[1] if len(a) > 1 else k["shape"]
        d = dims(I, s) if isinstance(s, (PyTuple, PyList)) else tuple(s)
        x = nd(I, a[0])
        if not isinstance(x, np.ndarray):
            if d == (): return x
            x = O([x])
        return np.broadcast_to(x, d).copy()
    def stack(I, a, k):
        ax = I.intval(k.get("axis", a[1] if len(a) > 1 else tm.ZERO))
        it = [nd(I, x) for x in I.iterate(a[0])]
        sh = [x.shape for x in it if isinstance(x, np.ndarray)]
        if not sh: return O(it)
        return np.stack([np.broadcast_to(x if isinstance(x, np.ndarray) else O([x]), sh[0]) for x in it], axis=ax)
    def power(I, a, k):
        x, y = np.broadcast_arrays(nd(I, a[0]) if isinstance(nd(I, a[0]), np.ndarray) else O([a[0]]), nd(I, a[1]) if isinstance(nd(I, a[1]), np.ndarray) else O([a[1]]))
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape): out[i] = tm.power(x[i], y[i])
        return out
    def arange(I, a, k):
        n = [I.intval(x) for x in a] + ([I.intval(k["step"])] if "step" in k else [])
        return O([const(x) for x in range(*n)])
    def polyval(I, a, k):
        p, x = nd(I, a[0]), a[1]
        s = None
        for c in p: s = c if s is None else I.binop(ast.Add(), I.binop(ast.Mult(), s, x), c)
        return s
    def asarr(I, a, k): return nd(I, a[0])
    def pred(I, a, k): return a[0]
    for q in ("any", "all"):
        def red(I, a, k, q=q):
            x = nd(I, a[0])
            if isinstance(x, np.ndarray): return (tm.lor_all if q == "any" else tm.land_all)([I.truthy(z) for z in x.reshape(-1)])
            return x if isinstance(x, T) else I.truthy(x)
        def ured(I, a, k, q=q, red=red): return unvmap_of(I, q, red(I, a, k))
        I.user_models["equinox.internal.unvmap_" + q] = ured
        I.user_models["jax.numpy." + q] = red
    for nm, f in dict(expand_dims=expand, moveaxis=move, broadcast_to=bto, stack=stack, power=power, arange=arange, polyval=polyval, asarray=asarr, array=asarr).items():
        I.user_models["jax.numpy." + nm] = f
    def close(I, a, k):
        a = list(a) + [None] * 4
        rt, at_ = k.get("rtol", a[2]), k.get("atol", a[3])
        I.close = (rt, at_)
        return app("isclose", I.to_term(a[0]), I.to_term(a[1]))
    I.user_models["jax.numpy.isclose"] = close


def flat(I, v):
    """all scalar terms of a value, row-major"""
    if isinstance(v, np.ndarray): return [I.to_term(x) for x in v.reshape(-1)]
    return [I.to_term(v)]


def coefs(I, o, nm, f):
    v = I.getattr(o, f)
    return v


def coefficient_functions(ck, nm):
    cls = ck.repo.cls(nm)
    I = ck.interp(); models(I)
    o = I.mkobj(cls, {"taylor_threshold": tm.sym("thr", "pos")})
    h = tm.sym("h", "real")
    for case, c in (("vector", O([tm.sym("c0", "pos"), tm.sym("c1", "pos")])),):
        cs = list(c)
        def direct():
            w = at(cls, "_directly_compute_coeffs_leaf")
            r = I.call(I.method(cls, "_directly_compute_coeffs_leaf", o), [h, c], {})
            ck.use(I)
            for f, es in FIELDS[nm].items():
                got = flat(I, I.getattr(r, f))
                want = [exact(e, x, h) for x in cs for e in es]
                if len(got) != len(want): ck.violation(f"{nm}.direct.{f}", w, f"coefficient has {len(got)} entries for two-element friction, expected {len(want)}"); continue
                ck.equal_many([(f"{nm}.direct.{f}[{i}]", g, s) for i, (g, s) in enumerate(zip(got, want))], w, "closed-form coefficient is not the integral of the damped flow", I=I,
                              assume=tm.land_all([tm.lnot(tm.eq(h, const(0)))] + [tm.lnot(tm.eq(x, const(0))) for x in cs]))
        ck.attempt(f"{nm}.direct", direct)
        def taylor():
            w = at(cls, "_tay_coeffs_single")
            r = I.call(I.method(cls, "_tay_coeffs_single", o), [c], {})
            ck.use(I)
            for f, es in FIELDS[nm].items():
                got = flat(I, I.getattr(r, f))
                want = [s for x in cs for e in es for s in series(e, x)]
                if len(got) != len(want): ck.violation(f"{nm}.series.{f}", w, f"series has {len(got)} entries for two-element friction, expected {len(want)}"); continue
                ck.equal_many([(f"{nm}.series.{f}[{i}]", g, s) for i, (g, s) in enumerate(zip(got, want))], w, "series coefficient is not that of the integral of the damped flow", I=I)
        ck.attempt(f"{nm}.series", taylor)


def threshold(ck, nm):
    """the truncated series is accurate up to the default threshold"""
    cls = ck.repo.cls(nm)
    def go():
        I = ck.interp(); models(I)
        o = I.call(cls, [], {})
        t = I.getattr(o, "taylor_threshold")
        v = tm._num(I.to_term(t))
        if v is None: raise Unsupported("threshold")
        w = at(cls, "__init__")
        worst = mp.mpf(0)
        for f, es in FIELDS[nm].items():
            for fn, th, p, q in es:
                thv = {"l": mp.mpf("0.5") - mp.sqrt(3) / 6, "r": mp.mpf("0.5") + mp.sqrt(3) / 6}.get(th) if isinstance(th, str) else mp.mpf(Fraction(th).numerator) / Fraction(th).denominator
                x = thv * mp.mpf(v.numerator) / v.denominator
                full = sum(mp.mpf(a.numerator) / a.denominator * x ** k for k, a in enumerate(SERIES[fn]))
                part = sum(mp.mpf(SERIES[fn][k].numerator) / SERIES[fn][k].denominator * x ** k for k in range(0, 6 - p - q))
                worst = max(worst, abs(full - part) / max(abs(full), mp.mpf(10) ** -3))
        ck.use(I)
        ck.require(f"{nm}.threshold", bool(worst < mp.mpf("2e-4")), w, f"default threshold {v}: the truncated series is off by {mp.nstr(worst, 3)} (relative)")
    ck.attempt(f"{nm}.threshold", go)


class L:
    """one Langevin problem: tree-valued position with leaves of sizes (2, 1)"""
    SIZES = (2, 1)
    def __init__(self, ck, nm, wrap=False, threshold=None):
        self.ck = ck
        I = self.I = ck.interp(); models(I)
        R = ck.repo
        self.cls = R.cls(nm)
        self.nm = nm
        self.thr = tm.sym("thr", "pos")
        self.o = I.mkobj(self.cls, {"taylor_threshold": self.thr})
        mk = lambda n, dom="real": [O([tm.sym(f"{n}{i}_{j}", dom) for j in range(s)]) for i, s in enumerate(self.SIZES)]
        self.gamma, self.u, self.x0, self.v0 = mk("gamma", "pos"), mk("u", "pos"), mk("x"), mk("v")
        self.W, self.H, self.K = mk("W"), mk("H"), mk("K")
        self.args = tm.sym("args")
        self.t0, self.t1 = tm.sym("t0", "real"), tm.sym("t1", "real")
        self.fcalls = []
        self.gf = Native(self.f_model, "grad_f")
        tree = lambda xs: PyTuple(list(xs))
        self.tree = tree
        self.evs = []
        def ev(I, a, k):
            kk = dict(zip(["t0", "t1", "left", "use_levy"], a)); kk.update(k)
            self.evs.append((I.to_term(kk["t0"]), I.to_term(kk["t1"]), kk.get("use_levy")))
            lv = R.cls({"ALIGN": "SpaceTimeLevyArea"}.get(nm, "SpaceTimeTimeLevyArea"))
            f = {"dt": self.t1 - self.t0, "W": tree(self.W), "H": tree(self.H)}
            if nm != "ALIGN": f["K"] = tree(self.K)
            return I.mkobj(lv, f)
        bm = I.mkobj(R.cls("UnsafeBrownianPath"), {"evaluate": Native(ev, "evaluate")})
        self.drift = I.mkobj(R.cls("UnderdampedLangevinDriftTerm"), {"gamma": tree(self.gamma), "u": tree(self.u), "grad_f": self.gf})
        self.diff = I.mkobj(R.cls("UnderdampedLangevinDiffusionTerm"), {"gamma": tree(self.gamma), "u": tree(self.u), "control": bm})
        self.dir = const(1)
        d, b = self.drift, self.diff
        if wrap:
            self.dir = tm.sym("direction", ("choice", (-1, 1)))
            d = I.mkobj(R.cls("WrapTerm"), {"term": d, "direction": self.dir})
            b = I.mkobj(R.cls("WrapTerm"), {"term": b, "direction": self.dir})
        self.terms = I.mkobj(R.cls("MultiTerm"), {"terms": PyTuple([d, b])})
        self.h = self.dir * (self.t1 - self.t0)

    def fspec(self, x, args=None):
        """opaque grad_f: depends on all of x"""
        t = [z for l in x for z in l]
        return [O([app(f"gradf{i}_{j}", *t, self.args if args is None else args) for j in range(s)]) for i, s in enumerate(self.SIZES)]

    def f_model(self, I, a, k):
        x = [nd(I, v) for v in I.iterate(a[0])]
        self.fcalls.append(x)
        return PyTuple(self.fspec(x, I.to_term(a[1]) if len(a) > 1 else I.to_term(k.get("args", tm.NONE))))

    def call(self, m, *a):
        r = self.I.call(self.I.method(self.cls, m, self.o), list(a), {})
        self.ck.use(self.I)
        return r

    def symbolic_coeffs(self, tag):
        """coefficients object with symbolic entries: field -> tree of arrays; and spec lookup"""
        I = self.I
        es = FIELDS[self.nm]
        vals, spec = {}, {}
        for f, e in es.items():
            ls = []
            for i, s in enumerate(self.SIZES):
                if len(e) == 1 and self.nm != "QUICSORT": ls.append(O([tm.sym(f"{tag}.{f}{i}_{j}") for j in range(s)]))
                else:
                    a = np.empty((s, len(e)), dtype=object)
                    for j in range(s):
                        for q in range(len(e)): a[j, q] = tm.sym(f"{tag}.{f}{i}_{j}_{q}")
                    ls.append(a)
            vals[f] = ls
        o = I.mkobj(self.coefcls(), {**{f: PyTuple(v) for f, v in vals.items()}, "dtype": tm.sym("dtype")})
        return o, vals

    def coefcls(self):
        I = self.I
        r = I.call(I.method(self.cls, "_directly_compute_coeffs_leaf", self.o), [tm.sym("h_", "pos"), O([tm.sym("c_", "pos")])], {})
        return r.cls

    def taylor_syms(self):
        """symbolic Taylor data per gamma leaf"""
        I = self.I
        out, spec = [], []
        for i, s in enumerate(self.SIZES):
            f_, sp = {}, {}
            for f, e in FIELDS[self.nm].items():
                shp = (s, 6) if self.nm != "QUICSORT" else (s, len(e), 6)
                a = np.empty(shp, dtype=object)
                for ix in np.ndindex(shp): a[ix] = tm.sym(f"T.{f}{i}" + "_".join(map(str, ix)))
                f_[f] = a; sp[f] = a
            out.append(I.mkobj(self.coefcls(), {**f_, "dtype": tm.sym("dtype")}))
            spec.append(sp)
        return PyTuple(out), spec


def horner(a, h):
    s = a[0]
    for c in a[1:]: s = s * h + c
    return s


def selection(ck, nm):
    cls = ck.repo.cls(nm)
    w = at(ck.repo.cls("AbstractFosterLangevinSRK"), "_recompute_coeffs")
    def go():
        p = L(ck, nm); I = p.I
        tay, tsp = p.taylor_syms()
        h = tm.sym("h", "real")
        r = p.call("_recompute_coeffs", h, PyTuple(p.gamma), tay)
        its = []
        for f, es in FIELDS[nm].items():
            for i, s in enumerate(p.SIZES):
                got = I.iterate(I.getattr(r, f))[i]
                for j in range(s):
                    for q, e in enumerate(es):
                        g = got[j] if nm != "QUICSORT" else got[j, q]
                        ta = tsp[i][f][j] if nm != "QUICSORT" else tsp[i][f][j, q]
                        c = p.gamma[i][j]
                        small = tm.lt(app("abs", h * c), p.thr)
                        its.append((f"{nm}.select.{f}[{i},{j},{q}]", g, ite(small, horner(ta, h), exact(e, c, h))))
        ck.equal_many(its, w, "the coefficient is neither the series (for a small product of step and friction, in magnitude) nor the closed form (otherwise)", I=I, assume=tm.lnot(tm.eq(h, const(0))))
    ck.attempt(f"{nm}.select", go)


def contr(p):
    """control of the drift over [t0, t1] (wrapped terms: traversed backwards)"""
    return p.h


def init(ck, nm, wrap):
    w = at(ck.repo.cls("AbstractFosterLangevinSRK"), "init")
    tag = f"{nm}.init{'.wrapped' if wrap else ''}"
    def go():
        p = L(ck, nm, wrap); I = p.I
        rec = []
        orig = p.coefcls()
        def recompute(I, a, k):
            rec.append(a); return tm.sym("COEFFS")
        I.opaque = getattr(I, "opaque", {})
        p.o = I.mkobj(p.cls, {"taylor_threshold": p.thr, "_recompute_coeffs": Native(recompute, "_recompute_coeffs"),
                              "_tay_coeffs_single": Native(lambda I, a, k: app("TAY", I.to_term(a[0])), "_tay_coeffs_single")})
        st = p.call("init", p.terms, p.t0, p.t1, PyTuple([PyTuple(p.x0), PyTuple(p.v0)]), p.args)
        g = lambda f: I.getattr(st, f)
        its = []
        fl = lambda v: [z for x in I.iterate(v) for z in flat(I, nd(I, x))]
        for f, want in (("gamma", p.gamma), ("u", p.u), ("rho", [O([app("sqrt", const(2) * c * u) for c, u in zip(a, b)]) for a, b in zip(p.gamma, p.u)])):
            its += [(f"{tag}.{f}[{i}]", x, y) for i, (x, y) in enumerate(zip(fl(g(f)), [z for l in want for z in l]))]
        its.append((f"{tag}.h", I.to_term(g("h")), p.h))
        fsal = tm.truth(I.to_term(I.getattr(p.o, "_is_fsal")))
        if fsal: its += [(f"{tag}.force[{i}]", x, y) for i, (x, y) in enumerate(zip(fl(g("prev_f")), [z for l in p.fspec(p.x0) for z in l]))]
        tay = [I.to_term(x) for x in I.iterate(g("taylor_coeffs"))]
        its += [(f"{tag}.series[{i}]", x, app("TAY", I.to_term(p.gamma[i]))) for i, x in enumerate(tay)]
        its.append((f"{tag}.coeffs", I.to_term(g("coeffs")), tm.sym("COEFFS")))
        if len(rec) != 1: raise Unsupported(f"{len(rec)} coefficient evaluations")
        a = rec[0]
        its.append((f"{tag}.coeffs.h", I.to_term(a[0]), p.h))
        its += [(f"{tag}.coeffs.gamma[{i}]", x, y) for i, (x, y) in enumerate(zip(fl(a[1]), [z for l in p.gamma for z in l]))]
        its += [(f"{tag}.coeffs.series[{i}]", I.to_term(x), app("TAY", I.to_term(p.gamma[i]))) for i, x in enumerate(I.iterate(a[2]))]
        ck.equal_many(its, w, "initial state of the Langevin solver", I=I)
    ck.attempt(tag, go)


def step_spec(p, c, f0, h):
    """published step, one entry per leaf element; c[field] = list per leaf of arrays"""
    Z = lambda fn: [O([fn(i, j) for j in range(s)]) for i, s in enumerate(p.SIZES)]
    C = lambda f, q=None: (lambda i, j: c[f][i][j] if q is None else c[f][i][j, q])
    rho = lambda i, j: app("sym:rho", p.gamma[i][j]) if False else p.rho[i][j]
    x, v, u, W, H, K, g = [(lambda i, j, a=a: a[i][j]) for a in (p.x0, p.v0, p.u, p.W, p.H, p.K, p.gamma)]
    F0 = (lambda i, j: f0[i][j]) if f0 is not None else None
    if p.nm == "ALIGN":
        b, a, be, aa, ch = C("b1"), C("a1"), C("beta"), C("aa"), C("chh")
        x1 = Z(lambda i, j: x(i, j) + a(i, j) * v(i, j) - b(i, j) * u(i, j) * h * F0(i, j) + rho(i, j) * (b(i, j) * W(i, j) + ch(i, j) * H(i, j)))
        f1 = p.fspec(x1)
        v1 = Z(lambda i, j: be(i, j) * v(i, j) - u(i, j) * ((a(i, j) - b(i, j)) * F0(i, j) + b(i, j) * f1[i][j]) + rho(i, j) * (aa(i, j) * W(i, j) - g(i, j) * ch(i, j) * H(i, j)))
        err = (Z(lambda i, j: const(0)), Z(lambda i, j: -u(i, j) * b(i, j) * (f1[i][j] - F0(i, j))))
        return x1, v1, f1, err
    if p.nm == "ShOULD":
        vt = Z(lambda i, j: v(i, j) + rho(i, j) * (H(i, j) + 6 * K(i, j)))
        wk = Z(lambda i, j: rho(i, j) * (W(i, j) - 12 * K(i, j)))
        ah, bh, bth, a, b, be, aa, ch, ckk = [C(n) for n in ("a_half", "b_half", "beta_half", "a1", "b1", "beta1", "aa", "chh", "ckk")]
        x1 = Z(lambda i, j: x(i, j) + ah(i, j) * vt[i][j] + bh(i, j) * (wk[i][j] - u(i, j) * h * F0(i, j)))
        f1 = p.fspec(x1)
        noise = lambda i, j: ch(i, j) * H(i, j) + ckk(i, j) * K(i, j)
        x2 = Z(lambda i, j: x(i, j) + a(i, j) * v(i, j) - u(i, j) * h * b(i, j) * (F0(i, j) + 2 * f1[i][j]) / 3 + rho(i, j) * (b(i, j) * W(i, j) + noise(i, j)))
        f2 = p.fspec(x2)
        v2 = Z(lambda i, j: be(i, j) * v(i, j) - u(i, j) * h * (be(i, j) * F0(i, j) + 4 * bth(i, j) * f1[i][j] + f2[i][j]) / 6 + rho(i, j) * (aa(i, j) * W(i, j) - g(i, j) * noise(i, j)))
        return x2, v2, f2, None
    al, ar, a1 = [C("a_lr1", q) for q in range(3)]
    bl, br, b1 = [C("b_lr1", q) for q in range(3)]
    tl, tr, t1 = [C("beta_lr1", q) for q in range(3)]
    a3, ad = C("a_third", 0), C("a_div_h", 0)
    vt = Z(lambda i, j: v(i, j) + rho(i, j) * (H(i, j) + 6 * K(i, j)))
    wk = Z(lambda i, j: rho(i, j) * (W(i, j) - 12 * K(i, j)))
    x1 = Z(lambda i, j: x(i, j) + al(i, j) * vt[i][j] + bl(i, j) * wk[i][j])
    f1 = p.fspec(x1)
    x2 = Z(lambda i, j: x(i, j) + ar(i, j) * vt[i][j] + br(i, j) * wk[i][j] - a3(i, j) * u(i, j) * h * f1[i][j])
    f2 = p.fspec(x2)
    xo = Z(lambda i, j: x(i, j) + a1(i, j) * vt[i][j] + b1(i, j) * wk[i][j] - u(i, j) * h * (ar(i, j) * f1[i][j] + al(i, j) * f2[i][j]) / 2)
    vo = Z(lambda i, j: t1(i, j) * vt[i][j] - u(i, j) * h * (tr(i, j) * f1[i][j] + tl(i, j) * f2[i][j]) / 2 + ad(i, j) * wk[i][j] - rho(i, j) * (H(i, j) - 6 * K(i, j)))
    return xo, vo, None, None


def step(ck, nm, jump, close, wrap=False):
    w = at(ck.repo.cls(nm), "_compute_step")
    wb = at(ck.repo.cls("AbstractFosterLangevinSRK"), "step")
    tag = f"{nm}.step.{'jump' if jump is True else 'nojump' if jump is False else 'maybe'}.{'same-h' if close else 'new-h'}"
    def go():
        p = L(ck, nm, wrap); I = p.I
        old, oldv = p.symbolic_coeffs("old")
        new, newv = p.symbolic_coeffs("new")
        rec = []
        near = tm.sym("same_step_length", "bool")
        hyp = None if close else tm.lnot(near)   # (other batch elements may be close)
        if close: I.batched = False               # (either set of coefficients will do)
        def recompute(I, a, k): rec.append(a); return new
        cc = I.user_models["jax.numpy.isclose"]
        def isclose(I, a, k):
            cc(I, a, k)
            its = {I.to_term(a[0]).uid, I.to_term(a[1]).uid}
            p.compared = (I.to_term(a[0]), I.to_term(a[1]))
            return tm.TRUE if close else near
        I.user_models["jax.numpy.isclose"] = isclose
        p.o = I.mkobj(p.cls, {"taylor_threshold": p.thr, "_recompute_coeffs": Native(recompute, "_recompute_coeffs")})
        p.rho = [O([tm.sym(f"rho{i}_{j}") for j in range(s)]) for i, s in enumerate(p.SIZES)]
        F = [O([tm.sym(f"prevf{i}_{j}") for j in range(s)]) for i, s in enumerate(p.SIZES)]
        fsal = tm.truth(I.to_term(I.getattr(p.o, "_is_fsal")))
        hp = tm.sym("h_prev", "real")
        mj = const(jump) if isinstance(jump, bool) else tm.sym("made_jump", "bool")
        # the stored force is that at the current position, except after a jump
        F = [O([ite(mj, a, b) for a, b in zip(x, z)]) for x, z in zip(F, p.fspec(p.x0))]
        st = I.mkobj(ck.repo.cls("SolverState"), dict(gamma=PyTuple(p.gamma), u=PyTuple(p.u), h=hp, taylor_coeffs=tm.sym("TAYS"), coeffs=old, rho=PyTuple(p.rho), prev_f=PyTuple(F) if fsal else tm.NONE))
        r = p.call("step", p.terms, p.t0, p.t1, PyTuple([PyTuple(p.x0), PyTuple(p.v0)]), p.args, st, mj)
        y1, err, dense, st1, res = I.iterate(r)
        fl = lambda v: [z for x in I.iterate(v) for z in flat(I, nd(I, x))]
        sp = lambda v: [z for l in v for z in l]
        c = oldv if close else newv
        F0 = None
        if fsal:
            fr = p.fspec(p.x0)
            F0 = fr
        xo, vo, f1, e = step_spec(p, c, F0, p.h)
        its = [(f"{tag}.x[{i}]", a, b) for i, (a, b) in enumerate(zip(fl(I.iterate(y1)[0]), sp(xo)))]
        its += [(f"{tag}.v[{i}]", a, b) for i, (a, b) in enumerate(zip(fl(I.iterate(y1)[1]), sp(vo)))]
        if e is not None:
            ex, ev = I.iterate(err)
            its += [(f"{tag}.error.x[{i}]", a, b) for i, (a, b) in enumerate(zip(fl(ex), sp(e[0])))]
            its += [(f"{tag}.error.v[{i}]", a, b) for i, (a, b) in enumerate(zip(fl(ev), sp(e[1])))]
        else: its.append((f"{tag}.error", I.to_term(err), tm.NONE))
        ck.equal_many(its, w, "the step does not combine position, velocity, force and noise as published", I=I, assume=hyp)
        its = []
        g = lambda f: I.getattr(st1, f)
        if fsal: its += [(f"{tag}.state.force[{i}]", a, b) for i, (a, b) in enumerate(zip(fl(g("prev_f")), sp(f1)))]
        for f in ("gamma", "u", "rho"): its += [(f"{tag}.state.{f}[{i}]", a, b) for i, (a, b) in enumerate(zip(fl(g(f)), sp(getattr(p, f))))]
        cc_ = g("coeffs")
        for f in FIELDS[nm]: its += [(f"{tag}.state.{f}[{i}]", a, b) for i, (a, b) in enumerate(zip(fl(I.getattr(cc_, f)), [z for x in c[f] for z in x.reshape(-1)]))]
        its.append((f"{tag}.state.series", I.to_term(g("taylor_coeffs")), tm.sym("TAYS")))
        if not close: its.append((f"{tag}.state.h", I.to_term(g("h")), p.h))
        its.append((f"{tag}.compared", tm.lor(tm.land(tm.eq(p.compared[0], hp), tm.eq(p.compared[1], p.h)), tm.land(tm.eq(p.compared[1], hp), tm.eq(p.compared[0], p.h))), tm.TRUE))
        if not close:
            if not rec: raise Unsupported("coefficients not recomputed")
            for a in rec:
                its.append((f"{tag}.recompute.h", I.to_term(a[0]), p.h))
                its += [(f"{tag}.recompute.gamma[{i}]", x, y) for i, (x, y) in enumerate(zip(fl(a[1]), sp(p.gamma)))]
                its.append((f"{tag}.recompute.series", I.to_term(a[2]), tm.sym("TAYS")))
        for i, (a, b, lv) in enumerate(p.evs):
            its += [(f"{tag}.noise.t0[{i}]", a, p.t0), (f"{tag}.noise.t1[{i}]", b, p.t1)]
        d = dense
        its += [(f"{tag}.dense.{k}.{n}[{i}]", a, b) for k, want in (("y0", (p.x0, p.v0)), ("y1", (xo, vo))) for n, part, sw in zip("xv", I.iterate(I.subscript(d, const(k))), want) for i, (a, b) in enumerate(zip(fl(part), sp(sw)))]
        its.append((f"{tag}.result", I.to_term(res), I.to_term(I.getattr(ck.repo.cls("RESULTS"), "successful"))))
        ck.equal_many(its, wb, "state, noise or dense output of a Langevin step", I=I, assume=hyp)
        # tolerance of "the step size has not changed"
        for n, v, lim in zip(("rtol", "atol"), I.close, (Fraction(1, 10 ** 5), Fraction(1, 10 ** 8))):
            x = Fraction(1, 10 ** 5) if v is None and n == "rtol" else Fraction(1, 10 ** 8) if v is None else tm._num(I.to_term(v))
            if x is None: ck.undecided(f"{tag}.close.{n}", "tolerance is not constant")
            else: ck.require(f"{tag}.close.{n}", x <= lim, wb, f"coefficients of another step size are reused: {n}={x}")
    ck.attempt(tag, go)


def run(ck):
    self_check(ck)
    solvers = sorted(c.name for c in ck.repo.classes.values() if c.issub(ck.repo.cls("AbstractFosterLangevinSRK")) and c.name != "AbstractFosterLangevinSRK")
    for nm in solvers:
        if nm not in FIELDS: ck.undecided(f"{nm}", "unknown Langevin solver"); continue
        coefficient_functions(ck, nm)
        threshold(ck, nm)
        selection(ck, nm)
        for wrap in (False, True): init(ck, nm, wrap)
        for jump in (True, False, None):
            for close in (True, False): step(ck, nm, jump, close)
