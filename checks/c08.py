"""C08: exact joint law of the virtual Brownian tree and of the unsafe Brownian path."""
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, lst
from sa.deriv import deriv
from sa.interp import Unsupported
import numpy as np
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of the tree recursion (inductive step over a symbolic node) and exact covariance algebra of the extracted linear maps"
EXPLANATION = ("For every choice of Lévy area the initial node, one symbolic refinement step and the final interpolation are abstractly interpreted; "
               "the values they produce are linear maps of the coarser values and of independent normals, whose joint covariance must be that of Brownian "
               "motion and its time integrals on the two adjacent sub-intervals, and which must combine by Chen's relation. By induction over the levels the law is exact everywhere.")
ASSUMPTIONS = ["jax.random draws with distinct keys are independent standard normals (key discipline: C09)",
               "real arithmetic; the rounding guards at query times within machine epsilon of the start are not modelled",
               "array leaves abstracted as scalars (each array element is drawn independently)"]
FLOOR = 60
AREAS = ["BrownianIncrement", "SpaceTimeLevyArea", "SpaceTimeTimeLevyArea"]
VAR = [const(1), const(1) / 12, const(1) / 720]


# ------------------------------------------------------------ specification: W and time integrals of Brownian motion
def moments(x, h):
    """(W, H, K) on an interval of length h -> integrals of W_{s,u} and (u - s) W_{s,u}"""
    x = list(x) + [tm.ZERO] * (3 - len(x))
    W, H, K = x
    return [W, h * (W / 2 + H), h * h * (W / 3 + H / 2 - K)]


def areas(m, h, n):
    W = m[0]; H = m[1] / h - W / 2
    return [W, H, W / 3 + H / 2 - m[2] / (h * h)][:n]


def chen(x, a, y, b):
    p, q = moments(x, a), moments(y, b)
    W1 = p[0]
    m = [W1 + q[0], p[1] + b * W1 + q[1], p[2] + W1 * ((a + b) * (a + b) - a * a) / 2 + a * q[1] + q[2]]
    return areas(m, a + b, len(x))


def chen_diff(x, a, z, b):
    """y with chen(x, a, y, b) = z (z on length a + b)"""
    p, m = moments(x, a), moments(z, a + b)
    q1 = m[1] - p[1] - b * p[0]
    q = [m[0] - p[0], q1, m[2] - p[2] - p[0] * ((a + b) * (a + b) - a * a) / 2 - a * q1]
    return areas(q, b, len(x))


EPS = const(1) / (1 << 60)


def noeps(t):
    """machine epsilon is a tiny constant"""
    m = {}
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        if x.op == "app" and "finfo" in repr(x.data) + "".join(repr(a.data) for a in x.args if a.op == "app") and x.data != "finfo": m[x] = EPS
        else: st.extend(x.args)
    return tm.subst(t, m) if m else t


class Node:
    """symbolic tree node: interval [s, s + su], values at s and over the interval"""
    def __init__(self, n):
        self.n = n
        self.level, self.s = tm.sym("level", "nat"), tm.sym("s", "pos")
        self.su = tm.power(const(2), -self.level)
        self.S = [tm.sym(f"S{i}") for i in range(n)]          # (W, H, K) over [0, s]
        self.X = [tm.sym(f"X{i}") for i in range(n)]          # (W, H, K) over [s, u]
        self.U = chen(self.S, self.s, self.X, self.su)
        self.key = tm.sym("node_key")

    def fields(self):
        """as stored: W, length * H, length**2 * K"""
        u = self.s + self.su
        tri = [(self.S[i] * self.s ** i if i else self.S[i], self.U[i] * u ** i if i else self.U[i], self.X[i] * self.su ** i if i else self.X[i]) for i in range(self.n)]
        tri = [PyTuple(list(x)) for x in tri] + [tm.NONE] * (3 - self.n)
        return {"level": self.level, "s": self.s, "w_s_u_su": tri[0], "key": self.key, "bhh_s_u_su": tri[1], "bkk_s_u_su": tri[2]}


class Tree:
    def __init__(self, ck, area, T0=tm.ZERO, T1=tm.ONE, leaves=1, spline="sqrt"):
        self.ck = ck
        I = self.I = ck.interp()
        I.scalar_leaves = True
        self.cls = ck.repo.cls("VirtualBrownianTree")
        self.area = ck.repo.cls(area)
        self.n = AREAS.index(area) + 1
        self.Z, self.mv, self.whiles = {}, [], []
        self.tol = tm.sym("tol", "pos")
        sds = lambda i: app("sds", app("tuple"), tm.sym(f"dtype{i}"))
        shape = sds(0) if leaves == 1 else PyTuple([sds(i) for i in range(leaves)])
        self.keys = [tm.sym(f"key{i}") for i in range(leaves)]
        key = self.keys[0] if leaves == 1 else PyTuple(self.keys)
        self.obj = I.mkobj(self.cls, {"t0": T0, "t1": T1, "tol": self.tol, "shape": shape, "levy_area": self.area, "key": key, "_spline": const(spline)})
        I.user_models["jax.random.normal"] = self.normal
        I.user_models["jax.random.multivariate_normal"] = self.mvn
        I.user_models["jax.numpy.split"] = lambda I, a, k: I.mklist(list(self.vec(a[0])))
        I.while_hook = self.hook
        self.final = None

    def vec(self, v):
        if isinstance(v, np.ndarray): return list(v)
        raise Unsupported("jnp.split of a non-vector")

    def normal(self, I, a, k):
        kk = dict(zip(["key", "shape", "dtype"], a)); kk.update(k)
        key = I.to_term(kk["key"])
        return self.Z.setdefault(key, tm.sym(f"Z{len(self.Z)}"))

    def mvn(self, I, a, k):
        kk = dict(zip(["key", "mean", "cov", "shape", "dtype", "method"], a)); kk.update(k)
        cov = kk["cov"]
        if not isinstance(cov, np.ndarray): cov = np.array([[I.to_term(y) for y in I.iterate(x)] for x in I.iterate(cov)], dtype=object)
        j = len(self.mv)
        xs = [tm.sym(f"M{j}.{i}") for i in range(cov.shape[0])]
        self.mv.append((I.to_term(kk["key"]), xs, [I.to_term(x) for x in np.ravel(np.array(kk["mean"], dtype=object))], cov))
        out = np.empty((len(xs),), dtype=object)
        mean = self.mv[-1][2]
        for i, x in enumerate(xs): out[i] = x + mean[i]
        return out

    def hook(self, I, cond, body, init, kk):
        i = len(self.whiles)
        self.whiles.append((cond, body, init))
        return self.final(I, init, i)

    def evaluate(self, *a, **k):
        r = self.I.call(self.I.method(self.cls, "evaluate", self.obj), list(a), {"use_levy": tm.TRUE, **k})
        self.ck.use(self.I)
        return r

    # joint covariance of linear expressions of independent sources
    def cov(self, xs, base):
        """base: list of (symbol, variance).  Returns matrix and the part of xs not explained by the sources."""
        src = list(base) + [(z, tm.ONE) for z in self.Z.values()]
        J = [[deriv(x, v) for v, _ in src] for x in xs]
        M = [[deriv(x, v) for _, ms, _, _ in self.mv for v in ms] for x in xs]
        C = [[tm.ZERO] * len(xs) for _ in xs]
        for i in range(len(xs)):
            for j in range(i + 1):
                c = tm.ZERO
                for q, (v, var) in enumerate(src): c = c + J[i][q] * J[j][q] * var
                o = 0
                for _, ms, _, cv in self.mv:
                    for a in range(len(ms)):
                        for b in range(len(ms)): c = c + M[i][o + a] * M[j][o + b] * self.I.to_term(cv[a][b])
                    o += len(ms)
                C[i][j] = C[j][i] = c
        zero = {v: tm.ZERO for v, _ in src}
        zero.update({v: tm.ZERO for _, ms, _, _ in self.mv for v in ms})
        rest = [tm.subst(x, zero) for x in xs]
        return C, rest


NAMES = ["W", "H", "K"]


def getl(I, v, n):
    return [noeps(I.to_term(I.getattr(v, x))) for x in NAMES[:n]]


def joint(ck, tr, pre, where, first, second, la, lb, base, doms=None):
    """(first, second) must have the joint law of Brownian motion on adjacent intervals of length la, lb"""
    n = len(first)
    xs = list(first) + list(second)
    C, rest = tr.cov(xs, base)
    lab = [f"{NAMES[i]}.first" for i in range(n)] + [f"{NAMES[i]}.second" for i in range(n)]
    for i in range(2 * n):
        ck.equal(f"{pre}.unbiased[{lab[i]}]", where, rest[i], tm.ZERO, what="has a mean that is not determined by the values already fixed", doms=doms, n=40)
        for j in range(i + 1):
            h = la if i < n else lb
            ck.equal(f"{pre}.cov[{lab[i]},{lab[j]}]", where, C[i][j], VAR[i % n] * h if i == j else tm.ZERO,
                     what="the sampled values do not have the joint covariance of Brownian motion on the two sub-intervals", doms=doms, n=40)


def initial(ck, area):
    tr = Tree(ck, area); I = tr.I
    box = {}
    def final(I, init, i):
        box["init"] = init
        return init
    tr.final = final
    tr.evaluate(tm.sym("t", "pos"))
    w = at(tr.cls, "_evaluate_leaf")
    st = box["init"]; n = tr.n; p = f"{area}.root"
    g = lambda x: I.getattr(st, x)
    ck.equal(p + ".level", w, g("level"), tm.ZERO, I=I)
    ck.equal(p + ".start", w, g("s"), tm.ZERO, I=I)
    X = []
    for i, f in enumerate(["w_s_u_su", "bhh_s_u_su", "bkk_s_u_su"][:n]):
        a, b, c = [I.to_term(x) for x in I.unpack(g(f), 3)]
        ck.equal(f"{p}.at-start[{NAMES[i]}]", w, a, tm.ZERO, what="path value at the start of the interval is not zero", I=I)
        ck.equal(f"{p}.at-end[{NAMES[i]}]", w, b, c, what="value at the end of the root interval is not the increment over it", I=I)
        X.append(c)
    # only the draws made before the loop matter
    C, rest = tr.cov(X, [])
    for i in range(n):
        for j in range(i + 1):
            ck.equal(f"{p}.cov[{NAMES[i]},{NAMES[j]}]", w, C[i][j], VAR[i] if i == j else tm.ZERO,
                     what="the root values do not have the covariance of Brownian motion on the unit interval", I=I)
        ck.equal(f"{p}.unbiased[{NAMES[i]}]", w, rest[i], tm.ZERO, I=I)


def split_cond(t, r, assume, seen):
    """replace boolean subterms that mention r by their value under `assume`"""
    m = {}
    st = [t]; vis = set()
    while st:
        x = st.pop()
        if x.uid in vis: continue
        vis.add(x.uid)
        if x.op in ("lt", "le", "eq", "not", "and", "or") and tm.contains(x, lambda y: y is r):
            k = seen.get(x)
            if k is None:
                if tm.same(x, tm.TRUE, assume=assume, n=200): k = tm.TRUE
                elif tm.same(x, tm.FALSE, assume=assume, n=200): k = tm.FALSE
                else: k = x
                seen[x] = k
            if k is not x: m[x] = k; continue
        st.extend(x.args)
    return tm.subst(t, m) if m else t


def refine(ck, area):
    tr = Tree(ck, area); I = tr.I; n = tr.n
    nd = Node(n)
    r = tm.sym("r", "pos")
    box = {}
    def final(I, init, i):
        st = I.mkobj(init.cls, nd.fields())
        cond, body, _ = tr.whiles[-1]
        tr.Z.clear()
        box["cond"] = I.truthy(I.call(cond, [st], {}))
        box["out"] = I.call(body, [st], {})
        box["Z"] = dict(tr.Z)
        return st
    tr.final = final
    tr.evaluate(r)
    tr.Z = box["Z"]; tr.mv = []
    w = at(tr.cls, "_brownian_arch") if tr.cls.lookup("_brownian_arch") else at(tr.cls, "_evaluate_leaf")
    p = f"{area}.refine"
    out = box["out"]
    near = {tr.tol: nd.su * tm.sym("x", ("choice", (const(0.5), const(0.75), const(1), const(1.25), const(3))))}
    ck.equal(p + ".until-tolerance", w, tm.subst(I.to_term(box["cond"]), near), tm.subst(tm.lt(tr.tol, nd.su), near), what="the interval is not refined until it is no longer than the tolerance", I=I)
    ck.equal(p + ".level", w, I.getattr(out, "level"), nd.level + 1, I=I)
    mid = nd.s + nd.su / 2
    vals = {}
    for side, asm in (("left", tm.lt(r, mid)), ("right", tm.lt(mid, r))):
        seen = {}
        start = noeps(I.to_term(I.getattr(out, "s")))
        ck.equal(f"{p}.{side}.interval", w, start, nd.s if side == "left" else mid, assume=asm,
                 what="descends into a half that does not contain the query time", I=I)
        tri = []
        for i, f in enumerate(["w_s_u_su", "bhh_s_u_su", "bkk_s_u_su"][:n]):
            tri.append([split_cond(noeps(I.to_term(x)), r, asm, seen) for x in I.unpack(I.getattr(out, f), 3)])
        vals[side] = tri
    half = nd.su / 2
    stv = [vals["left"][i][2] / (half ** i if i else tm.ONE) for i in range(n)]
    tuv = [vals["right"][i][2] / (half ** i if i else tm.ONE) for i in range(n)]
    joint(ck, tr, p, w, stv, tuv, half, half, [(nd.X[i], VAR[i] * nd.su) for i in range(n)])
    back = chen(stv, half, tuv, half)
    T = chen(nd.S, nd.s, stv, half)
    sc = lambda v, h: [v[i] * (h ** i if i else tm.ONE) for i in range(n)]
    S, U, M = sc(nd.S, nd.s), sc(nd.U, nd.s + nd.su), sc(T, mid)
    for i in range(n):
        ck.equal(f"{p}.halves-combine[{NAMES[i]}]", w, back[i], nd.X[i], what="the two halves do not combine to the value of the whole interval", I=I, n=40)
        ck.equal(f"{p}.left.at-start[{NAMES[i]}]", w, vals["left"][i][0], S[i], what="value at the start of the left half changed", I=I)
        ck.equal(f"{p}.left.at-end[{NAMES[i]}]", w, vals["left"][i][1], M[i], what="value at the midpoint is not start value and left increment combined by Chen's relation", I=I, n=40)
        ck.equal(f"{p}.right.at-start[{NAMES[i]}]", w, vals["right"][i][0], M[i], what="value at the midpoint is not start value and left increment combined by Chen's relation", I=I, n=40)
        ck.equal(f"{p}.right.at-end[{NAMES[i]}]", w, vals["right"][i][1], U[i], what="value at the end of the right half changed", I=I)


def leaf(ck, area):
    tr = Tree(ck, area); I = tr.I; n = tr.n
    nd = Node(n)
    a, b = tm.sym("a", "pos"), tm.sym("b", "pos")
    la, lb = nd.su * a / (a + b), nd.su * b / (a + b)
    r = nd.s + la
    def final(I, init, i):
        tr.Z.clear(); tr.mv.clear()
        return I.mkobj(init.cls, nd.fields())
    tr.final = final
    out = tr.evaluate(r)
    w = at(tr.cls, "_evaluate_leaf"); p = f"{area}.leaf"
    ck.equal(p + ".dt", w, I.getattr(out, "dt"), r, what="reported elapsed time is not the query time", I=I)
    R = getl(I, out, n)
    ck.require(p + ".zero-mean-noise", all(all(tm.same(m, tm.ZERO) for m in mean) for _, _, mean, _ in tr.mv), w, "noise with non-zero mean")
    sr = chen_diff(nd.S, nd.s, R, la)
    ru = chen_diff(sr, la, nd.X, lb)
    joint(ck, tr, p, w, sr, ru, la, lb, [(nd.X[i], VAR[i] * nd.su) for i in range(n)])


def rescale(ck, area, leaves):
    """evaluate on [T0, T0 + L] against evaluate on [0, 1]; increments against Chen's relation"""
    p = f"{area}.evaluate{leaves}"
    T0, L = tm.sym("T0"), tm.sym("L", "pos")
    def mk(T0, T1):
        tr = Tree(ck, area, T0, T1, leaves)
        n = tr.n
        def final(I, init, i):
            nd = Node(n)
            f = nd.fields()
            # the node reached is a function of the leaf's key and of the query time
            key = I.to_term(I.getattr(init, "key"))
            sub = {x: app("node." + x.data[0], key, cur["r"]) for x in [nd.s, nd.level, nd.key] + nd.S + nd.X}
            go = lambda v: PyTuple([tm.subst(x, sub) for x in v.items]) if isinstance(v, PyTuple) else tm.subst(v, sub)
            return I.mkobj(init.cls, {k: go(v) for k, v in f.items()})
        cur = {"r": None}
        tr.final = final; tr.cur = cur
        orig = tr.normal
        # draws are functions of their key alone
        tr.I.user_models["jax.random.normal"] = lambda I, a, k: app("normal", I.to_term(a[0] if a else k["key"]))
        def mvn(I, a, k):
            kk = dict(zip(["key", "mean", "cov", "shape", "dtype", "method"], a)); kk.update(k)
            out = np.empty((3,), dtype=object)
            for i in range(3): out[i] = app("mvn", I.to_term(kk["key"]), I.to_term(kk["cov"]), const(i))
            return out
        tr.I.user_models["jax.random.multivariate_normal"] = mvn
        # which query time is being evaluated
        ev = tr.I.method(tr.cls, "_evaluate", tr.obj)
        return tr
    w = at(ck.repo.cls("VirtualBrownianTree"), "evaluate")
    t, u = tm.sym("ta", "pos"), tm.sym("tb", "pos")
    def ev(tr, t0, t1=None, unit=None):
        I = tr.I
        # order of evaluation: t0's leaves first, then t1's
        seq = []
        def hook(I, cond, body, init, kk):
            i = len(seq); seq.append(1)
            tr.cur["r"] = unit[0] if i < leaves else unit[1]
            return tr.final(I, init, i)
        I.while_hook = hook
        return tr.evaluate(*([t0] if t1 is None else [t0, t1]))
    ra, rb = t, t + u
    general, unit = mk(T0, T0 + L), mk(tm.ZERO, tm.ONE)
    n = general.n
    A = ev(general, T0 + L * ra, unit=(ra,)); B = ev(unit, ra, unit=(ra,))
    B2 = ev(unit, rb, unit=(rb,))
    D = ev(general, T0 + L * ra, T0 + L * rb, unit=(ra, rb))
    I = unit.I
    for nm, o in (("value", A), ("increment", D)):
        cls = getattr(o, "cls", None)
        ck.require(f"{p}.{nm}.type", cls is general.area, w, "does not return the requested kind of Lévy area")
    for j in range(leaves):
        pick = lambda I, v: noeps(I.to_term(v if leaves == 1 else I.subscript(v, const(j))))
        ga = {x: pick(general.I, general.I.getattr(A, x)) for x in ["dt"] + NAMES[:n]}
        gb = {x: pick(unit.I, unit.I.getattr(B, x)) for x in ["dt"] + NAMES[:n]}
        gc = {x: pick(unit.I, unit.I.getattr(B2, x)) for x in ["dt"] + NAMES[:n]}
        gd = {x: pick(general.I, general.I.getattr(D, x)) for x in ["dt"] + NAMES[:n]}
        ck.equal(f"{p}.value.dt[{j}]", w, ga["dt"], L * ra, what="elapsed time is not scaled by the length of the interval", I=I)
        ck.equal(f"{p}.increment.dt[{j}]", w, gd["dt"], L * u, what="elapsed time is not scaled by the length of the interval", I=I)
        rt = app("sqrt", L)
        inc = chen_diff([gb[x] for x in NAMES[:n]], ra, [gc[x] for x in NAMES[:n]], u)
        for i, x in enumerate(NAMES[:n]):
            ck.equal(f"{p}.value.{x}[{j}]", w, ga[x], rt * gb[x], what="noise is not scaled by the square root of the length of the interval", I=I, n=40)
            ck.equal(f"{p}.increment.{x}[{j}]", w, gd[x], rt * inc[i], what="the increment is not the difference of the two values by Chen's relation", I=I, n=40)


def unsafe(ck, area):
    I = ck.interp(); I.scalar_leaves = True
    cls = ck.repo.cls("UnsafeBrownianPath"); n = AREAS.index(area) + 1
    Z = {}
    def normal(I, a, k):
        kk = dict(zip(["key", "shape", "dtype"], a)); kk.update(k)
        return Z.setdefault(I.to_term(kk["key"]), tm.sym(f"Z{len(Z)}"))
    I.user_models["jax.random.normal"] = normal
    sds = lambda i: app("sds", app("tuple"), tm.sym(f"dtype{i}"))
    o = I.mkobj(cls, {"shape": PyTuple([sds(0), sds(1)]), "levy_area": ck.repo.cls(area), "key": tm.sym("key")})
    t0, d = tm.sym("t0"), tm.sym("d", "pos")
    w = at(cls, "evaluate")
    for nm, args, lev, h in (("increment", [t0, t0 + d], True, d), ("value", [d], True, d), ("W-only", [t0, t0 + d], False, d)):
        Z.clear()
        r = I.call(I.method(cls, "evaluate", o), args, {"use_levy": const(lev)})
        ck.use(I)
        xs = []
        if lev:
            for x in NAMES[:n]: xs += [I.to_term(I.subscript(I.getattr(r, x), const(j))) for j in range(2)]
            for j in range(2): ck.equal(f"Unsafe.{area}.{nm}.dt[{j}]", w, I.subscript(I.getattr(r, "dt"), const(j)), h, what="reported elapsed time is wrong", I=I)
            ck.require(f"Unsafe.{area}.{nm}.type", getattr(r, "cls", None) is ck.repo.cls(area), w, "does not return the requested kind of Lévy area")
        else: xs = lst(I, r, 2)
        zs = list(Z.values())
        J = [[deriv(x, z) for z in zs] for x in xs]
        for i in range(len(xs)):
            ck.equal(f"Unsafe.{area}.{nm}.unbiased[{i}]", w, tm.subst(xs[i], {z: tm.ZERO for z in zs}), tm.ZERO, I=I)
            for j in range(i + 1):
                c = tm.ZERO
                for q in range(len(zs)): c = c + J[i][q] * J[j][q]
                ck.equal(f"Unsafe.{area}.{nm}.cov[{i},{j}]", w, c, VAR[i // 2] * h if i == j else tm.ZERO,
                         what="sampled increments do not have the covariance of Brownian motion", I=I, n=40)


def constructor(ck):
    I = ck.interp(); cls = ck.repo.cls("VirtualBrownianTree")
    t0, t1, tol = tm.sym("t0"), tm.sym("t1"), tm.sym("tol", "pos")
    o = I.construct(cls, [t0, t1, tol, app("sds", app("tuple"), tm.sym("dt")), tm.sym("key")], {})
    ck.use(I)
    w = at(cls, "__init__")
    ck.equal("tree.init.tol", w, I.getattr(o, "tol"), tol / (t1 - t0), what="tolerance is not rescaled to the unit interval", I=I)
    ck.equal("tree.init.t0", w, I.getattr(o, "t0"), t0, I=I)
    ck.equal("tree.init.t1", w, I.getattr(o, "t1"), t1, I=I)
    ck.require("tree.init.levy_area", I.getattr(o, "levy_area") is ck.repo.cls("BrownianIncrement"), w, "default Lévy area is not the increment")
    ck.equal("tree.init.spline", w, I.getattr(o, "_spline"), const("sqrt"), what="the default interpolation inside the final interval is not the exact one", I=I)


def run(ck):
    ck.attempt("init", lambda: constructor(ck))
    for a in AREAS:
        ck.attempt(a + ".root", lambda: initial(ck, a))
        ck.attempt(a + ".refine", lambda: refine(ck, a))
        ck.attempt(a + ".leaf", lambda: leaf(ck, a))
        for n in (1, 2): ck.attempt(f"{a}.evaluate{n}", lambda: rescale(ck, a, n))
        ck.attempt("Unsafe." + a, lambda: unsafe(ck, a))
