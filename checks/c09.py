"""C09: reproducibility, additivity and key discipline of Brownian paths."""
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, lst
from sa.interp import Unsupported
import numpy as np
from checks.c08 import AREAS, NAMES, Tree, Node, split_cond, noeps, chen, chen_diff
LEVEL = "dataflow"
TECHNIQUE = "linearity (use-once) dataflow analysis of random keys over the value graph, plus value numbering for additivity and range guards"
EXPLANATION = ("Every jax.random.split / fold_in / draw reached from the Brownian paths is collected with the key term it consumes, for the root, one symbolic "
               "tree node, both of its children and the final interpolation. No key may be consumed twice, the two children's keys differ from each other and from every "
               "key consumed above them, and leaves of structured shapes get distinct keys. Increments are compared with differences of values, and range guards are extracted.")
ASSUMPTIONS = ["jax.random.split and fold_in derive independent keys", "keys are compared as terms: two distinct derivations are distinct keys"]
FLOOR = 45


def consumed(I, n0=0):
    out = []
    for c in I.calls[n0:]:
        if c[0] in ("random.split", "random.draw", "random.fold_in"): out.append((c[0], c[1][0] if isinstance(c[1], (tuple, list)) else c[1], c))
    return out


def descends(k, a):
    """k derived from a"""
    return tm.contains(k, lambda x: x is a)


def linear(ck, name, where, events, extra=()):
    """no key consumed twice (fold_in with different data is the one exception)"""
    seen = {}
    bad = None
    for kind, key, c in events:
        tag = (key,) if kind != "random.fold_in" else (key, c)
        if kind == "random.fold_in": continue
        if key in seen: bad = (kind, seen[key], key)
        seen[key] = kind
    ck.require(name + ".keys-consumed-once", bad is None, where, f"random key consumed twice: {bad and tm.show(bad[2])} ({bad and bad[1]} then {bad and bad[0]})")
    return set(seen)


def fresh(ck, area, leaves=1, T0=tm.ZERO, T1=tm.ONE):
    tr = Tree(ck, area, T0, T1, leaves)
    tr.I.user_models.pop("jax.random.normal"); tr.I.user_models.pop("jax.random.multivariate_normal")
    base = tr.I.models.get("jax.random.multivariate_normal") if hasattr(tr.I, "models") else None
    from sa import models as M
    def mvn(I, a, k):
        M.MODELS["jax.random.multivariate_normal"](I, a, k)
        kk = dict(zip(["key", "mean", "cov"], a)); kk.update(k)
        out = np.empty((3,), dtype=object)
        for i in range(3): out[i] = app("mvn", I.to_term(kk["key"]), I.to_term(kk["cov"]), const(i))
        return out
    tr.I.user_models["jax.random.multivariate_normal"] = mvn
    return tr


def keys(ck, area):
    tr = fresh(ck, area); I = tr.I
    nd = Node(tr.n); r = tm.sym("r", "pos")
    box = {}
    def final(I, init, i):
        box["root"] = consumed(I); box["state_key"] = I.to_term(I.getattr(init, "key"))
        st = I.mkobj(init.cls, nd.fields())
        n0 = len(I.calls)
        box["out"] = I.call(tr.whiles[-1][1], [st], {})
        box["body"] = consumed(I, n0)
        box["n1"] = len(I.calls)
        return st
    tr.final = final
    tr.evaluate(r)
    box["leaf"] = consumed(I, box["n1"])
    w = at(tr.cls, "_evaluate_leaf"); p = "tree." + area
    root = linear(ck, p + ".root", w, box["root"])
    body = linear(ck, p + ".node", w, box["body"])
    lf = linear(ck, p + ".leaf", w, box["leaf"])
    sk = box["state_key"]
    ck.require(p + ".root.key-passed-on-unused", sk not in root and descends(sk, tr.keys[0]), w, "the key handed to the tree recursion was already consumed (or is not derived from the path's key)")
    mid = nd.s + nd.su / 2
    ko = I.to_term(I.getattr(box["out"], "key"))
    kl, kr = (split_cond(ko, r, a, {}) for a in (tm.lt(r, mid), tm.lt(mid, r)))
    if tm.contains(kl, lambda x: x is r) or tm.contains(kr, lambda x: x is r): raise Unsupported("child key depends on the query time in an unrecognised way")
    ck.require(p + ".children-differ", kl is not kr and tm.differ(kl, kr) is not None, w, "both halves of an interval use the same random key")
    for nm, k in (("left", kl), ("right", kr)):
        ck.require(f"{p}.{nm}.fresh-key", k not in body and not any(descends(k, c) and c is not nd.key for c in body) and descends(k, nd.key), w,
                   f"the {nm} half's key was already consumed at its parent, or is not derived from it")
        ck.require(f"{p}.{nm}.not-parent", k is not nd.key, w, f"the {nm} half re-uses its parent's key")
    ck.require(p + ".node.uses-own-key", all(descends(c, nd.key) for c in body), w, "a draw at a tree node does not use that node's key")
    ck.require(p + ".leaf.uses-own-key", bool(lf) and all(descends(c, nd.key) for c in lf), w, "the interpolation inside the final interval does not use that interval's key")
    ck.require(p + ".root.uses-own-key", bool(root) and all(descends(c, tr.keys[0]) for c in root), w, "a draw at the root does not use this leaf's key")


def deterministic(ck, area):
    """result is a function of key and query times; increments telescope; with or without Lévy area the same W"""
    T0, L = tm.sym("T0"), tm.sym("L", "pos")
    p = "tree." + area
    w = at(ck.repo.cls("VirtualBrownianTree"), "evaluate")
    ts = [tm.sym(f"q{i}", "pos") for i in range(3)]
    def run1(a, b, levy):
        tr = fresh(ck, area, 2, T0, T0 + L)
        seq = []
        qs = [a] if b is None else [a, b]
        def hook(I, cond, body, init, kk):
            i = len(seq); seq.append(1)
            q = qs[min(i // 2, len(qs) - 1)]
            nd = Node(tr.n); key = I.to_term(I.getattr(init, "key"))
            sub = {x: app("node." + x.data[0], key, q) for x in [nd.s, nd.level, nd.key] + nd.S + nd.X}
            go = lambda v: PyTuple([tm.subst(x, sub) for x in v.items]) if isinstance(v, PyTuple) else tm.subst(v, sub)
            return I.mkobj(init.cls, {k: go(v) for k, v in nd.fields().items()})
        tr.I.while_hook = hook
        r = tr.I.call(tr.I.method(tr.cls, "evaluate", tr.obj), qs, {"use_levy": const(levy)})
        ck.use(tr.I)
        return tr, r
    q0, q1, q2 = T0 + L * ts[0], T0 + L * (ts[0] + ts[1]), T0 + L * (ts[0] + ts[1] + ts[2])
    A, B, C = run1(q0, q1, True), run1(q1, q2, True), run1(q0, q2, True)
    Aw = run1(q0, q1, False)
    g = lambda tr_r, x, j: noeps(tr_r[0].I.to_term(tr_r[0].I.subscript(tr_r[0].I.getattr(tr_r[1], x), const(j))))
    for j in range(2):
        xs = [[g(o, x, j) for x in NAMES[:A[0].n]] for o in (A, B, C)]
        z = chen(xs[0], L * ts[1], xs[1], L * ts[2])
        for i in range(A[0].n):
            ck.equal(f"{p}.additive.{NAMES[i]}[{j}]", w, z[i], xs[2][i], what="increments over adjacent intervals do not combine to the increment over their union", n=40, I=A[0].I)
        ck.equal(f"{p}.use_levy-same-W[{j}]", w, noeps(lst(Aw[0].I, Aw[1], 2)[j]), xs[0][0], what="W differs between use_levy=True and use_levy=False", I=A[0].I)
    a, b = [noeps(x) for x in (g(A, "W", 0), g(A, "W", 1))]
    ck.require(p + ".leaves-independent", tm.differ(a, tm.subst(b, {A[0].keys[1]: A[0].keys[0]})) is None and not tm.contains(a, lambda x: x is A[0].keys[1]) and not tm.contains(b, lambda x: x is A[0].keys[0]),
               w, "leaves of a structured shape share randomness (or are not treated alike)")


def guards(ck):
    cls = ck.repo.cls("VirtualBrownianTree"); w = at(cls, "_evaluate")
    T0, L = tm.sym("T0"), tm.sym("L", "pos")
    for nm, bounds in (("value", 1), ("increment", 2)):
        tr = fresh(ck, "BrownianIncrement", 1, T0, T0 + L)
        tr.final = lambda I, init, i: init
        qs = [tm.sym(f"q{i}", "real") for i in range(bounds)]
        tr.evaluate(*qs)
        g = tm.lor_all([x.cond for x in tr.I.guards])
        out = tm.lor_all([tm.lt(q, T0) | tm.lt(T0 + L, q) for q in qs])
        ck.equal(f"tree.range-guard.{nm}", w, g, out, what="evaluation outside the declared interval is not (exactly) an error", I=tr.I)


def constructor(ck):
    I = ck.interp()
    sds = lambda i: app("sds", app("tuple"), tm.sym(f"dtype{i}"))
    for name in ("VirtualBrownianTree", "UnsafeBrownianPath"):
        cls = ck.repo.cls(name); key = tm.sym("key")
        shape = PyTuple([sds(0), sds(1), sds(2)])
        if name == "VirtualBrownianTree":
            n0 = len(I.calls)
            o = I.construct(cls, [tm.sym("t0"), tm.sym("t1"), tm.sym("tol", "pos"), shape, key], {})
            ks = lst(I, I.getattr(o, "key"), 3)
            ck.require("tree.leaf-keys-distinct", len({k.uid for k in ks}) == 3 and all(descends(k, key) for k in ks) and key not in ks, at(cls, "__init__"), "leaves of a structured shape share a random key")
            linear(ck, "tree.init", at(cls, "__init__"), consumed(I, n0))
    ck.use(I)


def unsafe(ck, area):
    cls = ck.repo.cls("UnsafeBrownianPath"); w = at(cls, "evaluate"); p = "unsafe." + area
    sds = lambda i: app("sds", app("tuple"), tm.sym(f"dtype{i}"))
    key = tm.sym("key")
    def ev(a, b, levy=True):
        I = ck.interp(); I.scalar_leaves = True
        o = I.mkobj(cls, {"shape": PyTuple([sds(0), sds(1)]), "levy_area": ck.repo.cls(area), "key": key})
        r = I.call(I.method(cls, "evaluate", o), [a] if b is None else [a, b], {"use_levy": const(levy)})
        ck.use(I)
        ev = consumed(I)
        f = lambda x: [I.to_term(I.subscript(I.getattr(r, x), const(j))) for j in range(2)]
        return I, r, ev, (f if levy else (lambda x: lst(I, r, 2)))
    t0, t1, d = tm.sym("t0", "real"), tm.sym("t1", "real"), tm.sym("d", "pos")
    I, r, e, f = ev(t0, t1)
    linear(ck, p, w, e)
    draws = [k for kind, k, _ in e if kind == "random.draw"]
    n = AREAS.index(area) + 1
    ck.require(p + ".draws-distinct", len(set(draws)) == 2 * n, w, "components or leaves of the increment share randomness")
    W = f("W")
    _, _, e2, f2 = ev(t0, t1, False)
    for j in range(2):
        ck.equal(f"{p}.use_levy-same-W[{j}]", w, f2("W")[j], W[j], what="W differs between use_levy=True and use_levy=False", I=I)
    # the key is a function of both end points
    I3, _, _, f3 = ev(d, None)
    I4, _, _, f4 = ev(tm.ZERO, d)
    for j in range(2): ck.equal(f"{p}.value-is-increment-from-zero[{j}]", w, f3("W")[j], f4("W")[j], what="evaluate(t) is not evaluate(0, t)", I=I3)
    for nm, sub in (("start", {t0: t0 + d}), ("end", {t1: t1 + d}), ("swap", {t0: t1, t1: t0}), ("shift", {t0: t0 + d, t1: t1 + d}), ("spread", {t0: t0 - d, t1: t1 + d})):
        for k in draws:
            if tm.differ(k, tm.subst(k, sub)) is None:
                ck.violation(f"{p}.key-depends-on.{nm}", w, "two different intervals use the same random key", dict(key=tm.show(k))); break
        else: ck.held(f"{p}.key-depends-on.{nm}")
    ck.require(p + ".key-depends-on-key", all(descends(k, key) for k in draws), w, "a draw does not depend on the path's key")


def shapes(ck, area):
    """every draw has the full shape of its leaf: no noise shared between array elements"""
    for name in ("VirtualBrownianTree", "UnsafeBrownianPath"):
        I = ck.interp()
        cls = ck.repo.cls(name); w = at(cls, "_evaluate_leaf"); p = f"{name}.{area}"
        shp = tm.sym("leaf_shape")
        sds = I.mkobj(None, {"shape": shp, "dtype": tm.sym("leaf_dtype")})
        got = []
        def normal(I, a, k):
            kk = dict(zip(["key", "shape", "dtype"], a)); kk.update(k)
            got.append(kk.get("shape", app("tuple"))); return app("normal", I.to_term(kk["key"]))
        def mvn(I, a, k):
            kk = dict(zip(["key", "mean", "cov", "shape"], a)); kk.update(k)
            got.append(kk.get("shape", app("tuple")))
            out = np.empty((3,), dtype=object)
            for i in range(3): out[i] = app("mvn", I.to_term(kk["key"]), I.to_term(kk["cov"]), const(i))
            return out
        I.user_models["jax.random.normal"] = normal
        I.user_models["jax.random.multivariate_normal"] = mvn
        I.user_models["jax.numpy.split"] = lambda I, a, k: I.mklist(list(a[0]))
        n = AREAS.index(area) + 1
        def hook(I, cond, body, init, kk):
            st = I.mkobj(init.cls, Node(n).fields())
            I.call(body, [st], {})
            return st
        I.while_hook = hook
        if name == "VirtualBrownianTree":
            o = I.mkobj(cls, {"t0": tm.ZERO, "t1": tm.ONE, "tol": tm.sym("tol", "pos"), "shape": sds, "levy_area": ck.repo.cls(area), "key": tm.sym("key"), "_spline": const("sqrt")})
        else:
            o = I.mkobj(cls, {"shape": sds, "levy_area": ck.repo.cls(area), "key": tm.sym("key")})
        ev = I.method(cls, "evaluate", o)
        I.call(ev, [tm.sym("a", "pos"), tm.sym("b", "pos")], {"use_levy": tm.FALSE})
        ck.use(I)
        if not got: raise Unsupported("no draws found")
        bad = [x for x in got if I.to_term(x) is not shp]
        ck.require(p + ".draws-full-shape", not bad, w, f"a draw has shape {bad and tm.show(I.to_term(bad[0]))} instead of its leaf's shape: array elements share randomness")


def wide_times(ck):
    """64-bit times: both words of both end points select the key"""
    I = ck.interp(); I.scalar_leaves = True
    def bitcast(I, a, k):
        out = np.empty((2,), dtype=object)
        t = I.to_term(a[0] if a else k["operand"])
        out[0], out[1] = app("word0", t), app("word1", t)
        return out
    I.user_models["jax.lax.bitcast_convert_type"] = bitcast
    for n in ("bitwise_xor", "bitwise_or", "bitwise_and", "add", "bitwise_count"):
        I.user_models[f"jax.numpy.{n}.reduce"] = lambda I, a, k, n=n: app(n, *[I.to_term(x) for x in a[0]])
    cls = ck.repo.cls("UnsafeBrownianPath"); w = at(cls, "evaluate")
    o = I.mkobj(cls, {"shape": app("sds", app("tuple"), tm.sym("dtype")), "levy_area": ck.repo.cls("BrownianIncrement"), "key": tm.sym("key")})
    t0, t1 = tm.sym("t0", "real"), tm.sym("t1", "real")
    I.call(I.method(cls, "evaluate", o), [t0, t1], {})
    ck.use(I)
    ks = [k for kind, k, _ in consumed(I) if kind == "random.draw"]
    for nm, t in (("start", t0), ("end", t1)):
        for i in (0, 1):
            x = app(f"word{i}", t)
            ck.require(f"unsafe.wide-times.{nm}.word{i}", bool(ks) and all(tm.contains(k, lambda y: y is x) for k in ks), w,
                       f"the random key ignores part of the bits of the {nm} time: different intervals re-use randomness")


def run(ck):
    ck.attempt("wide-times", lambda: wide_times(ck))
    for a in AREAS:
        ck.attempt("shapes." + a, lambda: shapes(ck, a))
        ck.attempt("tree." + a + ".keys", lambda: keys(ck, a))
        ck.attempt("tree." + a + ".additive", lambda: deterministic(ck, a))
        ck.attempt("unsafe." + a, lambda: unsafe(ck, a))
    ck.attempt("guards", lambda: guards(ck))
    ck.attempt("init", lambda: constructor(ck))
