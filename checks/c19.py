"""C19: terms: fused products, sums, controls, conversions and adjoints are consistent."""
import numpy as np
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, lst, state, SymTerm, multiterm
from sa.deriv import deriv
from sa.interp import Unsupported
from checks.c07 import O, nd, flat
LEVEL = "translation_validation"
TECHNIQUE = "gated value-graph extraction of every term method for symbolic vector fields, controls and array shapes, compared with the defining algebra; symbolic differentiation of the extracted graph for adjoint terms"
EXPLANATION = ("Every method of every term type is reduced to a value graph over opaque vector fields and controls (array- and tree-valued), and the defining identities are decided by value numbering: "
               "fused product = product of separate evaluations, combined term = sum of parts, control = path increment, conversion to an ODE, wrapping, and the adjoint system as minus the vector-Jacobian product.")
ASSUMPTIONS = ["jax.vjp / jacfwd / jacrev compute derivatives of the function they are given (modelled by symbolic differentiation of the extracted graph)", "real-valued states"]
FLOOR = 270


class Asym(SymTerm):
    """a term whose product distinguishes the vector field from the control"""
    def __init__(self, I, name, n=2, expensive=False):
        super().__init__(I, name, n, expensive)
        q = dict(I.fields(self.obj))
        vf = q["vf"]
        def prod(I, a, k):
            a = list(a) + [k[q] for q in ("vf", "control")[len(a):]]
            return self.pack(pr(lst(I, a[0], n), lst(I, a[1], n)))
        def vf_prod(I, a, k):
            a = list(a) + [k[q] for q in ("t", "y", "args", "control")[len(a):]]
            return prod(I, [I.call(vf, a[:3], {}), a[3]], {})
        q["prod"] = Native(prod, name + ".prod"); q["vf_prod"] = Native(vf_prod, name + ".vf_prod")
        I.hset(self.obj.uid, q)


def pr(f, c): return [x * (y + 7) for x, y in zip(f, c)]


def setup(ck):
    I = ck.interp()
    R = ck.repo
    I.user_models["jax.numpy.conj"] = lambda I, a, k: a[0]
    def ndim(I, a, k):
        x = nd(I, a[0]); return const(x.ndim if isinstance(x, np.ndarray) else 0)
    I.user_models["jax.numpy.ndim"] = ndim
    def tensordot(I, a, k):
        x, y = nd(I, a[0]), nd(I, a[1])
        ax = a[2] if len(a) > 2 else k.get("axes", const(2))
        n = I.intval(ax)
        xs, ys = (z.shape if isinstance(z, np.ndarray) else () for z in (x, y))
        X = x.reshape(-1) if isinstance(x, np.ndarray) else [x]; Y = y.reshape(-1) if isinstance(y, np.ndarray) else [y]
        if xs[len(xs) - n:] != ys[:n]: raise Unsupported("tensordot extents")
        m = int(np.prod(ys[:n], dtype=int)); q = len(Y) // m; p = len(X) // m
        out = np.empty((p, q), dtype=object)
        for i in range(p):
            for j in range(q):
                s = tm.ZERO
                for l in range(m): s = s + I.to_term(X[i * m + l]) * I.to_term(Y[l * q + j])
                out[i, j] = s
        sh = xs[:len(xs) - n] + ys[n:]
        return out.reshape(sh) if sh else out[0, 0]
    I.user_models["jax.numpy.tensordot"] = tensordot
    return I, R, tm.sym("t", "real"), tm.sym("t0", "real"), tm.sym("t1", "real"), tm.sym("args")


def call(ck, I, cls, m, o, *a, **k):
    r = I.call(I.method(cls, m, o), list(a), k)
    ck.use(I)
    return r


def mat(name, *shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape): out[i] = tm.sym(name + "_".join(map(str, i)), "real")
    return out


def tflat(I, v):
    """flat list of scalar terms of a pytree with array leaves"""
    from sa.models import leaves
    return [z for x in leaves(I, v) for z in flat(I, nd(I, x))]


def ode(ck):
    cls = ck.repo.cls("ODETerm")
    for shape in ("scalar", "tree", "array", "broadcast"):
        def go():
            I, R, t, t0, t1, args = setup(ck)
            if shape == "scalar": y, f = tm.sym("y"), lambda t, y: app("f", t, *y, args)
            elif shape == "tree": y, f = state("y", 2), lambda t, y: PyTuple([app("f0", t, *y, args), app("f1", t, *y, args)])
            elif shape == "array": y, f = mat("y", 2), lambda t, y: O([app("f0", t, *y, args), app("f1", t, *y, args)])
            else: y, f = mat("y", 2), lambda t, y: app("f", t, *y, args)
            def vfm(I, a, k):
                a = list(a) + [k[q] for q in ("t", "y", "args")[len(a):]]
                if I.to_term(a[2]) is not args: raise Unsupported("arguments are not passed on")
                return f(I.to_term(a[0]), tflat(I, a[1]))
            if shape == "broadcast":
                I.user_models["jax.numpy.broadcast_to"] = lambda I, a, k: nd(I, a[0]) if isinstance(nd(I, a[0]), np.ndarray) else O([I.to_term(a[0])] * 2)
            o = I.mkobj(cls, {"vector_field": Native(vfm, "f")})
            want = tflat(I, f(t, tflat(I, y)))
            if shape == "broadcast": want = want * 2
            c = tm.sym("c", "real")
            E = lambda nm, m, got, sp, what: ck.equal_many([(f"ODETerm({shape}).{nm}[{i}]", g, s) for i, (g, s) in enumerate(zip(got, sp))] if len(got) == len(sp) else [(f"ODETerm({shape}).{nm}.size", const(len(got)), const(len(sp)))], at(cls, m), what, I=I)
            E("vf", "vf", tflat(I, call(ck, I, cls, "vf", o, t, y, args)), want, "the vector field is not the one given")
            E("contr", "contr", [I.to_term(call(ck, I, cls, "contr", o, t0, t1))], [t1 - t0], "the control is not elapsed time")
            E("contr.kwargs", "contr", [I.to_term(call(ck, I, cls, "contr", o, t0, t1, use_levy=tm.TRUE))], [t1 - t0], "the control is not elapsed time")
            v = call(ck, I, cls, "vf", o, t, y, args)
            E("prod", "prod", tflat(I, call(ck, I, cls, "prod", o, v, c)), [c * x for x in want], "the product is not elapsed time multiplying the vector field")
            E("vf_prod", "vf_prod", tflat(I, call(ck, I, cls, "vf_prod", o, t, y, args, c)), [c * x for x in want], "the fused product is not the product of the vector field and the control")
            E("expensive", "is_vf_expensive", [I.to_term(call(ck, I, cls, "is_vf_expensive", o, t0, t1, y, args))], [tm.FALSE], "a plain vector field is declared expensive")
        ck.attempt(f"ODETerm({shape})", go)


def control(ck):
    cls = ck.repo.cls("ControlTerm")
    # (state leaf shapes, control leaf shapes)
    for nm, ys, cs in (("scalar", [()], [()]), ("matrix", [(2,)], [(3,)]), ("vector-noise", [()], [(2,)]), ("scalar-noise", [(2,)], [()]), ("tensor", [(2,)], [(2, 2)]), ("tree", [(2,), ()], [(3,), ()])):
        for kind in ("path", "callable"):
            def go():
                I, R, t, t0, t1, args = setup(ck)
                A = lambda n, sh: mat(n, *sh) if sh else tm.sym(n, "real")
                tree = lambda xs: PyTuple(xs) if len(xs) > 1 else xs[0]
                y = tree([A(f"y{i}", s) for i, s in enumerate(ys)])
                V = [A(f"v{i}", s + c) for i, (s, c) in enumerate(zip(ys, cs))]
                C = [A(f"c{i}", c) for i, c in enumerate(cs)]
                rec, seen = [], []
                def vfm(I, a, k): seen.append([I.to_term(x) for x in a]); return tree(V)
                def ev(I, a, k): rec.append(([I.to_term(x) for x in a], {q: I.to_term(x) for q, x in k.items()})); return tree(C)
                if kind == "path": ctl = I.mkobj(R.cls("AbstractPath"), {"evaluate": Native(ev, "evaluate")})
                else: ctl = Native(ev, "control")
                o = I.call(cls, [Native(vfm, "g"), ctl], {})
                def contract(v, c):
                    vv = v.reshape(-1) if isinstance(v, np.ndarray) else [v]
                    cc = c.reshape(-1) if isinstance(c, np.ndarray) else [c]
                    n = len(cc)
                    out = []
                    for i in range(len(vv) // n):
                        z = tm.ZERO
                        for j in range(n): z = z + vv[i * n + j] * cc[j]
                        out.append(z)
                    return out
                want = [z for v, c in zip(V, C) for z in contract(v, c)]
                E = lambda n, m, got, sp, what: ck.equal_many([(f"ControlTerm({nm},{kind}).{n}[{i}]", g, s) for i, (g, s) in enumerate(zip(got, sp))] if len(got) == len(sp) else [(f"ControlTerm({nm},{kind}).{n}.size", const(len(got)), const(len(sp)))], at(cls, m), what, I=I)
                v = call(ck, I, cls, "vf", o, t, y, args)
                E("vf", "vf", tflat(I, v), tflat(I, tree(V)), "the vector field is not the one given")
                E("vf.args", "vf", seen[-1], [t, I.to_term(y), args], "the vector field is not evaluated at the given time, state and arguments")
                c = call(ck, I, cls, "contr", o, t0, t1)
                E("contr", "contr", tflat(I, c), tflat(I, tree(C)), "the control is not the increment of the path")
                E("contr.args", "contr", rec[-1][0][:2], [t0, t1], "the control is not the increment over the interval")
                if kind == "path":
                    c2 = call(ck, I, cls, "contr", o, t0, t1, use_levy=tm.TRUE)
                    ck.require(f"ControlTerm({nm},{kind}).contr.levy", tm.truth(rec[-1][1].get("use_levy", tm.FALSE)) is True, at(cls, "contr"), "a request for the Lévy area is not passed on to the path")
                E("prod", "prod", tflat(I, call(ck, I, cls, "prod", o, v, c)), want, "the product is not the contraction of the vector field with the control")
                n0 = len(I.guards)
                E("vf_prod", "vf_prod", tflat(I, call(ck, I, cls, "vf_prod", o, t, y, args, c)), want, "the fused product is not the product of the vector field and the control")
                E("vf_prod.args", "vf", seen[-1], [t, I.to_term(y), args], "the vector field is not evaluated at the given time, state and arguments")
            ck.attempt(f"ControlTerm({nm},{kind})", go)
    # linear operators
    def op(diagonal):
        def go():
            I, R, t, t0, t1, args = setup(ck)
            y, c, v = mat("y", 2), mat("c", 2), mat("v", 2)
            ctl = I.mkobj(R.cls("AbstractPath"), {"evaluate": Native(lambda I, a, k: c, "evaluate")})
            g = Native(lambda I, a, k: v, "g")
            cname = "ControlTerm(operator)" if not diagonal else "WeaklyDiagonalControlTerm"
            ctr = [0]
            def mkop(I, a, k):
                d = nd(I, a[0])
                ctr[0] += 1
                o = tm.sym(f"operator{ctr[0]}", "real")
                I.ext_class[o] = "lineax.DiagonalLinearOperator"
                I.attr_models[(o, "mv")] = Native(lambda I, b, kk: O([p * q for p, q in zip(d, nd(I, b[0]))]), "mv")
                return o
            I.user_models["lineax.DiagonalLinearOperator"] = mkop
            if diagonal:
                o = I.call(I.global_value(cls.module, "WeaklyDiagonalControlTerm"), [g, ctl], {})
            else:
                o = I.call(cls, [Native(lambda I, a, k: mkop(I, [v], {}), "g"), ctl], {})
            r = call(ck, I, cls, "vf_prod", o, t, y, args, c)
            ck.equal_many([(f"{cname}.vf_prod[{i}]", a, v[i] * c[i]) for i, a in enumerate(tflat(I, r))], at(cls, "vf_prod"), "the product with a linear operator is not its matrix-vector product", I=I)
            w = call(ck, I, cls, "prod", o, call(ck, I, cls, "vf", o, t, y, args), call(ck, I, cls, "contr", o, t0, t1))
            ck.equal_many([(f"{cname}.prod[{i}]", a, v[i] * c[i]) for i, a in enumerate(tflat(I, w))], at(cls, "prod"), "the product with a linear operator is not its matrix-vector product", I=I)
        ck.attempt("WeaklyDiagonalControlTerm" if diagonal else "ControlTerm(operator)", go)
    op(False)
    op(True)
    def to_ode():
        I, R, t, t0, t1, args = setup(ck)
        y, V = mat("y", 2), None
        dc = lambda t: O([app(f"dX{i}", t) for i in range(3)])
        V = lambda t, y: np.array([[app(f"g{i}{j}", t, *y, args) for j in range(3)] for i in range(2)], dtype=object)
        ctl = I.mkobj(R.cls("AbstractPath"), {"evaluate": Native(lambda I, a, k: tm.sym("never"), "evaluate"), "derivative": Native(lambda I, a, k: dc(I.to_term(a[0])), "derivative")})
        o = I.call(cls, [Native(lambda I, a, k: V(I.to_term(a[0]), tflat(I, a[1])), "g"), ctl], {})
        q = call(ck, I, cls, "to_ode", o)
        oc = R.cls("ODETerm")
        ck.require("to_ode.class", q.cls is oc, at(cls, "to_ode"), "conversion does not give an ODETerm")
        s = tm.sym("s", "real"); z = mat("z", 2)
        r = call(ck, I, oc, "vf_prod", q, s, z, args, tm.sym("dt", "real"))
        want = [sum((V(s, list(z))[i, j] * dc(s)[j] for j in range(3)), tm.ZERO) * tm.sym("dt", "real") for i in range(2)]
        ck.equal_many([(f"to_ode.vf_prod[{i}]", a, b) for i, (a, b) in enumerate(zip(tflat(I, r), want))], at(cls, "to_ode"), "the converted term is not the vector field times the derivative of the control times elapsed time", I=I)
    ck.attempt("to_ode", to_ode)


def multi(ck):
    cls = ck.repo.cls("MultiTerm")
    for n in (1, 2, 3):
        for nested in ((False, True) if n == 2 else (False,)):
            def go():
                I, R, t, t0, t1, args = setup(ck)
                nm = f"MultiTerm({n}{',nested' if nested else ''})"
                ts = [Asym(I, f"f{i}", 2, expensive=False) for i in range(n)]
                calls = []
                for x in ts:
                    q = I.fields(x.obj)
                    def cm(I, a, k, x=x): calls.append({z: I.to_term(v) for z, v in k.items()}); return x.C(I.to_term(a[0]), I.to_term(a[1]))
                    q["contr"] = Native(cm, "contr")
                    I.hset(x.obj.uid, dict(q))
                o = I.call(cls, [x.obj for x in ts], {})
                if nested: o = I.call(cls, [o, ts[0].obj], {})
                y = state("y", 2); yl = lst(I, y)
                parts = ts + ([ts[0]] if nested else [])
                E = lambda s, m, got, sp, what: ck.equal_many([(f"{nm}.{s}[{i}]", g, z) for i, (g, z) in enumerate(zip(got, sp))] if len(got) == len(sp) else [(f"{nm}.{s}.size", const(len(got)), const(len(sp)))], at(cls, m), what, I=I)
                v = call(ck, I, cls, "vf", o, t, y, args)
                E("vf", "vf", tflat(I, v), [z for x in parts for z in x.f(t, yl, args)], "the vector field is not the tuple of those of the terms")
                c = call(ck, I, cls, "contr", o, t0, t1)
                E("contr", "contr", tflat(I, c), [z for x in parts for z in x.c(t0, t1)], "the control is not the tuple of those of the terms")
                calls.clear()
                call(ck, I, cls, "contr", o, t0, t1, use_levy=tm.TRUE)
                ck.require(f"{nm}.contr.levy", len(calls) == len(parts) and all(tm.truth(x.get("use_levy", tm.FALSE)) is True for x in calls), at(cls, "contr"), "a request for the Lévy area is not passed on to every term")
                want = [tm.ZERO, tm.ZERO]
                for x in parts: want = [a + b for a, b in zip(want, pr(x.f(t, yl, args), x.c(t0, t1)))]
                E("prod", "prod", tflat(I, call(ck, I, cls, "prod", o, v, c)), want, "the product is not the sum over the terms")
                E("vf_prod", "vf_prod", tflat(I, call(ck, I, cls, "vf_prod", o, t, y, args, c)), want, "the fused product is not the sum over the terms")
            ck.attempt(f"MultiTerm({n},{nested})", go)
    for pat in ((False, False), (True, False), (False, True), (True, True)):
        def go():
            I, R, t, t0, t1, args = setup(ck)
            ts = [SymTerm(I, f"f{i}", 2, expensive=e) for i, e in enumerate(pat)]
            o = multiterm(I, *ts)
            ck.equal(f"MultiTerm.expensive{pat}", at(cls, "is_vf_expensive"), I.to_term(call(ck, I, cls, "is_vf_expensive", o, t0, t1, state("y", 2), args)), const(any(pat)), I=I, what="a combined term is expensive other than when one of its parts is")
        ck.attempt(f"MultiTerm.expensive{pat}", go)


def wrap(ck):
    cls = ck.repo.cls("WrapTerm")
    from checks import c16
    c16.wrapterm(ck)
    for d in (1, -1, "any"):
        def exp():
            I, R, t, t0, t1, args = setup(ck)
            dv = const(d) if d != "any" else tm.sym("direction", ("choice", (-1, 1)))
            x = I.mkobj(R.cls("AbstractTerm"), {"is_vf_expensive": Native(lambda I, a, k: app("bool:expensive", *[I.to_term(z) for z in a]), "is_vf_expensive")})
            o = I.mkobj(cls, {"term": x, "direction": dv})
            y = tm.sym("y")
            ck.equal(f"WrapTerm({d}).expensive", at(cls, "is_vf_expensive"), I.to_term(call(ck, I, cls, "is_vf_expensive", o, t0, t1, y, args)),
                     ite(tm.eq(dv, const(1)), app("bool:expensive", t0, t1, y, args), app("bool:expensive", -t1, -t0, y, args)), I=I, what="expense of the wrapped term over the original interval")
        ck.attempt(f"WrapTerm({d}).expensive", exp)
        def go():
            I, R, t, t0, t1, args = setup(ck)
            dv = const(d) if d != "any" else tm.sym("direction", ("choice", (-1, 1)))
            x = Asym(I, "f", 2)
            o = I.mkobj(cls, {"term": x.obj, "direction": dv})
            y = state("y", 2); yl = lst(I, y); c = state("c", 2); cl = lst(I, c)
            E = lambda s, m, got, sp, what: ck.equal_many([(f"WrapTerm({d}).{s}[{i}]", g, z) for i, (g, z) in enumerate(zip(got, sp))], at(cls, m), what, I=I)
            v = call(ck, I, cls, "vf", o, t, y, args)
            f = x.f(t * dv, yl, args)
            E("vf", "vf", tflat(I, v), f, "the wrapped vector field is not evaluated at the original time")
            E("prod", "prod", tflat(I, call(ck, I, cls, "prod", o, v, c)), pr(f, cl), "the product is altered by wrapping")
            E("vf_prod", "vf_prod", tflat(I, call(ck, I, cls, "vf_prod", o, t, y, args, c)), pr(f, cl), "the fused product is not the product of the vector field and the control")
        ck.attempt(f"WrapTerm({d})", go)


def adjoint(ck):
    cls = ck.repo.cls("AdjointTerm")
    for n, kind in ((1, "bilinear"), (2, "bilinear")):
        def go():
            I, R, t, t0, t1, args = setup(ck)
            nm = f"AdjointTerm({n})"
            y = [tm.sym(f"y{i}", "real") for i in range(n)]
            a = [tm.sym(f"a{i}", "real") for i in range(n)]
            p, th = tm.sym("p", "real"), tm.sym("theta", "real")
            c = [tm.sym(f"c{i}", "real") for i in range(n)]
            # a concrete smooth family, nonlinear in the state, argument and parameter, coupling the leaves
            def F(t, y, p, th):
                s = tm.ZERO
                for i, v in enumerate(y): s = s + (i + 2) * v
                return [s * s * v * p + t * th * v * v + th * p * s for v in y]
            pk = lambda xs: PyTuple(list(xs)) if n > 1 else xs[0]
            class_ = R.cls("AbstractTerm")
            def mk(I, theta):
                def vf(I, a, k): return pk(F(I.to_term(a[0]), lst(I, a[1]), I.to_term(a[2]), self_theta(I)))
                def self_theta(I): return theta
                def prod(I, a, k): return pk([x * z for x, z in zip(lst(I, a[0]), lst(I, a[1]))])
                def vf_prod(I, a, k): return prod(I, [vf(I, a[:3], k), a[3]], {})
                def contr(I, a, k): return pk([app(f"X{i}", I.to_term(a[0]), I.to_term(a[1])) for i in range(n)])
                return vf, prod, vf_prod, contr
            # the parameter lives in the term: a ControlTerm-like object whose leaf `theta` is differentiated
            term = I.mkobj(R.cls("ControlTerm"), {"vector_field": th, "control": tm.sym("control")})
            vf, prod, vf_prod, contr = mk(I, th)
            def method(name, f):
                def m(I, a, k):
                    s, rest = a[0], list(a[1:])
                    theta = I.to_term(I.getattr(s, "vector_field"))
                    return mk(I, theta)[{"vf": 0, "prod": 1, "vf_prod": 2, "contr": 3}[name]](I, rest, k)
                return m
            for m in ("vf", "prod", "vf_prod", "contr"): I.opaque[f"diffrax._term.ControlTerm.{m}"] = method(m, None)
            o = I.mkobj(cls, {"term": term})
            st = PyTuple([pk(y), pk(a), tm.sym("a_args", "real"), tm.sym("a_term", "real")])
            E = lambda s, m, got, sp, what: ck.equal_many([(f"{nm}.{s}[{i}]", g, z) for i, (g, z) in enumerate(zip(got, sp))] if len(got) == len(sp) else [(f"{nm}.{s}.size", const(len(got)), const(len(sp)))], at(cls, m), what, I=I)
            r = call(ck, I, cls, "vf_prod", o, t, st, p, pk(c))
            fy = F(t, y, p, th)
            L = tm.ZERO
            for x, ci, ai in zip(fy, c, a): L = L + x * ci * ai
            want = [x * ci for x, ci in zip(fy, c)] + [-deriv(L, v) for v in y] + [-deriv(L, p), -deriv(L, th)]
            got = []
            items = I.iterate(r)
            got += lst(I, items[0]) + lst(I, items[1]) + lst(I, items[2])
            z = items[3]
            z = z.x if isinstance(z, PartV) else z
            got += [I.to_term(I.getattr(z, "vector_field"))] if isinstance(z, Obj) else lst(I, z)
            E("vf_prod", "vf_prod", got, want, "the adjoint term is not (f, minus the vector-Jacobian product of f) times the control")
            cc = call(ck, I, cls, "contr", o, t0, t1)
            E("contr", "contr", lst(I, cc), [app(f"X{i}", t0, t1) for i in range(n)], "the control of the adjoint is not that of the term")
            def unfused():
                v = call(ck, I, cls, "vf", o, t, st, p)
                r = call(ck, I, cls, "prod", o, v, pk(c))
                items = I.iterate(r)
                got = lst(I, items[0]) + lst(I, items[1]) + lst(I, items[2])
                z = items[3]; z = z.x if isinstance(z, PartV) else z
                got += [I.to_term(I.getattr(z, "vector_field"))] if isinstance(z, Obj) else lst(I, z)
                E("prod", "vf", got, want, "the product of the adjoint's vector field and control is not its fused product")
            ck.attempt(nm + ".prod", unfused)
        ck.attempt(f"AdjointTerm({n})", go)


def langevin(ck):
    dr, di = ck.repo.cls("UnderdampedLangevinDriftTerm"), ck.repo.cls("UnderdampedLangevinDiffusionTerm")
    for prefix in (False, True):
        def go():
            I, R, t, t0, t1, args = setup(ck)
            nm = f"Langevin({'prefix' if prefix else 'full'})"
            def bto(I, a, k):
                s = a[1] if len(a) > 1 else k["shape"]
                x = nd(I, a[0])
                dims = tuple(I.intval(z) for z in I.iterate(s))
                if dims == (): return x
                return np.broadcast_to(x if isinstance(x, np.ndarray) else O([x]), dims).copy()
            I.user_models["jax.numpy.broadcast_to"] = bto
            I.user_models["jax.numpy.asarray"] = lambda I, a, k: nd(I, a[0])
            x, v = [mat("x0", 2), mat("x1", 1)], [mat("v0", 2), mat("v1", 1)]
            if prefix: g, u = tm.sym("g", "pos"), tm.sym("u", "pos"); gl, ul = [g] * 3, [u] * 3
            else:
                g, u = PyTuple([mat("g0", 2), mat("g1", 1)]), PyTuple([mat("u0", 2), mat("u1", 1)])
                gl, ul = tflat(I, g), tflat(I, u)
            xl, vl = [z for q in x for z in q], [z for q in v for z in q]
            f = lambda xs: PyTuple([O([app("gf0", *xs, args), app("gf1", *xs, args)]), O([app("gf2", *xs, args)])])
            gf = Native(lambda I, a, k: f(tflat(I, a[0])), "grad_f")
            y = PyTuple([PyTuple(x), PyTuple(v)])
            rec = []
            bm = I.mkobj(R.cls("UnsafeBrownianPath"), {"evaluate": Native(lambda I, a, k: (rec.append((I.to_term(a[0]), I.to_term(a[1]), k.get("use_levy"))), PyTuple([mat("w0", 2), mat("w1", 1)]))[1], "evaluate")})
            d = I.mkobj(dr, {"gamma": g, "u": u, "grad_f": gf}); b = I.mkobj(di, {"gamma": g, "u": u, "control": bm})
            E = lambda s, c, m, got, sp, what: ck.equal_many([(f"{nm}.{s}[{i}]", p, q) for i, (p, q) in enumerate(zip(got, sp))] if len(got) == len(sp) else [(f"{nm}.{s}.size", const(len(got)), const(len(sp)))], at(c, m), what, I=I)
            vf = call(ck, I, dr, "vf", d, t, y, args)
            F = tflat(I, f(xl))
            want = vl + [-a * p - q * r for a, p, q, r in zip(gl, vl, ul, F)]
            E("drift.vf", dr, "vf", tflat(I, vf), want, "the drift is not (v, -gamma v - u grad f)")
            E("drift.contr", dr, "contr", [I.to_term(call(ck, I, dr, "contr", d, t0, t1, use_levy=tm.TRUE))], [t1 - t0], "the control of the drift is not elapsed time")
            c = tm.sym("c", "real")
            E("drift.prod", dr, "prod", tflat(I, call(ck, I, dr, "prod", d, vf, c)), [c * z for z in want], "the product of the drift is not elapsed time multiplying it")
            E("drift.vf_prod", dr, "vf_prod", tflat(I, call(ck, I, dr, "vf_prod", d, t, y, args, c)), [c * z for z in want], "the fused product is not the product of the vector field and the control")
            gv = call(ck, I, di, "vf", b, t, y, args)
            rho = [app("sqrt", const(2) * a * q) for a, q in zip(gl, ul)]
            E("diffusion.vf", di, "vf", tflat(I, gv), rho, "the diffusion is not sqrt(2 gamma u)")
            w = call(ck, I, di, "contr", b, t0, t1, use_levy=tm.TRUE)
            ck.require(f"{nm}.diffusion.contr.levy", bool(rec) and rec[-1][2] is not None and tm.truth(I.to_term(rec[-1][2])) is True, at(di, "contr"), "a request for the Lévy area is not passed on")
            E("diffusion.contr", di, "contr", list(rec[-1][:2]), [t0, t1], "the control is not the increment over the interval")
            wl = tflat(I, w)
            E("diffusion.prod", di, "prod", tflat(I, call(ck, I, di, "prod", b, gv, w)), [tm.ZERO] * 3 + [p * q for p, q in zip(rho, wl)], "the diffusion acts other than on the velocity alone")
            E("diffusion.vf_prod", di, "vf_prod", tflat(I, call(ck, I, di, "vf_prod", b, t, y, args, w)), [tm.ZERO] * 3 + [p * q for p, q in zip(rho, wl)], "the fused product is not the product of the vector field and the control")
        ck.attempt(f"Langevin({prefix})", go)


def run(ck):
    ode(ck); control(ck); multi(ck); wrap(ck); adjoint(ck); langevin(ck)
