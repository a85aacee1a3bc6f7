"""Shared queries over the resolved program."""
from __future__ import annotations
import ast
from . import terms as tm, butcher as B
from .terms import T
from .loader import AnalysisError, ClassInfo


def rk_solvers(repo):
    """All concrete Runge-Kutta solver classes with a tableau of their own (or inherited)."""
    rk = repo.cls("AbstractRungeKutta")
    out = []
    for c in sorted(repo.classes.values(), key=lambda c: c.qual):
        if c is rk or not c.issub(rk): continue
        f = c.lookup("tableau")
        if f is None or isinstance(f[1], ast.FunctionDef): continue
        out.append(c)
    return out


def at(cls, name=None):
    node = cls.node
    owner = cls
    if name:
        f = cls.lookup(name)
        if f: owner, node = f
    return f"{owner.module.path}:{node.lineno} {cls.name}" + (f".{name}" if name else "")


def fwhere(mod, node): return f"{mod.path}:{node.lineno} {node.name}"


def tableaus(I, cls):
    r = I.class_attr(cls, "tableau")
    v = r[2]
    if v.cls.name == "MultiButcherTableau":
        return [B.Tab(I, x) for x in I.iterate(I.getattr(v, "tableaus"))]
    return [B.Tab(I, v)]


def const_method(I, cls, name, *args):
    o = I.mkobj(cls, {})
    return I.call(I.method(cls, name, o), list(args), {})


# ---------------------------------------------------------------- symbolic problems
from .values import *      # noqa
from .terms import app, const, ite
from .interp import Unsupported


def state(name, n=2): return PyTuple([tm.sym(f"{name}{i}") for i in range(n)]) if n > 1 else tm.sym(name)


def leafmap(f, *vs):
    """leafwise on specification-side pytrees (python lists of terms)"""
    return [f(*x) for x in zip(*vs)]


def lst(I, v, n=None):
    """list of leaf terms of a pytree value"""
    from .models import leaves
    out = []
    for x in leaves(I, v):
        if isinstance(x, Maybe): raise Unsupported("optional leaf")
        out.append(I.to_term(x))
    if n is not None and len(out) != n:
        if len(out) == 1:
            return [I.to_term(I.subscript(out[0], const(i))) for i in range(n)]
        raise Unsupported(f"{len(out)} leaves, expected {n}")
    return out


class SymTerm:
    """An arbitrary AbstractTerm over an n-leaf state: opaque vector field and control, leafwise (bilinear) product."""
    def __init__(self, I, name, n=2, expensive=False):
        self.I, self.name, self.n = I, name, n
        N = lambda f, nm: Native(f, name + "." + nm)
        self.evals = []

        def vf(I, a, k):
            a = list(a) + [k[q] for q in ("t", "y", "args")[len(a):]]
            self.evals.append((I.to_term(a[0]), lst(I, a[1])))
            return self.F(I.to_term(a[0]), a[1], a[2])
        def contr(I, a, k):
            a = list(a) + [k[q] for q in ("t0", "t1")[len(a):]]
            return self.C(I.to_term(a[0]), I.to_term(a[1]))
        def prod(I, a, k):
            a = list(a) + [k[q] for q in ("vf", "control")[len(a):]]
            x, c = lst(I, a[0], n), lst(I, a[1], n)
            return self.pack([p * q for p, q in zip(x, c)])
        def vf_prod(I, a, k):
            a = list(a) + [k[q] for q in ("t", "y", "args", "control")[len(a):]]
            return prod(I, [vf(I, a[:3], {}), a[3]], {})
        self.obj = I.mkobj(I.repo.cls("AbstractTerm"), {
            "vf": N(vf, "vf"), "contr": N(contr, "contr"), "prod": N(prod, "prod"), "vf_prod": N(vf_prod, "vf_prod"),
            "is_vf_expensive": N(lambda I, a, k: const(expensive), "is_vf_expensive")})

    def pack(self, xs): return PyTuple(xs) if self.n > 1 else xs[0]
    def f(self, t, y, args):
        """specification side: list of leaf terms; y is a list of terms"""
        yt = app("tuple", *y) if len(y) > 1 else y[0]
        return [app(f"{self.name}.f{i}", t, yt, args) for i in range(self.n)]
    def c(self, t0, t1): return [app(f"{self.name}.c{i}", t0, t1) for i in range(self.n)]
    def F(self, t, y, args): return self.pack(self.f(t, lst(self.I, y, self.n), self.I.to_term(args)))
    def C(self, t0, t1): return self.pack(self.c(t0, t1))


def multiterm(I, *ts):
    return I.mkobj(I.repo.cls("MultiTerm"), {"terms": PyTuple([t.obj for t in ts])})
