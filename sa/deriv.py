"""Symbolic differentiation of value-graph terms (every leaf is treated as a scalar)."""
from __future__ import annotations
from . import terms as tm
from .terms import T, app, const, ite, ZERO, ONE

WRAP = ("tuple", "dict", "set")
LINEAR = {"real", "transpose", "nextafter", "prevbefore"}
CONSTANT = {"stop_gradient", "shape", "size", "dtype", "isnone", "isnan", "isinf", "isfinite", "sign", "floor", "ceil", "ndim"}


def deriv(t, x, memo=None):
    """d t / d x for a symbol x."""
    memo = {} if memo is None else memo
    occ = {}

    def occurs(u):
        r = occ.get(u.uid)
        if r is None:
            r = occ[u.uid] = (u is x) or any(occurs(a) for a in u.args)
        return r

    def d(u):
        if u is x: return ONE
        if not occurs(u): return ZERO
        r = memo.get(u.uid)
        if r is not None: return r
        a = u.args
        if u.op == "add": r = d(a[0]) + d(a[1])
        elif u.op == "mul": r = d(a[0]) * a[1] + a[0] * d(a[1])
        elif u.op == "inv": r = -(d(a[0]) * u * u)
        elif u.op == "ite": r = ite(a[0], d(a[1]), d(a[2]))
        elif u.op in ("lt", "le", "eq", "and", "or", "not"): r = ZERO
        elif u.op == "app":
            n = u.data
            if n in CONSTANT: r = ZERO
            elif n == "sqrt": r = d(a[0]) * const(0.5) / u
            elif n == "exp": r = d(a[0]) * u
            elif n == "log": r = d(a[0]) / a[0]
            elif n == "abs": r = d(a[0]) * app("sign", a[0])
            elif n == "max": r = ite(tm.lt(a[0], a[1]), d(a[1]), d(a[0]))
            elif n == "min": r = ite(tm.lt(a[1], a[0]), d(a[1]), d(a[0]))
            elif n in LINEAR: r = d(a[0])
            else:
                r = ZERO
                for path, leaf in leaves(a):
                    dl = d(leaf)
                    if dl is not ZERO: r = r + app("∂" + path, u) * dl
        else: r = tm.unknown("derivative of " + u.op)
        memo[u.uid] = r
        return r
    return d(t)


def leaves(args, prefix=""):
    for i, a in enumerate(args):
        if a.op == "app" and (a.data in WRAP or a.data.startswith("kw:") or a.data.startswith("obj:")):
            nm = a.data[3:] if a.data.startswith("kw:") else str(i)
            yield from leaves(a.args, prefix + "." + nm)
        else: yield prefix + "." + str(i), a
