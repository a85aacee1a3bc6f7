"""Exact Runge-Kutta order theory on coefficient tables extracted from the source."""
from __future__ import annotations
import functools, itertools
import mpmath as mp
import numpy as np
from . import terms as tm
from .terms import T
from .interp import Unsupported


def num(t):
    """numeric value of a closed term"""
    if not isinstance(t, T): raise Unsupported(f"coefficient {t!r}")
    if tm.symbols(t) or tm.contains(t, lambda x: x.op in ("unknown",) or (x.op == "app" and x.data not in tm.INTERP)):
        raise Unsupported("coefficient is not a compile-time constant: " + tm.show(t))
    return tm.MPValuation(0).ev(t)


def vec(a): return [num(x) for x in a]


class Tab:
    """A Butcher tableau as numbers."""
    def __init__(self, I, o):
        f = I.fields(o)
        g = lambda n: I.getattr(o, n)
        self.b = vec(g("b_sol")); self.be = vec(g("b_error"))
        s = self.s = len(self.b)
        al = I.iterate(g("a_lower"))
        self.A = [[mp.mpf(0)] * s for _ in range(s)]
        self.lower = [vec(r) for r in al]
        for i, r in enumerate(self.lower):
            for j, x in enumerate(r): self.A[i + 1][j] = x
        d = g("a_diagonal")
        self.diag = None if (isinstance(d, T) and d is tm.NONE) else vec(d)
        if self.diag is not None:
            for i, x in enumerate(self.diag): self.A[i][i] = x
        p = g("a_predictor")
        self.pred = None if (isinstance(p, T) and p is tm.NONE) else [vec(r) for r in I.iterate(p)]
        self.c = [num(g("c1"))] + vec(g("c"))
        self.flags = {n: tm.truth(I.to_term(f[n])) for n in ("ssal", "fsal", "implicit") if n in f}
        self.num_stages = num(f["num_stages"]) if "num_stages" in f else None


@functools.lru_cache(None)
def trees(n, colours=1):
    """rooted trees with n nodes, each node coloured 0..colours-1: (colour, sorted tuple of children)"""
    out = []
    for ch in forests(n - 1, colours):
        for c in range(colours): out.append((c, ch))
    return out


@functools.lru_cache(None)
def forests(n, colours):
    """multisets of trees with n nodes in total"""
    res = set()
    def go(rem, minkey, acc):
        if rem == 0: res.add(tuple(acc)); return
        for k in range(1, rem + 1):
            for t in trees(k, colours):
                key = (k, t)
                if key < minkey: continue
                go(rem - k, key, acc + [t])
    go(n, (0, ()), [])
    return sorted(res)


def order(t): return 1 + sum(order(c) for c in t[1])
def gamma(t):
    g = order(t)
    for c in t[1]: g *= gamma(c)
    return g


def show(t):
    s = "τ" if t[0] == 0 else "τ'"
    return s if not t[1] else "[" + " ".join(show(c) for c in t[1]) + "]" + ("" if t[0] == 0 else "'")


def phi(t, tabs, memo):
    """stage vector Φ_i(t)/(per-node root): product over children of A^{(colour)} Φ(child)"""
    if t in memo: return memo[t]
    s = tabs[0].s
    out = [mp.mpf(1)] * s
    for c in t[1]:
        pc = phi(c, tabs, memo)
        A = tabs[c[0]].A
        for i in range(s):
            r = mp.mpf(0)
            for j in range(s):
                if A[i][j] != 0: r += A[i][j] * pc[j]
            out[i] *= r
    memo[t] = out
    return out


def residuals(weights, tabs, p, memo=None, scale=lambda t: mp.mpf(1) / gamma(t)):
    """[(tree, Σ b Φ - scale)] for all coloured trees of order <= p; weights[c] = b vector of colour c"""
    memo = {} if memo is None else memo
    for n in range(1, p + 1):
        for t in trees(n, len(tabs)):
            ph = phi(t, tabs, memo)
            yield t, sum((w * x for w, x in zip(weights[t[0]], ph)), mp.mpf(0)) - scale(t)
