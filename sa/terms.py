"""Hash-consed value-graph terms and their numbering.

A term denotes the value of an expression of the analysed program as a function of the
symbols (parameters, fields, opaque calls) it is computed from.  Two terms are given the
same value number iff randomised identity testing (Schwartz-Zippel in a prime field for the
arithmetic, paired with an ordered interpretation of the comparisons) does not separate them.
"""
from __future__ import annotations
import math, random, zlib
from fractions import Fraction
import numpy as np
import mpmath as mp
mp.mp.dps = 50

P = (1 << 61) - 1


class T:
    __slots__ = ("op", "args", "data", "_h", "uid", "__weakref__")
    _table: dict = {}
    _n = 0

    def __new__(cls, op, args=(), data=None):
        key = (op, data.__class__, data) + tuple(id(a) for a in args)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.data = op, args, data
            T._n += 1
            t.uid = T._n
            cls._table[key] = t
        return t

    # operator overloads build terms
    def __add__(a, b): return add(a, lift(b))
    def __radd__(a, b): return add(lift(b), a)
    def __sub__(a, b): return sub(a, lift(b))
    def __rsub__(a, b): return sub(lift(b), a)
    def __mul__(a, b): return mul(a, lift(b))
    def __rmul__(a, b): return mul(lift(b), a)
    def __truediv__(a, b): return div(a, lift(b))
    def __rtruediv__(a, b): return div(lift(b), a)
    def __pow__(a, b): return power(a, lift(b))
    def __rpow__(a, b): return power(lift(b), a)
    def __neg__(a): return neg(a)
    def __and__(a, b): return land(a, lift(b))
    def __rand__(a, b): return land(lift(b), a)
    def __or__(a, b): return lor(a, lift(b))
    def __ror__(a, b): return lor(lift(b), a)
    def __invert__(a): return lnot(a)
    def __lt__(a, b): return lt(a, lift(b))
    def __le__(a, b): return le(a, lift(b))
    def __gt__(a, b): return lt(lift(b), a)
    def __ge__(a, b): return le(lift(b), a)
    def eq(a, b): return eq(a, lift(b))
    def ne(a, b): return lnot(eq(a, lift(b)))
    def __bool__(self):
        if self.op == "const":
            return bool(self.data)
        raise TypeError("symbolic truth value: " + show(self))
    def __repr__(self): return show(self)
    @property
    def is_const(self): return self.op == "const"
    def sqrt(self): return app("sqrt", self)
    def exp(self): return app("exp", self)


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "const":
        d = t.data
        if isinstance(d, Fraction):
            return str(d) if d.denominator < 10**6 else repr(float(d))
        return repr(d)
    if t.op == "sym":
        return t.data[0]
    if t.op == "enum":
        return t.data
    if depth == 0:
        return "…"
    a = [show(x, depth - 1) for x in t.args]
    if t.op == "add": return "(" + " + ".join(a) + ")"
    if t.op == "mul": return "(" + "*".join(a) + ")"
    if t.op == "inv": return "1/" + a[0]
    if t.op == "ite": return f"where({a[0]}, {a[1]}, {a[2]})"
    if t.op == "lt": return f"({a[0]} < {a[1]})"
    if t.op == "le": return f"({a[0]} <= {a[1]})"
    if t.op == "eq": return f"({a[0]} == {a[1]})"
    if t.op == "and": return "(" + " & ".join(a) + ")"
    if t.op == "or": return "(" + " | ".join(a) + ")"
    if t.op == "not": return "~" + a[0]
    if t.op == "app":
        n = t.data
        if n.startswith("attr:"): return a[0] + "." + n[5:]
        if n == "getitem": return f"{a[0]}[{a[1]}]"
        if n == "tuple": return "(" + ", ".join(a) + ")"
        return n + "(" + ", ".join(a) + ")"
    return t.op + "(" + ", ".join(a) + ")"


def const(v):
    if isinstance(v, T): return v
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return T("const", (), v)
    if isinstance(v, (int, np.integer)): return T("const", (), Fraction(int(v)))
    if isinstance(v, Fraction): return T("const", (), v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if math.isinf(v): return INF if v > 0 else neg(INF)
        if math.isnan(v): return NAN
        return T("const", (), Fraction(repr(v)))
    if isinstance(v, complex): return app("complex", const(v.real), const(v.imag))
    raise TypeError(f"const({v!r})")


lift = const


def sym(name, dom=None): return T("sym", (), (name, dom))
def enum(name): return T("enum", (), name)


NONE = T("const", (), None)
TRUE = T("const", (), True)
FALSE = T("const", (), False)
ZERO = T("const", (), Fraction(0))
ONE = T("const", (), Fraction(1))
INF = sym("inf", "inf")
NAN = sym("nan", "nan")


def _num(t):
    if t.op == "const":
        d = t.data
        if isinstance(d, bool): return Fraction(int(d))
        if isinstance(d, Fraction): return d
    return None


NANPROP = [False]      # harnesses that case-split on missing data: arithmetic on NAN (and division by an exact zero) is NAN


def add(a, b):
    if NANPROP[0] and (a is NAN or b is NAN): return NAN
    x, y = _num(a), _num(b)
    if x is not None and y is not None: return const(x + y)
    if x == 0: return b
    if y == 0: return a
    return T("add", (a, b))


def mul(a, b):
    if NANPROP[0] and (a is NAN or b is NAN): return NAN
    x, y = _num(a), _num(b)
    if x is not None and y is not None: return const(x * y)
    if x == 0 or y == 0: return ZERO
    if x == 1 and not isinstance(a.data, bool): return b
    if y == 1 and not isinstance(b.data, bool): return a
    return T("mul", (a, b))


MINUS1 = const(-1)
def neg(a):
    if NANPROP[0] and a is NAN: return NAN
    x = _num(a)
    if x is not None: return const(-x)
    if a.op == "mul" and a.args[0] is MINUS1: return a.args[1]
    return T("mul", (MINUS1, a))
def sub(a, b):
    if NANPROP[0] and (a is NAN or b is NAN): return NAN
    if a is b and a.op != "sym": return ZERO
    if a is b: return ZERO
    return add(a, neg(b))
def inv(a):
    x = _num(a)
    if NANPROP[0] and (a is NAN or x == 0): return NAN
    if x is not None and x != 0: return const(1 / x)
    if a.op == "inv": return a.args[0]
    return T("inv", (a,))
def div(a, b):
    if _num(b) == 1: return a
    return mul(a, inv(b))
def power(a, b):
    x, y = _num(a), _num(b)
    if y is not None:
        if y.denominator == 1:
            n = int(y)
            if x is not None and (x != 0 or n >= 0) and abs(n) < 4000: return const(x ** n)
            if n == 0: return ONE
            if n == 1: return a
            if abs(n) <= 64:
                r = None; base = a
                m = abs(n)
                while m:
                    if m & 1: r = base if r is None else mul(r, base)
                    base = mul(base, base) if m > 1 else base
                    m >>= 1
                return r if n > 0 else inv(r)
        if y == Fraction(1, 2): return app("sqrt", a)
        if y == Fraction(-1, 2): return inv(app("sqrt", a))
    return app("pow", a, b)


def truth(t):
    """Constant truth value or None."""
    if t.op == "const":
        return bool(t.data)
    if t.op == "enum": return True
    return None


def lt(a, b):
    x, y = _num(a), _num(b)
    if x is not None and y is not None: return const(x < y)
    if a is b: return FALSE
    if b is INF and x is not None: return TRUE
    if a is INF and y is not None: return FALSE
    return T("lt", (a, b))
def le(a, b):
    x, y = _num(a), _num(b)
    if x is not None and y is not None: return const(x <= y)
    return T("le", (a, b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b):
    if a is b and a is not NAN: return TRUE
    if a.op == "const" and b.op == "const":
        x, y = _num(a), _num(b)
        if x is not None and y is not None: return const(x == y)
        return const(a.data == b.data and (a.data is None) == (b.data is None))
    if a.op == "enum" and b.op == "enum": return FALSE
    if a.uid > b.uid: a, b = b, a
    return T("eq", (a, b))
def lnot(a):
    x = truth(a)
    if x is not None: return const(not x)
    if a.op == "not": return a.args[0]
    return T("not", (a,))
def land(a, b):
    x, y = truth(a), truth(b)
    if x is False or y is False: return FALSE
    if x is True: return b
    if y is True: return a
    if a is b: return a
    return T("and", (a, b))
def lor(a, b):
    x, y = truth(a), truth(b)
    if x is True or y is True: return TRUE
    if x is False: return b
    if y is False: return a
    if a is b: return a
    return T("or", (a, b))
def land_all(xs):
    r = TRUE
    for x in xs: r = land(r, x)
    return r
def lor_all(xs):
    r = FALSE
    for x in xs: r = lor(r, x)
    return r
def ite(c, a, b):
    if a is b: return a
    x = truth(c)
    if x is True: return a
    if x is False: return b
    if c.op == "not": return ite(c.args[0], b, a)
    return T("ite", (c, a, b))


# interpreted unary / binary functions (arguments are numbers)
INTERP = {"sqrt", "exp", "expm1", "abs", "sign", "min", "max", "isnan", "isinf", "isfinite",
          "floor", "ceil", "log", "floordiv", "mod", "square", "pow", "isnone", "isposinf"}


def app(name, *args):
    args = tuple(lift(a) for a in args)
    if name == "sqrt":
        x = _num(args[0])
        if x is not None and x >= 0:
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator: return const(Fraction(n, d))
    elif name == "abs":
        x = _num(args[0])
        if x is not None: return const(abs(x))
    elif name in ("min", "max"):
        x, y = _num(args[0]), _num(args[1])
        if x is not None and y is not None: return const(min(x, y) if name == "min" else max(x, y))
        if args[0] is args[1]: return args[0]
    elif name == "exp":
        if _num(args[0]) == 0: return ONE
    elif name == "floordiv":
        x, y = _num(args[0]), _num(args[1])
        if x is not None and y: return const(x // y)
    elif name == "mod":
        x, y = _num(args[0]), _num(args[1])
        if x is not None and y: return const(x % y)
        if y == 1 and is_int(args[0]): return ZERO
    elif name == "isnone":
        a = args[0]
        if a.op == "const": return const(a.data is None)
        if a.op in ("add", "mul", "inv", "lt", "le", "eq", "and", "or", "not", "enum"): return FALSE
        if a.op == "ite": return ite(a.args[0], app("isnone", a.args[1]), app("isnone", a.args[2]))
        if a.op == "sym" and a.data[1] is not None: return FALSE
        if a.op == "app" and (a.data == "tuple" or a.data.startswith("obj:") or a.data in ("lambda", "sqrt", "exp", "abs", "min", "max")): return FALSE
    return T("app", args, name)


def is_int(t):
    if t.op == "const": return _num(t) is not None and _num(t).denominator == 1
    if t.op == "sym": return t.data[1] in ("int", "nat")
    if t.op in ("add", "mul"): return all(is_int(a) for a in t.args)
    if t.op == "ite": return is_int(t.args[1]) and is_int(t.args[2])
    return t.op == "app" and t.data in ("floor", "ceil", "floordiv")


def is_boolish(t):
    return t.op in ("lt", "le", "eq", "and", "or", "not") or (t.op == "const" and isinstance(t.data, bool)) \
        or (t.op == "ite" and is_boolish(t.args[1]) and is_boolish(t.args[2])) \
        or (t.op == "app" and t.data in ("isnan", "isinf", "isfinite", "isnone", "isinstance"))


def contains(t, pred, _seen=None):
    seen = set() if _seen is None else _seen
    st = [t]
    while st:
        x = st.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        if pred(x): return True
        st.extend(x.args)
    return False


def unknown(why, _c=[0]):
    _c[0] += 1
    return T("unknown", (), (why, _c[0]))


def has_unknown(t):
    return contains(t, lambda x: x.op == "unknown")


def subst(t, m, memo=None):
    """Rebuild t with the terms in m (dict T->T) replaced."""
    memo = {} if memo is None else memo
    def go(x):
        if x in m_ids: return m_ids[x]
        r = memo.get(x.uid)
        if r is not None: return r
        if not x.args: r = x
        else:
            a = tuple(go(y) for y in x.args)
            r = rebuild(x, a)
        memo[x.uid] = r
        return r
    m_ids = m
    return go(t)


def subst_apps(t, m, memo=None):
    """Rebuild t with applications of the named functions rewritten."""
    memo = {} if memo is None else memo
    def go(x):
        r = memo.get(x.uid)
        if r is None:
            a = tuple(go(y) for y in x.args)
            r = m[x.data](*a) if x.op == "app" and x.data in m else (rebuild(x, a) if a else x)
            memo[x.uid] = r
        return r
    return go(t)


def rebuild(x, a):
    op = x.op
    if op == "add": return add(*a)
    if op == "mul": return mul(*a)
    if op == "inv": return inv(*a)
    if op == "lt": return lt(*a)
    if op == "le": return le(*a)
    if op == "eq": return eq(*a)
    if op == "and": return land(*a)
    if op == "or": return lor(*a)
    if op == "not": return lnot(*a)
    if op == "ite": return ite(*a)
    if op == "app": return app(x.data, *a)
    return T(op, a, x.data)


# ---------------------------------------------------------------- evaluation

def _mix(x):
    x &= (1 << 64) - 1
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9 & (1 << 64) - 1
    x = (x ^ (x >> 27)) * 0x94D049BB133111EB & (1 << 64) - 1
    return x ^ (x >> 31)


def _crc(s): return zlib.crc32(s.encode())


_FPNONE = 0x1234567890ABCDE
_SMALL = [Fraction(0), Fraction(1), Fraction(-1), Fraction(2), Fraction(1, 2), Fraction(3), Fraction(-2)]


_PROMOTED = ("RESULTS.successful", "RESULTS.successful", "RESULTS.nonlinear_max_steps_reached", "RESULTS.nonlinear_divergence")


class Valuation:
    """One random interpretation: symbols and opaque functions get pseudo-random values."""

    def __init__(self, seed, doms=None, tie=0.12):
        self.seed = _mix(seed * 0x9E3779B97F4A7C15 + 1)
        self.memo = {}
        self.doms = doms or {}
        self.pool = []
        self.drawn = {}
        self.tie = tie
        self.enums = set()

    def rnd(self, *key):
        h = self.seed
        for k in key:
            h = _mix(h ^ (k & ((1 << 64) - 1)) * 0x9E3779B97F4A7C15 + 0x632BE59BD9B4E019)
        return h

    def draw(self, h, dom=None):
        """Value of an opaque application or symbol: a function of its key only (congruence)."""
        k = (h, dom)
        v = self.drawn.get(k)
        if v is None: v = self.drawn[k] = self._draw(h, dom)
        return v

    def _draw(self, h, dom=None):
        r = random.Random(h)
        if dom == "inf": return (_FPNONE ^ 0x77, math.inf)
        if dom == "nan": return (_FPNONE ^ 0x99, math.nan)
        if dom == "bool":
            v = r.random() < 0.5
            return (int(v), float(v))
        if isinstance(dom, tuple) and dom and dom[0] == "enum":
            return self.ev(enum(r.choice(dom[1])))
        if isinstance(dom, tuple) and dom and dom[0] == "choice":
            return self.ev(lift(r.choice(dom[1])))
        if dom in ("int", "nat"):
            n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 12]) if dom == "nat" else r.choice([-3, -2, -1, 0, 1, 2, 3, 5, 9])
            return (n % P, float(n))
        if dom == "pos":
            f = Fraction(r.randint(1, 60), r.randint(1, 9))
        else:
            u = r.random()
            if self.pool and u < self.tie:
                return r.choice(self.pool)
            if u < self.tie + 0.15: f = r.choice(_SMALL)
            else: f = Fraction(r.randint(-90, 90), r.randint(1, 11))
        v = (f.numerator * pow(f.denominator, -1, P) % P, float(f))
        self.pool.append(v)
        return v

    def boolof(self, v):
        fp, fl = v
        if fp == 0: return False
        if fp == 1: return True
        if fp == _FPNONE: return False
        return bool(self.rnd(0xB001, fp) & 1)

    def ev(self, t):
        m = self.memo
        r = m.get(t.uid)
        if r is not None: return r
        # iterative post-order
        st = [t]
        while st:
            x = st[-1]
            if x.uid in m:
                st.pop(); continue
            todo = [a for a in x.args if a.uid not in m]
            if todo:
                st.extend(todo); continue
            m[x.uid] = self._ev1(x)
            st.pop()
        return m[t.uid]

    def cmpdiff(self, a, b):
        """sign of a-b, None if unordered"""
        if a[0] == b[0]: return 0 if not math.isnan(a[1]) else None
        if math.isnan(a[1]) or math.isnan(b[1]): return None
        d = a[1] - b[1]
        if d > 0: return 1
        if d < 0: return -1
        # float tie but different fingerprints: arbitrary but consistent
        if a[0] > b[0]: return -1 if self.rnd(0xC0, b[0], a[0]) & 1 else 1
        return 1 if self.rnd(0xC0, a[0], b[0]) & 1 else -1

    def _ev1(self, x):
        op = x.op; m = self.memo
        if op == "const":
            d = x.data
            if d is None: return (_FPNONE, math.nan)
            if isinstance(d, bool): return (int(d), float(d))
            if isinstance(d, Fraction):
                try: fl = float(d)
                except OverflowError: fl = math.inf if d > 0 else -math.inf
                return (d.numerator * pow(d.denominator, -1, P) % P, fl)
            return (self.rnd(0x57, _crc(repr(d))) % P, math.nan)
        if op == "sym":
            name, dom = x.data
            dom = self.doms.get(name, dom)
            if callable(dom): return dom(self, name)
            return self.draw(self.rnd(0x5, _crc(name)), dom)
        if op == "enum":
            v = (_mix(0xE ^ _crc(x.data)) % P, 1.0)
            self.enums.add(v[0])
            return v
        a = [m[y.uid] for y in x.args]
        if op == "add":
            return ((a[0][0] + a[1][0]) % P, a[0][1] + a[1][1])
        if op == "mul":
            try: fl = a[0][1] * a[1][1]
            except OverflowError: fl = math.inf
            return (a[0][0] * a[1][0] % P, fl)
        if op == "inv":
            fp, fl = a[0]
            if fp == 0: return (_mix(0x1F) % P, math.inf)
            return (pow(fp, -1, P), (1 / fl if fl != 0 else math.inf))
        if op in ("lt", "le", "eq"):
            s = self.cmpdiff(a[0], a[1])
            if op == "eq":
                v = a[0][0] == a[1][0]
            elif s is None:
                v = False if (x.args[0] is NAN or x.args[1] is NAN) else bool(self.rnd(0xCC, a[0][0], a[1][0]) & 1)
            else: v = s < 0 if op == "lt" else s <= 0
            return (int(v), float(v))
        if op == "not":
            v = not self.boolof(a[0]); return (int(v), float(v))
        if op == "and":
            v = self.boolof(a[0]) and self.boolof(a[1]); return (int(v), float(v))
        if op == "or":
            v = self.boolof(a[0]) or self.boolof(a[1]); return (int(v), float(v))
        if op == "ite":
            return a[1] if self.boolof(a[0]) else a[2]
        if op == "app":
            return self._app(x.data, a, x)
        if op == "unknown":
            return self.draw(self.rnd(0x0F, x.data[1]))
        raise AssertionError(op)

    def _opaque(self, name, a):
        h = self.rnd(0xA99, _crc(name), len(a), *[v[0] for v in a])
        return h

    def _app(self, n, a, x):
        if n == "promote":      # result codes of the nonlinear solver, as codes of this package
            return self.ev(enum(_PROMOTED[random.Random(self._opaque(n, a)).randrange(len(_PROMOTED))]))
        if n in ("min", "max"):
            s = self.cmpdiff(a[0], a[1])
            if s is None: return self.draw(self._opaque(n, a))
            if n == "min": return a[0] if s <= 0 else a[1]
            return a[0] if s >= 0 else a[1]
        if n == "abs":
            fp, fl = a[0]
            if math.isnan(fl): return self.draw(self._opaque(n, a))
            return a[0] if fl >= 0 else ((-fp) % P, -fl)
        if n == "sign":
            s = self.cmpdiff(a[0], (0, 0.0))
            if s is None: return self.draw(self._opaque(n, a))
            return (s % P, float(s))
        if n == "sqrt":
            fp, fl = a[0]
            return (self._opaque(n, a) % P, math.sqrt(fl) if fl >= 0 else math.nan)
        if n == "exp":
            fp, fl = a[0]
            try: e = math.exp(fl)
            except OverflowError: e = math.inf
            return (self._opaque(n, a) % P, e)
        if n in ("isnan", "isinf", "isfinite"):
            if x.args[0].op in ("const",): 
                v = n == "isfinite"
                return (int(v), float(v))
            if x.args[0] is NAN: v = n == "isnan"
            elif x.args[0] is INF: v = n == "isinf"
            else: v = bool(self._opaque(n, a) & 1)
            return (int(v), float(v))
        if n == "isposinf":
            v = a[0][1] == math.inf
            return (int(v), float(v))
        if n == "isnone":
            if a[0][0] == _FPNONE: return (1, 1.0)
            v = bool(self._opaque(n, a) & 1)
            if x.args[0].op == "const": v = False
            return (int(v), float(v))
        return self.draw(self._opaque(n, a))



class MPValuation(Valuation):
    """Random interpretation over high-precision reals; used to confirm a difference, so that
    identities of sqrt/exp/pow outside field arithmetic do not count as differences.
    A value is (kind, mpf-or-token)."""

    def _key(self, v):
        if isinstance(v, mp.mpf):
            if mp.isnan(v): return 0xBAD
            if mp.isinf(v): return 0x1F1F if v > 0 else 0x1F20
            if abs(v) < mp.mpf(10) ** -25: return 0
            return _crc(mp.nstr(v, 22)) * 0x1000193 + 7
        return _crc(repr(v)) * 0x1000193 + 11

    def _draw(self, h, dom=None):
        r = random.Random(h)
        if dom == "inf": return mp.inf
        if dom == "nan": return mp.nan
        if dom == "bool": return mp.mpf(1 if r.random() < 0.5 else 0)
        if isinstance(dom, tuple) and dom and dom[0] == "enum": return self.ev(enum(r.choice(dom[1])))
        if isinstance(dom, tuple) and dom and dom[0] == "choice": return self.ev(lift(r.choice(dom[1])))
        if dom in ("int", "nat"):
            return mp.mpf(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 12]) if dom == "nat" else r.choice([-3, -2, -1, 0, 1, 2, 3, 5, 9]))
        if dom == "pos": f = Fraction(r.randint(1, 60), r.randint(1, 9))
        else:
            u = r.random()
            if self.pool and u < self.tie: return r.choice(self.pool)
            if u < self.tie + 0.15: f = r.choice(_SMALL)
            else: f = Fraction(r.randint(-90, 90), r.randint(1, 11))
        v = mp.mpf(f.numerator) / f.denominator
        self.pool.append(v)
        return v

    def boolof(self, v):
        if isinstance(v, mp.mpf):
            if v == 0: return False
            if v == 1: return True
            return bool(self.rnd(0xB001, self._key(v)) & 1)
        if v is None or v == "": return False
        return bool(self.rnd(0xB001, self._key(v)) & 1)

    @staticmethod
    def close(a, b):
        if isinstance(a, mp.mpf) and isinstance(b, mp.mpf):
            if mp.isnan(a) or mp.isnan(b): return mp.isnan(a) and mp.isnan(b)
            if a == b: return True
            if mp.isinf(a) or mp.isinf(b): return False
            return abs(a - b) <= mp.mpf(10) ** -25 * (1 + abs(a) + abs(b))
        return a == b

    def num(self, v):
        if isinstance(v, mp.mpf): return v
        return mp.mpf(self.rnd(0x77, self._key(v)) % 1009) + mp.mpf(1) / 7

    def _ev1(self, x):
        op = x.op; m = self.memo
        B = lambda c: mp.mpf(1 if c else 0)
        if op == "const":
            d = x.data
            if isinstance(d, bool): return B(d)
            if isinstance(d, Fraction): return mp.mpf(d.numerator) / d.denominator
            return d if d is not Ellipsis else "..."
        if op == "sym":
            name, dom = x.data
            dom = self.doms.get(name, dom)
            if callable(dom): return dom(self, name)
            return self.draw(self.rnd(0x5, _crc(name)), dom)
        if op == "enum": return "enum:" + x.data
        a = [m[y.uid] for y in x.args]
        if op == "add": return self.num(a[0]) + self.num(a[1])
        if op == "mul":
            return self.num(a[0]) * self.num(a[1])
        if op == "inv":
            v = self.num(a[0])
            if v == 0: return mp.inf
            return 1 / v
        if op == "eq": return B(self.close(a[0], a[1]) and not (isinstance(a[0], mp.mpf) and mp.isnan(a[0])))
        if op in ("lt", "le"):
            p, q = self.num(a[0]), self.num(a[1])
            if mp.isnan(p) or mp.isnan(q): return B(False)
            if self.close(p, q): return B(op == "le")
            return B(p < q)
        if op == "not": return B(not self.boolof(a[0]))
        if op == "and": return B(self.boolof(a[0]) and self.boolof(a[1]))
        if op == "or": return B(self.boolof(a[0]) or self.boolof(a[1]))
        if op == "ite": return a[1] if self.boolof(a[0]) else a[2]
        if op == "app": return self._app(x.data, a, x)
        if op == "unknown": return self.draw(self.rnd(0x0F, x.data[1]))
        raise AssertionError(op)

    def _opaque(self, name, a):
        return self.rnd(0xA99, _crc(name), len(a), *[self._key(v) for v in a])

    def _app(self, n, a, x):
        if n == "promote":      # result codes of the nonlinear solver, as codes of this package
            return self.ev(enum(_PROMOTED[random.Random(self._opaque(n, a)).randrange(len(_PROMOTED))]))
        B = lambda c: mp.mpf(1 if c else 0)
        if n in ("min", "max", "abs", "sign", "sqrt", "exp", "pow", "log"):
            v = [self.num(q) for q in a]
            if any(mp.isnan(q) for q in v): return mp.nan
            if n == "min": return v[0] if v[0] <= v[1] else v[1]
            if n == "max": return v[0] if v[0] >= v[1] else v[1]
            if n == "abs": return abs(v[0])
            if n == "sign": return mp.mpf(0) if self.close(v[0], mp.mpf(0)) else mp.sign(v[0])
            if n == "sqrt" and v[0] >= 0: return mp.sqrt(v[0])
            if n == "exp" and v[0] < 10 ** 6: return mp.exp(v[0])
            if n == "log" and v[0] > 0: return mp.log(v[0])
            if n == "pow" and v[0] > 0 and abs(v[1]) < 1000: return mp.power(v[0], v[1])
            return self.draw(self._opaque(n, a))
        if n in ("isnan", "isinf", "isfinite"):
            v = a[0]
            if x.args[0].op == "const" or x.args[0] is NAN or x.args[0] is INF:
                v = self.num(v)
                return B({"isnan": mp.isnan(v), "isinf": mp.isinf(v), "isfinite": mp.isfinite(v)}[n])
            return B(self._opaque(n, a) & 1)
        if n == "isposinf": return B(isinstance(a[0], mp.mpf) and mp.isinf(a[0]) and a[0] > 0)
        if n == "isnone":
            if a[0] is None: return B(True)
            if x.args[0].op == "const": return B(False)
            return B(self._opaque(n, a) & 1)
        return self.draw(self._opaque(n, a))


class Vacuous(Exception):
    pass


def differ(a, b, n=160, seed=1, assume=None, doms=None):
    """None if a and b have the same value number; otherwise a separating valuation."""
    a, b = lift(a), lift(b)
    if a is b: return None
    hit = False; good = 0
    for i in range(n if assume is None else n * 60):
        v = Valuation(seed * 1000003 + i, doms, tie=0.12 if i % 3 else 0.35)
        if assume is not None:
            if not v.boolof(v.ev(assume)): continue
        good += 1
        x, y = v.ev(a), v.ev(b)
        if x[0] != y[0]:
            hit = True; break
        if good >= n: break
    if not hit and good < min(n, 20): raise Vacuous(f"the hypothesis holds in only {good} valuations")
    if not hit: return None
    found = None; tested = 0
    for i in range(max(n, 240) if assume is None else max(n, 240) * 60):
        v = MPValuation(seed * 7919 + i, doms, tie=0.12 if i % 3 else 0.35)
        if assume is not None and not v.boolof(v.ev(assume)): continue
        tested += 1
        if tested > max(n, 240): break
        x, y = v.ev(a), v.ev(b)
        if isinstance(x, mp.mpf) and isinstance(y, mp.mpf) and (mp.isnan(x) or mp.isnan(y)): continue
        if not v.close(x, y): return v
    return None


def same(a, b, **kw): return differ(a, b, **kw) is None


def symbols(t):
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        if x.op == "sym": out.add(x)
        st.extend(x.args)
    return out


# ---------------------------------------------------------------- special values
class IEEEValuation(Valuation):
    """Interpretation over IEEE doubles: propagates nan and infinities through the value graph.  Values are Python floats
    (numbers and truth values), None, or tokens (enum members, opaque objects)."""
    def _key(self, v):
        return _crc(repr(v)) * 0x1000193 + 13

    def _draw(self, h, dom=None):
        r = random.Random(h)
        if dom == "inf": return math.inf
        if dom == "nan": return math.nan
        if dom == "bool": return float(r.random() < 0.5)
        if isinstance(dom, tuple) and dom and dom[0] == "enum": return self.ev(enum(r.choice(dom[1])))
        if isinstance(dom, tuple) and dom and dom[0] == "choice": return self.ev(lift(r.choice(dom[1])))
        if dom in ("int", "nat"):
            return float(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 12]) if dom == "nat" else r.choice([-3, -2, -1, 0, 1, 2, 3, 5, 9]))
        if dom == "pos": return r.randint(1, 60) / r.randint(1, 9)
        if r.random() < 0.15: return float(r.choice(_SMALL))
        return r.randint(-90, 90) / r.randint(1, 11)

    def boolof(self, v):
        if isinstance(v, float): return v != 0
        if v is None or v == "": return False
        return True

    def num(self, v):
        if isinstance(v, float): return v
        return self.rnd(0x77, self._key(v)) % 1009 + 1 / 7

    def _ev1(self, x):
        op = x.op; m = self.memo
        if op == "const":
            d = x.data
            if isinstance(d, bool): return float(d)
            if isinstance(d, Fraction):
                try: return float(d)
                except OverflowError: return math.inf if d > 0 else -math.inf
            return d if d is not Ellipsis else "..."
        if op == "sym":
            if x is NAN: return math.nan
            if x is INF: return math.inf
            name, dom = x.data
            dom = self.doms.get(name, dom)
            if callable(dom): return dom(self, name)
            return self.draw(self.rnd(0x5, _crc(name)), dom)
        if op == "enum": return "enum:" + x.data
        a = [m[y.uid] for y in x.args]
        if op in ("add", "mul", "lt", "le", "inv"):
            n = [self.num(q) for q in a]
            if op == "add": return n[0] + n[1]
            if op == "mul": return n[0] * n[1]
            if op == "lt": return float(n[0] < n[1])
            if op == "le": return float(n[0] <= n[1])
            return (1 / n[0]) if n[0] != 0 else math.inf
        if op == "eq": return float(a[0] == a[1])
        if op == "not": return float(not self.boolof(a[0]))
        if op == "and": return float(self.boolof(a[0]) and self.boolof(a[1]))
        if op == "or": return float(self.boolof(a[0]) or self.boolof(a[1]))
        if op == "ite": return a[1] if self.boolof(a[0]) else a[2]
        if op == "app": return self._app(x.data, a, x)
        return self.draw(self.rnd(0x0F, x.data[1]))

    def _opaque(self, name, a):
        return self.rnd(0xA99, _crc(name), len(a), *[self._key(v) for v in a])

    def _app(self, n, a, x):
        if n in self.doms: return self.doms[n](self, a)
        if n == "promote": return self.ev(enum(_PROMOTED[random.Random(self._opaque(n, a)).randrange(len(_PROMOTED))]))
        if n in ("min", "max", "abs", "sign", "sqrt", "exp", "pow", "log", "floor", "ceil"):
            v = [self.num(q) for q in a]
            if any(math.isnan(q) for q in v): return math.nan
            if n == "min": return min(v)
            if n == "max": return max(v)
            if n == "abs": return abs(v[0])
            if n == "sign": return float((v[0] > 0) - (v[0] < 0))
            try:
                if n == "sqrt": return math.sqrt(v[0]) if v[0] >= 0 else math.nan
                if n == "exp": return math.exp(v[0])
                if n == "log": return math.log(v[0]) if v[0] > 0 else (-math.inf if v[0] == 0 else math.nan)
                if n == "pow":
                    if v[0] == 0 and v[1] < 0: return math.inf
                    r = math.pow(v[0], v[1]); return r
                return float(math.floor(v[0]) if n == "floor" else math.ceil(v[0]))
            except (OverflowError, ValueError): return math.inf if n != "pow" else math.nan
        if n in ("isnan", "isinf", "isfinite", "isposinf"):
            v = self.num(a[0])
            return float({"isnan": math.isnan(v), "isinf": math.isinf(v), "isfinite": math.isfinite(v), "isposinf": v == math.inf}[n])
        if n == "isnone": return float(a[0] is None)
        return self.draw(self._opaque(n, a))


def special(t, ok, n=120, seed=1, assume=None, doms=None):
    """Evaluate t under n IEEE interpretations with the given special values; returns an interpretation where ok(value) is False, or None."""
    for i in range(n):
        v = IEEEValuation(seed * 52711 + i, doms)
        if assume is not None and not v.boolof(v.ev(assume)): continue
        if not ok(v.ev(t)): return v
    return None


def differentiable_symbols(t):
    """Symbols and opaque values from which a differentiable path leads to t (paths through stop_gradient, comparisons and
    branch conditions carry no derivative)."""
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        if x.op == "sym": out.add(x.data[0]); continue
        if x.op in ("lt", "le", "eq", "and", "or", "not"): continue
        if x.op == "app" and x.data in ("stop_gradient", "sign", "isnan", "isinf", "isfinite", "floor", "ceil", "isnone"): continue
        if x.op == "ite": st.extend(x.args[1:]); continue
        st.extend(x.args)
    return out
