"""Value-graph construction: a dataflow analysis of Python functions of the repository.

Every expression gets an abstract value, usually a term (terms.T).  Conditions that are not
compile-time constants do not fork the analysis: both arms are analysed and joined by gated phi
nodes.  Calls to functions of the repository are inlined, library calls are interpreted by the
transfer functions of models.py or stay uninterpreted."""
from __future__ import annotations
import ast
from fractions import Fraction
import numpy as np
from . import terms as tm
from .terms import T, const, app, ite, lnot, land, lor, NONE, TRUE, FALSE
from .values import *
from .loader import ClassInfo, AnalysisError


class Guard:
    __slots__ = ("cond", "kind", "exc", "msg", "file", "line", "func")
    def __init__(self, cond, kind, exc, msg, file, line, func):
        self.cond, self.kind, self.exc, self.msg = cond, kind, exc, msg
        self.file, self.line, self.func = file, line, func
    def __repr__(self): return f"<{self.kind} {self.exc} {self.msg[:50]!r} if {self.cond}>"


class Frame:
    __slots__ = ("env", "module", "cls", "exits", "alive", "pc0", "func", "self_")


class Unsupported(Exception): pass


class KeyMissing(Unsupported):
    """a literal dictionary has no such key, inside a `try` that handles it"""


class Definite(Exception):
    """An operation that raises in every execution reaching it, on a path with no undecided condition."""
    def __init__(self, where, msg):
        super().__init__(f"{where}: {msg}"); self.where, self.msg = where, msg


BUILTINS = set("""len isinstance range enumerate zip tuple list dict set frozenset any all sum min max abs getattr hasattr
type float int bool complex print callable object super map reversed sorted str repr issubclass property id iter next
round divmod filter hash vars slice setattr ValueError TypeError NotImplementedError RuntimeError KeyError Exception
AssertionError IndexError ImportError AttributeError StopIteration Warning UserWarning ArithmeticError""".split())


class Interp:
    def __init__(self, repo, max_depth=70, track_grad=False):
        self.repo = repo
        self.layers = [{}]
        self.pc = []
        self.guards = []
        self.concrete_arrays = False     # every array of the harness is an explicit ndarray: a bare term is a scalar
        self.warns = []
        self.calls = []        # log of opaque calls of interest: (name, args term, pc, file, line)
        self.hints = {}        # T -> (ClassInfo, exact)
        self.ext_class = {}
        self.sigs = {}         # T -> [param names] for opaque callables
        self.modenv = {}
        self.modcache = {}
        self.clscache = {}
        self.depth = 0
        self.max_depth = max_depth
        self.lam = 0
        self.file, self.line, self.fname = "?", 0, "?"
        self.batched = True; self.batch_others = {}
        self.opaque = {}       # qualname -> transfer function (interp, args, kwargs)
        self.track_grad = track_grad
        self.muted = 0
        self.steps = 0
        self.visited = set()   # functions analysed (for evidence)
        self.budget = 3_000_000
        from . import models
        self.models = models.MODELS
        self._inprogress = set()
        self.unroll_limit = 128
        self.user_models = {}
        self.with_hook = None
        self.attr_models = {}

    # ------------------------------------------------------------ heap
    def hget(self, uid):
        for l in reversed(self.layers):
            if uid in l: return l[uid]
        return None

    def hset(self, uid, v): self.layers[-1][uid] = v

    def mklist(self, items):
        l = PyList(); self.hset(l.uid, tuple(items)); return l

    def mkdict(self, d):
        x = PyDict(); self.hset(x.uid, dict(d)); return x

    def items(self, l): return self.hget(l.uid)

    def mkobj(self, cls, fields, base=None):
        o = Obj(cls, base); self.hset(o.uid, dict(fields)); return o

    def fields(self, o): return self.hget(o.uid)

    # ------------------------------------------------------------ env
    def newenv(self, parent=None):
        e = Env(parent); self.hset(e.uid, {}); return e

    def getvar(self, env, name):
        e = env
        while e is not None:
            d = self.hget(e.uid)
            if name in d: return d[name]
            e = e.parent
        return None

    def setvar(self, env, name, v):
        e = env
        if name in e.nonlocals:
            e = e.parent
            while e is not None and name not in self.hget(e.uid): e = e.parent
            if e is None: e = env
        d = dict(self.hget(e.uid)); d[name] = v; self.hset(e.uid, d)

    # ------------------------------------------------------------ conversion
    def to_term(self, v):
        if isinstance(v, T): return v
        if isinstance(v, PyTuple): return app("tuple", *[self.to_term(x) for x in v.items])
        if isinstance(v, PyList): return app("tuple", *[self.to_term(x) for x in self.items(v)])
        if isinstance(v, PySet): return app("set", *[self.to_term(x) for x in v.items])
        if isinstance(v, PyDict):
            d = self.hget(v.uid)
            ks = sorted(d, key=lambda k: str(k))
            return app("dict", *[app("kw:" + str(k), self.to_term(d[k])) for k in ks])
        if isinstance(v, Obj):
            f = self.fields(v)
            name = v.cls.name if v.cls else "overlay"
            a = [app("kw:" + k, self.to_term(f[k])) for k in sorted(f)]
            if v.base is not None: a.insert(0, v.base)
            return app("obj:" + name, *a)
        if isinstance(v, np.ndarray):
            if v.ndim == 0: return self.to_term(v.item())
            return app("tuple", *[self.to_term(x) for x in v])
        if isinstance(v, Choice): return ite(v.c, self.to_term(v.a), self.to_term(v.b))
        if isinstance(v, Maybe): return app("maybe", v.c, self.to_term(v.v))
        if isinstance(v, Omega): return self.to_term(v.v)
        if isinstance(v, Path): return self.to_term(v.v)
        if isinstance(v, Star): return v.t
        if isinstance(v, ClassInfo): return T("enum", (), "class:" + v.name)
        if isinstance(v, Ext): return T("enum", (), "ext:" + v.name)
        if isinstance(v, Mod): return T("enum", (), "mod:" + v.name)
        if isinstance(v, SliceV):
            return app("slice", *[self.to_term(x) for x in (v.a, v.b, v.c)])
        if isinstance(v, Func):
            a = v.node.args
            n = len(a.posonlyargs) + len(a.args) - len(v.defaults)
            return self.lambda_term(v, max(n, 0) if not (len(a.posonlyargs) + len(a.args)) else (len(a.posonlyargs) + len(a.args)) if n == 0 else n)
        if isinstance(v, Bound):
            f = v.func
            if isinstance(f, Func):
                a = f.node.args
                n = len(a.posonlyargs) + len(a.args) - len(f.defaults) - 1
                return self.lambda_term(v, max(n, 0))
            return app("bound", self.to_term(v.self_))
        if isinstance(v, Partial):
            return app("partial", self.to_term(v.fn), *[self.to_term(x) for x in v.args],
                       *[app("kw:" + k, self.to_term(x)) for k, x in sorted(v.kwargs.items())])
        if isinstance(v, Native): return T("enum", (), "native:" + v.name)
        if isinstance(v, Treedef): return app("treedef", const(repr(v.s)))
        if isinstance(v, At): return app("at", self.to_term(v.x))
        if isinstance(v, PartV): return app("part", self.to_term(v.x), v.spec, const(v.which))
        if isinstance(v, (bool, int, float, str, Fraction)) or v is None: return const(v)
        raise Unsupported(f"to_term {type(v).__name__}")

    def lambda_term(self, f, n):
        if self.lam > 6: return tm.unknown("nested lambda")
        key = None
        self.lam += 1
        try:
            args = [tm.sym(f"λ{self.lam}.{i}") for i in range(n)]
            try:
                r = self.call(f, args, {})
            except Unsupported:
                raise
            return app("lambda", const(n), self.to_term(r))
        finally:
            self.lam -= 1

    def merge(self, c, a, b):
        if a is b: return a
        t = tm.truth(c)
        if t is True: return a
        if t is False: return b
        if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
        if isinstance(a, Treedef) and isinstance(b, Treedef) and a.s == b.s: return a
        if isinstance(a, PyTuple) and isinstance(b, PyTuple) and len(a.items) == len(b.items):
            return PyTuple([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, PyList) and isinstance(b, PyList):
            x, y = self.items(a), self.items(b)
            if len(x) == len(y):
                return self.mklist([self.merge(c, p, q) for p, q in zip(x, y)])
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            x, y = self.hget(a.uid), self.hget(b.uid)
            if set(x) == set(y): return self.mkdict({k: self.merge(c, x[k], y[k]) for k in x})
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.base is b.base:
            x, y = self.fields(a), self.fields(b)
            if set(x) == set(y):
                return self.mkobj(a.cls, {k: self.merge(c, x[k], y[k]) for k in x}, a.base)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.base is b.base and a.base is not None:
            x, y = self.fields(a), self.fields(b)
            ks = set(x) | set(y)
            g = lambda o, f, k: f[k] if k in f else self.getattr(o, k)
            return self.mkobj(a.cls, {k: self.merge(c, g(a, x, k), g(b, y, k)) for k in ks}, a.base)
        if isinstance(a, Obj) and a.base is not None and b is a.base:
            x = self.fields(a)
            return self.mkobj(a.cls, {k: self.merge(c, x[k], self.getattr(b, k)) for k in x}, a.base)
        if isinstance(b, Obj) and b.base is not None and a is b.base:
            return self.merge(lnot(c), b, a)
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape): out[i] = self.merge(c, a[i], b[i])
            return out
        if isinstance(a, np.ndarray) and isinstance(b, T) and b.is_const:
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape): out[i] = self.merge(c, a[i], b)
            return out
        if isinstance(b, np.ndarray) and isinstance(a, T) and a.is_const:
            return self.merge(lnot(c), b, a)
        if isinstance(a, Omega) and isinstance(b, Omega): return Omega(self.merge(c, a.v, b.v))
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name: return a
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node and a.env is b.env: return a
        return Choice(c, a, b)

    def merge_layer(self, c, la, lb):
        for l, o in ((la, lb), (lb, la)):       # objects created on one side only
            for uid, v in l.items():
                if uid not in o and self.hget(uid) is None: self.hset(uid, v)
        for uid in set(la) | set(lb):
            base = self.hget(uid)
            x = la.get(uid, base); y = lb.get(uid, base)
            if x is y: continue
            if x is None: self.hset(uid, y); continue
            if y is None: self.hset(uid, x); continue
            if isinstance(x, tuple):
                if len(x) == len(y): r = tuple(self.merge(c, p, q) for p, q in zip(x, y))
                else:
                    s, l, cc = (x, y, lnot(c)) if len(x) < len(y) else (y, x, c)
                    r = tuple(self.merge(lnot(cc), p, q) for p, q in zip(s, l)) + tuple(Maybe(cc, q) for q in l[len(s):])
            else:
                r = {}
                for k in list(x) + [k for k in y if k not in x]:
                    if k in x and k in y: r[k] = self.merge(c, x[k], y[k])
                    else: r[k] = x[k] if k in x else y[k]
            self.hset(uid, r)

    # ------------------------------------------------------------ modules and names
    def modframe(self, m):
        fr = Frame()
        fr.env = None; fr.module = m; fr.cls = None; fr.exits = []; fr.alive = True; fr.pc0 = 0; fr.func = "<module>"; fr.self_ = None
        return fr

    def global_value(self, m, name):
        key = (m.name, name)
        if key in self.modcache: return self.modcache[key]
        r = self.repo.resolve(m, name)
        v = self.from_resolved(r)
        if v is not None: self.modcache[key] = v
        return v

    def from_resolved(self, r):
        if r is None: return None
        if isinstance(r, ClassInfo): return r
        if isinstance(r, str): return Ext(r)
        if r[0] == "module": return Mod(r[1])
        if r[0] == "func":
            return self.mkfunc(r[2], None, r[1], None)
        if r[0] == "assign":
            return self.eval_module_assign(r[1], r[2])
        return None

    def eval_module_assign(self, m, st):
        key = ("assign", m.name, id(st))
        if key not in self.modcache:
            if key in self._inprogress: return None
            self._inprogress.add(key)
            saved = (self.pc, self.layers, self.file, self.line, self.fname)
            self.pc = []
            base = self.layers[0]
            self.layers = [base]
            try:
                fr = self.modframe(m)
                self.file = m.path
                v = self.eval(st.value, fr)
                d = {}
                if isinstance(st, ast.AnnAssign): d[st.target.id] = v
                else:
                    fr.env = self.newenv()
                    for t in st.targets: self.assign(t, v, fr)
                    d = self.hget(fr.env.uid)
                # a module-level name may be mutated item-wise afterwards: X[i] = ..., X.attr.__doc__ irrelevant
                self.modcache[key] = d
            finally:
                self.pc, self.layers, self.file, self.line, self.fname = saved
                self._inprogress.discard(key)
        return self.modcache[key]

    def lookup(self, name, fr):
        if fr.env is not None:
            v = self.getvar(fr.env, name)
            if v is not None: return v
        if name == "ω" or name == "omega": 
            return Ext("equinox.internal.ω")
        key = (fr.module.name, name)
        if key in self.modcache: return self.modcache[key]
        r = self.repo.resolve(fr.module, name)
        if r is not None:
            if isinstance(r, tuple) and r[0] == "assign":
                st = r[2]
                d = self.eval_module_assign(r[1], st)
                if d is not None:
                    # the name might be re-exported under another name
                    nm = name if name in d else None
                    if nm is None:
                        dd = fr.module.defs.get(name)
                        nm = dd[2] if dd and dd[0] == "import" else None
                    if nm in d:
                        self.modcache[key] = d[nm]
                        return d[nm]
                return tm.unknown("module value " + name)
            v = self.from_resolved(r)
            if v is not None:
                self.modcache[key] = v
                return v
        if name in BUILTINS: return Ext("builtins." + name)
        if name in ("True", "False", "None"): return const({"True": True, "False": False, "None": None}[name])
        if name in ("__name__", "__file__"): return const(name)
        raise Unsupported(f"name {name}")

    def mkfunc(self, node, env, module, cls, fr=None):
        a = node.args
        defaults, kwdefaults = [], {}
        if fr is None:
            fr = self.modframe(module)
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwdefaults = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(node, "name", "<lambda>")
        return Func(node, env, module, cls, name, defaults, kwdefaults)

    # ------------------------------------------------------------ calling
    def log(self, name, *args):
        self.calls.append((name, args, self.pc_term(), self.file, self.line))

    def pc_term(self): return tm.land_all(self.pc)

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None: raise Unsupported(f"too many args to {f.name}")
            out[a.vararg.arg] = PyTuple(args[len(pos):]); args = args[:len(pos)]
        elif a.vararg is not None: out[a.vararg.arg] = PyTuple(())
        for n, v in zip(pos, args): out[n] = v
        extra = {}
        kwonly = [k.arg for k in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in kwonly: out[k] = v
            else: extra[k] = v
        if a.kwarg is not None: out[a.kwarg.arg] = self.mkdict(extra)
        elif extra: raise Unsupported(f"unexpected keyword {sorted(extra)} to {f.name}")
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:] if nd else [], f.defaults): out.setdefault(n, d)
        for k in kwonly:
            if k not in out:
                if k in f.kwdefaults: out[k] = f.kwdefaults[k]
                else: raise Unsupported(f"missing kwarg {k} to {f.name}")
        for n in pos:
            if n not in out: raise Unsupported(f"missing arg {n} to {f.name}")
        return out

    def call_func(self, f, args, kwargs):
        q = self.repo.homes.get((f.module.name, f.cls.name if f.cls else f.name), f.module.name) + "." + ((f.cls.name + ".") if f.cls else "") + f.name
        for key in (q, f.name if f.cls is None and f.env is None else None):
            if key and key in self.opaque: return self.opaque[key](self, args, kwargs)
        if self.depth > self.max_depth: raise Unsupported("call depth in " + q)
        self.visited.add(q)
        b = self.bind_args(f, args, kwargs)
        fr = Frame()
        fr.env = self.newenv(f.env); fr.module = f.module; fr.cls = f.cls
        fr.exits = []; fr.alive = True; fr.pc0 = len(self.pc); fr.func = f.name
        pos = f.node.args.posonlyargs + f.node.args.args
        fr.self_ = b.get(pos[0].arg) if pos and f.cls is not None else None
        self.hset(fr.env.uid, b)
        saved = (self.file, self.line, self.fname, list(self.pc))
        self.file = f.module.path; self.fname = q; self.line = getattr(f.node, "lineno", 0)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            self.exec_block(f.node.body, fr)
            return self.finish(fr)
        finally:
            self.depth -= 1
            self.file, self.line, self.fname, self.pc = saved

    def finish(self, fr):
        rets = [(c, v) for c, k, v in fr.exits if k == "return"]
        if fr.alive: out = NONE
        elif rets: out = rets.pop()[1]
        else: return NONE    # never returns normally
        for c, v in reversed(rets): out = self.merge(c, v, out)
        return out

    def call(self, f, args, kwargs):
        self.steps += 1
        if self.steps > self.budget: raise Unsupported("analysis budget")
        if isinstance(f, Func): return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, Func): return self.call_func(f.func, [f.self_] + list(args), kwargs)
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, Native): return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, Ext): return self.call_ext(f.name, list(args), dict(kwargs))
        if isinstance(f, ClassInfo): return self.construct(f, list(args), dict(kwargs))
        if isinstance(f, Choice):
            return self.branch(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, Obj):
            return self.call(self.getattr(f, "__call__"), args, kwargs)
        if isinstance(f, Path): return self.call(f.v, args, kwargs)
        if isinstance(f, T):
            if f.op == "ite":
                return self.branch(f.args[0], lambda: self.call(f.args[1], args, kwargs), lambda: self.call(f.args[2], args, kwargs))
            return self.call_opaque(f, args, kwargs)
        raise Unsupported(f"call of {type(f).__name__}")

    def branch(self, c, fa, fb):
        """Join of two computations under condition c."""
        t = self.decide(c)
        if t is True: return fa()
        if t is False: return fb()
        npc = list(self.pc)
        self.layers.append({}); self.pc = npc + [c]
        a = fa(); la = self.layers.pop()
        self.layers.append({}); self.pc = npc + [lnot(c)]
        b = fb(); lb = self.layers.pop()
        self.pc = npc
        # keep heap objects created in the arms reachable
        self.merge_layer(c, la, lb)
        return self.merge(c, a, b)

    def decide(self, c):
        t = tm.truth(c)
        if t is not None: return t
        for p in self.pc:
            if p is c: return True
            if p.op == "not" and p.args[0] is c: return False
            if c.op == "not" and c.args[0] is p: return False
        if c.op == "and":
            x, y = self.decide(c.args[0]), self.decide(c.args[1])
            if x is False or y is False: return False
            if x and y: return True
        if c.op == "or":
            x, y = self.decide(c.args[0]), self.decide(c.args[1])
            if x is True or y is True: return True
            if x is False and y is False: return False
        if c.op == "not":
            x = self.decide(c.args[0])
            if x is not None: return not x
        return None

    def kwterms(self, kwargs): return [app("kw:" + k, self.to_term(v)) for k, v in sorted(kwargs.items())]

    def call_opaque(self, f, args, kwargs):
        sig = self.sigs.get(f)
        if sig:
            kwargs = dict(kwargs)
            for n, v in zip(sig, args): kwargs[n] = v
            args = list(args)[len(sig):]
        name = "call"
        r = app(name, f, *[self.to_term(a) for a in args], *self.kwterms(kwargs))
        self.log("call:" + tm.show(f), f, args, kwargs)
        return r

    def call_ext(self, name, args, kwargs):
        from . import models
        args, kwargs = models.positional(name, args, kwargs)
        h = self.user_models.get(name) or self.models.get(name)
        if h is not None: return h(self, args, kwargs)
        h = models.lookup(name)
        if h is not None: return h(self, args, kwargs)
        self.log(name, args, kwargs)
        return app(name, *[self.to_term(a) for a in args], *self.kwterms(kwargs))

    def construct(self, cls, args, kwargs):
        q = "new:" + cls.name
        if q in self.opaque: return self.opaque[q](self, args, kwargs)
        found = cls.lookup("__init__")
        o = Obj(cls); self.hset(o.uid, {})
        if found and isinstance(found[1], ast.FunctionDef):
            owner, node = found
            self.call_func(self.mkfunc(node, None, owner.module, owner), [o] + list(args), kwargs)
        else:
            flds = cls.all_fields()
            d = {}
            names = list(flds)
            ext = cls.external_bases()
            for n, v in zip(names, args): d[n] = v
            for k, v in kwargs.items():
                d[k] = v
            for n, (ann, default, owner) in flds.items():
                if n not in d and default is not None:
                    dv = self.field_default(default, owner)
                    if dv is not None: d[n] = dv
            self.hset(o.uid, d)
            pi = cls.lookup("__post_init__")
            if pi and isinstance(pi[1], ast.FunctionDef):
                self.call_func(self.mkfunc(pi[1], None, pi[0].module, pi[0]), [o], {})
        for c in reversed(cls.mro()):
            for nm in ("__check_init__",):
                if nm in c.attrs and isinstance(c.attrs[nm], ast.FunctionDef):
                    self.call_func(self.mkfunc(c.attrs[nm], None, c.module, c), [o], {})
        return o

    def field_default(self, default, owner):
        fr = self.modframe(owner.module)
        if isinstance(default, ast.Call):
            fn = ast.unparse(default.func)
            if fn.split(".")[-1] in ("field", "static_field"):
                for k in default.keywords:
                    if k.arg == "default": return self.eval(k.value, fr)
                    if k.arg == "default_factory": return self.call(self.eval(k.value, fr), [], {})
                return None
        return self.eval(default, fr)

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name, fr=None):
        found = cls.lookup(name)
        if not found: return None
        owner, node = found
        if isinstance(node, ast.FunctionDef):
            return ("func", owner, node)
        key = ("clsattr", owner.qual, name)
        if key not in self.clscache:
            saved = (self.pc, self.layers, self.file, self.line)
            self.pc, self.layers = [], [self.layers[0]]
            try:
                f = self.modframe(owner.module)
                f.env = self.newenv()
                # class bodies may refer to earlier class attributes
                self.clscache[key] = self.eval(node, f)
            except Unsupported as e:
                # resolve names defined in the class body
                self.clscache[key] = self.eval_in_class(owner, node)
            finally:
                self.pc, self.layers, self.file, self.line = saved
        return ("value", owner, self.clscache[key])

    def eval_in_class(self, owner, node):
        f = self.modframe(owner.module)
        f.env = self.newenv()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in owner.attrs and not isinstance(owner.attrs[n.id], ast.FunctionDef):
                if owner.attrs[n.id] is not node:
                    self.setvar(f.env, n.id, self.eval_in_class(owner, owner.attrs[n.id]))
        return self.eval(node, f)

    def decorators(self, node):
        out = []
        for d in node.decorator_list:
            if isinstance(d, ast.Call): d = d.func
            out.append(ast.unparse(d).split(".")[-1])
        return out

    def bind_class_func(self, owner, node, self_, cls):
        decs = self.decorators(node)
        f = self.mkfunc(node, None, owner.module, owner)
        if "staticmethod" in decs: return f
        if "classmethod" in decs: return Bound(f, cls)
        if "property" in decs or "cached_property" in decs:
            return self.call_func(f, [self_], {})
        return Bound(f, self_)

    def getattr(self, v, name):
        if name == "ω":
            return v.v if isinstance(v, Omega) else v
        if isinstance(v, Path):
            if name in ("append",): raise Unsupported("path method")
            return Path(self.getattr(v.v, name), v.path + (("a", name),))
        if isinstance(v, Obj):
            f = self.fields(v)
            if name in f: return f[name]
            if v.cls is not None:
                r = self.class_attr(v.cls, name)
                if r is not None:
                    if r[0] == "func": return self.bind_class_func(r[1], r[2], v, v.cls)
                    if v.base is None or name not in v.cls.all_fields(): return r[2]
            if v.base is not None: return self.getattr(v.base, name)
            if name == "__class__": return v.cls
            return app("attr:" + name, self.to_term(v))
        if isinstance(v, ClassInfo):
            ext = v.external_bases()
            if name == "__name__": return const(v.name)
            r = self.class_attr(v, name)
            if r is None:
                if any(b.endswith("Enumeration") or b.endswith("RESULTS") for b in ext):
                    if name in ("where", "promote"): return self.enum_attr(v, name)
                    return T("enum", (), "RESULTS." + name)
                return app("attr:" + name, self.to_term(v))
            if any(b.endswith("Enumeration") or b.endswith("RESULTS") for b in ext) and r[0] == "value":
                return T("enum", (), f"{'RESULTS' if v.name == 'RESULTS' else v.name}.{name}")
            if r[0] == "func":
                decs = self.decorators(r[2])
                f = self.mkfunc(r[2], None, r[1].module, r[1])
                if "classmethod" in decs: return Bound(f, v)
                return f
            return r[2]
        if isinstance(v, Ext):
            if v.name.endswith("RESULTS"):
                if name in ("where", "promote"): return Ext("RESULTS." + name)
                return T("enum", (), "RESULTS." + name)
            return self.ext_attr(v.name + "." + name)
        if isinstance(v, Mod):
            m = self.repo.modules[v.name]
            fr = self.modframe(m)
            try: return self.lookup(name, fr)
            except Unsupported:
                if v.name + "." + name in self.repo.modules: return Mod(v.name + "." + name)
                raise
        if isinstance(v, Choice):
            return self.merge(v.c, self.getattr(v.a, name), self.getattr(v.b, name))
        if isinstance(v, Super):
            mro = v.cls_mro if hasattr(v, "cls_mro") else None
            s = v.self_
            scls = s.cls if isinstance(s, Obj) else (self.hints[s][0] if isinstance(s, T) and s in self.hints else (s if isinstance(s, ClassInfo) else v.cls))
            mro = scls.mro()
            i = mro.index(v.cls) if v.cls in mro else 0
            for c in mro[i + 1:]:
                if name in c.attrs and isinstance(c.attrs[name], ast.FunctionDef):
                    return self.bind_class_func(c, c.attrs[name], s, scls)
            if name == "__instancecheck__" and isinstance(s, ClassInfo):      # that of `type`
                return Native(lambda I, a, k: const(isinstance(a[0], Obj) and a[0].cls is not None and a[0].cls.issub(s)), "type.__instancecheck__")
            return Native(lambda I, a, k: NONE, "super." + name)
        if isinstance(v, Omega):
            if name == "call":
                return Native(lambda I, a, k: Omega(I.models["jax.tree_util.tree_map"](I, [a[0], v.v], {})), "call")
            if name == "at": return At(v)
            return Omega(self.getattr(v.v, name))
        if isinstance(v, Partial) and name in ("func", "args", "keywords"):
            return {"func": v.fn, "args": PyTuple(v.args), "keywords": self.mkdict(v.kwargs)}[name]
        if isinstance(v, np.ndarray):
            from . import models
            return models.ndarray_attr(self, v, name)
        if isinstance(v, At):
            from . import models
            return models.at_attr(self, v, name)
        if isinstance(v, PyList):
            from . import models
            return models.list_attr(self, v, name)
        if isinstance(v, PyDict):
            from . import models
            return models.dict_attr(self, v, name)
        if isinstance(v, (PyTuple, PySet, Treedef)):
            from . import models
            return models.tuple_attr(self, v, name)
        if isinstance(v, Func):
            if name == "__name__": return const(v.name)
            if name in ("def_fwd", "def_bwd", "defjvp"):
                return Native(lambda I, a, k: NONE, name)
            return app("attr:" + name, const("func:" + v.name))
        if isinstance(v, (Bound, Native)):
            return app("attr:" + name, const("fn"))
        if isinstance(v, T):
            return self.term_attr(v, name)
        raise Unsupported(f"attribute {name} of {type(v).__name__}")

    def ext_attr(self, dotted):
        if dotted in ("jax.numpy.inf", "numpy.inf", "math.inf"): return tm.INF
        if dotted in ("jax.numpy.nan", "numpy.nan", "math.nan"): return tm.NAN
        if dotted == "jax.config.jax_numpy_dtype_promotion": return const("standard")   # JAX's default
        if dotted in ("jax.numpy.pi", "math.pi", "numpy.pi"): return tm.sym("pi", "pos")
        if dotted in ("jax.numpy.newaxis", "numpy.newaxis"): return NONE
        return Ext(dotted)

    def enum_attr(self, cls, name): return Ext("RESULTS." + name)

    def term_attr(self, v, name):
        am = self.attr_models.get((v, name))
        if am is not None: return am
        if self.concrete_arrays and name in ("shape", "ndim", "size") and v not in self.hints:
            return PyTuple([]) if name == "shape" else const(0 if name == "ndim" else 1)
        h = self.hints.get(v)
        if h is not None:
            cls, exact = h
            r = cls.lookup(name)
            if r is not None and isinstance(r[1], ast.FunctionDef):
                if exact: return self.bind_class_func(r[0], r[1], v, cls)
                owner, node = r
                decs = self.decorators(node)
                if "property" in decs: return app("attr:" + name, v)
                params = [a.arg for a in node.args.posonlyargs + node.args.args]
                if "staticmethod" not in decs: params = params[1:]
                pt = app("method:" + name, v)
                return Native(lambda I, a, k: I.call_method(pt, name, params, node, a, k), name)
            if r is not None and exact and name not in cls.all_fields():
                cr = self.class_attr(cls, name)
                if cr[0] == "value": return cr[2]
            out = app("attr:" + name, v)
            flds = cls.all_fields()
            if name in flds and out not in self.hints:
                rr = self.repo.resolve_expr(flds[name][2].module, flds[name][0])
                if isinstance(rr, ClassInfo): self.hints[out] = (rr, False)
            return out
        from . import models
        r = models.term_attr(self, v, name)
        if r is not None: return r
        if v.op == "ite":
            return self.merge(v.args[0], self.getattr(v.args[1], name), self.getattr(v.args[2], name))
        return app("attr:" + name, v)

    def call_method(self, pt, name, params, node, args, kwargs):
        kw = dict(kwargs)
        for n, a in zip(params, args): kw[n] = a
        rest = list(args)[len(params):]
        a = node.args
        # fill in literal defaults so that explicit and implicit defaults coincide
        pos = [p.arg for p in a.posonlyargs + a.args]
        for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if n not in kw and isinstance(d, ast.Constant): kw[n] = const(d.value)
        r = app("call", pt, *[self.to_term(x) for x in rest], *self.kwterms(kw))
        self.log("method:" + name, pt, rest, kw)
        return r

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for st in stmts:
            if not fr.alive: return
            self.exec(st, fr)

    def local_pc(self, fr): return tm.land_all(self.pc[fr.pc0:])

    def guard(self, cond, kind, exc, msg):
        if self.muted: return
        c = land(self.pc_term(), cond)
        if tm.truth(c) is False: return
        self.guards.append(Guard(c, kind, exc, msg, self.file, self.line, self.fname))

    def exec(self, st, fr):
        self.line = getattr(st, "lineno", self.line)
        self.steps += 1
        if self.steps > self.budget: raise Unsupported("analysis budget")
        k = type(st).__name__
        if k == "Expr":
            if isinstance(st.value, ast.Constant): return
            self.eval(st.value, fr)
        elif k == "Assign":
            v = self.eval(st.value, fr)
            for t in st.targets: self.assign(t, v, fr)
        elif k == "AnnAssign":
            if st.value is not None: self.assign(st.target, self.eval(st.value, fr), fr)
        elif k == "AugAssign":
            cur = self.eval(ast.copy_location(self._load(st.target), st), fr)
            v = self.binop(st.op, cur, self.eval(st.value, fr))
            if isinstance(cur, PyList) and isinstance(st.op, ast.Add):
                extra = self.iterate(self.eval(st.value, fr))
                self.hset(cur.uid, self.items(cur) + tuple(extra)); return
            self.assign(st.target, v, fr)
        elif k == "Return":
            v = self.eval(st.value, fr) if st.value is not None else NONE
            fr.exits.append((self.local_pc(fr), "return", v)); fr.alive = False
        elif k == "If": self.exec_if(st, fr)
        elif k == "For": self.exec_for(st, fr)
        elif k == "While": self.exec_while(st, fr)
        elif k in ("FunctionDef",):
            f = self.mkfunc(st, fr.env, fr.module, None, fr)
            v = f
            for d in reversed(st.decorator_list):
                v = self.decorate(d, v, fr)
            self.setvar(fr.env, st.name, v)
        elif k == "Raise":
            exc, msg = self.exc_info(st.exc, fr)
            self.guard(TRUE, "raise", exc, msg)
            fr.exits.append((self.local_pc(fr), "raise", None)); fr.alive = False
        elif k == "Assert":
            if isinstance(st.test, ast.Constant) and st.test.value is False:
                fr.exits.append((self.local_pc(fr), "raise", None)); fr.alive = False
        elif k in ("Pass", "Import", "ImportFrom", "Global"):
            if k == "ImportFrom" and fr.env is not None:
                base = self.repo._abs(fr.module, st)
                for a in st.names:
                    if base in self.repo.modules:
                        m = self.repo.modules[base]
                        v = self.lookup(a.name, self.modframe(m))
                    else: v = Ext(base + "." + a.name)
                    self.setvar(fr.env, a.asname or a.name, v)
            elif k == "Import" and fr.env is not None:
                for a in st.names:
                    self.setvar(fr.env, a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]))
        elif k == "Nonlocal": fr.env.nonlocals.update(st.names)
        elif k == "Delete":
            for t in st.targets:
                if isinstance(t, ast.Name):
                    d = dict(self.hget(fr.env.uid)); d.pop(t.id, None); self.hset(fr.env.uid, d)
                elif isinstance(t, ast.Subscript):
                    o = self.eval(t.value, fr); i = self.eval(t.slice, fr)
                    self.log("delitem", o, i)
                    if isinstance(o, PyDict):
                        d = dict(self.hget(o.uid)); k2 = self.key(i)
                        if k2 in d: del d[k2]; self.hset(o.uid, d)
                        elif getattr(self, "key_handlers", 0) and not isinstance(k2, (T, V)): raise KeyMissing(str(k2))
        elif k == "With":
            held = []
            for it in st.items:
                v = self.eval(it.context_expr, fr)
                self.log("with", v)
                if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
                if self.with_hook is not None: held.append(v); self.with_hook(self, v, True)
            try: self.exec_block(st.body, fr)
            finally:
                for v in reversed(held): self.with_hook(self, v, False)
        elif k == "Try": self.exec_try(st, fr)
        elif k == "Break": fr.exits.append((self.local_pc(fr), "break", None)); fr.alive = False
        elif k == "Continue": fr.exits.append((self.local_pc(fr), "continue", None)); fr.alive = False
        elif k == "ClassDef": self.setvar(fr.env, st.name, tm.unknown("local class"))
        else: raise Unsupported("statement " + k)

    def decorate(self, d, v, fr):
        s = ast.unparse(d)
        base = s.split("(")[0].split(".")[-1]
        if base in ("wraps", "jit", "filter_jit", "checkpoint", "named_call", "partial", "custom_jvp", "custom_vjp",
                    "filter_custom_vjp", "filter_custom_jvp", "lru_cache", "cache", "doc_remove_args", "property", "staticmethod"):
            return v
        dv = self.eval(d, fr)
        return self.call(dv, [v], {})

    def exc_info(self, e, fr):
        if e is None: return "reraise", ""
        if isinstance(e, ast.Call):
            msg = " ".join(self.text(a, fr) for a in e.args)
            return ast.unparse(e.func).split(".")[-1], msg
        return ast.unparse(e), ""

    def text(self, e, fr=None):
        if isinstance(e, ast.Constant): return str(e.value)
        if isinstance(e, ast.JoinedStr):
            return "".join(self.text(v, fr) if isinstance(v, ast.Constant) else "{}" for v in e.values)
        if isinstance(e, ast.BinOp): return self.text(e.left, fr) + self.text(e.right, fr)
        if isinstance(e, ast.Name) and fr is not None:
            try: v = self.lookup(e.id, fr)
            except Unsupported: return ""
            if isinstance(v, T) and v.is_const and isinstance(v.data, str): return v.data
        return ""

    def _load(self, t):
        if isinstance(t, ast.Name): return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute): return ast.Attribute(t.value, t.attr, ast.Load())
        return ast.Subscript(t.value, t.slice, ast.Load())

    def exec_if(self, st, fr):
        c = self.truthy(self.eval(st.test, fr))
        t = self.decide(c)
        if t is True: self.exec_block(st.body, fr); return
        if t is False: self.exec_block(st.orelse, fr); return
        npc = list(self.pc)
        self.layers.append({}); self.pc = npc + [c]
        self.exec_block(st.body, fr); aA = fr.alive; la = self.layers.pop(); fr.alive = True
        self.layers.append({}); self.pc = npc + [lnot(c)]
        self.exec_block(st.orelse, fr); aB = fr.alive; lb = self.layers.pop()
        self.pc = npc
        nexits = [k for _, k, _ in fr.exits]
        if aA and aB:
            self.merge_layer(c, la, lb); fr.alive = True
        elif aA or aB:
            live, dead_c = (la, lnot(c)) if aA else (lb, c)
            dead = lb if aA else la
            for uid, v in dead.items():
                if self.hget(uid) is None and uid not in live: self.hset(uid, v)
            for uid, v in live.items(): self.hset(uid, v)
            fr.alive = True
            self.pc = npc + [lnot(dead_c)]
        else:
            for l in (la, lb):
                for uid, v in l.items():
                    if self.hget(uid) is None: self.hset(uid, v)
            fr.alive = False

    def exec_try(self, st, fr):
        for h in st.handlers:
            self.log("except", h)
        hs = [h for h in st.handlers if h.type is None or any(x in ast.unparse(h.type) for x in ("KeyError", "LookupError")) or ast.unparse(h.type) in ("Exception", "BaseException")]
        caught = False
        if hs:
            pc = list(self.pc); self.key_handlers = getattr(self, "key_handlers", 0) + 1
            try: self.exec_block(st.body, fr)
            except KeyMissing:
                caught = True; self.pc[:] = pc
            finally: self.key_handlers -= 1
            if caught: self.exec_block(hs[0].body, fr)
        else: self.exec_block(st.body, fr)
        if fr.alive and not caught: self.exec_block(st.orelse, fr)
        if st.finalbody:
            al = fr.alive; fr.alive = True
            self.exec_block(st.finalbody, fr)
            fr.alive = al and fr.alive

    def exec_for(self, st, fr):
        it = self.eval(st.iter, fr)
        seq = self.iterate(it)
        broke = FALSE
        for el in seq:
            cond = TRUE
            if isinstance(el, Maybe): cond, el = el.c, el.v
            run = land(cond, lnot(broke))
            t = tm.truth(run)
            if t is False:
                if tm.truth(broke) is True: break
                continue
            n0 = len(fr.exits)
            pc_before = list(self.pc)
            if t is True:
                self.assign(st.target, el, fr)
                self.exec_block(st.body, fr)
            else:
                self.layers.append({}); self.pc = self.pc + [run]
                self.assign(st.target, el, fr)
                self.exec_block(st.body, fr)
                l = self.layers.pop()
                self.merge_layer(run, l, {})
            self.pc = pc_before
            new = fr.exits[n0:]
            loopx = [(c, k) for c, k, _ in new if k in ("break", "continue")]
            fr.exits[n0:] = [x for x in new if x[1] not in ("break", "continue")]
            base = tm.land_all(self.pc[fr.pc0:])
            for c, k in loopx:
                if k == "break":
                    broke = lor(broke, self.relative(c, fr))
            if not fr.alive:
                hard = [x for x in fr.exits[n0:] if x[1] in ("return", "raise")]
                if loopx: fr.alive = True
                elif t is True and hard and not loopx:
                    return
                else: fr.alive = True
            if tm.truth(broke) is True: break
        if st.orelse:
            t = tm.truth(broke)
            if t is True: return
            if t is False: self.exec_block(st.orelse, fr)
            else:
                self.layers.append({}); npc = list(self.pc); self.pc = npc + [lnot(broke)]
                self.exec_block(st.orelse, fr)
                l = self.layers.pop(); self.pc = npc
                self.merge_layer(lnot(broke), l, {})

    def relative(self, c, fr):
        """c is a local path condition; drop conjuncts already in the current pc."""
        cur = set(id(x) for x in self.pc)
        def go(x):
            if id(x) in cur: return TRUE
            if x.op == "and": return land(go(x.args[0]), go(x.args[1]))
            return x
        return go(c)

    def exec_while(self, st, fr):
        for _ in range(self.unroll_limit * 4):
            c = self.decide(self.truthy(self.eval(st.test, fr)))
            if c is None: raise Unsupported("while with non-constant condition")
            if not c: break
            n0 = len(fr.exits)
            self.exec_block(st.body, fr)
            new = fr.exits[n0:]
            kinds = [k for _, k, _ in new]
            fr.exits[n0:] = [x for x in new if x[1] not in ("break", "continue")]
            if not fr.alive:
                if "break" in kinds: fr.alive = True; return
                if "continue" in kinds: fr.alive = True; continue
                return
            if "break" in kinds: raise Unsupported("conditional break in while")
        else: raise Unsupported("while not bounded")
        self.exec_block(st.orelse, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.setvar(fr.env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            starred = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if starred:
                seq = list(self.iterate(v)); i = starred[0]; after = len(t.elts) - i - 1
                vals = seq[:i] + [self.mklist(seq[i:len(seq) - after])] + (seq[len(seq) - after:] if after else [])
            else: vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals): self.assign(e, x, fr)
        elif isinstance(t, ast.Starred): self.assign(t.value, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            if isinstance(o, Obj): self.setattr(o, t.attr, v)
            elif isinstance(o, (ClassInfo, Func, Ext)): pass
            else:
                self.log("setattr", o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr); i = self.eval(t.slice, fr)
            self.setitem(o, i, v)
        else: raise Unsupported("assign target")

    def setattr(self, o, name, v):
        d = dict(self.fields(o)); d[name] = v; self.hset(o.uid, d)

    def unpack(self, v, n):
        if isinstance(v, T):
            if v.op == "app" and v.data == "tuple" and len(v.args) == n: return list(v.args)
            if v.op == "ite":
                a, b = self.unpack(v.args[1], n), self.unpack(v.args[2], n)
                return [self.merge(v.args[0], x, y) for x, y in zip(a, b)]
            return [app("getitem", v, const(i)) for i in range(n)]
        if isinstance(v, Choice):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return [self.merge(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, Path): return [self.subscript(v, const(i)) for i in range(n)]
        seq = list(self.iterate(v))
        if len(seq) != n: raise Unsupported(f"unpack {len(seq)} into {n}")
        return seq

    def setitem(self, o, i, v):
        if isinstance(o, PyDict):
            d = dict(self.hget(o.uid)); d[self.key(i)] = v; self.hset(o.uid, d); return
        if isinstance(o, PyList):
            l = list(self.items(o)); l[self.intval(i)] = v; self.hset(o.uid, tuple(l)); return
        if isinstance(o, np.ndarray):
            idx = self.npindex(i)
            if isinstance(v, (PyTuple, PyList)): v = np.array(list(self.iterate(v)), dtype=object)
            o[idx] = v; return
        self.log("setitem", o, i, v)

    def key(self, i):
        if isinstance(i, T) and i.is_const: return i.data
        return i

    def intval(self, i):
        if isinstance(i, T) and i.is_const and isinstance(i.data, (Fraction, bool)) and Fraction(i.data).denominator == 1: return int(i.data)
        raise Unsupported("index not constant")

    def npindex(self, i):
        if isinstance(i, PyTuple): return tuple(self.npindex(x) for x in i.items)
        if isinstance(i, SliceV):
            g = lambda x: None if x is None or (isinstance(x, T) and x is NONE) else self.intval(x)
            return slice(g(i.a), g(i.b), g(i.c))
        if isinstance(i, T) and i.is_const:
            if i.data is Ellipsis: return Ellipsis
            if i.data is None: return None
        return self.intval(i)

    def iterate(self, v):
        if isinstance(v, PyTuple): return list(v.items)
        if isinstance(v, PyList): return list(self.items(v))
        if isinstance(v, PySet): return list(v.items)
        if isinstance(v, PyDict): return [const(k) if not isinstance(k, (T, V)) else k for k in self.hget(v.uid)]
        if isinstance(v, np.ndarray): return [x for x in v]
        if isinstance(v, Omega): return [Omega(x) for x in self.iterate(v.v)]
        if isinstance(v, Path):
            return [Path(x, v.path + (("i", i),)) for i, x in enumerate(self.iterate(v.v))]
        if isinstance(v, T):
            if v.op == "app" and v.data == "tuple": return list(v.args)
        if isinstance(v, Choice):
            a, b = self.iterate(v.a), self.iterate(v.b)
            if len(a) == len(b): return [self.merge(v.c, x, y) for x, y in zip(a, b)]
            s, l, cc = (a, b, lnot(v.c)) if len(a) < len(b) else (b, a, v.c)
            return [self.merge(lnot(cc), x, y) for x, y in zip(s, l)] + [Maybe(cc, y) for y in l[len(s):]]
        raise Unsupported(f"iterate over {v!r}"[:120])

    # ------------------------------------------------------------ expressions
    def truthy(self, v):
        if isinstance(v, T):
            if v.op == "sym" and v.data[1] in ("nat", "int", "pos"): return lnot(tm.eq(v, tm.ZERO))
            t = tm.truth(v)
            if t is not None: return const(t)
            return v
        if isinstance(v, PyTuple): return const(len(v.items) > 0)
        if isinstance(v, PyList):
            it = self.items(v)
            if any(not isinstance(x, Maybe) for x in it): return TRUE
            return tm.lor_all([x.c for x in it])
        if isinstance(v, PyDict): return const(len(self.hget(v.uid)) > 0)
        if isinstance(v, PySet): return const(len(v.items) > 0)
        if isinstance(v, Choice): return ite(v.c, self.truthy(v.a), self.truthy(v.b))
        if isinstance(v, Path): return self.truthy(v.v)
        if isinstance(v, np.ndarray) and v.size == 1: return self.truthy(v.item())
        return TRUE

    def eval(self, e, fr):
        self.steps += 1
        k = type(e).__name__
        m = getattr(self, "e_" + k, None)
        if m is None: raise Unsupported("expression " + k)
        return m(e, fr)

    def e_Constant(self, e, fr): return const(e.value)
    def e_Name(self, e, fr): return self.lookup(e.id, fr)
    def e_Attribute(self, e, fr): return self.getattr(self.eval(e.value, fr), e.attr)
    def e_Tuple(self, e, fr): return PyTuple(self.elts(e.elts, fr))
    def e_List(self, e, fr): return self.mklist(self.elts(e.elts, fr))
    def e_Set(self, e, fr): return PySet(self.elts(e.elts, fr))
    def e_Starred(self, e, fr): raise Unsupported("starred")
    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr); self.assign(e.target, v, fr); return v

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                if isinstance(v, T) and not (v.op == "app" and v.data == "tuple"): out.append(Star(v))
                else: out.extend(self.iterate(v))
            else: out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, fr)
                if isinstance(x, PyDict): d.update(self.hget(x.uid))
                else: d[("**", tm.show(self.to_term(x)))] = x
            else: d[self.key(self.eval(k, fr))] = self.eval(v, fr)
        return self.mkdict(d)

    def e_JoinedStr(self, e, fr): return const(self.text(e))
    def e_FormattedValue(self, e, fr): return const("{}")

    def e_Lambda(self, e, fr): return self.mkfunc(e, fr.env, fr.module, None, fr)

    def e_IfExp(self, e, fr):
        c = self.truthy(self.eval(e.test, fr))
        return self.branch(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def e_BoolOp(self, e, fr):
        vals = e.values
        isand = isinstance(e.op, ast.And)
        def go(i):
            v = self.eval(vals[i], fr)
            if i == len(vals) - 1: return v
            c = self.truthy(v)
            t = self.decide(c)
            if isand:
                if t is False: return v
                if t is True: return go(i + 1)
                r = self.branch(c, lambda: go(i + 1), lambda: FALSE)
                return r if not isinstance(r, T) else (land(c, self.truthy(r.args[1])) if r.op == "ite" and r.args[0] is c else self._and(c, r))
            if t is True: return v
            if t is False: return go(i + 1)
            r = self.branch(c, lambda: v if not tm.is_boolish(c) else TRUE, lambda: go(i + 1))
            return r
        return go(0)

    def _and(self, c, r): return r

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(v, Choice): return self.merge(v.c, self.unop(op, v.a), self.unop(op, v.b))
        if isinstance(op, ast.Not): return lnot(self.truthy(v))
        if isinstance(v, Omega): return Omega(self.mapv(lambda x: self.unop(op, x), v.v))
        if isinstance(v, np.ndarray):
            return self.npmap(lambda x: self.unop(op, x), v)
        v = self.to_term(v)
        if isinstance(op, ast.USub): return tm.neg(v)
        if isinstance(op, ast.UAdd): return v
        if isinstance(op, ast.Invert): return lnot(v)
        raise Unsupported("unary op")

    def npmap(self, f, a):
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape): out[i] = f(a[i])
        return out

    def mapv(self, f, *vs):
        """Leafwise map over structured values (the first decides the structure)."""
        v = vs[0]
        if isinstance(v, PyTuple):
            o = [self.leaves_like(x, len(v.items)) for x in vs[1:]]
            return PyTuple([self.mapv(f, x, *[q[i] for q in o]) for i, x in enumerate(v.items)])
        if isinstance(v, PyList):
            it = self.items(v)
            o = [self.leaves_like(x, len(it)) for x in vs[1:]]
            return self.mklist([self.mapv(f, x, *[q[i] for q in o]) for i, x in enumerate(it)])
        if isinstance(v, PyDict):
            d = self.hget(v.uid)
            return self.mkdict({k: self.mapv(f, x, *[self.subscript(q, const(k)) if isinstance(q, PyDict) else q for q in vs[1:]]) for k, x in d.items()})
        if isinstance(v, Obj):
            return self.mkobj(v.cls, {k: self.mapv(f, x, *[self.getattr(q, k) if isinstance(q, Obj) else q for q in vs[1:]]) for k, x in self.fields(v).items()}, v.base)
        if isinstance(v, Choice): return self.merge(v.c, self.mapv(f, v.a, *vs[1:]), self.mapv(f, v.b, *vs[1:]))
        return f(*vs)

    def leaves_like(self, x, n):
        if isinstance(x, (PyTuple, PyList)):
            it = self.iterate(x)
            if len(it) == n: return it
        return [x] * n

    OPS = {"Add": tm.add, "Sub": tm.sub, "Mult": tm.mul, "Div": tm.div, "Pow": tm.power,
           "BitAnd": tm.land, "BitOr": tm.lor,
           "FloorDiv": lambda a, b: app("floordiv", a, b), "Mod": lambda a, b: app("mod", a, b),
           "MatMult": lambda a, b: app("matmul", a, b), "BitXor": lambda a, b: app("xor", a, b)}

    def e_BinOp(self, e, fr):
        l = self.eval(e.left, fr); r = self.eval(e.right, fr)
        return self.binop(e.op, l, r)

    def binop(self, op, l, r):
        n = type(op).__name__
        if n == "Pow" and isinstance(r, Ext) and r.name.endswith("ω"): return Omega(l)
        if isinstance(l, Path): l = l.v
        if isinstance(r, Path): r = r.v
        if isinstance(l, Omega) or isinstance(r, Omega):
            a = l.v if isinstance(l, Omega) else l
            b = r.v if isinstance(r, Omega) else r
            f = lambda x, y: self.binop(op, x, y)
            if isinstance(l, Omega) and isinstance(r, Omega):
                from .models import sub_list
                if isinstance(a, (PyTuple, PyList)) and isinstance(b, T) and not b.is_const:
                    b = PyTuple(sub_list(self, b, len(self.iterate(a))))
                elif isinstance(b, (PyTuple, PyList)) and isinstance(a, T) and not a.is_const:
                    a = PyTuple(sub_list(self, a, len(self.iterate(b))))
            if isinstance(a, (T, np.ndarray)) and not isinstance(b, (T, np.ndarray)):
                return Omega(self.mapv(lambda y: f(a, y), b))
            if isinstance(b, (T, np.ndarray)) and not isinstance(a, (T, np.ndarray)):
                return Omega(self.mapv(lambda x: f(x, b), a))
            return Omega(self.mapv(f, a, b))
        if isinstance(l, Choice): return self.merge(l.c, self.binop(op, l.a, r), self.binop(op, l.b, r))
        if isinstance(r, Choice): return self.merge(r.c, self.binop(op, l, r.a), self.binop(op, l, r.b))
        if isinstance(l, np.ndarray) or isinstance(r, np.ndarray):
            if isinstance(l, (PyTuple, PyList)): l = np.array(self.iterate(l), dtype=object)
            if isinstance(r, (PyTuple, PyList)): r = np.array(self.iterate(r), dtype=object)
            if n == "MatMult":
                return self.matmul(l, r)
            return self.npbin(op, l, r)
        if isinstance(l, (PyTuple, PyList)) or isinstance(r, (PyTuple, PyList)):
            if n == "Add":
                if isinstance(l, T) and l.op != "const": return PyTuple([Star(l)] + self.iterate(r))
                if isinstance(r, T) and r.op != "const": return PyTuple(self.iterate(l) + [Star(r)])
                out = self.iterate(l) + self.iterate(r)
                return PyTuple(out) if isinstance(l, PyTuple) else self.mklist(out)
            if n == "Mult":
                s, k = (l, r) if isinstance(l, (PyTuple, PyList)) else (r, l)
                try: kk = self.intval(k)
                except Unsupported: return app("repeat", self.to_term(s), self.to_term(k))
                out = self.iterate(s) * kk
                return PyTuple(out) if isinstance(s, PyTuple) else self.mklist(out)
        if isinstance(l, PySet) and n in ("Sub", "BitOr", "BitAnd"):
            a = [self.to_term(x) for x in l.items]; b = [self.to_term(x) for x in self.iterate(r)] if not isinstance(r, T) else None
            if b is not None:
                if n == "Sub": return PySet([x for x in a if x not in b])
                if n == "BitOr": return PySet(a + [x for x in b if x not in a])
                return PySet([x for x in a if x in b])
        if isinstance(l, PyDict) and isinstance(r, PyDict) and n == "BitOr":
            return self.mkdict({**self.hget(l.uid), **self.hget(r.uid)})
        if n in ("Add", "Sub", "Mult", "Div", "Pow", "FloorDiv"):
            container = (PyTuple, PyList, PyDict)
            if l is NONE or r is NONE or (isinstance(l, container) and isinstance(r, container)):
                if all(tm.truth(c) is True for c in self.pc):
                    kind = lambda v: "None" if v is NONE else {PyTuple: "tuple", PyList: "list", PyDict: "dict"}.get(type(v), "value")
                    raise Definite(f"{self.file}:{self.line} {self.fname}", f"unsupported operand types for {n}: {kind(l)} and {kind(r)}")
        a, b = self.to_term(l), self.to_term(r)
        if a.is_const and isinstance(a.data, str):
            if n == "Add" and b.is_const and isinstance(b.data, str): return const(a.data + b.data)
            return app("str" + n, a, b)
        f = self.OPS.get(n)
        if f is None: raise Unsupported("operator " + n)
        return f(a, b)

    def matmul(self, l, r):
        l = np.asarray(l, dtype=object); r = np.asarray(r, dtype=object)
        if l.ndim == 1 and r.ndim == 1 and len(l) == len(r):
            s = tm.ZERO
            for x, y in zip(l, r): s = tm.add(s, tm.mul(self.to_term(x), self.to_term(y)))
            return s
        if l.ndim == 2 and r.ndim == 1:
            return np.array([self.matmul(x, r) for x in l], dtype=object)
        if l.ndim == 1 and r.ndim == 2:
            return np.array([self.matmul(l, r[:, j]) for j in range(r.shape[1])], dtype=object)
        raise Unsupported("matmul")

    def npbin(self, op, l, r):
        if not isinstance(l, np.ndarray): l = np.array(l if isinstance(l, T) else self.to_term(l), dtype=object)
        if not isinstance(r, np.ndarray): r = np.array(r if isinstance(r, T) else self.to_term(r), dtype=object)
        l, r = np.broadcast_arrays(l, r)
        out = np.empty(l.shape, dtype=object)
        for i in np.ndindex(l.shape): out[i] = self.binop(op, l[i], r[i])
        return out if out.ndim else out.item()

    def e_Compare(self, e, fr):
        l = self.eval(e.left, fr)
        out = None
        for op, rr in zip(e.ops, e.comparators):
            r = self.eval(rr, fr)
            c = self.compare(op, l, r)
            out = c if out is None else land(self.to_term(out), self.to_term(c))
            l = r
        return out

    def isnone(self, v):
        if isinstance(v, T): return app("isnone", v)
        if isinstance(v, Choice): return ite(v.c, self.isnone(v.a), self.isnone(v.b))
        if isinstance(v, Path): return self.isnone(v.v)
        return FALSE

    def compare(self, op, l, r):
        n = type(op).__name__
        if isinstance(l, Path): l = l.v
        if isinstance(r, Path): r = r.v
        if n in ("Is", "IsNot"):
            res = self.is_(l, r)
            return res if n == "Is" else lnot(res)
        if n in ("In", "NotIn"):
            try: seq = self.iterate(r)
            except Unsupported:
                res = app("in", self.to_term(l), self.to_term(r))
                return res if n == "In" else lnot(res)
            res = tm.lor_all([self.eq_(l, x) for x in seq])
            return res if n == "In" else lnot(res)
        if isinstance(l, Omega) or isinstance(r, Omega):
            a = l.v if isinstance(l, Omega) else l
            b = r.v if isinstance(r, Omega) else r
            return Omega(self.mapv(lambda x, y: self.compare(op, x, y), a, b))
        if isinstance(l, np.ndarray) or isinstance(r, np.ndarray):
            if not isinstance(l, np.ndarray): l = np.array(l, dtype=object)
            if not isinstance(r, np.ndarray): r = np.array(r, dtype=object)
            l, r = np.broadcast_arrays(l, r)
            out = np.empty(l.shape, dtype=object)
            for i in np.ndindex(l.shape): out[i] = self.compare(op, l[i], r[i])
            return out if out.ndim else out.item()
        if n == "Eq": return self.eq_(l, r)
        if n == "NotEq": return lnot(self.eq_(l, r))
        a, b = self.to_term(l), self.to_term(r)
        return {"Lt": tm.lt, "LtE": tm.le, "Gt": tm.gt, "GtE": tm.ge}[n](a, b)

    def is_(self, l, r):
        if isinstance(r, T) and r is NONE: return self.isnone(l)
        if isinstance(l, T) and l is NONE: return self.isnone(r)
        if l is r: return TRUE
        if isinstance(l, Choice): return ite(l.c, self.is_(l.a, r), self.is_(l.b, r))
        if isinstance(r, Choice): return ite(r.c, self.is_(l, r.a), self.is_(l, r.b))
        if isinstance(l, Obj) and isinstance(r, Obj): return const(l.uid == r.uid)
        if isinstance(l, Func) and isinstance(r, Func): return const(l.node is r.node and l.env is r.env)
        if isinstance(l, ClassInfo) and isinstance(r, ClassInfo): return const(l is r)
        if isinstance(l, Ext) and isinstance(r, Ext): return const(l.name == r.name)
        if isinstance(l, Obj) or isinstance(r, Obj):
            o, x = (l, r) if isinstance(l, Obj) else (r, l)
            if isinstance(x, T) and o.base is None and not self.fields(o): return FALSE
            if not isinstance(x, T): return FALSE
        if isinstance(l, T) and isinstance(r, T):
            # identity of a freshly computed value with another value
            comp = ("ite", "add", "mul", "inv", "and", "or", "not", "lt", "le", "eq")
            if (l.op in comp and r.op not in ("const",)) or (r.op in comp and l.op not in ("const",)): return FALSE
            return tm.eq(l, r)
        try: return tm.eq(self.to_term(l), self.to_term(r))
        except Unsupported: return FALSE

    def eq_(self, l, r):
        if isinstance(l, Treedef) and isinstance(r, Treedef): return const(l.s == r.s)
        if isinstance(l, Choice): return ite(l.c, self.eq_(l.a, r), self.eq_(l.b, r))
        if isinstance(r, Choice): return ite(r.c, self.eq_(l, r.a), self.eq_(l, r.b))
        if isinstance(l, (PyTuple, PyList)) and isinstance(r, (PyTuple, PyList)):
            a, b = self.iterate(l), self.iterate(r)
            if not any(isinstance(x, (Maybe, Star)) for x in a + b):
                if len(a) != len(b): return FALSE
                return tm.land_all([self.eq_(x, y) for x, y in zip(a, b)])
        if isinstance(l, (Obj, Func, ClassInfo)) and isinstance(r, (Obj, Func, ClassInfo)): return self.is_(l, r)
        if isinstance(l, (Obj, Func, PyTuple, PyList, PyDict, ClassInfo, Ext)) and isinstance(r, T) and r.is_const: return FALSE
        if isinstance(r, (Obj, Func, PyTuple, PyList, PyDict, ClassInfo, Ext)) and isinstance(l, T) and l.is_const: return FALSE
        return tm.eq(self.to_term(l), self.to_term(r))

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(v, (ClassInfo, Ext)): return v
        i = self.eval(e.slice, fr)
        return self.subscript(v, i)

    def e_Slice(self, e, fr):
        g = lambda x: NONE if x is None else self.eval(x, fr)
        return SliceV(g(e.lower), g(e.upper), g(e.step))

    scalar_leaves = False

    def subscript(self, v, i):
        if self.scalar_leaves and isinstance(v, T) and isinstance(i, PyTuple) and \
                all(isinstance(x, T) and x.op == "const" and (x.data is Ellipsis or x.data is None) for x in i.items):
            return v
        if isinstance(i, Choice): return self.merge(i.c, self.subscript(v, i.a), self.subscript(v, i.b))
        if isinstance(i, T) and i.op == "const" and i.data is Ellipsis: return v
        if self.concrete_arrays and isinstance(v, T) and isinstance(i, (T, PyTuple)) and all(isinstance(x, T) and x.op == "const" and x.data is None for x in (i.items if isinstance(i, PyTuple) else (i,))):
            o = np.empty((1,) * (len(i.items) if isinstance(i, PyTuple) else 1), dtype=object)
            if o.shape: o.reshape(-1)[0] = v
            else: return v
            return o
        if isinstance(v, Path):
            if isinstance(i, T) and i.is_const:
                return Path(self.subscript(v.v, i), v.path + (("i", self.key(i)),))
            return Path(self.subscript(v.v, i), v.path + (("i", i),))
        if isinstance(v, Omega): return Omega(self.mapv(lambda x: self.subscript(x, i), v.v))
        if isinstance(v, Choice): return self.merge(v.c, self.subscript(v.a, i), self.subscript(v.b, i))
        if isinstance(v, (PyTuple, PyList)):
            it = self.iterate(v)
            if isinstance(i, SliceV):
                try: s = self.npindex(i)
                except Unsupported: return app("getitem", self.to_term(v), self.to_term(i))
                out = it[s]
                return PyTuple(out) if isinstance(v, PyTuple) else self.mklist(out)
            if isinstance(i, T) and i.is_const and not any(isinstance(x, (Maybe, Star)) for x in it):
                k = self.intval(i)
                if -len(it) <= k < len(it): return it[k]
                raise Unsupported("index out of range")
            if isinstance(i, T) and i.op == "ite" and not any(isinstance(x, (Maybe, Star)) for x in it):
                return self.merge(i.args[0], self.subscript(v, i.args[1]), self.subscript(v, i.args[2]))
            if isinstance(i, T) and i.is_const and self.intval(i) >= 0:
                k = self.intval(i)
                if all(not isinstance(x, (Maybe, Star)) for x in it[:k + 1]) and k < len(it): return it[k]
        if isinstance(v, PyDict):
            d = self.hget(v.uid); k = self.key(i)
            if k in d: return d[k]
            if getattr(self, "key_handlers", 0) and not isinstance(k, (T, V)) and not any(isinstance(x, (T, V)) for x in d): raise KeyMissing(str(k))
            return app("getitem", self.to_term(v), self.to_term(i))
        if isinstance(v, np.ndarray):
            try: ix = self.npindex(i)
            except Unsupported:
                if isinstance(i, T) and i.op == "ite":
                    return self.merge(i.args[0], self.subscript(v, i.args[1]), self.subscript(v, i.args[2]))
                if v.ndim >= 1 and isinstance(i, T):
                    # select by a symbolic index: gated selection
                    n = v.shape[0]
                    out = v[n - 1]
                    for k in range(n - 2, -1, -1): out = self.merge(tm.eq(i, const(k)), v[k], out)
                    return out
                return app("getitem", self.to_term(v), self.to_term(i))
            if isinstance(ix, int) and v.ndim == 1 and v.shape[0] == 0: return tm.sym("empty_read", "real")   # only ever discarded by a mask
            if isinstance(ix, int) and v.ndim >= 1 and v.shape[0] > 0: ix = max(min(ix, v.shape[0] - 1), -v.shape[0])     # out-of-range reads clamp
            return v[ix]
        if isinstance(v, At): return At(v.x, i)
        if isinstance(v, T):
            if v.op == "app" and v.data == "tuple":
                return self.subscript(PyTuple(v.args), i)
            if v.op == "ite" and not isinstance(i, SliceV):
                return self.merge(v.args[0], self.subscript(v.args[1], i), self.subscript(v.args[2], i))
            if v.is_const and isinstance(v.data, Fraction): return v   # broadcast constant array
            return app("getitem", v, self.to_term(i))
        if isinstance(v, (ClassInfo, Ext)): return v
        if isinstance(v, Obj):
            return app("getitem", self.to_term(v), self.to_term(i))
        raise Unsupported(f"subscript of {type(v).__name__}")

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return Super(fr.cls, fr.self_)
        f = self.eval(e.func, fr)
        args = self.elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, PyDict):
                    for kk, vv in self.hget(v.uid).items():
                        if isinstance(kk, str): kwargs[kk] = vv
                        else: raise Unsupported("** with non-string keys")
                elif isinstance(v, T): kwargs["**"] = v
                elif isinstance(v, Choice): kwargs["**"] = self.to_term(v)
                else: raise Unsupported("** of " + type(v).__name__)
            else: kwargs[k.arg] = v
        self.line = e.lineno
        if any(isinstance(a, Star) for a in args) and not (isinstance(f, (T, Ext, Native))):
            args = [a.t if isinstance(a, Star) else a for a in args]
        return self.call(f, args, kwargs)

    def comp(self, e, fr, mk):
        out = []
        env = self.newenv(fr.env)
        f2 = Frame()
        for s in Frame.__slots__: setattr(f2, s, getattr(fr, s))
        f2.env = env
        def go(gi, conds):
            if gi == len(e.generators):
                v = mk(f2)
                c = tm.land_all(conds)
                out.append(v if tm.truth(c) is True else Maybe(c, v)); return
            g = e.generators[gi]
            for el in self.iterate(self.eval(g.iter, f2)):
                cs = list(conds)
                if isinstance(el, Maybe): cs.append(el.c); el = el.v
                self.assign(g.target, el, f2)
                ok = True
                npc = list(self.pc)
                for cond in g.ifs:
                    c = self.truthy(self.eval(cond, f2))
                    t = self.decide(c)
                    if t is False: ok = False; break
                    if t is None: cs.append(c); self.pc = self.pc + [c]
                if ok: go(gi + 1, cs)
                self.pc = npc
        go(0, [])
        return out

    def opaque_comp(self, e, fr, mk):
        """comprehension over an opaque iterable: a canonical map term"""
        if len(e.generators) != 1: raise Unsupported("comprehension")
        g = e.generators[0]
        it = self.to_term(self.eval(g.iter, fr))
        env = self.newenv(fr.env)
        f2 = Frame()
        for s in Frame.__slots__: setattr(f2, s, getattr(fr, s))
        f2.env = env
        self.lam += 1
        try:
            el = tm.sym(f"λ{self.lam}.el")
            self.assign(g.target, el, f2)
            conds = [self.truthy(self.eval(c, f2)) for c in g.ifs]
            v = self.to_term(mk(f2))
        finally: self.lam -= 1
        return app("map", tm.land_all(conds), v, it)

    def _comp(self, e, fr, mk, wrap):
        try: return wrap(self.comp(e, fr, mk))
        except Unsupported as ex:
            if "iterate" not in str(ex): raise
            return self.opaque_comp(e, fr, mk)

    def e_ListComp(self, e, fr): return self._comp(e, fr, lambda f: self.eval(e.elt, f), self.mklist)
    def e_GeneratorExp(self, e, fr): return self._comp(e, fr, lambda f: self.eval(e.elt, f), self.mklist)
    def e_SetComp(self, e, fr): return self._comp(e, fr, lambda f: self.eval(e.elt, f), PySet)
    def e_DictComp(self, e, fr):
        prs = self.comp(e, fr, lambda f: PyTuple([self.eval(e.key, f), self.eval(e.value, f)]))
        return self.mkdict({self.key(p.items[0]): p.items[1] for p in prs})

    # ------------------------------------------------------------ helpers for harnesses
    def sym_obj(self, cls, prefix, overrides=None, doms=None):
        """An instance of a repository class with every dataclass field symbolic."""
        d = {}
        for n in cls.all_fields():
            d[n] = tm.sym(f"{prefix}.{n}", (doms or {}).get(n))
        d.update(overrides or {})
        return self.mkobj(cls, d)

    def method(self, cls, name, self_):
        r = cls.lookup(name)
        if r is None or not isinstance(r[1], ast.FunctionDef):
            raise AnalysisError(f"{cls.name}.{name} not found")
        return self.bind_class_func(r[0], r[1], self_, cls)

    def where(self, f):
        n = f.func if isinstance(f, Bound) else f
        return f"{n.module.path}:{n.node.lineno} {n.name}"
