"""Shared harness: abstract interpretation of the integration loop (`loop` in diffrax/_integrate.py), cut at its while loop.

The loop is decomposed into the three pieces an inductive argument needs, each over an arbitrary (symbolic) state:
  before:  init_state            -> state handed to the while loop
  step:    arbitrary state       -> state after one iteration of the loop body (and the loop condition)
  after:   arbitrary final state -> returned state
Solver, controller, terms, save functions, events, progress meter and root finder are arbitrary (opaque) throughout.
"""
import numpy as np
from sa import terms as tm
from sa.terms import T, app, ite, const
from sa.values import *
from sa.common import at, state, lst
from sa.interp import Unsupported
from sa.loader import AnalysisError

N = 4                 # slots of each output buffer
ULP = tm.sym("ulp", "pos")
DOMS = {"ulp": lambda v, n: v.draw(v.rnd(0x99), ("choice", (const(1e-9), const(2e-9), const(3e-9))))}
ENUM = ("enum", ("RESULTS.successful", "RESULTS.successful", "RESULTS.event_occurred", "RESULTS.nonlinear_divergence", "RESULTS.dt_min_reached", "RESULTS.max_steps_rejected"))
ENUM_NOEV = ("enum", ("RESULTS.successful", "RESULTS.successful", "RESULTS.nonlinear_divergence", "RESULTS.dt_min_reached", "RESULTS.max_steps_rejected"))
SMALL = ("choice", tuple(const(x) for x in (-3, -1, 0, 0, 1, 2)))
SUCC, EVT = tm.enum("RESULTS.successful"), tm.enum("RESULTS.event_occurred")


def arr(xs):
    a = np.empty(len(xs), dtype=object); a[:] = xs
    return a


def fetch(I, v):
    """elements of a concrete-length array value (possibly gated)"""
    if isinstance(v, np.ndarray): return [I.to_term(x) for x in v.reshape(-1)]
    if isinstance(v, Choice):
        a, b = fetch(I, v.a), fetch(I, v.b)
        return [ite(v.c, x, y) for x, y in zip(a, b)]
    raise Unsupported("array " + type(v).__name__)


def is_okay(r): return tm.lor(tm.eq(r, SUCC), tm.eq(r, EVT))
def is_succ(r): return tm.eq(r, SUCC)


def isbool(t):
    if t.op in ("lt", "le", "eq", "and", "or", "not"): return True
    if t.op == "const": return isinstance(t.data, bool)
    if t.op == "sym": return t.data[1] == "bool"
    if t.op == "ite": return isbool(t.args[1])
    if t.op == "app": return t.data.startswith(("isnan", "isinf", "bool:"))
    return False


def models(I):
    um = I.user_models
    from sa.models import ew
    um["equinox.internal.nextafter"] = lambda I, a, k: ew(lambda x: x + ULP)(I, a[0])
    um["equinox.internal.prevbefore"] = lambda I, a, k: ew(lambda x: x - ULP)(I, a[0])
    def dtype(I, a, k):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, np.ndarray) and v.size: v = v.reshape(-1)[0]
            if isinstance(v, Choice): v = v.a
            if isinstance(v, T): return tm.enum("dtype.bool" if isbool(v) else "dtype.float")
        return tm.enum("dtype.float")
    um["jax.numpy.result_type"] = dtype
    um["jax.numpy.dtype"] = lambda I, a, k: tm.enum("dtype.bool") if isinstance(a[0], Ext) and a[0].name == "builtins.bool" else tm.enum("dtype.float")
    def issub(I, a, k):
        d = I.to_term(a[0])
        nm = a[1].name.split(".")[-1] if isinstance(a[1], Ext) else "?"
        if d.op == "enum" and d.data.startswith("dtype."):
            return const({"floating": d.data == "dtype.float", "inexact": d.data == "dtype.float", "bool_": d.data == "dtype.bool", "complexfloating": False, "integer": False}.get(nm, False))
        return app("issubdtype", d, const(nm))
    um["jax.numpy.issubdtype"] = issub
    def typ(I, a, k):
        v = a[0]
        if isinstance(v, T): return Ext("builtins.bool") if v.op == "const" and isinstance(v.data, bool) else Ext("jax.Array")
        if isinstance(v, Obj): return v.cls
        return Ext("builtins.object")
    um["builtins.type"] = typ
    from sa.models import isinst
    def isi(I, a, k):
        cs = I.iterate(a[1]) if isinstance(a[1], (PyTuple, PyList)) else [a[1]]
        if isinstance(a[0], T) and a[0].op != "const" and all(isinstance(c, Ext) for c in cs): return tm.FALSE      # an array
        return isinst(I, a[0], a[1])
    um["builtins.isinstance"] = isi


class Sub:
    """A save request and its symbolic buffers."""
    def __init__(self, I, nm, t0=False, t1=False, ts=None, steps=0, fn="opaque", leaves=2):
        self.nm, self.t0, self.t1, self.steps, self.nl = nm, t0, t1, steps, leaves
        self.ts = ts
        cls = I.repo.cls("SubSaveAt")
        self.calls = []
        def f(I, a, k):
            t, y, ar = (list(a) + [k[q] for q in ("t", "y", "args")[len(a):]])
            yt = lst(I, y)
            self.calls.append(I.to_term(t))
            return PyTuple(self.value(I.to_term(t), yt, I.to_term(ar)))
        self.fn = Native(f, "fn_" + nm)
        self.obj = I.mkobj(cls, {"t0": const(t0), "t1": const(t1), "ts": tm.NONE if ts is None else arr(ts), "steps": const(steps), "fn": self.fn})
        self.bts = [tm.sym(f"{nm}.ts{i}", "real") for i in range(N)]
        self.bys = [[tm.sym(f"{nm}.ys{l}[{i}]", "real") for i in range(N)] for l in range(leaves)]
        self.ix = tm.sym(f"{nm}.index", ("choice", tuple(range(N))))
        self.tix = const(0)

    def value(self, t, y, args):
        return [app(f"save_{self.nm}.{l}", t, app("tuple", *y), args) for l in range(self.nl)]

    def save_state(self, I, ix=None, tix=None):
        return I.mkobj(I.repo.cls("SaveState"), {"saveat_ts_index": self.tix if tix is None else tix, "ts": arr(self.bts),
                                                 "ys": PyTuple([arr(y) for y in self.bys]), "save_index": self.ix if ix is None else ix})

    def read(self, I, ss):
        """(ts list, ys lists, save_index, saveat_ts_index) of a SaveState value"""
        g = lambda n: I.getattr(ss, n)
        return (fetch(I, g("ts")), [fetch(I, y) for y in I.unpack(g("ys"), self.nl)], I.to_term(g("save_index")), I.to_term(g("saveat_ts_index")))


class Events:
    """kinds: list of 'bool'/'float'; directions: list of None/True/False"""
    def __init__(self, I, kinds, directions, root_finder, symbolic=False):
        self.symbolic = symbolic
        self.kinds, self.dirs = kinds, directions
        self.calls = []
        fs = [self.cond(i) for i in range(len(kinds))]
        self.rf = tm.sym("root_finder", "real") if root_finder else tm.NONE
        tree = (lambda xs: PyTuple(xs)) if len(kinds) > 1 else (lambda xs: xs[0])
        self.obj = I.mkobj(I.repo.cls("Event"), {"cond_fn": tree([Native(f, f"cond{i}") for i, f in enumerate(fs)]),
                                                 "direction": tree([tm.NONE if d is None else const(d) for d in directions]), "root_finder": self.rf})
        self.tree = tree

    def val(self, i, t, y, args):
        if self.symbolic: return tm.sym(f"new_event{i}", "bool" if self.kinds[i] == "bool" else SMALL)
        nm = ("bool:" if self.kinds[i] == "bool" else "") + f"cond{i}"
        return app(nm, t, app("tuple", *y), args)

    def cond(self, i):
        def f(I, a, k):
            a = list(a) + [k.pop(q) for q in ("t", "y", "args")[len(a):]] if len(a) < 3 else list(a)
            self.calls.append((i, [I.to_term(a[0]), lst(I, a[1]), I.to_term(a[2])], dict(k)))
            return self.val(i, I.to_term(a[0]), lst(I, a[1]), I.to_term(a[2]))
        return f

    def old(self, i): return tm.sym(f"old_event{i}", "bool" if self.kinds[i] == "bool" else SMALL)
    def oldmask(self, i): return tm.sym(f"old_mask{i}", "bool")


class Kit:
    def __init__(self, ck, subs=(), dense=False, events=None, controller=None, jump="traced", result="traced", t0=None, t1=None, ny=2, result_dom=ENUM_NOEV):
        self.ck = ck
        I = self.I = ck.interp()
        I.scalar_leaves = True
        models(I)
        self.mod, self.node = find(ck, "diffrax._integrate", "loop")
        self.t0, self.t1 = t0 if t0 is not None else tm.sym("t0", "real"), t1 if t1 is not None else tm.sym("t1", "real")
        self.args, self.terms, self.dt0 = tm.sym("args"), tm.sym("terms"), tm.sym("dt0", "real")
        self.max_steps = const(7)
        self.ny = ny
        self.keep = tm.sym("accepted", "bool")
        self.ct0, self.ct1 = tm.sym("controller_t0", "real"), tm.sym("controller_t1", "real")
        self.cjump = tm.sym("controller_jump", "bool") if jump == "traced" else tm.FALSE
        self.cres = tm.sym("controller_result", ENUM_NOEV) if result == "traced" else SUCC
        self.cstate = tm.sym("controller_newstate", "real")
        self.y1 = state("stepped_y", ny); self.yerr = state("error", ny)
        self.sstate = PyTuple([tm.sym("new_solver_state0", "real"), tm.sym("new_solver_state1", "real")])
        self.sres = tm.sym("step_result", ENUM_NOEV) if result == "traced" else SUCC
        self.info = {"a": tm.sym("info_a", "real"), "b": tm.sym("info_b", "real")}
        self.step_calls, self.adapt_calls, self.pm_calls, self.interp_calls, self.root_calls = [], [], [], [], []
        step_params = ("terms", "t0", "t1", "y0", "args", "solver_state", "made_jump")
        def step(I, a, k):
            self.step_calls.append(list(a) + [k[q] for q in step_params[len(a):]])
            return PyTuple([self.y1, self.yerr, I.mkdict(dict(self.info)), self.sstate, self.sres])
        def interp_cls(I, a, k):
            k = dict(k)
            self.interp_calls.append(k)
            key = app("interpolant", *[I.to_term(k[q]) for q in sorted(k)])
            def ev(I, a, kk):
                t = a[0] if a else kk["t0"]
                if len(a) > 1 or "t1" in kk: return PyTuple([app(f"increment{i}", key, *[I.to_term(x) for x in list(a) + list(kk.values())]) for i in range(ny)])
                return PyTuple(self.evaluate(k, I.to_term(t)))
            return I.mkobj(I.repo.cls("AbstractLocalInterpolation"), {"t0": k["t0"], "t1": k["t1"], "evaluate": Native(ev, "evaluate")})
        self.solver = I.mkobj(I.repo.cls("AbstractSolver"), {"step": Native(step, "step"), "interpolation_cls": Native(interp_cls, "interpolation_cls"),
                              "error_order": Native(lambda I, a, k: app("error_order", *[I.to_term(x) for x in a]), "error_order")})
        adapt_params = ("t0", "t1", "y0", "y1_candidate", "args", "y_error", "error_order", "controller_state")
        def adapt(I, a, k):
            self.adapt_calls.append(list(a) + [k[q] for q in adapt_params[len(a):]])
            return PyTuple([self.keep, self.ct0, self.ct1, self.cjump, self.cstate, self.cres])
        ccls = I.repo.cls(controller or "AbstractAdaptiveStepSizeController")
        self.stepto_n = 5
        f = {"adapt_step_size": Native(adapt, "adapt_step_size")}
        if controller == "StepTo": f["ts"] = arr([tm.sym(f"to{i}", "real") for i in range(self.stepto_n)])
        self.controller = I.mkobj(ccls, f)
        def pm(I, a, k):
            a = list(a) + [k[q] for q in ("state", "progress")[len(a):]]
            self.pm_calls.append(a); return app("meter", *[I.to_term(x) for x in a])
        self.meter = I.mkobj(I.repo.cls("AbstractProgressMeter"), {"step": Native(pm, "meter.step")})
        self.subs = [s(I) if callable(s) else s for s in subs]
        self.dense = dense
        self.events = events(I) if callable(events) else events
        one = len(self.subs) == 1
        self.subtree = (lambda xs: xs[0]) if one else (lambda xs: PyTuple(xs))
        self.saveat = I.mkobj(I.repo.cls("SaveAt"), {"subs": self.subtree([s.obj for s in self.subs]) if self.subs else tm.NONE, "dense": const(dense),
                                                     "solver_state": tm.FALSE, "controller_state": tm.FALSE, "made_jump": tm.FALSE})
        self.inner_loops = []
        self.root, self.root_res = tm.sym("root", "real"), tm.sym("root_result", ("enum", ("RESULTS.successful", "RESULTS.nonlinear_max_steps_reached", "RESULTS.nonlinear_divergence")))
        def rootfind(I, a, kw):
            names = ("fn", "solver", "y0", "args", "options", "has_aux", "max_steps", "adjoint", "throw", "tags")
            d = dict(zip(names, a)); d.update(kw)
            self.root_calls.append(d)
            return I.mkobj(None, {"value": self.root, "result": self.root_res, "stats": tm.sym("root_stats"), "state": tm.sym("root_state"), "aux": tm.NONE})
        I.user_models["optimistix.root_find"] = rootfind

    def evaluate(self, k, t):
        key = app("interpolant", *[self.I.to_term(k[q]) for q in sorted(k)])
        return [app(f"evaluate{i}", key, t) for i in range(self.ny)]

    # ---------------------------------------------------------------- states
    def sym_state(self, p, result=None, made_jump=None):
        I = self.I
        self_ = dict(y=state(p + "y", self.ny), tprev=tm.sym(p + "tprev", "real"), tnext=tm.sym(p + "tnext", "real"),
                     made_jump=tm.sym(p + "made_jump", "bool") if made_jump is None else made_jump,
                     solver_state=PyTuple([tm.sym(p + "solver_state0", "real"), tm.sym(p + "solver_state1", "real")]),
                     controller_state=tm.sym(p + "controller_state", "real"), progress_meter_state=tm.sym(p + "meter_state", "real"),
                     result=tm.sym(p + "result", ENUM) if result is None else result,
                     num_steps=tm.sym(p + "num_steps", "nat"), num_accepted_steps=tm.sym(p + "num_accepted", "nat"), num_rejected_steps=tm.sym(p + "num_rejected", "nat"),
                     save_state=self.subtree([s.save_state(I) for s in self.subs]) if self.subs else tm.NONE,
                     dense_ts=tm.NONE, dense_infos=tm.NONE, dense_save_index=tm.NONE, event_tprev=tm.NONE, event_tnext=tm.NONE, event_dense_info=tm.NONE,
                     event_values=tm.NONE, event_mask=tm.NONE)
        if self.dense:
            self.dts = [tm.sym(f"{p}dense_ts{i}", "real") for i in range(N)]
            self.dinf = {q: [tm.sym(f"{p}dense_{q}{i}", "real") for i in range(N - 1)] for q in self.info}
            self.dix = tm.sym(p + "dense_index", ("choice", tuple(range(N - 1))))
            self_.update(dense_ts=arr(self.dts), dense_infos=I.mkdict({q: arr(v) for q, v in self.dinf.items()}), dense_save_index=self.dix)
        if self.events is not None:
            ev = self.events
            n = len(ev.kinds)
            self_.update(event_tprev=tm.sym(p + "event_tprev", "real"), event_tnext=tm.sym(p + "event_tnext", "real"),
                         event_dense_info=I.mkdict({q: tm.sym(f"{p}event_info_{q}", "real") for q in self.info}),
                         event_values=ev.tree([ev.old(i) for i in range(n)]), event_mask=ev.tree([ev.oldmask(i) for i in range(n)]))
        return self_

    def mk(self, d): return self.I.mkobj(self.I.repo.cls("State"), dict(d))

    # ---------------------------------------------------------------- running
    def run(self, init, final):
        """Analyse loop(): returns (captured dict, result state, aux)"""
        I = self.I
        cap = {}
        def inner(I, a, k):
            names = ("cond_fun", "body_fun", "init_val")
            kk = dict(zip(names, a)); kk.update(k)
            n = I.intval(kk["max_steps"]) if "max_steps" in kk and kk["max_steps"] is not tm.NONE else N
            v = kk["init_val"]
            c = tm.FALSE
            for _ in range(n):
                c = I.truthy(I.call(kk["cond_fun"], [v], {}))
                if tm.truth(c) is False: return v
                v = I.merge(c, I.call(kk["body_fun"], [v], {}), v)
            return v
        def outer(I, a, k):
            names = ("cond_fun", "body_fun", "init_val")
            kk = dict(zip(names, a)); kk.update(k)
            cap.update(kk); cap["pc"] = I.pc_term()
            return final
        kw = dict(solver=self.solver, stepsize_controller=self.controller, event=self.events.obj if self.events is not None else tm.NONE, saveat=self.saveat,
                  t0=self.t0, t1=self.t1, dt0=self.dt0, max_steps=self.max_steps, terms=self.terms, args=self.args, init_state=init,
                  inner_while_loop=Native(inner, "inner_while_loop"), outer_while_loop=Native(outer, "outer_while_loop"), progress_meter=self.meter)
        f = I.mkfunc(self.node, None, self.mod, None)
        r = I.unpack(I.call(f, [], kw), 2)
        if not cap: raise Unsupported("the integration loop does not call the while loop it is given")
        self.cap = cap
        self.ck.use(I)
        return r

    def clear(self):
        for l in (self.step_calls, self.adapt_calls, self.pm_calls, self.interp_calls, self.root_calls): l.clear()
        for s in self.subs: s.calls.clear()
        if self.events is not None: self.events.calls.clear()

    def one_step(self, st=None):
        """state before, state after, loop condition before"""
        self.run(self.mk(self.sym_state("i_")), self.mk(self.sym_state("f_")))
        self.clear()
        d = self.sym_state("s_") if st is None else st
        s = self.mk(d)
        cond = self.I.truthy(self.I.call(self.cap["cond_fun"], [s], {}))
        new = self.I.call(self.cap["body_fun"], [s], {})
        return d, new, cond


def find(ck, module, name):
    _, m, n = ck.repo.func(module, name)
    return m, n


def where(kit): return f"{kit.mod.path}:{kit.node.lineno} {kit.node.name}"


def field(I, st, name):
    if isinstance(st, Obj) and st.cls is not None and name not in st.cls.all_fields(): raise Unsupported("state has no field " + name)
    return I.getattr(st, name)
