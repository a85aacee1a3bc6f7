#!/usr/bin/env python3-vt
"""Mutation testing of the checks, in memory: tools/mutate.py CHECKS FILE [--func regex] [--show] [--max N]
CHECKS is comma separated.  Prints survivors (mutants no listed check reports)."""
import argparse, ast, copy, io, os, re, sys, contextlib, multiprocessing as mp, importlib, random
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def swapname(n):
    for a, b in (("t0", "t1"), ("y0", "y1"), ("tprev", "tnext"), ("lower", "upper"), ("rtol", "atol"), ("left", "right"), ("prev", "next"),
                 ("k0", "k1"), ("f0", "f1"), ("f0", "g0"), ("w", "h"), ("dtmin", "dtmax"), ("factormin", "factormax"), ("drift", "diffusion"), ("step_ts", "jump_ts")):
        if n == a: return b
        if n == b: return a
        if a in n and len(a) > 1: return n.replace(a, b)
        if b in n and len(b) > 1: return n.replace(b, a)
    return None


def in_ann(fn):  # nodes inside annotations / docstrings
    bad = set()
    for n in ast.walk(fn):
        for f in ("annotation", "returns"):
            x = getattr(n, f, None)
            if isinstance(x, ast.AST): bad.update(id(y) for y in ast.walk(x))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): bad.update(id(y) for y in ast.walk(n))
        if isinstance(n, ast.Raise): bad.update(id(y) for y in ast.walk(n))
        if isinstance(n, ast.JoinedStr): bad.update(id(y) for y in ast.walk(n))
    return bad


def mutants(src, func_re):
    tree = ast.parse(src)
    targets = []
    def visit(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                nq = (q + "." if q else "") + c.name
                if isinstance(c, ast.FunctionDef) and re.search(func_re, nq): targets.append((nq, c))
                else: visit(c, nq)
            else: visit(c, q)
    visit(tree, "")
    if func_re == "": targets = [("<module>", tree)]
    out = []
    for q, fn in targets:
        bad = in_ann(fn)
        for n in list(ast.walk(fn)):
            if id(n) in bad: continue
            def m(desc, apply, undo, n=n):
                apply()
                try:
                    s = ast.unparse(tree)
                finally: undo()
                out.append((q, getattr(n, "lineno", 0), desc, s))
            if isinstance(n, ast.BinOp):
                alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}.get(type(n.op), [])
                if isinstance(n.right, ast.Name) and n.right.id == "ω": alt = []
                for o in alt:
                    old = n.op
                    m(f"{type(old).__name__}->{o.__name__}: {ast.unparse(n)[:80]}", lambda: setattr(n, "op", o()), lambda: setattr(n, "op", old))
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(type(n.ops[0]), [])
                for o in alt:
                    old = n.ops
                    m(f"{type(old[0]).__name__}->{o.__name__}: {ast.unparse(n)[:80]}", lambda: setattr(n, "ops", [o()]), lambda: setattr(n, "ops", old))
            if isinstance(n, ast.BoolOp):
                old = n.op; new = ast.Or() if isinstance(old, ast.And) else ast.And()
                m(f"BoolOp: {ast.unparse(n)[:80]}", lambda: setattr(n, "op", new), lambda: setattr(n, "op", old))
                ov = n.values
                for i in range(len(ov)):
                    m(f"drop operand {i}: {ast.unparse(n)[:80]}", lambda i=i: setattr(n, "values", ov[:i] + ov[i+1:] + ([] if len(ov) > 2 else [ov[:i] + ov[i+1:]][0])), lambda: setattr(n, "values", ov))
            if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
                old = n.value
                alts = [not old] if isinstance(old, bool) else ([old + 1] if isinstance(old, int) else [old * 1.5 if old else 1.0] if isinstance(old, float) else [])
                for v in alts:
                    m(f"const {old}->{v}", lambda: setattr(n, "value", v), lambda: setattr(n, "value", old))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                o, op = n.operand, n.op
                new = ast.UAdd() if isinstance(op, ast.USub) else None
                if new: m(f"drop -: {ast.unparse(n)[:60]}", lambda: setattr(n, "op", new), lambda: setattr(n, "op", op))
                elif isinstance(op, ast.Not): m(f"drop not: {ast.unparse(n)[:60]}", lambda: setattr(n, "operand", ast.UnaryOp(ast.Not(), o)), lambda: setattr(n, "operand", o))
                else: m(f"drop ~: {ast.unparse(n)[:60]}", lambda: setattr(n, "operand", ast.UnaryOp(ast.Invert(), o)), lambda: setattr(n, "operand", o))
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                oa = n.args
                for i in range(len(oa) - 1):
                    if ast.dump(oa[i]) == ast.dump(oa[i+1]) or isinstance(oa[i], ast.Lambda): continue
                    fnm = ast.unparse(n.func)
                    if fnm in ("isinstance", "hasattr", "getattr", "range", "maximum", "minimum", "jnp.maximum", "jnp.minimum", "jtu.tree_map", "cast"): continue
                    sw = list(oa); sw[i], sw[i+1] = sw[i+1], sw[i]
                    m(f"swap args {i}: {ast.unparse(n)[:80]}", lambda sw=sw: setattr(n, "args", sw), lambda: setattr(n, "args", oa))
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ("jnp.maximum", "jnp.minimum", "max", "min", "np.maximum", "np.minimum"):
                of = n.func; s = ast.unparse(of)
                new = ast.parse(s.replace("max", "MIN").replace("min", "max").replace("MIN", "min"), mode="eval").body
                m(f"minmax: {ast.unparse(n)[:80]}", lambda: setattr(n, "func", new), lambda: setattr(n, "func", of))
            if isinstance(n, ast.Call) and n.keywords:
                ok = n.keywords
                for i, kk in enumerate(ok):
                    if kk.arg in ("dtype", "is_leaf", "throw", "side", "left") or True:
                        if kk.arg is None: continue
                        m(f"drop kw {kk.arg}: {ast.unparse(n)[:80]}", lambda i=i: setattr(n, "keywords", ok[:i] + ok[i+1:]), lambda: setattr(n, "keywords", ok))
            if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and ast.unparse(n.func) in ("lax.stop_gradient", "jnp.abs", "jnp.sqrt", "jnp.conj", "jnp.logical_not", "nondifferentiable", "eqxi.nondifferentiable", "eqxi.prevbefore", "eqxi.nextafter", "prevbefore", "nextafter"):
                pass
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                s = swapname(n.id)
                if s:
                    old = n.id
                    names = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
                    if s in names: m(f"name {old}->{s}", lambda: setattr(n, "id", s), lambda: setattr(n, "id", old))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                s = swapname(n.attr)
                if s:
                    old = n.attr
                    attrs = {x.attr for x in ast.walk(tree) if isinstance(x, ast.Attribute)}
                    if s in attrs: m(f"attr {old}->{s}: {ast.unparse(n)}", lambda: setattr(n, "attr", s), lambda: setattr(n, "attr", old))
            if isinstance(n, (ast.If, ast.IfExp)):
                ot = n.test
                m(f"negate if: {ast.unparse(ot)[:60]}", lambda: setattr(n, "test", ast.UnaryOp(ast.Not(), ot)), lambda: setattr(n, "test", ot))
            for fld in ("body", "orelse"):
                b = getattr(n, fld, None)
                if isinstance(b, list):
                    for i, st in enumerate(b):
                        if isinstance(st, (ast.Assign, ast.AugAssign, ast.Raise)) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)):
                            if isinstance(st, ast.Assign):
                                tn = {x.id for t in st.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
                                un = {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)}
                                if not (tn & un): continue
                            m(f"delete: {ast.unparse(st)[:80]}", lambda b=b, i=i: b.__setitem__(i, ast.Pass()), lambda b=b, i=i, st=st: b.__setitem__(i, st), n=st)
    return out


def worker(job):
    i, checks, path, src, root = job
    import threading
    res = []
    def run():
        from sa.framework import Check
        from sa import framework, loader
        from sa.loader import AnalysisError, Repo
        from sa.terms import T
        try: compile(src, path, "exec")
        except SyntaxError: res.append(("syntax", "")); return
        Repo.overrides = {path: src}
        kf = {(k["property"], k["obligation"]) for k in framework.known_findings()}
        rc = "survived"; info = ""
        for c in checks:
            mod = importlib.import_module("checks." + c.lower())
            try:
                ck = Check(c, root, "quick", 1)
                mod.run(ck)
                bad = [b for b in ck.bad if (c, b["obligation"]) not in kf]
                if bad: res.append(("killed", c + ":" + bad[0]["obligation"])); return
                if len(ck.ok) < mod.FLOOR: rc = "broken"; info = f"{c}: below floor {len(ck.ok)}"
                elif any(w.startswith("name ") for _, w in ck.und) and rc == "survived": rc = "undefname"
                elif ck.und: info += f" {c}: und " + "; ".join(n + "=" + w[:60] for n, w in ck.und[:3])
            except AnalysisError as e: rc = "broken"; info = f"{c}: {e}"
            except Exception as e: rc = "error"; info = f"{c}: {type(e).__name__} {e}"[:200]
        res.append((rc, info))
    threading.stack_size(256 * 1024 * 1024)
    t = threading.Thread(target=run); t.start(); t.join()
    return i, res[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("checks"); ap.add_argument("file"); ap.add_argument("--func", default=""); ap.add_argument("--max", type=int, default=0)
    ap.add_argument("--root", default="/repo"); ap.add_argument("--jobs", type=int, default=7); ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    src = open(os.path.join(a.root, a.file)).read()
    ms = mutants(src, a.func)
    if a.max and len(ms) > a.max: random.Random(0).shuffle(ms); ms = ms[:a.max]
    jobs = [(i, a.checks.split(","), a.file, m[3], a.root) for i, m in enumerate(ms)]
    cnt = {}
    with mp.Pool(a.jobs, maxtasksperchild=25) as pool:
        rs = {}
        for i, r in pool.imap_unordered(worker, jobs): rs[i] = r; cnt[r[0]] = cnt.get(r[0], 0) + 1
    for i, m in enumerate(ms):
        if rs[i][0] not in ("killed", "undefname") or a.all: print(f"{rs[i][0]:9s} {m[0]}:{m[1]} {m[2]}   | {rs[i][1]}")
    print(cnt)


if __name__ == "__main__": main()
