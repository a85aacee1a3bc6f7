#!/usr/bin/env python3-vt
"""Behaviour-preserving rewrites of the repository, to test that the checks stay quiet:
tools/refactor.py KIND DEST [--root /repo] [--file regex] [--seed n] [--prob p]     (DEST is a scratch copy, overwritten)
tools/refactor.py --list"""
import argparse, ast, copy, os, random, re, shutil, sys, symtable
KINDS = {}


def kind(f): KINDS[f.__name__] = f; return f


SCOPES = (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
ctr = [0]


def fresh(p):
    ctr[0] += 1
    return f"_{p}{ctr[0]}"


def names(n, ctx=None): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def bound(f):
    """names bound in the function's own scope"""
    out = set(params(f))
    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FUN + (ast.ClassDef,)): out.add(c.name); continue
            if isinstance(c, ast.Lambda): continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)): out.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)): out.update((x.asname or x.name).split(".")[0] for x in c.names)
            if isinstance(c, ast.ExceptHandler) and c.name: out.add(c.name)
            go(c)
    for s in f.body: go(ast.Module([s], []))
    return out


def functions(tree):
    """(function, enclosing bound names) outermost first"""
    def go(n, encl, incls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, FUN):
                yield c, encl, incls
                yield from go(c, encl | bound(c), None)
            elif isinstance(c, ast.ClassDef): yield from go(c, encl, c)
            else: yield from go(c, encl, incls)
    yield from go(tree, frozenset(), None)


def free_in(n, avail):
    """names of `avail` used by n (conservatively)"""
    return sorted(names(n) & avail)


def has(n, *ts): return any(isinstance(x, ts) for x in ast.walk(n))


def blocks(n):
    for x in ast.walk(n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt): yield x, b


def overloaded(f): return any("overload" in ast.dump(d) or "abstract" in ast.dump(d) for d in f.decorator_list)


def first(tree):
    """after the imports"""
    return max([i + 1 for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [0])


def in_class_body(tree): return {id(b) for x in ast.walk(tree) if isinstance(x, ast.ClassDef) for b in [x.body]}


@kind
def rename_locals(tree, rnd):
    glob = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)}
    def do(f):
        loc = bound(f) - set(params(f))
        inner = set()
        for x in ast.walk(f):
            if isinstance(x, (ast.Nonlocal, ast.Global)): return
            if x is not f and isinstance(x, FUN): inner |= set(params(x))
            if isinstance(x, ast.Lambda): inner |= set(params(x))
            if isinstance(x, ast.comprehension): inner |= names(x.target)
            if isinstance(x, (ast.Import, ast.ImportFrom)): inner |= {(y.asname or y.name).split(".")[0] for y in x.names}
            if x is not f and isinstance(x, FUN): inner |= bound(x)
            if isinstance(x, ast.ExceptHandler) and x.name: inner.add(x.name)
            if isinstance(x, ast.ClassDef): return
        m = {n: n + "_rn" for n in loc - inner if not n.startswith("__")}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m: x.id = m[x.id]
            if x is not f and isinstance(x, FUN) and x.name in m: x.name = m[x.name]
    for f, encl, _ in list(functions(tree)):
        if not encl: do(f)


@kind
def return_temp(tree, rnd):
    for x, b in list(blocks(tree)):
        for i in range(len(b) - 1, -1, -1):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                v = fresh("out")
                b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]


@kind
def swap_branches(tree, rnd):
    for x in ast.walk(tree):
        if isinstance(x, ast.If) and x.orelse and rnd():
            x.test = ast.UnaryOp(ast.Not(), x.test); x.body, x.orelse = x.orelse, x.body
        elif isinstance(x, ast.IfExp) and rnd():
            x.test = ast.UnaryOp(ast.Not(), x.test); x.body, x.orelse = x.orelse, x.body


@kind
def guard_else(tree, rnd):
    for x in ast.walk(tree):
        if isinstance(x, ast.If) and not x.orelse and rnd() and "TYPE_CHECKING" not in ast.dump(x.test):
            x.test = ast.UnaryOp(ast.Not(), x.test); x.orelse = x.body; x.body = [ast.Pass()]


@kind
def flip_compare(tree, rnd):
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for x in ast.walk(tree):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in F and rnd():
            x.left, x.comparators, x.ops = x.comparators[0], [x.left], [F[type(x.ops[0])]()]


@kind
def commute(tree, rnd):
    for x in ast.walk(tree):
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mult, ast.BitAnd, ast.BitOr)) and rnd():
            if has(x, ast.Constant) and any(isinstance(y, ast.Constant) and isinstance(y.value, str) for y in ast.walk(x)): continue
            if isinstance(x.op, ast.BitOr) and not has(x, ast.Call, ast.Compare): continue
            x.left, x.right = x.right, x.left
        elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add) and any(isinstance(y, ast.BinOp) and isinstance(y.op, (ast.Mult, ast.Div, ast.Sub)) for y in (x.left, x.right)) and not has(x, ast.Tuple, ast.List, ast.JoinedStr):
            if rnd(): x.left, x.right = x.right, x.left


def local_fns(tree):
    for f, encl, cls in functions(tree):
        if not overloaded(f): yield f, encl | bound(f), cls


def own_blocks(f):
    """statement lists of f not inside nested functions/classes"""
    def go(n):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
                for s in b:
                    if not isinstance(s, FUN + (ast.ClassDef,)): yield from go(s)
        for h in getattr(n, "handlers", []): yield from go(h)
    yield from go(f)


@kind
def extract_expr(tree, rnd):
    """the right-hand side of an assignment becomes a module-level helper"""
    new = []
    glob = {s.name for s in tree.body if isinstance(s, FUN + (ast.ClassDef,))}
    for f, avail, cls in list(local_fns(tree)):
        for b in own_blocks(f):
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, (ast.BinOp, ast.Call, ast.Compare)) and rnd():
                    e = s.value
                    if has(e, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.NamedExpr, ast.Yield, ast.Starred) or "super" in names(e) or any(isinstance(y, ast.keyword) and y.arg is None for y in ast.walk(e)): continue
                    fr = free_in(e, avail)
                    h = fresh("helper")
                    new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(n) for n in fr], None, [], [], None, []), [ast.Return(e)], [], None, None, lineno=1))
                    s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(n, ast.Load()) for n in fr], [])
    tree.body[first(tree):first(tree)] = new


@kind
def extract_method(tree, rnd):
    """the right-hand side of an assignment in a method becomes a private method"""
    for f, avail, cls in list(local_fns(tree)):
        if cls is None or not params(f) or params(f)[0] != "self" or f.decorator_list or has(f, ast.Delete): continue
        for b in own_blocks(f):
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, (ast.BinOp, ast.Call)) and rnd():
                    e = s.value
                    if has(e, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.NamedExpr, ast.Starred) or "super" in names(e) or any(isinstance(y, ast.keyword) and y.arg is None for y in ast.walk(e)): continue
                    fr = [n for n in free_in(e, avail) if n != "self"]
                    h = fresh("part")
                    cls.body.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(n) for n in ["self"] + fr], None, [], [], None, []), [ast.Return(e)], [], None, None, lineno=1))
                    s.value = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), h, ast.Load()), [ast.Name(n, ast.Load()) for n in fr], [])


def definitely(stmts):
    """names certainly assigned by a straight-line prefix"""
    out = set()
    for s in stmts:
        if isinstance(s, ast.Assign):
            for t in s.targets: out |= names(t, ast.Store)
        elif isinstance(s, ast.AnnAssign) and s.value is not None: out |= names(s.target, ast.Store)
        elif isinstance(s, FUN): out.add(s.name)
        elif isinstance(s, ast.With): out |= definitely(s.body)
        elif isinstance(s, ast.If) and s.orelse:
            def ends(b): return isinstance(b[-1], (ast.Raise, ast.Return))
            a, c = definitely(s.body), definitely(s.orelse)
            if isinstance(s.body[-1], ast.Raise): out |= c
            elif isinstance(s.orelse[-1], ast.Raise): out |= a
            else: out |= a & c
    return out


@kind
def extract_block(tree, rnd, module=True):
    """a run of statements becomes a helper taking what it reads and returning what it binds"""
    new = []
    for f, avail, cls in list(local_fns(tree)):
        b = f.body
        n0 = 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        if len(b) - n0 < 4 or has(f, ast.Nonlocal): continue
        for _ in range(12):
            i = n0 + int(rnd.r.random() * (len(b) - n0 - 1)); j = min(len(b), i + 2 + int(rnd.r.random() * 6))
            seg = b[i:j]
            if any(has(s, ast.Return, ast.Yield, ast.Nonlocal, ast.Global, ast.Import, ast.ImportFrom, ast.Delete, ast.NamedExpr, ast.ClassDef) for s in seg if not isinstance(s, FUN)): continue
            if any(isinstance(s, FUN) for s in seg) and any(has(s, ast.Nonlocal) for s in seg): continue
            if any("super" in names(s) for s in seg): continue
            binds = set()
            for s in seg: binds |= bound(ast.FunctionDef("x", ast.arguments([], [], None, [], [], None, []), [s], [], None, None))
            cert = definitely(seg)
            later = set()
            for s in b[j:]: later |= names(s)
            for s in b[:i]:
                if has(s, ast.Lambda, *FUN): later |= names(s)
            if any(has(s, ast.Lambda, *FUN) and names(s) & binds for s in b[:i]): continue     # closures over rebound names
            out = sorted(binds & later)
            if not set(out) <= cert: continue
            pre = (set(params(f)) | definitely(b[:i])) - {y.id for q in b[:i] for y in ast.walk(q) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Del)}
            used = set()
            for s in seg: used |= names(s)
            may = set()
            for s in b[:i]: may |= bound(ast.FunctionDef("x", ast.arguments([], [], None, [], [], None, []), [s], [], None, None))
            if (used & may) - pre or (used & bound(f)) - pre - binds: continue
            # names read by the block: known before it, or of the enclosing functions
            encl = avail - bound(f)
            ins = sorted(used & pre); nested = bool(used & encl - binds)
            for s in seg:
                pass
            if not out: continue
            h = fresh("block")
            ret = ast.Return(ast.Tuple([ast.Name(n, ast.Load()) for n in out], ast.Load()) if len(out) > 1 else ast.Name(out[0], ast.Load()))
            hd = ast.FunctionDef(h, ast.arguments([], [ast.arg(n) for n in ins], None, [], [], None, []), seg + [ret], [], None, None, lineno=1)
            if not nested: new.append(hd)
            tgt = ast.Tuple([ast.Name(n, ast.Store()) for n in out], ast.Store()) if len(out) > 1 else ast.Name(out[0], ast.Store())
            b[i:j] = ([hd] if nested else []) + [ast.Assign([tgt], ast.Call(ast.Name(h, ast.Load()), [ast.Name(n, ast.Load()) for n in ins], []))]
            break
    tree.body += new


@kind
def ifexp_statement(tree, rnd):
    for f, avail, cls in list(local_fns(tree)):
        for b in list(own_blocks(f)):
            for i in range(len(b)):
                s = b[i]
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                    mk = lambda v: ast.Assign(copy.deepcopy(s.targets), v)
                    b[i] = ast.If(s.value.test, [mk(s.value.body)], [mk(s.value.orelse)])


@kind
def where_swap(tree, rnd):
    for x in ast.walk(tree):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "where" and isinstance(x.func.value, ast.Name) and x.func.value.id == "jnp" and len(x.args) == 3 and not x.keywords and rnd():
            c, a, b = x.args
            x.args = [ast.Call(ast.Attribute(ast.Name("jnp", ast.Load()), "logical_not", ast.Load()), [c], []), b, a]


@kind
def kw_reverse(tree, rnd):
    for x in ast.walk(tree):
        if isinstance(x, ast.Call) and len(x.keywords) > 1 and all(k.arg for k in x.keywords) and not any(has(k.value, ast.NamedExpr) for k in x.keywords): x.keywords.reverse()


@kind
def dead(tree, rnd):
    cb = in_class_body(tree)
    for x, b in list(blocks(tree)):
        if id(b) in cb or x is tree: continue
        i = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        b.insert(i, ast.Assign([ast.Name("_unused_marker", ast.Store())], ast.Constant(None)))


def effectfree(e): return not has(e, ast.Call, ast.Yield, ast.NamedExpr, ast.Subscript)


@kind
def reorder(tree, rnd):
    for f, avail, cls in list(local_fns(tree)):
        for b in own_blocks(f):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if all(isinstance(q, ast.Assign) for q in (s, t)) and (effectfree(s.value) or effectfree(t.value)):
                    ws, wt = names(s, ast.Store), names(t, ast.Store)
                    if not (ws & (names(t)) or wt & names(s)) and not any(isinstance(y, (ast.Attribute, ast.Subscript)) for q in (s, t) for y in q.targets):
                        b[i], b[i + 1] = t, s; i += 2; continue
                i += 1


@kind
def unpack_split(tree, rnd):
    for f, avail, cls in list(local_fns(tree)):
        for b in list(own_blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and not has(s.targets[0], ast.Starred) and isinstance(s.value, (ast.Call, ast.Name, ast.Attribute)) and rnd():
                    if isinstance(s.value, ast.Call) and (names(s.value.func) & {"zip", "map", "filter", "reversed"}): continue
                    v = fresh("tup")
                    b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], s.value)] + [ast.Assign([t], ast.Subscript(ast.Name(v, ast.Load()), ast.Constant(k), ast.Load())) for k, t in enumerate(s.targets[0].elts)]


@kind
def comp_loop(tree, rnd):
    for f, avail, cls in list(local_fns(tree)):
        for b in list(own_blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                    g = s.value.generators[0]
                    if names(g.target) & (avail | {s.targets[0].id}) or s.targets[0].id in names(s.value): continue
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(s.targets[0].id, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
                    for c in g.ifs: body = [ast.If(c, body, [])]
                    b[i:i + 1] = [ast.Assign(s.targets, ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]


@kind
def inline(tree, rnd):
    """x = e; <stmt using x once>  ->  <stmt with e>"""
    class Sub(ast.NodeTransformer):
        def __init__(self, n, e): self.n, self.e = n, e
        def visit_Name(self, x): return self.e if x.id == self.n and isinstance(x.ctx, ast.Load) else x
    for f, avail, cls in list(local_fns(tree)):
        for b in own_blocks(f):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return)) and t.value is not None:
                    n = s.targets[0].id
                    uses = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == n]
                    here = [x for x in ast.walk(t.value) if isinstance(x, ast.Name) and x.id == n]
                    if len(uses) == 2 and len(here) == 1 and not has(t.value, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.IfExp, ast.BoolOp) and not has(s.value, ast.Lambda):
                        # only when evaluated first or everything else is free of effects
                        if effectfree(s.value) or sum(isinstance(x, ast.Call) for x in ast.walk(t.value)) <= 1:
                            t.value = Sub(n, s.value).visit(t.value); del b[i]; continue
                i += 1


@kind
def lambda_def(tree, rnd):
    """lambdas in statements become named nested functions"""
    for f, avail, cls in list(local_fns(tree)):
        for b in list(own_blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if not isinstance(s, (ast.Assign, ast.Return, ast.Expr)) or s.value is None: continue
                if has(s, ast.ListComp, ast.GeneratorExp, ast.DictComp): continue
                new = []
                class L(ast.NodeTransformer):
                    def visit_Lambda(self, x):
                        n = fresh("fn")
                        new.append(ast.FunctionDef(n, x.args, [ast.Return(x.body)], [], None, None, lineno=1))
                        return ast.Name(n, ast.Load())
                s.value = L().visit(s.value)
                b[i:i] = new


@kind
def omega_map(tree, rnd):
    """(a**ω + b**ω).ω  ->  jtu.tree_map(lambda x, y: x + y, a, b)"""
    if not any(isinstance(x, ast.alias) and x.asname == "jtu" for x in ast.walk(tree)): return
    class O(ast.NodeTransformer):
        def visit_Attribute(self, x):
            self.generic_visit(x)
            if x.attr != "ω" or not isinstance(x.value, ast.BinOp): return x
            leaves = []
            def go(e):
                if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Name) and e.right.id == "ω":
                    leaves.append(e.left); return ast.Name(f"_x{len(leaves)}", ast.Load())
                if isinstance(e, ast.BinOp): return ast.BinOp(go(e.left), e.op, go(e.right))
                if isinstance(e, ast.UnaryOp): return ast.UnaryOp(e.op, go(e.operand))
                if isinstance(e, (ast.Name, ast.Constant)) or (isinstance(e, ast.Attribute) and e.attr != "ω" and not has(e, ast.Call)): return e
                raise ValueError
            try: body = go(x.value)
            except ValueError: return x
            if not leaves or "ω" in names(body): return x
            return ast.Call(ast.Attribute(ast.Name("jtu", ast.Load()), "tree_map", ast.Load()),
                            [ast.Lambda(ast.arguments([], [ast.arg(f"_x{i + 1}") for i in range(len(leaves))], None, [], [], None, []), body)] + leaves, [])
    O().visit(tree)


@kind
def cond_closure(tree, rnd):
    """lax.cond(p, f, g, *ops) -> lax.cond(p, lambda: f(*ops), lambda: g(*ops))"""
    for x in ast.walk(tree):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "cond" and len(x.args) >= 4 and not x.keywords and not has(ast.Tuple(x.args, ast.Load()), ast.Starred) and all(isinstance(o, (ast.Name, ast.Attribute, ast.Constant)) for o in x.args[3:]):
            p, f, g, *ops = x.args
            L = lambda h: ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Call(h, copy.deepcopy(ops), []))
            x.args = [p, L(f), L(g)]


@kind
def early_return(tree, rnd):
    """if c: A(return) ; B   <->  if c: A else: B"""
    for f, avail, cls in list(local_fns(tree)):
        for b in list(own_blocks(f)):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1:] and not any(isinstance(q, FUN) for q in b[i + 1:]):
                    s.orelse = b[i + 1:]; del b[i + 1:]; break


@kind
def elif_flat(tree, rnd):
    """if c: ...return  else: B  ->  if c: ...return ; B"""
    for f, avail, cls in list(local_fns(tree)):
        def once():
            for b in own_blocks(f):
                for i, s in enumerate(b):
                    if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                        rest = s.orelse; s.orelse = []; b[i + 1:i + 1] = rest; return True
        while once(): pass


@kind
def aug(tree, rnd):
    """x = x + e <-> temporaries; x -= e -> x = x - e"""
    for x, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name): b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))


@kind
def alias_self(tree, rnd):
    """fields read once into locals: self.x -> x_ at the method's start when always read unconditionally elsewhere is not needed"""
    for f, avail, cls in list(local_fns(tree)):
        if cls is None or not params(f) or params(f)[0] != "self" or f.name.startswith("__") or f.decorator_list: continue
        fields = {s.target.id for s in cls.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
        used = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"} & fields
        if not used: continue
        class A(ast.NodeTransformer):
            def visit_Attribute(self, x):
                self.generic_visit(x)
                if isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in used and isinstance(x.ctx, ast.Load): return ast.Name("_own_" + x.attr, ast.Load())
                return x
        f.body = [A().visit(s) for s in f.body]
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[i:i] = [ast.Assign([ast.Name("_own_" + u, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), u, ast.Load())) for u in sorted(used)]


@kind
def alias(tree, rnd):
    """lax.cond -> jax.lax.cond, jtu.tree_map -> jax.tree_util.tree_map, jnp.x -> jax.numpy.x"""
    if not any(isinstance(x, ast.Import) and any(y.name == "jax" and not y.asname for y in x.names) for x in tree.body):
        tree.body.insert(first(tree), ast.Import([ast.alias("jax", None)]))
    M = {"lax": ("jax", "lax"), "jtu": ("jax", "tree_util"), "jnp": ("jax", "numpy"), "jr": ("jax", "random")}
    imp = set()
    for x in tree.body:
        if isinstance(x, (ast.Import, ast.ImportFrom)): imp |= {(y.asname or y.name) for y in x.names}
    class A(ast.NodeTransformer):
        def visit_Attribute(self, x):
            self.generic_visit(x)
            if isinstance(x.value, ast.Name) and x.value.id in M and x.value.id in imp:
                a, b = M[x.value.id]; x.value = ast.Attribute(ast.Name(a, ast.Load()), b, ast.Load())
            return x
    A().visit(tree)


@kind
def tree_ns(tree, rnd):
    if not any(isinstance(x, ast.Import) and any(y.name == "jax" and not y.asname for y in x.names) for x in tree.body):
        tree.body.insert(first(tree), ast.Import([ast.alias("jax", None)]))
    M = {"tree_map": "map", "tree_leaves": "leaves", "tree_structure": "structure", "tree_flatten": "flatten", "tree_unflatten": "unflatten"}
    for x in ast.walk(tree):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "jtu" and x.attr in M:
            x.value = ast.Attribute(ast.Name("jax", ast.Load()), "tree", ast.Load()); x.attr = M[x.attr]


@kind
def arith(tree, rnd):
    """a - b -> a + (-b); x / 2 -> x * 0.5; x**2 -> x * x; jnp.square(x) -> x * x"""
    class A(ast.NodeTransformer):
        def visit_BinOp(self, x):
            self.generic_visit(x)
            if isinstance(x.op, ast.Sub) and not has(x, ast.Set) and isinstance(x.left, (ast.BinOp, ast.Name, ast.Call)) and not (isinstance(x.left, ast.BinOp) and "ω" in names(x)) and "set" not in names(x):
                if isinstance(x.right, ast.Constant): return x
                return ast.BinOp(x.left, ast.Add(), ast.UnaryOp(ast.USub(), x.right)) if "ω" not in names(x) else x
            if isinstance(x.op, ast.Div) and isinstance(x.right, ast.Constant) and x.right.value in (2, 4) and not isinstance(x.left, ast.Constant): return ast.BinOp(x.left, ast.Mult(), ast.Constant(1 / x.right.value))
            if isinstance(x.op, ast.Pow) and isinstance(x.right, ast.Constant) and x.right.value == 2 and isinstance(x.left, ast.Name): return ast.BinOp(x.left, ast.Mult(), x.left)
            return x
        def visit_Call(self, x):
            self.generic_visit(x)
            if isinstance(x.func, ast.Attribute) and x.func.attr == "square" and len(x.args) == 1 and isinstance(x.args[0], (ast.Name, ast.Attribute)): return ast.BinOp(x.args[0], ast.Mult(), copy.deepcopy(x.args[0]))
            return x
    A().visit(tree)


@kind
def index_loop(tree, rnd):
    """for a, b in zip(x, y) -> for i in range(len(x))"""
    for f, avail, cls in list(local_fns(tree)):
        for b in own_blocks(f):
            for s in b:
                if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "zip" and not s.iter.keywords and all(isinstance(q, ast.Name) for q in s.iter.args) and isinstance(s.target, ast.Tuple):
                    i = fresh("i")
                    pre = [ast.Assign([ast.Name("_s" + q.id, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [q], [])) for q in s.iter.args]
                    s.body[:0] = [ast.Assign([t], ast.Subscript(ast.Name("_s" + q.id, ast.Load()), ast.Name(i, ast.Load()), ast.Load())) for t, q in zip(s.target.elts, s.iter.args)]
                    s.target = ast.Name(i, ast.Store())
                    n = ast.Call(ast.Name("min", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [ast.Name("_s" + q.id, ast.Load())], []) for q in s.iter.args], []) 
                    s.iter = ast.Call(ast.Name("range", ast.Load()), [n], [])
                    k = b.index(s); b[k:k] = pre; break


@kind
def demorgan(tree, rnd):
    for x in ast.walk(tree):
        if isinstance(x, ast.If) and isinstance(x.test, ast.BoolOp):
            o = ast.Or() if isinstance(x.test.op, ast.And) else ast.And()
            x.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in x.test.values]))


@kind
def keywordise(tree, rnd):
    """positional arguments of same-module functions become keyword arguments"""
    sig = {s.name: [a.arg for a in s.args.args] for s in tree.body if isinstance(s, ast.FunctionDef) and not s.args.posonlyargs and not s.args.vararg and not overloaded(s)}
    for s in tree.body:
        if isinstance(s, ast.FunctionDef) and overloaded(s): sig.pop(s.name, None)
    for f, avail, cls in list(local_fns(tree)):
        for x in ast.walk(f):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in sig and x.func.id not in avail and not has(ast.Tuple(x.args, ast.Load()), ast.Starred) and not any(k.arg is None for k in x.keywords) and len(x.args) <= len(sig[x.func.id]):
                x.keywords = [ast.keyword(n, v) for n, v in zip(sig[x.func.id], x.args)] + x.keywords; x.args = []


class Rnd:
    def __init__(self, seed, p): self.r, self.p = random.Random(seed), p
    def __call__(self): return self.r.random() < self.p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("kind", nargs="?"); ap.add_argument("dest", nargs="?"); ap.add_argument("--list", action="store_true")
    ap.add_argument("--root", default="/repo"); ap.add_argument("--file", default=""); ap.add_argument("--seed", type=int, default=0); ap.add_argument("--prob", type=float, default=1.0)
    a = ap.parse_args()
    if a.list: print(" ".join(KINDS)); return
    if os.path.exists(a.dest): shutil.rmtree(a.dest)
    shutil.copytree(a.root, a.dest, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs", "examples", "benchmarks"))
    for d, _, fs in os.walk(os.path.join(a.dest, "diffrax")):
        for fn in fs:
            p = os.path.join(d, fn)
            if not fn.endswith(".py") or not re.search(a.file, p): continue
            tree = ast.parse(open(p).read())
            rnd = Rnd(a.seed, a.prob)
            for k in a.kind.split("+"):
                ctr[0] += 1
                KINDS[k](tree, rnd)
            open(p, "w").write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")


if __name__ == "__main__": main()
