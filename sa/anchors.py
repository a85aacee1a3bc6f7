"""Names are not behaviour: definitions that were renamed since the analysis was written are given back the name the analysis knows
them by (in the parsed tree only), so that the rules keep finding their anchors.  The reference is anchors.json: the definitions of each
scope, with their parameters or fields and a bag of the identifiers they use."""
import ast, json, os
from collections import Counter
FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "anchors.json")
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)


def bag(n):
    c = Counter()
    for x in ast.walk(n):
        if isinstance(x, ast.Name): c[x.id] += 1
        elif isinstance(x, ast.Attribute): c["." + x.attr] += 1
        elif isinstance(x, ast.keyword) and x.arg: c[x.arg + "="] += 1
        elif isinstance(x, ast.Constant) and isinstance(x.value, (int, float)): c[repr(x.value)] += 1
        elif isinstance(x, FUN) and x is not n: c["def"] += 1
        elif isinstance(x, (ast.For, ast.While, ast.If, ast.Lambda, ast.ListComp, ast.Return, ast.With)): c[type(x).__name__] += 1
    return c


def params(f): return [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]


def entry(n):
    if isinstance(n, FUN): return dict(kind="func", sig=params(n), bag=bag(n))
    return dict(kind="class", sig=fields(n), bag=bag(n))


def fields(c): return [s.target.id for s in c.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]


def flat(body):
    for s in body:
        if isinstance(s, FUN + (ast.ClassDef,)): yield s
        elif isinstance(s, (ast.If, ast.Try)):
            yield from flat(s.body); yield from flat(s.orelse)


def snapshot(trees):
    out, ids = {}, set()
    for m, t in trees.items():
        d = out[m] = {}
        for n in flat(t.body):
            e = d.setdefault(n.name, entry(n))
            if isinstance(n, ast.ClassDef): e["methods"] = {q.name: entry(q) for q in flat(n.body)}
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute): ids.add(x.attr)
            elif isinstance(x, ast.Name): ids.add(x.id)
            elif isinstance(x, ast.arg): ids.add(x.arg)
            elif isinstance(x, FUN + (ast.ClassDef,)): ids.add(x.name)
            elif isinstance(x, ast.keyword) and x.arg: ids.add(x.arg)
    return dict(modules=out, identifiers=sorted(ids))


def likeness(a, b):
    x, y = Counter(a["bag"]), Counter(b["bag"])
    u = sum((x | y).values())
    s = sum((x & y).values()) / u if u else 1.0
    p, q = Counter(a["sig"]), Counter(b["sig"])
    v = sum((p | q).values())
    return 0.7 * s + 0.3 * (sum((p & q).values()) / v if v else 1.0)


def match(old, new):
    """{new name: old name} between the missing and the added definitions of one scope"""
    gone = {k: e for k, e in old.items() if k not in new}
    come = {k: e for k, e in new.items() if k not in old}
    out = {}
    pairs = sorted(((likeness(e, f), k, j) for k, e in gone.items() for j, f in come.items() if e["kind"] == f["kind"]), reverse=True)
    usedo, usedn = set(), set()
    for s, k, j in pairs:
        if s < 0.5: break
        if k in usedo or j in usedn: continue
        usedo.add(k); usedn.add(j); out[j] = k
    return out


def canonicalise(trees):
    """rewrites the parsed modules in place; returns {new: old}"""
    if not os.path.exists(FILE): return {}
    with open(FILE) as f: ref = json.load(f)
    known = set(ref["identifiers"])
    names, attrs, fld = {}, {}, {}
    for m, t in trees.items():
        old = ref["modules"].get(m)
        if old is None: continue
        new = {n.name: entry(n) for n in flat(t.body)}
        mp = match(old, new)
        names.update({j: k for j, k in mp.items() if j not in known})
        for n in flat(t.body):
            if not isinstance(n, ast.ClassDef): continue
            o = old.get(mp.get(n.name, n.name))
            if o is None or "methods" not in o: continue
            mm = match(o["methods"], {q.name: entry(q) for q in flat(n.body)})
            attrs.update({j: k for j, k in mm.items() if j not in known})
            cur = fields(n)
            if len(cur) == len(o["sig"]):
                for a, b in zip(cur, o["sig"]):
                    if a != b and a not in known and a not in o["sig"] and b not in cur: fld[a] = b
    if not (names or attrs or fld): return {}
    for t in trees.values():
        meth = {id(q) for c in ast.walk(t) if isinstance(c, ast.ClassDef) for q in flat(c.body)}
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and x.id in names: x.id = names[x.id]
            elif isinstance(x, ast.Attribute):
                for d in (attrs, fld, names):
                    if x.attr in d: x.attr = d[x.attr]; break
            elif isinstance(x, FUN + (ast.ClassDef,)):
                if x.name in names: x.name = names[x.name]
                elif x.name in attrs and id(x) in meth: x.name = attrs[x.name]
                if isinstance(x, ast.ClassDef):
                    for s in x.body:
                        for y in [s.target] if isinstance(s, ast.AnnAssign) else s.targets if isinstance(s, ast.Assign) else []:
                            if isinstance(y, ast.Name): y.id = fld.get(y.id, attrs.get(y.id, y.id))
            elif isinstance(x, ast.arg) and x.arg in names: x.arg = names[x.arg]
            elif isinstance(x, ast.keyword) and (x.arg in fld or x.arg in names): x.arg = fld.get(x.arg, names.get(x.arg))
            elif isinstance(x, ast.alias):
                if x.name in names:
                    if x.asname is None or x.asname == x.name: x.asname = None
                    x.name = names[x.name]
                if x.asname in names: x.asname = names[x.asname]
    return dict(names, **attrs, **fld)


def homes(modules):
    """{(module, name): the module the analysis knows the definition in} for definitions that were moved"""
    if not os.path.exists(FILE): return {}
    with open(FILE) as f: ref = json.load(f)["modules"]
    out = {}
    for m, d in ref.items():
        have = {n.name for n in flat(modules[m].tree.body)} if m in modules else set()
        for n, e in d.items():
            if n in have: continue
            at = [k for k, x in modules.items() if any(q.name == n and (e["kind"] == "class") == isinstance(q, ast.ClassDef) for q in flat(x.tree.body)) and n not in ref.get(k, {})]
            if len(at) == 1: out[at[0], n] = m
    return out
