"""Parses /repo/diffrax and resolves modules, imports, classes and MROs. Never imports the code."""
from __future__ import annotations
import ast, os
from sa import anchors


class AnalysisError(Exception):
    """An anchor the analysis needs is not there (vanished file, class, function...)."""


class Module:
    def __init__(self, name, path, src, is_pkg):
        self.name, self.path, self.src, self.is_pkg = name, path, src, is_pkg
        self.tree = ast.parse(src, path)
        self.defs = {}       # name -> ('func',node)|('class',ClassInfo)|('import',mod,attr)|('assign',node)
        self.star = []


class ClassInfo:
    def __init__(self, module, node, repo):
        self.module, self.node, self.repo = module, node, repo
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.attrs = {}      # name -> ast node (FunctionDef or value expr)
        self.fields = []     # annotated fields in order: (name, annotation, default or None)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.attrs[st.name] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, st.annotation, st.value))
                if st.value is not None: self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name): self.attrs[t.id] = st.value
            elif isinstance(st, ast.If):
                for s2 in st.body + st.orelse:
                    if isinstance(s2, ast.FunctionDef): self.attrs[s2.name] = s2
        self._mro = None

    def bases(self):
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript): b = b.value
            r = self.repo.resolve_expr(self.module, b)
            out.append(r)
        return out

    def mro(self):
        if self._mro is None:
            seqs = []
            bs = [b for b in self.bases() if isinstance(b, ClassInfo)]
            for b in bs: seqs.append(list(b.mro()))
            seqs.append(list(bs))
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs): break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def metaclass(self):
        """the repository class given as metaclass here or in a base, or None"""
        if not hasattr(self, "_meta"):
            self._meta = None
            for c in self.mro():
                for k in c.node.keywords:
                    e = k.value
                    if k.arg is None and isinstance(e, ast.Name):      # **options, with options = dict(metaclass=...)
                        e = next((st.value for st in c.module.tree.body if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in st.targets)), None)
                        e = next((q.value for q in e.keywords if q.arg == "metaclass"), None) if isinstance(e, ast.Call) else None
                    elif k.arg != "metaclass": continue
                    r = self.repo.resolve_expr(c.module, e) if e is not None else None
                    if isinstance(r, ClassInfo): self._meta = r; return r
        return self._meta

    def external_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases():
                if isinstance(b, str): out.append(b)
        return out

    @property
    def is_pytree(self):
        """instances are pytree nodes (equinox modules and the like), rather than leaves"""
        return any("Module" in b or b.endswith(("NamedTuple", "AbstractRootFinder")) for b in self.external_bases())

    def lookup(self, name):
        """(owner ClassInfo, node) or None"""
        for c in self.mro():
            if name in c.attrs: return c, c.attrs[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def is_abstract(self):
        seen = {}
        for c in self.mro():
            for n in c.node.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    seen.setdefault(n.name, any("abstract" in ast.unparse(d) for d in n.decorator_list))
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name): seen.setdefault(t.id, False)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name): seen.setdefault(n.target.id, False)
        return any(seen.values())

    def all_fields(self):
        """dataclass fields (name -> (annotation, default, owner)), in dataclass order."""
        out = {}
        for c in reversed(self.mro()):
            for n, ann, d in c.fields:
                src = ast.unparse(ann)
                if "ClassVar" in src or "AbstractVar" in src or "AbstractClassVar" in src:
                    continue
                out[n] = (ann, d, c)
        return out

    def static_fields(self):
        """fields that are part of the tree structure rather than leaves"""
        if getattr(self, "_static", None) is None:
            self._static = {n for n, (ann, d, c) in self.all_fields().items() if isinstance(d, ast.Call) and (
                ast.unparse(d.func).split(".")[-1] == "static_field" or any(k.arg == "static" and isinstance(k.value, ast.Constant) and k.value.value is True for k in d.keywords))}
        return self._static

    def __repr__(self): return f"<class {self.qual}>"


class Repo:
    overrides = {}       # relative path -> source text (used by the self-test tools only)

    def __init__(self, root):
        self.root = root
        self.modules = {}
        pkg = os.path.join(root, "diffrax")
        if not os.path.isdir(pkg): raise AnalysisError(f"no package at {pkg}")
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"): continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[:-9] if is_pkg else rel
                rp = os.path.relpath(path, root)
                if rp in self.overrides: src = self.overrides[rp]
                else:
                    with open(path, encoding="utf-8") as fh: src = fh.read()
                self.modules[name] = Module(name, os.path.relpath(path, root), src, is_pkg)
        self.renamed = anchors.canonicalise({m.name: m.tree for m in self.modules.values()})
        self.classes = {}
        for m in self.modules.values(): self._index(m, m.tree.body)
        self.homes = anchors.homes(self.modules)

    def add_virtual(self, name, src):
        m = Module(name, f"<{name}>", src, False)
        self.modules[name] = m
        self._index(m, m.tree.body)
        return m

    def _index(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.defs[st.name] = ("func", st)
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(m, st, self)
                m.defs[st.name] = ("class", ci)
                self.classes[ci.qual] = ci
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname: m.defs[a.asname] = ("import", a.name, None)
                    else: m.defs[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(m, st)
                for a in st.names:
                    if a.name == "*": m.star.append(base)
                    else: m.defs[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(st, ast.Assign) and not (isinstance(st.value, ast.Attribute) and st.value.attr == "__wrapped__" and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value.value, ast.Name) and st.value.value.id == st.targets[0].id):
                for t in st.targets:
                    for n in self._names(t):
                        if n == "ω": continue  # cast of the pytree-arithmetic wrapper
                        m.defs[n] = ("assign", st)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.defs[st.target.id] = ("assign", st)
            elif isinstance(st, (ast.If, ast.Try)):
                if isinstance(st, ast.If) and "TYPE_CHECKING" in ast.unparse(st.test):
                    self._index(m, st.orelse); continue
                self._index(m, st.body)
                for h in getattr(st, "handlers", []): self._index(m, h.body)
                self._index(m, st.orelse)

    def _names(self, t):
        if isinstance(t, ast.Name): return [t.id]
        if isinstance(t, (ast.Tuple, ast.List)):
            return [n for e in t.elts for n in self._names(e)]
        return []

    def _abs(self, m, st):
        if st.level == 0: return st.module
        parts = m.name.split(".")
        if not m.is_pkg: parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def resolve(self, m, name, depth=0):
        """-> ('func',Module,node) | ClassInfo | ('assign',Module,node) | ('module',name) | 'dotted.external' | None"""
        if depth > 20: return None
        d = m.defs.get(name)
        if d is None:
            for base in m.star:
                if base in self.modules:
                    r = self.resolve(self.modules[base], name, depth + 1)
                    if r is not None: return r
            return None
        if d[0] == "func": return ("func", m, d[1])
        if d[0] == "class": return d[1]
        if d[0] == "assign": return ("assign", m, d[1])
        _, base, attr = d
        if attr is None:
            if base in self.modules: return ("module", base)
            return base
        if base in self.modules:
            mm = self.modules[base]
            r = self.resolve(mm, attr, depth + 1)
            if r is not None: return r
            sub = base + "." + attr
            if sub in self.modules: return ("module", sub)
            return sub
        return base + "." + attr

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name): return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, str): return b + "." + e.attr
            if isinstance(b, tuple) and b[0] == "module":
                return self.resolve(self.modules[b[1]], e.attr)
        return None

    def cls(self, name):
        """Find a class by (unqualified) name; AnalysisError if missing or ambiguous."""
        c = [x for x in self.classes.values() if x.name == name and x.module.name.startswith("diffrax")]
        if len(c) != 1: raise AnalysisError(f"class {name}: {len(c)} definitions")
        return c[0]

    def subclasses(self, base):
        """Concrete subclasses (no abstractmethod left undefined)."""
        out = []
        for c in self.classes.values() if isinstance(self.classes, dict) else self.classes:
            for x in (c if isinstance(c, list) else [c]):
                if x is not base and x.issub(base) and not x.is_abstract() and x not in out: out.append(x)
        return out

    def public(self, name):
        m = self.modules.get("diffrax")
        if m is None: raise AnalysisError("diffrax/__init__.py missing")
        r = self.resolve(m, name)
        if r is None: raise AnalysisError(f"diffrax.{name} is not exported")
        return r

    def func(self, modname, name):
        m = self.modules.get(modname)
        if m is not None:
            r = self.resolve(m, name)
            if isinstance(r, tuple) and r[0] == "func": return r
        # moved? search everywhere
        c = [("func", mm, d[1]) for mm in self.modules.values() for n, d in mm.defs.items()
             if n == name and d[0] == "func"]
        if len(c) == 1: return c[0]
        raise AnalysisError(f"function {modname}.{name} not found")
