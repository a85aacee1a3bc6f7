"""Abstract values of the value-graph builder (everything that is not a plain term)."""
from __future__ import annotations
import itertools
_uid = itertools.count(1)


class V: pass


class PyTuple(V):
    __slots__ = ("items",)
    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return "Tuple" + repr(list(self.items))


class PyList(V):
    __slots__ = ("uid",)
    def __init__(self): self.uid = next(_uid)


class PyDict(V):
    __slots__ = ("uid",)
    def __init__(self): self.uid = next(_uid)


class PySet(V):
    __slots__ = ("items",)
    def __init__(self, items): self.items = tuple(items)


class Obj(V):
    """Instance of a class of the repository (or an overlay over an opaque instance `base`)."""
    __slots__ = ("cls", "uid", "base")
    def __init__(self, cls, base=None): self.cls, self.uid, self.base = cls, next(_uid), base
    def __repr__(self): return f"<{self.cls.name if self.cls else 'overlay'} #{self.uid}>"


class Env(V):
    __slots__ = ("uid", "parent", "nonlocals", "globals_")
    def __init__(self, parent): self.uid, self.parent, self.nonlocals = next(_uid), parent, set()


class Func(V):
    __slots__ = ("node", "env", "module", "cls", "name", "defaults", "kwdefaults", "deco")
    def __init__(self, node, env, module, cls, name, defaults, kwdefaults):
        self.node, self.env, self.module, self.cls, self.name = node, env, module, cls, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
    def __repr__(self): return f"<func {self.name}>"


class Bound(V):
    __slots__ = ("func", "self_")
    def __init__(self, func, self_): self.func, self.self_ = func, self_


class Ext(V):
    """A name outside the repository, by dotted path."""
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def __repr__(self): return f"<ext {self.name}>"
    def __eq__(self, o): return isinstance(o, Ext) and o.name == self.name
    def __hash__(self): return hash(self.name)


class Mod(V):
    __slots__ = ("name",)
    def __init__(self, name): self.name = name


class Partial(V):
    __slots__ = ("fn", "args", "kwargs")
    def __init__(self, fn, args, kwargs): self.fn, self.args, self.kwargs = fn, args, kwargs


class Native(V):
    """A callable implemented by the analysis: fn(interp, args, kwargs)."""
    __slots__ = ("fn", "name")
    def __init__(self, fn, name="native"): self.fn, self.name = fn, name


class Omega(V):
    __slots__ = ("v",)
    def __init__(self, v): self.v = v


class Path(V):
    """Place inside a tree, used to interpret eqx.tree_at."""
    __slots__ = ("v", "path")
    def __init__(self, v, path): self.v, self.path = v, path


class Choice(V):
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return f"Choice({self.c!r}, {self.a!r}, {self.b!r})"


class Maybe(V):
    __slots__ = ("c", "v")
    def __init__(self, c, v): self.c, self.v = c, v


class Star(V):
    """Unknown tail of a shape tuple."""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t


class At(V):
    __slots__ = ("x", "idx")
    def __init__(self, x, idx=None): self.x, self.idx = x, idx


class Treedef(V):
    __slots__ = ("s",)
    def __init__(self, s): self.s = s


class Super(V):
    __slots__ = ("cls", "self_")
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_


class SliceV(V):
    __slots__ = ("a", "b", "c")
    def __init__(self, a, b, c): self.a, self.b, self.c = a, b, c


class PartV(V):
    """One half of eqx.partition(x, spec)."""
    __slots__ = ("x", "spec", "which")
    def __init__(self, x, spec, which): self.x, self.spec, self.which = x, spec, which
