"""C25: a solve inside a batch gives what it would give alone.

Whole-batch reductions are the only construct through which one element of a batch can see the others.  Every harness whose value graph contains one
is evaluated with an arbitrary symbol for the other elements; each output must then have the same value number as with that symbol at its neutral
value (non-interference)."""
import ast
from sa import terms as tm
from sa.terms import T, const
from sa import models as md
from sa.framework import Check
LEVEL = "dataflow"
TECHNIQUE = "non-interference (information-flow) analysis on gated value graphs: outputs of every function containing a whole-batch reduction are value-numbered with an arbitrary, and with a neutral, contribution of the other elements"
EXPLANATION = ("Each whole-batch reduction is interpreted as the element's own condition combined with an arbitrary symbol for the other elements. The loop body, the code before and after the loop, the output of saved "
               "values, the events, the stage loop, the Langevin coefficients and dense output are extracted, and every output in which such a symbol occurs is compared with the same output when the other elements contribute nothing. "
               "All reduction sites in the source are listed and matched with the sites reached.")
ASSUMPTIONS = ["the array library batches element by element everything that is not a whole-batch reduction", "a stored slope is the one at the current state unless there was a jump (C04, C07, C13)"]
FLOOR = 600


def neutral(t):
    m = {s: (tm.FALSE if s.data[0].startswith("others_any") else tm.TRUE) for s in tm.symbols(t) if s.data and str(s.data[0]).startswith("others_a")}
    return tm.subst(t, m) if m else None


class Flow(Check):
    """runs another property's harness; of each compared output, decides whether the other elements of the batch can influence it"""
    def __init__(self, ck):
        super().__init__(ck.pid, ck.root, ck.tier, ck.seed)
        self.main = ck
    def flow(self, name, where, got, I, assume, doms):
        try: got = (I or self._last).to_term(got)
        except Exception as e: self.main.undecided(name, e); return
        alone = neutral(got)
        if alone is None: return
        hyp = assume
        Check.equal(self.main, name + ".alone", where, got, alone, assume=hyp, doms=doms, I=I, what="the answer for one element of a batch depends on the other elements")
    def equal(self, name, where, got, spec, assume=None, doms=None, what="", n=None, I=None): self.flow(name, where, got, I, assume, doms)
    def equal_many(self, items, where, what, I=None, assume=None, doms=None, n=None):
        for nm, g, _ in items: self.flow(nm, where, g, I, assume, doms)
    def implies(self, *a, **k): return True
    def require(self, *a, **k): return True
    def held(self, *a, **k): pass
    def violation(self, *a, **k): pass
    def undecided(self, name, why): self.main.undecided(name, why)


def sites(repo):
    out = {}
    for m in repo.modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Lambda)): continue
            for c in ast.walk(fn):
                if isinstance(c, ast.Call):
                    f = c.func
                    n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                    if n in ("unvmap_any", "unvmap_all"): out[(m.path, c.lineno)] = n
    return out


def run(ck):
    from checks import c04, c07, c13, c14, c15, c17, c03, dense
    md.BATCH_SITES.clear()
    fl = Flow(ck)
    c13.run(fl)
    c14.run(fl)
    c15.run(fl)
    dense.container(fl)
    for nm in sorted(c.name for c in ck.repo.classes.values() if c.issub(ck.repo.cls("AbstractFosterLangevinSRK")) and c.name in c07.FIELDS):
        c07.selection(fl, nm)
        for jump in (True, False, None): c07.step(fl, nm, jump, False)
    # stages: the other elements jumped, or are at their first step, when this one did not and is not (and the other way round)
    from checks.c17 import part
    cfgs = [("ERK", "AbstractERK", [dict(fsal=True, ssal=True)], None), ("ESDIRK", "AbstractESDIRK", [dict(implicit="esdirk", fsal=True, ssal=True)], None),
            ("IMEX", "AbstractRungeKutta", [dict(fsal=True, ssal=True), dict(implicit="esdirk", fsal=True, ssal=True)], "second_stage")]
    def stages(s):
        for name, base, tabs, jac in cfgs:
            for first, jump, oth in ((False, False, False), (False, False, True), (True, False, False), (False, True, False), (True, False, True), (False, True, True)):
                nm = f"{name}.first={first}.jump={jump}.others={oth}"
                s.attempt(nm, lambda: c04.config(s, nm, base, [dict(t) for t in tabs], False, jac, 3, first, jump, others=oth))
    part(ck, stages, r".")
    ck.functions |= fl.functions
    want = sites(ck.repo)
    for (path, line), n in sorted(want.items()):
        if any(f and str(path).endswith(str(f)) or str(f).endswith(str(path)) for f, l in md.BATCH_SITES if l == line): ck.held(f"site {path}:{line} {n}", "reached")
        elif "progress_meter" in str(path): ck.held(f"site {path}:{line} {n}", "only decides what is displayed (C23)")
        else: ck.undecided(f"site {path}:{line} {n}", "not reached by a harness")
