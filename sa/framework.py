"""Obligations, verdicts, evidence."""
from __future__ import annotations
import json, os, sys, time, traceback
from . import terms as tm
from .terms import T
from .interp import Interp, Unsupported, Definite
from .loader import Repo, AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBS = ("jax.", "numpy.", "equinox.", "builtins.", "optimistix.", "lineax.", "math.", "functools.", "itertools.", "operator.", "inspect.", "typing.", "warnings.")


def unmodelled(t):
    """Library functions without a transfer function occurring in a term."""
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.uid in seen: continue
        seen.add(x.uid)
        if x.op == "app" and x.data.startswith(LIBS): out.add(x.data)
        if x.op == "unknown": out.add("unknown:" + str(x.data[0]))
        st.extend(x.args)
    return out


class Undecided(Exception): pass


class Check:
    def __init__(self, pid, repo_root, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.repo = Repo(repo_root)
        self.root = repo_root
        self.t0 = time.time()
        self.ok, self.bad, self.und = [], [], []
        self.functions = set()
        self.rules = {}
        self.notes = []
        self.n = 120 if tier == "quick" else 600
        self.only = None

    # --- interpreters
    def interp(self, **kw):
        I = Interp(self.repo, **kw)
        self._last = I
        return I

    # --- verdicts
    def held(self, name, rule=""): self.ok.append((name, rule))

    def violation(self, name, where, what, detail=None):
        self.bad.append(dict(obligation=name, where=where, what=what, detail=detail))

    def undecided(self, name, why): self.und.append((name, str(why)[:300]))

    def require(self, name, cond, where, what, detail=None):
        if isinstance(cond, str): raise RuntimeError(f"{name}: condition is a string")
        if cond: self.held(name)
        else: self.violation(name, where, what, detail)
        return cond

    def equal(self, name, where, got, spec, assume=None, doms=None, what="differs from its specification", n=None, I=None):
        """got and spec must have the same value number under `assume`."""
        if not isinstance(got, T): got = (I or self._last).to_term(got)
        if not isinstance(spec, T): spec = (I or self._last).to_term(spec)
        un = unmodelled(got) - unmodelled(spec)
        try: d = tm.differ(got, spec, n=n or self.n, seed=self.seed, assume=assume, doms=doms)
        except tm.Vacuous as e: self.undecided(name, str(e)); return None
        if d is None: self.held(name); return True
        if un: self.undecided(name, "unmodelled: " + ", ".join(sorted(un))); return None
        self.violation(name, where, what, dict(computed=tm.show(got, 12)[:1500], specified=tm.show(spec, 12)[:1500],
                       where_they_differ=str(sub_difference(got, spec, self.seed, assume, doms))[:1500]))
        return False

    def equal_many(self, items, where, what, I=None, assume=None, doms=None, n=None):
        """items: (name, got, spec).  One shared evaluation if all agree, itemised otherwise."""
        J = I or self._last
        items = [(nm, J.to_term(g), J.to_term(s)) for nm, g, s in items]
        if not items: return
        try: whole = tm.differ(tm.app("tuple", *[g for _, g, _ in items]), tm.app("tuple", *[s for _, _, s in items]), n=n or self.n, seed=self.seed, assume=assume, doms=doms)
        except tm.Vacuous as e:
            for nm, _, _ in items: self.undecided(nm, str(e))
            return None
        if whole is None:
            for nm, _, _ in items: self.held(nm)
            return True
        for nm, g, s in items: self.equal(nm, where, g, s, assume=assume, doms=doms, what=what, n=n, I=I)
        return False

    def implies(self, name, where, a, b, what, doms=None, n=None):
        """a -> b must be valid"""
        return self.equal(name, where, tm.lor(tm.lnot(a), b), tm.TRUE, doms=doms, what=what, n=n)

    def attempt(self, name, fn):
        """Run fn (which records verdicts); an unsupported construct leaves `name` undecided."""
        if self.only and not any(name.startswith(o) for o in self.only): return None
        try:
            return fn()
        except (Unsupported, Undecided, tm.Vacuous) as e:
            self.undecided(name, e)
        except Definite as e:
            self.violation(name, e.where, "raises TypeError whenever it is reached: " + e.msg)
        except AnalysisError:
            raise
        except RecursionError:
            self.undecided(name, "recursion limit")
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, StopIteration, ZeroDivisionError, NotImplementedError) as e:
            if os.environ.get("SA_DEBUG"): traceback.print_exc()
            self.undecided(name, f"{type(e).__name__}: {e}")
        return None

    def use(self, I): self.functions |= I.visited


def sub_difference(a, b, seed, assume, doms, depth=0):
    """Narrow a difference down to the smallest differing corresponding subterms (for the report)."""
    if depth > 30 or a.op != b.op or a.data != b.data or len(a.args) != len(b.args) or not a.args:
        return dict(computed=tm.show(a, 5), specified=tm.show(b, 5))
    bad = [(x, y) for x, y in zip(a.args, b.args) if tm.differ(x, y, n=40, seed=seed, doms=doms) is not None]
    if len(bad) == 1: return sub_difference(bad[0][0], bad[0][1], seed, assume, doms, depth + 1)
    return dict(computed=tm.show(a, 5), specified=tm.show(b, 5))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f).get("findings", [])


def finish(ck, level, technique, explanation, assumptions, floor):
    kf = {(k["property"], k["obligation"]): k for k in known_findings()}
    bad, known = [], []
    for b in ck.bad:
        k = kf.get((ck.pid, b["obligation"]))
        if k is not None and k.get("signature", "") in json.dumps(b, ensure_ascii=False): known.append((k, b))
        else: bad.append(b)
    total = len(ck.ok) + len(ck.bad) + len(ck.und)
    cov = dict(explanation=explanation, technique=technique, obligations=total, held=len(ck.ok), violated=len(ck.bad),
               undecided=[dict(obligation=n, reason=w) for n, w in ck.und],
               functions_analysed=len(ck.functions), functions=sorted(ck.functions)[:400],
               obligation_names=sorted(n for n, _ in ck.ok)[:600], notes=ck.notes,
               valuations_per_value_number=ck.n,
               known_findings=[b["obligation"] for _, b in known])
    cov["programs"] = len(ck.functions)
    cov["disagreements_checked"] = total
    cov["samples"] = total * ck.n
    ev = dict(property=ck.pid, tier=ck.tier, seed=ck.seed, level=level, coverage=cov,
              wall_s=round(time.time() - ck.t0, 3), violations=bad, assumptions=assumptions)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ck.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    for k, b in known:
        print(f"KNOWN-FINDING: property={ck.pid} {k['what']}")
    print(f"{ck.pid}: {len(ck.ok)} obligations held, {len(bad)} violated, {len(known)} known, {len(ck.und)} undecided, "
          f"{len(ck.functions)} functions, {time.time() - ck.t0:.1f}s")
    for n, w in ck.und: print(f"  undecided: {n}: {w}")
    if bad:
        rp = os.path.join(VERIF, "evidence", ck.pid + ".violations.json")
        with open(rp, "w") as f: json.dump(bad, f, indent=1, ensure_ascii=False, default=str)
        for b in bad:
            print(f"  {b['where']}: [{b['obligation']}] {b['what']}")
            if b["detail"]: print("     " + json.dumps(b["detail"], ensure_ascii=False, default=str)[:(1200 if os.environ.get("SA_DEBUG") else 300)])
        print(f"VIOLATION property={ck.pid} replay={rp}")
        return 1
    decided = len(ck.ok) + len(known)
    if decided < floor:
        print(f"ANALYSIS-BROKEN property={ck.pid}: only {decided} obligations decided, expected at least {floor}")
        return 2
    return 0
