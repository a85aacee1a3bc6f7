"""C01: order conditions of every Runge-Kutta tableau (constant propagation + exact order theory)."""
import mpmath as mp
from sa import butcher as B, terms as tm
from sa.common import rk_solvers, at, tableaus, const_method
LEVEL = "proof"
TECHNIQUE = "constant propagation of coefficient tables out of the source, then Butcher order conditions over all (coloured) rooted trees"
EXPLANATION = ("For every class deriving from AbstractRungeKutta the coefficient tables and the declared order are extracted by constant "
               "propagation over the syntax tree; the order conditions of all rooted trees (all two-coloured trees for additive methods) up to the "
               "declared order are evaluated in 50-digit arithmetic with tolerance 1e-10; structural flags are recomputed from the table.")
ASSUMPTIONS = ["order theory of (additive) Runge-Kutta methods; coefficients are used by the stepping code as C04 decides"]
FLOOR = 40
TOL = mp.mpf(10) ** -10


def run(ck):
    I = ck.interp()
    solvers = rk_solvers(ck.repo)
    for cls in solvers:
        def one(cls=cls):
            w = at(cls, "tableau")
            tabs = tableaus(I, cls)
            p = int(B.num(I.to_term(const_method(I, cls, "order", tm.sym("terms")))))
            ck.require(f"{cls.name}.order-positive", 1 <= p <= 12, at(cls, "order"), f"declared order {p}")
            ck.require(f"{cls.name}.stages", len({t.s for t in tabs}) == 1, w, "tableaus have different numbers of stages")
            memo = {}
            bad = {}
            cnt = {}
            for t, r in B.residuals([t.b for t in tabs], tabs, min(p, 9), memo):
                q = B.order(t)
                cnt[q] = cnt.get(q, 0) + 1
                if abs(r) > TOL: bad.setdefault(q, []).append((B.show(t), mp.nstr(r, 6)))
            for q in range(1, p + 1):
                ck.require(f"{cls.name}.order-{q} ({cnt.get(q, 0)} trees)", not bad.get(q), w,
                           f"declared order {p} but the order-{q} conditions fail", bad.get(q, [])[:5])
            for k, t in enumerate(tabs):
                nm = f"{cls.name}[{k}]"
                rows = [i for i in range(t.s) if abs(sum(t.A[i]) - t.c[i]) > TOL]
                ck.require(nm + ".row-sums", not rows, w, f"stage times differ from the row sums in stages {rows}")
                last = all(abs(t.A[t.s - 1][j] - t.b[j]) < TOL for j in range(t.s))
                first_expl = all(abs(x) == 0 for x in t.A[0])
                last_expl = t.A[t.s - 1][t.s - 1] == 0
                if t.flags.get("fsal"):
                    ck.require(nm + ".fsal", last and first_expl and abs(t.c[-1] - 1) < TOL and t.c[0] == 0, w,
                               "first-same-as-last is claimed but the last stage is not the solution at the end of the step")
                if t.flags.get("ssal"):
                    ck.require(nm + ".ssal", last and last_expl, w, "solution-same-as-last is claimed but the last stage differs from the solution")
                ck.require(nm + ".implicit-flag", t.flags.get("implicit") is not None and t.flags["implicit"] == (t.diag is not None)
                           and (t.diag is not None or all(t.A[i][i] == 0 for i in range(t.s))), w, "implicit flag does not match the diagonal")
                ck.require(nm + ".num_stages", t.num_stages == t.s, w, "num_stages is not the number of weights")
                if t.pred is not None:
                    badp = [i for i, r in enumerate(t.pred) if abs(sum(r) - 1) > mp.mpf(10) ** -7]
                    ck.require(nm + ".predictor", not badp, w, f"predictor rows {badp} do not sum to one")
            # Jacobian reuse policy against the diagonal
            CJ = ck.repo.cls("CalculateJacobian")
            jv = I.to_term(I.class_attr(cls, "calculate_jacobian")[2])
            jac = " ".join(n for n in ("never", "every_stage", "first_stage", "second_stage") if I.to_term(I.getattr(CJ, n)) is jv)
            diags = [t.diag for t in tabs if t.diag is not None]
            ok = True
            if "never" in jac: ok = not diags
            else:
                ok = len(diags) == 1
                if ok and "first_stage" in jac: ok = len(set(diags[0])) == 1 and diags[0][0] != 0
                if ok and "second_stage" in jac: ok = diags[0][0] == 0 and len(set(diags[0][1:])) == 1 and diags[0][1] != 0
                if ok: ok = any(x in jac for x in ("every_stage", "first_stage", "second_stage"))
            ck.require(f"{cls.name}.jacobian-policy", ok, w, f"Jacobian reuse policy {jac} does not fit the diagonal of the tableau")
        ck.attempt(cls.name, one)
    exported = {"Bosh3", "Dopri5", "Dopri8", "Heun", "KenCarp3", "KenCarp4", "KenCarp5", "Kvaerno3", "Kvaerno4", "Kvaerno5",
                "Midpoint", "Ralston", "Sil3", "Tsit5"}
    missing = exported - {c.name for c in solvers}
    if missing:
        from sa.loader import AnalysisError
        raise AnalysisError(f"Runge-Kutta solvers not found: {sorted(missing)}")
    ck.use(I)
    ck.notes.append(f"{len(solvers)} solvers")
