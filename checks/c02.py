"""C02: embedded error estimates (constant propagation + order theory; value graphs of error_order)."""
import mpmath as mp
from sa import butcher as B, terms as tm
from sa.terms import T, app, ite
from sa.common import rk_solvers, at, tableaus, const_method
from sa.loader import AnalysisError
from sa.values import Native
LEVEL = "proof"
TECHNIQUE = "constant propagation of error weights + order conditions over all rooted trees; value-graph comparison of the declared and reported orders"
EXPLANATION = ("The error weights of every tableau are extracted from the source by constant propagation. Order conditions of the difference "
               "method vanish exactly below the order the method pairs with and not at it; the weights agree (up to overall sign) with the published "
               "pair. order, strong_order and error_order of every solver are interpreted as value graphs and compared with the documented orders.")
ASSUMPTIONS = ["published embedded pairs as transcribed in checks/c02.py", "a step uses the error weights as C04/C05/C06 decide"]
FLOOR = 45
TOL = mp.mpf(10) ** -10

# published difference weights (solution minus companion), up to sign
F = lambda *xs: [mp.mpf(x) for x in xs]
R = lambda p, q=1: mp.mpf(p) / q
PUBLISHED = {
    "Heun": [[R(1, 2), R(-1, 2)]],
    "Midpoint": [[R(1), R(-1)]],
    "Ralston": [[R(3, 4), R(-3, 4)]],
    "Bosh3": [[R(2, 9) - R(7, 24), R(1, 3) - R(1, 4), R(4, 9) - R(1, 3), R(-1, 8)]],
    "Dopri5": [[R(71, 57600), 0, R(-71, 16695), R(71, 1920), R(-17253, 339200), R(22, 525), R(-1, 40)]],
}
ORDERS = {  # order, strong order (None: not declared)
    "Euler": (1, 0.5), "EulerHeun": (1, 0.5), "Heun": (2, 0.5), "Midpoint": (2, 0.5), "Ralston": (2, 0.5), "Bosh3": (3, None),
    "Dopri5": (5, None), "Dopri8": (8, None), "Tsit5": (5, None), "ImplicitEuler": (1, None), "KenCarp3": (3, None), "KenCarp4": (4, None),
    "KenCarp5": (5, None), "Kvaerno3": (3, None), "Kvaerno4": (4, None), "Kvaerno5": (5, None), "LeapfrogMidpoint": (2, None),
    "ReversibleHeun": (2, 0.5), "SemiImplicitEuler": (1, None), "Sil3": (2, None), "ItoMilstein": (None, 1), "StratonovichMilstein": (None, 1),
    "SEA": (1, 1), "SRA1": (2, 1.5), "ShARK": (2, 1.5), "SlowRK": (2, 1.5), "SPaRK": (2, 0.5), "GeneralShARK": (2, 0.5),
    "ALIGN": (2, 2), "ShOULD": (3, 3), "QUICSORT": (3, 3),
}


def embedded(ck):
    I = ck.interp()
    for cls in rk_solvers(ck.repo):
        def one(cls=cls):
            w = at(cls, "tableau")
            tabs = tableaus(I, cls)
            p = int(B.num(I.to_term(const_method(I, cls, "order", tm.sym("terms")))))
            first = p + 1 if cls.name == "Sil3" else p
            memo = {}; bad = []; live = []
            for t, r in B.residuals([t.be for t in tabs], tabs, first, memo, scale=lambda t: mp.mpf(0)):
                q = B.order(t)
                if q < first and abs(r) > TOL: bad.append((B.show(t), mp.nstr(r, 6)))
                if q == first and abs(r) > TOL: live.append(B.show(t))
            ck.require(f"{cls.name}.companion-order-{first - 1}", not bad, w,
                       f"the companion solution behind the error estimate is not of order {first - 1}", bad[:5])
            ck.require(f"{cls.name}.error-does-not-vanish-at-{first}", bool(live), w,
                       f"the error estimate vanishes at order {first}: it does not measure the local error")
            for k, t in enumerate(tabs):
                ck.require(f"{cls.name}[{k}].error-sums-to-zero", abs(sum(t.be)) < TOL, w, "error weights do not sum to zero")
                ck.require(f"{cls.name}[{k}].error-length", len(t.be) == t.s, w, "error weights and stages differ in number")
            ref = PUBLISHED.get(cls.name) or REF.get(cls.name)
            if ref:
                for k, (t, r) in enumerate(zip(tabs, ref)):
                    n = max(len(r), len(t.be))
                    a = t.be + [mp.mpf(0)] * (n - len(t.be)); b = [mp.mpf(x) for x in r] + [mp.mpf(0)] * (n - len(r))
                    if cls.name == "Dopri5":   # Shampine's alternative companion is equally published
                        alts = [b, [mp.mpf(x) for x in REF["Dopri5"][0]]]
                    else: alts = [b]
                    ok = any(all(abs(x - s * y) < mp.mpf(10) ** -9 for x, y in zip(a, alt)) for alt in alts for s in (1, -1))
                    ck.require(f"{cls.name}[{k}].published-pair", ok, w, "error weights differ from the published embedded pair",
                               dict(found=[mp.nstr(x, 12) for x in a], published=[mp.nstr(x, 12) for x in b]))
        ck.attempt(cls.name, one)
    ck.use(I)


def orders(ck):
    I = ck.interp()
    terms = tm.sym("terms")
    sde = tm.sym("is_sde(terms)", "bool")
    I.opaque["is_sde"] = lambda I, a, k: sde if a and I.to_term(a[0]) is terms else tm.unknown("is_sde of something else")
    I.opaque["diffrax._term.is_sde"] = I.opaque["is_sde"]
    absol = ck.repo.cls("AbstractSolver")
    classes = [c for c in sorted(ck.repo.classes.values(), key=lambda c: c.qual) if c.issub(absol)]
    seen = set()
    num = lambda v: tm.const(v)
    for cls in classes:
        if cls.name not in ORDERS: continue
        seen.add(cls.name)
        def one(cls=cls):
            o, s = ORDERS[cls.name]
            mk = lambda: I.mkobj(cls, {})
            g = lambda n: I.to_term(I.call(I.method(cls, n, mk()), [terms], {}))
            if not (cls.name.endswith("Milstein")):
                ck.equal(f"{cls.name}.order", at(cls, "order"), g("order"), num(o), what="declared order differs from the order of the method")
            ck.equal(f"{cls.name}.strong_order", at(cls, "strong_order"), g("strong_order"), num(s), what="declared strong order differs from that of the method")
            eo = g("error_order") if not cls.name.endswith("Milstein") else None
            if eo is not None:
                if cls.name == "ImplicitEuler": spec = ite(sde, tm.NONE, num(2))
                else: spec = ite(sde, tm.NONE if s is None else num(s + 0.5), num(o))
                ck.equal(f"{cls.name}.error_order", at(cls, "error_order"), eo, spec, what="error order given to the step size controller is wrong")
        ck.attempt(cls.name + ".order", one)
    missing = set(ORDERS) - seen
    if missing: raise AnalysisError(f"solvers not found: {sorted(missing)}")

    def half():
        cls = ck.repo.cls("HalfSolver")
        inner = tm.sym("solver")
        I.hints[inner] = (absol, False)
        o = I.mkobj(cls, {"solver": inner})
        io = I.to_term(I.call(I.getattr(inner, "order"), [terms], {}))
        iso = I.to_term(I.call(I.getattr(inner, "strong_order"), [terms], {}))
        got = I.to_term(I.call(I.method(cls, "error_order", o), [terms], {}))
        isn = lambda t: app("isnone", t)
        spec = ite(sde, ite(isn(iso), tm.NONE, iso + num(0.5)), ite(isn(io), tm.NONE, io + 1))
        norm = lambda t: t
        # a None order propagates as None: compare on the defined part and on the undefined part
        ck.equal("HalfSolver.error_order.defined", at(cls, "error_order"), got, spec, assume=(~isn(iso)) & (~isn(io)),
                 what="error order of the step-halving wrapper is wrong")
        ck.equal("HalfSolver.order", at(cls, "order"), I.call(I.method(cls, "order", o), [terms], {}), io)
        ck.equal("HalfSolver.strong_order", at(cls, "strong_order"), I.call(I.method(cls, "strong_order", o), [terms], {}), iso)
    ck.attempt("HalfSolver", half)

    def generic():
        I2 = ck.interp(); I2.opaque.update(I.opaque)
        o, so = tm.sym("any_order"), tm.sym("any_strong_order")
        s = I2.mkobj(absol, {"order": Native(lambda I, a, k: o, "order"), "strong_order": Native(lambda I, a, k: so, "strong_order")})
        got = I2.to_term(I2.call(I2.method(absol, "error_order", s), [terms], {}))
        isn = app("isnone", so)
        ck.equal("AbstractSolver.error_order", at(absol, "error_order"), got, ite(sde, ite(isn, so, so + num(0.5)), o),
                 assume=~isn, what="default error order is wrong")
    ck.attempt("AbstractSolver.error_order", generic)
    ck.use(I)


def run(ck):
    embedded(ck)
    orders(ck)
    from checks import c05
    c05.error_estimates(ck)


REF = {
    "Dopri5": [[0.0008217592592592593, 0.0, -0.0028351801936707596, 0.024652777777777777, -0.03390919811320755, 0.027936507936507936, -0.016666666666666666]],
    "Dopri8": [[0.012194277465176748, 0.0, 0.0, 0.0, 0.0, 0.7731539478765578, -0.07192809284993823, -1.763834521196444, 1.787182038027448, -0.7829855527544889, 0.07877188662899605, -0.28255398319730723, 0.25, 0.0]],
    "KenCarp3": [[-0.027099261876665316, -0.11013520969201586, 0.10306492520138458, 0.0341695463672966]] * 2,
    "KenCarp4": [[0.0032044943984591762, 0.0, -0.0024462511366794577, -0.02148007591958727, 0.043946868068572426, -0.02322503541076487]] * 2,
    "KenCarp5": [[0.004028378053609986, 0.0, 0.0, -0.06847007623452846, 0.019716427003038314, 0.07364888848796769, -0.01669037539981169, -0.012233241910275841]] * 2,
    "Kvaerno3": [[-0.18175341844607207, 1.416993298173216, -1.671106401227144, 0.4358665215]],
    "Kvaerno4": [[-0.06538674195294907, 0.4887481113213988, 0.33895720676274366, -1.3351346386311933, 0.5728160625]],
    "Kvaerno5": [[-0.00195889053627932, 0.0, -0.01251571594786333, -0.06565284626324187, 0.0105026582653572, -0.1903752055179727, 0.26]],
    "Sil3": [[0.0, 0.5, -1.0, 0.5], [0.125, 0.0, -0.375, 0.25]],
    "Tsit5": [[0.00178001105222578, 0.000816434459656746, -0.007880878010262, 0.144711007173263, -0.5823571654525554, 0.458082105929187, -0.015151515151515152]],
}
