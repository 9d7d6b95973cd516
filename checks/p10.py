"""Temperature feedbacks on the carbon cycle and mixed-layer chemistry."""
from checks.carbon import *  # noqa
import math

LEVEL = "other"
C = DEF_FILE + ":CarbonCycleModel."


def run(ctx):
    ctx.rule("feedback value graphs are neutral at zero warming, bounded by their limits for every warming, and equal "
             "their closed forms; mixed-layer chemistry is continuous with continuous slope and increasing")
    e, m, keys = build(ctx, DEF_MOD, 2, 3)
    dT = sym("dT")
    p = lambda k: sym("c_" + k)

    def st(rng):
        d = setup(DEF_RANGE, 1)(rng)
        d[dT] = rng.choice([rng.uniform(-3, 12), rng.uniform(-30, 30)])
        return d

    def oracle(f):
        return T.ref("fb", lambda V, *a: f({k: V.num(p(k)) for k in keys}, V.num(dT)), dT, *[p(k) for k in keys])
    for nm, f, zero in (("fnpp_from_temp", npp, num(60)), ("solubility_temp_feedback", solub, ONE),
                        ("mixed_layer_temp_feedback", mldepth, T.fn("max", p("mixed_carbon"), p("ml_depth_min")))):
        with ctx.section(nm):
            ctx.equal(nm + " neutral at zero warming", callm(e, m, nm, num(0)), zero, C + nm,
                      "%s is not neutral without warming" % nm, setup=st)
            r = callm(e, m, nm, dT)
            ctx.equal(nm + " closed form", r, oracle(f), C + nm, "%s departs from its closed form" % nm, setup=st, trials=40)
            if nm == "mixed_layer_temp_feedback":
                ctx.equal(nm + " lower bound", lt(r, p("ml_depth_min")), FALSE, C + nm, "mixed layer shallower than its minimum", setup=st)
            if nm == "solubility_temp_feedback":
                ctx.equal(nm + " upper bound", lt(add(ONE, p("solubility_limit")), r), FALSE, C + nm, "solubility factor above its limit", setup=st)
                ctx.equal(nm + " non-negative", lt(r, ZERO), FALSE, C + nm, "negative solubility factor", setup=st)
    # feedback actually applied in stepping: no temperature supplied == zero warming
    with ctx.section("no feedback dict"):
        e1, m1, keys = build(ctx, DEF_MOD, 2, 3)
        e2, m2, keys = build(ctx, DEF_MOD, 2, 3)
        for y in range(3):
            a = callm(e1, m1, "co2em2conc", add(Y0, num(y)), sym("em%d" % y))
            b = callm(e2, m2, "co2em2conc", add(Y0, num(y)), sym("em%d" % y), e2.new_dict([(string("dtemp"), ZERO)]))
            ctx.equal("missing temperature == zero warming, year %d" % y, a, b, C + "co2em2conc",
                      "omitting the feedback differs from zero warming", setup=setup(DEF_RANGE, 3))
    # chemistry, observed through the first step: x0 = s0 + y0/2 + pre, all linear in the emission except pCO2
    with ctx.section("chemistry"):
        e1, m1, keys = build(ctx, DEF_MOD, 1, 2)
        em = sym("em0")
        x = callm(e1, m1, "co2em2conc", Y0, em, e1.new_dict([(string("dtemp"), ZERO)]))
        a = 1 / 9.06
        cc = a / (1 + a / 2)
        # s0 = cc * em/PPM2PG/a ; z0 = 1.722e17*KG/depth*0.5*s0
        s0 = mul(em, num(cc / PPM2PG / a))
        dep = T.fn("max", p("mixed_carbon"), p("ml_depth_min"))
        z = div(mul(s0, num(1.722e17 * KG * 0.5)), dep)
        y = mul(num(2), sub(sub(x, s0), p("preindustrial_co2_conc")))

        def st2(rng):
            d = setup(DEF_RANGE, 1)(rng)
            zt = rng.choice([rng.uniform(0, 293), rng.uniform(294, 2000), 293.5 * (1 + 1e-9), 293.5 * (1 - 1e-9), 293.5])
            dp = max(d[p("mixed_carbon")], d[p("ml_depth_min")])
            d[em] = zt * dp / (1.722e17 * KG * 0.5) / (cc / PPM2PG / a)
            return d
        ctx.equal("chemistry closed form", y, T.ref("pco2", lambda V, *q: pco2(V.num(z)), z), C + "_calculate_partial_pressure_mixed_layer",
                  "partial pressure departs from the carbonate fit and its continuation", setup=st2, trials=60)
        # continuity and slope at the junction, from the code's own term
        for nm, d1, d2, tol in (("value", -1e-7, 1e-7, 1e-4),):
            for k in range(3):
                base = {p(q): num(sum(DEF_RANGE[q]) / 2 + 0.03 * k * DEF_RANGE[q][0]) for q in keys}
                dp = max(float(base[p("mixed_carbon")].args[0]), float(base[p("ml_depth_min")].args[0]))
                e0 = 293.5 * dp / (1.722e17 * KG * 0.5) / (cc / PPM2PG / a)
                yy = subst(y, base)
                lo, hi = subst(yy, {em: num(e0 * (1 + d1))}), subst(yy, {em: num(e0 * (1 + d2))})
                ctx.equal("chemistry continuous at the junction #%d" % k, lo, hi, C + "_calculate_partial_pressure_mixed_layer",
                          "partial pressure jumps where the fit is continued", tol=tol)
                h = 1e-3
                sl = div(sub(subst(yy, {em: num(e0)}), subst(yy, {em: num(e0 * (1 - h))})), num(h))
                sr = div(sub(subst(yy, {em: num(e0 * (1 + h))}), subst(yy, {em: num(e0)})), num(h))
                ctx.equal("chemistry slope continuous at the junction #%d" % k, sl, sr, C + "_calculate_partial_pressure_mixed_layer",
                          "slope of the partial pressure jumps where the fit is continued", tol=2e-2)
