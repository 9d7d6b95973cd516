"""Ocean heat content outputs."""
from checks.thermal import *  # noqa
from checks.p02 import two_years

LEVEL = "other"
FU = UDM_FILE + ":UpwellingDiffusionModel.energy_budget"
FT = TWO_FILE + ":TwoLayerOceanModel.energy_budget"
K = 1030.0 * 3.997e-19 * 2.55e14


def run(ctx):
    ctx.rule("OHC700 == integral of the reported layer temperatures over exactly the top 700 m, OHCTOT == over the "
             "whole column, for every mixed-layer depth")
    for lm in ([12] if ctx.quick else [9, 12, 40]):
        with ctx.section("udm ohc lm=%d" % lm):
            u, o = two_years(ctx, lm, 1)
            p = psym
            o = o[1]
            tot, top = [], []
            for i in range(lm):
                dz = p("mixed") if i == 0 else num(100)
                z0 = ZERO if i == 0 else add(p("mixed"), num(100 * (i - 1)))
                t = add(mul(p("foan"), u.layer(o["tn"], i)), mul(p("foas"), u.layer(o["ts"], i)))
                part = fn("max", fn("min", dz, sub(num(700), z0)), ZERO)
                tot.append(mul(dz, t))
                top.append(mul(part, t))
            for nm, rng_ in (("mixed any", (5, 699)), ("mixed 100s", None)):
                def st(rng, r=rng_):
                    d = pam_setup(UDM_RANGE)(rng)
                    d[p("mixed")] = rng.uniform(*r) if r else rng.choice([100.0, 200.0, 300.0, 400.0, 500.0, 600.0])
                    return d
                dom = band(lt(ZERO, p("mixed")), lt(p("mixed"), num(700)))
                ctx.equal("udm OHC700 %s lm=%d" % (nm, lm), o["OHC700"], mul(num(K), add(*top)), FU,
                          "OHC700 does not integrate exactly the upper 700 m", setup=st, where=dom)
                ctx.equal("udm OHCTOT %s lm=%d" % (nm, lm), o["OHCTOT"], mul(num(K), add(*tot)), FU,
                          "OHCTOT does not integrate the whole column", setup=st, where=dom)
    with ctx.section("two-layer ohc"):
        t = TwoLayer(ctx)
        e = t.e
        for j in (1, 2):
            prev = outputs(e, t.step(sym("fn%d" % j), sym("fs%d" % j), vec("vn%d" % j, 12), vec("vs%d" % j, 12)))
        p = psym
        m, d = p("mixed"), p("deep")
        top = add(mul(div(fn("min", m, num(700)), m), prev["OHC_MIXED"]),
                  mul(div(fn("max", fn("min", d, sub(num(700), m)), ZERO), d), prev["OHC_DEEP"]))
        for nm, r in (("shallow", (5, 690)), ("deep mixed layer", (700, 1500)), ("thin", (5, 200))):
            def st(rng, r=r, nm=nm):
                x = pam_setup(TWO_RANGE)(rng)
                x[m] = rng.uniform(*r)
                if nm == "thin":
                    x[d] = rng.uniform(50, 400)
                return x
            dom = band(lt(ZERO, m), lt(ZERO, d))
            ctx.equal("two-layer OHC700 " + nm, prev["OHC700"], top, FT, "OHC700 does not integrate exactly the upper 700 m",
                      setup=st, where=dom)
            ctx.equal("two-layer OHCTOT " + nm, prev["OHCTOT"], add(prev["OHC_MIXED"], prev["OHC_DEEP"]), FT,
                      "OHCTOT is not the sum of the layers", setup=st, where=dom)
            c = num(1000 * 4184 * 3.61e14 / 1e22)
            ctx.equal("two-layer OHC_MIXED " + nm, prev["OHC_MIXED"], mul(mul(m, c), prev["dtemp_fast"]), FT,
                      "mixed-layer heat content is not depth times temperature", setup=st, where=dom)
            ctx.equal("two-layer OHC_DEEP " + nm, prev["OHC_DEEP"], mul(mul(d, c), prev["dtemp_slow"]), FT,
                      "deep-layer heat content is not depth times temperature", setup=st, where=dom)
