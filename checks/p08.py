"""Box carbon cycle: carbon mass is conserved."""
from checks.carbon import *  # noqa

LEVEL = "other"
F = BOX_FILE + ":CarbonCycleModel.co2em2conc"
POOLS = ["vegetation_carbon", "soil_carbon", "ocean_mixed_layer_carbon", "ocean_deep_carbon"]


def run(ctx):
    ctx.rule("sum of all pool increments of the value graph of one step == emissions; concentrations == box reference")
    ny = 3 if ctx.quick else 5
    st = setup(BOX_RANGE, ny, big=True, dTr=(-2, 30))
    with ctx.section("mass"):
        e, m, keys = build(ctx, BOX_MOD, 1, ny)
        get = lambda: [e.getattr(m, a, None) for a in POOLS] + [mul(num(PPM2PG), e.getattr(m, "atmospheric_co2", None))]
        init = get()
        tot0 = add(*init)
        total = ZERO
        for y in range(ny):
            x = callm(e, m, "co2em2conc", add(Y0, num(y)), sym("em%d" % y), feed(e, y))
            total = add(total, sym("em%d" % y))
            ctx.equal("carbon mass after year %d" % y, sub(add(*get()), tot0), total, F,
                      "pools change by something other than the emitted carbon", setup=st)
            ctx.equal("returned concentration is the atmospheric pool, year %d" % y, mul(num(PPM2PG), x), get()[-1], F,
                      "returned concentration is not the atmospheric pool", setup=st)
    with ctx.section("reference"):
        e, m, keys = build(ctx, BOX_MOD, 1, ny)
        xs = steps(e, m, ny)

        def go(V):
            if "box" not in V.memo:
                b = BoxRef({q: V.num(sym("c_" + q)) for q in keys})
                try:
                    V.memo["box"] = [b.year(V.num(sym("em%d" % y)), V.num(sym("dT%d" % y))) for y in range(ny)]
                except ValueError:
                    raise T.Undefined("log")
            return V.memo["box"]
        for y in range(ny):
            ctx.equal("concentration of year %d" % y, xs[y], T.ref("box", lambda V, y=y: go(V)[y]), F,
                      "box-model concentration of year %d departs from the pool equations" % y, setup=st)
    with ctx.section("equilibrium"):
        e, m, keys = build(ctx, BOX_MOD, 1, 2, carbon=False)
        x = callm(e, m, "co2em2conc", Y0, ZERO, e.new_dict([(string("dtemp"), ZERO)]))
        ctx.equal("unperturbed atmosphere stays at equilibrium", x, num(278), F, "atmosphere drifts without emissions or warming", setup=st)
    with ctx.section("diagnostics"):
        e, m, keys = build(ctx, BOX_MOD, 1, 2)
        e.getattr(m, "atmospheric_co2", None)
        steps(e, m, 1)
        c = e.getattr(m, "atmospheric_co2", None)
        f1 = callm(e, m, "calculate_npp", sym("dTq"))
        f2 = callm(e, m, "calculate_npp", sym("dTq"), c)
        st2 = lambda rng: dict(st(rng), **{sym("dTq"): rng.uniform(-2, 30)})
        ctx.equal("reported NPP is the one used in stepping", f1, f2, BOX_FILE + ":CarbonCycleModel.calculate_npp",
                  "series NPP differs from the step NPP", setup=st2)
        f1 = callm(e, m, "calculate_ocean_uptake", sym("dTq"))
        f2 = callm(e, m, "calculate_ocean_uptake", sym("dTq"), c)
        ctx.equal("reported ocean flux is the one used in stepping", f1, f2, BOX_FILE + ":CarbonCycleModel.calculate_ocean_uptake",
                  "series ocean uptake differs from the step uptake", setup=st2)
