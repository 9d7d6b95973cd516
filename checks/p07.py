"""Default carbon cycle: pulse-response scheme and flux diagnostics for any emission/temperature history."""
from checks.carbon import *  # noqa

LEVEL = "other"
F = DEF_FILE + ":CarbonCycleModel.co2em2conc"


def ref_run(keys, idtm, ny, rs=None, rb=None):
    def go(V):
        k = ("defref", idtm, ny)
        if k not in V.memo:
            p = {q: V.num(sym("c_" + q)) for q in keys}
            m = DefRef(p, idtm, rs(V) if rs else rs_default, rb(V) if rb else rb_default)
            try:
                xs = [m.year(V.num(sym("em%d" % y)), V.num(sym("dT%d" % y))) for y in range(ny)]
            except (ValueError, OverflowError, ZeroDivisionError):
                raise T.Undefined("ref")
            V.memo[k] = (m, xs)
        return V.memo[k]
    return go


def run(ctx):
    ctx.rule("value graph of successive co2em2conc calls and of the biosphere/ocean flux diagnostics == independent "
             "pulse-response reference, for symbolic parameters, emissions and temperatures")
    cases = [(1, 4), (2, 4), (3, 3)] if ctx.quick else [(1, 8), (2, 6), (3, 5), (5, 4), (12, 2)]
    for idtm, ny in cases:
        tag = "idtm=%d years=%d" % (idtm, ny)
        with ctx.section(tag):
            e, m, keys = build(ctx, DEF_MOD, idtm, ny)
            xs = steps(e, m, ny)
            go = ref_run(keys, idtm, ny)
            st = setup(DEF_RANGE, ny, big=True)
            for y in range(ny):
                t = T.ref("co2", lambda V, y=y: go(V)[1][y])
                ctx.equal("%s: concentration of year %d" % (tag, y), xs[y], t, F,
                          "CO2 concentration of year %d departs from the pulse-response scheme" % y, setup=st)
            for nm, fld, fun in (("biosphere flux", "bio", "get_biosphere_carbon_flux"), ("ocean flux", "oc", "get_ocean_carbon_flux")):
                with ctx.section(tag + " " + nm):
                    r = e.as_arr(callm(e, m, fun))
                    for y in range(ny):
                        t = T.ref(fun, lambda V, y=y, fld=fld: getattr(go(V)[0], fld)[y])
                        ctx.equal("%s: %s of year %d" % (tag, nm, y), subst(r.content, {IX[0]: num(y)}), t,
                                  DEF_FILE + ":CarbonCycleModel." + fun,
                                  "reported %s of year %d is not the flux used in the integration" % (nm, y), setup=st)
    with ctx.section("equilibrium"):
        e, m, keys = build(ctx, DEF_MOD, 2, 2)
        for y in range(2):
            x = callm(e, m, "co2em2conc", add(Y0, num(y)), ZERO, feed(e, y))
            ctx.equal("no emissions keep the pre-industrial concentration, year %d" % y, x, sym("c_preindustrial_co2_conc"), F,
                      "without emissions the concentration leaves its pre-industrial value", setup=setup(DEF_RANGE, 2))
    with ctx.section("custom response functions"):
        # user supplied response functions, as nested dicts
        import math as M

        def mkf(e, pre, nc, nt):
            return e.new_dict([(string("coeffs"), e.new_list([sym("%sc%d" % (pre, i)) for i in range(nc)])),
                               (string("timescales"), e.new_list([sym("%st%d" % (pre, i)) for i in range(nt)]))])
        e = ctx.engine()
        e, m, keys = build(ctx, DEF_MOD, 2, 3, extra=dict(rs_function=mkf(e, "rs", 3, 2), rb_function=mkf(e, "rb", 2, 2)), e=e)
        xs = steps(e, m, 3)

        def rs(V):
            c = [V.num(sym("rsc%d" % i)) for i in range(3)]
            t = [V.num(sym("rst%d" % i)) for i in range(2)]
            return lambda x: (c[0] + sum(c[i + 1] * M.exp(-x / t[i]) for i in range(2))) / sum(c)

        def rb(V):
            c = [V.num(sym("rbc%d" % i)) for i in range(2)]
            t = [V.num(sym("rbt%d" % i)) for i in range(2)]
            return lambda x: sum(c[i] * x / t[i] ** 2 * M.exp(-x / t[i]) for i in range(2)) / sum(c)
        go = ref_run(keys, 2, 3, rs, rb)
        for y in range(3):
            t = T.ref("co2c", lambda V, y=y: go(V)[1][y])
            ctx.equal("custom response functions: concentration of year %d" % y, xs[y], t, F,
                      "user-supplied response functions are not the ones integrated", setup=setup(DEF_RANGE, 3, big=True))
    ctx.assumptions.append("sub-steps per year and number of years instantiated at %s" % cases)
