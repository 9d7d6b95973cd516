"""Two-layer model: energy budget of one annual step, for all parameters/state/forcing."""
from checks.thermal import *  # noqa

LEVEL = "other"
F = TWO_FILE + ":TwoLayerOceanModel.energy_budget"


def run(ctx):
    ctx.rule("value graph of energy_budget == heat-budget reference, for symbolic parameters, state and forcing")
    with ctx.section("two-layer step"):
        t = TwoLayer(ctx)
        e = t.e
        p = psym
        # initial state of a fresh model is zero
        out0 = outputs(e, t.step(num(0), num(0), I.ArrV(num(0), [num(12)]), I.ArrV(num(0), [num(12)])))
        for k in ("dtemp_fast", "dtemp_slow"):
            ctx.equal("fresh model at rest: " + k, out0[k], ZERO, F, "zero forcing moves a fresh model")
        t = TwoLayer(ctx)
        e = t.e
        w = sym("w_aero")
        # two earlier years with arbitrary forcing and feedback reach a generic state
        for j in (1, 2):
            callm(e, t.m, "set_feedback_gregory", sym("w%d" % j))
            prev = outputs(e, t.step(sym("fn%d" % j), sym("fs%d" % j), vec("vn%d" % j, 12), vec("vs%d" % j, 12)))
        Tf, Ts = prev["dtemp_fast"], prev["dtemp_slow"]
        callm(e, t.m, "set_feedback_gregory", w)
        fn, fs = sym("fnh"), sym("fsh")
        out = outputs(e, t.step(fn, fs, vec("fnv", 12), vec("fsv", 12)))
        st = pam_setup(TWO_RANGE)
        lam = add(p("lambda"), mul(w, p("delta_lambda_aero")))
        year = num(86400 * 365)
        cf = div(mul(p("mixed"), num(1000 * 4184)), year)
        cs = div(mul(p("deep"), num(1000 * 4184)), year)
        tf1, ts1 = out["dtemp_fast"], out["dtemp_slow"]
        k, eps = p("k"), p("ocean_efficacy")
        volc = div(add(*[add(item(sym("fnv", "any"), num(i)), item(sym("fsv", "any"), num(i))) for i in range(12)]), num(12))
        forc = add(div(add(fn, fs), num(2)), volc)
        flux = mul(k, sub(Tf, Ts))

        def eqn(name, a, b, msg, **kw):
            ctx.equal(name, a, b, F, msg, setup=kw.get("setup", st))
        # energy stored = absorbed - exported; exported arrives below
        eqn("surface budget", mul(cf, sub(tf1, Tf)),
            sub(forc, add(mul(lam, Tf), mul(eps, flux))), "mixed-layer heat change is not forcing - feedback - efficacy*flux")
        eqn("deep budget", mul(cs, sub(ts1, Ts)), flux, "deep-layer heat change is not the exchanged flux")
        eqn("toa imbalance", out["RIB"],
            sub(forc, add(mul(lam, tf1), mul(mul(sub(eps, ONE), k), sub(tf1, ts1)))), "reported imbalance")
        fo = div(add(p("foan"), p("foas")), num(2))
        eqn("global temperature", out["dtemp"],
            add(mul(div(forc, lam), sub(ONE, fo)), mul(tf1, fo)), "global temperature is not the land/ocean area mean")
        eqn("sea temperature", out["dtemp_sea"], tf1, "sea surface temperature is not the mixed-layer temperature")
        area = mul(num(361), num(10 ** 12))
        unit = num(10 ** 22)
        eqn("ohc mixed", out["OHC_MIXED"], div(mul(mul(tf1, cf), mul(year, area)), unit), "mixed-layer heat content")
        eqn("ohc deep", out["OHC_DEEP"], div(mul(mul(ts1, cs), mul(year, area)), unit), "deep heat content")
        eqn("ohc total", out["OHCTOT"], add(out["OHC_MIXED"], out["OHC_DEEP"]), "total heat content is not mixed + deep")
        # metamorphic: energy of the whole column (efficacy 1)
        st1 = pam_setup(TWO_RANGE, fixed=dict(ocean_efficacy=1.0))
        eqn("column closure (efficacy 1)", add(mul(cf, sub(tf1, Tf)), mul(cs, sub(ts1, Ts))),
            sub(forc, mul(lam, Tf)), "column heat change differs from net radiative input", setup=st1)
    ctx.assumptions.append("real arithmetic; numpy mean/elementwise semantics as modelled in sa/libmodel.py")
