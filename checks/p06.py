"""State-dependent feedback: effective feedback parameter used by both thermal models."""
from checks.thermal import *  # noqa
from checks import p05

LEVEL = "other"
FU = UDM_FILE + ":UpwellingDiffusionModel.set_feedback_gregory"
FT = TWO_FILE + ":TwoLayerOceanModel.set_feedback_gregory"


def run(ctx):
    ctx.rule("get_feedback_gregory == base + delta*w after any sequence of updates; stepped value graphs equal the "
             "reference run with that feedback in every year; delta == 0 leaves the model untouched")
    with ctx.section("udm effective feedback"):
        u = Udm(ctx, 8, 2)
        e = u.e
        p = psym
        st = pam_setup(UDM_RANGE)
        ctx.equal("udm fresh feedback", callm(e, u.m, "get_feedback_gregory"), div(ONE, p("lambda")), FU,
                  "feedback of a fresh model is not 1/lambda", setup=st)
        outs = []
        for y in (1, 2):
            callm(e, u.m, "set_feedback_gregory", sym("wx%d" % y))
            callm(e, u.m, "set_feedback_gregory", sym("w%d" % y))
            ctx.equal("udm feedback after update %d" % y, callm(e, u.m, "get_feedback_gregory"),
                      add(div(ONE, p("lambda")), mul(sym("w%d" % y), p("delta_lambda_aero"))), FU,
                      "effective feedback is not base + delta*w (history leaks in)", setup=st)
            o = u.step("fn%d" % y, "fs%d" % y, "vn%d" % y, "vs%d" % y)
            for k in ("tn", "ts"):
                o[k] = e.as_arr(o[k])
            outs.append(o)
        go = p05.reference(u.keys, 8, 2, u.nvolc, 2, w=["w1", "w2"])
        p05.compare(ctx, "udm step with updated feedback", u, outs, go, st)
    with ctx.section("udm delta zero"):
        u = Udm(ctx, 8, 2, dict(delta_lambda_aero=0))
        callm(u.e, u.m, "set_feedback_gregory", sym("w1"))
        o = u.step("fn1", "fs1", "vn1", "vs1")
        u2 = Udm(ctx, 8, 2, dict(delta_lambda_aero=0))
        o2 = u2.step("fn1", "fs1", "vn1", "vs1")
        for k in p05.OUT:
            ctx.equal("udm delta=0 leaves %s unchanged" % k, o[k], o2[k], FU,
                      "with zero delta the aerosol weight still changes " + k, setup=pam_setup(UDM_RANGE))
    with ctx.section("two-layer"):
        t = TwoLayer(ctx)
        e = t.e
        st = pam_setup(TWO_RANGE)
        p = psym
        ctx.equal("two-layer fresh feedback", callm(e, t.m, "get_feedback_gregory"), p("lambda"), FT,
                  "feedback of a fresh model is not lambda", setup=st)
        prev = None
        for y in (1, 2, 3):
            callm(e, t.m, "set_feedback_gregory", sym("wx%d" % y))
            callm(e, t.m, "set_feedback_gregory", sym("w%d" % y))
            lam = add(p("lambda"), mul(sym("w%d" % y), p("delta_lambda_aero")))
            ctx.equal("two-layer feedback after update %d" % y, callm(e, t.m, "get_feedback_gregory"), lam, FT,
                      "effective feedback is not base + delta*w (history leaks in)", setup=st)
            fn_, fs_ = sym("fn%d" % y), sym("fs%d" % y)
            o = outputs(e, t.step(fn_, fs_, I.ArrV(ZERO, [num(12)]), I.ArrV(ZERO, [num(12)])))
            tf0 = prev["dtemp_fast"] if prev else ZERO
            ts0 = prev["dtemp_slow"] if prev else ZERO
            cf = div(mul(p("mixed"), num(1000 * 4184)), num(86400 * 365))
            ctx.equal("two-layer radiative damping uses the effective feedback, year %d" % y,
                      mul(cf, sub(o["dtemp_fast"], tf0)),
                      sub(div(add(fn_, fs_), num(2)),
                          add(mul(lam, tf0), mul(mul(p("ocean_efficacy"), p("k")), sub(tf0, ts0)))),
                      TWO_FILE + ":TwoLayerOceanModel.energy_budget",
                      "the step does not damp with base + delta*w", setup=st)
            ctx.equal("two-layer imbalance uses the effective feedback, year %d" % y, o["RIB"],
                      sub(div(add(fn_, fs_), num(2)),
                          add(mul(lam, o["dtemp_fast"]), mul(mul(sub(p("ocean_efficacy"), ONE), p("k")), sub(o["dtemp_fast"], o["dtemp_slow"])))),
                      TWO_FILE + ":TwoLayerOceanModel.energy_budget", "imbalance", setup=st)
            prev = o
