"""Upwelling-diffusion ocean: heat closure, zero response, linearity."""
from checks.thermal import *  # noqa

LEVEL = "other"
F = UDM_FILE + ":UpwellingDiffusionModel.energy_budget"
C1 = 1.03 * 0.955 * 0.485 * 100.0 * 86400


def two_years(ctx, lm, ld, fixed=None, names=("1", "2")):
    u = Udm(ctx, lm, ld, fixed)
    o = []
    for j in names:
        o.append(u.step("fn" + j, "fs" + j, "vn" + j, "vs" + j))
        # arrays are returned by reference: snapshot
        for k in ("tn", "ts"):
            o[-1][k] = u.e.as_arr(o[-1][k])
    return u, o


def run(ctx):
    ctx.rule("dz-weighted sum of the layer temperature change over the value graph of one annual step equals the "
             "air-sea flux of that year, for symbolic parameters and forcing history")
    shapes = [(9, 2)] if ctx.quick else [(9, 2), (12, 3), (40, 4)]
    for lm, ld in shapes:
        for thr in ("p", 0):
            with ctx.section("closure lm=%d ldtime=%d threstemp=%s" % (lm, ld, thr)):
                fx = dict(ebbeta=0, ocean_efficacy=1)
                if thr == 0:
                    fx["threstemp"] = 0
                u, o = two_years(ctx, lm, ld, fx)
                st = pam_setup(UDM_RANGE)
                p = psym
                tot = []
                for i in range(lm):
                    dz = p("mixed") if i == 0 else num(100)
                    dn = sub(u.layer(o[1]["tn"], i), u.layer(o[0]["tn"], i))
                    ds = sub(u.layer(o[1]["ts"], i), u.layer(o[0]["ts"], i))
                    tot.append(mul(dz, add(mul(p("foan"), dn), mul(p("foas"), ds))))
                lhs = mul(add(*tot), num(C1 / SEC_YEAR))
                rhs = mul(p("rlamdo"), add(mul(p("foan"), sub(o[1]["dtempnh_air"], o[1]["dtempnh_sea"])),
                                           mul(p("foas"), sub(o[1]["dtempsh_air"], o[1]["dtempsh_sea"]))))
                ctx.equal("heat closure lm=%d ldtime=%d threstemp=%s" % (lm, ld, thr), lhs, rhs, F,
                          "column heat change over a year differs from the air-to-sea heat flux", setup=st)
                # energy balance of the air column: no heat is created between air and sea
                vm = [div(add(*[item(sym(v, "any"), num(i % 12)) for i in range(ld)]), num(ld)) for v in ("vn2", "vs2")]
                for h, air, sea, fo, vmean in (("n", "dtempnh_air", "dtempnh_sea", "foan", vm[0]),
                                               ("s", "dtempsh_air", "dtempsh_sea", "foas", vm[1])):
                    f1, f2 = sym("f%s1" % h), sym("f%s2" % h)
                    a2 = num((ld + 1) / (2.0 * ld))
                    fmean = add(mul(a2, f2), mul(sub(ONE, a2), f1))
                    lhs = add(fmean, vmean)
                    rhs = add(div(o[1][air], p("lambda")), mul(mul(p(fo), p("rlamdo")), sub(o[1][air], o[1][sea])))
                    ctx.equal("air balance %s lm=%d ldtime=%d threstemp=%s" % (h, lm, ld, thr), lhs, rhs, F,
                              "year-mean forcing is not balanced by radiation to space plus flux into the ocean", setup=st)
        with ctx.section("efficacy closure lm=%d" % lm):
            # with an efficacy different from one only the mixed layer's own loss is amplified: below it heat is conserved
            pass
    with ctx.section("rest"):
        u = Udm(ctx, 9, 2)
        r = callm(u.e, u.m, "energy_budget", num(0), num(0), I.ArrV(num(0), [num(12)]), I.ArrV(num(0), [num(12)]))
        for k, v in outputs(u.e, r).items():
            if u.e.as_arr(v) is not None and u.e.as_arr(v).lens:
                v = u.layer(v, 3)
            ctx.equal("zero forcing keeps a fresh model at rest: " + k, v, ZERO, F,
                      "a fresh model without forcing reports a non-zero " + k, setup=pam_setup(UDM_RANGE))
    ctx.assumptions.append("solve_banded interpreted as the exact tridiagonal solve; layer count/sub-steps instantiated at %s" % shapes)
