"""Upwelling-diffusion model: hemispheres are treated alike; global values are hemispheric means."""
from checks.thermal import *  # noqa
from checks.p02 import two_years

LEVEL = "other"
F = UDM_FILE + ":UpwellingDiffusionModel.energy_budget"
SWAP = [("dtempnh", "dtempsh"), ("dtempnh_air", "dtempsh_air"), ("dtempnh_sea", "dtempsh_sea"), ("RIBN", "RIBS")]
MEAN = [("dtemp", "dtempnh", "dtempsh"), ("dtemp_air", "dtempnh_air", "dtempsh_air"),
        ("dtemp_sea", "dtempnh_sea", "dtempsh_sea"), ("RIB", "RIBN", "RIBS")]


def run(ctx):
    ctx.rule("relabelling the hemispheres (forcing, volcanic series, ocean fractions; exchange rescaled by the ocean "
             "fraction ratio) swaps the hemispheric value graphs and fixes the global ones")
    shapes = [(9, 2)] if ctx.quick else [(9, 2), (13, 4), (40, 3)]
    for lm, ld in shapes:
        with ctx.section("mirror lm=%d ldtime=%d" % (lm, ld)):
            u, a = two_years(ctx, lm, ld)
            p = psym
            fx = dict(foan=p("foas"), foas=p("foan"), beto=sym("p_beto_mirror"))
            v = Udm(ctx, lm, ld, fx)
            b = []
            for j in "12":
                b.append(v.step("fs" + j, "fn" + j, "vs" + j, "vn" + j))
                for k in ("tn", "ts"):
                    b[-1][k] = v.e.as_arr(b[-1][k])

            def st(rng):
                d = pam_setup(UDM_RANGE)(rng)
                d[sym("p_beto_mirror")] = d[p("beto")] * d[p("foan")] / d[p("foas")]
                return d
            for y in (0, 1):
                for n, s in SWAP:
                    ctx.equal("swap %s/%s year %d lm=%d" % (n, s, y, lm), a[y][n], b[y][s], F,
                              "%s of a configuration differs from %s of its mirror image" % (n, s), setup=st)
                    ctx.equal("swap %s/%s year %d lm=%d" % (s, n, y, lm), a[y][s], b[y][n], F,
                              "%s of a configuration differs from %s of its mirror image" % (s, n), setup=st)
                for g in ("dtemp", "dtemp_air", "dtemp_sea", "RIB", "OHC700", "OHCTOT"):
                    ctx.equal("mirror-invariant %s year %d lm=%d" % (g, y, lm), a[y][g], b[y][g], F,
                              "global %s changes when the hemispheres are relabelled" % g, setup=st)
                for g, n, s in MEAN:
                    ctx.equal("mean %s year %d lm=%d" % (g, y, lm), a[y][g], div(add(a[y][n], a[y][s]), num(2)), F,
                              "global %s is not the mean of %s and %s" % (g, n, s), setup=st)
                for i in (0, 1, lm // 2, lm - 1):
                    ctx.equal("swap profile layer %d year %d lm=%d" % (i, y, lm), u.layer(a[y]["tn"], i),
                              v.layer(b[y]["ts"], i), F, "ocean profiles are not mirrored at layer %d" % i, setup=st)
        with ctx.section("symmetric input lm=%d" % lm):
            u = Udm(ctx, lm, ld, dict(foas=psym("foan")))
            o = u.step("f", "f", "v", "v")
            for n, s in SWAP:
                ctx.equal("symmetric input gives %s == %s lm=%d" % (n, s, lm), o[n], o[s], F,
                          "identical hemispheres and forcing give different %s and %s" % (n, s), setup=pam_setup(UDM_RANGE))
    ctx.assumptions.append("layer counts/sub-steps instantiated at %s" % shapes)
