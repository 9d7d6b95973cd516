"""Back-calculated emissions: trial steps leave no trace; the state is that of the returned emission."""
from checks.carbon import *  # noqa

LEVEL = "other"
A_FILE = "src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py"
F = A_FILE + ":AbstractCarbonCycleModel.back_calculate_emissions"


def run(ctx):
    ctx.rule("after inverting one year (loop summarised as a fixpoint term) every later concentration equals the one "
             "obtained by stepping directly with the returned emission; the accepted emission reproduces the target")
    cases = [(1, 3), (2, 3)] if ctx.quick else [(1, 5), (2, 4), (3, 3), (5, 3)]
    for idtm, ny in cases:
        for temp in (False, True):
            tag = "idtm=%d years=%d %s" % (idtm, ny, "warming" if temp else "no warming")
            with ctx.section(tag):
                e1, m1, keys = build(ctx, DEF_MOD, idtm, ny + 1)
                fb1 = e1.new_dict([(string("dtemp"), vec("dTs", ny))]) if temp else None
                conc = I.ArrV(item(sym("conc", "any"), IX[0]), [num(ny)])
                em = e1.as_arr(callm(e1, m1, "back_calculate_emissions", conc, **({"feedback_dict_series": fb1} if temp else {})))
                em_i = [subst(em.content, {IX[0]: num(i)}) for i in range(ny)]
                nxt = callm(e1, m1, "co2em2conc", add(Y0, num(ny)), sym("emX"), feed(e1, 99))

                e2, m2, _ = build(ctx, DEF_MOD, idtm, ny + 1)
                xs = []
                for i in range(ny):
                    d = e2.new_dict([(string("dtemp"), item(sym("dTs", "any"), num(i)) if temp else ZERO)])
                    xs.append(callm(e2, m2, "co2em2conc", add(Y0, num(i)), em_i[i], d))
                ref = callm(e2, m2, "co2em2conc", add(Y0, num(ny)), sym("emX"), feed(e2, 99))

                def st(rng):
                    d = setup(DEF_RANGE, 1)(rng)
                    c = d[sym("c_preindustrial_co2_conc")]
                    for i in range(ny):
                        c += rng.uniform(-2, 3)
                        d[item(sym("conc", "any"), num(i))] = c
                        d[item(sym("dTs", "any"), num(i))] = rng.uniform(-1, 4)
                    return d
                ctx.equal("%s: no trace of rejected trials" % tag, nxt, ref, F,
                          "rejected trial emissions influence later years", setup=st, trials=12, forced=False)
        with ctx.section("wide bracket idtm=%d" % idtm):
            e1, m1, keys = build(ctx, DEF_MOD, idtm, 4)
            e2, m2, keys = build(ctx, DEF_MOD, idtm, 4)
            ems = []
            for i in range(3):
                g = callm(e1, m1, "_guess_emissions_iteration", sym("tgt%d" % i), I.Tup([num(200), num(-200)]),
                          feedback_dict=feed(e1, i), yrix=num(i))
                x = callm(e2, m2, "co2em2conc", add(Y0, num(i)), g, feed(e2, i))

                def st(rng):
                    d = setup(DEF_RANGE, 3)(rng)
                    c = d[sym("c_preindustrial_co2_conc")]
                    for i in range(3):
                        c += rng.uniform(-1, 4)
                        d[sym("tgt%d" % i)] = c
                    return d
                ctx.equal("idtm=%d: inferred emission of year %d gives back the target concentration" % (idtm, i), x,
                          sym("tgt%d" % i), A_FILE + ":AbstractCarbonCycleModel._guess_emissions_iteration",
                          "stepping with the inferred emission does not reproduce the concentration it was inferred from",
                          setup=st, tol=3e-6, trials=12, forced=False)
    ctx.assumptions.append("reproduction is decided for searches whose bracket contains the solution; the bracket "
                           "heuristic and convergence speed are not claimed")
