"""Gas concentrations: prescribed before the emissions start and in concentration runs, exact one-box response afterwards."""
from checks.cehref import *  # noqa

LEVEL = "other"
F = CEH_FILE + ":ConcentrationsEmissionsHandler."


def run(ctx):
    ctx.rule("reported concentration table of the whole emissions/concentrations chain == independent one-box reference, "
             "cell by cell, for symbolic inputs, gas parameters and parameters")
    ctx.assumptions.append("CO2 emissions -> concentration is an arbitrary affine oracle here; the carbon cycles are decided in P07/P08")
    for nm, c in plain_cases(ctx.quick):
        with ctx.section(nm):
            e, h, tabs, ih, cfg, outs = build(ctx, c)
            df = results(e, h)["concentrations"]
            idx = [t.args[0] for t in e.fr.df_index(df).labels if t.op == "num"]
            ctx.check(nm + ": years", idx == c.w.years, F + "add_results_to_dict", "concentration table years are %s instead of %s" % (idx[:3], c.w.years[:3]))
            st = setup(c)
            items = []
            for g in c.w.conc_gases + ["TROP_O3"]:
                cs = cells(e, df, g)
                if not ctx.check("%s: %s reported" % (nm, g), cs is not None, F + "add_results_to_dict", "no concentrations reported for %s" % g):
                    continue
                for y, x in zip(idx, cs):
                    items.append(("%s: %s in %d" % (nm, g, y), x, term(c, "conc", lambda r, g=g, y=y: r.conc[g][y]), F + "emi2conc",
                                  "concentration of %s in year %d is not the %s" % (g, y, "prescribed value" if c.conc_run or y < c.w.em and g != "CO2" else "one-box response to that year's emissions")))
            ctx.equal_many(items, setup=st)
