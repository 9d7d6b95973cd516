"""Emission and forcing perturbations are added exactly once, in their year and component."""
from checks.p14 import *  # noqa
from checks.p14 import totals
from checks.p13 import forcing_items, F

LEVEL = "other"


def run(ctx):
    ctx.rule("tables and totals of a perturbed run == reference with each perturbation row added once to its component and year "
             "(CO2 emission rows go to fossil CO2; rows outside the run have no effect)")
    for nm, c in pert_cases(ctx.quick):
        with ctx.section(nm):
            e, h, tabs, ih, cfg, outs = build(ctx, c)
            r = results(e, h)
            df, dc, de = r["forcing"], r["concentrations"], r["emissions"]
            idx = [t.args[0] for t in e.fr.df_index(df).labels if t.op == "num"]
            ctx.check(nm + ": years", idx == c.w.years, F + "add_results_to_dict", "forcing table years are not the years of the run")
            ctx.equal_many(forcing_items(e, c, nm + ", forcing", df, idx), setup=setup(c))
            totals(ctx, e, c, nm, outs, df, idx)
            items = []
            for g in c.w.conc_gases:
                for y, x in zip(c.w.years, cells(e, dc, g) or []):
                    items.append(("%s: concentration %s %d" % (nm, g, y), x, term(c, "c", lambda r, g=g, y=y: r.conc[g][y]), PERT_FILE + ":perturb_emissions",
                                  "concentration of %s in %d does not follow the emissions with perturbations added once" % (g, y)))
            for g in ["CO2"] + [x for x in c.w.em_cols if not x.startswith("CO2_")]:
                for y, x in zip(c.w.years, cells(e, de, g) or []):
                    items.append(("%s: emissions %s %d" % (nm, g, y), x, term(c, "e", lambda r, g=g, y=y: r.co2em(y) if g == "CO2" else r.em[g][y]), PERT_FILE + ":perturb_emissions",
                                  "emissions of %s in %d are not input plus perturbation" % (g, y)))
            ctx.equal_many(items, setup=setup(c))
