"""Reported tables cover exactly the run's years and hold what was used."""
from checks.p13 import *  # noqa
from checks.p13 import F

LEVEL = "other"
G = F + "add_results_to_dict"


def labels(ix):
    return [t.args[0] if t.op in ("num", "str") else None for t in ix.labels]


def run(ctx):
    ctx.rule("emissions table == input emissions of the run's years with CO2 = fossil + land use; all tables indexed by and labelled with the run's years; "
             "one column per component")
    for nm, c in plain_cases(ctx.quick):
        w = c.w
        with ctx.section(nm):
            e, h, tabs, ih, cfg, outs = build(ctx, c)
            r = results(e, h)
            for t in ("emissions", "concentrations", "forcing"):
                if not ctx.check("%s: %s table" % (nm, t), t in r, G, "no %s table reported" % t):
                    continue
                ctx.check("%s: %s years" % (nm, t), labels(e.fr.df_index(r[t])) == w.years, G, "%s table is not indexed by the years of the run" % t)
                ys = cells(e, r[t], "Year")
                ctx.check("%s: %s year column" % (nm, t), ys is not None and [x.args[0] for x in ys if x.op == "num"] == w.years, G, "year column of the %s table is not the run's years" % t)
                cols = [k.args[0] for k, _ in e.fr.cols(r[t])]
                need = {"emissions": ["CO2"] + [g for g in w.em_cols if not g.startswith("CO2_")], "concentrations": w.conc_gases + ["TROP_O3"],
                        "forcing": [outname(g) for g in w.gases] + ["Total_forcing"]}[t]
                ctx.check("%s: %s columns" % (nm, t), sorted(cols) == sorted(need + ["Year"]), G, "%s table columns: missing %s, extra %s"
                          % (t, sorted(set(need) - set(cols)), sorted(set(cols) - set(need) - {"Year"})))
                ctx.check("%s: %s year first" % (nm, t), "Year" in cols, G, "no year column")
            items = []
            for g in ["CO2"] + [x for x in w.em_cols if not x.startswith("CO2_")]:
                for y, x in zip(w.years, cells(e, r["emissions"], g) or []):
                    want = add(w.emi("CO2_FF", y), w.emi("CO2_AFOLU", y)) if g == "CO2" else w.emi(g, y)
                    items.append(("%s: emissions %s %d" % (nm, g, y), x, want, G, "reported emissions of %s in %d are not the input" % (g, y)))
            ctx.equal_many(items, setup=setup(c))
            # asking twice gives the same tables
            r2 = results(e, h)
            items = []
            for t in r:
                for k, v in e.fr.cols(r[t]):
                    v2 = cells(e, r2[t], k.args[0])
                    if not ctx.check("%s: %s %s again" % (nm, t, k.args[0]), v2 is not None and len(v2) == len(v), G, "second report lacks %s of %s" % (k.args[0], t)):
                        continue
                    for i, (x, y) in enumerate(zip(v, v2)):
                        items.append(("%s: %s %s again, row %d" % (nm, t, k.args[0], i), x, y, G, "reporting twice changes the %s table" % t))
            ctx.equal_many(items, setup=setup(c))
