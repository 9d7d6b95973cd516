"""Every component's forcing follows its documented formula and is a change since the first year."""
from checks.cehref import *  # noqa

LEVEL = "other"
F = CEH_FILE + ":ConcentrationsEmissionsHandler."
WHERE = {"TROP_O3": "tropospheric_ozone_forcing", "STRAT_O3": "_add_precalculated_strat_o3", "CO2": "calculate_forc_three_main",
         "CH4": "calculate_forc_three_main", "N2O": "calculate_forc_three_main"}


def where(w, g):
    if g in WHERE:
        return F + WHERE[g]
    if g in w.conc_gases:
        return F + "_precalculate_erf_vanilla_gases"
    return F + ("calc_aerosol_forcing" if is_aer(g) else "conc2forc")


def outname(g):
    return "SO4_DIR" if g == "SO2" else g


def forcing_items(e, c, nm, df, idx):
    out = []
    for g in c.w.gases:
        cs = cells(e, df, outname(g))
        if cs is None:
            continue
        for y, x in zip(idx, cs):
            out.append(("%s: %s in %d" % (nm, g, y), x, term(c, "f", lambda r, g=g, y=y: r.forc[y][g]), where(c.w, g),
                        "reported forcing of %s in %d departs from its documented dependence" % (g, y)))
    return out


def run(ctx):
    ctx.rule("reported forcing table == independent per-component reference (Etminan et al. for CO2/CH4/N2O, linear gases, halogen loading "
             "with 3-year lag, ozone, water vapour, aerosols), cell by cell")
    ctx.rule("every concentration- or emission-driven component is exactly zero in the first year of the run")
    for nm, c in plain_cases(ctx.quick):
        with ctx.section(nm):
            e, h, tabs, ih, cfg, outs = build(ctx, c)
            df = results(e, h)["forcing"]
            idx = [t.args[0] for t in e.fr.df_index(df).labels if t.op == "num"]
            ctx.check(nm + ": years", idx == c.w.years, F + "add_results_to_dict", "forcing table years are not the years of the run")
            for g in c.w.gases:
                ctx.check("%s: %s reported" % (nm, g), cells(e, df, outname(g)) is not None, F + "add_results_to_dict", "no forcing reported for %s" % g)
            ctx.equal_many(forcing_items(e, c, nm, df, idx), setup=setup(c))
            ctx.equal_many([("%s: %s zero in first year" % (nm, g), cells(e, df, outname(g))[0], ZERO, where(c.w, g),
                             "forcing of %s is not zero in the first year of the run" % g)
                            for g in c.w.gases if g != "LANDUSE" and cells(e, df, outname(g))], setup=setup(c))
