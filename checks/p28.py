"""Result variables are read from the model's results with the right content, years and units."""
from checks.rerun import *  # noqa
from checks.p22 import write

LEVEL = "other"
RD_MOD, SW_MOD = "formattingtools.reformat_cscm_results", "formattingtools.reformat_inputdata_to_cscm_format"
RD = "src/ciceroscm/formattingtools/reformat_cscm_results.py"
SW = "src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py"
ERF = "Effective Radiative Forcing"
ANT = ERF + "|Anthropogenic"
CNC = "Atmospheric Concentrations"
MORE = ["HFC23", "C6F14", "cC4F8", "NF3", "SO2F2", "CH2Cl2", "CFC-113", "HCFC-141b", "H-1301"]
# name of the gas in the results -> name of the variable after the group prefix
FGAS = {"HFC125": "HFC|HFC125", "HFC134a": "HFC|HFC134a", "HFC143a": "HFC|HFC143a", "HFC152a": "HFC|HFC152a", "HFC227ea": "HFC|HFC227ea", "HFC236fa": "HFC|HFC236fa",
        "HFC23": "HFC|HFC23", "HFC245fa": "HFC|HFC245fa", "HFC32": "HFC|HFC32", "HFC365mfc": "HFC|HFC365mfc", "HFC4310mee": "HFC|HFC4310mee", "NF3": "NF3",
        "C2F6": "PFC|C2F6", "C3F8": "PFC|C3F8", "C4F10": "PFC|C4F10", "C5F12": "PFC|C5F12", "C6F14": "PFC|C6F14", "C7F16": "PFC|C7F16", "C8F18": "PFC|C8F18", "cC4F8": "PFC|cC4F8",
        "CF4": "PFC|CF4", "SF6": "SF6", "SO2F2": "SO2F2"}
MONT = {"CFC-11": "CFC|CFC11", "CFC-12": "CFC|CFC12", "CFC-113": "CFC|CFC113", "CFC-114": "CFC|CFC114", "CFC-115": "CFC|CFC115", "CH3Br": "CH3Br", "CCl4": "CCl4", "CH3CCl3": "CH3CCl3",
        "H-1202": "Halon1202", "H-1211": "Halon1211", "H-1301": "Halon1301", "H-2402": "Halon2402", "HCFC-123": "HCFC123", "HCFC-142b": "HCFC142b", "HCFC-141b": "HCFC141b", "HCFC-22": "HCFC22",
        "CHCl3": "CHCl3", "CH3Cl": "CH3Cl", "CH2Cl2": "CH2Cl2"}
GHG = ["CO2", "CH4", "N2O", "TROP_O3", "STRAT_O3", "STRAT_H2O"]
DIRECT = ["SO4_DIR", "BC", "OC", "BMB_AEROS", "NMVOC", "NH3", "NOx"]
UNITS = dict([(g, "X") for g in NOEM], CO2="Pg_C", CH4="Tg", N2O="Tg_N", SO2="Tg_SO2", NOx="Mt_N", CO="Mt", NMVOC="Mt", NH3="Mt", BMB_AEROS_BC="Tg", BMB_AEROS_OC="Tg", BC="Tg", OC="Tg")
EMUNIT = dict(CO2="PgC / yr", CH4="TgCH4 / yr", N2O="TgN2ON / yr")


def world(**kw):
    more = kw.pop("more", MORE)
    u = dict(UNITS)
    for g in CONC[3:] + MORE:
        u[g] = "Gg"
    for g in kw.get("regional", ()):
        u[g] = "Tg"
    return World(ny0=1998, em=2000, ny1=2003, ref=2001, more=more, units=u, **kw)


def expected(e, s, r, carbon):
    """variable -> (cells per year, unit)"""
    w = s.w
    n = len(w.years)
    tab = lambda k: {c.args[0]: list(v) for c, v in e.fr.cols(r[k])}
    ser = lambda k: arr_cells(e, r[k])
    add = lambda rows: [T.add(*[x[i] for x in rows]) if rows else ZERO for i in range(n)]
    out = {}
    for v, k in (("Surface Air Temperature Change", "dT_glob_air"), ("Surface Air Ocean Blended Temperature Change", "dT_glob"), ("Surface Air Ocean Temperature Change", "dT_glob_sea")):
        if k in r:
            out[v] = (ser(k), "K")
    for v, k in (("Heat Content|Ocean", "OHCTOT"), ("Heat Content|Ocean|0-700m", "OHC700")):
        out[v] = ([T.mul(num(10), x) for x in ser(k)], "ZJ")
    K = 3.61e14 * 86400 * 365 / 1e21        # ocean area [m2] times seconds per year, in ZJ
    out["Heat Uptake"] = ([T.mul(num(K), x) for x in ser("RIB_glob")], "ZJ / yr")
    if s.forc:
        return out
    f, c, m = tab("forcing"), tab("concentrations"), tab("emissions")
    W = "W/m^2"
    sv = [T.add(T.mul(num(.5), a), T.mul(num(.5), b), q) for a, b, q in zip(ser("Volcanic_forcing_NH"), ser("Volcanic_forcing_SH"), ser("Solar_forcing"))]
    out[ERF] = ([T.add(a, b) for a, b in zip(f["Total_forcing"], sv)], W)
    out[ANT] = (f["Total_forcing"], W)
    reg = [k for k in f if k.startswith(("SO2_", "BC_", "OC_"))]
    out[ANT + "|Aerosol"] = (add([f[k] for k in DIRECT + ["SO4_IND"] + reg if k in f]), W)
    ari = ANT + "|Aerosol|Aerosol-radiation Interactions"
    out[ari] = (add([f[k] for k in DIRECT + reg if k in f]), W)
    for v, k in ((ari + "|BC", "BC"), (ari + "|OC", "OC"), (ari + "|Sulfate", "SO4_DIR"), (ANT + "|Aerosol|Aerosol-cloud Interactions", "SO4_IND"), (ANT + "|CO2", "CO2"), (ANT + "|CH4", "CH4"),
                 (ANT + "|N2O", "N2O"), (ANT + "|Other|Stratospheric H2O", "STRAT_H2O"), (ANT + "|Ozone|Stratospheric Contribution", "STRAT_O3"), (ANT + "|Ozone|Tropospheric Contribution", "TROP_O3"),
                 (ERF + "|Aerosols|Direct Effect|SOx", "SO4_DIR")):
        if k in f:
            out[v] = (f[k], W)
    fg = [f[k] for k in FGAS if k in f]
    out[ANT + "|F-Gases"] = (add(fg), W)
    out[ERF + "|Greenhouse Gases"] = (add(fg + [f[k] for k in list(MONT) + GHG if k in f]), W)
    for grp, names in (("F-Gases", FGAS), ("Montreal Gases", MONT)):
        for g, nm in names.items():
            if g in f:
                out["%s|%s|%s" % (ANT, grp, nm)] = (f[g], W)
                out["%s|%s|%s" % (CNC, grp, nm)] = (c[g], "ppt")
    for g, u in (("CO2", "ppm"), ("CH4", "ppb"), ("N2O", "ppb")):
        out["%s|%s" % (CNC, g)] = (c[g], u)
        out["Emissions|%s" % g] = (m[g], EMUNIT[g])
    if carbon:
        q = tab("carbon cycle")
        if s.conc and "Emissions" in q:
            out["Emissions|CO2"] = (q["Emissions"], EMUNIT["CO2"])
        cum = lambda x: [T.add(*x[:i + 1]) for i in range(n)]
        P, Pr = "Pg C", "Pg C / yr"
        out["Airborne fraction CO2"] = (q["Airborne fraction CO2"], "Unitless")
        if "Ocean carbon flux" in q:
            out["Carbon Flux|Ocean"] = (q["Ocean carbon flux"], Pr)
            out["Carbon Pool|Ocean"] = (cum(q["Ocean carbon flux"]), P)
        if "Biosphere carbon flux" in q:
            out["Carbon Flux|Land"] = (q["Biosphere carbon flux"], Pr)
            out["Carbon Pool|Land"] = (cum(q["Biosphere carbon flux"]), P)
            out["Net Flux to Atmosphere|CO2"] = ([T.mul(num(-1), T.add(a, b)) for a, b in zip(q["Biosphere carbon flux"], q["Ocean carbon flux"])], Pr)
    return out


def cells_of(e, v):
    if isinstance(v, SerV):
        return list(v.cells)
    return arr_cells(e, v)


def scen(quick):
    out = [(Sc("emissions", w=world()), True, "data"), (Sc("emissions, gas file", w=world()), True, "file"), (Sc("concentrations", conc=True, w=world(gases=WIDE, more=["CF4"])), True, "data"),
           (Sc("no carbon outputs", w=world(gases=WIDE, more=[])), False, "data"), (Sc("regional aerosols", regional=("SO2_ASIA", "BC_ASIA", "OC_LAM"), w=world(gases=WIDE + AER, more=[], regional=("SO2_ASIA", "BC_ASIA", "OC_LAM"))), False, "data"),
           (Sc("box", "twolayer", "box", w=world(gases=WIDE, more=[])), True, "data"), (Sc("forcing", forc="table", w=world()), False, "data")]
    return out


def run(ctx):
    ctx.rule("get_variable_timeseries(results, v) == the documented content of v in the results of the same run (component, group sum, unit conversion), for the run's years, with the documented unit")
    for s, carbon, how in scen(ctx.quick):
        with ctx.section(s.name):
            one(ctx, s, carbon, how)


def one(ctx, s, carbon, how):
    e, rec = start(ctx, s)
    tabs = inputs(e, s)
    if s.forc:
        gas = s.w.tables(e)["gaspam_data"]
    else:
        gas = tabs["gaspam_data"]
    gasarg = write(e, "gaspam", s, dict(gaspam_data=gas)) if how == "file" else gas
    d = driver(ctx, e, s.w.cfg(e, tabs))
    udm, emi, car = pams(ctx, e, s, "new_")
    rec.take()
    cfg = [(S("results_as_dict"), TRUE)] + ([(S("carbon_cycle_outputs"), TRUE)] if carbon else [])
    run_model(e, d, e.new_dict(cfg), udm, emi, car)
    r = res(e, d)
    want = expected(e, s, r, carbon)
    ctx.count("variables", len(want))
    rd = e.construct(ctx.anchor(e, RD_MOD, "CSCMREADER"), [num(s.w.ny0), num(s.w.ny1)], {}, None)
    sw = e.construct(ctx.anchor(e, SW_MOD, "COMMONSFILEWRITER"), [gasarg, num(s.w.ny0), num(s.w.ny1)], {}, None)
    items = []
    rr = e.getattr(d, "results", None)
    before = snapshot(e, rr)
    G = RD + "::CSCMREADER.get_variable_timeseries"
    for v, (cells_, unit) in sorted(want.items()):
        with ctx.section("%s: %s" % (s.name, v)):
            t = callm(e, rd, "get_variable_timeseries", rr, S(v), sw)
            if not isinstance(t, Tup):
                ctx.undecided("%s: %s" % (s.name, v), "no tuple: %r" % (t,))
                continue
            ys, ts, u = t.items
            got = cells_of(e, ts)
            yy = cells_of(e, ys)
            wh = SW + "::COMMONSFILEWRITER" if v.startswith(("Emissions", CNC)) else G
            ctx.literal("%s: %s: unit" % (s.name, v), u, S(unit), wh, "variable %s has the wrong unit" % v)
            if not all(T.is_num(y) for y in yy):
                ctx.undecided("%s: %s: years" % (s.name, v), "years not resolved")
            else:
                ctx.check("%s: %s: years" % (s.name, v), yy == [num(y) for y in s.w.years], G, "variable %s has years %s" % (v, [sh(y) for y in yy][:4]))
            if ctx.check("%s: %s: length" % (s.name, v), len(got) == len(cells_), G, "variable %s has %d values for %d years" % (v, len(got), len(cells_))):
                for y, a, b in zip(s.w.years, got, cells_):
                    items.append(("%s: %s %d" % (s.name, v, y), a, b, G, "variable %s of %d is not what the results hold for it" % (v, y)))
    for v in ("No Such Variable", ANT + "|Unknown", CNC + "|XYZ", "Emissions|ABC") + (("Carbon Flux|Ocean",) if not carbon else ()):
        t = callm(e, rd, "get_variable_timeseries", rr, S(v), sw)
        if isinstance(t, Tup):
            ctx.literal("%s: unknown %s" % (s.name, v), t.items[2], S("NoUnit"), G, "variable %s, which is not available, gets a unit" % v)
    dd = diff(before, snapshot(e, rr))
    ctx.check("%s: results unchanged by reading" % s.name, not dd, G, "reading variables changes the results: %s" % dd[:3])
    ctx.equal_many(items, setup=setup(s, ("new_",)), trials=4 if ctx.quick else 16)
