"""Every model year is driven by its own year's inputs and reported at that year."""
from checks.drv import *  # noqa

LEVEL = "other"
G = DRV_FILE + "::CICEROSCM._run"


def file_tabs(e, w, cols):
    """sun / volcano / land-use files: no header, one row per year, first row 1750"""
    ys = range(1750, w.ny1 + 4)
    for nm, f in (("sun", lambda y: [sym("sun_%d" % y)]), ("luc", lambda y: [sym("luc_%d" % y)]),
                  ("vn", lambda y: [sym("vn_%d_%d" % (y, m)) for m in range(cols)]), ("vs", lambda y: [sym("vs_%d_%d" % (y, m)) for m in range(cols)])):
        e.fr.files["/in/%s.txt" % nm] = Raw([f(y) for y in ys])
    return dict(rf_sun_file=S("/in/sun.txt"), rf_luc_file=S("/in/luc.txt"), rf_volc_n_file=S("/in/vn.txt"), rf_volc_s_file=S("/in/vs.txt"), sunvolc=ONE)


def cases(quick):
    w = World(gases=BASE)
    out = [("data, monthly volcanoes", w, "default", "default", "data", 12), ("data, two-layer, yearly volcanoes", w, "twolayer", "default", "data", 1),
           ("files, start after 1750", World(ny0=1753, em=1755, ny1=1758, ref=1756, gases=BASE), "default", "box", "files", 4),
           ("files, start in 1750", World(ny0=1750, em=1750, ny1=1755, ref=1752, gases=BASE), "twolayer", "box", "files", 12),
           ("no sun and volcanoes", w, "default", "default", "none", 12),
           ("full period", World(ny0=1750, em=1850, ny1=2105, ref=2010, gases=BASE), "default", "default", "files", 12),
           ("full period, data", World(ny0=1755, em=1850, ny1=2105, ref=2010, gases=BASE), "twolayer", "box", "data", 1)]
    if not quick:
        for th in THERMAL:
            for cc in ("default", "box"):
                for src in ("data", "files", "none"):
                    for cols in (1, 2, 12):
                        out.append(("%s/%s/%s/%d" % (th, cc, src, cols), World(ny0=1760, em=1764, ny1=1771, ref=1766, gases=BASE), th, cc, src, cols))
    return out


BASE = ["CO2", "CH4", "N2O", "SO2", "NOx", "CO", "NMVOC", "NH3", "SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "LANDUSE", "BC", "OC", "OTHER",
        "BMB_AEROS_BC", "BMB_AEROS_OC", "BMB_AEROS", "CFC-11"]


def run(ctx):
    ctx.rule("call sequence of the driver, for every year in order: emissions step(year, last year's thermal feedback), forcing(year, land use of year, sun of year), "
             "feedback weight of the year, thermal step(hemispheric forcing, volcanoes of the year); results[year] == that step's values")
    for nm, w, th, cc, src, cols in cases(ctx.quick):
        with ctx.section(nm):
            one(ctx, nm, w, th, cc, src, cols)


def one(ctx, nm, w, th, cc, src, cols):
    e = ctx.engine()
    e.fr.on = True
    tabs = w.tables(e)
    if src == "data":
        tabs.update(sunvolc(e, w, cols))
    elif src == "files":
        tabs.pop("rf_luc_data")
        tabs.update(file_tabs(e, w, cols))
    tabs.update(thermal_model=S(th), carbon_cycle_model=S(cc))
    names = thermal_names(ctx, e, th)
    rec = Rec(e, [n for _, n in names], w)
    d = driver(ctx, e, w.cfg(e, tabs))
    rec.take()
    run_model(e, d)
    log = rec.take()
    by = {}
    for n, a, _ in log:
        by.setdefault(n, []).append(a)
    n = len(w.years)
    for k, what in (("emi2conc", "emissions step"), ("conc2forc", "forcing step"), ("energy_budget", "thermal step")):
        got = len(by.get(k, []))
        if not ctx.check("%s: one %s per year" % (nm, what), got == n, G, "%d %ss for %d years" % (got, what, n)):
            return
    items = []
    zero = src == "none"
    sun = lambda y: ZERO if zero else sym("sun_%d" % y)
    vol = lambda p, y, m: ZERO if zero else sym("%s_%d_%d" % (p, y, m))
    # order of the steps within the run: e, f, (feedback), b per year
    seq = [x[0] for x in log if x[0] != "set_feedback_gregory"]
    ctx.check("%s: order of the steps" % nm, seq == ["emi2conc", "conc2forc", "energy_budget"] * n, G, "steps are not taken in order emissions, forcing, temperature for each year")
    th_obj = {a[0] for a in by["energy_budget"]}
    ctx.check("%s: one thermal model per run" % nm, len(th_obj) == 1, G, "the thermal model is replaced during the run")
    # feedback weight in force at each thermal step
    cur, weights = None, []
    for k, a, _ in log:
        if k == "set_feedback_gregory":
            cur = a[1]
        elif k == "energy_budget":
            weights.append(cur)
    for i, y in enumerate(w.years):
        em, cf, eb = by["emi2conc"][i], by["conc2forc"][i], by["energy_budget"][i]
        T_ = lambda what, a, b, msg: items.append(("%s: %s %d" % (nm, what, y), a, b, G, msg + " (%d)" % y))
        T_("emissions year", em[1], num(y), "emissions step is not given the year")
        fb = em[2]
        if i == 0:
            ok = fb is NONE or fb == {} or (isinstance(fb, dict) and all(v is ZERO for v in fb.values()))
            ctx.check("%s: no feedback in the first year" % nm, ok, G, "a feedback is passed to the first year: %r" % (fb,))
        elif not isinstance(fb, dict) or "dtemp" not in fb:
            ctx.check("%s: feedback %d" % (nm, y), False, G, "last year's temperature is not passed to the carbon cycle in %d" % y)
        else:
            for k, v in fb.items():
                T_("feedback %s" % k, v, sym("th0_%s_%d" % (k, i - 1)), "feedback passed to the carbon cycle is not last year's value")
        T_("forcing year", cf[1], num(y), "forcing step is not given the year")
        T_("land use", cf[2], sym("luc_%d" % y), "land-use forcing is not that of the year")
        T_("sun", cf[3], sun(y), "solar forcing is not that of the year")
        T_("northern forcing", eb[1], sym("fn0_%d" % y), "the thermal model does not get the year's northern forcing")
        T_("southern forcing", eb[2], sym("fs0_%d" % y), "the thermal model does not get the year's southern forcing")
        if weights[i] is None:
            ctx.check("%s: aerosol weight %d" % (nm, y), False, G, "aerosol weight of the year not passed on")
        else:
            T_("aerosol weight", weights[i], sym("wa0_%d" % y), "the thermal model does not get the year's aerosol weight")
        for c, p in ((3, "vn"), (4, "vs")):
            v = eb[c]
            if ctx.check("%s: %s columns %d" % (nm, p, y), len(v) == (12 if zero else cols), G, "volcanic forcing of %d has %d values" % (y, len(v))):
                for m, x in enumerate(v):
                    T_("%s column %d" % (p, m), x, vol(p, y, m), "volcanic forcing passed on is not that of the year and month")
    r = res(e, d)
    want = {k: [sym("th0_%s_%d" % (v, i)) for i in range(n)] for k, v in names}
    want["Total_forcing"] = [sym("ft0_%d" % y) for y in w.years]
    want["Solar_forcing"] = [sun(y) for y in w.years]
    for k, p in (("Volcanic_forcing_NH", "vn"), ("Volcanic_forcing_SH", "vs")):
        row = []
        for y in w.years:
            s = ZERO
            for m in range(cols):
                s = add(s, vol(p, y, m))
            row.append(div(s, num(cols)))
        want[k] = row
    for k, row in want.items():
        if not ctx.check("%s: output %s" % (nm, k), k in r, DRV_FILE + "::CICEROSCM.results", "no output %s" % k):
            continue
        got = arr_cells(e, r[k])
        if not ctx.check("%s: output %s length" % (nm, k), len(got) == n, DRV_FILE + "::CICEROSCM.results", "output %s has %d values for %d years" % (k, len(got), n)):
            continue
        for y, a, b in zip(w.years, got, row):
            items.append(("%s: output %s %d" % (nm, k, y), a, b, DRV_FILE + "::CICEROSCM.add_year_data_to_output", "output %s of %d is not the value of that year" % (k, y)))
    ctx.equal_many(items, trials=4)
