"""Forcing-driven runs: what the forcing input says is what drives the thermal model."""
from checks.drv import *  # noqa

LEVEL = "other"
G = DRV_FILE + "::CICEROSCM.forc_set"
RF = IH_FILE + "::read_forc"
Y0, Y1 = 1995, 2001


def fcol(name, y):
    return sym("f_%s_%d" % (name, y))


def layouts():
    """name -> (how, columns, required (total, north, south, weight) as functions of the year)"""
    c = fcol
    t = lambda y: c("total", y)
    agents = ["CO2", "CH4", "SO2", "BC", "SO4_IND", "OC_USA", "NOx", "BMB_AEROS", "OTHER"]
    aer = ["SO2", "BC", "SO4_IND", "OC_USA", "NOx", "BMB_AEROS"]
    plain = ["CO2", "CH4", "solar_x"]

    def tot(cols):
        def f(y):
            s = ZERO
            for k in cols:
                s = add(s, c(k, y))
            return s
        return f

    def share(ae, al):
        def f(y):
            a = b = ZERO
            for k in al:
                b = add(b, T.fn("abs", c(k, y)))
                if k in ae:
                    a = add(a, T.fn("abs", c(k, y)))
            return T.ite(T.lt(ZERO, b), div(a, b), ZERO)
        return f
    zero = lambda y: ZERO
    half = lambda y: mul(num(0.5), add(c("FORC_NH", y), c("FORC_SH", y)))
    return [
        ("column of numbers, file", "column", None, (t, t, t, zero)),
        ("array data", "array", None, (t, t, t, zero)),
        ("hemispheres, file", "file", ["FORC_NH", "FORC_SH"], (half, lambda y: c("FORC_NH", y), lambda y: c("FORC_SH", y), zero)),
        ("hemispheres, file, other order", "file", ["FORC_SH", "FORC_NH"], (half, lambda y: c("FORC_NH", y), lambda y: c("FORC_SH", y), zero)),
        ("total and hemispheres, file", "file", ["total", "FORC_NH", "FORC_SH"], (t, lambda y: c("FORC_NH", y), lambda y: c("FORC_SH", y), zero)),
        ("components, file", "file", agents, (tot(agents), tot(agents), tot(agents), share(aer, agents))),
        ("components without aerosols, file", "file", plain, (tot(plain), tot(plain), tot(plain), zero)),
        ("one component, file", "file", ["SO2"], (tot(["SO2"]),) * 3 + (share(["SO2"], ["SO2"]),)),
        ("table data", "data", ["total", "FORC_NH", "FORC_SH"], (t, lambda y: c("FORC_NH", y), lambda y: c("FORC_SH", y), zero)),
        ("table data with weight", "data", ["FORC_NH", "w_aero", "total", "FORC_SH"], (t, lambda y: c("FORC_NH", y), lambda y: c("FORC_SH", y), lambda y: c("w_aero", y))),
        ("weight in file", "file", ["total", "FORC_NH", "FORC_SH", "w_aero"], (t, lambda y: c("FORC_NH", y), lambda y: c("FORC_SH", y), lambda y: c("w_aero", y))),
    ]


def source(e, how, cols, ys, first="year"):
    if how == "column":
        e.fr.files["/in/f.txt"] = Raw([[fcol("total", y)] for y in ys], first="0.125\n")
        return dict(forc_file=S("/in/f.txt"))
    if how == "array":
        return dict(forc_data=e.alloc("arr", arr=XArr([fcol("total", y) for y in ys], (len(ys),))))
    if how == "file":
        e.fr.files["/in/f.txt"] = Raw([[S(first)] + [S(k) for k in cols]] + [[num(y)] + [fcol(k, y) for k in cols] for y in ys], first=",".join([first] + cols) + "\n")
        return dict(forc_file=S("/in/f.txt"))
    return dict(forc_data=e.fr.make_df([num(y) for y in ys], [(S(k), [fcol(k, y) for y in ys]) for k in cols]))


def run(ctx):
    ctx.rule("thermal step of year y gets exactly the forcing input of year y (total, hemispheres, aerosol share) plus that year's sun, for every accepted layout")
    for nm, how, cols, want in layouts():
        for th in (["default"] if ctx.quick and how != "array" else THERMAL):
            for pad in ((0, 0), (3, 4)):
                for sv in (True, False):
                    if how in ("column", "array") and pad[0]:
                        continue          # headerless input starts at the start year
                    if ctx.quick and pad[0] == 0 and not sv and how not in ("column", "array"):
                        continue
                    k = "%s/%s/%s/%s" % (nm, th, "wider" if pad[0] else "exact", "sun" if sv else "none")
                    with ctx.section(k):
                        one(ctx, k, how, cols, want, th, pad, sv, "Year" if pad[0] else "year")
    for nm, how, cols, want in layouts():
        if nm in ("column of numbers, file", "array data", "total and hemispheres, file", "components, file", "table data with weight"):
            with ctx.section(nm + ", full period"):
                one(ctx, nm + ", full period", how, cols, want, "default", (0, 0), True, "year", 1750, 2105)


def one(ctx, nm, how, cols, want, th, pad, sv, first, Y0=Y0, Y1=Y1):
    w = World(ny0=Y0, em=Y0, ny1=Y1, ref=Y0, gases=["CO2"])
    e = ctx.engine()
    e.fr.on = True
    tabs = source(e, how, cols, range(Y0 - pad[0], Y1 + pad[1] + 1), first)
    tabs["thermal_model"] = S(th)
    tabs["rf_luc_data"] = e.fr.make_df([num(y) for y in w.years], [(ZERO, [sym("luc_%d" % y) for y in w.years])])
    if sv:
        tabs.update(sunvolc(e, w))
    names = thermal_names(ctx, e, th)
    rec = Rec(e, [n for _, n in names], w)
    cfg = e.new_dict([(S("nystart"), num(Y0)), (S("nyend"), num(Y1))] + [(S(k), v) for k, v in tabs.items()])
    d = driver(ctx, e, cfg)
    rec.take()
    run_model(e, d)
    log = rec.take()
    eb = [a for k, a, _ in log if k == "energy_budget"]
    ctx.check("%s: no emissions step" % nm, not [1 for k, _, _ in log if k in ("emi2conc", "conc2forc")], DRV_FILE + "::CICEROSCM._run", "a forcing run calls the emissions handler")
    if not ctx.check("%s: one thermal step per year" % nm, len(eb) == len(w.years), DRV_FILE + "::CICEROSCM._run", "%d thermal steps for %d years" % (len(eb), len(w.years))):
        return
    cur, weights = None, []
    for k, a, _ in log:
        if k == "set_feedback_gregory":
            cur = a[1]
        elif k == "energy_budget":
            weights.append(cur)
    r = res(e, d)
    tf = arr_cells(e, r["Total_forcing"])
    items = []
    for i, y in enumerate(w.years):
        sun = sym("sun_%d" % y) if sv else ZERO
        f = [add(x(y), sun) for x in want[:3]]
        items.append(("%s: total %d" % (nm, y), tf[i], f[0], G, "reported total forcing of %d is not the input's plus solar" % y))
        items.append(("%s: north %d" % (nm, y), eb[i][1], f[1], G, "northern forcing of %d is not the input's plus solar" % y))
        items.append(("%s: south %d" % (nm, y), eb[i][2], f[2], G, "southern forcing of %d is not the input's plus solar" % y))
        if weights[i] is None:
            ctx.check("%s: weight %d" % (nm, y), False, G, "no aerosol weight passed on in %d" % y)
        else:
            items.append(("%s: weight %d" % (nm, y), weights[i], want[3](y), RF, "aerosol weight of %d is not the aerosols' share of the forcing magnitudes" % y))
        for c, p in ((3, "vn"), (4, "vs")):
            for m, x in enumerate(eb[i][c]):
                items.append(("%s: %s %d/%d" % (nm, p, y, m), x, sym("%s_%d_%d" % (p, y, m)) if sv else ZERO, DRV_FILE + "::CICEROSCM._run", "volcanic forcing of %d is not that of the year" % y))
    def setup(rng):
        dead = rng.choice(w.years)       # a year without any forcing
        return {fcol(k, y): (0.0 if y == dead else rng.uniform(-2, 2)) for k in (cols or ["total"]) for y in range(Y0 - pad[0], Y1 + pad[1] + 1)}
    ctx.equal_many(items, setup=setup, trials=6)
