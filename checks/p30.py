"""The coupled carbon cycle: the run's CO2 and its carbon cycle table follow the run's emissions and temperature."""
from checks.rerun import *  # noqa
from checks.carbon import DefRef, BoxRef, PPM2PG, npp, solub, mldepth, DEF_FILE, BOX_FILE, rs_default, rb_default
import math

LEVEL = "other"
H = CEH_FILE + ":ConcentrationsEmissionsHandler."
G, E2C = H + "get_carbon_cycle_data", H + "emi2conc"
DEFK = ["beta_f", "mixed_carbon", "ml_w_sigmoid", "ml_fracmax", "ml_t_half", "t_half", "w_sigmoid", "t_threshold", "w_threshold", "solubility_sens", "solubility_limit", "ml_depth_min", "preindustrial_co2_conc"]


def scen(quick):
    w = lambda **k: World(**dict(dict(ny0=1998, em=2000, ny1=2002, ref=2001, gases=WIDE), **k))
    out = [(Sc("emissions", w=w()), 2), (Sc("emissions from the start", w=w(em=1998)), 1), (Sc("emissions, perturbed", pert=True, w=w()), 2), (Sc("emissions, response functions", rfun=True, w=w()), 2),
           (Sc("box", carbon="box", w=w()), 2), (Sc("concentrations", conc=True, w=w(ny1=2000)), 2), (Sc("box, concentrations", carbon="box", conc=True, w=w()), 1)]
    if not quick:
        out += [(Sc("emissions, monthly", w=w(ny1=2000)), 12), (Sc("long", w=World(ny0=1994, em=1999, ny1=2006, ref=2001, gases=WIDE)), 2), (Sc("concentrations, yearly", conc=True, w=w(ny1=2001)), 1)]
    return out


def run(ctx):
    ctx.rule("CO2 concentration of every year == independent carbon cycle stepped with that year's emissions and the previous year's temperature; carbon cycle table == fluxes, feedbacks and airborne "
             "fraction of that run (inferred emissions in concentration runs), by year")
    for s, n in scen(ctx.quick):
        with ctx.section(s.name):
            one(ctx, s, n)


def cfg_of(e, s, tabs, n):
    tabs["idtm"] = num(n)
    return s.w.cfg(e, tabs)


def go(ctx, s, n, out=True):
    e, rec = start(ctx, s)
    d = driver(ctx, e, cfg_of(e, s, inputs(e, s), n))
    udm, emi, car = pams(ctx, e, s, "new_")
    e.store_item(emi, S("idtm"), num(n))
    rec.take()
    run_model(e, d, e.new_dict([(S("results_as_dict"), TRUE)] + ([(S("carbon_cycle_outputs"), TRUE)] if out else [])), udm, emi, car)
    return e, d, res(e, d), car


def one(ctx, s, n):
    w = s.w
    e, d, r, car = go(ctx, s, n)
    dT = arr_cells(e, r["dT_glob"])
    conc = dict((k.args[0], v) for k, v in e.fr.cols(r["concentrations"]))["CO2"]
    emis = dict((k.args[0], v) for k, v in e.fr.cols(r["emissions"]))["CO2"]
    tab = r.get("carbon cycle")
    if not (isinstance(tab, Ref) and e.fr.is_df(tab)):
        ctx.check("%s: carbon cycle table" % s.name, tab is not None, G, "a run asked for carbon cycle outputs reports no carbon cycle table")
        return
    ctx.check("%s: years of the carbon cycle table" % s.name, list(e.fr.df_index(tab).labels) == [num(y) for y in w.years], G, "the carbon cycle table is not labelled by the years of the run")
    cols = {k.args[0]: v for k, v in e.fr.cols(tab)}
    ny = len(w.years)
    key = ("cc", s.name, n)
    par = lambda V: {k: V.num(sym("new_c_" + k)) for k in CRANGE[s.carbon]}

    def ref(V):
        if key not in V.memo:
            p = par(V)
            rs, rb = rs_default, rb_default
            if s.rfun:
                q = lambda f, k, m: [V.num(sym("%s_%s_%d" % (f, k, i))) for i in range(m)]
                sc, st, bc, bt = q("rs", "coef", 3), q("rs", "tim", 2), q("rb", "coef", 2), q("rb", "tim", 2)
                rs = lambda x: (sc[0] + sum(sc[i + 1] * math.exp(-x / st[i]) for i in range(2))) / sum(sc)
                rb = lambda x: sum(bc[i] * x / bt[i] ** 2 * math.exp(-x / bt[i]) for i in range(2)) / sum(bc)
            m = BoxRef(p) if s.carbon == "box" else DefRef(p, n, rs, rb)
            xs = []
            for i, y in enumerate(w.years):
                if s.conc:      # stepping with the inferred emissions
                    em, t = V.num(cols["Emissions"][i]), V.num(dT[i])
                else:
                    em, t = V.num(emis[i]) + V.num(w.gp("CO2", "NAT_EM")), V.num(dT[i - 1]) if i else 0.0
                xs.append(m.year(em, t))
            V.memo[key] = (m, xs, p)
        return V.memo[key]
    want = {}

    def col(nm, f, msg, wh=G):
        want[nm] = (f, msg, wh)
    temp = lambda V, i: V.num(dT[i])
    if s.carbon == "box":
        col("Net primary production", lambda V, i: max(0.0, 60.0 + ref(V)[2]["beta_f"] * math.log(V.num(conc[i]) / 278.0) - ref(V)[2]["land_temp_sensitivity"] * temp(V, i)), "primary production", BOX_FILE)
        col("Ocean carbon flux", lambda V, i: par(V)["ocean_solubility_base"] * (1 + par(V)["ocean_solubility_temp_coeff"] * temp(V, i)) * (V.num(conc[i]) - 278.0), "ocean flux", BOX_FILE)
        if s.conc:
            want["Net primary production"] = (lambda V, i: max(0.0, 60.0 + par(V)["beta_f"] * math.log(V.num(conc[i]) / 278.0) - par(V)["land_temp_sensitivity"] * temp(V, i)), "primary production", BOX_FILE)
    else:
        def bio(V, i):
            if not s.conc:
                return ref(V)[0].bio[i]
            # prescribed concentrations: uptake from each year's concentration, released again by the response function
            p = par(V)
            d_ = [npp(p, temp(V, j // n)) * p["beta_f"] * math.log(V.num(conc[j // n]) / p["preindustrial_co2_conc"]) for j in range(n * ny)]
            f = [d_[t] - sum(d_[j] * rb_default((t - 1 - j) / n) for j in range(1, t)) / n for t in range(n * (i + 1))]
            return sum(f[n * i:]) / n
        col("Biosphere carbon flux", bio, "biosphere flux", DEF_FILE)
        col("Ocean carbon flux", lambda V, i: ref(V)[0].oc[i], "ocean flux", DEF_FILE)
        col("Mixed layer depth", lambda V, i: mldepth(par(V), temp(V, i)), "mixed layer depth", DEF_FILE)
        col("CO2 solubility", lambda V, i: solub(par(V), temp(V, i)), "CO2 solubility", DEF_FILE)
        col("Net Primary Production", lambda V, i: npp(par(V), temp(V, i)), "primary production", DEF_FILE)
    if not s.conc or s.carbon != "box":
        src = cols.get("Emissions", emis) if s.conc else emis
        pre = lambda V: 278.0 if s.carbon == "box" else par(V)["preindustrial_co2_conc"]
        col("Airborne fraction CO2", lambda V, i: (V.num(conc[i]) - pre(V)) * PPM2PG / sum(V.num(x) for x in src[:i + 1]), "airborne fraction")
    if s.conc and s.carbon != "box":
        if "Emissions" not in cols:
            ctx.check("%s: inferred emissions" % s.name, False, G, "a concentration run reports no inferred emissions")
            return
        C = ctx.anchor(e, CMOD[s.carbon], "CarbonCycleModel")
        m2 = e.construct(C, [e.new_dict([(S("idtm"), num(n)), (S("nystart"), num(w.ny0)), (S("nyend"), num(w.ny1))]), car], {}, None)
        arr = lambda c: e.alloc("arr", arr=XArr(list(c), (ny,)))
        em2 = arr_cells(e, callm(e, m2, "back_calculate_emissions", arr(conc), feedback_dict_series=e.new_dict([(S("dtemp"), arr(dT))])))
    def safe(f, i):
        def g(V):
            try:
                return f(V, i)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise T.Undefined("ref")
        return g
    items = []
    for i, y in enumerate(w.years):
        if not s.conc:
            items.append(("%s: CO2 concentration %d" % (s.name, y), conc[i], T.ref("cc", safe(lambda V, i: ref(V)[1][i], i)), E2C,
                          "CO2 concentration of %d does not follow from the emissions and the temperatures of the run" % y))
        elif s.carbon != "box":
            items.append(("%s: inferred emissions %d" % (s.name, y), cols["Emissions"][i], em2[i], G, "emissions reported for %d are not those inferred from the run's concentrations and temperatures" % y))
        for nm, (f, msg, wh) in want.items():
            if nm in cols:
                items.append(("%s: %s %d" % (s.name, nm, y), cols[nm][i], T.ref("cct", safe(f, i)), wh, "%s reported for %d is not that of the run" % (msg, y)))
    for nm in want:
        ctx.check("%s: column %s" % (s.name, nm), nm in cols, G, "the carbon cycle table has no column %s" % nm)
    st = setup(s, ("new_",))

    def dom(rng):
        dd = st(rng)
        for i, x in enumerate(dT):
            for q in T.frees(x):
                if q.args[0].startswith("th"):
                    dd[q] = rng.uniform(-.5, 4)
        if s.conc:
            c = dd[sym("new_c_preindustrial_co2_conc")] if s.carbon != "box" else 280.0
            for y in w.conc_years:
                c += rng.uniform(-1, 3)
                dd[w.conc("CO2", y)] = c
        return dd
    ctx.equal_many(items, setup=dom, trials=6 if ctx.quick else 20, forced=not s.conc)
    # without being asked for, there is no table
    e2, d2, r2, _ = go(ctx, s, n, out=False)
    ctx.check("%s: no carbon cycle table unless asked for" % s.name, "carbon cycle" not in r2, H + "add_results_to_dict", "carbon cycle outputs are reported without being asked for")
