"""Run parameters: documented defaults, non-numbers, unknown names, settings fixed per instance, and every parameter reaches its model."""
from checks.rerun import *  # noqa
from checks.rerun import flat

LEVEL = "other"
U = "src/ciceroscm/_utils.py::cut_and_check_pamset"
K = CEH_FILE + "::check_pamset_consistency"

DOC = {   # documented default values (README), by parameter set and model
    ("udm", "default"): dict(rlamdo=15.0, akapa=0.66, cpi=0.21, W=2.2, beto=6.9, threstemp=7.0, mixed=107.0, ocean_efficacy=1.0, foan=0.61, foas=0.81, ebbeta=0.0, lm=40, ldtime=12, delta_lambda_aero=0.0,
                             **{"lambda": 0.61}),
    ("udm", "twolayer"): dict(mixed=50, deep=1200, k=0.5, ocean_efficacy=1.0, foan=0.61, foas=0.81, delta_lambda_aero=0.0, **{"lambda": div(num(3.74), num(3))}),
    ("emi", None): dict(qbmb=0.0, qo3=0.5, qdirso2=-0.00308, qindso2=div(num(-0.97), num(57.052577209999995)), qbc=0.0279, qoc=-0.00433, qh2o_ch4=0.091915, qnmvoc=0.0, qnh3=0.0, qnox=0.0, ref_yr=2010),
    ("car", "default"): dict(beta_f=0.287, mixed_carbon=75.0, ml_fracmax=0.5, ml_t_half=0.5, ml_w_sigmoid=3.0, t_half=0.5, w_sigmoid=7, t_threshold=4, w_threshold=7, solubility_sens=0.02, solubility_limit=0.5),
    ("car", "box"): dict(beta_f=0.287, land_temp_sensitivity=0.1, soil_respiration_rate=0.02, ocean_exchange_rate=0.01, vegetation_to_soil_fraction=0.1, ocean_solubility_base=0.02, ocean_solubility_temp_coeff=-0.01),
}
UNREPORTED = ("ocean_exchange_rate", "ocean_mixed_layer_depth")   # move carbon between pools of the box model that no output shows
SLOT = ("udm", "emi", "car")


def doc(s):
    return {"udm": DOC["udm", s.thermal], "emi": DOC["emi", None], "car": DOC["car", s.carbon]}


def full(s):
    """complete parameter sets {slot: {name: value}}, every value a symbol where the model allows"""
    out = {k: {p: sym("new_%s_%s" % (k, p)) for p in d} for k, d in doc(s).items()}
    if "lm" in out["udm"]:
        out["udm"].update(lm=num(8), ldtime=num(2))
    out["emi"]["ref_yr"] = num(s.w.ref)
    return out


def n_(v):
    return v if isinstance(v, N) else num(v)


def one(ctx, s, sets, extra_cfg=None):
    """results of one run on a fresh instance"""
    e, rec = start(ctx, s)
    tabs = inputs(e, s)
    for k, v in (extra_cfg or {}).items():
        if v is None:
            tabs.pop(k, None)
        else:
            tabs[k] = v
    d = driver(ctx, e, s.w.cfg(e, tabs))
    rec.take()
    kw = {}
    for k, a in zip(SLOT, ("udm", "emi", "carbon")):
        if sets.get(k) is not None:
            kw[a] = e.new_dict([(S(p), v) for p, v in sets[k].items()])
        elif k in sets:
            kw[a] = NONE
    run_model(e, d, None, **kw)
    return flat(e, d), e


def st(s):
    base = setup(s, ("new_",))

    def f(rng):
        d = base(rng)
        from checks import thermal as TH
        for k, r in (("udm", TH.UDM_RANGE if s.thermal == "default" else TH.TWO_RANGE), ("car", CRANGE[s.carbon])):
            for p, (lo, hi) in sorted(r.items()):
                d[sym("new_%s_%s" % (k, p))] = rng.uniform(lo, hi)
        for q in QS:
            d[sym("new_emi_" + q)] = rng.uniform(-1, 1)
        for i in range(len(s.w.years)):
            d[sym("th0_dtemp_%d" % i)] = rng.uniform(-6, 6)
        return d
    return f


def compare(ctx, nm, s, a, b, where, msg, same=None):
    base = st(s)

    def dom(rng):
        d = base(rng)
        if same:
            d[same[0]] = d.setdefault(same[1], 0.4)
        return d
    ctx.check("%s: outputs" % nm, a.keys() == b.keys(), where, "%s: different outputs %s" % (nm, sorted(a.keys() ^ b.keys())[:4]))
    ctx.equal_many([("%s: %s" % (nm, k), a[k], b[k], where, "%s (%s)" % (msg, k)) for k in a if k in b], setup=dom, trials=2, forced=same is None)


def scen(quick):
    w = lambda: World(ny0=2008, em=2009, ny1=2011, ref=2009, gases=BASE)
    out = [(Sc("upwelling-diffusion ocean", forc="weighted", real=True, w=World(ny0=2009, em=2009, ny1=2010, ref=2009, gases=BASE)), ("udm",)),
           (Sc("two-layer ocean", "twolayer", forc="weighted", real=True, w=w()), ("udm",)),
           (Sc("emissions", w=w()), ("emi", "car")), (Sc("box carbon", "twolayer", "box", real=True, w=w()), ("car",)),
           (Sc("concentrations", conc=True, w=w()), ("emi",))]
    if not quick:
        out += [(Sc("regional", regional=("SO2_USA",), w=World(ny0=2008, em=2009, ny1=2011, ref=2009, gases=BASE, regional=("SO2_USA",))), ("emi",)),
                (Sc("perturbed box", "twolayer", "box", pert=True, real=True, w=World(ny0=2007, em=2009, ny1=2013, ref=2009, gases=BASE + ["CFC-11"])), ("udm", "emi", "car"))]
    return out


def run(ctx):
    ctx.rule("results(parameters without p) == results(p = documented default) == results(p not a number); unknown names, and other values for the settings fixed per instance, change nothing; "
             "every documented parameter influences some result")
    for s, slots in scen(ctx.quick):
        with ctx.section(s.name):
            F = full(s)
            for k in SLOT:
                if k not in slots:
                    F[k] = {} if s.forc and k != "udm" else F[k]
            base, e0 = one(ctx, s, F)
            D = doc(s)
            for k in slots:
                for p, v in sorted(D[k].items()):
                    nm = "%s: %s" % (s.name, p)
                    with ctx.section(nm):
                        dflt = {**F, k: {**F[k], p: n_(v)}}
                        a, _ = one(ctx, s, {**F, k: {q: x for q, x in F[k].items() if q != p}})
                        b, _ = one(ctx, s, dflt)
                        compare(ctx, nm + " left out", s, a, b, U, "leaving out %s does not give the documented default %s" % (p, T.show(n_(v))))
                        if not ctx.quick or p in ("mixed", "qbc", "beta_f"):
                            for bad in (S("much"), NONE):
                                a, _ = one(ctx, s, {**F, k: {**F[k], p: bad}})
                                compare(ctx, "%s not a number (%s)" % (nm, T.show(bad)), s, a, b, U, "%s given as something else than a number does not give the default" % p)
                        if F[k][p].op == "sym" and (not ctx.quick or p in ("lambda", "mixed", "qbc", "beta_f", "preindustrial_co2_conc")):
                            for tag, what in (("intnum_", "an integer"), ("npnum_", "a numpy number")):
                                x = sym(tag + p)
                                a, _ = one(ctx, s, {**F, k: {**F[k], p: x}})
                                compare(ctx, "%s given as %s" % (nm, what), s, a, base, U, "%s given as %s is not used" % (p, what), same=(x, F[k][p]))
                        influence(ctx, nm, s, base, k, p, F)
            for k in slots:
                dflt = {q: n_(v) for q, v in D[k].items()}
                b, _ = one(ctx, s, {**F, k: dflt})
                for how, x in (("empty", {}), ("not given", None), ("all not numbers", {q: S("x") for q in dflt})):
                    if how == "not given":
                        sets = {q: v for q, v in F.items() if q != k}
                    else:
                        sets = {**F, k: x}
                    a, _ = one(ctx, s, sets)
                    compare(ctx, "%s: %s parameters %s" % (s.name, k, how), s, a, b, U, "%s parameters %s do not give the documented defaults" % (k, how))
                a, _ = one(ctx, s, {**F, k: {**F[k], "nonesuch": sym("other"), "lamda": sym("other2")}})
                compare(ctx, "%s: unknown %s parameter" % (s.name, k), s, a, base, U, "a parameter name that does not exist changes the result")
            if "emi" in slots:
                for p, v in (("idtm", num(7)), ("nystart", num(s.w.ny0 - 1)), ("nyend", num(s.w.ny1 + 1)), ("nyend", num(s.w.ny1 - 1)), ("nystart", num(s.w.ny0 + 1)), ("emstart", num(s.w.em + 1)), ("emstart", num(s.w.em - 1)), ("conc_run", FALSE if s.conc else TRUE), ("carbon_cycle_model", S("box"))):
                    if p == "carbon_cycle_model" and ctx.quick:
                        continue
                    a, _ = one(ctx, s, {**F, "emi": {**F["emi"], p: v}})
                    compare(ctx, "%s: %s=%s in a run" % (s.name, p, T.show(v)), s, a, base, K, "%s is fixed per instance but a run's parameters change it" % p)
                a, _ = one(ctx, s, F)
                b, _ = one(ctx, s, {**F, "emi": {**F["emi"], "lifetime_mode": S("TAR")}})
                compare(ctx, "%s: lifetime mode" % s.name, s, a, b, CEH_FILE + "::check_pamset", "the default methane lifetime is not that of mode TAR")
    with ctx.section("instance settings"):
        instance(ctx)


def influence(ctx, nm, s, base, k, p, F):
    """some result depends on the parameter"""
    v = F[k][p]
    if v.op != "sym" or (k == "car" and p in UNREPORTED):
        return
    f = st(s)

    def moved(rng):
        d = f(rng)
        d[v] = d.get(v, 0.4) * 1.3 + 0.07
        return d

    def here(rng):
        d = f(rng)
        d.setdefault(v, 0.4)
        return d
    roots = [x for x in base.values() if isinstance(x, N)]
    for i in range(8):
        x, y = T.sample(None, ctx.seed, here, i), T.sample(None, ctx.seed, moved, i)
        for r in roots[::-1]:
            try:
                if not T.close(x.num(r), y.num(r), 1e-9):
                    ctx.ok("%s influences the results" % nm)
                    return
            except T.Undefined:
                continue
    syntactic = any(n is v for r in roots for n in T.walk(r))
    if syntactic:
        ctx.undecided("%s influences the results" % nm, "occurs in the value graph but no difference found")
    else:
        ctx.check("%s influences the results" % nm, False, U, "the results do not depend on parameter %s at all" % p)


def instance(ctx):
    for nm, s, cfg, ex in (("no emission start", Sc("x", w=World(ny0=1849, em=1850, ny1=1852, ref=1850, gases=BASE)), ("emstart",), {}),
                           ("no model names", Sc("x", w=World(ny0=2008, em=2009, ny1=2011, ref=2009, gases=BASE)), (), dict(thermal_model=None, carbon_cycle_model=None)),
                           ("no sub-steps", Sc("x", w=World(ny0=2008, em=2008, ny1=2010, ref=2009, gases=BASE)), (), dict(idtm=None)),
                           ("no kind of run", Sc("x", w=World(ny0=2008, em=2009, ny1=2011, ref=2009, gases=BASE)), (), dict(conc_run=None))):
        rs = []
        for explicit in (True, False):
            e, rec = start(ctx, s)
            tabs = inputs(e, s)
            tabs["idtm"] = num(24) if "idtm" in ex else num(2)
            tabs["conc_run"] = FALSE
            if not explicit:
                for k in ex:
                    tabs.pop(k, None)
            c = s.w.cfg(e, tabs)
            if not explicit:
                for k in cfg:
                    e.store_item(c, S(k), I.DEL)
            d = driver(ctx, e, c)
            rec.take()
            kw = {k: e.new_dict([(S(p), v) for p, v in x.items()]) for k, x in zip(("udm", "emi", "carbon"), full(s).values())}
            run_model(e, d, None, **kw)
            rs.append(flat(e, d))
        compare(ctx, nm, s, rs[1], rs[0], IH_FILE + "::InputHandler", "%s: results are not those of the default setting" % nm)
    # default first and last year
    e = ctx.engine()
    e.fr.on = True
    names = thermal_names(ctx, e, "default")
    w = World(ny0=1750, em=1850, ny1=2100, ref=2010, gases=["CO2"])
    rec = Rec(e, [n for _, n in names], w)
    luc = e.fr.make_df([num(y) for y in w.years], [(ZERO, [ZERO for y in w.years])])
    d = driver(ctx, e, e.new_dict([(S("forc_data"), e.alloc("arr", arr=XArr([sym("f_%d" % y) for y in w.years], (len(w.years),)))), (S("rf_luc_data"), luc)]))
    rec.take()
    run_model(e, d)
    eb = [a for k, a, _ in rec.take() if k == "energy_budget"]
    if ctx.check("default period: years", len(eb) == len(w.years), DRV_FILE + "::CICEROSCM.__init__", "%d years instead of 1750 to 2100" % len(eb)):
        ctx.equal_many([("default period: %d" % y, a[1], sym("f_%d" % y), DRV_FILE + "::CICEROSCM.__init__", "the default period does not start in 1750") for y, a in zip(w.years, eb)], trials=2)
