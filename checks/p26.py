"""Parallel runs give, per scenario, configuration and variable, what a single run gives - however the work is split."""
import ast
from checks.rerun import *  # noqa
from sa.frames import NAN

LEVEL = "other"
W_MOD, PP_MOD, DR_MOD = "parallel.cscmparwrapper", "parallel._parallel_process", "parallel.distributionrun"
W = "src/ciceroscm/parallel/cscmparwrapper.py"
PP = "src/ciceroscm/parallel/_parallel_process.py"
RD_MOD, SW_MOD = "formattingtools.reformat_cscm_results", "formattingtools.reformat_inputdata_to_cscm_format"
G = W + "::run_ciceroscm_parallel"
VARS = ["Surface Air Ocean Blended Temperature Change", "Heat Uptake", "No Such Variable", "Heat Content|Ocean"]
TAGS = ["climate_model", "model", "run_id", "scenario", "region", "variable", "unit"]


def sc(i, n, forc="array"):
    # scenarios of different length
    w = World(ny0=1998, em=1998, ny1=2000 + i % 2, ref=1998, gases=WIDE)
    s = Sc("scen%d" % i, "twolayer", forc=forc, sv="none", real=True, w=w)
    return s


def scendict(e, s, i, gas):
    tabs = inputs(e, s)
    n = len(s.w.years)
    if s.forc == "array":
        tabs["forc_data"] = e.alloc("arr", arr=XArr([sym("f_%d_%d" % (i, y)) for y in s.w.years], (n,)))
    tabs["rf_luc_data"] = e.fr.make_df([num(y) for y in s.w.years], [(ZERO, [sym("luc_%d_%d" % (i, y)) for y in s.w.years])])
    tabs["gaspam_data"] = gas
    tabs["scenname"] = S("name%d" % i)
    return s.w.cfg(e, tabs)


def config(ctx, e, s, j, drop=()):
    udm, emi, car = pams(ctx, e, s, "q%d_" % j)
    out = [(S("pamset_udm"), udm), (S("pamset_emiconc"), emi), (S("pamset_carbon"), car), (S("Index"), S("cfg_%d" % j))]
    return e.new_dict([x for x in out if x[0].args[0] not in drop])


def world(ctx, ns, nc, drop=()):
    """engine, scenario list, configuration list"""
    e = ctx.engine()
    e.fr.on = True
    S_ = [sc(i, ns) for i in range(ns)]
    gas = S_[0].w.tables(e)["gaspam_data"]
    scens = e.new_list([scendict(e, s, i, gas) for i, s in enumerate(S_)])
    cfgs = e.new_list([config(ctx, e, S_[0], j, drop) for j in range(nc)])
    return e, S_, scens, cfgs


def emworld(ctx, carbon, conc, nc):
    """one emissions- or concentration-driven scenario with its real gas and carbon models"""
    e = ctx.engine()
    e.fr.on = True
    w = World(ny0=1998, em=1999, ny1=2000, ref=1999, gases=WIDE)
    s = Sc("emissions %s%s" % (carbon, ", concentrations" if conc else ""), "twolayer", carbon, conc=conc, sv="none", real=True, w=w)
    tabs = inputs(e, s)
    tabs["scenname"] = S("name0")
    return e, [s], e.new_list([w.cfg(e, tabs)]), e.new_list([config(ctx, e, s, j) for j in range(nc)])


def single(ctx, ns, nc, i, j, drop=(), make=None, VARS=VARS):
    """variable -> (unit, [(year, value)]) of scenario i, configuration j run alone"""
    e, S_, scens, cfgs = make() if make else world(ctx, ns, nc, drop)
    sd = e.list_elems(scens)[i]
    cf = e.list_elems(cfgs)[j]
    s = S_[i]
    d = driver(ctx, e, sd)
    g = lambda k: e.read_item(cf, S(k)) if k not in drop else None
    run_model(e, d, e.new_dict([(S("results_as_dict"), TRUE), (S("carbon_cycle_outputs"), TRUE)]), g("pamset_udm"), g("pamset_emiconc"), g("pamset_carbon"))
    rd = e.construct(ctx.anchor(e, RD_MOD, "CSCMREADER"), [num(s.w.ny0), num(s.w.ny1)], {}, None)
    sw = e.construct(ctx.anchor(e, SW_MOD, "COMMONSFILEWRITER"), [e.read_item(sd, S("gaspam_data")), num(s.w.ny0), num(s.w.ny1)], {}, None)
    out = {}
    for v in VARS:
        t = callm(e, rd, "get_variable_timeseries", e.getattr(d, "results", None), S(v), sw)
        ys, ts, u = t.items
        if u is S("NoUnit"):
            continue
        cells_ = list(ts.cells) if isinstance(ts, SerV) else arr_cells(e, ts)
        yy = list(ys.cells) if isinstance(ys, SerV) else arr_cells(e, ys)
        out[v] = (u, list(zip(yy, cells_)))
    return out


def sets(ns, nc):
    def st(rng):
        from checks import thermal as TH
        d = {}
        for i in range(ns):
            for y in range(1998, 2003):
                d[sym("f_%d_%d" % (i, y))] = rng.uniform(-1, 4)
                d[sym("luc_%d_%d" % (i, y))] = rng.uniform(-1, 1)
        for j in range(nc):
            for k, r in sorted(TH.TWO_RANGE.items()):
                d[sym("q%d_u_%s" % (j, k))] = rng.uniform(*r)
        return d
    return st


def table(e, df):
    """rows of the result: list of {column: cell}"""
    labels = e.fr.df_index(df).labels
    cols = e.fr.cols(df)
    return [{k.args[0]: c[i] for k, c in cols} for i in range(len(labels))]


def compare(ctx, tag, e, df, want, ns, nc, S_, items):
    if not (isinstance(df, Ref) and e.fr.is_df(df)):
        ctx.undecided(tag, "result is not a table: %r" % (df,))
        return
    rows = table(e, df)
    order = [(i, j, v) for i in range(ns) for j in range(nc) for v in want[i, j]]
    ctx.count("rows", len(rows))
    key = lambda r: tuple(r.get(k).args[0] if isinstance(r.get(k), N) and r.get(k).args else None for k in ("scenario", "run_id", "variable"))
    have = [key(r) for r in rows]
    need = [("name%d" % i, "cfg_%d" % j, v) for i, j, v in order]
    if not ctx.check("%s: one row per scenario, configuration and variable" % tag, sorted(map(str, have)) == sorted(map(str, need)), G,
                     "rows missing %s, extra %s" % ([x for x in need if x not in have][:2], [x for k, x in enumerate(have) if x not in need or x in have[:k]][:2])):
        return
    ctx.check("%s: order of the rows" % tag, have == need, G, "rows are not ordered by scenario, configuration, variable: %s" % (have[:3],))
    by = {key(r): r for r in rows}
    for (i, j, v), k in zip(order, need):
        r = by[k]
        unit, ser = want[i, j][v]
        for c, x in (("climate_model", S("CICERO-SCM-PY")), ("region", S("World")), ("unit", unit), ("model", S("name%d" % i))):
            if c in r:
                ctx.literal("%s: %s %s" % (tag, k, c), r[c], x, W + "::CSCMParWrapper.run_over_cfgs", "row %s has %s %s" % (k, c, sh(r[c])))
            else:
                ctx.check("%s: %s %s" % (tag, k, c), False, W + "::CSCMParWrapper.run_over_cfgs", "row %s has no %s" % (k, c))
        ys = {y.args[0]: x for y, x in ser}
        for y, x in ys.items():
            if y not in r:
                ctx.check("%s: %s %s present" % (tag, k, y), False, G, "row %s has no year %s" % (k, y))
            else:
                items.append(("%s: %s %s" % (tag, "/".join(k), y), r[y], x, G, "row %s, year %s: not the value of the single run" % (k, y)))
        for c, x in r.items():
            if not isinstance(c, str) and c not in ys:
                ctx.literal("%s: %s %s outside the run" % (tag, "/".join(k), c), x, NAN, G, "row %s has a value in year %s outside its run" % (k, c))


def cases(quick):
    out = [(1, 1, 1), (1, 3, 1), (2, 3, 1), (1, 3, 2), (1, 5, 3), (2, 3, 2), (3, 2, 5), (2, 2, 8), (1, 4, 4), (2, 3, 4), (1, 5, 2), (2, 5, 3), (1, 7, 2)]
    if not quick:
        out += [(ns, nc, mw) for ns in (1, 2, 3) for nc in (1, 2, 3, 4, 5, 7) for mw in (1, 2, 3, 4, 6, 7)]
    return out


def run(ctx):
    ctx.rule("row(scenario s, configuration c, variable v) of run_ciceroscm_parallel == get_variable_timeseries of a fresh single run of (s, c), one row each, ordered by scenario, configuration, variable, for every number of workers")
    singles = {}
    done = set()
    for ns, nc, mw in cases(ctx.quick):
        if (ns, nc, mw) in done:
            continue
        done.add((ns, nc, mw))
        tag = "%d scenarios, %d configurations, %d workers" % (ns, nc, mw)
        with ctx.section(tag):
            for i in range(ns):
                for j in range(nc):
                    if (i, j) not in singles:
                        singles[i, j] = single(ctx, ns, nc, i, j)
            e, S_, scens, cfgs = world(ctx, ns, nc)
            before = snapshot(e, scens), snapshot(e, cfgs)
            f = ctx.anchor(e, W_MOD, "run_ciceroscm_parallel")
            df = e.call(f, [scens, cfgs, e.new_list([S(v) for v in VARS])], dict(max_workers=num(mw)), None)
            items = []
            compare(ctx, tag, e, df, singles, ns, nc, S_, items)
            ctx.equal_many(items, setup=sets(ns, nc), trials=4 if ctx.quick else 8)
            for nm, a, b in (("scenarios", before[0], snapshot(e, scens)), ("configurations", before[1], snapshot(e, cfgs))):
                dd = diff(a, b)
                ctx.check("%s: caller's %s unchanged" % (tag, nm), not dd, G, "the caller's %s are changed: %s" % (nm, dd[:3]))
    with ctx.section("configurations without some parameter sets"):
        for drop in (("pamset_emiconc",), ("pamset_carbon",), ("pamset_emiconc", "pamset_carbon")):
            want = {(0, j): single(ctx, 1, 2, 0, j, drop) for j in range(2)}
            e, S_, scens, cfgs = world(ctx, 1, 2, drop)
            df = e.call(ctx.anchor(e, W_MOD, "run_ciceroscm_parallel"), [scens, cfgs, e.new_list([S(v) for v in VARS])], dict(max_workers=num(2)), None)
            items = []
            compare(ctx, "without %s" % "/".join(drop), e, df, want, 1, 2, S_, items)
            ctx.equal_many(items, setup=sets(1, 2), trials=4)
    for mw in (1, 2):
        with ctx.section("scenarios without emission start, %d workers" % mw):
            want = {(i, j): single(ctx, 2, 2, i, j) for i in range(2) for j in range(2)}
            e, S_, scens, cfgs = world(ctx, 2, 2)
            scens = e.new_list([e.new_dict([(k, e.read_item(x, k)) for k, _ in e.dict_keys(x) if k is not S("emstart")]) for x in e.list_elems(scens)])
            a = snapshot(e, scens)
            df = e.call(ctx.anchor(e, W_MOD, "run_ciceroscm_parallel"), [scens, cfgs, e.new_list([S(v) for v in VARS])], dict(max_workers=num(mw)), None)
            items = []
            tag = "without emission start, %d workers" % mw
            compare(ctx, tag, e, df, want, 2, 2, S_, items)
            ctx.equal_many(items, setup=sets(2, 2), trials=4)
            dd = diff(a, snapshot(e, scens))
            ctx.check(tag + ": caller's scenarios unchanged", not dd, G, "the caller's scenarios are changed: %s" % (dd[:3],))
    for carbon, conc in (("default", False), ("box", False), ("default", True)):
        V = VARS[:2] + ["Atmospheric Concentrations|CO2", "Effective Radiative Forcing|Anthropogenic|CH4", "Effective Radiative Forcing", "Emissions|CO2", "Airborne fraction CO2"]
        for mw in (1, 2) if not conc else (2,):
            tag = "%s carbon cycle%s, %d workers" % (carbon, ", concentration run" if conc else "", mw)
            with ctx.section(tag):
                mk_ = lambda: emworld(ctx, carbon, conc, 2)
                want = {(0, j): single(ctx, 1, 2, 0, j, make=mk_, VARS=V) for j in range(2)}
                e, S_, scens, cfgs = mk_()
                df = e.call(ctx.anchor(e, W_MOD, "run_ciceroscm_parallel"), [scens, cfgs, e.new_list([S(v) for v in V])], dict(max_workers=num(mw)), None)
                items = []
                compare(ctx, tag, e, df, want, 1, 2, S_, items)
                ctx.equal_many(items, setup=setup(S_[0], ("q0_", "q1_")), trials=4 if ctx.quick else 12)
    process(ctx)


def job(e, mod, body):
    t = ast.parse("def job(a):\n    %s\n" % body).body[0]
    return I.FuncV(t, mod)


def process(ctx):
    """_parallel_process keeps the order of the configuration list and does not hide failures"""
    P = PP + "::_parallel_process"
    combos = [(n, fs, fp, pool, kw) for n in range(0, 7) for fs in (0, 1, 3) for fp in (0, 2, 5) for pool in (False, True) for kw in (False, True)]
    if ctx.quick:
        combos = [c for c in combos if c[0] in (0, 2, 5, 6)]

    def call(n, fs, fp, pool, kw, body, conf):
        e = ctx.engine()
        e.fr.on = True
        f = ctx.anchor(e, PP_MOD, "_parallel_process")
        calls = []
        fn = job(e, f.mod, body)

        def hook(eng, f_, args, kws, node):
            calls.append(kws["a"] if "a" in kws else args[0])
            del eng.hooks["job"]
            try:
                return eng.call(f_, args, kws, node)
            finally:
                eng.hooks["job"] = hook
        e.hooks["job"] = hook
        cl = e.new_list([e.new_dict([(S("a"), c)]) for c in conf] if kw else conf)
        p = I.PoolV(True) if pool else NONE
        r = e.call(f, [fn, cl], dict(pool=p, config_are_kwargs=TRUE if kw else T.FALSE, front_serial=num(fs), front_parallel=num(fp)), None)
        return e, r, calls
    for n, fs, fp, pool, kw in combos:
        tag = "process n=%d serial=%d parallel=%d pool=%s kwargs=%s" % (n, fs, fp, pool, kw)
        with ctx.section(tag):
            conf = [num(7 * i + 3) for i in range(n)]
            e, r, calls = call(n, fs, fp, pool, kw, "return 1000 + a", conf)
            el = e.list_elems(r) if isinstance(r, Ref) else None
            if el is None:
                ctx.undecided(tag, "result is not a list: %r" % (r,))
                continue
            ctx.count("orders")
            ctx.check(tag + ": results in order", list(el) == [T.add(num(1000), c) for c in conf], P, "results %s for configurations in order" % [sh(x) for x in el][:8])
            ctx.check(tag + ": each configuration run once", sorted(map(str, calls)) == sorted(map(str, conf)), P, "configurations run: %s" % [sh(x) for x in calls][:8])
    for bad in range(4):
        for pool, fs, fp in ((False, 0, 0), (False, 2, 0), (True, 0, 0), (True, 1, 2), (True, 0, 2), (True, 6, 0)):
            tag = "process failing job %d serial=%d parallel=%d pool=%s" % (bad, fs, fp, pool)
            with ctx.section(tag):
                e, r, calls = call(4, fs, fp, pool, False, "if a == %d:\n        raise ValueError('bad')\n    return a" % bad, [num(i) for i in range(4)])
                e.may_refuse = True
                ctx.check(tag + ": the error reaches the caller", not e.st.alive, P, "a configuration whose run fails is passed over: %s" % (sh(e.freeze(r)) if e.st.alive else ""))
