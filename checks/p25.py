"""Files written by a run hold what the same run reports as a dictionary."""
from checks.rerun import *  # noqa
from checks.rerun import flat
import re

LEVEL = "other"
W1 = DRV_FILE + "::CICEROSCM.write_data_to_file"
W2 = CEH_FILE + "::ConcentrationsEmissionsHandler.write_output_to_files"
THERMAL_FILES = {"ohc": ["OHC700", "OHCTOT"], "rib": ["RIB_glob", "RIB_N", "RIB_S"],
                 "temp": ["dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea", "dT_NH_sea", "dT_SHsea"],
                 "sunvolc": ["Solar_forcing", "Volcanic_forcing_NH", "Volcanic_forcing_SH"]}
TABLES = {"em": "emissions", "conc": "concentrations", "forc": "forcing", "carbon": "carbon cycle"}


def written(e):
    """path -> (keywords, labels, columns) of the last write"""
    out, bad = {}, []
    for ev in e.events:
        if ev.kind == "to_csv":
            if not T.is_str(ev.key):
                bad.append(ev)
                continue
            if ev.pc is not TRUE and ev.pc not in (True,):
                bad.append(ev)
            out[ev.key.args[0]] = (ev.extra[0], ev.extra[1][0], dict((k.args[0], v) for k, v in ev.extra[1][1]), [k.args[0] for k, _ in ev.extra[1][1]], ev)
    return out, bad


def go(ctx, s, opts, files):
    e, rec = start(ctx, s)
    d = driver(ctx, e, s.w.cfg(e, inputs(e, s)))
    sets = pams(ctx, e, s, "new_")
    rec.take()
    cfg = [(S(k), v) for k, v in opts.items()]
    if not files:
        cfg.append((S("results_as_dict"), TRUE))
    elif files == "off":
        cfg.append((S("results_as_dict"), FALSE))
    e.events.clear()
    run_model(e, d, e.new_dict(cfg), *sets)
    return e, d


def run(ctx):
    ctx.rule("every file the documented output consists of is written once, at <folder>/<prefix>_<kind>.txt, tab-separated with a Year column of the run's years, each column equal to the result of that name "
             "(run with the same inputs and results_as_dict); a run with results_as_dict writes nothing")
    w = lambda: World(ny0=1998, em=2000, ny1=2002, ref=2001, gases=WIDE)
    sc = [(Sc("emissions", w=w()), {}), (Sc("emissions, folder", w=w()), dict(output_folder=S("there"), output_prefix=S("pre"))),
          (Sc("carbon outputs", carbon="box", thermal="twolayer", real=True, w=w()), dict(carbon_cycle_outputs=TRUE)),
          (Sc("absolute folder", "twolayer", w=w()), dict(output_folder=S("/abs/out"))),
          (Sc("concentrations", conc=True, w=w()), dict(output_prefix=S("conc"))), (Sc("forcing", forc="table", w=w()), dict(output_folder=S("f"))), (Sc("forcing, two-layer", "twolayer", forc="array", w=w()), {}),
          (Sc("no prefix", "twolayer", w=w()), dict(output_prefix=S(""), carbon_cycle_outputs=TRUE)), (Sc("forcing, no prefix", forc="array", w=w()), dict(output_prefix=S(""), output_folder=S("f/g")))]
    if not ctx.quick:
        sc += [(Sc("perturbed", pert=True, w=w()), {}), (Sc("regional", regional=("SO2_USA",)), {}), (Sc("longer", w=World(ny0=1996, em=1999, ny1=2005, ref=2001)), dict(output_prefix=S("x")))]
    for s, opts in sc:
        for how in (True, "off"):
            if how == "off" and ctx.quick and s.name not in ("emissions", "forcing"):
                continue
            with ctx.section(s.name):
                one(ctx, "%s%s" % (s.name, ", results_as_dict=False" if how == "off" else ""), s, opts, how)


def one(ctx, nm, s, opts, how):
    e0, d0 = go(ctx, s, opts, False)
    f0, b0 = written(e0)
    ctx.check("%s: dictionary run writes no result file" % nm, not f0 and not b0, DRV_FILE + "::CICEROSCM._run", "a run with results_as_dict writes %s" % sorted(f0))
    r0 = res(e0, d0)
    e, d = go(ctx, s, opts, how)
    f, bad = written(e)
    if bad:
        ctx.undecided("%s: files" % nm, "path or condition of a write not resolved: %s" % [b.site for b in bad][:3])
        return
    folder = opts["output_folder"].args[0] if "output_folder" in opts else "output"
    prefix = opts["output_prefix"].args[0] if "output_prefix" in opts else "output"
    base = folder if folder.startswith("/") else "/cwd/" + folder
    path = lambda k: "%s/%s_%s.txt" % (base, prefix, k)
    want = {}
    for k, cols in THERMAL_FILES.items():
        want[k] = {c: arr_cells(e0, r0[c]) for c in cols if c in r0}
    if s.forc:
        want["forc"] = {"Total_forcing": arr_cells(e0, r0["Total_forcing"])}
    else:
        for k, t in TABLES.items():
            if t in r0:
                want[k] = {c.args[0]: list(v) for c, v in e0.fr.cols(r0[t])}
        ctx.check("%s: tables" % nm, {"em", "conc", "forc"} <= set(want), CEH_FILE, "%s: result tables are missing" % nm)
    ctx.check("%s: set of files" % nm, set(f) == {path(k) for k in want}, W1 if s.forc else W2, "%s: files written are %s, expected %s" % (nm, sorted(f), sorted(path(k) for k in want)))
    items = []
    years = [num(y) for y in s.w.years]
    for k, cols in want.items():
        if path(k) not in f:
            continue
        kw, labels, got, order, ev = f[path(k)]
        wh = W1 if k in THERMAL_FILES or s.forc else W2
        ctx.check("%s: %s separator" % (nm, k), kw.get("sep", S(",")) is S("\t"), wh, "%s: %s is not tab-separated" % (nm, k))
        ctx.check("%s: %s no index column" % (nm, k), kw.get("index", TRUE) is FALSE, wh, "%s: %s has an extra index column" % (nm, k))
        ctx.check("%s: %s header" % (nm, k), kw.get("header", TRUE) is TRUE, wh, "%s: %s has no header" % (nm, k))
        ff = kw.get("float_format")
        m = re.fullmatch(r"%\.(\d+)[eg]", ff.args[0]) if isinstance(ff, N) and ff.op == "str" else None
        ctx.check("%s: %s digits" % (nm, k), ff is None or ff is NONE or (m is not None and int(m.group(1)) >= 5) or not (isinstance(ff, N) and ff.op == "str"), wh, "%s: %s is written with less than six digits" % (nm, k))
        exp = dict(cols)
        if k != "carbon":
            exp["Year"] = years
        ctx.check("%s: %s columns" % (nm, k), set(got) == set(exp), wh, "%s: columns of %s are %s, expected %s" % (nm, k, sorted(map(str, got))[:30], sorted(map(str, exp))[:30]))
        if k != "carbon":
            ctx.check("%s: %s starts with the year" % (nm, k), order[:1] == ["Year"] or s.forc is False and k in TABLES, wh, "%s: first column of %s is %s" % (nm, k, order[:1]))
        for c, row in exp.items():
            if c not in got:
                continue
            if not ctx.check("%s: %s/%s rows" % (nm, k, c), len(got[c]) == len(row), wh, "%s: %s has %d rows" % (nm, k, len(got[c]))):
                continue
            for y, a, b in zip(s.w.years, got[c], row):
                items.append(("%s: %s/%s %d" % (nm, k, c, y), a, b, wh, "%s: file %s column %s of %d is not the result" % (nm, k, c, y)))
    # the thermal results stay available on the instance
    r1 = res(e, d)
    for c in THERMAL_FILES["ohc"] + ["dT_glob", "Total_forcing"]:
        if c in r1:
            for y, a, b in zip(s.w.years, arr_cells(e, r1[c]), arr_cells(e0, r0[c])):
                items.append(("%s: results/%s %d" % (nm, c, y), a, b, W1, "%s: result %s of a run written to files differs" % (nm, c)))
        else:
            ctx.check("%s: results/%s" % (nm, c), False, W1, "%s: no result %s after a run written to files" % (nm, c))
    ctx.equal_many(items, setup=setup(s, ("new_",)), trials=2)
    # results that stay zero throughout are results too
    zero = set()
    for c, v in r0.items():
        if not (isinstance(v, Ref) and (e0.fr.is_df(v) or e0.obj(v).kind == "dict")):
            for x in arr_cells(e0, v):
                zero |= T.frees(x)
    zero = [x for x in zero if x.op in ("sym", "item") and not x.args[0].startswith("new_")] if not s.real else []

    def still(rng):
        d = setup(s, ("new_",))(rng)
        d.update({x: 0.0 for x in zero})
        return d
    if zero:
        ctx.equal_many([("%s, nothing happens" % a, b, c, g, m + " (when all is zero)") for a, b, c, g, m in items], setup=still, trials=2, forced=False)
