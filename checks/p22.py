"""Each input can be given as a file or as the equivalent data, with the same results."""
from checks.rerun import *  # noqa
from checks.rerun import flat

LEVEL = "other"
G = IH_FILE + "::InputHandler.get_data"


def write(e, key, s, tabs):
    """virtual file with the content of table `key`, in the documented file format; returns its path"""
    w = s.w
    df = tabs[key + "_data"]
    path = "/in/%s.txt" % key
    cols = e.fr.cols(df)
    lab = e.fr.df_index(df).labels
    if key == "gaspam":
        nm = {"TAU1": "TAU1(YEARS)", "NAT_EM": "NATURAL_EMISSIONS"}
        rows = [[S("GAS")] + [S(nm.get(k.args[0], k.args[0])) for k, _ in cols]] + [[l] + [c[i] for _, c in cols] for i, l in enumerate(lab)]
    elif key in ("emissions", "concentrations"):
        gas = {l.args[0]: i for i, l in enumerate(e.fr.df_index(tabs["gaspam_data"]).labels)}
        ucol = dict((k.args[0], c) for k, c in e.fr.cols(tabs["gaspam_data"]))["EM_UNIT" if key == "emissions" else "CONC_UNIT"]
        names = ["CO2" if k.args[0] in ("CO2_FF", "CO2_AFOLU") else k.args[0] for k, _ in cols]
        rows = [[S("Component")] + [S(n) for n in names], [S("Unit")] + [ucol[gas[n]] for n in names], [S("Description")] + [S("total")] * len(names), [S("Reference")] + [S("x")] * len(names)]
        rows += [[l] + [c[i] for _, c in cols] for i, l in enumerate(lab)]
    elif key in ("nat_ch4", "nat_n2o"):
        by = dict(zip(lab, cols[0][1]))
        rows = [[by.get(num(y), sym("unused_%s_%d" % (key, y)))] for y in range(1750, 2501)]
    elif key.startswith("rf_"):
        by = {l: [c[i] for _, c in cols] for i, l in enumerate(lab)}
        rows = [by.get(num(y), [sym("unused_%s_%d_%d" % (key, y, m)) for m in range(len(cols))]) for y in range(1750, w.ny1 + 5)]
    elif key.startswith("perturb"):
        rows = [[k for k, _ in cols]] + [[c[i] for _, c in cols] for i in range(len(lab))]
    elif key == "forc":
        rows = [[S("year")] + [k for k, _ in cols]] + [[l] + [c[i] for _, c in cols] for i, l in enumerate(lab)]
    e.fr.files[path] = Raw(rows, first=",".join(str(x.args[0]) if x.op in ("num", "str") else "0.5" for x in rows[0]) + "\n")
    return S(path)


def run_with(ctx, s, files, prefer=False):
    e, rec = start(ctx, s)
    tabs = inputs(e, s)
    paths = {k: write(e, k, s, tabs) for k in files}
    for k, path in paths.items():
        del tabs[k + "_data"]
        tabs[k + "_file"] = path
    d = driver(ctx, e, s.w.cfg(e, tabs))
    udm, emi, car = pams(ctx, e, s, "new_")
    rec.take()
    run_model(e, d, None, udm, emi, car)
    return flat(e, d)


def run(ctx):
    ctx.rule("results(instance with X given as file) == results(instance with the same X given as table) for every input kind X, one at a time and all together")
    sc = [Sc("emissions", w=World(ny0=1753, em=1755, ny1=1758, ref=1756, gases=WIDE, conc_pad=3, em_pad=2), pert=True),
          Sc("concentrations", conc=True, w=World(ny0=1750, em=1752, ny1=1755, ref=1752, gases=WIDE)), Sc("forcing", forc="table", w=World(ny0=1753, em=1755, ny1=1758, ref=1756, gases=WIDE))]
    if not ctx.quick:
        sc.append(Sc("box", "twolayer", "box", pert=True, w=World(ny0=1753, em=1755, ny1=1760, ref=1756, conc_pad=0, em_pad=0, post=5)))
    for s in sc:
        with ctx.section(s.name):
            want = run_with(ctx, s, [])
            kinds = ["rf_luc", "rf_sun", "rf_volc_n", "rf_volc_s"] + (["forc"] if s.forc else ["gaspam", "emissions", "concentrations", "nat_ch4", "nat_n2o"]) + (["perturb_em", "perturb_forc"] if s.pert else [])
            for files in [[k] for k in kinds] + [kinds]:
                nm = "%s: %s as file" % (s.name, files[0] if len(files) == 1 else "everything")
                with ctx.section(nm):
                    got = run_with(ctx, s, files)
                    items = []
                    ctx.check("%s: outputs" % nm, got.keys() == want.keys(), G, "%s: different outputs %s" % (nm, sorted(got.keys() ^ want.keys())[:5]))
                    for k in want:
                        if k in got:
                            items.append(("%s: %s" % (nm, k), got[k], want[k], G, "%s: result %s differs from that with the same input as data" % (nm, k)))
                    ctx.equal_many(items, setup=setup(s, ("new_",)), trials=4 if ctx.quick else 16)
