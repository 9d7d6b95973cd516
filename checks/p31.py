"""Plots show the run's results, and asking for them changes nothing else."""
from checks.rerun import *  # noqa
from checks.rerun import flat
from checks.p25 import written
from sa import mpl

LEVEL = "other"
G1 = "src/ciceroscm/make_plots.py::plot_output1"
G2 = "src/ciceroscm/make_plots.py::plot_output2"
PLOTTED = ["OHC700", "OHCTOT", "RIB_glob", "RIB_N", "RIB_S", "dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea", "dT_NH_sea", "dT_SHsea"]
HIDDEN = {"NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"}      # without forcing of their own
ALIAS = {"Total anthropogenic": "Total_forcing"}


def go(ctx, s, opts, plots):
    e, rec = start(ctx, s)
    folder = opts["output_folder"].args[0] if "output_folder" in opts else "output"
    base = folder if folder.startswith("/") else "/cwd/" + folder
    have = opts.get("plots_exist", FALSE)
    e.fr.dirs = {base: TRUE, base + "/plots": have}
    d = driver(ctx, e, s.w.cfg(e, inputs(e, s)))
    sets = pams(ctx, e, s, "new_")
    rec.take()
    e.events.clear()
    run_model(e, d, e.new_dict([(S(k), v) for k, v in opts.items() if k != "plots_exist"]), *sets, **({"make_plot": TRUE} if plots else {}))
    return e, d, base


class Fig:
    def __init__(self):
        self.lines = []     # (axes, x, y, label)
        self.text = {}      # axes -> titles
        self.ylab = {}
        self.gone = set()
        self.saved = []     # (path, number of lines at that time)


def touches(t):
    """does a term speak of a figure"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, N) or x in seen:
            continue
        if mpl.is_mpl(x):
            return True
        seen.add(x)
        todo += [c for c in T.children(x)]
    return False


def figures(e):
    """drawn figures in order; second value: what could not be resolved"""
    figs, odd = {}, []
    made = set()
    for ev in e.events:
        if ev.kind == "mkdir":
            made.add(ev.key.args[0])
        if ev.kind == "mpl-odd" or ev.kind == "opaque-call" and (touches(ev.obj) or touches(e.freeze(ev.val))):
            odd.append(ev)
        if ev.kind != "mpl":
            continue
        o, name, (args, kw) = ev.obj, ev.key.args[0], ev.val
        fig = o
        while mpl.is_mpl(fig) and fig.args[0] != "mpl:fig":
            fig = fig.args[1]
        if not mpl.is_mpl(fig):
            continue
        f = figs.setdefault(fig, Fig())
        if o.args[0] == "mpl:axes":
            if name == "plot":
                if len(args) < 2:
                    odd.append(ev)
                    continue
                f.lines.append((o, args[0], args[1], kw.get("label")))
            elif name == "set_title":
                f.text.setdefault(o, []).append(args[0] if args else kw.get("label"))
            elif name == "set_ylabel":
                f.ylab[o] = args[0] if args else kw.get("ylabel")
            elif name in ("clear", "cla"):
                f.lines = [x for x in f.lines if x[0] is not o]
            elif name in ("step", "scatter", "bar", "fill_between", "stackplot", "semilogy", "loglog", "errorbar"):
                odd.append(ev)
            elif name == "remove":
                f.gone.add(o)
        elif o.args[0] == "mpl:fig":
            if name == "savefig":
                f.saved.append((args[0] if args else kw.get("fname"), len(f.lines), ev, set(made)))
            elif name == "delaxes":
                f.gone.add(args[0])
            elif name in ("clear", "clf"):
                f.lines, f.text = [], {}
    return list(figs.values()), odd


def cells_of(e, v):
    if type(v).__name__ == "SerV":
        return list(v.cells)
    return arr_cells(e, v)


def run(ctx):
    ctx.rule("a run with make_plot gives the results and files of one without; every line drawn is the result series its label or title names, against the run's years; every series is drawn, "
             "in a figure saved after drawing, under a name of its own in <folder>/plots, with the component's unit")
    w = lambda more=(), gases=WIDE: World(ny0=1998, em=2000, ny1=2002, ref=2001, gases=gases, more=["HFC%d" % (300 + i) for i in range(more)] if more else ())
    # concentration, emission and forcing figures hold different numbers of components: let each number occur
    base = [Sc("emissions", w=w()), Sc("box, two-layer", "twolayer", "box", w=w()), Sc("concentrations", conc=True, w=w()),
            Sc("forcing", forc="table", w=w()), Sc("forcing, two-layer", "twolayer", forc="array", w=w()),
            Sc("without ammonia", w=w(0, [g for g in WIDE if g != "NH3"])), Sc("regional", regional=("SO2_USA",))]
    counts = [9, 12, 16, 20, 25, 28, 33] if ctx.quick else range(0, 40)
    base += [Sc("%d more gases" % n, "twolayer" if n % 2 else "default", w=w(n)) for n in counts]
    for i, s in enumerate(base):
        opts = [{}, dict(output_folder=S("there"), output_prefix=S("pre")), dict(plots_exist=TRUE), dict(output_folder=S("/abs/out"))][i % 4]
        with ctx.section(s.name):
            one(ctx, s, opts)
            if i in (0, 4):
                one(ctx, s, dict(opts, results_as_dict=TRUE), ", as dictionary")


    with ctx.section("tables plotted"):
        untouched(ctx)


def untouched(ctx):
    """the tables handed to the plotting functions stay as they are"""
    for var in ("emis", "conc", "forc"):
        e = ctx.engine()
        e.fr.on = True
        cols = ["Year", "CO2", "NOx", "NH3", "CH4", "SF6"]
        df = e.fr.make_df([num(y) for y in (2000, 2001, 2002)], [(S(c), [num(y) if c == "Year" else sym("%s_%d" % (c, y)) for y in (2000, 2001, 2002)]) for c in cols])
        unit = SerV([S(c) for c in cols[1:]], [S("X" if c in ("NOx", "NH3") else "ppm") for c in cols[1:]])
        e.fr.dirs = {"/cwd/o": TRUE, "/cwd/o/plots": TRUE}
        a = snapshot(e, df)
        e.call(ctx.anchor(e, "make_plots", "plot_output2"), [S(var), df, S("/cwd/o"), unit], {}, None)
        dd = diff(a, snapshot(e, df))
        ctx.check("table of %s unchanged by plotting it" % var, not dd, G2, "plotting changes the table it is given: %s" % (dd[:3],))


def one(ctx, s, opts, suffix=""):
    nm = s.name + suffix
    e0, d0, base = go(ctx, s, opts, False)
    figs0, _ = figures(e0)
    ctx.check("%s: no figures unless asked" % nm, not figs0, DRV_FILE + "::CICEROSCM._run", "%s: a run not asked for plots draws some" % nm)
    e, d, base = go(ctx, s, opts, True)
    r0, r1 = flat(e0, d0), flat(e, d)
    items = []
    ctx.check("%s: same results" % nm, set(r0) == set(r1), DRV_FILE + "::CICEROSCM._run", "%s: asking for plots adds or removes results %s" % (nm, sorted(set(r0) ^ set(r1))[:10]))
    for k in sorted(set(r0) & set(r1)):
        items.append(("%s: result %s" % (nm, k), r1[k], r0[k], G1, "%s: result %s differs when plots are asked for" % (nm, k)))
    f0, b0 = written(e0)
    f1, b1 = written(e)
    if b0 or b1:
        ctx.undecided("%s: files" % nm, "path or condition of a write not resolved")
    else:
        ctx.check("%s: same files" % nm, set(f0) == set(f1), G1, "%s: files written are %s, without plots %s" % (nm, sorted(f1), sorted(f0)))
        for p in sorted(set(f0) & set(f1)):
            a, b = f1[p], f0[p]
            ctx.check("%s: %s rows and columns" % (nm, p), a[1] == b[1] and a[3] == b[3], G1, "%s: file %s has other rows or columns when plots are asked for" % (nm, p))
            for c in b[2]:
                if c in a[2] and len(a[2][c]) == len(b[2][c]):
                    items += [("%s: %s/%s/%d" % (nm, p, c, i), x, y, G2, "%s: file %s differs when plots are asked for" % (nm, p)) for i, (x, y) in enumerate(zip(a[2][c], b[2][c]))]
    figs, odd = figures(e)
    if odd:
        ctx.undecided("%s: figures" % nm, "drawn in a way that is not modelled: %s" % [o.site for o in odd][:3])
        ctx.equal_many(items, setup=setup(s, ("new_",)), trials=2)
        return
    # what there is to show
    want = {}
    r = res(e0, d0)
    for k in PLOTTED:
        if k in r:
            want[("thermal", k)] = arr_cells(e0, r[k])
    if not s.forc and not opts.get("results_as_dict"):
        gp = s.w
        unit = {}
        tabs = inputs(e0, s)
        labs = [l.args[0] for l in e0.fr.df_index(tabs["gaspam_data"]).labels]
        gc = dict((k.args[0], c) for k, c in e0.fr.cols(tabs["gaspam_data"]))
        tables(e0, f0, opts, want, gp, labs, gc, unit)
    years = [num(y) for y in s.w.years]
    seen, files = {}, {}
    for n, f in enumerate(figs):
        if not f.lines:
            continue
        last = [x for x in f.saved if x[1] == len(f.lines)]
        where = G1 if n < 3 else G2
        if not ctx.check("%s: figure %d is saved" % (nm, n), bool(last), where, "%s: figure %d is not saved after its last line was drawn" % (nm, n)):
            continue
        path, _, ev, made = last[-1]
        if not T.is_str(path):
            ctx.undecided("%s: figure %d" % (nm, n), "name of the file not resolved: %r" % (path,))
            continue
        p = path.args[0]
        ctx.check("%s: figure %d has a file of its own" % (nm, n), p not in files, where, "%s: two figures are saved as %s" % (nm, p))
        files[p] = f
        folder, _, fn = p.rpartition("/")
        ctx.check("%s: folder of %s" % (nm, fn), folder == base + "/plots", where, "%s: figure is saved as %s" % (nm, p))
        if opts.get("plots_exist", FALSE) is FALSE:
            ctx.check("%s: folder for %s is there" % (nm, fn), base + "/plots" in made, where, "%s: %s is saved in a folder that is not there" % (nm, p))
        kind = fn.split("_")[0].split(".")[0]
        kind = kind if kind in ("em", "conc", "forc") else "thermal"
        panels = {}
        for ax, xs, ys, label in f.lines:
            names = [label] if label is not None else f.text.get(ax, [])
            known = [x for x in names if T.is_str(x)]
            if len(known) < len(names) and not any((kind, ALIAS.get(x.args[0], x.args[0])) in want for x in known):
                ctx.undecided("%s: %s" % (nm, fn), "label not resolved: %s" % names)
                continue
            names = [ALIAS.get(x.args[0], x.args[0]) for x in known]
            hit = [k for k in names if (kind, k) in want]
            if not ctx.check("%s: %s %s names a series" % (nm, fn, names[:1]), len(hit) == 1, where, "%s: a line in %s is labelled %s" % (nm, fn, names)):
                continue
            k = hit[0]
            ctx.check("%s: %s panel of %s is kept" % (nm, fn, k), ax not in f.gone, where, "%s: the panel of %s is taken off %s" % (nm, k, fn))
            if kind != "thermal":
                ctx.check("%s: %s one panel for %s" % (nm, fn, k), panels.setdefault(ax, k) == k and (kind, k) not in seen, where, "%s: %s is not in a panel of its own in %s" % (nm, k, fn))
            seen[(kind, k)] = True
            row = want[(kind, k)]
            x, y = cells_of(e, xs), cells_of(e, ys)
            if not ctx.check("%s: %s years of %s" % (nm, fn, k), len(x) == len(y) == len(row) and list(x) == years, where, "%s: %s is drawn against %s in %s" % (nm, k, list(x)[:3], fn)):
                continue
            items += [("%s: %s %s %s" % (nm, fn, k, yr), a, b, where, "%s: line %s in %s is not the result of %s" % (nm, k, fn, yr)) for yr, a, b in zip(s.w.years, y, row)]
            if kind in ("em", "conc"):
                lab = f.ylab.get(ax)
                if isinstance(lab, N) and not T.is_str(lab):
                    ctx.undecided("%s: %s unit of %s" % (nm, fn, k), "not resolved: %r" % (lab,))
                else:
                    ctx.check("%s: %s unit of %s" % (nm, fn, k), T.is_str(lab) and lab.args[0].strip("[]() ") == unit[(kind, k)], where,
                              "%s: %s is labelled %s in %s, its unit is %s" % (nm, k, lab, fn, unit[(kind, k)]))
    for kind, k in sorted(want):
        ctx.check("%s: %s/%s is drawn" % (nm, kind, k), (kind, k) in seen, G1 if kind == "thermal" else G2, "%s: no saved figure shows %s of %s" % (nm, kind, k))
    ctx.equal_many(items, setup=setup(s, ("new_",)), trials=2)


def tables(e0, f0, opts, want, w, labs, gc, unit):
    """the component series the run wrote to its files"""
    for p, (kw, labels, cols, order, ev) in f0.items():
        kind = p.rsplit("_", 1)[1][:-4]
        if kind not in ("em", "conc", "forc"):
            continue
        for c in order:
            if c == "Year" or kind == "forc" and c in HIDDEN:
                continue
            g = "CO2" if c in ("CO2_FF", "CO2_AFOLU") else c
            if kind != "forc":
                u = gc["EM_UNIT" if kind == "em" else "CONC_UNIT"][labs.index(g)]
                if u is S("X"):
                    continue
                unit[(kind, c)] = u.args[0]
            want[(kind, c)] = cols[c]
