"""Inputs that are left out get their documented defaults, overrides win, and unusable inputs are refused."""
from checks.rerun import *  # noqa
from checks.rerun import flat
from checks.p22 import write
import os

LEVEL = "other"
G = IH_FILE + "::InputHandler"


def src(e, w, tag, cols, kind):
    """one year-row input, as table or as file; cell (year, column) is a symbol"""
    f = lambda y: [sym("%s_%d_%d" % (tag, y, m)) for m in range(cols)]
    if kind == "data":
        return e.fr.make_df([num(y) for y in w.years], [(num(m), [f(y)[m] for y in w.years]) for m in range(cols)])
    path = "/in/%s.txt" % tag
    e.fr.files[path] = Raw([f(y) for y in range(1750, w.ny1 + 3)])
    return S(path)


DEFAULTS = {"d_luc": "IPCC_LUCalbedo.txt", "d_sun": "solar_IPCC.txt", "d_volc": "meanVOLCmnd_ipcc_NH.txt"}


def defaults(ctx, e, w):
    """the series shipped with the package, with symbolic content"""
    base = os.path.join(e.root, "ciceroscm", "default_data")
    for tag, name in DEFAULTS.items():
        cols = 12 if tag == "d_volc" else 1
        p = os.path.join(base, name)
        e.fr.files[p] = Raw([[sym("%s_%d_%d" % (tag, y, m)) for m in range(cols)] for y in range(1750, w.ny1 + 3)])


def cases():
    """name -> (given inputs {key: (tag, columns)}, sunvolc, expected tags: luc, sun, north, south (None: zero))"""
    on = [("nothing given", {}, ("d_luc", "d_sun", "d_volc", "d_volc")),
          ("sun given", {"rf_sun": 1}, ("d_luc", "rf_sun", "d_volc", "d_volc")),
          ("land use given", {"rf_luc": 1}, ("rf_luc", "d_sun", "d_volc", "d_volc")),
          ("volcanoes given once", {"rf_volc": 12}, ("d_luc", "d_sun", "rf_volc", "rf_volc")),
          ("yearly volcanoes given once", {"rf_volc": 1}, ("d_luc", "d_sun", "rf_volc", "rf_volc")),
          ("volcanoes per hemisphere", {"rf_volc_n": 12, "rf_volc_s": 12}, ("d_luc", "d_sun", "rf_volc_n", "rf_volc_s")),
          ("common volcanoes override", {"rf_volc": 12, "rf_volc_n": 12, "rf_volc_s": 12}, ("d_luc", "d_sun", "rf_volc", "rf_volc")),
          ("common volcanoes override the north", {"rf_volc": 12, "rf_volc_n": 12}, ("d_luc", "d_sun", "rf_volc", "rf_volc")),
          ("common volcanoes override the south", {"rf_volc": 12, "rf_volc_s": 12}, ("d_luc", "d_sun", "rf_volc", "rf_volc")),
          ("everything given", {"rf_luc": 1, "rf_sun": 1, "rf_volc_n": 4, "rf_volc_s": 4}, ("rf_luc", "rf_sun", "rf_volc_n", "rf_volc_s"))]
    out = [(n + ", sun and volcanoes on", g, ONE, x) for n, g, x in on]
    for v, t in ((None, "not set"), (ZERO, "off")):
        out += [(n + ", sun and volcanoes " + t, g, v, (x[0], None, None, None)) for n, g, x in on]
    return out


def run(ctx):
    ctx.rule("series used (land use, sun, volcanoes) == given, overriding or packaged default series, or zero when sun and volcanoes are off; no natural emissions == gas-table value every year; "
             "missing file, wrong unit, unknown model, missing table: definite exception")
    ws = [World(ny0=1753, em=1755, ny1=1757, ref=1755, gases=BASE)]
    if not ctx.quick:
        ws += [World(ny0=1750, em=1752, ny1=1755, ref=1752, gases=BASE), World(ny0=1998, em=1999, ny1=2003, ref=2001, gases=BASE)]
    for w in ws:
        for kind in ("data", "file", "mixed", "mixed, common as data"):
            for rf in (False, True):
                for nm, given, sv, want in cases():
                    if kind.startswith("mixed") and ("rf_volc" not in given or len(given) < 2):
                        continue
                    if rf and ctx.quick and (kind != "data" or sv is not ONE):
                        continue
                    k = "%s, %s%s, from %d" % (nm, kind, ", forcing run" if rf else "", w.ny0)
                    with ctx.section(k):
                        series(ctx, k, w, given, sv, want, kind, rf)
    with ctx.section("natural emissions"):
        natural(ctx)
    with ctx.section("refusals"):
        refusals(ctx)


def series(ctx, nm, w, given, sv, want, kind, rf):
    e = ctx.engine()
    e.fr.on = True
    defaults(ctx, e, w)
    if rf:
        tabs = dict(forc_data=e.alloc("arr", arr=XArr([sym("f_%d" % y) for y in w.years], (len(w.years),))))
    else:
        tabs = w.tables(e)
    tabs.pop("rf_luc_data", None)
    for k, cols in given.items():
        # mixed: the common series as data with the split ones as files and the other way round
        kd = kind if not kind.startswith("mixed") else "file" if (k == "rf_volc") == (kind == "mixed") else "data"
        tabs["%s_%s" % (k, kd)] = src(e, w, k, cols, kd)
    if sv is not None:
        tabs["sunvolc"] = sv
    names = thermal_names(ctx, e, "default")
    rec = Rec(e, [n for _, n in names], w)
    d = driver(ctx, e, w.cfg(e, tabs))
    rec.take()
    run_model(e, d)
    log = rec.take()
    eb = [a for k, a, _ in log if k == "energy_budget"]
    cf = [a for k, a, _ in log if k == "conc2forc"]
    if not ctx.check("%s: one thermal step per year" % nm, len(eb) == len(w.years) and (rf or len(cf) == len(w.years)), G, "%s: %d thermal steps for %d years (an input is not usable)" % (nm, len(eb), len(w.years))):
        return
    items = []
    r = res(e, d)
    cell = lambda tag, y, m: ZERO if tag is None else sym("%s_%d_%d" % (tag, y, m))
    width = lambda tag: 12 if tag in (None, "d_volc") else given.get(tag, 1)
    for i, y in enumerate(w.years):
        if not rf:
            items.append(("%s: land use %d" % (nm, y), cf[i][2], cell(want[0], y, 0), G, "%s: land-use forcing of %d is not that of %s" % (nm, y, want[0])))
            items.append(("%s: sun %d" % (nm, y), cf[i][3], cell(want[1], y, 0), G, "%s: solar forcing of %d is not that of %s" % (nm, y, want[1] or "a run without sun")))
        else:
            items.append(("%s: sun %d" % (nm, y), T.sub(eb[i][1], sym("f_%d" % y)), cell(want[1], y, 0), G, "%s: solar forcing of %d is not that of %s" % (nm, y, want[1] or "a run without sun")))
        items.append(("%s: reported sun %d" % (nm, y), arr_cells(e, r["Solar_forcing"])[i], cell(want[1], y, 0), G, "%s: reported solar forcing of %d" % (nm, y)))
        for c, tag, out in ((3, want[2], "Volcanic_forcing_NH"), (4, want[3], "Volcanic_forcing_SH")):
            v = eb[i][c]
            n = width(tag)
            if tag is not None and not ctx.check("%s: %s columns %d" % (nm, out, y), len(v) == n, G, "%s: %s has %d columns instead of %d" % (nm, out, len(v), n)):
                continue
            s = ZERO
            for m, x in enumerate(v):
                items.append(("%s: %s %d/%d" % (nm, out, y, m), x, cell(tag, y, m), G, "%s: %s of %d is not that of %s" % (nm, out, y, tag or "a run without volcanoes")))
                s = add(s, cell(tag, y, m))
            items.append(("%s: reported %s %d" % (nm, out, y), arr_cells(e, r[out])[i], div(s, num(len(v))), G, "%s: reported %s of %d is not the mean of that year's values" % (nm, out, y)))
    ctx.equal_many(items, trials=3)


def natural(ctx):
    """a run without natural emissions equals one with the gas table's value in every year"""
    for s in [Sc("emissions", w=World(ny0=1998, em=1999, ny1=2003, ref=2001, gases=BASE)), Sc("box", "twolayer", "box", w=World(ny0=1998, em=1998, ny1=2002, ref=2000, gases=BASE))]:
        for which in (["CH4"], ["N2O"], ["CH4", "N2O"]):
            rs = []
            for explicit in (False, True):
                e, rec = start(ctx, s)
                tabs = inputs(e, s)
                for g in which:
                    k = "nat_%s_data" % g.lower()
                    if explicit:
                        tabs[k] = e.fr.make_df([num(y) for y in s.w.years], [(S(g), [s.w.gp(g, "NAT_EM")] * len(s.w.years))])
                    else:
                        del tabs[k]
                d = driver(ctx, e, s.w.cfg(e, tabs))
                rec.take()
                run_model(e, d, None, *pams(ctx, e, s, "new_"))
                rs.append(flat(e, d))
            a, b = rs
            nm = "%s: no natural %s" % (s.name, "/".join(which))
            ctx.check(nm, a.keys() == b.keys(), G + ".get_flat_natural_emissions", "%s: different outputs" % nm)
            ctx.equal_many([("%s: %s" % (nm, k), a[k], b[k], G + ".get_flat_natural_emissions", "%s: %s is not that with the gas table's natural emissions in every year" % (nm, k)) for k in a if k in b], setup=setup(s, ("new_",)), trials=3)


def refusals(ctx):
    s = Sc("emissions", w=World(ny0=1753, em=1755, ny1=1757, ref=1755, gases=WIDE, conc_pad=3, em_pad=3))

    def attempt(nm, prep, want, rf=False, control=None):
        """after prep the construction must fail; without it (control) it must not"""
        for bad in (False, True):
            e, rec = start(ctx, s)
            defaults(ctx, e, s.w)
            tabs = inputs(e, s)
            if rf:
                for k in ("emissions_data", "concentrations_data", "gaspam_data", "nat_ch4_data", "nat_n2o_data", "carbon_cycle_model"):
                    tabs.pop(k)
            prep(e, tabs, bad)
            e.may_refuse = True
            driver(ctx, e, s.w.cfg(e, tabs))
            ok = e.st.alive
            dead = ok is FALSE or ok is False
            ev = sorted({getattr(x, "key", None).args[0] if isinstance(getattr(x, "key", None), N) and getattr(x, "key").args else str(getattr(x, "key", "")) for x in e.events if x.kind == "raise"})
            if bad and not dead and not (ok is TRUE or ok is True):
                ctx.undecided("%s is refused" % nm, "condition of the exception not resolved")
            elif bad:
                ctx.check("%s is refused" % nm, dead, G, "%s is accepted" % nm)
            else:
                ctx.check("%s: valid counterpart accepted" % nm, not dead, G, "%s: the valid counterpart is refused (%s)" % (nm, ev))

    for key in ("emissions", "concentrations", "gaspam", "rf_sun", "rf_luc", "rf_volc_n", "rf_volc_s", "perturb_em", "perturb_forc"):
        def prep(e, tabs, bad, key=key):
            if key.startswith("perturb"):
                em, fo = pert_tables(e, s.w)
                tabs["perturb_em_data"], tabs["perturb_forc_data"] = em, fo
            p = write(e, key, s, tabs)
            del tabs[key + "_data"]
            tabs[key + "_file"] = p
            if bad:
                e.fr.files.pop(p.args[0])
                e.fr.missing.add(p.args[0])
        attempt("missing %s file" % key, prep, "FileNotFoundError")

    def fprep(e, tabs, bad):
        e.fr.files["/in/f.txt"] = Raw([[sym("f_%d" % y)] for y in s.w.years], first="0.125\n")
        tabs["forc_file"] = S("/in/f.txt")
        if bad:
            e.fr.files.pop("/in/f.txt")
            e.fr.missing.add("/in/f.txt")
    attempt("missing forcing file", fprep, "FileNotFoundError", rf=True)
    for key, col in (("emissions", "EM_UNIT"), ("concentrations", "CONC_UNIT")):
        gases = [g for g in (s.w.conc_gases if key == "concentrations" else s.w.gases) if g not in NOEM]
        for g in gases if not ctx.quick else (gases[0], gases[len(gases) // 2], gases[-1]):
            def uprep(e, tabs, bad, key=key, g=g):
                p = write(e, key, s, tabs)
                if bad:
                    f = e.fr.files[p.args[0]]
                    j = [i for i, h in enumerate(f.rows[0]) if h is S(g)][0]
                    f.rows[1][j] = S("other_unit")
                del tabs[key + "_data"]
                tabs[key + "_file"] = p
            attempt("%s file with another unit for %s" % (key, g), uprep, "ValueError")
    for k in ("thermal_model", "carbon_cycle_model"):
        def mprep(e, tabs, bad, k=k):
            if bad:
                tabs[k] = S("nonesuch")
        attempt("unknown %s" % k, mprep, "ValueError")
    for k in ("emissions", "concentrations", "gaspam"):
        def dprep(e, tabs, bad, k=k):
            if bad:
                del tabs[k + "_data"]
        attempt("run without %s" % k, dprep, "KeyError")
