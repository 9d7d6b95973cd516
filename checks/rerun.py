"""Full interpreted model runs (real handler, real carbon cycle) used by the re-run and no-side-effect rules."""
from checks.drv import *  # noqa
from checks.p18 import BASE
from checks import carbon as CC

CMOD = {"default": CC.DEF_MOD, "box": CC.BOX_MOD}
CRANGE = {"default": CC.DEF_RANGE, "box": CC.BOX_RANGE}
WIDE = BASE + ["HFC125", "H-1211", "CH3Br"]


class Sc:
    """one scenario: how the instance is set up and what inputs it gets"""

    def __init__(self, name, thermal="default", carbon="default", conc=False, pert=False, rfun=False, forc=False, regional=(), sv="data", real=False, flatnat=False,
                 w=None):
        self.__dict__.update(locals())
        self.w = w or World(ny0=1998, em=2000, ny1=2002, ref=2001, gases=WIDE, regional=regional)


def scenarios(quick):
    out = [Sc("emissions"), Sc("emissions, box, two-layer", "twolayer", "box", real=True), Sc("concentrations", conc=True),
           Sc("perturbed", pert=True), Sc("custom response functions", rfun=True, sv="none"), Sc("forcing table", forc="table"), Sc("forcing array", "twolayer", forc="array", real=True),
           Sc("forcing table, real ocean", forc="table", real=True, w=World(ny0=1998, em=1998, ny1=1999, ref=1998, gases=WIDE)),
           Sc("regional", regional=("SO2_USA", "BC_USA"), flatnat=True), Sc("volcanoes on both hemispheres", sv="both")]
    if not quick:
        out += [Sc("concentrations, box", "twolayer", "box", conc=True, real=True), Sc("perturbed, box", "twolayer", "box", pert=True, real=True),
                Sc("perturbed concentrations", conc=True, pert=True), Sc("longer", w=World(ny0=1996, em=1999, ny1=2005, ref=2001))]
    return out


def pert_tables(e, w):
    fr = e.fr
    mkdf = lambda rows, unit: fr.make_df([num(i) for i in range(len(rows))], [(S("component"), [S(r[0]) for r in rows]), (S("year"), [num(r[1]) for r in rows]),
                                                                             (S(unit), [sym("pert_%s_%d" % (unit, i)) for i in range(len(rows))])])
    em = [("CO2", w.years[2]), ("CH4", w.years[3]), ("CFC-11", w.years[2]), ("SO2", w.years[-1])]
    fo = [("CO2", w.years[1]), ("OTHER", w.years[2]), ("CFC-11", w.years[3])]
    return mkdf(em, "emission"), mkdf(fo, "forcing")


def inputs(e, s):
    """the caller's instance configuration (dict of caller-owned objects)"""
    w = s.w
    if s.forc:
        tabs = dict(rf_luc_data=e.fr.make_df([num(y) for y in w.years], [(ZERO, [sym("luc_%d" % y) for y in w.years])]))
        if s.forc == "array":
            tabs["forc_data"] = e.alloc("arr", arr=XArr([sym("f_total_%d" % y) for y in w.years], (len(w.years),)))
        else:
            tabs["forc_data"] = e.fr.make_df([num(y) for y in w.years], [(S(k), [sym("f_%s_%d" % (k, y)) for y in w.years]) for k in ("total", "FORC_NH", "FORC_SH") + (("w_aero",) if s.forc == "weighted" else ())])
    else:
        tabs = w.tables(e)
        if s.flatnat:
            tabs.pop("nat_ch4_data"), tabs.pop("nat_n2o_data")
        tabs["carbon_cycle_model"] = S(s.carbon)
        tabs["idtm"] = num(2)
    tabs["thermal_model"] = S(s.thermal)
    if s.sv != "none":
        sv = sunvolc(e, w, 2)
        if s.sv == "both":
            sv["rf_volc_data"] = sv.pop("rf_volc_n_data")
            sv.pop("rf_volc_s_data")
        tabs.update(sv)
    if s.conc:
        tabs["conc_run"] = TRUE
    if s.pert:
        em, fo = pert_tables(e, w)
        tabs.update(perturb_em_data=em, perturb_forc_data=fo)
    if s.rfun:
        tabs["rs_function"] = rfun(e, "rs", 3, 2)
        tabs["rb_function"] = rfun(e, "rb", 2, 2)
    return tabs


def rfun(e, p, n, m):
    mk_ = lambda q, k: e.new_list([sym("%s_%s_%d" % (p, q, i)) for i in range(k)])
    return e.new_dict([(S("coeffs"), mk_("coef", n)), (S("timescales"), mk_("tim", m))])


def pams(ctx, e, s, tag, extra_emi=(), drop_carbon=()):
    """complete parameter sets of one run, every value a symbol"""
    w = s.w
    C = ctx.anchor(e, *THERMAL[s.thermal])
    keys, v = class_dict(e, C, "thermal_model_required_pamset")
    fixed = {k: e.read_item(v, S(k)) for k in ("lm", "ldtime") if k in keys}
    if s.real and s.thermal == "default":
        fixed = dict(lm=num(8), ldtime=num(2))
    udm = pam_dict(e, keys, prefix=tag + "u_", fixed=fixed)
    emi = w.pams(e, prefix=tag, extra=list(extra_emi))
    e.store_item(emi, S("idtm"), num(2))
    cc = ctx.anchor(e, CMOD[s.carbon], "CarbonCycleModel")
    keys, _ = class_dict(e, cc, "carbon_cycle_model_required_pamset")
    car = pam_dict(e, keys, prefix=tag + "c_")
    return udm, emi, car


def start(ctx, s, e=None):
    if e is None:
        e = ctx.engine()
        e.fr.on = True
    names = thermal_names(ctx, e, s.thermal)
    rec = Rec(e, [n for _, n in names], s.w, handler=False, thermal=not s.real)
    return e, rec


def make(ctx, e, s):
    w = s.w
    tabs = inputs(e, s)
    cfg = w.cfg(e, tabs)
    return driver(ctx, e, cfg), cfg


def snapshot(e, v, depth=0):
    """structure and content of an abstract value"""
    if depth > 6:
        return "..."
    if isinstance(v, Ref):
        if e.fr.is_df(v):
            return ("df", tuple(e.fr.df_index(v).labels), tuple((k, tuple(c)) for k, c in e.fr.cols(v)))
        o = e.obj(v)
        if o.kind == "dict":
            ks = e.dict_keys(v)
            return ("dict", tuple((k, p, snapshot(e, e.read_item(v, k), depth + 1)) for k, p in ks)) if ks is not None else ("frozen", e.freeze(v))
        if o.kind in ("list", "set"):
            el = e.list_elems(v)
            return (o.kind, tuple(snapshot(e, x, depth + 1) for x in el)) if el is not None else ("frozen", e.freeze(v))
        if o.kind == "arr":
            try:
                return ("arr", tuple(arr_cells(e, v)))
            except Exception:
                return ("frozen", e.freeze(v))
        if o.kind in ("obj", "inst") or o.cls is not None:
            return ("object", o.cls.name if o.cls else None)
        return ("frozen", e.freeze(v))
    if isinstance(v, Tup):
        return ("tup", tuple(snapshot(e, x, depth + 1) for x in v.items))
    if isinstance(v, (N, str, int, float)) or v is None:
        return v
    if isinstance(v, I.FuncV):
        return ("func", v.name)
    if isinstance(v, I.ClassV):
        return ("class", v.name)
    try:
        return ("frozen", e.freeze(v))
    except Exception:
        return repr(v)


def diff(a, b, path=""):
    """first differences of two snapshots, as paths"""
    if a is b or a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "dict":
        da, db = {x[0]: x[1:] for x in a[1]}, {x[0]: x[1:] for x in b[1]}
        out = []
        for k in da.keys() | db.keys():
            p = path + "[%s]" % (k.args[0] if isinstance(k, N) and k.args else k,)
            if k not in da:
                out.append(p + " added")
            elif k not in db:
                out.append(p + " removed")
            else:
                out += diff(da[k][1], db[k][1], p) or ([p] if da[k] != db[k] else [])
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "df":
        if a[1] != b[1]:
            return [path + " index"]
        ka, kb = [k for k, _ in a[2]], [k for k, _ in b[2]]
        if ka != kb:
            return [path + " columns"]
        return ["%s column %s" % (path, k.args[0]) for (k, x), (_, y) in zip(a[2], b[2]) if x != y]
    return [path or "value"]


def flat(e, d, r=None):
    """all results of a run: {label: term}; r: results kept by the caller"""
    out = {}
    for k, v in (res(e, d) if r is None else {k.args[0]: e.read_item(r, k) for k, _ in e.dict_keys(r)}).items():
        if isinstance(v, Ref) and e.fr.is_df(v):
            ix = e.fr.df_index(v)
            for c, cells_ in e.fr.cols(v):
                for l, x in zip(ix.labels, cells_):
                    out["%s/%s/%s" % (k, c.args[0], l.args[0] if l.args else l)] = x
        elif isinstance(v, Ref) and e.obj(v).kind == "dict":
            for kk, _ in e.dict_keys(v):
                out["%s/%s" % (k, kk.args[0])] = e.read_item(v, kk)
        else:
            for i, x in enumerate(arr_cells(e, v)):
                out["%s/%d" % (k, i)] = x
    return out


def setup(s, tags):
    def st(rng):
        d = s.w.setup(rng)
        for t in tags:
            for q in QS:
                d[sym(t + q)] = rng.uniform(-1, 1)
            for k, r in sorted(CRANGE[s.carbon].items()):
                d[sym(t + "c_" + k)] = rng.uniform(*r)
            from checks import thermal as TH
            for k, r in sorted((TH.UDM_RANGE if s.thermal == "default" else TH.TWO_RANGE).items()):
                d[sym(t + "u_" + k)] = rng.uniform(*r)
        for p, n, m in (("rs", 3, 2), ("rb", 2, 2)):
            for i in range(n):
                d[sym("%s_coef_%d" % (p, i))] = rng.uniform(.1, 1)
                d[sym("%s_tim_%d" % (p, i))] = rng.uniform(1, 50)
        for y in s.w.years:
            d[sym("f_total_%d" % y)] = rng.uniform(-1, 4)
            d[sym("f_w_aero_%d" % y)] = rng.uniform(0, 1)
        return d
    return st
