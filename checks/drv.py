"""Abstract set-ups of the whole driver (CICEROSCM) with recorded collaborators."""
from checks.ceh import *  # noqa
from checks.ceh import T, I

DRV_MOD = "ciceroscm"
OUTD = "output_dict_default"
THERMAL = {"default": ("thermal_model.upwelling_diffusion_model", "UpwellingDiffusionModel"), "twolayer": ("thermal_model.two_layer_ocean", "TwoLayerOceanModel")}


def S(x):
    return string(x)


def sunvolc(e, w, volc_cols=12, index=True):
    """solar / volcanic tables with one symbol per cell"""
    L = [num(y) for y in w.years] if index else [num(i) for i in range(len(w.years))]
    sun = e.fr.make_df(L, [(ZERO, [sym("sun_%d" % y) for y in w.years])])
    vn = e.fr.make_df(L, [(num(m), [sym("vn_%d_%d" % (y, m)) for y in w.years]) for m in range(volc_cols)])
    vs = e.fr.make_df(L, [(num(m), [sym("vs_%d_%d" % (y, m)) for y in w.years]) for m in range(volc_cols)])
    return dict(rf_sun_data=sun, rf_volc_n_data=vn, rf_volc_s_data=vs, sunvolc=ONE)


class Rec:
    """recorded calls of the collaborators, in order"""

    def __init__(self, e, names, w, handler=True, thermal=True):
        self.e, self.log, self.w = e, [], w
        self.run = 0
        if thermal:
            self.nbudget = 0

            def eb(eng, f, args, kw, node):
                a = bindpos(f, args[1:], kw)
                self.log.append(("energy_budget", [args[0]] + a[:2] + [arr_cells(eng, x) for x in a[2:4]], None))
                i = self.nbudget
                self.nbudget += 1
                return eng.new_dict([(S(n), sym("th%d_%s_%d" % (self.run, n, i))) for n in names])

            def sf(eng, f, args, kw, node):
                self.log.append(("set_feedback_gregory", [args[0]] + bindpos(f, args[1:], kw), None))
                return NONE
            e.hooks["energy_budget"] = eb
            e.hooks["set_feedback_gregory"] = sf
        if handler:
            def em(eng, f, args, kw, node):
                a = bindpos(f, args[1:], kw)
                fb = a[1] if len(a) > 1 else NONE
                if isinstance(fb, Ref):
                    fb = {k.args[0]: eng.read_item(fb, k) for k, _ in eng.dict_keys(fb)}
                self.log.append(("emi2conc", [args[0], a[0], fb], None))
                return NONE

            def cf(eng, f, args, kw, node):
                a = bindpos(f, args[1:], kw)
                self.log.append(("conc2forc", [args[0]] + a, None))
                y = a[0].args[0]
                return Tup([sym("%s%d_%d" % (n, self.run, y)) for n in ("ft", "fn", "fs", "wa")])
            e.hooks["emi2conc"] = em
            e.hooks["conc2forc"] = cf

    def take(self):
        l, self.log = self.log, []
        self.nbudget = 0
        return l


def bindpos(f, args, kw):
    """positional view of a call's arguments (self removed)"""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    out = list(args)
    for n in names[len(out):]:
        if n in kw:
            out.append(kw[n])
        else:
            break
    return out


def thermal_names(ctx, e, thermal):
    C = ctx.anchor(e, *THERMAL[thermal])
    keys, v = class_dict(e, C, OUTD)
    return [(k, e.read_item(v, S(k)).args[0]) for k in keys]


def driver(ctx, e, cfg):
    C = ctx.anchor(e, DRV_MOD, "CICEROSCM")
    return e.construct(C, [cfg], {}, None)


def run_model(e, d, cfg=None, udm=None, emi=None, carbon=None, **kw):
    cfg = cfg if cfg is not None else e.new_dict([(S("results_as_dict"), TRUE)])
    args = {}
    if udm is not None:
        args["pamset_udm"] = udm
    if emi is not None:
        args["pamset_emiconc"] = emi
    if carbon is not None:
        args["pamset_carbon"] = carbon
    args.update(kw)
    return e.call(e.getattr(d, "_run", None), [cfg], args, None)


def res(e, d):
    r = e.getattr(d, "results", None)
    return {k.args[0]: e.read_item(r, k) for k, _ in e.dict_keys(r)}


def arr_cells(e, v):
    """cells of a result array"""
    x = e.fr.xarr(v)
    if x is None:
        v = e.as_arr(v)
        n = v.lens[0]
        if n.op != "num":
            raise TypeError("array of unknown length")
        return [e.index_arr(v, num(i)) for i in range(int(n.args[0]))]
    return list(x.cells)
