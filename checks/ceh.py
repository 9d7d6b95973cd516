"""Abstract set-ups of the emissions/concentration/forcing handler and the driver."""
from sa.world import *  # noqa
from sa.world import T, I
from sa.frames import XArr, SerV, IdxV, Raw

CEH_MOD = "concentrations_emissions_handler"
CEH_FILE = "src/ciceroscm/concentrations_emissions_handler.py"
IH_MOD = "input_handler"
IH_FILE = "src/ciceroscm/input_handler.py"
PERT_FILE = "src/ciceroscm/perturbations.py"
DRV_FILE = "src/ciceroscm/ciceroscm.py"

CONC = ["CO2", "CH4", "N2O", "CFC-11", "CFC-115", "CH3Br", "CCl4", "CH3CCl3", "HCFC-22", "HCFC-142b", "H-1211", "H-2402", "HFC125", "SF6"]
NOCONC = ["SO2", "NOx", "CO", "NMVOC", "NH3", "SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS_BC", "BMB_AEROS_OC",
          "BMB_AEROS", "LANDUSE", "BC", "OC", "OTHER"]
NOEM = ["LANDUSE", "OTHER", "SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS"]
MAIN = ["CO2", "CH4", "N2O"]
AER = ["NMVOC", "NH3", "NOx", "SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_BC", "BMB_AEROS_OC"]
CL = {"CFC-11": 3, "CFC-115": 1, "CCl4": 4, "CH3CCl3": 3, "HCFC-22": 1, "HCFC-142b": 1, "H-1211": 1}
BR = {"H-1211": 1, "H-2402": 2, "CH3Br": 1}
NUMCOL = ["BETA", "ALPHA", "TAU1", "TAU2", "TAU3", "NAT_EM", "SARF_TO_ERF"]
QS = ["qbmb", "qo3", "qdirso2", "qindso2", "qbc", "qoc", "qh2o_ch4", "qnmvoc", "qnh3", "qnox"]


class World:
    """names of the input symbols; years are constants, every table cell is a symbol"""

    def __init__(self, ny0=1998, em=2001, ny1=2004, ref=2002, regional=(), aer_alpha=False, conc_pad=2, em_pad=0, post=2, gases=None, more=(), units=None):
        self.ny0, self.em, self.ny1, self.ref = ny0, em, ny1, ref
        self.years = list(range(ny0, ny1 + 1))
        fixed = {2000, 2010, ref}       # years the lifetime and ozone parameterisations refer to
        span = lambda lo: sorted(set(range(min([lo] + [y for y in fixed if y < lo]), ny1 + post + 1)) | fixed)
        self.conc_years, self.em_years = span(ny0 - conc_pad), span(ny0 - em_pad)
        conc = [g for g in CONC if gases is None or g in gases] + list(more)
        self.units = units or {}
        rest = [g for g in NOCONC if gases is None or g in gases]
        self.conc_gases = conc
        self.gases = conc[:3] + rest[:1] + conc[3:] + rest[1:] + list(regional)
        self.regional = list(regional)
        self.em_cols = ["CO2_FF", "CO2_AFOLU"] + [g for g in self.gases if g not in NOEM and g != "CO2"]
        self.aer_alpha = aer_alpha

    def gp(self, g, c):
        if c == "ALPHA" and g in MAIN + NOCONC and not (self.aer_alpha and g in AER and g not in NOEM):
            return ZERO
        return sym("gas_%s_%s" % (g, c))

    def conc(self, g, y):
        return sym("conc_%s_%d" % (g, y))

    def emi(self, g, y):
        return sym("em_%s_%d" % (g, y))

    def nat(self, g, y):
        return sym("nat_%s_%d" % (g, y))

    def unit(self, g):
        return string("ppm" if g == "CO2" else ("ppb" if g in MAIN else "ppt")) if g in self.conc_gases else string("-")

    def tables(self, e):
        fr = e.fr
        fr.on = True
        L = lambda ys: [num(y) for y in ys]
        gas = fr.make_df([string(g) for g in self.gases],
                         [(string("EM_UNIT"), [string(self.units.get(g, "U_" + g)) for g in self.gases]), (string("CONC_UNIT"), [self.unit(g) for g in self.gases])]
                         + [(string(c), [self.gp(g, c) for g in self.gases]) for c in NUMCOL])
        conc = fr.make_df(L(self.conc_years), [(string(g), [self.conc(g, y) for y in self.conc_years]) for g in self.conc_gases])
        emi = fr.make_df(L(self.em_years), [(string(g), [self.emi(g, y) for y in self.em_years]) for g in self.em_cols])
        nch4 = fr.make_df(L(self.years), [(string("CH4"), [self.nat("CH4", y) for y in self.years])])
        nn2o = fr.make_df(L(self.years), [(string("N2O"), [self.nat("N2O", y) for y in self.years])])
        luc = fr.make_df(L(self.years), [(ZERO, [sym("luc_%d" % y) for y in self.years])])
        return dict(gaspam_data=gas, concentrations_data=conc, emissions_data=emi, nat_ch4_data=nch4, nat_n2o_data=nn2o, rf_luc_data=luc)

    def cfg(self, e, tabs, **extra):
        d = [(string("nystart"), num(self.ny0)), (string("nyend"), num(self.ny1)), (string("emstart"), num(self.em))]
        d += [(string(k), v) for k, v in tabs.items()]
        d += [(string(k), v) for k, v in extra.items()]
        return e.new_dict(d)

    def pams(self, e, prefix="", extra=(), ref=True):
        d = [(string("nystart"), num(self.ny0)), (string("nyend"), num(self.ny1)), (string("emstart"), num(self.em)), (string("idtm"), num(24))]
        if ref:
            d.append((string("ref_yr"), num(self.ref)))
        d += [(string(q), sym(prefix + q)) for q in QS]
        d += [(string(k), v) for k, v in extra]
        return e.new_dict(d)

    # numeric domain for comparisons
    def setup(self, rng):
        d = {}
        for g in self.gases:
            for c in NUMCOL:
                s = self.gp(g, c)
                if s.op == "sym":
                    d[s] = {"TAU1": lambda: rng.uniform(2, 80), "TAU2": lambda: rng.uniform(50, 200), "TAU3": lambda: rng.uniform(50, 200),
                            "BETA": lambda: rng.uniform(1, 9), "NAT_EM": lambda: rng.uniform(0, 3)}.get(c, lambda: rng.uniform(.2, 2))()
        for y in self.conc_years:
            for g in self.conc_gases:
                d[self.conc(g, y)] = rng.uniform(*{"CO2": (280, 420), "CH4": (700, 1900), "N2O": (270, 340)}.get(g, (1, 300)))
        for g in self.gases:       # special values: no own factor, unchanged concentrations
            if rng.random() < .25 and self.gp(g, "ALPHA").op == "sym":
                d[self.gp(g, "ALPHA")] = 0.0
            if rng.random() < .2 and g in self.conc_gases:
                y = rng.choice(self.years)
                d[self.conc(g, y)] = d[self.conc(g, self.ny0)]
        for y in self.em_years:
            for g in self.em_cols:       # removals and unused gases as well
                d[self.emi(g, y)] = rng.choice([rng.uniform(.5, 20)] * 6 + [rng.uniform(-8, -.5), 0.0])
        for y in self.years:
            d[self.nat("CH4", y)] = rng.uniform(100, 300)
            d[self.nat("N2O", y)] = rng.uniform(5, 15)
            d[sym("luc_%d" % y)] = rng.uniform(-.3, .1)
            d[sym("sun_%d" % y)] = rng.uniform(-.1, .1)
        for p in ("", "old_", "new_"):
            for q in QS:
                d[sym(p + q)] = rng.uniform(-1, 1)
        return d


def carbon_stub(e):
    """replace the two carbon-cycle classes by an oracle: the concentration of year y is an
    uninterpreted function of the model object's identity-free inputs up to that year"""
    def co2(eng, f, args, kw, node):
        self_, yr, em = args[0], args[1], args[2] if len(args) > 2 else kw.get("em_co2_common")
        return T.app("oracle:co2", eng.freeze(yr), eng.freeze(em))
    e.hooks["co2em2conc"] = co2


def handler(ctx, w, e=None, conc_run=False, pams=None, extra=None, pams_carbon=None, stub=True):
    e = e or ctx.engine()
    e.fr.on = True
    tabs = w.tables(e)
    ex = dict(extra(e) if callable(extra) else (extra or {}))
    if conc_run:
        ex["conc_run"] = TRUE
    cfg = w.cfg(e, tabs, **ex)
    IH = ctx.anchor(e, IH_MOD, "InputHandler")
    C = ctx.anchor(e, CEH_MOD, "ConcentrationsEmissionsHandler")
    if stub:
        carbon_stub(e)
    ih = e.construct(IH, [cfg], {}, None)
    p = pams(e) if callable(pams) else w.pams(e)
    h = e.construct(C, [ih, p] + ([pams_carbon(e)] if pams_carbon else []), {}, None)
    return e, h, tabs, ih, cfg


def year_loop(e, h, w, until=None):
    out = []
    for y in w.years:
        if until is not None and y > until:
            break
        callm(e, h, "emi2conc", num(y))
        out.append(callm(e, h, "conc2forc", num(y), sym("luc_%d" % y), sym("sun_%d" % y)))
    return out
