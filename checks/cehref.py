"""Independent reference of the emissions -> concentrations -> forcing chain, on numbers.

Written from the documented formulas (module documentation, Etminan et al. 2016, TAR table 4.11),
not from the shape of the source.  Works on one valuation V of the input symbols of a ceh.World.
"""
import math

from checks.ceh import *  # noqa
from checks.ceh import CL, BR, NOEM, MAIN, T

HEMI = {g: 1.47 for g in ("SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_OC", "BMB_AEROS_BC")}
HEMI["TROP_O3"] = 1.45
HEMI["LANDUSE"] = 1.42
QOF = {"SO2": ("SO2", "qdirso2"), "SO4_IND": ("SO2", "qindso2"), "OC": ("OC", "qoc"), "BC": ("BC", "qbc"), "BMB_AEROS": ("BMB_AEROS_OC", "qbmb"),
       "NMVOC": ("NMVOC", "qnmvoc"), "NH3": ("NH3", "qnh3"), "NOx": ("NOx", "qnox")}


def is_aer(g):
    return g in ("NMVOC", "NH3", "NOx") or g[:2] in ("BC", "OC", "SO", "BM")


class Case:
    """one configuration of the handler: world + mode + perturbations"""

    def __init__(self, w, conc_run=False, mode=None, pf=(), pe=(), q=None, just_one=None, carbon=None):
        self.w, self.conc_run, self.mode, self.pf, self.pe = w, conc_run, mode, list(pf), list(pe)
        self.qsym = q or (lambda k: sym(k))
        self.just_one = just_one
        self.carbon = carbon      # V, year -> CO2 concentration (numbers); None = affine stub


def co2_stub(V, y, em):
    return V.num(sym("co2k_%d" % y)) + V.num(sym("co2s")) * em


class CehRef:
    def __init__(self, V, c):
        self.V, self.c, w = V, c, c.w
        self.w = w
        n = lambda s: V.num(s)
        self.em = {g: {y: n(w.emi(g, y)) for y in w.em_years} for g in w.em_cols}
        for comp, yr, s in c.pe:
            self.em["CO2_FF" if comp == "CO2" else comp][yr] += n(s)
        self.gp = lambda g, col: n(w.gp(g, col))
        self.conc, self.forc = {}, {}
        try:
            self.run()
        except (ValueError, OverflowError, ZeroDivisionError):
            raise T.Undefined("reference")

    def cin(self, g, y):
        return self.V.num(self.w.conc(g, y))

    def prescribed(self, y):
        return self.c.conc_run or y < self.w.em

    def co2em(self, y):
        return self.em["CO2_FF"][y] + self.em["CO2_AFOLU"][y]

    def run(self):
        w, V, c = self.w, self.V, self.c
        y0 = w.ny0
        for g in w.conc_gases:
            d = self.conc[g] = {}
            for y in w.years:
                if g == "CO2" and not c.conc_run:
                    d[y] = co2_stub(V, y, self.co2em(y) + self.gp("CO2", "NAT_EM")) if c.carbon is None else c.carbon(V, y)
                elif self.prescribed(y):
                    d[y] = self.cin(g, y)
                else:
                    prev = d[y - 1] if y > y0 else self.cin(g, y)
                    loss = 1.0 / self.gp(g, "TAU1")
                    nat = self.gp(g, "NAT_EM")
                    if g == "CH4":
                        nat, loss = V.num(w.nat("CH4", y)), self.ch4_loss(loss, prev, y)
                    elif g == "N2O":
                        nat = V.num(w.nat("N2O", y))
                    src = (self.em[g][y] + nat) / self.gp(g, "BETA")
                    # solution of dC/dt = src - loss*C after one year
                    d[y] = prev * math.exp(-loss) + src * -math.expm1(-loss) / loss
        for y in w.years:
            self.one_year(y)

    def ch4_loss(self, q, prev, y):
        m = self.c.mode or "TAR"
        if m == "TAR":
            de = lambda g: self.em[g][y] - self.em[g][2000]
            q = q * (1 + -0.32 * math.log(prev / 1751.0) + 0.0042 * de("NOx") - 0.000105 * de("CO") - 0.000315 * de("NMVOC"))
        elif m == "CONSTANT_12":
            q = 1 / 12.0
        elif m == "WIGLEY":
            q = q * (prev / 1700.0) ** -0.238
        return q + 1 / self.gp("CH4", "TAU2") + 1 / self.gp("CH4", "TAU3")

    def q(self, k):
        base = {"qdirso2": "SO2", "qbc": "BC", "qoc": "OC"}.get(k)
        if base and any(g.startswith(base + "_") for g in self.w.gases):
            return 0.0
        return self.V.num(self.c.qsym(k))

    def o3(self, y):
        w, r = self.w, self.w.ref
        de = lambda g: self.em[g][y] - self.em[g][r]
        return 30.0 + 6.7 * math.log(self.conc["CH4"][y] / self.cin("CH4", r)) + 0.17 * de("NOx") + 0.0014 * de("CO") + 0.0042 * de("NMVOC")

    def one_year(self, y):
        w, V = self.w, self.V
        y0 = w.ny0
        f = {}
        C = {g: self.conc[g][y] for g in MAIN}
        C0 = {g: self.conc[g][y0] for g in MAIN}
        m = {g: .5 * (C[g] + C0[g]) for g in MAIN}
        f["CO2"] = (-2.4e-7 * (C["CO2"] - C0["CO2"]) ** 2 + 7.2e-4 * abs(C["CO2"] - C0["CO2"]) - 2.1e-4 * m["N2O"] + 5.36) * math.log(C["CO2"] / C0["CO2"])
        f["N2O"] = (-8.0e-6 * m["CO2"] + 4.2e-6 * m["N2O"] - 4.9e-6 * m["CH4"] + 0.117) * (math.sqrt(C["N2O"]) - math.sqrt(C0["N2O"]))
        f["CH4"] = (-1.3e-6 * m["CH4"] - 8.2e-6 * m["N2O"] + 0.043) * (math.sqrt(C["CH4"]) - math.sqrt(C0["CH4"]))
        for g in MAIN:
            f[g] *= self.gp(g, "SARF_TO_ERF")
        for g in w.gases:
            if g in MAIN:
                continue
            if g in w.conc_gases:
                f[g] = self.gp(g, "ALPHA") * self.gp(g, "SARF_TO_ERF") * (self.conc[g][y] - self.conc[g][y0])
            elif g == "LANDUSE":
                f[g] = V.num(sym("luc_%d" % y))
            elif is_aer(g):
                if self.gp(g, "ALPHA") != 0:
                    f[g] = self.gp(g, "ALPHA") * (self.em[g][y] - self.em[g][y0])
                elif g in QOF:
                    s, q = QOF[g]
                    f[g] = self.q(q) * (self.em[s][y] - self.em[s][y0])
                else:
                    f[g] = 0.0
            elif g == "TROP_O3":
                a, b = self.o3(y), self.o3(y0)
                self.conc.setdefault(g, {})[y] = a
                f[g] = 0.0 if b == 30.0 else self.q("qo3") * (a - b) / (30.0 - b) * self.gp(g, "SARF_TO_ERF")
            elif g == "STRAT_H2O":
                f[g] = self.q("qh2o_ch4") * f["CH4"] * self.gp(g, "SARF_TO_ERF")
            elif g == "STRAT_O3":
                cl = br = 0.0
                if y - 3 >= y0:
                    for h, n in CL.items():
                        if h in w.gases:
                            d = n * (self.conc[h][y - 3] - self.conc[h][y0])
                            cl += math.copysign(abs(d) ** 1.7, d) if d else 0.0
                    for h, n in BR.items():
                        if h in w.gases:
                            br += n * (self.conc[h][y - 3] - self.conc[h][y0])
                f[g] = -(0.05 / 0.17377) * (0.000552 * cl + 3.048 * br) / 1000 * self.gp(g, "SARF_TO_ERF")
            else:
                f[g] = 0.0
        raw = dict(f)
        for comp, yr, s in self.c.pf:
            if yr == y:
                f[comp] += V.num(s)
        self.forc[y] = f
        tot = sum(f.values())
        nh = sum(v * HEMI.get(g, 1.0) for g, v in f.items())
        sh = sum(v * (2 - HEMI.get(g, 1.0)) for g, v in f.items())
        if self.c.just_one:
            g = self.c.just_one
            tot = f[g]
            nh, sh = tot * HEMI.get(g, 1.0), tot * (2 - HEMI.get(g, 1.0))
        sun = V.num(sym("sun_%d" % y))
        vanilla = [g for g in w.gases if (g in w.conc_gases and g not in MAIN) or g == "STRAT_O3"]
        aer = sum(abs(v) for g, v in f.items() if is_aer(g))
        den = sum(abs(v) for g, v in f.items() if g not in vanilla)
        self.__dict__.setdefault("out", {})[y] = (tot, nh + sun, sh + sun, aer / den if den > 0 else 0.0)


def refs(c):
    """memoised reference of case c at a valuation"""
    def go(V):
        k = ("cehref", id(c))
        if k not in V.memo:
            V.memo[k] = CehRef(V, c)
        return V.memo[k]
    return go


def term(c, name, f):
    go = refs(c)
    return T.ref(name, lambda V: f(go(V)))


def build(ctx, c, e=None, pams=None, loop=True, **kw):
    """value graph of a whole run of the handler for case c"""
    e = e or ctx.engine()
    w = c.w

    def co2(eng, f, args, kwargs, node):
        y, em = args[1], args[2]
        if y.op != "num":
            raise I.AnalysisError("year not constant")
        return add(sym("co2k_%d" % int(y.args[0])), mul(sym("co2s"), em))
    if c.carbon is None:
        e.hooks["co2em2conc"] = co2
    L = lambda xs: [x if isinstance(x, N) else num(x) if isinstance(x, int) else string(x) for x in xs]

    def pert(e, rows, col):
        return e.fr.make_df(L(range(len(rows))), [(string("component"), L([r[0] for r in rows])), (string("year"), L([r[1] for r in rows])),
                                                  (string(col), [r[2] for r in rows])])

    def extra(e):
        d = {}
        if c.pf:
            d["perturb_forc_data"] = pert(e, c.pf, "forcing")
        if c.pe:
            d["perturb_em_data"] = pert(e, c.pe, "emission")
        d.update(kw.pop("extra", {}))
        return d

    def mk(e):
        ex = [("lifetime_mode", string(c.mode))] if c.mode else []
        if c.just_one:
            ex.append(("just_one", string(c.just_one)))
        return w.pams(e, extra=ex)
    e, h, tabs, ih, cfg = handler(ctx, w, e=e, conc_run=c.conc_run, pams=pams or mk, stub=False, extra=extra, **kw)
    outs = year_loop(e, h, w) if loop else None
    return e, h, tabs, ih, cfg, outs


def setup(c):
    def go(rng):
        d = c.w.setup(rng)
        for y in c.w.years:
            d[sym("co2k_%d" % y)] = rng.uniform(250, 500)
        d[sym("co2s")] = rng.uniform(.1, 5)
        for _, _, s in list(c.pf) + list(c.pe):
            d[s] = rng.uniform(-2, 2)
        return d
    return go


def standard_cases(quick):
    P = lambda rows, p: [(g, y, sym("%s%d" % (p, i))) for i, (g, y) in enumerate(rows)]
    A = World()
    cs = [
        ("emissions TAR", Case(A)),
        ("prescribed concentrations", Case(World(conc_pad=0, em_pad=3), conc_run=True)),
        ("emissions WIGLEY, regional aerosols", Case(World(ny0=1997, em=1998, ny1=2003, ref=2001, regional=["SO2_ASIA", "BC_OECD"], em_pad=2, conc_pad=0), mode="WIGLEY")),
        ("emissions CONSTANT_12, perturbations", Case(World(aer_alpha=True), mode="CONSTANT_12",
                                                      pf=P([("CO2", 2000), ("CFC-11", 2001), ("TROP_O3", 2002), ("SO2", 2003), ("LANDUSE", 2003), ("OTHER", 2004), ("STRAT_O3", 2004), ("SO2", 2004)], "pf"),
                                                      pe=P([("CO2", 1999), ("CFC-11", 2002), ("NOx", 2002), ("SO2", 2003), ("CH4", 2002), ("CO2", 2004)], "pe"))),
    ]
    if not quick:
        cs += [
            ("emissions never start", Case(World(ny0=1998, em=2010, ny1=2004))),
            ("emissions start in last year", Case(World(ny0=1996, em=2004, ny1=2004, ref=2000))),
            ("long run", Case(World(ny0=1990, em=1995, ny1=2010, ref=2005, conc_pad=5, em_pad=5))),
            ("prescribed with perturbations", Case(World(), conc_run=True, pf=P([("CO2", 2000), ("HFC125", 2001), ("HFC125", 2003), ("BMB_AEROS", 2003), ("CH4", 1998)], "pf"), pe=P([("NMVOC", 2003), ("CO", 1999)], "pe"))),
        ]
    return cs


def cells(e, df, name):
    for k, v in e.fr.cols(df):
        if k is string(name) or (k.op == "str" and k.args[0] == name):
            return list(v)
    return None


def results(e, h, keys=()):
    """the reported tables: name -> dataframe"""
    r = callm(e, h, "add_results_to_dict", e.new_dict([(string(k), TRUE) for k in keys]))
    out = {k.args[0]: e.getitem(r, k, None) for k, _ in e.dict_keys(r)}
    for k, df in out.items():
        if not e.fr.is_df(df):
            raise I.AnalysisError("table %s is not interpreted" % k)
    return out


def pert_cases(quick):
    P = lambda rows, p: [(g, y, sym("%s%d" % (p, i))) for i, (g, y) in enumerate(rows)]
    pf = [("CO2", 2000), ("CFC-11", 2001), ("TROP_O3", 2002), ("SO2", 2003), ("LANDUSE", 2003), ("OTHER", 2004), ("STRAT_O3", 2004), ("SO2", 2004), ("HFC125", 2002), ("HFC125", 2002)]
    out = [
        ("emissions, perturbations", Case(World(), mode="CONSTANT_12", pf=P(pf + [("CH4", 2004), ("CH4", 2004), ("CFC-11", 2050), ("CO2", 2050), ("BMB_AEROS", 1998), ("NOx", 2001)], "pf"),
                                          pe=P([("CO2", 1999), ("CFC-11", 2002), ("NOx", 2002), ("SO2", 2003), ("CH4", 2002), ("CO2", 2004), ("CO2", 2004), ("CO2_AFOLU", 2003)], "pe"))),
        ("prescribed, perturbations", Case(World(), conc_run=True, pf=P(pf, "pf"), pe=P([("NMVOC", 2003), ("CO", 1999), ("BC", 2002)], "pe"))),
    ]
    if not quick:
        allf = [g for g in World().gases]
        out += [("every component perturbed", Case(World(), pf=P([(g, 1998 + i % 7) for i, g in enumerate(allf)], "pf"),
                                                   pe=P([(g, 1998 + i % 7) for i, g in enumerate(World().em_cols)], "pe")))]
    return out


FEW = ["CO2", "CH4", "N2O", "CFC-11", "H-1211", "SO2", "NOx", "CO", "NMVOC", "TROP_O3", "STRAT_O3", "STRAT_H2O", "LANDUSE", "BC", "OC", "SO4_IND", "BMB_AEROS", "BMB_AEROS_OC", "OTHER", "NH3"]


def plain_cases(quick):
    cs = [
        ("emissions TAR", Case(World())),
        ("prescribed concentrations", Case(World(conc_pad=0, em_pad=3), conc_run=True)),
        ("emissions WIGLEY, regional aerosols", Case(World(ny0=1997, em=1998, ny1=2003, ref=2001, regional=["SO2_ASIA", "BC_OECD"], em_pad=2, conc_pad=0), mode="WIGLEY")),
        ("emissions CONSTANT_12, own aerosol factors", Case(World(aer_alpha=True, em_pad=4), mode="CONSTANT_12")),
        ("emissions start in first year", Case(World(ny0=1998, em=1998, ny1=2003, ref=2000))),
        ("emissions start in last year", Case(World(ny0=1998, em=2003, ny1=2003, ref=2000))),
        ("full period", Case(World(ny0=1748, em=1850, ny1=2106, ref=2010, conc_pad=0, post=3, gases=FEW))),
        ("prescribed full period", Case(World(ny0=1750, em=1850, ny1=2300 if not quick else 2110, ref=2010, conc_pad=0, post=3, gases=FEW), conc_run=True)),
    ]
    if not quick:
        cs += [
            ("far future", Case(World(ny0=2080, em=2085, ny1=2510, ref=2010, gases=FEW), mode="WIGLEY")),
            ("emissions never start", Case(World(ny0=1998, em=2010, ny1=2004))),
            ("emissions start before the run", Case(World(ny0=1998, em=1990, ny1=2004))),
            ("long run", Case(World(ny0=1990, em=1995, ny1=2010, ref=2005, conc_pad=5, em_pad=5))),
            ("regional OC", Case(World(regional=["OC_REF", "OC_LAM"], conc_pad=7))),
            ("early years", Case(World(ny0=1752, em=1755, ny1=1758, ref=1757, post=300), mode="WIGLEY")),
        ]
    return cs
