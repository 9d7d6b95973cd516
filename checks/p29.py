"""Halogen counts and regional aerosol parameters are derived correctly from names and tables."""
from checks.rerun import *  # noqa

LEVEL = "other"
PU_MOD = "pub_utils"
PU = "src/ciceroscm/pub_utils.py"
HAL = PU + "::make_cl_and_br_dictionaries"
REG = PU + "::make_regional_aerosol_gaspamdata"
NOT = ["CO2", "CH4", "N2O", "SF6", "CF4", "C2F6", "cC4F8", "HFC125", "HFC134a", "HFC4310mee", "NF3", "SO2F2", "NOx", "CO", "NMVOC", "NH3", "SO2", "SO4_IND", "BMB_AEROS_BC", "BC", "OC", "OTHER", "TROP_O3", "STRAT_O3",
       "STRAT_H2O", "LANDUSE", "BC_REF", "OC_LAM", "SO2_ASIA"]
FORMULA = {"CCl4": (4, 0), "CHCl3": (3, 0), "CH2Cl2": (2, 0), "CH3Cl": (1, 0), "CH3CCl3": (3, 0), "C2Cl4": (4, 0), "C2HCl3": (3, 0), "C2H5Cl": (1, 0), "CH3Br": (0, 1), "CH2Br2": (0, 2), "CHBr3": (0, 3), "CBr4": (0, 4),
           "CHClF2": (1, 0), "CCl2F2": (2, 0), "C2H5Br": (0, 1), "CCl3F": (3, 0), "CBr2F2": (0, 2)}


def names(quick):
    """compound -> (chlorine, bromine) from its chemistry"""
    out = dict(FORMULA)
    for c in (1, 2, 3):
        for d in ((0, 1) if c > 1 else (0,)):
            for h in range(0, 7):
                for f in range(0, 9):
                    cl = 2 * c + 2 - 2 * d - h - f
                    if cl < 1 or f + cl + h > 9:
                        continue
                    nr = "%d%d%d" % (c - 1, h + 1, f) if c > 1 else "%d%d" % (h + 1, f)
                    if d:
                        nr = "1" + nr.rjust(3, "0")
                    for suf in ("", "b") if quick else ("", "a", "b", "c"):
                        out["%sCFC-%s%s" % ("H" if h else "", nr, suf)] = (cl, 0)
    for c in (1, 2):
        for f in range(0, 6):
            for cl in range(0, 4):
                for br in range(1, 4):
                    if f + cl + br <= 2 * c + 2:
                        out["H-%d%d%d%d" % (c, f, cl, br)] = (cl, br)
    return out


def run(ctx):
    ctx.rule("chlorine / bromine count of a compound == the count of its chemistry (numbering rule or formula); every other gas has none; a regional aerosol row == the aerosol's row with the region's forcing per emission")
    with ctx.section("halogens"):
        halogens(ctx)
    with ctx.section("regional aerosols"):
        regional(ctx)
    with ctx.section("response function parameters"):
        consistency(ctx)
    with ctx.section("first key"):
        first_key(ctx)


def halogens(ctx):
    e = ctx.engine()
    e.fr.on = True
    f = ctx.anchor(e, PU_MOD, "make_cl_and_br_dictionaries")
    nm = names(ctx.quick)
    ctx.count("compounds", len(nm) + len(NOT))
    r = e.call(f, [e.fr.IdxV([S(x) for x in list(nm) + NOT])], {}, None)
    if not (isinstance(r, Tup) and len(r.items) == 2 and all(isinstance(x, Ref) and e.dict_keys(x) is not None for x in r.items)):
        ctx.undecided("halogens", "no pair of dictionaries: %r" % (r,))
        return
    got = [{k.args[0]: (e.read_item(x, k), p) for k, p in e.dict_keys(x)} for x in r.items]
    for what, d, j in (("chlorine", got[0], 0), ("bromine", got[1], 1)):
        for n, q in sorted(nm.items()):
            if n in d:
                ctx.literal("%s in %s" % (what, n), d[n][0], num(q[j]), HAL, "%s of %s" % (what, n))
            else:
                ctx.check("%s in %s" % (what, n), q[j] == 0, HAL, "%s has %d %s atoms but is not listed" % (n, q[j], what))
        for n in NOT:
            ctx.check("no %s in %s" % (what, n), n not in d or d[n][0] is ZERO, HAL, "%s is listed with %s" % (n, what))


def regional(ctx):
    for aer, regs, conv in ((["SO2", "BC", "OC"], None, None), (["BC"], {"A": "X", "B": "Y"}, "c"), (["SO2", "OC"], {"N": "S", "S": "N", "M": "S"}, None), (["OC", "SO2", "BC"], None, "c")):
        e = ctx.engine()
        e.fr.on = True
        f = ctx.anchor(e, PU_MOD, "make_regional_aerosol_gaspamdata")
        w = World(gases=WIDE + ["BC", "OC"])
        gas = w.tables(e)["gaspam_data"]
        m = regs if regs is not None else {"ASIA": "EAS", "LAM": "SAM", "MAF": "NAF", "OECD": "NAM", "REF": "RBU"}
        reg = sorted(set(m.values()) | {"OTHERREG"})
        rf = e.fr.make_df([S(x) for x in reg], [(S(a), [sym("rf_%s_%s" % (a, x)) for x in reg]) for a in aer])
        before = snapshot(e, gas), snapshot(e, rf)
        mod = snapshot(e, ctx.anchor(e, PU_MOD, "REG_MAPPING_DEFAULT")) if regs is None else None
        kw = {}
        if regs is not None:
            kw["reg_mapping"] = e.new_dict([(S(a), S(b)) for a, b in regs.items()])
        if conv:
            kw["unit_conversion"] = sym("conv")
        tag = "%s %s%s" % ("/".join(aer), "own regions" if regs else "default regions", ", own conversion" if conv else "")
        r = e.call(f, [gas, rf], kw, None)
        if not (isinstance(r, Ref) and e.fr.is_df(r)):
            ctx.undecided(tag, "no table: %r" % (r,))
            continue
        ctx.check(tag + ": gas table unchanged", snapshot(e, gas) == before[0], REG, "the caller's gas table is changed")
        ctx.check(tag + ": forcing table unchanged", snapshot(e, rf) == before[1], REG, "the caller's regional table is changed")
        if regs is None:
            ctx.check(tag + ": default mapping unchanged", snapshot(e, ctx.anchor(e, PU_MOD, "REG_MAPPING_DEFAULT")) == mod, REG, "the default regions are changed")
        lab0 = [l.args[0] for l in e.fr.df_index(gas).labels]
        lab = [l.args[0] for l in e.fr.df_index(r).labels]
        want = lab0 + ["%s_%s" % (a, k) for a in aer for k in m]
        if not ctx.check(tag + ": rows", sorted(lab) == sorted(want), REG, "rows missing %s, besides %s" % ([x for x in want if x not in lab][:3], [x for x in lab if x not in want][:3])):
            continue
        ctx.check(tag + ": one row each", len(set(lab)) == len(lab), REG, "rows double")
        ctx.check(tag + ": original order kept", lab[:len(lab0)] == lab0, REG, "the rows of the gases are reordered")
        old = {k: dict(zip(lab0, c)) for k, c in e.fr.cols(gas)}
        new = {k: dict(zip(lab, c)) for k, c in e.fr.cols(r)}
        ctx.check(tag + ": columns", list(old) == list(new), REG, "columns differ")
        items = []
        cv = sym("conv") if conv else num(10 ** 9)
        for k in old:
            for g in lab0:
                items.append(("%s: %s %s" % (tag, g, k.args[0]), new[k][g], old[k][g], REG, "%s of %s is changed" % (k.args[0], g)))
            for a in aer:
                for q, x in m.items():
                    wv = T.mul(sym("rf_%s_%s" % (a, x)), cv) if k.args[0] == "ALPHA" else old[k][a]
                    items.append(("%s: %s_%s %s" % (tag, a, q, k.args[0]), new[k]["%s_%s" % (a, q)], wv, REG, "%s of %s_%s is wrong" % (k.args[0], a, q)))
        for nm, a, b, c, ms in [i for i in items if not (i[1].op == "num" or i[1].op == "sum" or i[1].op == "prod" or i[1].op == "sym")]:
            ctx.literal(nm, a, b, c, ms)
        ctx.equal_many([i for i in items if i[1].op in ("num", "sum", "prod", "sym")], trials=4)


def consistency(ctx):
    G = PU + "::_check_array_consistency"
    bad = [([1, 2], [1], False), ([1], [1, 2], False), ([1, 2], [1, 2], True), ([1, 2, 3], [1], True), ([1, 2], [1, -1], False), ([1, -2], [1, 1], False), ([1, 2, 3], [-5, 1], True), ([-1, 2, 3], [5, 1], True), ([1, 2], [-1, 3], False)]
    good = [([1, 2], [1, 3], False), ([1, 2, 0], [1, 3], True), ([0.5], [2], False), ([3, 1, 2, 4], [1, 2, 3], True)]
    for c, t, rs in bad + good:
        e = ctx.engine()
        e.fr.on = True
        e.may_refuse = (c, t, rs) in bad
        f = ctx.anchor(e, PU_MOD, "_check_array_consistency")
        r = e.call(f, [e.new_list([num(x) for x in c]), e.new_list([num(x) for x in t])], dict(for_rs=TRUE if rs else T.FALSE), None)
        tag = "coefficients %s, time scales %s%s" % (c, t, ", mixed layer" if rs else "")
        if (c, t, rs) in bad:
            ctx.check(tag + " refused", not e.st.alive, G, "%s are accepted" % tag)
            continue
        if not ctx.check(tag + " accepted", e.st.alive, G, "%s are refused" % tag):
            continue
        if isinstance(r, Tup):
            for nm, v, x in zip(("coefficients", "time scales"), r.items, (c, t)):
                ctx.check("%s: %s returned" % (tag, nm), arr_cells(e, v) == [num(q) for q in x], G, "%s come back as %r" % (nm, v))


def first_key(ctx):
    e = ctx.engine()
    f = ctx.anchor(e, PU_MOD, "get_first_key")
    d = e.new_dict([(S("a"), S("x")), (S("b"), S("y")), (S("c"), S("y")), (S("d"), S("z"))])
    for v, k in (("x", "a"), ("y", "b"), ("z", "d")):
        ctx.literal("key of %s" % v, e.call(f, [d, S(v)], {}, None), S(k), PU + "::get_first_key", "the first key with value %s" % v)
