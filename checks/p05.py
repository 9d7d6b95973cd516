"""Upwelling-diffusion annual step equals the implicit finite-volume scheme (all outputs)."""
from checks.thermal import *  # noqa
from checks.udmref import Ref

LEVEL = "other"
F = UDM_FILE + ":UpwellingDiffusionModel.energy_budget"
OUT = ["dtemp", "dtempnh", "dtempsh", "dtemp_air", "dtempnh_air", "dtempsh_air", "dtemp_sea", "dtempnh_sea",
       "dtempsh_sea", "RIB", "RIBN", "RIBS"]


def reference(keys, lm, ld, nv, ny, w=None, fixed=None):
    """returns f(valuation) -> list of yearly output dicts (memoised)"""
    fixed = fixed or {}

    def go(V):
        r = V.memo.get(("udmref", lm, ld))
        if r is not None:
            return r
        p = {k: (fixed[k] if k in fixed else V.num(psym(k))) for k in keys if k not in ("lm", "ldtime")}
        m = Ref(p, lm, ld)
        r = []
        for y in range(1, ny + 1):
            f = {h: V.num(sym("f%s%d" % (h, y))) for h in "ns"}
            vol = {h: [V.num(item(sym("v%s%d" % (h, y), "any"), num(i))) for i in range(nv)] for h in "ns"}
            lam = 1.0 / p["lambda"]
            if w:
                lam += V.num(sym(w[y - 1])) * p["delta_lambda_aero"]
            r.append(m.step(f, vol, lam))
        V.memo[("udmref", lm, ld)] = r
        return r
    return go


def compare(ctx, tag, u, outs, go, setup, where=None, deps=()):
    for y, o in enumerate(outs):
        for k in OUT:
            if k not in o:
                continue
            t = T.ref("udm." + k, lambda V, *a, y=y, k=k: go(V)[y][k], *deps)
            ctx.equal("%s: %s year %d" % (tag, k, y + 1), o[k], t, F,
                      "%s of year %d differs from the implicit scheme" % (k, y + 1), setup=setup, where=where)
        for k in ("tn", "ts"):
            for i in (0, 1, 2, u.lm // 2, u.lm - 2, u.lm - 1):
                t = T.ref("udm.%s%d" % (k, i), lambda V, *a, y=y, k=k, i=i: go(V)[y][k][i], *deps)
                ctx.equal("%s: %s[%d] year %d" % (tag, k, i, y + 1), u.layer(o[k], i), t, F,
                          "layer %d temperature (%s) of year %d differs from the implicit scheme" % (i, k, y + 1),
                          setup=setup, where=where)


def run(ctx):
    ctx.rule("all outputs of two successive annual steps == independent finite-volume reference, for symbolic "
             "parameters, forcing and volcanic series")
    from checks.p02 import two_years
    cases = [(9, 2, {}), (8, 1, dict(threstemp=0)), (8, 2, dict(ocean_efficacy=1))]
    if not ctx.quick:
        cases += [(40, 3, {}), (12, 5, dict(ebbeta=0)), (6, 12, {})]
    for lm, ld, fx in cases:
        tag = "lm=%d ldtime=%d %s" % (lm, ld, fx)
        with ctx.section(tag):
            u, o = two_years(ctx, lm, ld, fx)
            go = reference(u.keys, lm, ld, u.nvolc, 2, fixed={k: float(v) for k, v in fx.items()})
            compare(ctx, tag, u, o, go, pam_setup(UDM_RANGE))
    # volcanic series with other lengths (annual, 24 values)
    for nv in (1, 24):
        with ctx.section("nvolc=%d" % nv):
            u = Udm(ctx, 8, 3, nvolc=nv)
            o = [u.step("fn1", "fs1", "vn1", "vs1")]
            for k in ("tn", "ts"):
                o[0][k] = u.e.as_arr(o[0][k])
            go = reference(u.keys, 8, 3, nv, 1)
            compare(ctx, "volcanic series of %d values" % nv, u, o, go, pam_setup(UDM_RANGE))
    ctx.assumptions.append("solve_banded interpreted as exact tridiagonal solve; layer counts and sub-steps instantiated")
