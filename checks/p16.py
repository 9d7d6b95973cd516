"""The aerosol forcing fraction is a fraction."""
from checks.cehref import *  # noqa

LEVEL = "other"
G = CEH_FILE + ":ConcentrationsEmissionsHandler.conc2forc"


def run(ctx):
    ctx.rule("fourth value of conc2forc == sum|aerosol components| / sum|components calculated year by year| (0 without forcing), in [0, 1]")
    for nm, c in plain_cases(ctx.quick) + pert_cases(ctx.quick):
        with ctx.section(nm):
            e, h, tabs, ih, cfg, outs = build(ctx, c)
            st = setup(c)
            items = []
            for i, y in enumerate(c.w.years):
                o = outs[i]
                if not isinstance(o, Tup) or len(o.items) < 4:
                    ctx.undecided("%s: result of year %d" % (nm, y), "not a 4-tuple")
                    continue
                x = o.items[3]
                items.append(("%s: fraction %d" % (nm, y), x, term(c, "w", lambda r, y=y: r.out[y][3]), G, "aerosol fraction of %d is not the aerosols' share of the forcing magnitudes" % y))
                items.append(("%s: in [0, 1], %d" % (nm, y), T.ref("rng", lambda V, t: 1.0 if -1e-12 <= V.num(t) <= 1 + 1e-9 else 0.0, x), ONE, G, "aerosol fraction of %d leaves [0, 1]" % y))
            ctx.equal_many(items, setup=st)
    with ctx.section("no forcing"):
        # nothing changes: every component zero
        c = Case(World(), conc_run=True)
        e, h, tabs, ih, cfg, outs = build(ctx, c)
        w = c.w

        def flat(rng):
            d = setup(c)(rng)
            for y in w.conc_years:
                for g in w.conc_gases:
                    d[w.conc(g, y)] = d[w.conc(g, w.ny0)]
            for y in w.em_years:
                for g in w.em_cols:
                    d[w.emi(g, y)] = abs(d[w.emi(g, w.em_years[0])]) or 1.0
            for y in w.years:
                d[sym("luc_%d" % y)] = 0.0
            return d
        ctx.equal_many([("no forcing: fraction %d" % y, outs[i].items[3], ZERO, G, "aerosol fraction is not zero without any forcing") for i, y in enumerate(w.years)], setup=flat, forced=False)
    with ctx.section("hardly any forcing"):
        for eps in (1e-3, 1e-5, 1e-7):
            def slight(rng, eps=eps):
                d = flat(rng)
                for y in w.conc_years[1:]:
                    for g in w.conc_gases:
                        d[w.conc(g, y)] *= 1 + eps * rng.uniform(-1, 1)
                for y in w.em_years:
                    for g in w.em_cols:
                        d[w.emi(g, y)] *= 1 + eps * rng.uniform(-1, 1)
                for y in w.years:
                    d[sym("luc_%d" % y)] = eps * rng.uniform(-1, 1)
                for p in ("", "old_", "new_"):      # scales a ratio of emission differences
                    d[sym(p + "qo3")] = eps * rng.uniform(-1, 1)
                return d
            ctx.equal_many([("forcing of order %g: fraction %d" % (eps, y), outs[i].items[3], term(c, "w", lambda r, y=y: r.out[y][3]), G,
                             "aerosol fraction of %d is not the aerosols' share of the (small) forcing magnitudes" % y) for i, y in enumerate(w.years)], setup=slight, forced=False)
