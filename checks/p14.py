"""Total forcing is the sum of the components; the hemispheres average to it."""
from checks.p13 import *  # noqa
from checks.p13 import F, outname

LEVEL = "other"
G = F + "conc2forc"
NAMES = ["total", "northern", "southern"]


def totals(ctx, e, c, nm, outs, df, idx, selfsum=True):
    items = []
    for i, y in enumerate(c.w.years):
        o = outs[i]
        if not isinstance(o, Tup) or len(o.items) < 3:
            ctx.undecided("%s: result of year %d" % (nm, y), "not a tuple")
            continue
        for k in range(3):
            items.append(("%s: %s forcing %d" % (nm, NAMES[k], y), o.items[k], term(c, "o", lambda r, y=y, k=k: r.out[y][k]), G,
                          "%s forcing of year %d is not the (hemispherically weighted) sum of the component forcings" % (NAMES[k], y)))
        items.append(("%s: hemispheres average to the total, %d" % (nm, y), mul(num(0.5), add(o.items[1], o.items[2])), add(o.items[0], sym("sun_%d" % y)), G,
                      "mean of the hemispheric forcings is not total plus solar in %d" % y))
        if selfsum and df is not None:
            comp = [cells(e, df, outname(g)) for g in c.w.gases]
            if all(x is not None for x in comp):
                s = ZERO
                for x in comp:
                    s = add(s, x[i])
                items.append(("%s: reported components add up, %d" % (nm, y), o.items[0], s, G, "total forcing of %d is not the sum of the reported component forcings" % y))
            t = cells(e, df, "Total_forcing")
            if t is not None:
                items.append(("%s: reported total, %d" % (nm, y), t[i], o.items[0], F + "add_results_to_dict", "reported total forcing of %d is not the forcing passed on" % y))
    ctx.equal_many(items, setup=setup(c))


def run(ctx):
    ctx.rule("returned total == sum over all components, hemispheric values == sum of component * (factor, 2 - factor) + solar, "
             "and the reported table's columns add up to the total, for symbolic inputs")
    for nm, c in plain_cases(ctx.quick):
        with ctx.section(nm):
            e, h, tabs, ih, cfg, outs = build(ctx, c)
            df = results(e, h)["forcing"]
            totals(ctx, e, c, nm, outs, df, None)
    ones = [g for g in World().gases]
    for g in ones:
        nm = "just one: " + g
        with ctx.section(nm):
            c = Case(World(), just_one=g)
            e, h, tabs, ih, cfg, outs = build(ctx, c)
            totals(ctx, e, c, nm, outs, None, None, selfsum=False)
