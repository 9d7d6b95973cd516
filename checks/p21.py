"""A run's results depend on its instance's inputs and its own parameters only, not on what ran before."""
from checks.rerun import *  # noqa

LEVEL = "other"
G = DRV_FILE + "::CICEROSCM._run"
RC = lambda e, s: e.new_dict([(S("results_as_dict"), TRUE)] + ([(S("carbon_cycle_outputs"), TRUE)] if not s.forc and not s.conc else []))


def run(ctx):
    ctx.rule("results(fresh instance, parameters Q) == results(instance that ran parameters P before, Q) == results(other instance made and run before, Q), as value terms")
    for s in scenarios(ctx.quick):
        with ctx.section(s.name):
            one(ctx, s)


def defaults(ctx, s, part):
    """runs that leave out parameter sets use the same defaults whatever ran before"""
    if s.real and s.thermal == "default" and "udm" in part:
        return      # the default ocean has 40 layers: too large for exact terms
    if ctx.quick and s.name not in ("emissions", "emissions, box, two-layer", "concentrations", "forcing table", "perturbed") and len(part) < 3:
        return
    what = "defaults for " + "/".join(part)
    e, rec = start(ctx, s)
    d, _ = make(ctx, e, s)
    want = once(ctx, e, s, d, "new_", rec, without=part)
    same(ctx, s, what + ", repeated", once(ctx, e, s, d, "new_", rec, without=part), want)
    e2, rec2 = start(ctx, s)
    d2, _ = make(ctx, e2, s)
    once(ctx, e2, s, d2, "old_", rec2, extra_emi=[("just_one", S("CH4")), ("lifetime_mode", S("WIGLEY"))])
    if "car" in part:
        # carbon cycle parameters left out keep the values last given (tests rely on it): the run is that of a fresh instance with them
        e3, rec3 = start(ctx, s)
        d3, _ = make(ctx, e3, s)
        want = once(ctx, e3, s, d3, "new_", rec3, without=[p for p in part if p != "car"], ctag="old_")
    same(ctx, s, what + ", after a run with other parameters", once(ctx, e2, s, d2, "new_", rec2, without=part), want)


def once(ctx, e, s, d, tag, rec, without=(), ctag=None, **kw):
    udm, emi, car = pams(ctx, e, s, tag, **kw)
    if ctag:
        car = pams(ctx, e, s, ctag)[2]
    udm, emi, car = (None if n in without else x for n, x in (("udm", udm), ("emi", emi), ("car", car)))
    rec.take()
    run_model(e, d, RC(e, s), udm, emi, car)
    return flat(e, d)


def same(ctx, s, what, got, want, msg="differs from that of a fresh instance with the same inputs"):
    items = []
    ctx.check("%s: %s: same outputs" % (s.name, what), got.keys() == want.keys(), G, "%s: outputs %s" % (what, sorted(got.keys() ^ want.keys())[:5]))
    for k in want:
        if k in got:
            items.append(("%s: %s: %s" % (s.name, what, k), got[k], want[k], G, "%s: result %s %s" % (what, k, msg)))
    ctx.equal_many(items, setup=setup(s, ("old_", "new_")), trials=6 if ctx.quick else 20)


def one(ctx, s):
    e, rec = start(ctx, s)
    d, _ = make(ctx, e, s)
    want = once(ctx, e, s, d, "new_", rec)
    ctx.count("results compared", len(want))
    # other parameters first, with the optional ones set
    e2, rec2 = start(ctx, s)
    d2, _ = make(ctx, e2, s)
    first = once(ctx, e2, s, d2, "old_", rec2, extra_emi=[("just_one", S("CH4")), ("lifetime_mode", S("WIGLEY"))])
    kept = e2.getattr(d2, "results", None)
    same(ctx, s, "after a run with other parameters", once(ctx, e2, s, d2, "new_", rec2), want)
    same(ctx, s, "results kept from before that run", flat(e2, d2, kept), first, "is changed by a later run of the instance")
    # defaults (no parameter sets given) before, in between and after
    for part in (("udm",), ("emi",), ("car",), ("udm", "emi", "car")):
        defaults(ctx, s, part)
    # the same run again
    same(ctx, s, "repeated", once(ctx, e2, s, d2, "new_", rec2), want)
    # another instance used before in the same process
    e3, rec3 = start(ctx, s)
    d3, _ = make(ctx, e3, s)
    once(ctx, e3, s, d3, "old_", rec3, extra_emi=[("lifetime_mode", S("CONSTANT_12"))])
    d4, _ = make(ctx, e3, s)
    same(ctx, s, "second instance", once(ctx, e3, s, d4, "new_", rec3), want)
    # two instances alive at once
    e5, rec5 = start(ctx, s)
    d5, _ = make(ctx, e5, s)
    d6, _ = make(ctx, e5, s)
    once(ctx, e5, s, d6, "old_", rec5)
    same(ctx, s, "other instance run in between", once(ctx, e5, s, d5, "new_", rec5), want)
    # inputs shared between instances
    e7, rec7 = start(ctx, s)
    tabs = inputs(e7, s)
    d7 = driver(ctx, e7, s.w.cfg(e7, tabs))
    once(ctx, e7, s, d7, "old_", rec7)
    d8 = driver(ctx, e7, s.w.cfg(e7, tabs))
    same(ctx, s, "instance sharing input tables", once(ctx, e7, s, d8, "new_", rec7), want)
