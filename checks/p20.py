"""Constructing and running the model leaves the caller's inputs as they were."""
from checks.rerun import *  # noqa

LEVEL = "other"


def writers(e, ref):
    """functions that write the object (for the report)"""
    out = []
    for ev in e.events:
        if ev.kind in ("store", "setattr", "del") and ev.obj == ref:
            out.append(ev.where())
    return sorted(set(map(str, out)))


def run(ctx):
    ctx.rule("content of every caller-owned object (configuration, tables, arrays, response functions, parameter sets, run configuration) is the same after construction and runs")
    for s in scenarios(ctx.quick):
        with ctx.section(s.name):
            one(ctx, s)


def one(ctx, s):
    e, rec = start(ctx, s)
    tabs = inputs(e, s)
    cfg = s.w.cfg(e, tabs)
    own = {"cfg": cfg}
    own.update({"cfg[%s]" % k: v for k, v in tabs.items() if isinstance(v, Ref)})
    before = {k: snapshot(e, v) for k, v in own.items()}

    def compare(stage):
        for k, v in own.items():
            now = snapshot(e, v)
            df = diff(before[k], now, k)
            ctx.count("objects compared")
            ctx.check("%s: %s %s" % (s.name, k, stage), not df, "; ".join(writers(e, v)) or k,
                      "caller's %s is changed by %s: %s" % (k, stage, ", ".join(map(str, df[:4]))))
    d = driver(ctx, e, cfg)
    compare("construction")
    for i, tag in enumerate(("old_", "new_")):
        udm, emi, car = pams(ctx, e, s, tag, extra_emi=[("just_one", S("CH4"))] if i == 0 else [("lifetime_mode", S("WIGLEY"))])
        if s.rfun and i:
            e.store_item(car, S("rs_function"), rfun(e, "rs", 3, 2))
        rc = e.new_dict([(S("results_as_dict"), TRUE)] + ([(S("carbon_cycle_outputs"), TRUE)] if i and not s.forc and not s.conc else []))
        if i and s.name == "emissions":
            rc = e.new_dict([(S("output_folder"), S("out")), (S("output_prefix"), S("pre"))])
        for k, v in (("thermal parameters", udm), ("emission parameters", emi), ("carbon parameters", car), ("run configuration", rc)):
            own["%s of run %d" % (k, i + 1)] = v
            before["%s of run %d" % (k, i + 1)] = snapshot(e, v)
        run_model(e, d, rc, udm, emi, car)
        compare("run %d" % (i + 1))
    # partial parameter sets must not be filled in the caller's dictionaries
    small = {"thermal parameters": e.new_dict([(S("lambda"), sym("lam"))]), "emission parameters": e.new_dict([(S("qbc"), sym("qq"))]), "carbon parameters": e.new_dict([(S("beta_f"), sym("bb"))])}
    for k, v in small.items():
        own["partial " + k] = v
        before["partial " + k] = snapshot(e, v)
    run_model(e, d, None, small["thermal parameters"], small["emission parameters"], small["carbon parameters"])
    compare("run with partial parameter sets")
