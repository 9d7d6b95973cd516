"""Configuration samples: routing, prior intervals, completeness, and files."""
from checks.rerun import *  # noqa
from checks.drv import THERMAL
from sa.ctx import AnchorGone

LEVEL = "other"
CD_MOD, DR_MOD = "parallel._configdistro", "parallel.distributionrun"
CD = "src/ciceroscm/parallel/_configdistro.py"
DR = "src/ciceroscm/parallel/distributionrun.py"
MAKE = CD + "::_ConfigDistro.make_config_lists"
DISTRO = ["rlamdo", "W", "lambda", "foan", "k", "ebbeta", "ocean_efficacy", "delta_lambda_aero", "qo3", "qbc", "qdirso2", "beta_f", "mixed_carbon", "solubility_sens", "rb_coef0", "rb_tim0", "rs_coef1", "rs_tim2",
          "threstemp", "qbmb", "ml_t_half"]
SETV = ["threstemp", "lm", "ldtime", "qbmb", "qh2o_ch4", "mixed", "solubility_limit", "rb_coef1", "rs_tim0", "deep"]
FORC = ["rlamdo", "W", "lambda", "k", "qo3", "beta_f", "rb_coef0", "mixed"]


class Case:
    def __init__(self, name, distro=DISTRO, setv=SETV, forc=None, method=None, n=4, chunk=None, file=None, meta=False, pre="p"):
        self.__dict__.update(locals())


def cases(quick):
    out = [Case("latin"), Case("latin in chunks of 3", n=7, chunk=3, method="latin"), Case("gaussian", method="gaussian"), Case("gaussian in chunks", method="gaussian", n=5, chunk=2, forc=False),
           Case("forcing", distro=FORC, forc=True), Case("forcing, gaussian", distro=FORC, forc=True, method="gaussian"), Case("forcing in chunks", distro=FORC, forc=True, n=4, chunk=2),
           Case("defaults", distro=None, setv=None, n=2), Case("default prior, forcing", distro=None, setv=None, forc=True, n=2), Case("no set values", setv=[], n=2, pre=""),
           Case("file", file="out/samples.json", n=3), Case("file with meta information", file="out/samples.json", n=3, meta=True),
           Case("files of chunks", file="out/samples.json", n=5, chunk=2), Case("files of chunks with meta information", file="out/samples.json", n=5, chunk=2, meta=True),
           Case("chunk as large as the sample", n=3, chunk=3, file="s.json"), Case("chunk larger than the sample", n=3, chunk=5, file="s.json"), Case("files of chunks, other suffix", file="out/samples.txt", n=4, chunk=3),
           Case("one configuration", n=1), Case("method not named", method="something", n=2)]
    if not quick:
        out += [Case("%d in chunks of %d" % (n, c), n=n, chunk=c, file="f.json") for n in range(1, 9) for c in range(1, 10)]
    return out


def homes(ctx, e):
    """parameter -> the set of the model part that uses it, from the models' own lists"""
    th, ca = set(), set()
    for m in THERMAL.values():
        th |= set(class_dict(e, ctx.anchor(e, *m), "thermal_model_required_pamset")[0])
    for m in CMOD.values():
        ca |= set(class_dict(e, ctx.anchor(e, m, "CarbonCycleModel"), "carbon_cycle_model_required_pamset")[0])
    ctx.count("parameters sorted", len(th | ca))
    return lambda p: "pamset_udm" if p in th else "pamset_carbon" if p in ca or p.startswith(("rb_", "rs_")) else "pamset_emiconc"


def module_value(ctx, e, name):
    return snapshot(e, ctx.anchor(e, CD_MOD, name))


def plain(e, d):
    return {k.args[0]: e.read_item(d, k) for k, _ in e.dict_keys(d)}


def build(ctx, e, c):
    kw = {}
    if c.distro is not None:
        kw["distro_dict"] = e.new_dict([(S(p), e.new_list([sym("lo_" + p), sym("hi_" + p)])) for p in c.distro])
    if c.setv is not None:
        kw["setvalues"] = e.new_dict([(S(p), sym("set_" + p)) for p in c.setv])
    o = [(S(k), v) for k, v in (("forc", None if c.forc is None else TRUE if c.forc else T.FALSE), ("method", None if c.method is None else S(c.method))) if v is not None]
    if o or c.setv is None and c.distro is not None:
        kw["options"] = e.new_dict(o)
    return kw


def run(ctx):
    ctx.rule("configuration i of a sample holds every set value unchanged and, for every other parameter of the distribution, a draw of its own from its own interval, each in the parameter set of the model part that uses it")
    for c in cases(ctx.quick):
        with ctx.section(c.name):
            one(ctx, c)
    with ctx.section("distribution runs"):
        distrun(ctx)


def names(e, x):
    v = e.list_elems(x)
    return None if v is None else list(v)


def one(ctx, c):
    e = ctx.engine()
    e.fr.on = True
    home = homes(ctx, e)
    glob = {}
    for g in ("prior_flat", "set_values_default", "options_default"):
        try:
            glob[g] = module_value(ctx, e, g)
        except AnchorGone:
            if c.distro is None or c.setv is None:
                ctx.undecided(c.name, "no module value %s" % g)
                return
    prior = plain(e, ctx.anchor(e, CD_MOD, "prior_flat")) if c.distro is None else None
    iv = {p: [e.read_item(v, num(i)) for i in (0, 1)] for p, v in prior.items()} if prior is not None else {p: [sym("lo_" + p), sym("hi_" + p)] for p in c.distro}
    setv = plain(e, ctx.anchor(e, CD_MOD, "set_values_default")) if c.setv is None else {p: sym("set_" + p) for p in c.setv}
    C = ctx.anchor(e, CD_MOD, "_ConfigDistro")
    kw = build(ctx, e, c)
    before = {k: snapshot(e, v) for k, v in kw.items()}
    d = e.construct(C, [], kw, None)
    args = dict(indexer_pre=S(c.pre))
    if c.chunk is not None:
        args["max_chunk_size"] = num(c.chunk)
    if c.file is not None:
        args["json_fname"] = S(c.file)
    if c.meta:
        args["meta_info"] = e.new_dict([(S("who"), sym("who")), (S("n"), sym("nn"))])
    r = e.call(e.getattr(d, "make_config_lists", None), [num(c.n)], args, None)
    chunks = []
    top = names(e, r)
    if top is None:
        ctx.undecided(c.name, "list not resolved: %r" % (r,))
        return
    if c.chunk is not None and c.chunk <= c.n:
        chunks = [names(e, x) for x in top]
        if any(x is None for x in chunks):
            ctx.undecided(c.name, "chunks not resolved")
            return
        ctx.check("%s: chunk sizes" % c.name, all(0 < len(x) <= c.chunk for x in chunks), MAKE, "chunks of %s with at most %d asked for" % ([len(x) for x in chunks], c.chunk))
    else:
        chunks = [top]
    configs = [x for ch in chunks for x in ch]
    if not ctx.check("%s: number of configurations" % c.name, len(configs) == c.n, MAKE, "%d configurations for %d values asked for" % (len(configs), c.n)):
        return
    if not all(isinstance(x, Ref) for x in configs):
        ctx.undecided(c.name, "configuration not resolved: %r" % (configs[0],))
        return
    # expected content
    sampled = [p for p in iv if p not in setv and (not c.forc or home(p) == "pamset_udm")]
    want = {"pamset_udm": set(), "pamset_emiconc": set(), "pamset_carbon": set()}
    for p in list(setv) + sampled:
        want[home(p)].add(p)
    items, used, rowcol = [], {}, {}
    index = []
    for i, cf in enumerate(configs):
        cfg = plain(e, cf)
        index.append(cfg.get("Index"))
        for s, ps in want.items():
            if s not in cfg:
                ctx.check("%s: %d has %s" % (c.name, i, s), False, MAKE, "configuration %d has no %s" % (i, s))
                continue
            got = plain(e, cfg[s])
            ctx.check("%s: %d parameters of %s" % (c.name, i, s), set(got) == ps, MAKE, "configuration %d: %s lacks %s and has %s besides" % (i, s, sorted(ps - set(got))[:4], sorted(set(got) - ps)[:4]))
            for p in sorted(set(got) & ps):
                nm = "%s: %d %s" % (c.name, i, p)
                if p in setv:
                    items.append((nm, got[p], setv[p], MAKE, "configuration %d: parameter %s does not have its set value" % (i, p)))
                    continue
                if not isinstance(got[p], N):
                    ctx.undecided(nm, "value not resolved: %r" % (got[p],))
                    continue
                us = sorted({x for x in T.walk(got[p]) if x.op == "sym" and x.args[0].startswith("rand")}, key=lambda x: x.args[0])
                kind = "z" if c.method not in (None, "latin") else "u"
                if not ctx.check(nm + ": one draw", len(us) == 1, MAKE, "configuration %d: parameter %s comes from draws %s" % (i, p, [sh(u) for u in us])):
                    continue
                u = us[0]
                if not ctx.check(nm + ": draw of the method", (kind in u.args[0].split("_")[0]), MAKE, "configuration %d: parameter %s is drawn with %s" % (i, p, "a normal distribution" if kind == "u" else "a uniform one")):
                    continue
                ctx.check(nm + ": draw of its own", u not in used, MAKE, "configuration %d: parameter %s has the draw of %s" % (i, p, used.get(u)))
                used[u] = (i, p)
                lo, hi = iv[p]
                if kind == "u":
                    x = T.add(lo, T.mul(u, T.sub(hi, lo)))
                    b = u.args[0].split("_")
                    if len(b) == 3:
                        rowcol.setdefault(p, []).append((b[0], int(b[1]), int(b[2])))
                else:
                    x = T.add(T.mul(num(.5), T.add(lo, hi)), T.mul(T.mul(num(.5), T.sub(hi, lo)), u))
                items.append((nm, got[p], x, MAKE, "configuration %d: parameter %s is not drawn from its interval" % (i, p)))
    ctx.count("configurations", len(configs))
    ctx.count("parameters placed", len(items))

    def st(rng):
        d = {}
        for p in iv:
            a = rng.uniform(-2, 2)
            d[sym("lo_" + p)], d[sym("hi_" + p)] = a, a + rng.uniform(.1, 3)
        for u in used:
            d[u] = rng.uniform(0, 1) if "u" in u.args[0].split("_")[0] else rng.uniform(-2, 2)
        return d
    ctx.equal_many(items, setup=st, trials=4 if ctx.quick else 8)
    cols = {}
    for p, rc in rowcol.items():
        ctx.check("%s: %s: one column of one hypercube" % (c.name, p), len({(a, j) for a, _, j in rc}) == 1, MAKE, "the values of %s do not come from one column of one latin hypercube" % p)
        cols.setdefault((rc[0][0], rc[0][2]), []).append(p)
    for k, ps in cols.items():
        ctx.check("%s: column %s" % (c.name, k), len(ps) == 1, MAKE, "%s share a column of the latin hypercube" % ps)
    if all(isinstance(x, N) and T.is_str(x) for x in index):
        ix = [x.args[0] for x in index]
        ctx.check("%s: indices differ" % c.name, len(set(ix)) == len(ix), MAKE, "indices %s are not unique" % ix)
        ctx.check("%s: indices have the prefix" % c.name, all(x.startswith(c.pre) for x in ix), MAKE, "indices %s lack the prefix %s" % (ix[:3], c.pre))
    else:
        ctx.undecided(c.name + ": indices", "not resolved: %s" % [sh(x) for x in index][:3])
    # no two configurations share a dictionary
    ids = [e.read_item(cf, S(s)) for cf in configs for s in want] + configs
    ctx.check("%s: dictionaries of their own" % c.name, len({str(x) for x in ids}) == len(ids), MAKE, "configurations share dictionaries: changing one changes another")
    for k, v in kw.items():
        dd = diff(before[k], snapshot(e, v))
        ctx.check("%s: caller's %s unchanged" % (c.name, k), not dd, CD + "::_ConfigDistro.__init__", "the caller's %s is changed: %s" % (k, dd[:3]))
    for g, v in glob.items():
        dd = diff(v, module_value(ctx, e, g))
        ctx.check("%s: %s unchanged" % (c.name, g), not dd, CD + "::_ConfigDistro", "the module's %s is changed: %s" % (g, dd[:3]))
    # files
    if c.file is not None:
        files = dict(e.fr.json)
        if any(not (isinstance(x, N) and T.is_str(x)) or x.args[0] not in files for x in e.fr.opened):
            ctx.undecided(c.name + ": files", "content of a file written not resolved")
            return
        got = []
        K = ctx.anchor(e, DR_MOD, "DistributionRun")
        for path in sorted(files):
            dr = e.construct(K, [NONE], dict(json_file_name=S(path)), None)
            el = names(e, e.getattr(dr, "cfgs", None))
            if el is None:
                ctx.undecided(c.name + ": " + path, "configurations read back not resolved")
                return
            got.append([snapshot(e, x) for x in el])
            mi = e.getattr(dr, "meta_info", None)
            if c.meta:
                ctx.check("%s: %s meta information" % (c.name, path), snapshot(e, mi) == snapshot(e, args["meta_info"]), MAKE, "the meta information written to %s does not come back" % path)
            else:
                ctx.check("%s: %s meta information" % (c.name, path), mi is NONE, MAKE, "meta information %s of %s" % (sh(e.freeze(mi)), path))
        need = [[snapshot(e, x) for x in ch] for ch in chunks]
        ctx.check("%s: files" % c.name, sorted(map(str, got)) == sorted(map(str, need)), MAKE, "files %s hold %s configurations; %s were made" % (sorted(files), [len(x) for x in got], [len(x) for x in need]))
    else:
        ctx.check("%s: no file written" % c.name, not e.fr.json, MAKE, "files %s are written" % sorted(e.fr.json))


def distrun(ctx):
    R = DR + "::DistributionRun"
    for meta in (False, True):
        for again in (None, True):
            tag = "from %s file%s" % ("a meta information" if meta else "a list", ", other meta information written" if again else "")
            e = ctx.engine()
            e.fr.on = True
            K = ctx.anchor(e, DR_MOD, "DistributionRun")
            cfgs = e.new_list([e.new_dict([(S("Index"), S("x%d" % i)), (S("pamset_udm"), e.new_dict([(S("k"), sym("k%d" % i))]))]) for i in range(3)])
            mi = e.new_dict([(S("a"), sym("a"))])
            e.fr.json["in.json"] = e.new_dict([(S("configurations"), cfgs), (S("meta_info"), mi)]) if meta else cfgs
            dr = e.construct(K, [NONE], dict(json_file_name=S("in.json")), None)
            ctx.check(tag + ": configurations", snapshot(e, e.getattr(dr, "cfgs", None)) == snapshot(e, cfgs), R + ".__init__", "the configurations of the file do not come back")
            new = e.new_dict([(S("b"), sym("b"))])
            callm(e, dr, "write_configs_to_json", S("out.json"), *([new] if again else []))
            if "out.json" not in e.fr.json and e.fr.opened:
                ctx.undecided(tag + ": written", "content of the file not resolved")
                continue
            if "out.json" not in e.fr.json:
                ctx.check(tag + ": written", False, R + ".write_configs_to_json", "no file is written")
                continue
            d2 = e.construct(K, [NONE], dict(json_file_name=S("out.json")), None)
            ctx.check(tag + ": written and read again", snapshot(e, e.getattr(d2, "cfgs", None)) == snapshot(e, cfgs), R + ".write_configs_to_json", "the configurations written do not come back")
            m2 = snapshot(e, e.getattr(d2, "meta_info", None))
            ctx.check(tag + ": meta information again", m2 == snapshot(e, new if again else mi if meta else NONE), R + ".write_configs_to_json", "the meta information does not come back")
            sc = e.new_dict([(S("scenname"), S("s"))])
            for form, arg, want in (("list", e.new_list([sc]), [sc]), ("dict", sc, [sc])):
                log = []

                def hook(eng, f, args, kw, node):
                    log.append(bindall(f, args, kw))
                    return NONE
                e.hooks["run_ciceroscm_parallel"] = hook
                vs = e.new_list([S("v")])
                callm(e, dr, "run_over_distribution", arg, vs, num(7))
                ok = len(log) == 1 and len(log[0]) == 4 and names(e, log[0][0]) == want and snapshot(e, log[0][1]) == snapshot(e, cfgs) and names(e, log[0][2]) == [S("v")] and log[0][3] is num(7)
                ctx.check("%s: run over a %s" % (tag, form), ok, R + ".run_over_distribution", "the run does not get the scenarios, configurations, variables and workers asked for")
    # from a distribution
    for n, pre in ((3, "pp"), (2, "")):
        e = ctx.engine()
        e.fr.on = True
        C = ctx.anchor(e, CD_MOD, "_ConfigDistro")
        d = e.construct(C, [], dict(distro_dict=e.new_dict([(S("W"), e.new_list([sym("lo"), sym("hi")]))])), None)
        e.fr.missing.add("nope.json")
        dr = e.construct(ctx.anchor(e, DR_MOD, "DistributionRun"), [d], dict(json_file_name=S("nope.json"), indexer_pre=S(pre), numvalues=num(n)), None)
        el = names(e, e.getattr(dr, "cfgs", None))
        if el is None:
            ctx.undecided("from a distribution", "configurations not resolved")
            continue
        ctx.check("from a distribution of %d" % n, len(el) == n, R + ".__init__", "%d configurations for %d asked for" % (len(el), n))
        ix = [e.read_item(x, S("Index")) for x in el]
        ctx.check("from a distribution of %d: prefix" % n, all(T.is_str(x) and x.args[0].startswith(pre) for x in ix) and len(set(ix)) == n, R + ".__init__", "indices %s" % [sh(x) for x in ix])


def bindall(f, args, kw):
    a = f.node.args
    nm = [x.arg for x in a.posonlyargs + a.args]
    out = list(args)
    for n in nm[len(out):]:
        if n in kw:
            out.append(kw[n])
        else:
            break
    return out
