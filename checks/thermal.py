"""Abstract set-ups of the two thermal models."""
from sa.world import *  # noqa
from sa.world import T, I

SEC_YEAR = 86400 * 365.0
UDM_MOD = "thermal_model.upwelling_diffusion_model"
TWO_MOD = "thermal_model.two_layer_ocean"
UDM_FILE = "src/ciceroscm/thermal_model/upwelling_diffusion_model.py"
TWO_FILE = "src/ciceroscm/thermal_model/two_layer_ocean.py"

UDM_RANGE = dict(rlamdo=(8, 25), akapa=(.1, 1.5), cpi=(.1, .6), W=(.5, 4), beto=(1, 10), threstemp=(3, 10),
                 mixed=(20, 400), foan=(.3, .9), foas=(.3, .9), ebbeta=(.05, .8), ocean_efficacy=(.6, 1.8),
                 delta_lambda_aero=(-.5, .5))
UDM_RANGE["lambda"] = (.3, 1.5)
TWO_RANGE = dict(mixed=(20, 1500), deep=(100, 3000), k=(.2, 1.5), ocean_efficacy=(.6, 1.8), foan=(.3, .9),
                 foas=(.3, .9), delta_lambda_aero=(-.5, .5))
TWO_RANGE["lambda"] = (.5, 3)


def psym(k, prefix="p_"):
    return sym(prefix + k)


def pam_setup(ranges, prefix="p_", fixed=None):
    fixed = fixed or {}

    def setup(rng):
        out = {}
        for k, (lo, hi) in sorted(ranges.items()):
            out[psym(k, prefix)] = fixed[k] if k in fixed else rng.uniform(lo, hi)
        return out
    return setup


class TwoLayer:
    """one two-layer model with symbolic parameters and arbitrary state"""

    def __init__(self, ctx, nvolc=12, state=True, fresh=False):
        e = self.e = ctx.engine()
        C = self.C = ctx.anchor(e, TWO_MOD, "TwoLayerOceanModel")
        keys, _ = class_dict(e, C, "thermal_model_required_pamset")
        self.keys = keys
        self.pam = pam_dict(e, keys)
        self.m = e.construct(C, [self.pam], {}, None)
        self.state0 = {}
        self.nvolc = nvolc

    def step(self, fn, fs, vn, vs):
        return callm(self.e, self.m, "energy_budget", fn, fs, vn, vs)


def outputs(e, r):
    """{key: term or list-array} of a returned dict"""
    out = {}
    for k, _ in e.dict_keys(r):
        out[k.args[0]] = e.read_item(r, k)
    return out


def arr_at(e, v, i):
    a = e.as_arr(v)
    return subst(a.content, {IX[0]: i if isinstance(i, N) else num(i)})


class Udm:
    def __init__(self, ctx, lm=10, ldtime=2, fixed=None, nvolc=12, e=None, prefix="p_"):
        e = self.e = e or ctx.engine()
        C = self.C = ctx.anchor(e, UDM_MOD, "UpwellingDiffusionModel")
        keys, _ = class_dict(e, C, "thermal_model_required_pamset")
        self.keys = keys
        fx = dict(lm=num(lm), ldtime=num(ldtime))
        for k, v in (fixed or {}).items():
            fx[k] = v if isinstance(v, N) else num(v)
        self.pam = pam_dict(e, keys, prefix=prefix, fixed=fx)
        self.m = e.construct(C, [self.pam], {}, None)
        self.lm, self.ldtime = lm, ldtime
        self.nvolc = nvolc

    def havoc(self, tn="tn", ts="ts", pfn="prev_fn", pfs="prev_fs", pdt="prev_dtemp"):
        e, m = self.e, self.m
        for a, nme in (("tn", tn), ("ts", ts)):
            e.getattr(m, a, None)
            e.setattr(m, a, e.new_arr(item(sym(nme, "any"), IX[0]), [num(self.lm)]), None)
        pv = e.getattr(m, "prev_values", None)
        for k, nme in (("fn", pfn), ("fs", pfs), ("dtemp", pdt)):
            e.store_item(pv, string(k), sym(nme))

    def step(self, fn="fnh", fs="fsh", vn="fnv", vs="fsv"):
        r = callm(self.e, self.m, "energy_budget", sym(fn), sym(fs), vec(vn, self.nvolc), vec(vs, self.nvolc))
        return outputs(self.e, r)

    def layer(self, v, i):
        return arr_at(self.e, v, i)
