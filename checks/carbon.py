"""Abstract set-ups of the carbon-cycle models + oracles."""
import math
from sa.world import *  # noqa
from sa.world import T, I
from checks.thermal import outputs, arr_at

DEF_MOD = "carbon_cycle.carbon_cycle_mod"
BOX_MOD = "carbon_cycle.carbon_cycle_mod_box"
DEF_FILE = "src/ciceroscm/carbon_cycle/carbon_cycle_mod.py"
BOX_FILE = "src/ciceroscm/carbon_cycle/carbon_cycle_mod_box.py"
RF_FILE = "src/ciceroscm/carbon_cycle/rfuns.py"
Y0 = sym("Y0", "int")
DEF_RANGE = dict(beta_f=(.1, .6), mixed_carbon=(30, 150), ml_w_sigmoid=(1, 6), ml_fracmax=(.1, .7), ml_t_half=(.1, 3),
                 t_half=(.1, 2), w_sigmoid=(2, 9), t_threshold=(1, 6), w_threshold=(2, 9), solubility_sens=(.005, .3),
                 solubility_limit=(.1, .8), ml_depth_min=(5, 60), preindustrial_co2_conc=(250, 300))
BOX_RANGE = dict(beta_f=(.1, 20), land_temp_sensitivity=(.01, 3), soil_respiration_rate=(.005, .04),
                 ocean_mixed_layer_depth=(20, 100), ocean_exchange_rate=(.005, .05), vegetation_to_soil_fraction=(.02, .2),
                 ocean_solubility_base=(.005, .05), ocean_solubility_temp_coeff=(-.05, .05))
A_OC = 3.62e14
KG = 1.0 / (A_OC * 9.06)
PPM2PG = 2.123


def build(ctx, mod, idtm, ny, extra=None, e=None, cls="CarbonCycleModel", carbon=True, fixed=None):
    e = e or ctx.engine()
    C = ctx.anchor(e, mod, cls)
    keys, _ = class_dict(e, C, "carbon_cycle_model_required_pamset")
    emi = pam_dict(e, ["idtm", "nystart", "nyend"], fixed=dict(idtm=num(idtm), nystart=Y0, nyend=add(Y0, num(ny - 1))))
    pc = pam_dict(e, keys, prefix="c_", fixed=fixed)
    for k, v in (extra or {}).items():
        e.store_item(pc, string(k), v)
    m = e.construct(C, [emi, pc] if carbon else [emi], {}, None)
    return e, m, keys


def feed(e, y, prefix="dT"):
    return e.new_dict([(string("dtemp"), sym("%s%d" % (prefix, y)))])


def steps(e, m, ny, em="em", dT="dT"):
    return [callm(e, m, "co2em2conc", add(Y0, num(y)), sym("%s%d" % (em, y)), feed(e, y, dT)) for y in range(ny)]


def setup(ranges, ny, big=False, dTr=(-1, 6)):
    def st(rng):
        d = {sym("c_" + k): rng.uniform(*r) for k, r in sorted(ranges.items())}
        sc = rng.choice([1.0, 30.0, 3000.0]) if big else 1.0
        for y in range(ny):
            d[sym("em%d" % y)] = rng.choice([rng.uniform(.2, 3), rng.uniform(.2, 3), rng.uniform(-2, -.2)]) * sc
            d[sym("dT%d" % y)] = rng.uniform(*dTr)
        d[Y0] = rng.randrange(1700, 2000)
        return d
    return st


def rs_default(t):
    e = math.exp
    if t < 2.0:
        return 0.12935 + 0.21898 * e(-t / 0.034569) + 0.17003 * e(-t / 0.26936) + 0.24071 * e(-t / 0.96083) + 0.24093 * e(-t / 4.9792)
    return (0.022936 + 0.24278 * e(-t / 1.2679) + 0.13963 * e(-t / 5.2528) + 0.089318 * e(-t / 18.601)
            + 0.03782 * e(-t / 68.736) + 0.035549 * e(-t / 232.3))


def rb_default(t):
    e = math.exp
    return 0.70211 * e(-0.35 * t) + 0.0134141 * e(-t / 20) - 0.71846 * e(-55 * t / 120) + 0.0029323 * e(-t / 100)


def pco2(z):
    zm = 293.5
    co = (1.3021, 3.7929e-3, 9.1193e-6, 1.488e-8, 1.2425e-10)

    def P(x):
        return sum(c * x ** (i + 1) for i, c in enumerate(co))
    if z <= zm:
        return P(z)
    slope = sum((i + 1) * c * zm ** i for i, c in enumerate(co))
    return P(zm) + slope * zm * math.log(z / zm)


def sig(x):
    return 1.0 / (1.0 + math.exp(-x))


def npp(p, dT):
    def s(x):
        return sig((x - p["t_half"]) / p["w_sigmoid"]) * (1 - sig((x - p["t_threshold"]) / p["w_threshold"]))
    return 60.0 * s(dT) / s(0.0)


def solub(p, dT):
    return min(max(math.exp(-p["solubility_sens"] * dT), 0.0), 1 + p["solubility_limit"])


def mldepth(p, dT):
    def m(x):
        return 1 - p["ml_fracmax"] * sig((x - p["ml_t_half"]) / p["ml_w_sigmoid"])
    return max(p["mixed_carbon"] * m(dT) / m(0.0), p["ml_depth_min"])


class DefRef:
    """pulse-response carbon cycle, integrated sub-step by sub-step"""

    def __init__(self, p, idtm, rs=rs_default, rb=rb_default):
        self.p, self.idtm = p, idtm
        self.rs, self.rb = rs, rb
        self.s, self.d, self.em = [], [], []
        self.y = 0.0
        self.x = p["preindustrial_co2_conc"]
        self.sums = self.first = 0.0
        self.bio, self.oc = [], []

    def year(self, em, dT):
        p, n = self.p, self.idtm
        dt = 1.0 / n
        f, sol, dep = npp(p, dT), solub(p, dT), mldepth(p, dT)
        bio = oc = 0.0
        for _ in range(n):
            it = len(self.s)
            d = f * p["beta_f"] * math.log(self.x / p["preindustrial_co2_conc"]) if it else 0.0
            self.d.append(d)
            resp = dt * sum(self.d[j] * self.rb((it - 1 - j) * dt) for j in range(1, it))
            up = d - resp
            net = (em - up) / PPM2PG
            ak = A_OC * KG
            if it == 0:
                self.first = 0.5 * net / ak
                drive = 2 * self.first
            else:
                self.sums += self.em[-1] / ak - self.s[-1]
                drive = self.sums + self.first + 0.5 * net / ak - self.y / (dt * ak)
            s = dt * ak / (1 + dt * ak / 2) * drive
            self.s.append(s)
            self.em.append(net)
            z = 1.722e17 * KG * dt / dep * (sum(self.s[j] * self.rs((it - 1 - j) * dt) for j in range(0, it - 1)) + 0.5 * s)
            yn = sol * pco2(z)
            self.x = s + 0.5 * (yn + self.y) + p["preindustrial_co2_conc"]
            self.y = yn
            bio += up / n
            oc += s * PPM2PG * ak / n
        self.bio.append(bio)
        self.oc.append(oc)
        return self.x


class BoxRef:
    def __init__(self, p):
        self.p = p
        self.atm, self.veg, self.soil, self.ml, self.deep = 278.0, 600.0, 3000.0, 0.0, 0.0

    def year(self, em, dT):
        p = self.p
        n = max(0.0, 60.0 + p["beta_f"] * math.log(self.atm / 278.0) - p["land_temp_sensitivity"] * dT)
        up = p["ocean_solubility_base"] * (1 + p["ocean_solubility_temp_coeff"] * dT) * (self.atm - 278.0)
        lit, resp = self.veg * p["vegetation_to_soil_fraction"], self.soil * p["soil_respiration_rate"]
        dn = (self.ml - self.deep) * p["ocean_exchange_rate"]
        self.veg += n - lit
        self.soil += lit - resp
        self.ml += up - dn
        self.deep += dn
        self.atm += (em - up + resp - n) / PPM2PG
        return self.atm
