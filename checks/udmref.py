"""Oracle: implicit finite-volume upwelling-diffusion step, written from the model description
(Schlesinger & Jiang / Siegenthaler-type hemispheric energy balance), not from the analysed code."""
YEAR = 86400 * 365.0
C1 = 1.03 * 0.955 * 0.485 * 100.0 * 86400


def solve(A, d):
    n = len(d)
    A = [r[:] for r in A]
    d = d[:]
    for i in range(n):
        for j in range(i + 1, min(n, i + 2)):
            w = A[j][i] / A[i][i]
            if w:
                for k in range(i, min(n, i + 3)):
                    A[j][k] -= w * A[i][k]
                d[j] -= w * d[i]
    x = [0.0] * n
    for i in range(n - 1, -1, -1):
        x[i] = (d[i] - sum(A[i][k] * x[k] for k in range(i + 1, min(n, i + 3)))) / A[i][i]
    return x


class Ref:
    def __init__(self, p, lm, ld):
        self.p, self.lm, self.ld = p, lm, ld
        self.dz = [p["mixed"]] + [100.0] * (lm - 1)
        self.T = {"n": [0.0] * lm, "s": [0.0] * lm}
        self.prev = {"n": 0.0, "s": 0.0}

    def step(self, f, volc, lam):
        p, lm, ld, dz = self.p, self.lm, self.ld, self.dz
        dt = YEAR / ld
        fo = {"n": p["foan"], "s": p["foas"]}
        oth = {"n": "s", "s": "n"}
        ex = {"n": p["beto"], "s": p["beto"] * p["foan"] / p["foas"]}
        blm = p["ebbeta"] / p["rlamdo"]
        gam = {h: fo[h] + lam / p["rlamdo"] + blm for h in "ns"}
        det = gam["n"] * gam["s"] - blm ** 2
        cond = {h: lam + fo[h] * p["rlamdo"] + p["ebbeta"] for h in "ns"}
        kap = 1e-4 * p["akapa"]
        start = {h: self.T[h][:] for h in "ns"}
        acc = {k + h: 0.0 for k in ("t", "a", "s") for h in "ns"}
        surf = {"n": 0.0, "s": 0.0}
        for im in range(ld):
            frac = (im + 1.0) / ld
            q = {h: frac * f[h] + (1 - frac) * self.prev[h] + volc[h][im % len(volc[h])] for h in "ns"}
            new = {}
            for h in "ns":
                o = oth[h]
                T, To = self.T[h], self.T[o]
                w = p["W"] / YEAR * dt
                if p["threstemp"] != 0:
                    w *= 1 - 0.3 * surf[h] / p["threstemp"]
                A = [[0.0] * lm for _ in range(lm)]
                d = [T[i] + ex[h] * dt / (C1 * dz[i]) * (To[i] - T[i]) for i in range(lm)]
                for i in range(lm):
                    A[i][i] += 1.0
                # diffusion between layer centres (mixed layer is well mixed: distance is half the layer below)
                for i in range(lm - 1):
                    dist = 0.5 * (dz[i] + dz[i + 1]) if i else 0.5 * dz[1]
                    g = kap * dt / dist
                    top = p["ocean_efficacy"] if i == 0 else 1.0
                    A[i][i] += top * g / dz[i]
                    A[i][i + 1] -= top * g / dz[i]
                    A[i + 1][i + 1] += g / dz[i + 1]
                    A[i + 1][i] -= g / dz[i + 1]
                # upwelling: upward flux w through each interface; it carries the temperature of the
                # layer below, except into the mixed layer, where the water has mixed-layer temperature
                for i in range(1, lm):
                    src = 0 if i == 1 else i
                    A[i - 1][src] -= w / dz[i - 1]
                    A[i][src] += w / dz[i]
                # polar sinking carries mixed-layer anomaly to the bottom (explicit)
                d[0] -= p["cpi"] * w / dz[0] * T[0]
                d[lm - 1] += p["cpi"] * w / dz[lm - 1] * T[0]
                # air-sea flux, implicit in own surface, explicit in the other hemisphere's
                A[0][0] += p["rlamdo"] * (1 - fo[h] * gam[o] / det) * dt / (C1 * dz[0])
                c = dt / (C1 * dz[0])
                d[0] += c * (fo[o] * p["ebbeta"] / det * To[0] + gam[o] / det * q[h] + blm / det * q[o])
                new[h] = (A, d)
            self.T = {h: solve(*new[h]) for h in "ns"}
            surf = {h: self.T[h][0] for h in "ns"}
            drive = {h: q[h] + fo[h] * p["rlamdo"] * surf[h] for h in "ns"}
            for h in "ns":
                o = oth[h]
                air = (drive[h] * cond[o] + p["ebbeta"] * drive[o]) / (cond[h] * cond[o] - p["ebbeta"] ** 2)
                acc["a" + h] += air / ld
                acc["s" + h] += surf[h] / ld
                acc["t" + h] += (fo[h] * surf[h] + (1 - fo[h]) * air) / ld
        self.prev = dict(f)
        up = sum(1000 * 4184 * dz[i] * (fo["n"] * (self.T["n"][i] - start["n"][i]) + fo["s"] * (self.T["s"][i] - start["s"][i]))
                 for i in range(1, lm)) / YEAR
        anom = (p["ocean_efficacy"] - 1.0) * up
        rib = {h: f[h] + sum(volc[h]) / len(volc[h]) - lam * acc["t" + h] - anom for h in "ns"}
        return dict(dtempnh=acc["tn"], dtempsh=acc["ts"], dtemp=(acc["tn"] + acc["ts"]) / 2,
                    dtempnh_air=acc["an"], dtempsh_air=acc["as"], dtemp_air=(acc["an"] + acc["as"]) / 2,
                    dtempnh_sea=acc["sn"], dtempsh_sea=acc["ss"], dtemp_sea=(acc["sn"] + acc["ss"]) / 2,
                    RIBN=rib["n"], RIBS=rib["s"], RIB=(rib["n"] + rib["s"]) / 2, anomalous_radiation=anom,
                    tn=self.T["n"], ts=self.T["s"])
