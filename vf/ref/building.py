"""Reference model of hot-water demand and climate, written from the documentation."""
from . import data

GPD = {"mens_dorm": 23.6, "womens_dorm": 19.6, "motel": 21.4, "nursing_home": 23.4, "office_building": 2.1,
       "food_service_a": 11.032, "food_service_b": 6.44, "apartment": 54.6, "elementary_school": 1.34,
       "junior_high": 3.75, "senior_high": 3.26}
TYPES = sorted(GPD) + ["multi_family"]
STANDARD = {"ashLow": 20, "ashMed": 49, "ecoMark": 25}


def percentile(values, q):
    v = sorted(values)
    pos = (len(v) - 1) * q / 100.0
    lo = int(pos)
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (v[hi] - v[lo]) * (pos - lo)


def ca_gpdpp(n_br):
    t = data.shapes()["multi_family"]["ca_gpdpp"]
    tot = [sum(n_br[i] * t[f"{i}br"][d] for i in range(6)) for d in range(365)]
    return round(percentile(tot, 98) / sum(n_br), 1), percentile(tot, 98) / sum(n_br)


class Demand:
    """daily use (gal at supply temperature) and the two hourly shapes."""

    def __init__(self, daily, peak, avg, btype="", annual=False):
        self.daily, self.peak, self.avg, self.btype = daily, list(peak), list(avg), btype
        if annual:
            self.peak = self.avg = data.shapes()["multi_family"]["loadshapes"]["Annual_Normalized"]

    def load(self, step, dt=1, use_avg=False):
        s = self.avg if use_avg else self.peak
        return self.daily * s[((step * dt) // 60) % len(s)] * dt / 60.0


def single(btype, magnitude, peak=None, avg=None, gpdpp=25, standard_gpd=None, n_br=None):
    if btype is None:
        total = sum(peak)
        daily = float(total) if magnitude is None else float(magnitude)
        if magnitude is None or abs(total - 1.0) > 1e-3:
            p = [x / total for x in peak]
        else:
            p = list(peak)
        a = [x / sum(avg) for x in avg] if avg is not None else list(p)
        return daily, p, a
    if btype == "multi_family":
        if standard_gpd == "ca":
            gpdpp = ca_gpdpp(n_br)[0]
        elif standard_gpd is not None:
            gpdpp = STANDARD[standard_gpd]
        daily = gpdpp * magnitude
    else:
        daily = GPD[btype] * magnitude
    ls = data.shapes()[btype]["loadshapes"]
    return daily, (list(peak) if peak is not None else ls["Stream"]), (list(avg) if avg is not None else ls.get("Stream_Avg", ls["Stream"]))


def multi(btypes, mags, peaks=None, avgs=None, **kw):
    n = len(btypes)
    parts = [single(b, m, (peaks or [None] * n)[i], (avgs or [None] * n)[i], **kw)
             for i, (b, m) in enumerate(zip(btypes, mags))]
    tot = sum(p[0] for p in parts)
    mix = lambda k: [sum(p[0] * p[k][h] for p in parts) / tot for h in range(24)]
    return tot, mix(1), mix(2)


class Climate:
    def __init__(self, zone=None, oat=None, inlet=None):
        self.zone, self.oat_c, self.inlet_c = zone, oat, inlet
        if zone is not None:
            c = data.climate()
            self.oat_h, self.inlet_m = c["oat"][zone - 1], c["inlet"][zone - 1]

    def oat(self, step, dt=1):
        return self.oat_h[((step * dt) // 60) % 8760] if self.zone is not None else self.oat_c

    def inlet(self, step, dt=1):
        return self.inlet_m[data.month_of_day((step * dt) // 1440)] if self.zone is not None else self.inlet_c

    @property
    def design_oat(self):
        return min(self.oat_h) if self.zone is not None else self.oat_c

    @property
    def design_inlet(self):
        return min(self.inlet_m) if self.zone is not None else self.inlet_c

    def buckets(self):
        out = {}
        for d in range(365):
            avg = sum(self.oat_h[24 * d:24 * d + 24]) / 24.0
            k = 5.0 * (avg // 5)
            out[k] = out.get(k, 0) + 1
        return out


def climate_for(spec):
    """spec as EcosizerEngine takes it: zone int, zip str/int, station str or design dict."""
    if isinstance(spec, dict):
        return Climate(oat=spec.get("design_oat_f"), inlet=spec.get("design_inlet_water_temp_f"))
    c = data.climate()
    if isinstance(spec, int) and spec <= 96:
        return Climate(spec)
    s = str(spec)
    if s.isdigit() and len(s) == 5:
        return Climate(dict(c["zip"])[s])
    return Climate(dict(c["station"])[s])
