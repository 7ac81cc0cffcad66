"""Reference performance maps: published coefficients (golden) and lab-data interpolators (data files of the tree), with the documented
handling outside the map.  Integrity of the data files is watched separately by golden samples."""
import functools
import math
import os
import pickle

from .. import core
from . import data

KW = data.KBTUH_PER_KW


@functools.lru_cache(None)
def _lab(prefix):
    d = os.path.join(core.DATA, "preformanceMaps", "pkls")
    o = []
    for n in ("capacity_interpolator", "power_in_interpolator", "bounds"):
        with open(os.path.join(d, f"{prefix}_{n}.pkl"), "rb") as f:
            o.append(pickle.load(f))
    return o


def dims(prefix):
    return _lab(prefix)[0].points.shape[1]


class Model:
    def __init__(self, name, units=1, design_inlet=50.0, nominal=None):
        self.e = data.maps()[name]
        self.name, self.units, self.di, self.nominal = name, units, design_inlet, nominal
        self.lab = "pkl_prefix" in self.e

    # ---- lab data
    def _lab_point(self, inlet, outlet, oat):
        cap, pwr, _ = _lab(self.e["pkl_prefix"])
        x = [[inlet, oat]] if cap.points.shape[1] == 2 else [[inlet, outlet, oat]]
        a, b = float(cap(x)[0][0]), float(pwr(x)[0][0])
        return None if math.isnan(a) or math.isnan(b) else (a, b)

    def _lab_query(self, oat, outlet, inlet):
        b = _lab(self.e["pkl_prefix"])[2]
        oats, table, (_, in_max), high, low = b[0], b[1], b[2], b[3], b[4]
        if self.e.get("secondary_heat_exchanger"):
            dx = float(self.e.get("hx_increase", 0.0))
            inlet, outlet = inlet + dx, outlet + dx
        inlet = min(inlet, in_max)
        er = self.nominal / self.units / KW if self.nominal is not None else low[0]
        if oat >= oats[-1]:
            return "high", (high[0], high[1])
        p = self._lab_point(inlet, outlet, oat)
        if p is not None:
            return "map", p
        if oat < oats[0]:
            return "resistance", (er, er)
        # inside the outdoor range but off the tested water temperatures: nearest tested point
        k = min(range(len(oats)), key=lambda i: abs(oats[i] - oat))
        warmer = [(t, outs) for t, outs in table[k] if t >= inlet]
        last = table[k][-1]
        t_in, outs = last
        if warmer:
            near = min(warmer, key=lambda e: e[0] - inlet)
            if near[0] - inlet < abs(last[0] - inlet):
                t_in, outs = near
        p = self._lab_point(t_in, outlet, oats[k])
        if p is not None:
            return "snap", p
        o = min(outs, key=lambda v: abs(v - outlet))
        p = self._lab_point(t_in, o, oats[k])
        if p is not None:
            if o < outlet and outlet > t_in:
                extra = p[0] * (outlet - o) / (outlet - t_in)
                p = (p[0] + extra, p[1] + extra)
                return "snap-adjust", p
            return "snap-outlet", p
        return "assumed", (er, er / 1.5)

    # ---- published coefficients
    def _coef_query(self, oat, outlet, inlet):
        pm = self.e["perfmap"]
        if len(pm) > 1:
            q = lambda c, x: c[0] + c[1] * x + c[2] * x ** 2
            if oat < pm[0]["T_F"]:
                if self.nominal is not None:
                    er = self.nominal / self.units / KW
                else:
                    er = max(0.0, q(pm[0]["COP_coeffs"], self.di)) * q(pm[0]["inputPower_coeffs"], self.di) / 1000.0
                    er = max(0.0, er)
                return "resistance", (er, er)
            hi = next((i for i in range(1, len(pm)) if oat < pm[i]["T_F"]), len(pm) - 1)
            a, b = pm[hi - 1], pm[hi]
            w = (oat - a["T_F"]) / (b["T_F"] - a["T_F"])
            mix = lambda key: (1 - w) * q(a[key], inlet) + w * q(b[key], inlet)
            pw, cop = mix("inputPower_coeffs") / 1000.0, mix("COP_coeffs")
            return ("map" if oat < pm[-1]["T_F"] else "beyond"), (pw * cop, pw)
        c = pm[0]
        if self.name.endswith("MP"):
            v = (1, oat, inlet, oat ** 2, inlet ** 2, oat * inlet)
        else:
            v = (1, oat, outlet, inlet, oat ** 2, outlet ** 2, inlet ** 2, oat * outlet, oat * inlet, outlet * inlet, oat * outlet * inlet)
        pw = math.fsum(a * b for a, b in zip(c["inputPower_coeffs"], v))
        cop = math.fsum(a * b for a, b in zip(c["COP_coeffs"], v))
        return "poly", (pw * cop, pw)

    def query(self, oat, outlet, inlet=None):
        """-> (regime, capacity kBTU/h, power kW) of all units together"""
        inlet = self.di if inlet is None else inlet
        how, (o, p) = self._lab_query(oat, outlet, inlet) if self.lab else self._coef_query(oat, outlet, inlet)
        return how, o * KW * self.units, p * self.units

    def edges(self):
        """outdoor temperatures where the regime changes"""
        if self.lab:
            return list(map(float, _lab(self.e["pkl_prefix"])[2][0]))
        return [e["T_F"] for e in self.e["perfmap"] if "T_F" in e]
