"""Reference tanks, formulated on the temperature profile (line offset / stored energy) rather than on displaced gallons."""
from . import strat
from .data import RHO_CP


class Strat:
    """Profile T(x) = clamp(slope*x + b, cold, hot), x in percent of height from the bottom."""

    def __init__(self, vol, slope=2.8):
        self.vol, self.slope = vol, slope
        self.b, self.cold, self.hot = 0.0, 50.0, 140.0

    def init(self, hot, cold, usable):
        self.cold, self.hot = cold, hot
        self.b = cold - self.slope * (1.0 - usable) * 100.0

    def t(self, f):
        return max(self.cold, min(self.hot, self.slope * 100.0 * f + self.b))

    def usable(self, supply):
        x = strat.clampv((supply - self.b) / self.slope, 0.0, 100.0)
        return self.vol * (100.0 - x) / 100.0

    def avg(self, gal):
        return strat.avg_draw(gal, self.vol, self.slope, self.b, self.cold, self.hot)

    def energy(self):
        """Btu above the current cold temperature."""
        return (strat.integral(0.0, 100.0, self.slope, self.b, self.cold, self.hot) / 100.0 - self.cold) * self.vol * RHO_CP

    def shift(self, gal):
        self.b += self.slope * 100.0 * gal / self.vol

    def heat(self, kbtuh, minutes, outlet):
        self.hot = outlet
        if kbtuh <= 0 or outlet <= self.cold:
            return
        self.shift(kbtuh * minutes / 60.0 * 1000.0 / (RHO_CP * (outlet - self.cold)))
        self.b = min(self.b, outlet)

    def floor(self, t):
        self.b = max(self.b, t - self.slope * 100.0)

    def draw(self, v, cold, supply, outlet):
        self.cold, self.hot = cold, outlet
        if outlet <= cold or v <= 0:
            return
        phys = v * (supply - cold) / (outlet - cold)
        if phys < self.vol and self.avg(phys) < outlet - 1e-6:
            lo, hi = phys, self.vol
            for _ in range(80):
                mid = 0.5 * (lo + hi)
                if mid * (self.avg(mid) - cold) / (supply - cold) < v:
                    lo = mid
                else:
                    hi = mid
            phys = 0.5 * (lo + hi)
        elif phys >= self.vol and self.avg(phys) < outlet - 1e-6:
            phys = self.vol
        self.shift(-phys)
        self.floor(supply)

    def draw_physical(self, gal, cold, supply=None):
        self.cold = cold
        if gal > 0:
            self.shift(-gal)
            self.floor(supply if supply is not None else cold)

    def recirc(self, gpm, ret, minutes, supply=None):
        if self.hot <= self.cold:
            return
        s = supply if supply is not None else self.hot
        self.shift(-gpm * minutes * (s - ret) / (self.hot - self.cold))


class Mixed:
    def __init__(self, vol):
        self.vol, self.temp = vol, 0.0

    def init(self, hot, cold, usable):
        self.temp = hot

    def t(self, f):
        return self.temp

    def usable(self, supply):
        return self.vol if self.temp >= supply else 0.0

    def replace(self, gal, t):
        if gal > 0:
            w = min(1.0, gal / self.vol)
            self.temp = t if w >= 1.0 else self.temp + w * (t - self.temp)

    def draw(self, v, cold, supply, outlet):
        if self.temp > cold and v > 0:
            self.replace(v * (supply - cold) / max(self.temp - cold, 1e-6), cold)

    def heat(self, kbtuh, minutes, outlet):
        if kbtuh > 0:
            self.temp += kbtuh * minutes / 60.0 * 1000.0 / (self.vol * RHO_CP)

    def loss(self, kbtuh, minutes):
        if kbtuh > 0 and minutes > 0:
            self.temp -= kbtuh * minutes / 60.0 * 1000.0 / (self.vol * RHO_CP)

    def recirc(self, gpm, ret, minutes, supply=None):
        self.temp += min(gpm * minutes, self.vol) * (ret - self.temp) / self.vol


class Energy:
    """Energy E above cold in the zone above cold_pct; the profile is the clamped line holding exactly E."""

    def __init__(self, vol, cold, hot, slope=2.8, cold_pct=0.0):
        self.vol, self.cold, self.hot, self.slope, self.cold_pct = vol, cold, hot, slope, cold_pct
        self.E = 0.0

    def emax(self):
        return (1.0 - self.cold_pct / 100.0) * self.vol * RHO_CP * (self.hot - self.cold)

    def e_of(self, s):
        b = self.cold + self.slope * s
        i = strat.integral(self.cold_pct, 100.0, self.slope, b, self.cold, self.hot)
        return RHO_CP * self.vol / 100.0 * (i - self.cold * (100.0 - self.cold_pct))

    def shift(self, E=None):
        d = self.hot - self.cold
        if d <= 0:
            return 0.0
        E = self.E if E is None else E
        top = d / self.slope
        if E <= 0:
            return -100.0
        if E >= self.emax():
            return top - 0.0
        lo, hi = -100.0, top - 0.0
        for _ in range(70):
            m = 0.5 * (lo + hi)
            if self.e_of(m) < E:
                lo = m
            else:
                hi = m
        return 0.5 * (lo + hi)

    def init(self, hot, cold, usable):
        self.cold, self.hot = cold, hot
        self.E = self.e_of((usable - 1.0) * 100.0)

    def t(self, f, E=None):
        x = 100.0 * f
        if x < self.cold_pct:
            return self.cold
        return max(self.cold, min(self.hot, self.slope * (x + self.shift(E)) + self.cold))

    def usable(self, supply, E=None):
        x = strat.clampv((supply - self.cold) / self.slope - self.shift(E), 0.0, 100.0)
        return (100.0 - x) / 100.0 * self.vol

    def zone_avg(self, lo, hi, E=None):
        if hi <= lo:
            return self.cold
        return strat.integral(lo, hi, self.slope, self.cold + self.slope * self.shift(E), self.cold, self.hot) / (hi - lo)

    def avg(self, gal, E=None):
        gal = min(gal, self.vol)
        if gal <= 0:
            return self.hot
        return self.zone_avg(max(0.0, 100.0 - gal / self.vol * 100.0), 100.0, E)

    def add(self, btu):
        if btu > 0:
            self.E = min(self.E + btu, self.emax())

    def heat(self, kbtuh, minutes, outlet):
        if kbtuh > 0 and outlet > self.cold:
            self.add(kbtuh * 1000.0 * minutes / 60.0)

    def take(self, btu):
        self.E = max(0.0, self.E - btu)

    def draw(self, v, cold, supply, outlet):
        self.cold = cold
        if v > 0 and supply > cold:
            self.take(v * RHO_CP * (supply - cold))

    def recirc(self, gpm, ret, minutes, supply=None):
        s = supply if supply is not None else self.hot
        self.take(gpm * minutes * RHO_CP * (s - ret))

    def draw_physical(self, gal, inlet, supply=None, keep_cold=False):
        if not keep_cold:
            self.cold = inlet
        if gal > 0:
            self.take(gal * RHO_CP * max(0.0, self.avg(gal) - inlet))


class Slug(Energy):
    """Energy tank with a fully mixed slug at the bottom of the usable zone while heating."""

    def __init__(self, vol, cold, hot, supply, usable_fract=1.0, slope=2.8):
        super().__init__(vol, cold, hot, slope, (1.0 - usable_fract) * 100.0)
        self.supply, self.uf = supply, usable_fract
        self.umax = usable_fract * vol
        self.active, self.sv, self.st, self.sv0, self.full = False, 0.0, cold, 0.0, False

    def init(self, hot, cold, usable):
        self.cold, self.hot = cold, hot
        self.active, self.sv, self.st, self.full = False, 0.0, cold, False
        if hot - cold <= 0 or usable <= 0:
            self.E = 0.0
            return
        s = (self.supply - cold) / self.slope - (1.0 - usable) * 100.0
        self.E = max(0.0, min(self.e_of(s), self.emax()))

    @property
    def top(self):
        return 100.0 if self.full else self.cold_pct + self.sv / self.vol * 100.0

    def activate(self, supply):
        if self.active:
            return
        x = strat.clampv((supply - self.cold) / self.slope - self.shift(), self.cold_pct, 100.0)
        self.sv = (x - self.cold_pct) / 100.0 * self.vol
        self.st = self.zone_avg(self.cold_pct, x) if self.sv > 0 else self.cold
        self.sv0, self.active, self.full = self.sv, True, False

    def grow(self, gal, t):
        if not self.active or gal <= 0:
            return
        if self.sv <= 0:
            self.sv, self.st = gal, t
        else:
            self.st = (self.sv * self.st + gal * t) / (self.sv + gal)
            self.sv += gal
        self.full = False

    def heat_slug(self, kbtuh, minutes):
        if self.active and self.sv > 0 and kbtuh > 0:
            self.st += kbtuh * 1000.0 * minutes / 60.0 / (self.sv * RHO_CP)

    def deactivate(self):
        if not self.active:
            return
        e = max(0.0, self.sv * RHO_CP * (self.st - self.cold))
        if self.top < 100.0:
            above = max(0.0, self.umax - self.sv)
            g = (self.sv - self.sv0) / self.vol * 100.0
            hi = 100.0 - g
            lo = hi - (100.0 - self.top)
            e += max(0.0, above * RHO_CP * (self.zone_avg(lo, hi) - self.cold))
        self.E = e
        self.active, self.sv, self.sv0, self.st, self.full = False, 0.0, 0.0, self.cold, False

    def avg(self, gal, E=None):
        if not self.active:
            return super().avg(gal, E)
        pct = min(gal / self.vol * 100.0, 100.0)
        low, g = 100.0 - pct, (self.sv - self.sv0) / self.vol * 100.0
        cut, bot = max(low, self.top), max(low, self.cold_pct)
        a, b = 100.0 - cut, max(0.0, min(self.top, 100.0) - bot)
        tot = b * self.st + (pct - a - b) * self.cold
        return (tot + (a * self.zone_avg(cut - g, 100.0 - g, E) if a > 0 else 0.0)) / pct

    def t(self, f, E=None):
        if not self.active:
            return super().t(f, E)
        x = 100.0 * f
        if x < self.cold_pct:
            return self.cold
        if x <= self.top:
            return max(self.cold, min(self.hot, self.st))
        return super().t(f - (self.sv - self.sv0) / self.vol, E)

    def usable(self, supply, E=None):
        if not self.active:
            return min(super().usable(supply, E), self.vol * self.uf)
        return self.umax - self.sv + (self.sv if self.st >= supply else 0.0)

    def draw_physical(self, gal, inlet, supply=None, keep_cold=False):
        if not self.active:
            return super().draw_physical(gal, inlet, supply, keep_cold)
        have = max(0.0, self.umax - self.sv)
        if have < gal:
            self.sv -= gal - have
        self.grow(gal, inlet)
        if have < gal:
            self.sv, self.full = self.umax, True
