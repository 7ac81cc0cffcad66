"""Reference sizing: the definitions of the documented method evaluated by brute force.

All temperatures F, volumes gal, rates gal/h at supply temperature, capacities kBTU/h."""
from statistics import NormalDist

from .data import KBTUH_PER_KW, RHO_CP
from .strat import usable_supply_gal_per_100

SWING_TABLE = [40, 50, 80, 100, 120, 160, 175, 240, 350, 400, 500, 600, 800, 1000, 1250]
SWING_TABLE_CA = [80, 96, 168, 288, 480]
DEADBAND = 8.0
LS_DIST = NormalDist(0.7052988591269841, 0.08236427664525116)
SLOPE = {"primary_no_recirc": 2.8, "parallel_loop": 2.8, "swing_tank": 2.8, "single_pass_rtp": 1.7, "multi_pass_rtp": 0.8}


class Undefined(Exception):
    """The documented method gives no answer for this input (e.g. no usable band): case is skipped."""


class Refused(Exception):
    """The documented method requires this input to be refused with ValueError."""


def ls_fraction(percent):
    return 1.0 if percent >= 1.0 else min(1.0, LS_DIST.inv_cdf(percent))


class Ctl:
    __slots__ = ("on_f", "on_t", "off_f", "off_t", "out_t")

    def __init__(self, on_f, on_t, off_f, off_t, out_t):
        self.on_f, self.on_t, self.off_f, self.off_t, self.out_t = on_f, on_t, off_f, off_t, out_t


class Plant:
    """What sizing needs to know about one installation."""

    def __init__(self, schematic, demand, inlet, supply, storage, run_hr=16.0, defrost=1.0, schedule=None, ctl=None,
                 slope=None, fract=1.0, ret_t=None, ret_gpm=None, tm_on=None, tm_off=None, tm_off_hr=0.5, tm_sf=1.75):
        self.schematic, self.demand, self.inlet = schematic, demand, inlet
        self.supply, self.storage, self.run_hr, self.defrost = supply, storage, run_hr, defrost
        self.schedule, self.ctl = schedule, ctl
        self.slope = slope if slope is not None else SLOPE.get(schematic)
        self.fract = fract
        self.ret_t, self.ret_gpm = ret_t, ret_gpm
        self.tm_on, self.tm_off, self.tm_off_hr, self.tm_sf = tm_on, tm_off, tm_off_hr, tm_sf

    # ---- common pieces -------------------------------------------------------
    @property
    def ls(self):
        return bool(self.ctl) and "shed" in self.ctl and bool(self.schedule)

    def recirc_kbtuh(self):
        return self.ret_gpm * 60.0 * RHO_CP * (self.supply - self.ret_t) / 1000.0

    def eff_run_hr(self):
        if self.ls and self.schematic != "multi_pass_rtp":
            return min(self.run_hr, float(sum(h != "shed" for h in self.schedule)))
        return self.run_hr

    def x100(self, f, t):
        return usable_supply_gal_per_100(f, t, self.slope, self.supply, self.storage, self.inlet)

    def strat_factor(self):
        if not self.ctl:
            return self.x100(0.0, self.supply) / 100.0
        c = self.ctl.get("normal")
        if c is not None:
            return self.x100(c.on_f, c.on_t) / 100.0
        return min(self.x100(c.on_f, c.on_t) for c in self.ctl.values()) / 100.0

    def band_fraction(self, f, t):
        """Share of the tank (1 = all at storage temperature) above supply temperature when the sensor sits at t."""
        on = 100.0 * f
        su = max(on, on + (self.supply - t) / self.slope)
        st = min(100.0, on + (self.storage - t) / self.slope)
        return ((100.0 - st) + 0.5 * (st - su)) / 100.0

    def shed_block(self):
        first = self.schedule.index("shed")
        end = first
        while end < 24 and self.schedule[end] == "shed":
            end += 1
        up = 0
        while first - up - 1 >= 0 and self.schedule[first - up - 1] == "loadUp":
            up += 1
        return first, end, up

    # ---- demand-only primary sizing -------------------------------------------
    def dhw_capacity(self, run_hr):
        return self.demand.daily / run_hr * RHO_CP * (self.supply - self.inlet) / self.defrost / 1000.0

    def shortfall(self, run_hr):
        """Largest net use (demand minus generation) over any stretch of the repeating design day."""
        d = self.demand
        net = [d.daily * d.peak[h] - d.daily / run_hr for h in range(24)]
        worst = 0.0
        for s in range(24):
            acc = 0.0
            for k in range(48 - s):
                acc += net[(s + k) % 24]
                if acc > worst:
                    worst = acc
        return worst

    def size(self):
        """dict(cap, vol[, tm_vol, tm_cap, tm_ca]) or raises Undefined/Refused."""
        s = self.schematic
        if s == "instant_wh":
            d = self.demand
            return {"cap": d.daily * max(d.peak) * RHO_CP * (self.supply - self.inlet) / self.defrost / 1000.0, "vol": 0.0}
        if s == "swing_tank":
            return self.size_swing()
        if s == "multi_pass_rtp":
            return self.size_mp()
        out = {}
        if s == "parallel_loop":
            out.update(self.size_parallel_tm())
        rh = self.eff_run_hr()
        rec = self.recirc_kbtuh() * 24.0 / rh / self.defrost if s == "single_pass_rtp" else 0.0
        sf = self.strat_factor()
        if sf <= 1e-6:
            raise Undefined("no usable volume at the on trigger")
        cap = self.dhw_capacity(rh) + rec
        vol = self.shortfall(rh) / sf
        if self.ls:
            daily = self.demand.daily
            if s == "single_pass_rtp":
                daily += self.recirc_kbtuh() * 1000.0 / (RHO_CP * (self.supply - self.inlet)) * 24.0
            gen = self.ls_gen(daily, daily / rh, rh, None)
            cap = max(cap, gen * RHO_CP * (self.supply - self.inlet) / self.defrost / 1000.0 + rec)
            vol = max(vol, self.ls_running(daily, gen) / self.ls_band())
        out.update(cap=cap, vol=vol)
        return out

    # ---- load shift --------------------------------------------------------------
    def ls_band(self):
        lu = self.ctl.get("loadUp", self.ctl["normal"])
        sh = self.ctl["shed"]
        band = (self.x100(lu.off_f, lu.off_t) - self.x100(sh.on_f, sh.on_t)) / 100.0
        if band <= 1e-3:
            raise Undefined("load-up and shed settings leave no band to shift")
        return band

    def ls_gen(self, daily, normal, rh, vols):
        first, end, up = self.shed_block()
        if up == 0:
            return normal
        if vols is None:
            a = self.demand.avg
            vols = (daily * sum(a[first:end]) * self.fract, daily * sum(a[first - up:first]))
        vshift, used = vols
        n = self.ctl["normal"]
        lu = self.ctl.get("loadUp", n)
        sh = self.ctl["shed"]
        bn, bl, bs = (self.band_fraction(c.on_f, c.on_t) for c in (n, lu, sh))
        if bl - bs <= 0:
            if bl - bs > -1e-9:
                raise Undefined("degenerate load-up band")
            return normal
        if bl - bs < 1e-6:
            raise Undefined("degenerate load-up band")
        return max(normal, (vshift * (bl - bn) / (bl - bs) + used) / up)

    def ls_running(self, daily, gen):
        first, end, up = self.shed_block()
        a = self.demand.avg
        acc = low = 0.0
        for k in range(end, 48):
            h = k % 24
            acc += (0.0 if self.schedule[h] == "shed" else gen) - daily * a[h]
            low = min(low, acc)
        return -low * self.fract + daily * sum(a[first:end]) * self.fract

    # ---- temperature maintenance -----------------------------------------------------
    def size_parallel_tm(self):
        if self.tm_sf <= 1.0 or not 0 < self.tm_off_hr <= 1.0 or self.tm_off <= self.tm_on:
            raise Refused("tm")
        run = self.tm_off_hr / (self.tm_sf - 1.0)
        if abs(run - 20.0 / 60.0) < 1e-9:
            raise Undefined("runtime exactly at the limit")
        if run <= 20.0 / 60.0:
            raise Refused("tm runtime")
        loss = self.recirc_kbtuh()
        return {"tm_vol": loss * 1000.0 * self.tm_off_hr / (RHO_CP * (self.tm_off - self.tm_on)), "tm_cap": self.tm_sf * loss}

    def size_swing_tm(self):
        loss = self.recirc_kbtuh()
        need = max(loss * 1000.0 / (100.0 * KBTUH_PER_KW), self.demand.daily * max(self.demand.peak) / 60.0)
        if any(abs(need - v) < 1e-6 for v in SWING_TABLE + SWING_TABLE_CA):
            raise Undefined("requirement exactly on a table row")
        fit = [v for v in SWING_TABLE if v >= need]
        if not fit:
            raise Refused("swing tank too small")
        ca = next((v for v in SWING_TABLE_CA if v >= need), 480) if fit[0] < 480 else 480
        return {"tm_vol": fit[0], "tm_ca": ca, "tm_cap": self.tm_sf * loss, "need": need}

    def swing_draws(self, minutes, tm_vol, tm_cap, feed=None):
        """Gallons leaving the primary tank each minute, the swing tank starting just above supply."""
        t = self.supply + 0.1
        out = [minutes[0]]
        heating = False
        loss = self.recirc_kbtuh() * 1000.0 / 60.0 / (RHO_CP * tm_vol)
        el = tm_cap * 1000.0 / 60.0 / (RHO_CP * tm_vol)
        top = self.supply + DEADBAND
        for g in minutes[1:]:
            q = g * (self.supply - self.inlet) / (t - self.inlet) if t > self.inlet else g
            out.append(q)
            if q > 0:
                if q >= tm_vol:
                    raise Refused("draw exceeds swing tank")
                t += (self.storage - t) * q / tm_vol
            t -= loss
            if heating:
                t += el
                if t > top:
                    t -= el * min((t - top) / el, 1.0)
                    heating = False
            elif t <= self.supply:
                t += el * min((self.supply - t) / el, 1.0)
                heating = True
            if t < self.supply - 1e-9:
                raise Refused("swing tank below supply")
        return out

    def size_swing(self):
        tm = self.size_swing_tm()
        rh = self.eff_run_hr()
        d = self.demand
        up = (self.storage - self.inlet) / (self.supply - self.inlet)
        vol, mix = self.swing_running(tm, rh)
        sf = self.strat_factor()
        if sf <= 1e-6:
            raise Undefined("no usable volume at the on trigger")
        cap_of = lambda gph: gph * RHO_CP * (self.storage - self.inlet) / self.defrost / 1000.0
        cap = cap_of(d.daily * mix / rh)
        vol = vol * up / sf
        if self.ls:
            first, end, lu = self.shed_block()
            draws = lambda hours: self.swing_draws([d.daily * d.avg[h % 24] / 60.0 for h in hours for _ in range(60)], tm["tm_vol"], tm["tm_cap"])
            vshift_raw = d.daily * sum(d.avg[first:end])
            vshift = sum(draws(range(first, end))) * self.fract if vshift_raw > 0 else 0.0
            raw_lu = d.daily * sum(d.avg[first - lu:first])
            used = sum(draws(range(first - lu, first))) if lu and raw_lu > 0 else raw_lu
            gen = self.ls_gen(d.daily, d.daily * mix / rh, rh, (vshift, used))
            cap = max(cap, cap_of(gen))
            acc = low = 0.0
            for i, q in enumerate(draws(range(end, end + 24))):
                h = (end + i // 60) % 24
                acc += (0.0 if self.schedule[h] == "shed" else gen) / 60.0 - q
                low = min(low, acc)
            vol = max(vol, (vshift - low) * up / self.ls_band())
        tm.update(cap=cap, vol=vol)
        return tm

    def swing_running(self, tm, rh):
        d = self.demand
        net = [1.0 / rh - d.peak[h] for h in range(24)]
        starts = [h for h in range(24) if net[h - 1] >= 0 > net[h]]
        starts = sorted(set(starts) | {h + 1 for h in starts if h + 1 < 24})
        best, mix = 0.0, 1.0
        for s in starts:
            q = self.swing_draws([d.daily * d.peak[(s + i) % 24] / 60.0 for i in range(24) for _ in range(60)], tm["tm_vol"], tm["tm_cap"])
            m = sum(q) / d.daily
            acc = low = 0.0
            for x in q:
                acc += d.daily * m / rh / 60.0 - x
                low = min(low, acc)
            if -low > best:
                best, mix = -low, m
        return best, mix

    # ---- multi-pass ---------------------------------------------------------------
    def avg_outlet(self, c):
        """Mean temperature of the water above supply temperature at the on trigger (no floor at the sensor)."""
        on = 100.0 * c.on_f
        su = on + (self.supply - c.on_t) / self.slope
        st = on + (self.storage - c.on_t) / self.slope
        if su >= 100.0:
            return self.supply
        lo, t_lo = (su, self.supply) if su >= 0 else (0.0, c.on_t - on * self.slope)
        hi, t_hi = (st, self.storage) if st <= 100.0 else (100.0, c.on_t + (100.0 - on) * self.slope)
        hot = max(0.0, 100.0 - st)
        tot = (hi - lo) + hot
        return ((hi - lo) * 0.5 * (t_lo + t_hi) + hot * self.storage) / tot if tot > 0 else self.supply

    def size_mp(self):
        """Before the trial-run capacity boost."""
        if self.ctl and "shed" in self.ctl:
            raise Refused("no load shift for multi-pass")
        hot = min(self.avg_outlet(c) for c in self.ctl.values())
        if hot - self.supply < 1e-6:
            raise Undefined("no hot water above supply at the trigger")
        cap = self.dhw_capacity(self.run_hr) + self.recirc_kbtuh() * 24.0 / self.run_hr / self.defrost
        d = self.demand
        slug_v = 0.0
        slug_t = self.inlet
        worst = 0.0
        for t in range(2880):
            q, tin = mixing_valve(d.load(t, 1), self.ret_gpm, self.inlet, self.supply, self.ret_t, hot)
            if q > 0:
                slug_t = (slug_v * slug_t + q * tin) / (slug_v + q)
                slug_v += q
            if slug_v > 0:
                slug_t += cap / 60.0 * 1000.0 / (slug_v * RHO_CP)
                if abs(slug_t - self.storage) < 1e-7:
                    raise Undefined("slug exactly at storage temperature")
                if slug_t >= self.storage:
                    slug_v, slug_t = 0.0, self.inlet
            worst = max(worst, slug_v)
        if worst <= 0:
            raise Undefined("recirculation alone keeps the slug heated: no storage")
        sf = self.strat_factor()
        if sf <= 1e-6:
            raise Undefined("no usable volume at the on trigger")
        return {"cap": cap, "vol": worst / sf, "avg_hot": hot}

    # ---- electric-resistance trade-off --------------------------------------------
    def er_deficit(self, hp_cap, storage_vol, tm_vol, base_tm, daily=None, run_hr=None):
        d = self.demand
        daily = d.daily if daily is None else daily
        rh = run_hr if run_hr is not None else self.run_hr
        gen = hp_cap * 1000.0 / (RHO_CP * (self.storage - self.inlet)) / 60.0
        net = [1.0 / rh - d.peak[h] for h in range(24)]
        starts = [h for h in range(24) if net[h - 1] >= 0 > net[h]]
        s = starts[0] if starts else 0
        loss = self.recirc_kbtuh() * 1000.0 / 60.0 / (RHO_CP * tm_vol)
        el = base_tm * 1000.0 / 60.0 / (RHO_CP * tm_vol)
        top = self.supply + DEADBAND
        worst = 0.0
        for level in (0.0, storage_vol):
            t = self.supply
            heating = False
            for i in range(48 * 60):
                g = daily * d.peak[(s + i // 60) % 24] / 60.0
                q = g * (self.supply - self.inlet) / (t - self.inlet) if t > self.inlet else g
                have = level + gen
                if q <= 0 or have <= 0:
                    feed = self.inlet
                elif q <= have:
                    feed = self.storage
                else:
                    feed = (have * self.storage + (q - have) * self.inlet) / q
                level = min(max(have - q, 0.0), storage_vol)
                if q > 0:
                    if q >= tm_vol:
                        raise Refused("draw exceeds swing tank")
                    t += (feed - t) * q / tm_vol
                t -= loss
                if heating:
                    t += el
                    if t > top:
                        t -= el * min((t - top) / el, 1.0)
                        heating = False
                elif t <= self.supply:
                    t += el * min((self.supply - t) / el, 1.0)
                    heating = True
                if t < self.supply:
                    worst = max(worst, self.supply - t)
                    t = self.supply
        return worst

    def er_kbtuh(self, deficit, tm_vol, safety):
        return tm_vol * RHO_CP * 60.0 * deficit / 1000.0 * safety


def mixing_valve(load, flow, cold, supply, ret, storage):
    """(gallons drawn from storage, temperature of the water replacing them)."""
    critical = flow * (supply - ret) / (storage - supply)
    if load > critical:
        return (load * (supply - cold) + flow * (supply - ret)) / (storage - cold), cold
    q = (load + flow) * (supply - ret) / (storage - ret)
    if q == 0:
        return 0.0, cold
    return q, (load * cold + (q - load) * ret) / q
