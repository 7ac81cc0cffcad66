"""Reference simulation, used as an offline checker of a recorded run.

The checker walks the record step by step. It predicts every recorded quantity of a step from its own state and the step's
boundary conditions, compares, then re-synchronises its state with the record (so that the real solver's last digits do not
add up, and so that one wrong quantity is reported once, under its own key)."""
from .data import KBTUH_PER_KW, RHO_CP
from .tanks import Mixed, Slug, Strat

NODES = (0.0, 0.2, 0.4, 0.6, 0.8, 1.0)
DEADBAND = 8.0


class Heater:
    def __init__(self, ctl, schedule, perf):
        self.ctl, self.schedule, self.perf = ctl, schedule, perf
        self.on = False

    def c(self, hour):
        return self.ctl[self.schedule[hour]]


class Spec:
    """Everything the reference needs to know about one run."""
    schematic = "primary_no_recirc"
    supply = storage = 0.0
    vol = slope = None
    ret_t = ret_gpm = None
    tm_on = tm_off = tm_vol = None
    num_tm = 1
    tm_perf = None
    defrost = 1.0
    demand = climate = None
    heaters = ()
    dt, steps = 1, 4320
    threshold, max_min = 5.0, 10


def node_list(run, i):
    return [n[i] for n in run.tank_temps_f]


class Walk:
    """judge(cat, ok, key, text_fn) is called for every comparison; cat in inputs|heater|tank|tm."""

    def __init__(self, spec, run, judge, ctx):
        self.s, self.run, self.judge, self.ctx = spec, run, judge, ctx
        self.lost = False

    def cmp(self, cat, got, want, key, what, rel=1e-9, abs_=1e-9):
        if got is None or want is None:
            ok = got is None and want is None
        else:
            d = got - want
            ok = -(abs_ + rel * abs(want)) <= d <= abs_ + rel * abs(want)
        self.judge(cat, ok, key, lambda: f"{what} at step {self.i}: recorded {got!r}, expected {want!r}")
        return ok

    # ---- boundary conditions ---------------------------------------------------
    def boundary(self, i):
        s, r = self.s, self.run
        hour = (i * s.dt) // 60 % 24
        use_avg = s.schematic not in ("multi_pass_rtp", "instant_wh") and any("shed" in h.ctl or "loadUp" in h.ctl for h in s.heaters)
        d = s.demand.load(i, s.dt, use_avg)
        oat, inlet = s.climate.oat(i, s.dt), s.climate.inlet(i, s.dt)
        self.cmp("inputs", r.dhw_demand_supplyT_gal[i], d, "demand", "hot-water demand", 1e-9, 1e-12)
        self.cmp("inputs", r.oat_f[i], oat, "oat", "outdoor temperature", 0, 1e-9)
        self.cmp("inputs", r.inlet_water_temp_f[i], inlet, "inlet", "inlet water temperature", 0, 1e-9)
        mode = s.heaters[0].schedule[hour] if s.heaters and s.schematic != "instant_wh" else "normal"
        self.judge("inputs", r.heater_mode[i] == mode, "mode", lambda: f"control mode at step {i}: recorded {r.heater_mode[i]!r}, expected {mode!r}")
        return hour, d, oat, inlet

    # ---- heater control ----------------------------------------------------------
    def control(self, i, hour, oat, inlet, eps, amb, spread=None):
        """Predict on/off of every heater, compare output and power with the record; follow the record within eps."""
        s, r = self.s, self.run
        want, soft = [], []
        for h in s.heaters:
            c = h.c(hour)
            t = amb(c.off_f) if h.on else amb(c.on_f)
            trig = c.off_t if h.on else c.on_t
            on = (not t >= trig) if h.on else t < trig
            want.append(on)
            lo, hi = (t, t) if spread is None else spread(c.off_f if h.on else c.on_f)
            soft.append(lo - eps <= trig <= hi + eps)
        perf = [h.perf(oat, h.c(hour).out_t, inlet) for h in s.heaters]
        got = r.heater_output_kbtuh[i]
        out = sum(p[0] for p, on in zip(perf, want) if on)
        tol = 1e-9 * (1.0 + abs(out) + abs(got))
        if abs(got - out) > tol:
            # observed decision: another subset of heaters?
            n = len(want)
            best = None
            for m in range(1 << n):
                cand = [bool(m >> k & 1) for k in range(n)]
                if abs(sum(p[0] for p, on in zip(perf, cand) if on) - got) <= tol:
                    diff = [k for k in range(n) if cand[k] != want[k]]
                    hard = [k for k in diff if not soft[k]]
                    if best is None or (len(hard), len(diff)) < (len(best[1]), len(best[2])):
                        best = (cand, hard, diff)
            if best is None:
                self.judge("heater", False, "output", lambda: f"heat output at step {i}: recorded {got!r}, expected {out!r} (no set of the {n} heaters gives that)")
                self.lost = True
            else:
                cand, hard, diff = best
                if hard:
                    k = hard[0]
                    h = s.heaters[k]
                    c = h.c(hour)
                    self.judge("heater", False, "switch-off" if h.on else "switch-on",
                               lambda: f"heater {k} at step {i} (hour {hour}, mode {h.schedule[hour]}): {'on' if h.on else 'off'} before, sensor "
                                       f"{(amb(c.off_f) if h.on else amb(c.on_f))!r} vs trigger {(c.off_t if h.on else c.on_t)!r}, record shows {'on' if cand[k] else 'off'}")
                want = cand
                if diff and not hard:
                    self.ctx.event("trigger-tie")
        else:
            self.judge("heater", True, "output", None)
        for h, on in zip(s.heaters, want):
            if on != h.on:
                self.ctx.event("switch-" + ("on" if on else "off"))
            h.on = on
        kw = sum(p[1] or 0.0 for p, h in zip(perf, s.heaters) if h.on)
        self.cmp("heater", r.heater_power_in_kw[i] or 0.0, kw, "power", "electric input", 1e-9, 1e-9)
        return got, max(h.c(hour).out_t for h in s.heaters)

    # ---- stratified primary -----------------------------------------------------
    def init_primary(self):
        s = self.s
        t = Strat(s.vol, s.slope)
        c = s.heaters[0].ctl.get("normal") or next(iter(s.heaters[0].ctl.values()))
        t.init(s.storage, s.climate.design_inlet, max(0.0, min(1.0, 1.0 - c.on_f)))
        return t

    def amb(self, t):
        """Sensor reading; the unclamped line tells how close to the trigger we are, the clamped value decides."""
        return lambda f: t.t(f)

    def judge_profile(self, i, t, what, usable=None):
        s, r = self.s, self.run
        got = node_list(r, i)
        tol = 3e-5 + 5e-4 * t.slope / s.vol
        ok = True
        for f, g in zip(NODES, got):
            w = t.t(f)
            if abs(g - w) > tol:
                ok = self.cmp("tank", g, w, "profile:" + s.schematic, f"tank temperature at height {f}", 0, tol)
                break
        else:
            self.judge("tank", True, "profile", None)
        u = r.usable_volume_supplyT_gal[i]
        if usable is None:
            usable = t.usable(s.supply)
        self.cmp("tank", u, usable, "usable:" + s.schematic, "usable volume", 1e-9, 1e-6 + tol * s.vol / t.slope / 100.0 * 2)
        # re-synchronise the ramp
        b = None
        for f, g in zip(NODES, got):
            if t.cold + 1e-4 < g < t.hot - 1e-4:
                b = g - t.slope * 100.0 * f
                break
        else:
            if 1e-6 * s.vol < u < s.vol * (1 - 1e-6):
                b = s.supply - t.slope * (100.0 - 100.0 * u / s.vol)
        self.synced = b is not None
        if b is not None:
            t.b = b
        elif not ok:
            self.lost = True

    # ---- schematics ---------------------------------------------------------------
    def walk(self):
        s, r = self.s, self.run
        n = len(r.dhw_demand_supplyT_gal)
        f = {"primary_no_recirc": self.primary, "single_pass_rtp": self.primary, "parallel_loop": self.primary,
             "swing_tank": self.swing, "multi_pass_rtp": self.multipass, "instant_wh": self.instant}[s.schematic]
        self.synced = True
        self.deliver = []       # delivered temperature per step, for the early-stop rule
        f(n)
        return self.deliver

    def eps(self):
        return 1e-5 if self.synced else 0.05

    def primary(self, n):
        s, r = self.s, self.run
        t = self.init_primary()
        tm = None
        if s.schematic == "parallel_loop":
            tm = Mixed(s.tm_vol)
            tm.init(s.tm_off, s.climate.design_inlet, 1.0)
            tm_on = False
        for i in range(n):
            self.i = i
            hour, d, oat, inlet = self.boundary(i)
            out, hot = self.control(i, hour, oat, inlet, self.eps(), t.t)
            if self.lost:
                return
            t.heat(out, s.dt, hot)
            t.draw(r.dhw_demand_supplyT_gal[i], r.inlet_water_temp_f[i], s.supply, hot)
            if s.schematic == "single_pass_rtp":
                t.recirc(s.ret_gpm, s.ret_t, s.dt, s.supply)
            self.judge_profile(i, t, "")
            if self.lost:
                return
            self.deliver.append(r.tank_temps_f[-1][i])
            if tm is not None:
                tm.recirc(s.ret_gpm, s.ret_t, s.dt)
                cap, kw = s.tm_perf(oat, tm.temp, (s.tm_on + s.tm_off) / 2.0)
                tm_on = self.tm_control(i, tm, tm_on, s.tm_on, s.tm_off, cap * s.num_tm)
                out = cap * s.num_tm if tm_on else 0.0
                self.cmp("tm", r.tm_heater_output_kbtuh[i], out, "tm-output", "loop heater output", 1e-9, 1e-9)
                self.cmp("tm", r.tm_heater_input_kw[i] or 0.0, (kw or 0.0) * s.num_tm if tm_on else 0.0, "tm-power", "loop heater input", 1e-9, 1e-9)
                tm.heat(r.tm_heater_output_kbtuh[i], s.dt, s.tm_off)
                self.cmp("tm", r.tm_tank_temp_f[i], tm.temp, "tm-temp", "loop tank temperature", 1e-9, 1e-7)
                tm.temp = r.tm_tank_temp_f[i]

    def tm_control(self, i, tm, on, lo, hi, cap):
        t = tm.temp
        trig = hi if on else lo
        want = (not t >= trig) if on else t < trig
        got = self.run.tm_heater_output_kbtuh[i] > 0
        if got != want and cap > 0 and abs(t - trig) > 1e-6:
            self.judge("tm", False, "tm-switch-" + ("off" if on else "on"),
                       lambda: f"loop heater at step {i}: {'on' if on else 'off'} before, tank at {t!r}, trigger {trig!r}, record shows {'on' if got else 'off'}")
        else:
            self.judge("tm", True, "tm-switch", None)
        if got != on:
            self.ctx.event("tm-switch")
        return got

    def swing(self, n):
        s, r = self.s, self.run
        t = self.init_primary()
        tm = Mixed(s.tm_vol)
        tm.init(s.supply + DEADBAND, s.climate.design_inlet, 1.0)
        on = False
        loss = s.ret_gpm * 60.0 * RHO_CP * (s.supply - s.ret_t) / 1000.0
        for i in range(n):
            self.i = i
            hour, d, oat, inlet = self.boundary(i)
            out, hot = self.control(i, hour, oat, inlet, self.eps(), t.t)
            if self.lost:
                return
            t.heat(out, s.dt, hot)
            st = tm.temp
            d, inlet = r.dhw_demand_supplyT_gal[i], r.inlet_water_temp_f[i]
            hw = d * (s.supply - inlet) / (st - inlet) if st > s.supply else d
            feed = t.avg(hw)
            tm.replace(hw, feed)
            tm.loss(loss, s.dt)
            cap, _ = s.tm_perf(oat, tm.temp, None)
            on = self.tm_control(i, tm, on, s.supply, s.supply + DEADBAND, cap)
            out = cap if on else 0.0
            self.cmp("tm", r.tm_heater_output_kbtuh[i], out, "tm-output", "swing element output", 1e-9, 1e-9)
            self.cmp("tm", r.tm_heater_input_kw[i] or 0.0, out / KBTUH_PER_KW, "tm-power", "swing element input", 1e-6, 1e-9)
            tm.heat(r.tm_heater_output_kbtuh[i], s.dt, s.supply + DEADBAND)
            self.cmp("tm", r.tm_tank_temp_f[i], tm.temp, "tm-temp", "swing tank temperature", 1e-9, 2e-5 + (0.0 if self.synced else 1e-3))
            tm.temp = r.tm_tank_temp_f[i]
            t.draw_physical(hw, inlet, s.supply)
            near = abs(st - s.supply) < 1e-6
            self.judge_profile(i, t, "", r.usable_volume_supplyT_gal[i] if near else 0.0 if st < s.supply else None)
            if self.lost:
                return
            self.deliver.append(tm.temp)

    def multipass(self, n):
        s, r = self.s, self.run
        t = Slug(s.vol, s.climate.design_inlet, s.storage, s.supply, 1.0, s.slope)
        c = s.heaters[0].ctl.get("normal") or next(iter(s.heaters[0].ctl.values()))
        t.init(s.storage, s.climate.design_inlet, max(0.0, min(1.0, 1.0 - c.on_f)))
        def spread(f):
            # the real tank finds its profile from its energy with a relative precision of about 1e-6 per look
            d = 1e-4 * max(t.emax(), 1.0)
            return t.t(f, t.E - d), t.t(f, t.E + d)

        for i in range(n):
            self.i = i
            hour, d, oat, inlet = self.boundary(i)
            d, inlet = r.dhw_demand_supplyT_gal[i], r.inlet_water_temp_f[i]
            t.cold = inlet
            was = any(h.on for h in s.heaters)
            out, hot = self.control(i, hour, oat, None, 0.03, t.t, spread)
            if self.lost:
                return
            now = any(h.on for h in s.heaters)
            if now:
                t.activate(s.supply)
            elif was:
                t.deactivate()
            top = t.t(1.0)
            gal, mix = mixing_valve(d, s.ret_gpm * s.dt, inlet, s.supply, s.ret_t, top)
            if now and t.sv > 0:
                t.heat_slug(out, s.dt)
            if gal > 0:
                t.draw_physical(gal, mix, keep_cold=True)
            got = node_list(r, i)
            for f, g in zip(NODES, got):
                w = t.t(f)
                if abs(g - w) > 0.05 and not (t.active and abs(100 * f - t.top) < 0.2):
                    lo, hi = spread(f)
                    if lo - 0.05 <= g <= hi + 0.05:
                        continue
                    self.cmp("tank", g, w, "profile:multi_pass_rtp", f"tank temperature at height {f} ({'heating' if now else 'idle'})", 0, 0.05)
                    self.lost = True
                    return
            self.judge("tank", True, "profile", None)
            if not t.active:
                for f, g in zip(NODES, got):
                    if t.cold + 0.01 < g < t.hot - 0.01:
                        e = t.e_of((g - t.cold) / t.slope - 100.0 * f)
                        if abs(e - t.E) < 2e-4 * t.emax():
                            t.E = e
                        break
            if not (t.active and abs(t.st - s.supply) < 0.02):
                self.cmp("tank", r.usable_volume_supplyT_gal[i], t.usable(s.supply), "usable:multi_pass_rtp", "usable volume", 1e-4, 2e-3 * s.vol)
            self.deliver.append(s.supply if now else top)

    def instant(self, n):
        s, r = self.s, self.run
        for i in range(n):
            self.i = i
            hour, d, oat, inlet = self.boundary(i)
            d, inlet = r.dhw_demand_supplyT_gal[i], r.inlet_water_temp_f[i]
            want = d * 60.0 / s.dt * RHO_CP * max(s.supply - inlet, 1.0) / s.defrost / 1000.0
            self.cmp("heater", r.heater_output_kbtuh[i], want, "output:instant", "heat output", 1e-9, 1e-9)
            self.cmp("heater", r.heater_power_in_kw[i] or 0.0, want / KBTUH_PER_KW, "power:instant", "electric input", 1e-6, 1e-9)
            self.judge("tank", all(abs(x - s.supply) < 1e-9 for x in node_list(r, i)), "delivery:instant", lambda: f"delivered temperature at step {i}: {node_list(r, i)}, supply {s.supply}")
            self.deliver.append(r.tank_temps_f[-1][i])


def mixing_valve(load, flow, cold, supply, ret, store):
    """(gallons taken from storage, temperature of the water replacing them): mass and energy balance of the loop.

    g gallons leave storage, load gallons of cold enter; g-load gallons of loop return go to the tank if g > load, otherwise
    all of the return stays in the stream and load-g gallons of cold bypass the tank."""
    if store <= supply:
        g = load + flow
        return g, (load * cold + flow * ret) / g if g > 0 else cold
    if load * (store - supply) > flow * (supply - ret):
        return (load * (supply - cold) + flow * (supply - ret)) / (store - cold), cold
    g = (load + flow) * (supply - ret) / (store - ret)
    return g, (load * cold + (g - load) * ret) / g if g > 0 else cold
