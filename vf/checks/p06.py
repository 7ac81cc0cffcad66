from vf import api, sizecase
from vf import gen as gen_
from vf.ref import sizing as RS
from vf.ref.data import RHO_CP

ID = "P06"
RULE = ("random swing-tank and multi-pass installations; the minute-by-minute sizing run is replayed by an independent model, and for "
        "multi-pass every trial simulation the sizing makes is recorded and the capacity boost recomputed from the recorded trace; "
        "distinct = (schematic, path, rounded capacity, rounded volume)")
ASSUMPTIONS = ["multi-pass loads for which recirculation alone does not keep the slug at storage temperature"]
N = {"quick": 600, "thorough": 12000}
CHUNK = 6


def plan(tier):
    return []


def gen(rng, i):
    if i % 2 == 0:
        c = sizecase.make(rng, "swing_tank", False)
        if rng.random() < 0.35:
            rh = round(rng.uniform(10, 20), 2)
            v = gen_.ramp_shape(rng, rh, rng.choice([22, 22, 21, 23, rng.randrange(24)]))
            if v is not None:
                c["kw"].update(custom_peak_load_shape=v, max_daily_run_hr=rh)
                c.pop("run_hr_24", None)
                c.pop("annual", None)
        return c
    c = sizecase.make(rng, "multi_pass_rtp", False)
    if rng.random() < 0.55:
        c["how"] = "from_size"
    if c["how"] != "facade" and rng.random() < 0.55:
        c["kw"]["on_trigger_t_f"] = round(rng.uniform(c["kw"]["supply_temp_f"], c["kw"]["storage_temp_f"] - 1), 1)
    if c["how"] == "from_size" and rng.random() < 0.5:
        aq = c["kw"].get("aquastat_fract", 0.5)
        off = c["kw"].get("off_sensor_fract", 0.1)
        if min(aq, off) > 0.06:
            c["percent_useable"] = round(1 - rng.uniform(0.3, 0.9) * min(aq, off), 3)
        c["boost"] = [rng.choice([1, 1, 1, 2, 3]), rng.choice([0, 1, 3, 3, 6])]
    if c["how"] == "from_size" and rng.random() < 0.4:
        # the heater is running at both ends of a trial day, and midnight's draw outruns it
        v = [rng.uniform(0, 3) for _ in range(21)] + [rng.uniform(3, 5) for _ in range(3)]
        v[0] = rng.uniform(6, 10)
        c["kw"]["custom_peak_load_shape"] = [x / sum(v) for x in v]
        c.pop("annual", None)
        c["kw"]["on_trigger_t_f"] = round(c["kw"]["storage_temp_f"] - rng.uniform(1, 4), 1)
        if "aquastat_fract" in c["kw"] and "percent_useable" not in c:
            c["kw"]["aquastat_fract"] = round(max(c["kw"].get("off_sensor_fract", 0.1) + 0.05, rng.uniform(0.2, 0.4)), 3)
    if c["how"] != "facade" and rng.random() < 0.5:
        # further control modes besides the normal one, listed before or after it
        aq = c["kw"].get("aquastat_fract", 0.5)
        c["modes"] = {"first": rng.random() < 0.5, "on_f": round(min(0.9, aq * rng.uniform(0.9, 1.5)), 3), "hours": sorted(rng.sample(range(24), rng.randrange(0, 9)))}
    return c


def run(ctx, case):
    if case["kw"]["schematic"] == "swing_tank":
        r = sizecase.compare(ctx, case, ("cap", "vol"))
        if r:
            ctx.sample = api.sized(r[0])
        return
    run_mp(ctx, case)


def run_mp(ctx, case):
    p = sizecase.plant(case)
    m = case.get("modes")
    if m:
        n = p.ctl["normal"]
        up = RS.Ctl(m["on_f"], n.on_t, n.off_f, n.off_t, n.out_t)
        p.ctl = {"loadUp": up, "normal": n} if m["first"] else {"normal": n, "loadUp": up}
        p.schedule = ["loadUp" if h in m["hours"] else "normal" for h in range(24)]
    try:
        ref = p.size()
    except RS.Undefined:
        ctx.event("undefined-skipped")
        return
    cls = api.system_class("multi_pass_rtp")
    pu = 1.0
    days, iters = 3, 3
    trace, drawn = [], []
    starts = []
    orig = cls.simulate_step

    def spy(self, *a, **k):
        i = k.get("timestep_interval", a[1] if len(a) > 1 else None)
        if i == 0:
            starts.append((self.storage_tank.get_usable_volume_supplyT_gal(p.supply), any(w.is_active() for w in self.water_heaters)))
        step = orig(self, *a, **k)
        trace.append((i, step["heater_output_kbtuh"], step["usable_volume_supplyT_gal"], step["tank_temps_f"][-1]))
        drawn.append((i, step["demand_supplyT_gal"]))
        return step

    cls.simulate_step = spy
    try:
        if case["how"] in ("facade", "from_size"):
            if case["how"] == "from_size":
                pu = case.get("percent_useable", 1.0)
                days, iters = case.get("boost", [3, 3])
                bld = api.building(p.demand, case["kw"]["zip_code_or_climate_zone"])
                if case.get("annual"):
                    bld.set_to_annual_load_shape()
                sysm = cls.from_size(bld, p.supply, p.storage, p.ret_t, p.ret_gpm, max_daily_run_hr=p.run_hr, defrost_factor=p.defrost,
                                     control_schedule=p.schedule, control_map=api.control_map(p.ctl), percent_useable=pu,
                                     capacity_boost_trial_days=days, capacity_boost_iterations=iters)
            else:
                sysm, bld = sizecase.build(case, p)
        else:
            sysm, bld = sizecase.build(case, p)
            days = iters = 0
    finally:
        cls.simulate_step = orig
    got = api.sized(sysm)
    ctx.sample = dict(got, trial_steps=len(trace))
    ctx.close(got["vol"], ref["vol"], "vol:multi_pass_rtp", "multi-pass storage", 1e-6)
    ctx.event("sized:multi_pass_rtp:" + case["how"])
    ctx.seen("mp", case["how"], round(got["cap"], 2), round(ref["vol"], 1))
    if iters == 0:
        ctx.close(got["cap"], ref["cap"], "cap:multi_pass_rtp", "multi-pass capacity before any boost", 1e-6)
        return
    # every trial draws the design day, whichever load shape the building is switched to
    day = p.demand.daily
    bad = next(((i, g) for i, g in drawn if abs(g - day * p.demand.peak[i // 60 % 24] / 60.0) > 1e-6 * day), None)
    ctx.check(bad is None, "trial-demand", lambda: f"trial draws {bad[1]} gal in minute {bad[0]}, the design day {day * p.demand.peak[bad[0] // 60 % 24] / 60.0}")
    if case.get("annual") and case["how"] == "from_size":
        ctx.event("trial-annual")
        ctx.check(bld.is_annual_load_shape(), "annual-kept", "the building's load shape was switched by the sizing")
    # recompute the boost from the recorded trials
    runs = []
    for t in trace:
        if t[0] == 0:
            runs.append([])
        runs[-1].append(t)
    if not runs:
        ctx.event("trial-not-observed")
        ctx.check(got["cap"] >= ref["cap"] * (1 - 1e-9), "cap-below-base", "capacity %.4f below the base capacity %.4f", got["cap"], ref["cap"])
        return
    cap = ref["cap"]
    expect_runs = 0
    for n in range(iters):
        expect_runs += 1
        if n >= len(runs):
            ctx.check(False, "trial-missing", "sizing stopped after %d trial runs although run %d still fell short", len(runs), len(runs))
            return
        tr = runs[n]
        ctx.close(starts[n][0], min(1.0 - p.ctl["normal"].on_f, pu) * got["vol"], "trial-start", "usable water a trial run starts with", 1e-6, 1e-4 * got["vol"])
        ctx.check(not starts[n][1], "trial-start-heating", "trial run %d starts with the heater already running", n)
        ctx.check(len(tr) == days * 1440, "trial-length", "trial run of %d minutes, expected %d", len(tr), days * 1440)
        outs = {round(t[1], 6) for t in tr if t[1] > 0}
        ctx.check(all(abs(o - cap) <= 1e-5 * cap + 2e-6 for o in outs), "trial-capacity", "trial run %d heated with %s, expected %.6f", n, sorted(outs)[:3], cap)
        on, start, short, low = False, 0, 0, p.supply
        for i, out, usable, top in tr:
            if out > 0 and not on:
                on, start = True, i
            elif out <= 0:
                on = False
            if usable <= 0 and top < low:
                short, low = i - start, top
        ctx.event("trial-runs")
        if short <= 0:
            break
        inc = got["vol"] * pu * RHO_CP * (p.supply - low) / 1000.0
        cap += inc / (short / 60.0)
        ctx.event("boosts")
    ctx.check(len(runs) == expect_runs, "trial-count", "%d trial runs made, %d needed", len(runs), expect_runs)
    ctx.close(got["cap"], cap, "cap-boost:multi_pass_rtp", "multi-pass capacity after the trial runs", 1e-6)
    ctx.close(sysm.water_heaters[0].get_capacity_kbtuh(40.0, 140.0, 60.0), cap, "heater-built:multi_pass_rtp", "built heater capacity", 1e-6)
