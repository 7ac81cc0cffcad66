"""Random but realistic-to-hostile installations, as keyword arguments of the public facade."""
from .ref import building as RB
from .ref import data
from .ref import sizing as RS

SCHEMATICS = ["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp", "instant_wh"]
RECIRC = {"parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp"}
ALIASES = {"singlepass_norecirc": "primary_no_recirc", "paralleltank": "parallel_loop", "swingtank": "swing_tank",
           "sprtp": "single_pass_rtp", "mprtp": "multi_pass_rtp"}


def r(x, n=4):
    return round(x, n)


def shape(rng, kind=None):
    """A 24-hour shape summing to 1 (to rounding)."""
    kind = kind or rng.choice(["random", "peaky", "two", "night", "zeros", "spike", "edge"])
    if kind == "random":
        v = [rng.uniform(0.2, 1.0) for _ in range(24)]
    elif kind == "peaky":
        p = rng.randrange(24)
        v = [0.3 + 3.0 * max(0.0, 1 - abs(((h - p + 12) % 24) - 12) / rng.uniform(2, 5)) for h in range(24)]
    elif kind == "two":
        a, b = rng.randrange(24), rng.randrange(24)
        v = [0.4 + (2 if h == a else 0) + (1.5 if h == b else 0) + rng.uniform(0, 0.2) for h in range(24)]
    elif kind == "night":
        s = rng.randrange(20, 24)
        v = [0.5 + (1.8 if (h - s) % 24 < 6 else 0) + rng.uniform(0, 0.3) for h in range(24)]
    elif kind == "zeros":
        v = [rng.choice([0.0, rng.uniform(0.3, 1.0)]) for _ in range(24)]
        v[rng.randrange(24)] = 1.0
    elif kind == "spike":
        v = [0.5] * 24
        v[rng.randrange(24)] = rng.uniform(2, 6)
    else:  # deficit stretches across midnight and starts in hour 0 or 23
        s = rng.choice([0, 22, 23])
        n = rng.randrange(1, 5)
        v = [0.5 + (2.0 if (h - s) % 24 < n else 0) + rng.uniform(0, 0.05) for h in range(24)]
    t = sum(v)
    v = [x / t for x in v]
    # the heat pump needs hours to work in: keep the peak hour below 1/4 of the day
    m = max(v)
    if m > 0.24:
        k = v.index(m)
        rest = (1 - 0.24) / (1 - m)
        v = [x * rest for x in v]
        v[k] = 0.24
    return v


def balance_shape(rng):
    """A dyadic 24-hour shape: with 16 run hours some hours use exactly what the heater makes, right before a peak."""
    u = [0] * 24
    for _ in range(rng.choice([1, 1, 2])):
        p = rng.randrange(24)
        for k in range(1, rng.randrange(2, 5)):          # exact balance: 4/64 = 1/16
            u[(p - k) % 24] = 4
        for k in range(rng.randrange(1, 4)):
            u[(p + k) % 24] = rng.randrange(6, 11)
    left = 64 - sum(u)
    free = [h for h in range(24) if u[h] == 0]
    while left > 0 and any(u[h] < 3 for h in free):
        h = rng.choice([h for h in free if u[h] < 3])
        u[h] += 1
        left -= 1
    if left:
        return None
    return [x / 64.0 for x in u]


def ramp_shape(rng, run_hr, start):
    """An hour just above the generation rate, then the real peak: the worst starting point is one hour late."""
    first = rng.uniform(1.005, 1.12) / run_hr
    v = [rng.uniform(0.1, 1.0) for _ in range(24)]
    v[(start - 1) % 24] = 0.1
    v[(start + 1) % 24] = rng.uniform(2.0, 5.0)
    v[(start + 2) % 24] = rng.uniform(0.1, 3.0)
    v[start] = 0.0
    k = (1.0 - first) / sum(v)
    v = [x * k for x in v]
    v[start] = first
    return v if max(v) <= 0.24 else None


def climate_spec(rng):
    c = rng.random()
    if c < 0.45:
        return rng.randint(1, 96)
    if c < 0.6:
        return rng.choice(data.climate()["zip"])[0]
    if c < 0.65:
        return int(rng.choice(data.climate()["zip"])[0])
    if c < 0.75:
        return rng.choice(data.climate()["station"])[0]
    return {"design_oat_f": r(rng.uniform(-5, 80), 1), "design_inlet_water_temp_f": r(rng.uniform(38, 70), 1)}


def ls_schedule(rng):
    """0 = shed."""
    s = [1] * 24
    first = rng.randrange(3, 21) if rng.random() < 0.85 else rng.randrange(24)
    n = rng.randrange(1, 6) if rng.random() < 0.9 else rng.randrange(6, 13)
    for h in range(first, min(24, first + n)):
        s[h] = 0
    if rng.random() < 0.35:  # a second block
        f2 = first + n + rng.randrange(1, 6)
        for h in range(f2, min(24, f2 + rng.randrange(1, 4))):
            s[h] = 0
    return s, first


def engine_kwargs(rng, schematic=None, ls=None, presized=False, model=None, climate=None, tame=False):
    sch = schematic or rng.choice(SCHEMATICS)
    btype = rng.choice(RB.TYPES + ["multi_family"] * 4)
    kw = {"building_type": btype, "schematic": sch, "zip_code_or_climate_zone": climate if climate is not None else climate_spec(rng)}
    inlet = RB.climate_for(kw["zip_code_or_climate_zone"]).design_inlet
    supply = r(rng.uniform(max(108.0, inlet + 30), 135.0), 1)
    storage = r(supply + (rng.uniform(8.0, 45.0) if tame or rng.random() < 0.9 else rng.uniform(0.5, 8.0)), 1)
    kw["supply_temp_f"], kw["storage_temp_f"] = supply, storage
    want = 10 ** rng.uniform(2.3, 4.0)           # gal/day
    if sch == "multi_pass_rtp":
        want = 10 ** rng.uniform(2.9, 4.1)
    if btype == "multi_family":
        g = rng.choice([None, 25, r(rng.uniform(10, 60), 2)])
        if g is not None:
            kw["gpdpp"] = g
        kw["magnitude"] = max(2, int(want / (g or 25)))
    else:
        kw["magnitude"] = max(2, int(want / RB.GPD[btype]))
    if rng.random() < 0.45:
        kw["custom_peak_load_shape"] = shape(rng)
    if rng.random() < 0.25:
        kw["custom_avg_load_shape"] = shape(rng)
    d = RB.single(btype, kw["magnitude"], kw.get("custom_peak_load_shape"), kw.get("custom_avg_load_shape"), kw.get("gpdpp", 25))
    pk = max(d[1])
    lo_run = max(8.0, 1.02 / pk) if not tame else 12.0
    if rng.random() < 0.8:
        kw["max_daily_run_hr"] = r(rng.uniform(min(lo_run, 22), 22.0), rng.choice([0, 2]))
    if rng.random() < 0.5:
        kw["defrost_factor"] = r(rng.uniform(0.6, 1.0), 3)
    if rng.random() < 0.7:
        u = rng.uniform(0.2, 0.7)
        # mostly mid-height, now and then close to the bottom or the very top of the tank
        kw["aquastat_fract"] = r(0.04 + (u - 0.2) * 5 if u < 0.22 else 0.7 + (u - 0.67) * 10 if u > 0.67 else u, 3)
    aq = kw.get("aquastat_fract", 0.5)
    if rng.random() < 0.4:
        kw["off_sensor_fract"] = r(rng.uniform(0.02, min(aq, 0.35)), 3)
    if rng.random() < 0.3:
        kw["on_trigger_t_f"] = r(rng.uniform(supply - 15, min(supply + 4, storage - 0.3)), 1)
    if rng.random() < 0.25:
        kw["off_trigger_t_f"] = r(rng.uniform(min(supply + 2, storage - 0.2), storage), 1)
    if sch in RECIRC:
        kw["return_temp_f"] = r(supply - rng.uniform(3, 14), 1)
        kw["return_flow_gpm"] = r(10 ** rng.uniform(-0.3, 1.3), 2)
        if sch == "multi_pass_rtp":
            kw["return_flow_gpm"] = r(d[0] / 1440.0 * rng.uniform(0.3, 3.0), 3)
    if sch in ("parallel_loop", "swing_tank") and rng.random() < 0.6:
        kw["tm_safety_factor"] = r(rng.uniform(1.1, 2.2), 3)
    if sch == "parallel_loop":
        if rng.random() < 0.5:
            kw["tm_on_temp_f"] = r(supply + rng.uniform(-3, 5), 1)
        if rng.random() < 0.5:
            kw["tm_off_temp_f"] = r(kw.get("tm_on_temp_f", supply) + rng.uniform(4, 15), 1)
        if kw.get("tm_off_temp_f", supply + 8.0) <= kw.get("tm_on_temp_f", supply):
            kw.pop("tm_on_temp_f", None)
        if rng.random() < 0.5:
            kw["tm_off_time_hr"] = r(rng.uniform(0.3, 1.0), 3)
        sf, th = kw.get("tm_safety_factor", 1.75), kw.get("tm_off_time_hr", 0.5)
        if th / (sf - 1.0) <= 0.34:
            kw["tm_off_time_hr"] = min(1.0, r(0.4 * (sf - 1.0) + 0.02, 3))
    want_ls = ls if ls is not None else rng.random() < 0.35
    if want_ls and sch not in ("multi_pass_rtp", "instant_wh"):
        s, first = ls_schedule(rng)
        kw["load_shift_schedule"] = s
        if rng.random() < 0.7:
            kw["load_up_hours"] = rng.randrange(1, max(1, min(4, first)) + 1)
        if rng.random() < 0.85:
            kw["shed_aquastat_fract"] = r(min(0.9, aq + rng.uniform(0.05, 0.3)), 3)
        if rng.random() < 0.6:
            kw["load_up_aquastat_fract"] = r(max(0.1, aq - rng.uniform(0.02, 0.25)), 3)
        if rng.random() < 0.3:
            kw["shed_off_sensor_fract"] = r(rng.uniform(0.05, aq), 3)
        if rng.random() < 0.3:
            kw["load_up_off_sensor_fract"] = r(rng.uniform(0.02, 0.3), 3)
        if rng.random() < 0.2:
            kw["load_up_off_trigger_t_f"] = r(rng.uniform(min(supply + 2, storage - 0.2), storage), 1)
        if rng.random() < 0.6:
            kw["load_shift_percent"] = rng.choice([1.0, r(rng.uniform(0.3, 0.99), 2), r(rng.uniform(0.3, 0.99), 2), 0.9999, r(1 - 10 ** rng.uniform(-6, -2), 7)])
    if presized:
        presize(rng, kw, d, inlet, model)
    return kw


def presize(rng, kw, d, inlet, model=None):
    sch = kw["schematic"]
    kw["storage_volume_storageT_gal"] = r(d[0] * rng.uniform(0.15, 0.9), 1)
    kw["num_heaters"] = rng.choice([1, 1, 2, 3])
    need = d[0] / 16.0 * data.RHO_CP * (kw["supply_temp_f"] - inlet) / 1000.0
    if model is not None:
        kw["hpwh_model"] = model
    else:
        kw["heating_capacity_kbtuh"] = r(need * rng.uniform(0.7, 2.5), 2)
    if sch in ("parallel_loop", "swing_tank"):
        loss = kw["return_flow_gpm"] * 60 * data.RHO_CP * (kw["supply_temp_f"] - kw["return_temp_f"]) / 1000.0
        kw["tm_storage_vol"] = r(max(40.0, d[0] * max(d[1]) / 60.0 * 1.5) * rng.uniform(1, 4), 1)
        kw["tm_capacity_kbtuh"] = r(loss * rng.uniform(1.0, 2.5), 3)
        kw["num_tm_heaters"] = rng.choice([1, 1, 2, 3])


def controls(kw):
    """(schedule, {mode: Ctl}) a facade call means."""
    sup, sto = kw["supply_temp_f"], kw["storage_temp_f"]
    aq, off = kw.get("aquastat_fract", 0.5), kw.get("off_sensor_fract", 0.1)
    on_t = kw.get("on_trigger_t_f")
    on_t = sup if on_t is None else on_t
    off_t = kw.get("off_trigger_t_f")
    off_t = sto if off_t is None else off_t
    pick = lambda k, dflt: dflt if kw.get(k) is None else kw[k]
    m = {"normal": RS.Ctl(aq, on_t, off, off_t, sto)}
    ls = kw.get("load_shift_schedule")
    if not ls:
        return ["normal"] * 24, m
    up = kw.get("load_up_hours", 0)
    first = ls.index(0) if 0 in ls else None
    sched = []
    for h in range(24):
        if ls[h] == 0:
            sched.append("shed")
        elif first is not None and up > 0 and first - up <= h < first:
            sched.append("loadUp")
        else:
            sched.append("normal")
    m["shed"] = RS.Ctl(pick("shed_aquastat_fract", aq), on_t, pick("shed_off_sensor_fract", off), off_t, sto)
    if up > 0:
        m["loadUp"] = RS.Ctl(pick("load_up_aquastat_fract", aq), on_t, pick("load_up_off_sensor_fract", off),
                             pick("load_up_off_trigger_t_f", off_t), sto)
    return sched, m


def demand(kw, annual=False):
    if isinstance(kw["building_type"], list):
        d = RB.multi(kw["building_type"], kw["magnitude"], kw.get("custom_peak_load_shape"), kw.get("custom_avg_load_shape"),
                     gpdpp=kw.get("gpdpp") if kw.get("gpdpp") is not None else 25)
        return RB.Demand(*d, btype="mixed", annual=annual)
    d = RB.single(kw["building_type"], kw["magnitude"], kw.get("custom_peak_load_shape"), kw.get("custom_avg_load_shape"),
                  kw.get("gpdpp") if kw.get("gpdpp") is not None else 25)
    return RB.Demand(*d, btype=kw["building_type"], annual=annual)


def plant(kw):
    cl = RB.climate_for(kw["zip_code_or_climate_zone"])
    sched, ctl = controls(kw)
    sup = kw["supply_temp_f"]
    sch = ALIASES.get(kw["schematic"], kw["schematic"])
    return RS.Plant(sch, demand(kw), cl.design_inlet, sup, kw["storage_temp_f"],
                    run_hr=14.0 if sch == "multi_pass_rtp" else kw.get("max_daily_run_hr", 16.0),
                    defrost=kw.get("defrost_factor", 1.0), schedule=sched, ctl=ctl,
                    fract=RS.ls_fraction(kw.get("load_shift_percent", 0.95)) if kw.get("load_shift_schedule") else 1.0,
                    ret_t=kw.get("return_temp_f"), ret_gpm=kw.get("return_flow_gpm"),
                    tm_on=kw.get("tm_on_temp_f") if kw.get("tm_on_temp_f") is not None else sup,
                    tm_off=kw.get("tm_off_temp_f") if kw.get("tm_off_temp_f") is not None else sup + 8.0,
                    tm_off_hr=kw.get("tm_off_time_hr", 0.5), tm_sf=kw.get("tm_safety_factor", 1.75))
