import copy
import random
import shutil
import tempfile
import warnings

from vf import api, simcase, tariffcase
from vf import gen as G
from vf.checks.p08 import record, same_record
from vf.ref import building as RB, data
from vf.ref import sizing as RS

ID = "P21"
RULE = ("one installation built several ways (facade as given, under an alias, with the location named differently, with all defaults spelled out, positionally, "
        "rebuilt, with a tariff, and by hand from its parts) must size, simulate and report identically; in the wiring family (seven cases in eight, nothing simulated) "
        "every hour's controls, loads, climate, tanks and heaters of the built system are those asked for, hostile shed schedules included; "
        "distinct = (schematic, sized or pre-sized, variant, load shift, rounded size)")
N = {"quick": 1040, "thorough": 40000}
CHUNK = 8
CASE_TIMEOUT_S = 400
MIX = [("multi_family", 80), ("motel", 30), ("office_building", 120), ("apartment", 40), ("food_service_a", 60), ("senior_high", 90)]


def plan(tier):
    return [{"seed": 7000 + 11 * i, "schematic": s, "presized": pre} for i, s in enumerate(G.SCHEMATICS) for pre in (False, True)]


def gen(rng, i):
    if i % 8:
        return {"seed": rng.randrange(10 ** 9), "schematic": rng.choice(G.SCHEMATICS), "wiring": True, "presized": rng.random() < 0.8}
    return {"seed": rng.randrange(10 ** 9), "schematic": G.SCHEMATICS[i // 8 % 6], "presized": rng.random() < 0.55}


# ------------------------------------------------------------------------------ one installation
def make(rng, sch, presized):
    model = None
    climate = None
    if presized and sch != "instant_wh" and rng.random() < 0.4:
        model = rng.choice(simcase.models(sch == "multi_pass_rtp"))
        climate = rng.randint(1, 95)
    kw = G.engine_kwargs(rng, schematic=sch, presized=presized, model=model, climate=climate, tame=True)
    if sch == "multi_pass_rtp":
        kw["storage_temp_f"] = round(max(kw["storage_temp_f"], kw["supply_temp_f"] + 12.0), 1)
        if "off_trigger_t_f" in kw:
            kw["off_trigger_t_f"] = min(kw["off_trigger_t_f"], kw["storage_temp_f"])
    if sch == "instant_wh" and presized:
        kw.setdefault("heating_capacity_kbtuh", 100.0)
    if presized and rng.random() < 0.5 and sch != "instant_wh":
        if kw["num_heaters"] == 1:
            kw.pop("num_heaters")
        if kw.get("num_tm_heaters") == 1:
            kw.pop("num_tm_heaters")
    if sch == "parallel_loop" and presized and rng.random() < 0.3:
        kw["tm_model"] = rng.choice(simcase.models(True))
        if not isinstance(kw["zip_code_or_climate_zone"], int):
            kw["zip_code_or_climate_zone"] = rng.randint(1, 95)
        if rng.random() < 0.5:
            kw.pop("tm_capacity_kbtuh")
    if rng.random() < 0.12:
        n = rng.choice([2, 3])
        mix = rng.sample(MIX, n)
        kw["building_type"], kw["magnitude"] = [m[0] for m in mix], [m[1] for m in mix]
        for k in ("custom_peak_load_shape", "custom_avg_load_shape"):
            if k in kw:
                kw[k] = [kw[k] if rng.random() < 0.5 else None for _ in range(n)]
    return kw


def observe(eng_or_parts, curve=False):
    """Everything a user sees: sizes, daily use, the 3-day record."""
    if isinstance(eng_or_parts, tuple):
        sysm, bld = eng_or_parts
    else:
        sysm, bld = api.parts(eng_or_parts)
    from ecoengine.interfaces import Simulator
    o = {}
    try:
        o["sized"] = api.sized(sysm)
    except RuntimeError:
        o["sized"] = None
    o["gal"] = bld.daily_dhw_use_supplyT_gal
    if curve:
        o["curve"] = {k: list(v) if isinstance(v, (list, tuple)) or hasattr(v, "tolist") else v for k, v in sysm.get_sizing_curve(bld).items()}
    o["run"] = record(Simulator.simulate_3day(sysm, bld))
    return o


def same(ctx, a, b, key, what):
    if a["sized"] is None or b["sized"] is None:
        ctx.check(a["sized"] is None and b["sized"] is None, key + ":sized", "%s: only one of the two is sized", what)
    else:
        for k in a["sized"]:
            ctx.close(b["sized"].get(k), a["sized"][k], f"{key}:{k}", f"{what}: {k}", 1e-9)
    ctx.close(b["gal"], a["gal"], f"{key}:daily-use", f"{what}: daily use", 1e-12)
    if "curve" in a and "curve" in b:
        for k in a["curve"]:
            if isinstance(a["curve"][k], list):
                ctx.closelist(b["curve"][k], a["curve"][k], f"{key}:curve:{k}", f"{what}: sizing curve {k}", 1e-9)
            else:
                ctx.close(b["curve"][k], a["curve"][k], f"{key}:curve:{k}", f"{what}: sizing curve {k}", 1e-9)
    same_record(ctx, a["run"], b["run"], key, what)


# ------------------------------------------------------------------------------ other ways to say the same
def defaults(kw):
    sup = kw["supply_temp_f"]
    d = dict(kw)
    d.setdefault("max_daily_run_hr", 16.0)
    d.setdefault("defrost_factor", 1.0)
    d.setdefault("aquastat_fract", 0.5)
    d.setdefault("off_sensor_fract", 0.1)
    d.setdefault("on_trigger_t_f", sup)
    d.setdefault("off_trigger_t_f", kw["storage_temp_f"])
    d.setdefault("gpdpp", 25)
    d.setdefault("load_up_hours", 0)
    d.setdefault("shed_aquastat_fract", d["aquastat_fract"])
    d.setdefault("load_up_aquastat_fract", d["aquastat_fract"])
    d.setdefault("shed_off_sensor_fract", d["off_sensor_fract"])
    d.setdefault("load_up_off_sensor_fract", d["off_sensor_fract"])
    d.setdefault("load_up_off_trigger_t_f", d["off_trigger_t_f"])
    d.setdefault("load_shift_percent", 0.95)
    d.setdefault("tm_on_temp_f", sup)
    d.setdefault("tm_off_temp_f", sup + 8.0)
    d.setdefault("tm_off_time_hr", 0.5)
    d.setdefault("tm_safety_factor", 1.75)
    d.setdefault("num_heaters", 1)
    d.setdefault("num_tm_heaters", 1)
    for k in ("custom_peak_load_shape", "custom_avg_load_shape", "load_shift_schedule", "hpwh_model", "utility_cost_tracker", "tm_model",
              "storage_volume_storageT_gal", "heating_capacity_kbtuh", "tm_storage_vol", "tm_capacity_kbtuh", "return_temp_f", "return_flow_gpm"):
        d.setdefault(k, None)
    return d


def elsewhere(rng, spec):
    """The same climate named another way, or None."""
    if isinstance(spec, dict):
        return None
    z = RB.climate_for(spec).zone
    c = data.climate()
    ways = [z]
    zips = [a for a, b in c["zip"] if b == z]
    if zips:
        a = rng.choice(zips)
        ways += [a, int(a)]
    ways += [a for a, b in c["station"] if b == z][:1]
    ways = [w for w in ways if w != spec or type(w) is not type(spec)]
    return rng.choice(ways) if ways else None


def by_hand(kw):
    """(system, building) assembled from the public component classes."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    sch = kw["schematic"]
    b = {k: kw[k] for k in ("custom_peak_load_shape", "custom_avg_load_shape", "gpdpp") if kw.get(k) is not None}
    bld = Building.from_building_type(kw["building_type"], kw["magnitude"], climate_zone=api.zone(kw["zip_code_or_climate_zone"]), **b)
    cls = api.system_class(sch)
    sched, ctl = G.controls(kw)
    cmap = api.control_map(ctl)
    sup, sto = kw["supply_temp_f"], kw["storage_temp_f"]
    run_hr = 14.0 if sch == "multi_pass_rtp" else kw.get("max_daily_run_hr", 16.0)
    a = {"supply_temp_f": sup, "storage_temp_f": sto, "defrost_factor": kw.get("defrost_factor", 1.0)}
    if sch != "instant_wh":
        a["max_daily_run_hr"] = run_hr
    if sch in G.RECIRC:
        a.update(return_temp_f=kw["return_temp_f"], return_flow_gpm=kw["return_flow_gpm"])
    on, off = kw.get("tm_on_temp_f", sup), kw.get("tm_off_temp_f", sup + 8.0)
    if sch == "swing_tank":
        a["tm_safety_factor"] = kw.get("tm_safety_factor", 1.75)
    if sch == "parallel_loop":
        a.update(tm_on_temp_f=on, tm_off_temp_f=off, tm_off_time_hr=kw.get("tm_off_time_hr", 0.5), tm_safety_factor=kw.get("tm_safety_factor", 1.75))
    vol = kw.get("storage_volume_storageT_gal")
    if vol is None:
        s = {}
        if sch != "instant_wh":
            s = {"control_schedule": sched, "control_map": cmap}
            if kw.get("load_shift_schedule"):
                s["load_shift_fract_total_vol"] = RS.ls_fraction(kw.get("load_shift_percent", 0.95))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return cls.from_size(building=bld, **a, **s), bld
    n = kw.get("num_heaters", 1)
    di = bld.get_design_inlet_water_temp_f()
    if kw.get("hpwh_model"):
        whs = [WaterHeater.from_model_name(kw["hpwh_model"], sched, cmap, num_units=n, design_inlet_temp_f=di)]
    else:
        whs = [WaterHeater.from_nominal_capacity(kw["heating_capacity_kbtuh"] / n, sched, cmap) for _ in range(n)]
    if sch == "instant_wh":
        sysm = cls(**a)
        sysm.water_heaters = whs
        return sysm, bld
    if sch == "multi_pass_rtp":
        tank = SlugOverlayTank(total_volume_gal=vol, cold_temp_f=di, storage_temp_f=sto, supply_temp_f=sup, strat_slope=RS.SLOPE[sch])
    else:
        tank = StratifiedTank(vol, RS.SLOPE[sch])
    if sch in ("parallel_loop", "swing_tank"):
        par = sch == "parallel_loop"
        lo, hi = (on, off) if par else (sup, sup + 8.0)
        m = kw.get("num_tm_heaters", 1) if par else 1
        c = {"normal": api.Controls(RS.Ctl(0.5, lo, 0.5, hi, hi))}
        cap = kw.get("tm_capacity_kbtuh")
        if kw.get("tm_model") and par:
            tm = WaterHeater.from_model_name(kw["tm_model"], ["normal"] * 24, c, design_inlet_temp_f=kw["return_temp_f"], nominal_capacity_kbtuh=cap / m if cap is not None else None)
        else:
            tm = WaterHeater.from_nominal_capacity(cap / m, ["normal"] * 24, c)
        if par:
            a.update(tm_storage_tank=MixedStorageTank(kw["tm_storage_vol"]), tm_water_heater=tm, num_tm_heaters=m)
        else:
            sysm = cls(water_heaters=whs, storage_tank=tank, **a)
            sysm.tm_storage_tank, sysm.tm_water_heater = MixedStorageTank(kw["tm_storage_vol"]), tm
            return sysm, bld
    return cls(water_heaters=whs, storage_tank=tank, **a), bld


# ------------------------------------------------------------------------------ the monitor
def wiring(ctx, rng, case):
    """Every parameter ends up where it belongs (nothing is simulated, so many more installations are seen)."""
    sch, pre = case["schematic"], case["presized"]
    kw = make(rng, sch, pre)
    if sch not in ("multi_pass_rtp", "instant_wh") and pre and rng.random() < 0.5:      # hostile schedules: edges of the day, several blocks, overlong load-up
        s = [1] * 24
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            a = rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(24), 22, 23])
            for h in range(a, a + rng.randrange(1, 9)):
                s[h % 24] = 0
        kw["load_shift_schedule"] = s
        kw["load_up_hours"] = rng.choice([0, 1, 2, 3, 5, 9, 23])
        for k, lo, hi in (("shed_aquastat_fract", 0.0, 1.0), ("load_up_aquastat_fract", 0.0, 1.0), ("shed_off_sensor_fract", 0.0, 1.0), ("load_up_off_sensor_fract", 0.0, 1.0)):
            kw.pop(k, None)
            if rng.random() < 0.5:
                kw[k] = rng.choice([0.0, 1.0, round(rng.uniform(lo, hi), 3)])
    if rng.random() < 0.3 and not isinstance(kw["building_type"], list):
        n = rng.choice([1, 2, 3, 4])
        mix = [rng.choice(MIX) for _ in range(n)]
        kw["building_type"], kw["magnitude"] = [m[0] for m in mix], [m[1] + rng.randrange(20) for m in mix]
        kw.pop("custom_peak_load_shape", None)
        kw.pop("custom_avg_load_shape", None)
        if n > 1:
            for k in ("custom_peak_load_shape", "custom_avg_load_shape"):
                if rng.random() < 0.4:
                    kw[k] = [G.shape(rng) if rng.random() < 0.5 else None for _ in range(n)]
        kw["gpdpp"] = rng.choice([25, 40.5, round(rng.uniform(5, 80), 2)])
        if rng.random() < 0.3:
            kw.pop("gpdpp")
    if not pre and not simcase.buildable({"kw": kw}):
        ctx.event("unbuildable-skipped")
        return
    given = copy.deepcopy(kw)
    e = api.engine(**kw)
    sysm, bld = api.parts(e)
    key = "wiring:" + sch
    ctx.check(kw == given, key + ":input", "building the engine changed the caller's arguments: %s", {k: kw[k] for k in kw if kw[k] != given[k]})
    d = kw["building_type"]
    one = {**kw, "building_type": d[0], "magnitude": kw["magnitude"][0]} if isinstance(d, list) and len(d) == 1 else kw
    dem = G.demand(one)
    ctx.close(e.get_hw_magnitude(), dem.daily, key + ":daily", "daily use", 1e-9)
    for h in range(24):
        for avg, name in ((False, "peak"), (True, "average")):
            ctx.close(bld.get_dhw_load_supplyT_gal(h, 60, avg), dem.daily * (dem.avg if avg else dem.peak)[h], key + ":load", f"{name} load of hour {h}", 1e-9, 1e-12)
    cl = RB.climate_for(kw["zip_code_or_climate_zone"])
    ctx.close(bld.get_design_inlet_water_temp_f(), cl.design_inlet, key + ":inlet", "design inlet temperature", 1e-12)
    for t in (0, rng.randrange(525600), 525599):
        ctx.close(bld.get_oat_f(t), cl.oat(t), key + ":oat", f"outdoor temperature of minute {t}", 1e-12)
    sched, ctl = G.controls(kw)
    if sch == "instant_wh" and not pre:
        sched = None
    for w in sysm.water_heaters if sched else ():
        for h in range(24):
            c, r = w.get_controls_for_hour(h), ctl[sched[h]]
            got = (c.on_sensor_fract, c.on_trigger_t_f, c.off_sensor_fract, c.off_trigger_t_f, c.outlet_temp_f)
            want = (r.on_f, r.on_t, r.off_f, r.off_t, r.out_t)
            ctx.check(all(abs(a - b) < 1e-9 for a, b in zip(got, want)), key + ":controls", "controls of hour %d (%s) are %s, asked for %s", h, sched[h], got, want)
            ctx.close(w.get_outlet_temp_f(h), r.out_t, key + ":outlet", f"outlet temperature of hour {h}", 1e-12)
        ctx.check(w.is_load_shifting() == bool(kw.get("load_shift_schedule")), key + ":shifts", "is_load_shifting() = %s", w.is_load_shifting())
    for k in ("supply_temp_f", "storage_temp_f", "return_temp_f", "return_flow_gpm", "defrost_factor", "tm_on_temp_f", "tm_off_temp_f", "tm_off_time_hr", "tm_safety_factor", "max_daily_run_hr"):
        if not hasattr(sysm, k) or (sch == "multi_pass_rtp" and k == "max_daily_run_hr") or (sch != "parallel_loop" and k in ("tm_on_temp_f", "tm_off_temp_f", "tm_off_time_hr")):
            continue
        want = defaults(kw).get(k)
        if want is not None and not (sch == "instant_wh" and k == "max_daily_run_hr"):
            ctx.close(getattr(sysm, k), want, f"{key}:{k}", f"{k} of the built system", 1e-12)
    if pre:
        honoured(ctx, kw, sysm, sch)
        if sch in ("parallel_loop", "swing_tank"):
            lo, hi = (defaults(kw)["tm_on_temp_f"], defaults(kw)["tm_off_temp_f"]) if sch == "parallel_loop" else (kw["supply_temp_f"], kw["supply_temp_f"] + 8.0)
            c = sysm.tm_water_heater.get_controls_for_hour(rng.randrange(24))
            ctx.check(abs(c.on_trigger_t_f - lo) < 1e-9 and abs(c.off_trigger_t_f - hi) < 1e-9, key + ":tm-controls",
                      "loop heater switches at %s/%s, asked for %s/%s", c.on_trigger_t_f, c.off_trigger_t_f, lo, hi)
            if sch == "parallel_loop" and kw.get("tm_model"):
                m, cap = kw.get("num_tm_heaters", 1), kw.get("tm_capacity_kbtuh")
                ref = simcase.modelled(kw["tm_model"], 1, kw["return_temp_f"], cap / m if cap is not None else None)
                for oat in (-30.0, 25.0, 60.0, 95.0):
                    ctx.close(sysm.tm_water_heater.get_capacity_kbtuh(oat, hi, None), ref(oat, hi, None)[0], key + ":tm-model", f"{kw['tm_model']} at {oat} F outdoors", 1e-9)
            elif kw.get("tm_capacity_kbtuh"):
                m = kw.get("num_tm_heaters", 1) if sch == "parallel_loop" else 1
                ctx.close(sysm.tm_water_heater.get_capacity_kbtuh(50.0, hi, 50.0) * m, kw["tm_capacity_kbtuh"], key + ":tm-capacity", "loop heater capacity", 1e-9)
        if kw.get("hpwh_model"):
            m = simcase.modelled(kw["hpwh_model"], kw.get("num_heaters", 1), cl.design_inlet)
            for oat in (-30.0, 25.0, 60.0, 95.0):
                for inl in (None, 70.0):
                    ctx.close(sum(w.get_capacity_kbtuh(oat, kw["storage_temp_f"], inl) for w in sysm.water_heaters), m(oat, kw["storage_temp_f"], inl)[0],
                              key + ":model", f"{kw['hpwh_model']} at {oat} F outdoors, inlet {inl}", 1e-9)
    ctx.event("wired:" + sch + (":pre" if pre else ""))
    ctx.seen("wiring", sch, pre, tuple(sched or ()), len(d) if isinstance(d, list) else 0, round(dem.daily, 0))


def run(ctx, case):
    rng = random.Random(case["seed"])
    if case.get("wiring"):
        return wiring(ctx, rng, case)
    kw = make(rng, case["schematic"], case["presized"])
    sch = kw["schematic"]
    if not simcase.buildable({"kw": kw}):
        ctx.event("unbuildable-skipped")
        return
    given = copy.deepcopy(kw)
    e = api.engine(**kw)
    curve = not case["presized"] and sch != "instant_wh" and not kw.get("load_shift_schedule") and rng.random() < 0.3
    base = observe(e, curve)
    ctx.event("built:" + sch + (":pre" if case["presized"] else ""))
    # what the engine itself reports
    sysm, bld = api.parts(e)
    ctx.close(e.get_hw_magnitude(), base["gal"], "hw-magnitude", "get_hw_magnitude", 1e-12)
    ctx.close(base["gal"], G.demand(kw).daily, "daily-use", "daily use of the engine's building", 1e-9)
    if not case["presized"]:
        res = e.get_sizing_results()
        ctx.close(res["min_capacity_kbtuh"], base["sized"]["cap"], "results-cap", "capacity in get_sizing_results", 1e-12)
        ctx.close(res["min_storage_storageT_gal"], base["sized"]["vol"], "results-vol", "storage in get_sizing_results", 1e-12)
        if "tm_cap" in base["sized"]:
            ctx.close(res["min_tm_capacity_kbtuh"], base["sized"]["tm_cap"], "results-tmcap", "temperature-maintenance capacity in get_sizing_results", 1e-12)
            ctx.close(res["min_tm_volume_gal"], base["sized"]["tm_vol"], "results-tmvol", "temperature-maintenance volume in get_sizing_results", 1e-12)
    else:
        honoured(ctx, kw, sysm, sch)
    r3 = e.simulate_3day()
    same_record(ctx, base["run"], record(r3), "simulate", "simulate_3day of the facade")
    ctx.check(e.get_simulation_summary(r3) == r3.get_summary(), "summary", "get_simulation_summary differs from the run's own summary")
    ctx.check(list(e.get_annual_cost_estimate(r3)["monthly_energy_kwh"]) == list(r3.get_monthly_energy_kwh()), "estimate", "get_annual_cost_estimate differs from the run's monthly energy")
    variants = ["defaults", "hand", rng.choice(["alias", "place", "positional", "rebuild", "tariff", "change", "opts"]), rng.choice(["alias", "place", "tariff", "change"])]
    for v in dict.fromkeys(variants):
        key = f"{v}:{sch}"
        if v == "defaults":
            same(ctx, base, observe(api.engine(**defaults(kw)), curve), key, "with every default spelled out")
        elif v == "hand":
            same(ctx, base, observe(by_hand(kw), curve), key, "assembled by hand")
        elif v == "alias":
            inv = {b: a for a, b in G.ALIASES.items()}
            if sch not in inv:
                continue
            same(ctx, base, observe(api.engine(**{**kw, "schematic": inv[sch]}), curve), key, f"under the name {inv[sch]}")
        elif v == "place":
            w = elsewhere(rng, kw["zip_code_or_climate_zone"])
            if w is None:
                continue
            same(ctx, base, observe(api.engine(**{**kw, "zip_code_or_climate_zone": w}), curve), key, f"with the location given as {w!r}")
        elif v == "positional":
            from ecoengine import EcosizerEngine
            k = dict(kw)
            pos = [k.pop(x) for x in ("building_type", "magnitude", "zip_code_or_climate_zone", "supply_temp_f", "storage_temp_f", "schematic")]
            same(ctx, base, observe(EcosizerEngine(*pos, **k), curve), key, "with positional arguments")
        elif v == "rebuild":
            e.build()
            same(ctx, base, observe(e, curve), key, "after build() was called again")
        elif v == "tariff":
            tariff(ctx, rng, kw, base, key)
        elif v == "opts":
            from ecoengine.interfaces import Simulator
            o = {"outlet_deficit_threshold_f": round(rng.uniform(0, 20), 1), "outlet_deficit_max_min": rng.randrange(0, 60)}
            same_record(ctx, record(Simulator.simulate_3day(*by_hand(kw), **o)), record(e.simulate_3day(**o)), key, f"simulate_3day({o})")
        else:
            change(ctx, rng, kw, key)
        ctx.event("variant:" + v)
        ctx.seen(sch, case["presized"], v, bool(kw.get("load_shift_schedule")), round((base["sized"] or {}).get("vol") or kw.get("storage_volume_storageT_gal") or 0, 0))
    ctx.check(kw == given, "input:" + sch, "sizing or simulating changed the caller's arguments")
    ctx.sample = {"schematic": sch, "sized": base["sized"], "variants": variants}


def honoured(ctx, kw, sysm, sch):
    if sch == "instant_wh":
        return
    ctx.close(sysm.storage_tank.total_volume_gal, kw["storage_volume_storageT_gal"], "honoured-volume", "storage volume of a pre-sized system", 1e-12)
    cap = sum(w.get_capacity_kbtuh(60.0, kw["storage_temp_f"], 55.0) for w in sysm.water_heaters)
    if kw.get("hpwh_model"):
        m = simcase.modelled(kw["hpwh_model"], kw.get("num_heaters", 1), RB.climate_for(kw["zip_code_or_climate_zone"]).design_inlet)
        ctx.close(cap, m(60.0, kw["storage_temp_f"], 55.0)[0], "honoured-model", f"capacity of {kw.get('num_heaters', 1)} x {kw['hpwh_model']}", 1e-9)
    else:
        ctx.close(cap, kw["heating_capacity_kbtuh"], "honoured-capacity", "total capacity of a pre-sized system", 1e-9)
    if sch in ("parallel_loop", "swing_tank"):
        ctx.close(sysm.tm_storage_tank.total_volume_gal, kw["tm_storage_vol"], "honoured-tm-volume", "temperature-maintenance tank of a pre-sized system", 1e-12)


def tariff(ctx, rng, kw, base, key):
    scratch = tempfile.mkdtemp(prefix="vf21-")
    try:
        uc, ref = tariffcase.build(tariffcase.make(rng), scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    e = api.engine(**{**kw, "utility_cost_tracker": uc})
    sysm, bld = api.parts(e)
    ctx.check(e.utility_cost_tracker is uc and bld.utility_cost_tracker is uc, key + ":attached", "the tariff given to the engine is not the one attached to it")
    same(ctx, base, observe(e), key, "with a tariff attached")
    r = e.simulate_3day()
    kwh = [(p or 0.0) + ((r.tm_heater_input_kw[i] or 0.0) if i < len(r.tm_heater_input_kw) else 0.0) for i, p in enumerate(r.heater_power_in_kw)]
    want = sum(p / 60.0 * ref.energy[i // 60] for i, p in enumerate(kwh))
    top = {}
    for i, p in enumerate(kwh):
        g = (ref.group[i // 60], ref.demand[i // 60])
        top[g] = max(top.get(g, 0.0), p)
    want += sum(v * g[1] for g, v in top.items()) + 12 * ref.base
    ctx.close(r.get_annual_utility_cost(bld.utility_cost_tracker), want, key + ":cost", "cost of the engine's run under its tariff", 1e-9)


CHANGES = ("supply_temp_f", "storage_temp_f", "magnitude", "max_daily_run_hr", "defrost_factor", "aquastat_fract", "off_sensor_fract", "on_trigger_t_f", "off_trigger_t_f",
           "return_temp_f", "return_flow_gpm", "tm_safety_factor", "tm_on_temp_f", "tm_off_temp_f", "tm_off_time_hr", "storage_volume_storageT_gal",
           "heating_capacity_kbtuh", "tm_storage_vol", "tm_capacity_kbtuh", "shed_aquastat_fract", "load_up_aquastat_fract", "shed_off_sensor_fract",
           "load_up_off_sensor_fract", "load_up_off_trigger_t_f", "load_shift_percent", "gpdpp", "num_heaters", "num_tm_heaters")


def change(ctx, rng, kw, key):
    """Change one parameter: facade and hand-built must move together."""
    d = defaults(kw)
    names = [k for k in CHANGES if k in kw or (d.get(k) is not None and rng.random() < 0.3)]
    k = rng.choice(names)
    v = d[k]
    if isinstance(v, list):
        return
    if k in ("num_heaters", "num_tm_heaters"):
        new = v + 1
    elif k == "magnitude":
        new = v + 7
    elif k in ("supply_temp_f",):
        new = v + 0.5
    elif k.endswith("_t_f") or k.endswith("temp_f"):
        new = round(v + rng.choice([-0.5, 0.5]), 2)
    elif k == "load_shift_percent":
        new = 0.9 if v != 0.9 else 0.8
    else:
        new = round(v * rng.choice([0.97, 1.03]), 5)
        if k == "defrost_factor":
            new = min(1.0, round(v * 0.97, 5))
    k2 = {**kw, k: new}
    if not simcase.buildable({"kw": k2}):
        return
    h = by_hand(k2)
    same(ctx, observe(h), observe(api.engine(**k2)), f"{key}:{k}", f"after changing {k} to {new}")
    ctx.event("changed:" + k)
