import random
from vf import api, gen as G, simcase, sizecase
from vf.ref import building as RB
from vf.ref import perf as RP
from vf.ref import sizing as RS

ID = "P05"
RULE = ("random swing-tank, parallel-loop and electric-resistance-trade-off installations, losses spread log-uniformly over and beyond "
        "the swing tank catalogue, plus invalid temperature-maintenance settings that must be refused; distinct = "
        "(schematic, catalogue size, rounded capacity)")
N = {"quick": 1800, "thorough": 80000}


def plan(tier):
    return []


def gen(rng, i):
    kind = ["swing_tank", "parallel_loop", "swing_er", "invalid", "swing_tank", "parallel_loop", "swing_er", "swing_er"][i % 8]
    if kind == "invalid":
        c = sizecase.make(rng, "parallel_loop", False)
        c["how"] = rng.choice(["facade", "from_size"])
        for k in ("slope", "cmap", "annual", "run_hr_24", "fract"):
            c.pop(k, None)
        kw = c["kw"]
        bad = rng.choice(["sf", "sf_swing", "off0", "off_long", "order", "runtime", "runtime", "runtime_ok"])
        c["bad"] = bad
        if bad in ("sf", "sf_swing"):
            kw["tm_safety_factor"] = rng.choice([1.0, 0.8, 0.0, -1.0])
            if bad == "sf_swing":
                kw["schematic"] = "swing_tank"
        elif bad == "off0":
            kw["tm_off_time_hr"] = rng.choice([0.0, -0.2])
        elif bad == "off_long":
            kw["tm_off_time_hr"] = rng.choice([1.01, 2.0])
        elif bad == "order":
            kw["tm_on_temp_f"] = kw["supply_temp_f"]
            kw["tm_off_temp_f"] = kw["supply_temp_f"] - rng.choice([0.0, 2.0])
        elif bad == "runtime":   # expected runtime below twenty minutes
            kw["tm_safety_factor"] = round(rng.uniform(1.6, 3.0), 3)
            kw["tm_off_time_hr"] = round(rng.choice([rng.uniform(0.5, 0.99), rng.uniform(0.98, 0.9998)]) * (kw["tm_safety_factor"] - 1) / 3.0, 7)
        else:
            kw["tm_safety_factor"] = round(rng.uniform(1.3, 2.5), 3)
            kw["tm_off_time_hr"] = min(1.0, round(rng.choice([rng.uniform(1.02, 1.3), rng.uniform(1.0002, 1.02)]) * (kw["tm_safety_factor"] - 1) / 3.0, 7))
        return c
    if kind == "swing_er":
        c = sizecase.make(rng, "swing_tank", rng.random() < 0.3)
        c["er"] = {"sf": round(rng.uniform(1.0, 1.6), 2), "how": rng.choice(["from_size", "from_size", "components"]),
                   "cap_x": round(rng.uniform(0.2, 1.0), 3), "vol_x": round(rng.uniform(0.2, 1.0), 3)}
        if rng.random() < 0.4:      # close to adequate: the deficit depends on what the element did before
            c["er"].update(how="components", cap_x=round(rng.uniform(0.8, 1.0), 3), vol_x=round(rng.uniform(0.7, 1.05), 3))
        if c["er"]["how"] == "components":
            c["er"]["parts"] = [round(rng.uniform(0.2, 1.0), 3) for _ in range(rng.randrange(1, 4))]
            c["er"]["tm_x"] = rng.choice([1.0, round(rng.uniform(0.4, 2.0), 3)])
            c["er"]["tm_vol_x"] = rng.choice([1.0, round(rng.uniform(0.5, 3.0), 3)])
            if rng.random() < 0.3:
                c["er"]["model"] = [rng.choice(simcase.models(False)), rng.choice([1, 1, 2])]
                c["kw"]["zip_code_or_climate_zone"] = rng.randint(1, 95)
        c["how"] = "from_size"
        c.pop("annual", None)
        c.pop("alias", None)
        if sizecase.can_be_annual(c["kw"]) and rng.random() < 0.4:
            c["er"]["annual"] = True
        return c
    c = sizecase.make(rng, kind, rng.random() < 0.3)
    if kind == "swing_tank":  # spread the requirement over the whole catalogue and past its end
        c["kw"]["return_flow_gpm"] = round(10 ** rng.uniform(-0.7, 2.2), 3)
    else:
        c["kw"]["return_flow_gpm"] = round(10 ** rng.uniform(-0.7, 1.8), 3)
    return c


def run(ctx, case):
    if "bad" in case:
        p = sizecase.plant(case)
        try:
            if case["kw"]["schematic"] == "swing_tank":
                if p.tm_sf <= 1:
                    raise RS.Refused("sf")
            ref = p.size()
        except RS.Refused:
            ctx.raises(lambda: sizecase.build(case, p), ValueError, "accepted-invalid:" + case["bad"],
                       "temperature-maintenance settings " + case["bad"])
            ctx.seen("refused", case["bad"], p.tm_sf, p.tm_off_hr)
            ctx.event("refused:" + case["bad"])
            return
        except RS.Undefined:
            return
        sysm, _ = sizecase.build(case, p)
        ctx.close(api.sized(sysm)["tm_vol"], ref["tm_vol"], "tm_vol:parallel_loop", "valid settings near the limit", 1e-6)
        return
    if "er" in case:
        return run_er(ctx, case)
    r = sizecase.compare(ctx, case, ("tm_vol", "tm_cap", "tm_ca"))
    if r is None:
        return
    sysm, bld, p, ref = r
    got = api.sized(sysm)
    ctx.sample = {k: v for k, v in got.items()}
    loss = p.recirc_kbtuh()
    ctx.close(sysm.get_recirc_loss_kbtuh(), loss, "recirc-loss", "recirculation loss")
    if hasattr(sysm, "get_daily_recirc_loss_kbtu"):
        ctx.close(sysm.get_daily_recirc_loss_kbtu(), loss * 24, "daily-loss", "daily recirculation loss")
    if p.schematic == "swing_tank":
        ctx.check(got["tm_vol"] in RS.SWING_TABLE, "not-in-catalogue", "swing tank of %s gal is not a catalogue size", got["tm_vol"])
        ctx.check(got["tm_vol"] >= ref["need"], "swing-too-small", "swing tank %s gal below the required %.3f", got["tm_vol"], ref["need"])
        smaller = [v for v in RS.SWING_TABLE if v < got["tm_vol"]]
        ctx.check(not smaller or smaller[-1] < ref["need"], "swing-not-smallest", "a smaller catalogue tank would do")
        ctx.event("swing-size=%s" % got["tm_vol"])
        ctx.seen("swing", got["tm_vol"], got["tm_ca"])
    ctx.check(got["tm_cap"] > loss, "tm-too-weak", "TM capacity %.4f does not exceed the loss %.4f", got["tm_cap"], loss)
    if hasattr(sysm, "size_tm_system"):
        sysm.size_tm_system()
        ctx.close(sysm.get_minimum_tm_volume_gal(), ref["tm_vol"], "tm-alone", "TM volume sized on its own", 1e-9)
        ctx.close(sysm.get_minimum_tm_capacity_kbtuh(), ref["tm_cap"], "tm-alone-cap", "TM capacity sized on its own", 1e-9)
    # what the built system contains is what was sized
    if getattr(sysm, "tm_storage_tank", None) is not None:
        ctx.close(sysm.tm_storage_tank.total_volume_gal, got["tm_vol"], "tm-tank-built", "built TM tank volume")
        c = sysm.tm_water_heater.get_capacity_kbtuh(40.0, 120.0, 100.0)
        ctx.close(c, got["tm_cap"], "tm-heater-built", "built TM heater capacity")


def run_er(ctx, case):
    p = sizecase.plant(case)
    try:
        ref = p.size()
    except (RS.Refused, RS.Undefined):
        ctx.event("skipped")
        return
    er = case["er"]
    cls = api.system_class("swing_er")
    bld = api.building(p.demand, case["kw"]["zip_code_or_climate_zone"])
    if er.get("annual"):
        bld.set_to_annual_load_shape()
        ctx.event("er-annual")
    cm = api.control_map(p.ctl)
    common = dict(supply_temp_f=p.supply, storage_temp_f=p.storage, return_temp_f=p.ret_t, return_flow_gpm=p.ret_gpm)
    if er["how"] == "from_size":
        try:
            d = p.er_deficit(ref["cap"], ref["vol"], ref["tm_vol"], ref["tm_cap"])
        except RS.Refused:
            ctx.event("skipped")
            return
        s = dict(control_schedule=p.schedule, control_map=cm, strat_slope=p.slope, load_shift_fract_total_vol=p.fract)
        sysm = cls.from_size(bld, **common, tm_safety_factor=p.tm_sf, er_safety_factor=er["sf"], max_daily_run_hr=p.run_hr,
                             defrost_factor=p.defrost, **s)
        got = api.sized(sysm)
        ctx.close(got["cap"], ref["cap"], "er-cap", "primary capacity of the ER system")
        ctx.close(got["vol"], ref["vol"], "er-vol", "primary storage of the ER system")
        base, vol = ref["tm_cap"], ref["tm_vol"]
    else:
        from ecoengine.objects.components.heating.WaterHeater import WaterHeater
        from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
        from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
        cap, sv = ref["cap"] * er["cap_x"], max(20.0, ref["vol"] * er["vol_x"])
        base, vol = ref["tm_cap"] * er["tm_x"], ref["tm_vol"] * er["tm_vol_x"]
        wh = [WaterHeater.from_nominal_capacity(cap * x / sum(er["parts"]), p.schedule, cm) for x in er["parts"]]
        if er.get("model"):
            # a real heat pump counts with its output at design conditions
            name, units = er["model"]
            oat = RB.climate_for(case["kw"]["zip_code_or_climate_zone"]).design_oat
            wh.append(WaterHeater.from_model_name(name, p.schedule, cm, num_units=units, design_inlet_temp_f=p.inlet))
            cap += RP.Model(name, units, p.inlet).query(oat, p.storage, p.inlet)[1]
            ctx.event("er-real-model")
        try:
            d = p.er_deficit(cap, sv, vol, base, run_hr=24.0)
        except RS.Refused:
            ctx.event("skipped")
            return
        sysm = cls.from_components(wh, StratifiedTank(sv), MixedStorageTank(vol), base, bld, **common, er_safety_factor=er["sf"],
                                   control_schedule=p.schedule, control_map=cm)
        got = api.sized(sysm)
        ctx.close(got["cap"], cap, "er-cap", "installed capacity")
        ctx.close(got["vol"], sv, "er-vol", "installed storage")
    ctx.check(bld.is_annual_load_shape() == bool(er.get("annual")), "er-annual-kept", "the building's load shape was switched by the sizing")
    want = p.er_kbtuh(d, vol, er["sf"])
    tol = 1e-6
    ctx.close(sysm.get_er_capacity_kbtuh(), want, "er-size:" + er["how"], "electric-resistance addition", tol, 1e-5)
    ctx.close(sysm.get_er_capacity_kw(), want / RS.KBTUH_PER_KW, "er-size-kw", "electric-resistance addition in kW", tol, 1e-5)
    ctx.close(got["tm_cap"], base + want, "er-total", "swing element with the addition", tol, 1e-5)
    ctx.close(got["tm_vol"], vol, "er-tm-vol", "swing tank volume")
    ctx.close(sysm.tm_water_heater.get_capacity_kbtuh(40.0, 120.0, 100.0), got["tm_cap"], "er-heater-built", "built TM heater capacity")
    ctx.event("er-needed" if want > 0 else "er-not-needed")
    ctx.seen("er", er["how"], round(want, 3))
