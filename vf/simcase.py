"""One simulated installation: build the real system (facade or by hand), run it, and describe it for the reference."""
from . import api, gen
from .ref import building as RB
from .ref import data
from .ref import sim as S
from .ref import sizing as RS

MODELS_SP = ["MODELS_ColmacCxV_5_C_SP", "MODELS_SANCO2_C_SP", "MODELS_Mitsubishi_QAHV_C_SP", "MODELS_NyleC90A_C_SP"]


def models(mp=False):
    m = data.maps()
    return sorted(k for k in m if k.endswith("MP") == mp)


def make(rng, schematic=None, hard=False, duration="3day", hand=None):
    sch = schematic or rng.choice(gen.SCHEMATICS)
    real = rng.random() < 0.45
    model = None
    climate = None
    if real and sch != "instant_wh":
        model = rng.choice(models(sch == "multi_pass_rtp"))
    if model or duration == "annual":
        climate = rng.randint(1, 95)
    path = rng.random()
    if duration == "annual" and sch != "instant_wh":
        path = max(path, 0.4)
    if sch == "multi_pass_rtp":
        path = 0.4 + 0.6 * path
    presized = path >= 0.3
    kw = gen.engine_kwargs(rng, schematic=sch, presized=presized, model=model if presized else None, climate=climate, tame=True)
    if sch == "instant_wh" and presized:
        for k in ("hpwh_model", "tm_storage_vol"):
            kw.pop(k, None)
        kw.setdefault("heating_capacity_kbtuh", 100.0)
    case = {"kw": kw, "duration": duration}
    if presized and hard and sch != "instant_wh":
        k = rng.choice(["cap", "vol", "both", "none", "huge"])
        if k in ("cap", "both") and "heating_capacity_kbtuh" in kw:
            kw["heating_capacity_kbtuh"] = round(kw["heating_capacity_kbtuh"] * rng.uniform(0.1, 0.7), 3)
        if k in ("vol", "both"):
            kw["storage_volume_storageT_gal"] = round(max(25.0, kw["storage_volume_storageT_gal"] * rng.uniform(0.05, 0.5)), 1)
        if k == "huge":
            kw["storage_volume_storageT_gal"] *= 3
    if sch == "parallel_loop" and presized and rng.random() < 0.3:
        kw["tm_model"] = rng.choice(models(True))
        if rng.random() < 0.5:
            kw.pop("tm_capacity_kbtuh", None)
        if not isinstance(kw["zip_code_or_climate_zone"], int):
            kw["zip_code_or_climate_zone"] = rng.randint(1, 95)
    if presized and sch != "instant_wh" and (hand if hand is not None else rng.random() < (0.7 if sch == "multi_pass_rtp" else 0.35)):
        case["hand"] = hand_heaters(rng, kw)
        if rng.random() < 0.6:
            case["slope"] = round(rng.uniform(0.8, 5.0), 2)
    if sch == "multi_pass_rtp":
        # keep the loop warm enough that the mixing valve equations stay away from their pole
        kw["storage_temp_f"] = round(max(kw["storage_temp_f"], kw["supply_temp_f"] + 12.0), 1)
        if "off_trigger_t_f" in kw:
            kw["off_trigger_t_f"] = round(min(kw["off_trigger_t_f"], kw["storage_temp_f"]), 1)
    if presized and duration == "3day" and kw["building_type"] == "multi_family" and "custom_peak_load_shape" not in kw \
            and "custom_avg_load_shape" not in kw and rng.random() < 0.2:
        case["annual_shape"] = True
    if duration == "annual" and kw["building_type"] == "multi_family" and "custom_peak_load_shape" not in kw and "custom_avg_load_shape" not in kw:
        case["annual_shape"] = rng.random() < 0.6
    o = {}
    if rng.random() < 0.4:
        o["outlet_deficit_threshold_f"] = round(rng.choice([rng.uniform(0.5, 20), 0.0, 60.0]), 1)
    if rng.random() < 0.4:
        o["outlet_deficit_max_min"] = rng.choice([0, 1, 5, 9, 10, 11, 30, 60, 600])
    case["opts"] = o
    return case


def hand_heaters(rng, kw):
    sched, ctl = gen.controls(kw)
    n = rng.choice([1, 2, 3])
    hs = []
    sup, sto = kw["supply_temp_f"], kw["storage_temp_f"]
    own = rng.random() < 0.5
    for k in range(n):
        m = {}
        for name in ctl:
            on = round(rng.uniform(0.15, 0.9), 3)
            out = sto if not own else round(rng.uniform(sup + 4, sto + 10), 1)
            m[name] = [on, round(rng.uniform(sup - 12, sup + 4), 1), round(rng.uniform(0.02, max(0.05, on)), 3), round(rng.uniform(sup - 6, out), 1), out]
        sc = list(sched)
        if rng.random() < 0.3:     # free mode names
            m["eco"] = [round(rng.uniform(0.15, 0.9), 3), sup, 0.1, round(rng.uniform(sup, sto), 1), sto if not own else round(rng.uniform(sup + 4, sto + 10), 1)]
            for h in rng.sample(range(24), 6):
                sc[h] = "eco"
        h = {"ctl": m, "sched": sc}
        if kw.get("hpwh_model") and rng.random() < 0.7:
            h["model"], h["units"] = kw["hpwh_model"], rng.choice([1, 2])
        else:
            h["cap"] = round(kw.get("heating_capacity_kbtuh", 120.0) / n * rng.uniform(0.5, 1.5), 4)
        hs.append(h)
    return hs


def nominal(cap):
    return lambda oat, out, inlet: (cap, None)


def modelled(name, units, design_inlet, nominal_cap=None):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    w = WaterHeater.from_model_name(name, None, None, num_units=units, design_inlet_temp_f=design_inlet, nominal_capacity_kbtuh=nominal_cap)
    memo = {}

    def perf(oat, out, inlet):
        k = (oat, out, inlet)
        if k not in memo:
            memo[k] = (w.get_capacity_kbtuh(oat, out, inlet), w.get_power_in_kw(oat, out, inlet))
            if len(memo) > 20000:
                memo.clear()
                return perf(oat, out, inlet)
        return memo[k]
    return perf


def ctlmap(m):
    return {k: RS.Ctl(*v) for k, v in m.items()}


def build(case):
    """-> (system, building, Spec) without simulating."""
    kw = case["kw"]
    sch = gen.ALIASES.get(kw["schematic"], kw["schematic"])
    cl = RB.climate_for(kw["zip_code_or_climate_zone"])
    s = S.Spec()
    s.schematic, s.supply, s.storage, s.climate = sch, kw["supply_temp_f"], kw["storage_temp_f"], cl
    s.demand = gen.demand(kw, annual=bool(case.get("annual_shape")))
    s.defrost = kw.get("defrost_factor", 1.0)
    s.ret_t, s.ret_gpm = kw.get("return_temp_f"), kw.get("return_flow_gpm")
    s.slope = case.get("slope", RS.SLOPE.get(sch))
    s.dt, s.steps = (1, 4320) if case.get("duration", "3day") == "3day" else (10, 52560)
    s.threshold = case["opts"].get("outlet_deficit_threshold_f", 5.0)
    s.max_min = case["opts"].get("outlet_deficit_max_min", 10)
    p = gen.plant(kw)
    s.tm_on, s.tm_off = p.tm_on, p.tm_off
    sched, ctl = gen.controls(kw)
    pre = kw.get("storage_volume_storageT_gal")
    if case.get("hand"):
        sysm, bld = by_hand(case, s)
        hs = [S.Heater(ctlmap(h["ctl"]), h["sched"],
                       modelled(h["model"], h["units"], cl.design_inlet) if "model" in h else nominal(h["cap"])) for h in case["hand"]]
        s.heaters = hs
    else:
        sysm, bld = api.parts(api.engine(**kw))
        if pre is not None:
            n = kw["num_heaters"]
            if kw.get("hpwh_model"):
                s.heaters = [S.Heater(ctl, sched, modelled(kw["hpwh_model"], n, cl.design_inlet))]
            else:
                s.heaters = [S.Heater(ctl, sched, nominal(kw["heating_capacity_kbtuh"] / n)) for _ in range(n)]
        elif sch != "instant_wh":
            s.heaters = [S.Heater(ctl, sched, nominal(sysm.get_minimum_capacity_kbtuh()))]
    if sch != "instant_wh":
        s.vol = pre if pre is not None else sysm.get_minimum_storage_storageT_gal()
    if sch in ("parallel_loop", "swing_tank"):
        if pre is not None:
            s.tm_vol = kw["tm_storage_vol"]
            s.num_tm = kw["num_tm_heaters"] if sch == "parallel_loop" else 1
            cap = kw.get("tm_capacity_kbtuh")
            if kw.get("tm_model") and sch == "parallel_loop":
                s.tm_perf = modelled(kw["tm_model"], 1, kw["return_temp_f"], cap / s.num_tm if cap is not None else None)
            else:
                s.tm_perf = nominal(cap / s.num_tm)
        else:
            s.tm_vol, s.tm_perf = sysm.get_minimum_tm_volume_gal(), nominal(sysm.get_minimum_tm_capacity_kbtuh())
    if case.get("annual_shape"):
        bld.set_to_annual_load_shape()
    return sysm, bld, s


def by_hand(case, s):
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    kw = case["kw"]
    d = s.demand if not case.get("annual_shape") else gen.demand(kw)
    bld = api.building(d, kw["zip_code_or_climate_zone"])
    di = s.climate.design_inlet
    whs = []
    for h in case["hand"]:
        cm = {k: api.Controls(c) for k, c in ctlmap(h["ctl"]).items()}
        if "model" in h:
            whs.append(WaterHeater.from_model_name(h["model"], h["sched"], cm, num_units=h["units"], design_inlet_temp_f=di))
        else:
            whs.append(WaterHeater.from_nominal_capacity(h["cap"], h["sched"], cm))
    if s.schematic == "multi_pass_rtp":
        from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
        tank = SlugOverlayTank(total_volume_gal=kw["storage_volume_storageT_gal"], cold_temp_f=di, storage_temp_f=s.storage, supply_temp_f=s.supply,
                               strat_slope=s.slope)
    else:
        tank = StratifiedTank(kw["storage_volume_storageT_gal"], s.slope)
    cls = api.system_class(s.schematic)
    a = dict(water_heaters=whs, storage_tank=tank, supply_temp_f=s.supply,
             storage_temp_f=s.storage)
    if s.schematic in gen.RECIRC:
        a.update(return_temp_f=s.ret_t, return_flow_gpm=s.ret_gpm)
    if s.schematic in ("parallel_loop", "swing_tank"):
        lo, hi = (s.tm_on, s.tm_off) if s.schematic == "parallel_loop" else (s.supply, s.supply + S.DEADBAND)
        n = kw["num_tm_heaters"] if s.schematic == "parallel_loop" else 1
        c = {"normal": api.Controls(RS.Ctl(0.5, lo, 0.5, hi, hi))}
        cap = kw.get("tm_capacity_kbtuh")
        if kw.get("tm_model") and s.schematic == "parallel_loop":
            tm = WaterHeater.from_model_name(kw["tm_model"], ["normal"] * 24, c, design_inlet_temp_f=s.ret_t, nominal_capacity_kbtuh=cap / n if cap is not None else None)
        else:
            tm = WaterHeater.from_nominal_capacity(cap / n, ["normal"] * 24, c)
        if s.schematic == "parallel_loop":
            a.update(tm_on_temp_f=lo, tm_off_temp_f=hi, tm_storage_tank=MixedStorageTank(kw["tm_storage_vol"]), tm_water_heater=tm, num_tm_heaters=n)
        else:
            a.update(tm_safety_factor=kw.get("tm_safety_factor", 1.75))
    if s.schematic == "primary_no_recirc" and len(whs) != 2:
        a.pop("storage_tank")      # the documented constructor for known equipment
        sysm = cls.from_components(storage_volume_storageT_gal=kw["storage_volume_storageT_gal"], strat_slope=s.slope, **a)
    else:
        sysm = cls(**a)
    if s.schematic == "swing_tank":
        sysm.tm_storage_tank, sysm.tm_water_heater = MixedStorageTank(kw["tm_storage_vol"]), tm
    return sysm, bld


def simulate(case, sysm, bld):
    from ecoengine.interfaces import Simulator
    f = Simulator.simulate_3day if case.get("duration", "3day") == "3day" else Simulator.simulate_annual
    return f(sysm, bld, **case["opts"])


def buildable(case):
    """The reference says whether sizing has an answer for this installation."""
    if case["kw"].get("storage_volume_storageT_gal") is not None:
        return True
    try:
        ref = gen.plant(case["kw"]).size()
    except (RS.Undefined, RS.Refused):
        return False
    return case["kw"]["schematic"] == "instant_wh" or ref["vol"] > 1.0
