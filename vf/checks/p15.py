import numpy as np

from vf import api, gen as G
from vf.ref import building as RB
from vf.ref import data
from vf.ref import sizing as RS

ID = "P15"
RULE = ("installations sized by the real engine, rebuilt with a margin over the computed size and simulated (3-day and annual): no outage; and "
        "installations whose tank and heater cannot cover the demand of some window of the run even if full at its start: outage reported; "
        "distinct = (kind, schematic, storage, capacity)")
N = {"quick": 1200, "thorough": 28000}
CHUNK = 4
CASE_TIMEOUT_S = 300
ASSUMPTIONS = ["margin: 1.4 x computed storage, 1.15 x computed capacity, run hours at most 18, normal on-sensor between 0.4 and 0.7, sensors and "
               "triggers otherwise at their defaults, no load shifting; the first day is a warm-up, outages count from the second day on",
               "adequacy without margin is not promised by the code (the sizing method neglects the time between on and off sensor)"]


def plan(tier):
    return []


def gen(rng, i):
    kind = "short" if i % 3 == 2 else "fit"
    sch = ["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp"][(i // 3) % 4]
    kw = G.engine_kwargs(rng, schematic=sch, ls=False if kind == "fit" else None, tame=True)
    if kind == "fit":
        kw["aquastat_fract"] = round(rng.uniform(0.4, 0.7), 3)
        kw["max_daily_run_hr"] = round(min(kw.get("max_daily_run_hr", 16.0), 18.0), 2)
        for k in ("off_sensor_fract", "on_trigger_t_f", "off_trigger_t_f"):
            kw.pop(k, None)
        case = {"kind": kind, "kw": kw, "annual": i % 64 == 3}
        if case["annual"]:
            kw["zip_code_or_climate_zone"] = rng.randint(1, 95)
        return case
    return {"kind": kind, "kw": kw, "cap_x": round(rng.choice([rng.uniform(0.05, 0.5), 1.0]), 3), "vol_x": round(rng.choice([rng.uniform(0.05, 0.5), 1.0]), 3)}


def presize(kw, got, vol_x, cap_x):
    k = dict(kw)
    k["storage_volume_storageT_gal"] = got["vol"] * vol_x
    k["heating_capacity_kbtuh"] = got["cap"] * cap_x
    k["num_heaters"] = 1
    if "tm_vol" in got:
        k["tm_storage_vol"], k["tm_capacity_kbtuh"], k["num_tm_heaters"] = got["tm_vol"], got["tm_cap"], 1
    return k


def run(ctx, case):
    kw = case["kw"]
    p = G.plant(kw)
    try:
        ref = p.size()
    except (RS.Refused, RS.Undefined):
        ctx.event("not-sizable-skipped")
        return
    if ref["vol"] < 0.05 * p.demand.daily:
        ctx.event("negligible-storage-skipped")
        return
    sysm, _ = api.parts(api.engine(**kw))
    got = api.sized(sysm)
    if case["kind"] == "fit":
        fit(ctx, case, p, got)
    else:
        short(ctx, case, p, got)


def fit(ctx, case, p, got):
    eng = api.engine(**presize(case["kw"], got, 1.4, 1.15))
    if case["annual"]:
        run_ = eng.simulate_annual(outlet_deficit_max_min=10 ** 7)
        from_step, n = 144, 52560
    else:
        run_ = eng.simulate_3day(outlet_deficit_max_min=10 ** 7)
        from_step, n = 1440, 4320
    use = np.asarray(run_.usable_volume_supplyT_gal, dtype=float)
    ctx.check(len(use) == n, "length", f"{len(use)} steps recorded of {n}")
    bad = np.nonzero(~(use[from_step:] > 0))[0]
    ctx.check(len(bad) == 0, f"outage:{p.schematic}",
              f"{p.schematic} sized {got['cap']:.2f} kBtuh / {got['vol']:.1f} gal, built 15 % / 40 % larger, runs out {len(bad)} steps after the first day")
    if len(bad) == 0 and (use > 0).all():
        ctx.check(run_.is_successful() is True and run_.outage_minutes == 0, "verdict", "a run that never runs out must be reported successful")
    ctx.event("rode-through:" + p.schematic)
    ctx.event("steps", n)
    ctx.seen("fit", p.schematic, case["annual"], round(got["vol"], 1), round(got["cap"], 2))


def worst_excess(p, demand, vol_supply, cap_gph, loss_gph):
    """Largest amount by which the demand of a window of the 3-day run exceeds a tank full at its start plus all the heat made in it (gal at supply)."""
    shape = demand.avg if p.ls else demand.peak          # load-shift runs are simulated on the average day
    hourly = [demand.daily * shape[h % 24] for h in range(72)]
    net = np.cumsum([0.0] + [h + loss_gph - cap_gph for h in hourly])
    low = np.minimum.accumulate(net)
    return float(np.max(net - low)) - vol_supply


def short(ctx, case, p, got):
    kw = presize(case["kw"], got, case["vol_x"], case["cap_x"])
    sup, inlet = p.supply, RB.climate_for(case["kw"]["zip_code_or_climate_zone"]).inlet(0)   # the run starts on January 1st
    per_gal = data.RHO_CP * (sup - inlet) / 1000.0
    vol = kw["storage_volume_storageT_gal"] * (p.storage - inlet) / (sup - inlet)
    cap = kw["heating_capacity_kbtuh"] / per_gal
    loss = 0.0
    if p.schematic == "swing_tank":      # the loop tank's store and element can help out
        vol += kw["tm_storage_vol"] * (max(p.storage, sup + 40) - inlet) / (sup - inlet)
        cap += kw["tm_capacity_kbtuh"] / per_gal
        loss = p.ret_gpm * 60 * data.RHO_CP * (sup - p.ret_t) / 1000.0 / per_gal
    ex = worst_excess(p, p.demand, vol, cap, loss)
    need = max(5.0, 0.02 * p.demand.daily)
    if ex < need:
        ctx.event("feasible-skipped")
        return
    run_ = api.engine(**kw).simulate_3day(outlet_deficit_max_min=10 ** 7)
    ctx.check(run_.outage_minutes > 0 and run_.is_successful() is False, f"unnoticed:{p.schematic}",
              f"{p.schematic} {case['vol_x']} x storage, {case['cap_x']} x capacity lacks {ex:.0f} gal in some window, yet no outage was reported")
    ctx.check(bool(run_.get_failure_message()), "message", "an outage must come with a failure message")
    ctx.event("outage-noticed:" + p.schematic)
    ctx.event("steps", 4320)
    ctx.seen("short", p.schematic, round(kw["storage_volume_storageT_gal"], 1), round(kw["heating_capacity_kbtuh"], 2))
