"""Outage minutes, success, failure message and early stop, recounted from the record and from synthetic series."""
import re

from vf import simcase
from vf.checks import p14

ID = "P10"
RULE = ("verdicts of simulated and synthetic runs recomputed by an independent automaton; distinct = (source, schematic, outage minutes, "
        "stop step, thresholds)")
N = {"quick": 1100, "thorough": 16000}
CHUNK = 12


def plan(tier):
    return []


def gen(rng, i):
    if i % 5 == 4:
        sch = ["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp", "swing_tank", "instant_wh"][(i // 5) % 7]
        dur = "annual" if i % 75 == 74 else "3day"
        c = simcase.make(rng, sch, hard=True, duration=dur)
        c["kind"] = "sim"
        if sch == "swing_tank" and c["kw"].get("tm_capacity_kbtuh") and rng.random() < 0.5:
            c["kw"]["tm_capacity_kbtuh"] = round(c["kw"]["tm_capacity_kbtuh"] * rng.uniform(0.1, 0.8), 3)
        if rng.random() < 0.7 and "storage_volume_storageT_gal" in c["kw"]:
            c["kw"]["storage_volume_storageT_gal"] *= 1.0 + rng.random() * 1e-3
        return c
    dt = rng.choice([1, 1, 10, 5, 60])
    n = rng.randrange(1, 120)
    sup = round(rng.uniform(105, 135), 1)
    thr, mx = rng.choice([5.0, 0.0, round(rng.uniform(0, 15), 1)]), rng.choice([10, 0, 1, 5, 9, 11, 20, 60])
    seq = []
    flicker = rng.random() < 0.4
    if flicker:
        # deficits that last right up to the limit, broken by the shortest possible recoveries
        n = rng.randrange(40, 160)
        lim = mx // dt
        while len(seq) < n:
            ln = max(1, lim - rng.choice([0, 0, 0, 1, 2]) + (1 if rng.random() < 0.02 else 0))
            seq += [sup - thr - rng.uniform(0.01, 20) for _ in range(ln)]
            seq += [rng.choice([sup + 1.0, sup - 0.5 * thr if thr else sup + 1.0]) for _ in range(rng.choice([1, 1, 1, 2]))]
    while len(seq) < n:
        k = rng.choice(["ok", "deep", "edge", "mild"])
        ln = rng.choice([1, 2, rng.randrange(1, 25)])
        for _ in range(ln):
            seq.append({"ok": sup + rng.uniform(0, 20), "deep": sup - thr - rng.uniform(0.01, 20), "edge": sup - thr, "mild": sup - rng.uniform(0, 1) * thr}[k])
    base = rng.choice([0, 0, 1440, 2880 - n])
    usable = [rng.choice([0.0, -0.5, rng.uniform(0, 300), rng.uniform(0, 300)]) if rng.random() < 0.8 else 0.0 for _ in range(n)]
    if rng.random() < 0.3:
        usable = [max(1.0, u) for u in usable]
    return {"kind": "synth", "dt": dt, "sup": sup, "thr": thr, "mx": mx, "top": [round(x, 6) for x in seq[:n]], "usable": [round(u, 3) for u in usable],
            "lead": max(0, base // dt), "tm": rng.random() < 0.4, "via": rng.choice(["run", "simulator"]) if dt in (1, 10) else "run", "tol": rng.choice([0, 1, 10, 30])}


def stop_step(deliver, sup, thr, mx, dt):
    """First step at which the deficit has lasted more than mx minutes without a break; None if never."""
    run = 0
    for i, t in enumerate(deliver):
        if sup - t > thr:
            run += 1
            if run * dt > mx:
                return i
        else:
            run = 0
    return None


def judge_message(ctx, r, minutes, delivered, usable, dt):
    msg = r.get_failure_message()
    if minutes == 0:
        ctx.check(not re.search(r"fail", msg, re.I), "message:success", "a run without outage says %r", msg)
        return
    out = [i for i, u in enumerate(usable) if u <= 0]
    m = re.search(r"(\d+)\s*minutes", msg)
    ctx.check(bool(re.search(r"fail|undersized", msg, re.I)) and m and int(m.group(1)) == minutes, "message:minutes", "message %r, outage %d min", msg, minutes)
    day = re.search(r"day\s+(\d+)", msg)
    ctx.check(day and int(day.group(1)) == out[0] * dt // 1440 + 1, "message:day", "message %r, first outage at step %d of %d min", msg, out[0], dt)
    t = re.search(r"(-?\d+\.\d+)\s*°?F", msg)
    want = sum(delivered[i] for i in out) / len(out)
    ctx.check(t and abs(float(t.group(1)) - want) <= 0.051, "message:temperature", "message %r, mean delivered temperature in outage %.3f", msg, want)


def run(ctx, c):
    if c["kind"] == "synth":
        return synth(ctx, c)
    case = c
    mp = c["kw"]["schematic"] == "multi_pass_rtp"
    out = p14.run(ctx, case, cats=())
    if out is None:
        return
    r, s, w, deliver, sysm, bld = out
    n = len(r.dhw_demand_supplyT_gal)
    # rounding dust is no usable water
    minutes = 0 if s.schematic == "instant_wh" else sum(1 for u in r.usable_volume_supplyT_gal if u <= 1e-9) * s.dt
    ctx.check(r.outage_minutes == minutes, "outage-minutes", "%r outage minutes reported, %r minutes recorded without usable water (%s)", r.outage_minutes, minutes, s.schematic)
    # the system's own verdict about its present state (a swing system's storage tank is not its delivery point)
    now = s.schematic != "instant_wh" and bool(r.usable_volume_supplyT_gal[-1] <= 0)
    if s.schematic == "instant_wh" or s.schematic != "swing_tank" and not 0 < r.usable_volume_supplyT_gal[-1] <= 1e-9:
        for demand in (0.0, 3.0):
            ctx.check(bool(sysm.check_for_outage(demand)) == now, "outage-now", "check_for_outage(%r) after the last step is not %r (%s)", demand, now, s.schematic)
    for tol in (0, minutes - 1, minutes, minutes + 1):
        if tol >= 0:
            ctx.check(bool(r.is_successful(tol)) == (minutes <= tol), "success", "is_successful(%d) = %r with %d outage minutes", tol, r.is_successful(tol), minutes)
    ctx.check(bool(r.is_successful()) == (minutes == 0), "success-default", "is_successful() = %r with %d outage minutes", r.is_successful(), minutes)
    if s.schematic == "swing_tank":
        d = list(r.tm_tank_temp_f)
    elif mp:
        if w.lost or len(deliver) != n:
            return
        d = deliver
        if any(abs(s.supply - s.threshold - t) < 0.1 for t in d):
            ctx.event("threshold-tie")
            return
    else:
        d = list(r.tank_temps_f[-1])
    k = stop_step(d, s.supply, s.threshold, s.max_min, s.dt)
    if k is None:
        ctx.check(not r.stopped_early and n == s.steps, "stopped-without-reason", "stopped_early=%r after %d of %d steps although the delivered temperature never failed for long enough", r.stopped_early, n, s.steps)
    else:
        ctx.check(r.stopped_early and n == k + 1, "stop-step", "stopped_early=%r after %d steps; the limit was exceeded at step %d", r.stopped_early, n, k)
        ctx.event("early-stop")
    if s.schematic != "instant_wh":
        shown = r.tm_tank_temp_f if s.schematic == "swing_tank" else r.tank_temps_f[5]
        judge_message(ctx, r, minutes, shown, r.usable_volume_supplyT_gal, s.dt)
    else:
        judge_message(ctx, r, 0, [], [], s.dt)
    ctx.seen("sim", s.schematic, minutes, k, s.threshold, s.max_min)


def scripted(c, top, us):
    """The real simulator driven by a system whose steps are scripted."""
    from ecoengine.interfaces import Simulator
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem

    class Scripted(DHWSystem):
        def simulate_step(self, building, timestep_interval, interval_min=1, mode="normal"):
            t, u = (top[timestep_interval], us[timestep_interval]) if timestep_interval < len(top) else (c["sup"] + 9.0, 33.0)
            d = {"demand_supplyT_gal": 1.0, "usable_volume_supplyT_gal": u, "heater_output_kbtuh": 0.0, "heater_power_in_kw": None, "oat_f": 50.0,
                 "inlet_water_temp_f": 50.0, "tank_temps_f": [t - 5.0] * 5 + [t], "mode": "normal"}
            if c["tm"]:
                # a delivery temperature of its own, as swing and multi-pass systems report
                d.update(tank_temps_f=[t - 20.0] * 5 + [t - 9.0], delivery_temp_f=t, tm_tank_temp_f=t, tm_heater_output_kbtuh=0.0, tm_heater_input_kw=None)
            return d

    s = Scripted(water_heaters=[], storage_tank=StratifiedTank(100.0), supply_temp_f=c["sup"], storage_temp_f=c["sup"] + 20.0)
    b = Building(ClimateZone.from_design_conditions(50.0, 50.0), 100.0, [1 / 24] * 24, [1 / 24] * 24)
    r = Simulator.simulate(s, b, "3day" if c["dt"] == 1 else "annual", outlet_deficit_threshold_f=c["thr"], outlet_deficit_max_min=c["mx"])
    return r, (4320 if c["dt"] == 1 else 52560)


def synth(ctx, c):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    dt = c["dt"]
    total = c["lead"] + len(c["top"])
    r = SimulationRun(total * dt, dt, outlet_deficit_threshold_f=c["thr"], outlet_deficit_max_min=c["mx"])
    r.supply_temp_f = c["sup"]
    r.show_tm_panel = c["tm"]
    top = [c["sup"] + 5.0] * c["lead"] + c["top"]
    us = [50.0] * c["lead"] + c["usable"]
    want = stop_step(top, c["sup"], c["thr"], c["mx"], dt)
    if c["via"] == "simulator":
        if dt == 10 and want is None:
            top, us = top + [0.0] * 100, us + [0.0] * 100     # end the scripted year soon
            want = stop_step(top, c["sup"], c["thr"], c["mx"], dt)
        if any(abs(c["sup"] - c["thr"] - t) < 1e-9 for t in top) and c["thr"] not in (0.0, 5.0):
            return
        r, full = scripted(c, top, us)
        n = len(r.usable_volume_supplyT_gal)
        ctx.check(n == (full if want is None else want + 1), "scripted-stop", "a scripted run recorded %d steps, the limit is exceeded at %r", n, want)
        ctx.check(r.stopped_early == (want is not None), "scripted-flag", "stopped_early %r, expected %r", r.stopped_early, want is not None)
        minutes = sum(1 for u in us[:n] if u <= 0) * dt
        ctx.check(r.outage_minutes == minutes, "scripted-minutes", "%r outage minutes, expected %r", r.outage_minutes, minutes)
        ctx.check(bool(r.is_successful()) == (minutes == 0), "scripted-success", "is_successful() with %d minutes", minutes)
        ctx.event("scripted")
        ctx.seen("scripted", dt, minutes, want, c["thr"], c["mx"])
        return
    stop = None
    n = 0
    for i, (t, u) in enumerate(zip(top, us)):
        n += 1
        r.record_timestep(dhw_demand_supplyT_gal=1.0, usable_volume_supplyT_gal=u, heater_output_kbtuh=0.0, heater_power_in_kw=None, oat_f=50.0,
                          inlet_water_temp_f=50.0, tank_temps_f=[t - 5.0] * 5 + [t], mode="normal",
                          tm_tank_temp_f=(t - 2.0) if c["tm"] else None, tm_heater_output_kbtuh=0.0 if c["tm"] else None, tm_heater_input_kw=None)
        if u <= 0:
            r.record_outage(dt)
        if r.check_outlet_deficit(t, c["sup"]):
            stop = i
            break
    # ties are decided by one rounding of (supply - threshold)
    tie = any(abs(c["sup"] - c["thr"] - t) < 1e-9 for t in top) and c["thr"] not in (0.0, 5.0)
    if not tie:
        ctx.check(stop == want, "synthetic-stop", "stopped at %r, the limit is exceeded at %r", stop, want)
        ctx.check(r.stopped_early == (want is not None), "synthetic-flag", "stopped_early %r, expected %r", r.stopped_early, want is not None)
    minutes = sum(1 for u in us[:n] if u <= 0) * dt
    ctx.check(r.outage_minutes == minutes, "synthetic-minutes", "%r outage minutes, expected %r", r.outage_minutes, minutes)
    ctx.check(bool(r.is_successful(c["tol"])) == (minutes <= c["tol"]), "synthetic-success", "is_successful(%d) with %d minutes", c["tol"], minutes)
    judge_message(ctx, r, minutes, [t - 2.0 for t in top] if c["tm"] else top, us[:n], dt)
    s = r.get_summary()
    ctx.check(s["total_outage_min"] == minutes and bool(s["successful"]) == (minutes == 0) and s["stopped_early"] == r.stopped_early, "synthetic-summary", "summary %r", s)
    ctx.event("synthetic")
    ctx.seen("synth", dt, minutes, stop, c["thr"], c["mx"])
