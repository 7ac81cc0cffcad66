"""Integrity of the recorded simulation: completeness, alignment, bounds, and summaries implied by the record."""
import math

from vf import simcase
from vf.checks import p14
from vf.ref import sim as S

ID = "P09"
RULE = ("complete simulation records in which every entry of every series was judged; distinct = (schematic, duration, heater kind, "
        "shape kind, run length, outage class)")
N = {"quick": 200, "thorough": 4000}
CHUNK = 2


def plan(tier):
    return []


def gen(rng, i):
    dur = "annual" if i % 20 == 19 else "3day"
    sch = ["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp", "instant_wh", "swing_tank"][i % 7]
    return simcase.make(rng, sch, hard=rng.random() < 0.35, duration=dur)


def run(ctx, case):
    out = p14.run(ctx, case, cats=("inputs",))
    if out is None:
        return
    r, spec, w, deliver, sysm, bld = out
    judge_record(ctx, r, spec)
    judge_summary(ctx, r, spec)


def judge_record(ctx, r, s):
    n = len(r.dhw_demand_supplyT_gal)
    ctx.check((n == s.steps) if not r.stopped_early else 0 < n <= s.steps, "length", "%d steps recorded of %d (stopped early: %s)", n, s.steps, r.stopped_early)
    ctx.check(r.timestep_min == s.dt and r.num_steps == s.steps and r.duration_min == s.dt * s.steps, "duration", "the run describes itself as %r min in %r min steps", r.duration_min, r.timestep_min)
    for name in ("usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f", "inlet_water_temp_f", "heater_mode"):
        ctx.check(len(getattr(r, name)) == n, "aligned:" + name, "%s has %d entries for %d steps", name, len(getattr(r, name)), n)
    ctx.check(len(r.tank_temps_f) == 6 and all(len(x) == n for x in r.tank_temps_f), "aligned:tank_temps_f", "tank node series are not aligned with the %d steps", n)
    tm = s.schematic in ("parallel_loop", "swing_tank")
    for name in ("tm_tank_temp_f", "tm_heater_output_kbtuh", "tm_heater_input_kw"):
        ctx.check(len(getattr(r, name)) == (n if tm else 0), "aligned:" + name, "%s has %d entries for %d steps", name, len(getattr(r, name)), n)
    ctx.close(r.supply_temp_f, s.supply, "supply", "supply temperature of the run")
    hottest = max([s.storage] + [c.out_t for h in s.heaters for c in h.ctl.values()])
    coldest = min(r.inlet_water_temp_f)
    vol = s.vol or 0.0
    for i in range(n):
        t = [x[i] for x in r.tank_temps_f]
        u = r.usable_volume_supplyT_gal[i]
        out, kw = r.heater_output_kbtuh[i], r.heater_power_in_kw[i]
        ok = all(map(math.isfinite, t)) and math.isfinite(u) and math.isfinite(out) and (kw is None or math.isfinite(kw))
        if not ctx.check(ok, "finite", "non-finite value recorded at step %d", i):
            return
        if s.schematic != "instant_wh":
            if s.schematic != "multi_pass_rtp" or out == 0:
                inv = all(a <= b + 1e-6 for a, b in zip(t, t[1:]))
            else:
                inv = True      # a slug heated from below may be warmer than the water above it
            lo = min(t) >= coldest - 1e-6
            hi = max(t) <= hottest + 1e-6
            if not (inv and lo and hi):
                ctx.check(False, "inversion" if not inv else "temp-range", "step %d: tank temperatures %r (inlet from %r, hottest source %r)", i, t, coldest, hottest)
                return
            if not -1e-9 <= u <= vol * (1 + 1e-9):
                ctx.check(False, "usable-range", "step %d: usable volume %r of a %r gal tank", i, u, vol)
                return
            if s.schematic != "swing_tank" and s.schematic != "multi_pass_rtp" and abs(t[-1] - s.supply) > 1e-6:
                if (u > 0) != (t[-1] > s.supply):
                    ctx.check(False, "usable-vs-top", "step %d: usable volume %r with the top of the tank at %r, supply %r", i, u, t[-1], s.supply)
                    return
        if out < 0 or (kw or 0) < 0:
            ctx.check(False, "negative", "step %d: output %r, power %r", i, out, kw)
            return
        if out == 0 and (kw or 0) > 0:
            ctx.check(False, "power-without-heat", "step %d: power %r without heat output", i, kw)
            return
    ctx.evals += 4 * n
    coolest = min(s.ret_t, r.tm_tank_temp_f[0]) if s.schematic == "parallel_loop" and r.tm_tank_temp_f else -math.inf
    for i in range(len(r.tm_tank_temp_f)):
        if r.tm_tank_temp_f[i] < coolest - 1e-6:
            ctx.check(False, "tm-below-return", "step %d: loop tank at %r, the loop returns at %r", i, r.tm_tank_temp_f[i], s.ret_t)
            return
        if r.tm_heater_output_kbtuh[i] < 0 or (r.tm_heater_input_kw[i] or 0.0) < 0 or not math.isfinite(r.tm_tank_temp_f[i]):
            ctx.check(False, "tm-range", "step %d: loop heater %r kBTU/h, %r kW, tank %r", i, r.tm_heater_output_kbtuh[i], r.tm_heater_input_kw[i], r.tm_tank_temp_f[i])
            return


def totals(r):
    n = len(r.heater_power_in_kw)
    h = r.timestep_min / 60.0
    tm = list(r.tm_heater_input_kw) + [None] * (n - len(r.tm_heater_input_kw))
    kw = [(a or 0.0) + (b or 0.0) for a, b in zip(r.heater_power_in_kw, tm)]
    return math.fsum(kw) * h, max(kw) if kw else 0.0, kw


def judge_summary(ctx, r, s):
    e, pk, _ = totals(r)
    sm = r.get_summary()
    ctx.close(r.get_total_energy_kwh(), e, "energy", "total energy", 1e-9, 1e-9)
    ctx.close(r.get_peak_demand_kw(), pk, "peak", "peak demand", 1e-12, 1e-12)
    ctx.close(sm["total_energy_kwh"], e, "summary:energy", "summary energy", 1e-9, 1e-9)
    ctx.close(sm["peak_demand_kw"], pk, "summary:peak", "summary peak demand", 1e-12, 1e-12)
    ctx.check(sm["num_steps_recorded"] == len(r.dhw_demand_supplyT_gal), "summary:steps", "summary counts %r steps, %d recorded", sm["num_steps_recorded"], len(r.dhw_demand_supplyT_gal))
    ctx.check(sm["stopped_early"] == r.stopped_early, "summary:stopped", "summary stopped_early %r", sm["stopped_early"])
    out = sum(1 for u in r.usable_volume_supplyT_gal if u <= 0) * r.timestep_min if s.schematic != "instant_wh" else 0
    ctx.check(sm["total_outage_min"] == out, "summary:outage", "summary outage %r min, the record has %r", sm["total_outage_min"], out)
    ctx.check(bool(sm["successful"]) == (out == 0), "summary:success", "summary successful=%r with %r outage minutes", sm["successful"], out)
    m = r.get_monthly_energy_kwh()
    ctx.check(len(m) == 12, "months", "%d months", len(m))
    if s.dt == 10:
        ctx.close(math.fsum(m), e, "monthly-sum", "sum of monthly energy", 1e-9, 1e-9)
    else:
        ctx.check(all(x == 0 for x in m), "monthly-3day", "a 3-day run reports monthly energy %r", m)
