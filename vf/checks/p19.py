import random
import shutil
import tempfile

from vf import simcase, tariffcase
from vf.ref import tariff as T

ID = "P19"
RULE = ("power series (recorded by hand with gaps, spikes at month and period edges, temperature-maintenance input; or simulated) priced under "
        "random tariffs and re-added independently; distinct = (series kind, timestep, length, rounded totals)")
N = {"quick": 500, "thorough": 8000}
CHUNK = 5
CASE_TIMEOUT_S = 400


def plan(tier):
    return []


def gen(rng, i):
    c = {"tariff": tariffcase.make(rng)}
    if i % 60 == 7:
        c["sim"] = simcase.make(rng, rng.choice(["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp"]), duration="annual", hand=False)
        return c
    dt = rng.choice([10, 10, 10, 10, 60, 30, 15, 20, rng.choice([40, 45, 90, 120])])
    n = 365 * 24 * 60 // dt
    c.update(dt=dt, n=n, duration=365 * 24 * 60, seed=rng.randrange(10 ** 9), kind=rng.choice(["noise", "sparse", "spikes", "const", "ramp", "edges"]),
             tm=rng.choice(["none", "none", "noise", "gaps", "only", "late", "early"]))
    if rng.random() < 0.25:
        c["len"] = rng.choice([0, 1, rng.randrange(n)])   # stopped early
    if rng.random() < 0.1:
        c.update(dt=1, n=4320, duration=4320)
        c.pop("len", None)
    return c


def series(case):
    rng = random.Random(case["seed"])
    n, dt = case["n"], case["dt"]
    per = max(1, 60 // dt)
    k = case["kind"]
    if k == "noise":
        p = [rng.choice([None, 0.0, rng.uniform(0, 90)]) for _ in range(n)]
    elif k == "sparse":
        p = [None] * n
        for _ in range(60):
            p[rng.randrange(n)] = rng.uniform(0.1, 400)
    elif k == "spikes":
        p = [1.5] * n
        for _ in range(40):
            p[rng.randrange(n)] = rng.uniform(1, 400)
    elif k == "const":
        p = [rng.uniform(1, 50)] * n
    elif k == "ramp":
        p = [0.001 * i for i in range(n)]
    else:   # biggest loads on the first and last step of months, days and hours
        p = [0.0] * n
        for h in [0, 8759] + [x for x in range(1, 8760) if T.MONTH[x] != T.MONTH[x - 1]] + rng.sample(range(8760), 50):
            for s in (h * per - 1, h * per, h * per + per - 1):
                if 0 <= s < n:
                    p[s] = rng.uniform(10, 300)
    if case["tm"] == "none":
        t = None
    elif case["tm"] == "gaps":
        t = [rng.choice([None, rng.uniform(0, 30)]) for _ in range(n)]
    else:
        t = [rng.choice([0.0, rng.uniform(0, 30)]) for _ in range(n)]
    if case["tm"] in ("late", "early"):   # a long idle stretch at either end of the year
        cut = int(n * rng.uniform(0.03, 0.97))
        t = [0.0] * cut + t[cut:] if case["tm"] == "late" else t[:cut] + [0.0] * (n - cut)
        t[rng.randrange(cut, n) if case["tm"] == "late" else rng.randrange(cut)] = 500.0
    if case["tm"] == "only":
        p = [None] * n
    m = case.get("len", n)
    return p[:m], (t[:m] if t is not None else None)


def recorded(case):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    r = SimulationRun(case["duration"], case["dt"])
    p, t = series(case)
    for i in range(len(p)):
        kw = {} if t is None else dict(tm_tank_temp_f=120.0, tm_heater_output_kbtuh=1.0, tm_heater_input_kw=t[i])
        r.record_timestep(1.0, 5.0, 10.0, p[i], 50.0, 55.0, [100.0] * 6, **kw)
    return r, p, t


def fsum(xs):
    import math
    return math.fsum(xs)


def run(ctx, case):
    if "sim" in case:
        sysm, bld, spec = simcase.build(case["sim"]) if simcase.buildable(case["sim"]) else (None, None, None)
        if sysm is None:
            return
        r = simcase.simulate(case["sim"], sysm, bld)
        p, t = list(r.heater_power_in_kw), (list(r.tm_heater_input_kw) or None)
        ctx.event("simulated-runs")
        kind = "sim:" + spec.schematic
    else:
        r, p, t = recorded(case)
        kind = case["kind"] + ":" + case["tm"]
    dt = r.timestep_min
    annual = r.duration_min == 365 * 24 * 60
    kw = [(a or 0.0) + ((t[i] or 0.0) if t is not None else 0.0) for i, a in enumerate(p)]
    hrs = dt / 60.0
    hour = [i * dt // 60 for i in range(len(kw))]
    R, A = 1e-9, 1e-7
    ctx.close(r.get_total_energy_kwh(), fsum(kw) * hrs, "total-energy", "total energy", R, A)
    ctx.close(r.get_peak_demand_kw(), max(kw) if kw else 0.0, "peak-demand", "peak power", R, A)
    ctx.close(r.get_summary()["total_energy_kwh"], fsum(kw) * hrs, "summary-energy", "energy in the summary", R, A)
    me = r.get_monthly_energy_kwh()
    if annual:
        want = [0.0] * 12
        by = [[] for _ in range(12)]
        for i, x in enumerate(kw):
            by[T.MONTH[hour[i]]].append(x)
        want = [fsum(b) * hrs for b in by]
        ctx.closelist(me, want, "monthly-energy", "monthly energy", R, A)
    else:
        ctx.check(len(me) == 12 and not any(me), "monthly-energy-short", "a run that is not annual reports monthly energy %s", me)
    scratch = tempfile.mkdtemp(prefix="vf19-")
    try:
        uc, ref = tariffcase.build(case["tariff"], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    energy, pk, off = [[] for _ in range(12)], [[] for _ in range(12)], [[] for _ in range(12)]
    top, months, kinds, rate = {}, {}, {}, {}
    for i, x in enumerate(kw):
        h = hour[i]
        c = x * hrs * ref.energy[h]
        m = T.MONTH[h]
        energy[m].append(c)
        (pk if ref.kind[h] == "peak" else off)[m].append(c)
        g = ref.group[h]
        if x > top.get(g, -1.0):
            top[g] = x
        months.setdefault(g, set()).add(m)
        kinds[g], rate[g] = ref.kind[h], ref.demand[h]
    charge = {g: top[g] * rate[g] for g in top}
    E, D = fsum(fsum(e) for e in energy), fsum(charge.values())
    base = 12.0 * ref.base
    ctx.close(r.get_annual_utility_cost(uc), E + D + base, "annual-cost", "annual cost", R, A)
    b = r.get_monthly_cost_breakdown(uc)
    d = r.get_monthly_cost_breakdown_detailed(uc)
    ctx.closelist(b["energy"], [fsum(e) for e in energy], "month-energy-cost", "monthly energy cost", R, A)
    ctx.close(fsum(b["demand"]), D, "month-demand-total", "sum of the monthly demand charges", R, A)
    ctx.close(b["base"], ref.base, "month-base", "monthly base charge", R, A)
    ctx.close(d["base"], ref.base, "detail-base", "monthly base charge in the detail", R, A)
    ctx.close(fsum(b["energy"]) + fsum(b["demand"]) + 12 * b["base"], E + D + base, "breakdown-total", "breakdown total against annual cost", R, A)
    ctx.closelist(d["energy_peak"], [fsum(e) for e in pk], "detail-peak", "monthly peak energy cost", R, A)
    ctx.closelist(d["energy_off_peak"], [fsum(e) for e in off], "detail-off", "monthly off-peak energy cost", R, A)
    ctx.closelist([x + y for x, y in zip(d["demand_peak"], d["demand_off_peak"])], b["demand"], "detail-demand-sum", "detail of the demand charges against the breakdown", R, A)
    ctx.close(fsum(d["demand_peak"]), fsum(c for g, c in charge.items() if kinds[g] == "peak"), "detail-demand-peak", "peak demand charges", R, A)
    if all(len(m) == 1 for m in months.values()):
        want = [0.0] * 12
        wp = [0.0] * 12
        for g, c in charge.items():
            m = next(iter(months[g]))
            want[m] += c
            if kinds[g] == "peak":
                wp[m] += c
        ctx.closelist(b["demand"], want, "month-demand", "monthly demand charges", R, A)
        ctx.closelist(d["demand_peak"], wp, "detail-demand-month", "monthly peak demand charges", R, A)
    ctx.close(r.get_annual_utility_cost(uc), E + D + base, "annual-cost-again", "annual cost asked again", R, A)
    ctx.event("priced-steps", len(kw))
    ctx.event("kind:" + kind)
    ctx.seen(kind, dt, len(kw), round(E, 2), round(D, 2))
    ctx.sample = {"energy_cost": E, "demand_cost": D, "base": base, "periods": len(charge)}
