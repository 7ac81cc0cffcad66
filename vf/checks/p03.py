from vf import api, sizecase
from vf.ref import sizing as RS

ID = "P03"
RULE = ("random installation without load shifting (no-recirculation, parallel loop, single-pass return-to-primary, instantaneous) sized through "
        "the facade, the class constructor, size() on a fresh object, or size() after sizing something else; distinct = "
        "(schematic, path, rounded capacity, rounded volume)")
ASSUMPTIONS = ["design-day shapes in which some hour exceeds the generation rate, run hours below 24, on-trigger leaves usable volume"]
KINDS = ["primary_no_recirc", "parallel_loop", "single_pass_rtp", "instant_wh"]
N = {"quick": 4000, "thorough": 100000}


def plan(tier):
    return []


def gen(rng, i):
    return sizecase.make(rng, KINDS[i % 4], False)


def run(ctx, case):
    r = sizecase.compare(ctx, case, ("cap", "vol"))
    if r is None:
        return
    sysm, bld, p, ref = r
    got = api.sized(sysm)
    ctx.sample = {k: got[k] for k in ("cap", "vol")}
    if p.schematic == "instant_wh":
        # enough for the worst hour, and no more
        d = p.demand
        worst = max(d.load(t * 60, 1) * 60 for t in range(24))
        rate = got["cap"] * 1000 * p.defrost / (RS.RHO_CP * (p.supply - p.inlet))
        ctx.close(rate, worst, "instant-rate", "hot water rate of the instantaneous heater vs the worst hour", 1e-6)
        return
    if p.schematic == "single_pass_rtp":
        share = p.recirc_kbtuh() * 24.0 / p.run_hr / p.defrost
        ctx.close(sysm.get_recirc_capacity_kbtuh(), share, "recirc-capacity", "capacity spent on the loop", 1e-9)
    # water balance over three repeated design days, starting with the running volume in store
    d = p.demand
    rh = p.run_hr
    heat = got["cap"] * 1000 * p.defrost / (RS.RHO_CP * (p.supply - p.inlet))
    if p.schematic == "single_pass_rtp":
        heat -= p.recirc_kbtuh() * 24.0 / rh * 1000 / (RS.RHO_CP * (p.supply - p.inlet))
    full = got["vol"] * p.strat_factor()
    low_over_starts = full
    for start in range(24):
        level = full
        low = level
        for h in range(start, start + 72):
            level = min(full, level + heat - d.daily * d.peak[h % 24])
            low = min(low, level)
        low_over_starts = min(low_over_starts, low)
    ctx.check(low_over_starts >= -1e-6 * max(1.0, full), "inadequate:" + p.schematic,
              "%s: hourly balance runs %.4f gal short of the design day", p.schematic, -low_over_starts)
    ctx.check(low_over_starts <= 1e-6 * max(1.0, full), "oversized:" + p.schematic,
              "%s: storage is never used below %.4f gal", p.schematic, low_over_starts)
    ctx.close(heat * rh, d.daily, "daily-energy:" + p.schematic, "water heated in the allowed run hours vs daily use", 1e-6)
