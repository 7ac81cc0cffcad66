import csv
import os
import shutil
import tempfile

from vf import tariffcase
from vf.ref import tariff as T

ID = "P18"
RULE = ("every hour of the year of random tariffs (seasons with and without discount windows, hour-by-hour files) looked up at several timestep "
        "lengths, before and after a trip through a file; distinct = (kind, seasons or periods, rounded rates, timestep)")
N = {"quick": 2000, "thorough": 60000}
CHUNK = 10


def plan(tier):
    base = {"how": "seasons", "base": 10.0, "start_month": [0], "end_month": [12], "pk_demand_charge": [5.0], "pk_energy_charge": [0.4],
            "off_pk_demand_charge": [2.0], "off_pk_energy_charge": [0.1]}
    out = []
    for a, b in ((0, 24), (0, 0), (23, 24), (16, 21), (0, 1), (23, 23)):
        out.append({**base, "pk_start_hour": [a], "pk_end_hour": [b], "dts": [1, 60]})
        for da, db in ((22, 6), (0, 24), (21, 16), (12, 18), (6, 6)):
            out.append({**base, "pk_start_hour": [a], "pk_end_hour": [b], "dts": [10],
                        "discount": {"start": [da], "end": [db], "energy": [0.03], "demand": [0.5]}})
    return out


def gen(rng, i):
    c = tariffcase.make(rng)
    c["dts"] = rng.sample([1, 2, 5, 10, 15, 20, 30, 60], 2)
    if rng.random() < 0.25:   # lengths that do not divide the hour, and steps of more than one hour
        c["dts"][1] = rng.choice([7, 8, 25, 29, 40, 45, 58, 85, 90, 120, 180, 240])
    return c


def judge(ctx, uc, ref, dts, tag, kinds=True):
    period = {}
    for dt in dts:
        if 60 % dt:
            steps = [(s * dt // 60, (s,)) for s in range(525600 // dt)]
            ctx.evals += 2 * len(steps)
        else:
            per = 60 // dt
            pos = range(per) if dt >= 10 else sorted({0, 1, per // 2, per - 1})
            ctx.evals += 2 * 8760 * len(pos)
            steps = ((h, [h * per + k for k in pos]) for h in range(8760))
        for h, ss in steps:
            for s in ss:
                e = uc.get_energy_charge_at_step(s, dt)
                if e != ref.energy[h] and abs(e - ref.energy[h]) > 1e-12:
                    return ctx.close(e, ref.energy[h], f"energy:{tag}", f"energy rate of step {s} at {dt} min ({T.CALENDAR[h]})", 0, 1e-12)
                p = uc.get_demand_period_at_step(s, dt)
                if period.setdefault(h, p) != p:
                    return ctx.check(False, f"period-unstable:{tag}", "hour %s falls in period %s and %s", T.CALENDAR[h], period[h], p)
    groups = {}
    for h, p in period.items():
        groups.setdefault(p, set()).add(ref.group[h])
    bad = next((p for p, g in groups.items() if len(g) > 1), None)
    ctx.check(bad is None, f"period-merged:{tag}", lambda: f"demand period {bad} covers {sorted(map(str, groups[bad]))[:4]}")
    ctx.check(len(groups) == len({g for g in ref.group}), f"period-count:{tag}", "%d demand periods in use, expected %d", len(groups), len(set(ref.group)))
    keys = set(uc.get_all_demand_period_keys())
    ctx.check(set(groups) <= keys, f"period-undefined:{tag}", lambda: f"periods {sorted(set(groups) - keys)[:5]} have no demand charge")
    seen = set()
    for h, p in period.items():
        if p in seen:
            continue
        seen.add(p)
        ctx.close(uc.get_demand_charge_for_period(p, 7.5), ref.demand[h] * 7.5, f"demand:{tag}", f"demand charge of {T.CALENDAR[h]} ({ref.kind[h]})", 1e-12)
        if kinds:
            ctx.check(bool(uc.is_peak_map.get(p, False)) == (ref.kind[h] == "peak"), f"peak-flag:{tag}", "peak flag of %s (%s) is %s", T.CALENDAR[h], ref.kind[h], uc.is_peak_map.get(p))
    ctx.close(uc.get_yearly_base_charge(), 12.0 * ref.base, f"base:{tag}", "yearly base charge", 1e-12)
    unknown = max(keys) + 999
    ctx.raises(lambda: uc.get_demand_charge_for_period(unknown, 1.0), ValueError, f"unknown-period:{tag}", "a demand period that does not exist")
    ctx.event("hours", 8760)
    return True


def run(ctx, case):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    scratch = tempfile.mkdtemp(prefix="vf18-")
    try:
        uc, ref = tariffcase.build(case, scratch)
        judge(ctx, uc, ref, case["dts"], case["how"])
        if case["how"] == "seasons":
            for h in range(0, 8760, 13):
                p = uc.get_demand_period_at_step(h, 60)
                if not ctx.check(bool(uc.is_discount_map.get(p, False)) == (ref.kind[h] == "discount"), "discount-flag", "discount flag of %s (%s)", T.CALENDAR[h], ref.kind[h]):
                    break
        path = os.path.join(scratch, "out.csv")
        uc.to_csv(path)
        with open(path, newline="") as f:
            rows = list(csv.DictReader(f))
        ctx.check(len(rows) == 8760, "rows", "%d rows written", len(rows))
        for h in (0, 23, 24, 743, 744, 1415, 1416, 5087, 5088, 8015, 8016, 8759, *range(5, 8760, 501)):
            m, d, hod = T.CALENDAR[h]
            want = f"{T.NAMES[m]} {d}, {hod:02d}:00"
            if not ctx.check(rows[h]["Date"] == want, "date", "row %d is dated %s, expected %s", h, rows[h]["Date"], want):
                break
        back = U.from_csv(csv_path=path)
        judge(ctx, back, ref, [60, case["dts"][0]], "roundtrip", kinds=not case.get("discount"))
        judge(ctx, uc, ref, [60], "after-export")
        ctx.seen(case["how"], len(set(ref.group)), tuple(sorted(set(ref.energy)))[:6], tuple(case["dts"]))
        ctx.event("tariff:" + case["how"] + (":discount" if case.get("discount") else ""))
        ctx.sample = {"periods": len(set(ref.group)), "energy_rates": sorted(set(ref.energy))[:6]}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
