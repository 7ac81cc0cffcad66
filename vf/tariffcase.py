"""Random tariffs, and how to hand them to the real tracker."""
import csv
import os

from .ref import tariff as T


def seasons(rng):
    n = rng.choice([1, 1, 2, 3, 4, 12])
    cuts = sorted(rng.sample(range(1, 12), n - 1))
    start, end = [0] + cuts, cuts + [12]
    half = rng.random() < 0.15
    c = {"how": "seasons", "base": round(rng.uniform(0, 300), 2), "start_month": start, "end_month": end}
    ps, pe = [], []
    for _ in range(n):
        a = rng.choice([0, 23, rng.randint(0, 23)])
        b = rng.choice([a, 24, rng.randint(a, 24)])
        if half:
            a = min(23, a + 0.5)
            b = max(a, b)
        ps.append(a)
        pe.append(b)
    c["pk_start_hour"], c["pk_end_hour"] = ps, pe
    for k, hi in (("pk_demand_charge", 30), ("pk_energy_charge", 0.8), ("off_pk_demand_charge", 15), ("off_pk_energy_charge", 0.4)):
        c[k] = [round(rng.uniform(0, hi), 4) for _ in range(n)]
    if rng.random() < 0.5:
        d = {"start": [], "end": [], "energy": [], "demand": []}
        for _ in range(n):
            d["start"].append(rng.randint(0, 23))
            d["end"].append(rng.randint(0, 24))
            d["energy"].append(round(rng.uniform(0, 0.2), 4))
            d["demand"].append(round(rng.uniform(0, 9), 4))
        c["discount"] = d
    if n == 1:
        c["scalar"] = rng.random() < 0.5
    elif "discount" in c and rng.random() < 0.3:
        # one discount window given once for all seasons
        for k in c["discount"]:
            c["discount"][k] = [c["discount"][k][0]] * n
        c["one_discount"] = True
    return c


def table(rng):
    """A tariff given hour by hour in a file."""
    k = rng.choice([1, 2, 4, 24, 7])
    monthly = rng.random() < 0.5
    return {"how": "table", "base": round(rng.uniform(0, 300), 2), "periods": k, "monthly": monthly, "seed": rng.randrange(10 ** 9),
            "blank": rng.choice([0.0, 0.5, 0.95]), "vary": rng.choice([0.0, 0.0, 0.3]), "cols": rng.choice(["plain", "shuffled", "extra"]),
            "handle": rng.random() < 0.3, "by_date": rng.random() < 0.3}


def make(rng):
    return seasons(rng) if rng.random() < 0.65 else table(rng)


def rows_of(case):
    import random
    rng = random.Random(case["seed"])
    rates, rows, seen = {}, [], set()
    offs = rng.sample(range(0, 900), case["periods"] * 12)
    for (m, d, h) in T.CALENDAR:
        slot = (h * case["periods"]) // 24
        if case["by_date"] and d > 15:
            slot = (slot + 1) % case["periods"]
        p = offs[slot * 12 + (m if case["monthly"] else 0)]
        if p not in rates:
            rates[p] = (round(rng.uniform(0, 0.9), 4), round(rng.uniform(0, 25), 4))
        e, de = rates[p]
        if p not in seen:
            seen.add(p)
            rows.append((p, e, de))
            continue
        x = rng.random()
        if x < case["blank"]:
            rows.append((p, None, None))
        elif x < case["blank"] + case["vary"]:
            rows.append((p, round(rng.uniform(0, 0.9), 4), de))
        else:
            rows.append((p, e, de))
    return rows


def write_table(case, path):
    rows = rows_of(case)
    cols = ["Date", "Demand Period", "Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Monthly Base Charge"]
    if case["cols"] == "shuffled":
        cols = [cols[i] for i in (3, 1, 4, 2, 0)]
    if case["cols"] == "extra":
        cols = ["note"] + cols + ["Monthly total"]
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(cols)
        for h, (p, e, d) in enumerate(rows):
            v = {"Date": str(h), "Demand Period": p, "Energy Rate ($/kWh)": "" if e is None else e, "Demand Rate ($/kW)": "" if d is None else d,
                 "Monthly Base Charge": case["base"] if h == 0 else "", "note": "x", "Monthly total": "9"}
            w.writerow([v[c] for c in cols])
    return rows


def build(case, scratch):
    """-> (tracker, reference tariff)"""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    if case["how"] == "seasons":
        a = {k: list(case[k]) for k in ("pk_start_hour", "pk_end_hour", "pk_demand_charge", "pk_energy_charge", "off_pk_demand_charge",
                                        "off_pk_energy_charge", "start_month", "end_month")}
        if case.get("scalar"):
            a = {k: v[0] for k, v in a.items()}
            if a["start_month"] == 0 and a["end_month"] == 12:
                a.pop("start_month"), a.pop("end_month")
        d = case.get("discount")
        if d:
            one = case.get("one_discount") or case.get("scalar")
            g = lambda k: d[k][0] if one else list(d[k])
            a.update(include_discount=True, dscnt_start_hour=g("start"), dscnt_end_hour=g("end"), discnt_demand_charge=g("demand"), discnt_energy_charge=g("energy"))
        return U.from_params(monthly_base_charge=case["base"], **a), T.from_seasons(case)
    path = os.path.join(scratch, "tariff.csv")
    rows = write_table(case, path)
    ref = T.from_rows(rows, case["base"])
    if case["handle"]:
        with open(path, newline="") as f:
            return U.from_csv(csv_file=f), ref
    return U.from_csv(csv_path=path), ref
