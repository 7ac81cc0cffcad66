import numpy as np
from vf import api, gen as G
from vf.ref import building as RB, data

ID = "P01"
RULE = ("buildings of every type, single and multi-use, built through the building class or the facade with random sizes, occupancy "
        "standards, bedroom mixes and custom shapes, read hour by hour at several timestep lengths and across annual/daily switches; "
        "distinct = (construction route, type(s), rounded daily use, timestep lengths)")
N = {"quick": 6000, "thorough": 200000}
DT = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]


def plan(tier):
    out = []
    for b in RB.TYPES:
        out.append({"t": b, "m": 7, "sw": ["annual", "daily"] if b == "multi_family" else [], "route": "class"})
        out.append({"t": [b], "m": [3.5], "sw": [], "route": "class"})
    for s in ("ashLow", "ashMed", "ecoMark"):
        out.append({"t": "multi_family", "m": 100, "std": s, "sw": [], "route": "class"})
    for i in range(6):
        out.append({"t": "multi_family", "m": 31, "std": "ca", "n_br": [1 if j == i else 0 for j in range(6)], "sw": [], "route": "class"})
    return out


def raw_shape(rng):
    s = G.shape(rng)
    return [x * rng.choice([1, 2.5, 700.0]) for x in s] if rng.random() < 0.7 else s


def gen(rng, i):
    c = {"route": rng.choice(["class", "class", "facade"]), "sw": [], "k": rng.randrange(10 ** 6)}
    kind = rng.choice(["single"] * 3 + ["multi"] * 3 + ["custom"])
    if kind == "custom" :
        c["t"], c["m"] = None, rng.choice([None, G.r(rng.uniform(20, 9000), 2)])
        c["peak"] = raw_shape(rng)
        if rng.random() < 0.5:
            c["avg"] = raw_shape(rng)
        c["route"] = "class"
        return c
    if kind == "single":
        t = rng.choice(RB.TYPES + ["multi_family"] * 6)
        c["t"] = t
        c["m"] = rng.choice([rng.randint(1, 900), G.r(rng.uniform(0.2, 900), 3)])
        if rng.random() < 0.35:
            c["peak"] = G.shape(rng)
        if rng.random() < 0.3:
            c["avg"] = G.shape(rng)
        if t == "multi_family":
            c["sw"] = [rng.choice(["annual", "daily"]) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            if c["route"] == "class" and rng.random() < 0.2:
                c["annual"] = True
    else:
        n = rng.randint(1, 5)
        c["t"] = [rng.choice(RB.TYPES + ["multi_family"] * 4) for _ in range(n)]
        c["m"] = [rng.choice([rng.randint(1, 400), G.r(rng.uniform(0.2, 400), 3)]) for _ in range(n)]
        if n > 1 and rng.random() < 0.25:     # one sub-use described only by its custom shape
            k = rng.randrange(n)
            c["t"][k] = None
            c["m"][k] = rng.choice([None, G.r(rng.uniform(20, 3000), 2)])
            c["route"] = "class"
        has_custom = None in c["t"]
        if n > 1 and (has_custom or rng.random() < 0.4):
            c["peak"] = [raw_shape(rng) if t is None else (G.shape(rng) if rng.random() < 0.5 else None) for t in c["t"]]
        if n > 1 and rng.random() < 0.3:
            c["avg"] = [None if rng.random() < 0.5 else G.shape(rng) for t in c["t"]]
    mf = c["t"] == "multi_family" or (isinstance(c["t"], list) and "multi_family" in c["t"])
    if mf:
        std = rng.choice([None, None, "ca", "ca", "ashLow", "ashMed", "ecoMark"])
        if std:
            c["std"] = std
            c["route"] = "class"
        if std == "ca":
            c["n_br"] = [rng.choice([0, 0, rng.randint(1, 60)]) for _ in range(6)]
            if sum(c["n_br"]) == 0:
                c["n_br"][rng.randrange(6)] = rng.randint(1, 40)
        if rng.random() < 0.6:
            c["gpdpp"] = G.r(rng.uniform(5, 70), 2)
    return c


def expected(c):
    kw = {"gpdpp": c.get("gpdpp", 25), "standard_gpd": c.get("std"), "n_br": c.get("n_br")}
    t, m = c["t"], c["m"]
    if isinstance(t, list) and len(t) == 1:
        t = t[0]
        m = m[0] if isinstance(m, list) else m
    if isinstance(t, list):
        d = RB.multi(t, m, c.get("peak"), c.get("avg"), **kw)
        return d, "multi_use"
    return RB.single(t, m, c.get("peak"), c.get("avg"), **kw), (t if t is not None else "custom")


def build(c):
    kw = {}
    for k, a in (("std", "standard_gpd"), ("n_br", "n_br"), ("gpdpp", "gpdpp"), ("peak", "custom_peak_load_shape"), ("avg", "custom_avg_load_shape")):
        if c.get(k) is not None:
            kw[a] = c[k]
    if c["route"] == "class":
        from ecoengine.objects.building.Building import Building
        if c.get("annual"):
            kw["annual"] = True
        return Building.from_building_type(c["t"], c["m"], api.zone({"design_oat_f": 40.0, "design_inlet_water_temp_f": 50.0}), **kw)
    eng = api.engine(building_type=c["t"], magnitude=c["m"], schematic="instant_wh", supply_temp_f=120.0, storage_temp_f=150.0,
                     zip_code_or_climate_zone=12, **kw)
    return api.parts(eng)[1]


def verify(ctx, c, b, daily, peak, avg, label, rng):
    ctx.close(b.daily_dhw_use_supplyT_gal, daily, "daily:" + label, f"daily use ({label})", 1e-9)
    n = len(peak)
    dts = rng.sample(DT, 3)
    for use_avg, sh in ((False, peak), (True, avg)):
        nm = "avg" if use_avg else "peak"
        if n == 24:
            for dt in dts:
                per = 60 // dt
                day = rng.choice([0, 1, 5, 364])
                got = [b.get_dhw_load_supplyT_gal(s, dt, use_avg) for s in range(day * 24 * per, (day + 1) * 24 * per)]
                want = [daily * sh[s // per] * dt / 60.0 for s in range(24 * per)]
                if not ctx.closelist(got, want, f"load-{nm}:{label}", f"{nm} load per {dt} min ({label})", 1e-9, 1e-9):
                    return
                ctx.close(sum(got), daily * sum(sh), f"conserve-{nm}:{label}", f"a day of {dt} min {nm} loads against the daily use", 1e-8)
                ctx.check(min(got) >= 0, f"negative-{nm}:{label}", "negative load")
        else:
            for dt in dts:
                per = 60 // dt
                hrs = [0, 23, 24, n - 1, n, n + 5, 2 * n + 7] + [rng.randrange(3 * n) for _ in range(120)]
                for h in hrs:
                    s = h * per + rng.randrange(per)
                    if not ctx.close(b.get_dhw_load_supplyT_gal(s, dt, use_avg), daily * sh[h % n] * dt / 60.0,
                                     f"load-annual-{nm}:{label}", f"annual {nm} load in hour {h} at {dt} min", 1e-9, 1e-9):
                        return
            tot = sum(b.get_dhw_load_supplyT_gal(h, 60, use_avg) for h in range(8760))
            ctx.close(tot, daily * sum(sh), f"annual-total:{label}", "annual demand", 1e-8)
    # default interval is one minute and peak
    s = rng.randrange(1440)
    ctx.close(b.get_dhw_load_supplyT_gal(s), daily * peak[(s // 60) % n] / 60.0, "default-args:" + label, "load with default arguments", 1e-9, 1e-9)
    ctx.event("loads-read:" + label)


def run(ctx, c):
    import random
    rng = random.Random(c.get("k", 1))
    (daily, peak, avg), name = expected(c)
    given = [list(x) if isinstance(x, list) else x for x in (c.get("peak") or [])] if isinstance(c.get("peak"), list) else None
    if c.get("std") == "ca":
        # the percentile is rounded to a tenth of a gallon: on an exact tie either neighbour is right
        raw = RB.ca_gpdpp(c["n_br"])[1]
        if abs((raw * 10) % 1 - 0.5) < 1e-6:
            ctx.event("rounding-tie-skipped")
            return
    b = build(c)
    ctx.check(b.building_type == name, "building-type", "building type %r, expected %r", b.building_type, name)
    mode = "daily0"
    ann = data.shapes()["multi_family"]["loadshapes"]["Annual_Normalized"]
    if c.get("annual"):
        peak_now = avg_now = ann
        mode = "annual"
    else:
        peak_now, avg_now = peak, avg
    ctx.check(b.is_annual_load_shape() == (mode == "annual"), "is-annual", "annual flag wrong after construction")
    verify(ctx, c, b, daily, peak_now, avg_now, mode, rng)
    for sw in c["sw"]:
        if sw == "annual":
            b.set_to_annual_load_shape()
            peak_now = avg_now = ann
        else:
            b.set_to_daily_load_shape()
            ls = data.shapes()["multi_family"]["loadshapes"]
            peak_now, avg_now = ls["Stream"], ls["Stream_Avg"]
        ctx.check(b.is_annual_load_shape() == (sw == "annual"), "is-annual", "annual flag wrong after switching to %s", sw)
        verify(ctx, c, b, daily, peak_now, avg_now, sw, rng)
        ctx.event("switch:" + sw)
    if not c["sw"] and name != "multi_family":
        ctx.raises(b.set_to_annual_load_shape, ValueError, "annual-refused", f"annual shape of a {name} building")
        ctx.raises(b.set_to_daily_load_shape, ValueError, "daily-refused", f"daily switch of a {name} building")
        verify(ctx, c, b, daily, peak_now, avg_now, "after-refusal", rng)
    if len(peak) == 24 and rng.random() < 0.4:
        # the same building from bare numbers; what the caller does with its arrays afterwards is no longer the building's business
        from ecoengine.objects.building.Building import Building
        p2, a2 = (np.array(peak), np.array(avg)) if rng.random() < 0.7 else (list(peak), list(avg))
        d = Building(api.zone({"design_oat_f": 40.0, "design_inlet_water_temp_f": 50.0}), daily, p2, a2)
        q = build({**c, "peak": np.array(c["peak"])}) if c["t"] is not None and isinstance(c.get("peak"), list) and not isinstance(c["t"], list) and c["route"] == "class" else None
        verify(ctx, c, d, daily, peak, avg, "direct", rng)
        for x in (p2, a2):
            x[rng.randrange(24)] += 0.5
            x[:] = x[::-1]
        verify(ctx, c, d, daily, peak, avg, "direct-after-reuse", rng)
        if q is not None and not c.get("annual"):
            verify(ctx, c, q, daily, peak, avg, "array-shape", rng)
    if given is not None:
        ctx.check(c["peak"] == given, "input-changed", "the caller's custom shape was modified")
    ctx.sample = {"type": name, "daily_gal": float(daily), "hour0": float(b.get_dhw_load_supplyT_gal(0, 60))}
    ctx.seen(c["route"], str(c["t"]), round(float(daily), 2), tuple(c["sw"]))
