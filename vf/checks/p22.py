import random

from vf import api
from vf.ref import building as RB, data, perf

ID = "P22"
RULE = ("every filter combination of the model catalogue, every station, random output-capacity queries over all models and outdoor-temperature buckets "
        "of locations given each way; distinct = (helper, arguments class, result)")
N = {"quick": 1200, "thorough": 36000}
CHUNK = 10


def plan(tier):
    f = [{"models": [mp, res, sg]} for mp in (False, True) for res in (False, True) for sg in (False, True)]
    return f + [{"defaults": True}, {"stations": None}, {"refuse": True}] + [{"zones": list(range(k, 97, 8))} for k in range(1, 9)] + \
        [{"usable": n} for n in data.maps()]


def gen(rng, i):
    k = rng.random()
    if k < 0.06:          # exclusions that name no model, though nearly
        pick = []
        for m in rng.sample(sorted(data.maps()), 12):
            pick.append(rng.choice([m[:-3], m[:rng.randrange(7, len(m))], m[rng.randrange(1, 9):], m.lower(), m + " ", data.maps()[m]["name"], m.replace("_", "-")]))
        pick = [x for x in pick if x not in data.maps()]
        return {"models": [rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5], "exclude": pick + rng.sample(sorted(data.maps()), rng.randrange(0, 3))}
    if k < 0.15:
        return {"models": [rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5],
                "exclude": rng.sample(sorted(data.maps()), rng.randrange(1, 40)) + (["MODELS_none"] if rng.random() < 0.3 else [])}
    if k < 0.3:
        return {"stations": rng.choice([[], [96], rng.sample(range(1, 97), rng.randrange(1, 60)), [0, 200]])}
    if k < 0.5:
        return {"bucket": rng.choice(["zip", "zipint", "zone", "station"]), "seed": rng.randrange(10 ** 9)}
    return {"capacity": True, "seed": rng.randrange(10 ** 9)}


def want_models(mp, res, sg, exclude=()):
    out = []
    for code, meta in data.maps().items():
        if code in exclude or (sg and not meta.get("SGIP_avail")) or code.endswith("_MP") != mp or (not res and "_C_" not in code):
            continue
        out.append([code, meta["name"]])
    return out


def run(ctx, c):
    import ecoengine.interfaces.EcosizerEngine as E
    if "models" in c:
        mp, res, sg = c["models"]
        kw = {"multi_pass": mp, "include_residential": res, "sgip_models_only": sg}
        ex = list(c.get("exclude", []))
        if ex:
            kw["exclude_models"] = ex
        got = [list(x) for x in E.get_list_of_models(**kw)]
        want = want_models(mp, res, sg, ex)
        ctx.check(sorted(got) == sorted(want), "models", lambda: f"models for {kw}: missing {[x for x in want if x not in got][:3]}, extra {[x for x in got if x not in want][:3]}")
        ctx.check(len({x[0] for x in got}) == len(got), "models-twice", "a model is listed twice for %s", kw)
        ctx.check(ex == c.get("exclude", []), "models-argument", "the exclusion list was altered")
        got.clear()
        again = [list(x) for x in E.get_list_of_models(**kw)]
        ctx.check(sorted(again) == sorted(want), "models-again", "asking again gives %s models, expected %s", len(again), len(want))
        ctx.event("model-lists")
        ctx.seen("models", mp, res, sg, len(ex), len(want))
    elif "defaults" in c:
        got = [list(x) for x in E.get_list_of_models()]
        ctx.check(sorted(got) == sorted(want_models(False, True, True)), "models-default", "the default list has %s models", len(got))
        ctx.seen("models-default", len(got))
    elif "stations" in c:
        ex = c["stations"]
        got = [list(x) for x in (E.get_weather_stations() if ex is None else E.get_weather_stations(exclude_zones=list(ex)))]
        cut = [96] if ex is None else ex
        want = [list(x) for x in data.climate()["station"] if x[1] not in cut]
        ctx.check(sorted(got) == sorted(want), "stations", lambda: f"stations without zones {cut}: {len(got)} listed, expected {len(want)}")
        got2 = [list(x) for x in (E.get_weather_stations() if ex is None else E.get_weather_stations(list(ex)))]
        ctx.check(got2 == got, "stations-again", "asking again gives another list")
        ctx.seen("stations", len(want))
        ctx.event("station-lists")
    elif "zones" in c:
        for z in c["zones"]:
            compare(ctx, E.get_oat_buckets(zone_id=z), RB.Climate(z), f"zone {z}")
    elif "bucket" in c:
        rng = random.Random(c["seed"])
        h = c["bucket"]
        if h == "zone":
            z = rng.randint(1, 96)
            got, ref, what = E.get_oat_buckets(zone_id=z), RB.Climate(z), f"zone {z}"
        elif h == "station":
            s = rng.choice(data.climate()["station"])
            got, ref, what = E.get_oat_buckets(weather_station=s[0]), RB.Climate(s[1]), f"station {s}"
        else:
            s = rng.choice(data.climate()["zip"])
            got, ref, what = E.get_oat_buckets(zip_code=int(s[0]) if h == "zipint" else s[0]), RB.Climate(s[1]), f"zip {s}"
        compare(ctx, got, ref, what)
    elif "usable" in c:
        usable(ctx, c["usable"])
    elif "refuse" in c:
        refuse(ctx, E)
    else:
        rng = random.Random(c["seed"])
        for _ in range(8):
            n = rng.choice(sorted(data.maps()))
            m = perf.Model(n)
            ed = m.edges() or [20.0, 100.0]
            oat, inl, out = round(rng.uniform(ed[0] - 5, ed[-1] + 5), 2), round(rng.uniform(38, 80), 2), round(rng.uniform(115, 165), 2)
            kw = {}
            units, der, kwh = 1, 0.0, True
            if rng.random() < 0.7:
                kw["num_heaters"] = units = rng.choice([1, 2, 3, 12])
            if rng.random() < 0.6:
                kw["defrost_derate"] = der = rng.choice([0.0, 1.0, round(rng.uniform(0, 1), 3)])
            if rng.random() < 0.7:
                kw["return_as_kw"] = kwh = rng.random() < 0.5
            want = m.query(oat, out, inl)[1] * units * (1 - der)
            if kwh:
                want /= data.KBTUH_PER_KW
            got = E.get_hpwh_output_capacity(n, oat, inl, out, **kw)
            ctx.close(got, want, "output-capacity", f"output of {n} at {oat}/{inl}/{out} {kw}", 2e-6)
            ctx.event("capacity-queries")
            ctx.seen("cap", n, units, kwh, der > 0, round(want, 0))


def compare(ctx, got, ref, what):
    want = ref.buckets()
    ctx.check(sum(got.values()) == 365, "bucket-days", "buckets of %s hold %s days", what, sum(got.values()))
    ctx.check({float(k): v for k, v in got.items()} == want, "buckets", lambda: f"buckets of {what}: {got} expected {want}")
    ctx.event("bucket-queries")
    ctx.seen("buckets", ref.zone)


def usable(ctx, name):
    """Every catalogued model can be put into an engine and simulated."""
    mp = name.endswith("_MP")
    kw = {"building_type": "multi_family", "magnitude": 60, "zip_code_or_climate_zone": 19, "supply_temp_f": 120.0, "storage_temp_f": 140.0,
          "schematic": "multi_pass_rtp" if mp else "primary_no_recirc", "storage_volume_storageT_gal": 500.0, "hpwh_model": name, "num_heaters": 2}
    if mp:
        kw.update(return_temp_f=114.0, return_flow_gpm=2.0)
    e = api.engine(**kw)
    r = e.simulate_3day()
    out = [x for x in r.heating_output_kbtuh_series] if hasattr(r, "heating_output_kbtuh_series") else None
    ctx.check(r.get_total_energy_kwh() > 0, "usable-energy", "%s uses no energy in a simulation", name)
    ctx.seen("usable", name)
    ctx.event("models-simulated")
    ctx.sample = {"model": name, "kwh": r.get_total_energy_kwh(), "steps": len(out) if out else None}


def refuse(ctx, E):
    for kw in ({}, {"zip_code": "94103", "zone_id": 3}, {"zone_id": 3, "weather_station": "OAKLAND"}, {"zip_code": 94103, "weather_station": "x"},
               {"zip_code": 94103, "zone_id": 3, "weather_station": "x"}, {"zone_id": 0}, {"zone_id": 97}, {"zip_code": "00000"}, {"weather_station": "NOWHERE"}):
        ctx.raises(lambda: E.get_oat_buckets(**kw), ValueError, "bucket-arguments", f"buckets for {kw}")
    m = sorted(data.maps())[0]
    for d in (-0.001, 1.001, 5, -1):
        ctx.raises(lambda: E.get_hpwh_output_capacity(m, 50.0, 50.0, 140.0, defrost_derate=d), ValueError, "derate", f"defrost derate {d}")
    for n in (0, -1, 1.5, 2.0):
        ctx.raises(lambda: E.get_hpwh_output_capacity(m, 50.0, 50.0, 140.0, num_heaters=n), ValueError, "heater-count", f"{n} heaters")
    for bad in ("", "MODELS_none"):
        ctx.raises(lambda: E.get_hpwh_output_capacity(bad, 50.0, 50.0, 140.0), ValueError, "capacity-model", f"model {bad!r}")
    ctx.seen("refuse")
