import math
import random

from vf.ref import data, perf

ID = "P17"
RULE = ("capacity and power queries on every catalogued model (interleaved over several live heaters, inside the map, at its nodes and outside on "
        "every side) compared with the published map; distinct = (model, regime of the map, units, rounded result)")
N = {"quick": 7000, "thorough": 200000}
CHUNK = 12


def plan(tier):
    return [{"golden": n} for n in data.maps()] + [{"refuse": True}]


def gen(rng, i):
    names = sorted(data.maps())
    if i % 12 == 5:
        return {"seed": rng.randrange(10 ** 9), "coef": rng.choice([n for n in names if "perfmap" in data.maps()[n]])}
    return {"seed": rng.randrange(10 ** 9), "models": [names[i % len(names)]] + rng.sample(names, 2)}


def make(rng, name):
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    a = {}
    units, di, nom = 1, 50.0, None
    if rng.random() < 0.6:
        a["num_units"] = units = rng.choice([1, 2, 3, 7])
    if rng.random() < 0.6:
        a["design_inlet_temp_f"] = di = round(rng.uniform(36, 75), 1)
    if rng.random() < 0.4:
        a["nominal_capacity_kbtuh"] = nom = round(rng.uniform(10, 900), 2)
    if rng.random() < 0.5:
        w = WaterHeater.from_model_name(name, ["normal"] * 24, {}, **a)
        return w, w.performance_map, perf.Model(name, units, di, nom), a
    p = PerformanceMap.from_model_name(name, **a)
    return p, p, perf.Model(name, units, di, nom), a


def point(rng, m):
    ed = m.edges() or [50.0]
    e = rng.choice([ed[0], ed[-1], rng.choice(ed)])
    oat = rng.choice([rng.uniform(-25, 120), rng.uniform(ed[0], ed[-1]), e, e - 1e-3, e + 1e-3, rng.uniform(ed[0] - 12, ed[0]), ed[-1] + 30])
    out = rng.choice([rng.uniform(105, 180), rng.uniform(120, 160), 140.0, 160.0])
    inl = rng.choice([None, rng.uniform(36, 85), rng.uniform(85, 150), 50.0])
    return round(oat, 4), round(out, 3), None if inl is None else round(inl, 3)


def run(ctx, case):
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    if "golden" in case:
        n = case["golden"]
        p = PerformanceMap.from_model_name(n)
        for oat, out, inl, c, w in data.perf_samples()[n]:
            ctx.close(p.get_capacity_kbtuh(oat, out, inl), c, "golden-capacity", f"{n} capacity at {oat}/{out}/{inl}", 1e-8)
            ctx.close(p.get_power_in_kw(oat, out, inl), w, "golden-power", f"{n} power at {oat}/{out}/{inl}", 1e-8)
        ctx.seen("golden", n)
        ctx.event("golden-samples", 60)
        return
    if "refuse" in case:
        return refuse(ctx)
    if "coef" in case:
        return coef(ctx, case)
    rng = random.Random(case["seed"])
    live = [make(rng, n) for n in case["models"]]
    hist = []
    for _ in range(24):
        obj, pm, m, a = live[0] if rng.random() < 0.6 else rng.choice(live)
        q = point(rng, m)
        how, c, w = m.query(*q)
        args = q if q[2] is not None or rng.random() < 0.5 else q[:2]
        what = f"{m.name} {a} at {q} ({how})"
        order = rng.random() < 0.5
        if order:
            gw = obj.get_power_in_kw(*args)
        gc = obj.get_capacity_kbtuh(*args)
        if not order:
            gw = obj.get_power_in_kw(*args)
        ctx.check(math.isfinite(gc) and math.isfinite(gw) and gc > 0 and gw > 0, "not-positive", "%s: capacity %s, power %s", what, gc, gw)
        ctx.close(gc, c, f"capacity:{how}", f"capacity of {what}", 1e-9)
        ctx.close(gw, w, f"power:{how}", f"power of {what}", 1e-9)
        ctx.close(pm.get_cop(*args), c / data.KBTUH_PER_KW / w, "cop", f"COP of {what}", 1e-9)
        lo = min(m.edges()) if m.edges() else None
        if lo is not None:
            ctx.check(bool(pm.is_within_operating_bounds(q[0])) == (q[0] >= lo), "bounds", "%s: operating bounds from %s", what, lo)
        if hasattr(obj, "turn_on"):
            obj.turn_off()
            ctx.close(obj.get_output_kbtuh(*args), 0.0, "output-off", f"output of {what} while off")
            obj.turn_on()
            ctx.close(obj.get_output_kbtuh(*args), c, "output-on", f"output of {what} while on", 1e-9)
        hist.append((obj, args, gc, gw, what))
        ctx.event("query:" + how)
        ctx.seen(m.name, how, m.units, round(c, 1))
    for obj, args, gc, gw, what in rng.sample(hist, 8):
        ctx.close(obj.get_capacity_kbtuh(*args), gc, "repeat-capacity", f"capacity of {what} asked again", 1e-12)
        ctx.close(obj.get_power_in_kw(*args), gw, "repeat-power", f"power of {what} asked again", 1e-12)
    ctx.sample = {"last": hist[-1][4], "capacity": hist[-1][2], "power": hist[-1][3]}


def coef(ctx, case):
    """The coefficient maps of all models that publish one, also of those the catalogue serves from lab data."""
    from ecoengine.objects.components.heating.PerformanceMap import HPWHsimPerformanceMap
    rng = random.Random(case["seed"])
    n = case["coef"]
    units, di, nom = rng.choice([1, 2, 5]), round(rng.uniform(38, 70), 1), rng.choice([None, round(rng.uniform(10, 900), 2)])
    m = perf.Model(n, units, di, nom)
    m.lab = False
    p = HPWHsimPerformanceMap(model_name=n, perfmap=data.maps()[n]["perfmap"], num_units=units, is_multipass=n.endswith("MP"), nominal_capacity_kbtuh=nom,
                              design_inlet_temp_f=di)
    for _ in range(12):
        oat, out, inl = point(rng, m)
        how, c, w = m.query(oat, out, inl)
        ctx.close(p.get_capacity_kbtuh(oat, out, inl), c, f"coef-capacity:{how}", f"{n} coefficients: capacity at {oat}/{out}/{inl}", 1e-9)
        ctx.close(p.get_power_in_kw(oat, out, inl), w, f"coef-power:{how}", f"{n} coefficients: power at {oat}/{out}/{inl}", 1e-9)
        ctx.event("coef:" + how)
        ctx.seen("coef", n, how, round(c, 1))


def refuse(ctx):
    from ecoengine.objects.components.heating.PerformanceMap import NominalPerformanceMap, PerformanceMap
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    for bad in ("MODELS_nothing", "", "models_ColmacCxV_5_C_SP", "MODELS_ColmacCxV_5_C_SP "):
        ctx.raises(lambda: PerformanceMap.from_model_name(bad), ValueError, "unknown-model", f"model {bad!r}")
        ctx.raises(lambda: WaterHeater.from_model_name(bad, None, None), ValueError, "unknown-model", f"heater model {bad!r}")
    for n in sorted(data.maps()):
        p = PerformanceMap.from_model_name(n)
        ctx.raises(lambda: p.get_capacity_kbtuh(None, 140.0, 50.0), ValueError, "no-oat", f"{n} without an outdoor temperature")
        ctx.raises(lambda: p.get_power_in_kw(None, 140.0, 50.0), ValueError, "no-oat", f"{n} power without an outdoor temperature")
    for cap in (0.5, 10.0, 12345.678):
        for o in (NominalPerformanceMap(cap), WaterHeater.from_nominal_capacity(cap, None, None)):
            for q in ((-20.0, 110.0), (50.0, 140.0, 50.0), (120.0, 180.0, 99.0)):
                ctx.close(o.get_capacity_kbtuh(*q), cap, "nominal", "nominal capacity", 1e-12)
                ctx.check(o.get_power_in_kw(*q) is None, "nominal-power", "a nominal heater reports power")
    ctx.seen("refuse")
