import random
from vf import api
from vf.ref import building as RB, data

ID = "P02"
RULE = ("every climate zone, zip code and weather station of the published tables, plus unknown ones and constant design conditions; "
        "distinct = (lookup route, zone, hours probed)")
N = {"quick": 600, "thorough": 30000}
CHUNK = 8


def plan(tier):
    c = data.climate()
    z = [{"route": "zone", "v": i, "full": True} for i in range(1, 97)]
    s = [{"route": "station", "v": a} for a, _ in c["station"]]
    zips = [{"route": "zips", "v": [a for a, _ in c["zip"]][k::40]} for k in range(40)]
    bad = [{"route": "bad", "v": v} for v in (0, -1, -96, 97, 98, 1000)]
    return z + s + zips + bad + [{"route": "catalogue"}]


def gen(rng, i):
    k = rng.random()
    if k < 0.35:
        return {"route": "zone", "v": rng.randint(1, 96), "k": rng.randrange(10 ** 6)}
    if k < 0.5:
        return {"route": "zip", "v": rng.choice(data.climate()["zip"])[0], "int": rng.random() < 0.5, "k": rng.randrange(10 ** 6),
                "pad": rng.random() < 0.3}
    if k < 0.6:
        return {"route": "station", "v": rng.choice(data.climate()["station"])[0], "k": rng.randrange(10 ** 6)}
    if k < 0.8:
        return {"route": "design", "v": [round(rng.uniform(-20, 100), 2), round(rng.uniform(34, 80), 2)],
                "how": rng.choice(["zone", "building"]), "k": rng.randrange(10 ** 6)}
    if k < 0.9:
        return {"route": "mixed", "v": rng.randint(1, 96), "oat": round(rng.uniform(0, 60), 1) if rng.random() < 0.5 else None,
                "inlet": round(rng.uniform(40, 60), 1), "k": rng.randrange(10 ** 6)}
    if rng.random() < 0.5:
        known = dict(data.climate()["zip"])
        return {"route": "badzip", "v": rng.choice([z for z in ["00000", "99999", "10001", f"{rng.randrange(100000):05d}", "abc", "", "9410", "941033"] if z not in known])}
    return {"route": "badstation", "v": rng.choice(["NOWHERE", "", "94103", "oakland ", "SEATTLE"])}


def verify(ctx, z, ref, k, label, full=False):
    rng = random.Random(k)
    hours = list(range(8760)) if full else sorted({rng.randrange(8760) for _ in range(150)} | {0, 1, 23, 24, 8758, 8759})
    bad = [h for h in hours if z.get_oat_f(h, 60) != ref.oat(h, 60)]
    ctx.check(not bad, "oat:" + label, lambda: f"outdoor air in hour {bad[0]}: {z.get_oat_f(bad[0], 60)} expected {ref.oat(bad[0], 60)}")
    ctx.evals += len(hours)
    days = range(365) if full else sorted({rng.randrange(365) for _ in range(60)} | {0, 30, 31, 58, 59, 364})
    bad = [d for d in days for m in (0, 1439) if z.get_inlet_water_temp_f(d * 1440 + m) != ref.inlet(d * 1440 + m)]
    ctx.check(not bad, "inlet:" + label, lambda: f"inlet water on day {bad[0]}: {z.get_inlet_water_temp_f(bad[0] * 1440)} expected {ref.inlet(bad[0] * 1440)}")
    ctx.evals += 2 * len(days)
    # timestep lengths and years beyond the first
    for dt in (1, 2, 5, 7, 10, 15, 30, 60):
        for _ in range(25):
            m = rng.randrange(3 * 525600)
            m -= m % dt
            s = m // dt
            ctx.check(z.get_oat_f(s, dt) == ref.oat(s, dt), "oat-step:" + label, lambda: f"outdoor air at step {s} of {dt} min: {z.get_oat_f(s, dt)} expected {ref.oat(s, dt)}")
            ctx.check(z.get_inlet_water_temp_f(s, dt) == ref.inlet(s, dt), "inlet-step:" + label,
                      lambda: f"inlet water at step {s} of {dt} min: {z.get_inlet_water_temp_f(s, dt)} expected {ref.inlet(s, dt)}")
    # month boundaries, minute by minute around midnight
    if ref.zone is not None and ref.inlet_c is None:
        d = 0
        for md in data.MONTH_DAYS:
            d += md
            for m in (d * 1440 - 1, d * 1440):
                ctx.check(z.get_inlet_water_temp_f(m) == ref.inlet(m), "inlet-month:" + label, lambda: f"inlet water in minute {m}: {z.get_inlet_water_temp_f(m)} expected {ref.inlet(m)}")
    ctx.check(z.get_design_oat_f() == ref.design_oat, "design-oat:" + label, lambda: f"design outdoor air {z.get_design_oat_f()} expected {ref.design_oat}")
    ctx.check(z.get_design_inlet_water_temp_f() == ref.design_inlet, "design-inlet:" + label,
              lambda: f"design inlet {z.get_design_inlet_water_temp_f()} expected {ref.design_inlet}")
    b = api.building(RB.Demand(100.0, [1 / 24] * 24, [1 / 24] * 24), {"design_oat_f": 1.0, "design_inlet_water_temp_f": 2.0})
    b.climate_zone = z
    s = rng.randrange(525600)
    ctx.check((b.get_oat_f(s), b.get_inlet_water_temp_f(s), b.get_design_oat_f(), b.get_design_inlet_water_temp_f())
              == (ref.oat(s), ref.inlet(s), ref.design_oat, ref.design_inlet), "building:" + label, "the building does not report its climate")
    ctx.event("zone-read:" + label)


def buckets(ctx, z, ref, label):
    got, want = z.get_oat_buckets(), ref.buckets()
    ctx.check(sum(got.values()) == 365, "buckets-days:" + label, "the temperature buckets hold %s days", sum(got.values()))
    ctx.check({float(k): v for k, v in got.items()} == want, "buckets:" + label, lambda: f"outdoor-air buckets {got} expected {want}")
    ctx.check(all(float(k) % 5 == 0 for k in got), "buckets-width:" + label, "bucket not a multiple of 5")


class Mixed(RB.Climate):
    def __init__(self, zone, oat, inlet):
        super().__init__(zone)
        self.c_oat, self.inlet_c = oat, inlet

    def oat(self, step, dt=1):
        return self.c_oat if self.c_oat is not None else super().oat(step, dt)

    def inlet(self, step, dt=1):
        return self.inlet_c

    @property
    def design_oat(self):
        return self.c_oat if self.c_oat is not None else min(self.oat_h)

    @property
    def design_inlet(self):
        return self.inlet_c


def run(ctx, c):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    r, k = c["route"], c.get("k", 7)
    if r == "zone":
        z, ref = ClimateZone.from_zone_id(c["v"]), RB.Climate(c["v"])
        ctx.check(z.zone_id == c["v"], "zone-id", "zone id %r", z.zone_id)
        verify(ctx, z, ref, k, r, c.get("full", False))
        buckets(ctx, z, ref, r)
        ctx.seen(r, c["v"], k)
    elif r == "zip":
        want = dict(data.climate()["zip"])[c["v"]]
        v = int(c["v"]) if c.get("int") else (" " + c["v"] + " " if c.get("pad") else c["v"])
        z = ClimateZone.from_zip_code(v)
        ctx.check(z.zone_id == want, "zip-zone", "zip %r gives zone %r, expected %r", v, z.zone_id, want)
        verify(ctx, z, RB.Climate(want), k, r)
        ctx.seen(r, c["v"], str(v), k)
    elif r == "zips":
        look = dict(data.climate()["zip"])
        cls = ClimateZone
        for v in c["v"][:: (4 if len(c["v"]) > 30 else 1)]:
            z = cls.from_zip_code(v)
            ctx.check(z.zone_id == look[v], "zip-zone", "zip %r gives zone %r, expected %r", v, z.zone_id, look[v])
            ctx.seen(r, v)
            ctx.event("zip-lookups")
    elif r == "station":
        want = dict(data.climate()["station"])[c["v"]]
        z = ClimateZone.from_weather_station(c["v"])
        ctx.check(z.zone_id == want, "station-zone", "station %r gives zone %r, expected %r", c["v"], z.zone_id, want)
        verify(ctx, z, RB.Climate(want), k, r)
        buckets(ctx, z, RB.Climate(want), r)
        ctx.seen(r, c["v"], k)
    elif r == "design":
        oat, inl = c["v"]
        ref = RB.Climate(oat=oat, inlet=inl)
        if c["how"] == "zone":
            z = ClimateZone.from_design_conditions(oat, inl)
        else:
            from ecoengine.objects.building.Building import Building
            z = Building(None, 100.0, [1 / 24] * 24, [1 / 24] * 24, design_oat_f=oat, design_inlet_water_temp_f=inl).climate_zone
        verify(ctx, z, ref, k, r)
        for one, ref1 in ((ClimateZone.from_design_conditions(design_oat_f=oat), RB.Climate(oat=oat)),
                          (ClimateZone.from_design_conditions(design_inlet_water_temp_f=inl), RB.Climate(inlet=inl))):
            verify(ctx, one, ref1, k, r + "-partial")
        ctx.raises(z.get_oat_buckets, ValueError, "buckets-constant", "buckets of constant design conditions")
        ctx.seen(r, oat, inl)
    elif r == "mixed":
        base = RB.Climate(c["v"])
        z = ClimateZone(c["v"], list(base.oat_h), list(base.inlet_m), constant_oat_f=c["oat"], constant_inlet_water_temp_f=c["inlet"])
        verify(ctx, z, Mixed(c["v"], c["oat"], c["inlet"]), k, r)
        ctx.seen(r, c["v"], c["oat"], c["inlet"])
    elif r == "bad":
        ctx.raises(lambda: ClimateZone.from_zone_id(c["v"]), ValueError, "bad-zone", f"climate zone {c['v']}")
        ctx.seen(r, c["v"])
    elif r == "badzip":
        ctx.raises(lambda: ClimateZone.from_zip_code(c["v"]), ValueError, "bad-zip", f"zip {c['v']!r}")
        ctx.seen(r, c["v"])
    elif r == "badstation":
        ctx.raises(lambda: ClimateZone.from_weather_station(c["v"]), ValueError, "bad-station", f"station {c['v']!r}")
        ctx.seen(r, c["v"])
    else:
        ctx.check(len(data.climate()["zip"]) > 2000, "catalogue", "golden table is empty")
