import csv
import os
import random
import shutil
import tempfile
import warnings

from vf import api, tariffcase
from vf import gen as G
from vf.ref import building as RB, data

ID = "P20"
RULE = ("valid inputs with exactly one documented rule broken (must raise the documented error) next to values on the valid side of the same boundary "
        "(must be accepted); distinct = (rule, side, entry point, rounded value)")
N = {"quick": 460, "thorough": 16000}
CHUNK = 8


def plan(tier):
    return [{"rule": r, "seed": 50 + k} for r in sorted(RULES) for k in range(2)]


def gen(rng, i):
    names = sorted(RULES)
    return {"rule": names[i % len(names)], "seed": rng.randrange(10 ** 9)}


def run(ctx, case):
    rng = random.Random(case["seed"])
    scratch = tempfile.mkdtemp(prefix="vf20-")
    try:
        RULES[case["rule"]](T_(ctx, case["rule"], scratch), rng)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class T_:
    """accept/reject oracle for one rule"""

    def __init__(self, ctx, rule, scratch):
        self.ctx, self.rule, self.scratch = ctx, rule, scratch

    def bad(self, fn, what, exc=ValueError):
        def f():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn()
        self.ctx.raises(f, exc, "accepted:" + self.rule, what)
        self.ctx.event("rejected:" + self.rule)
        self.ctx.seen(self.rule, "bad", what[:70])

    def good(self, fn, what):
        self.ctx.evals += 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = fn()
            except ValueError as e:
                self.ctx.check(False, "rejected:" + self.rule, lambda: f"{what}: refused although valid ({e})")
                return None
        self.ctx.event("accepted:" + self.rule)
        self.ctx.seen(self.rule, "good", what[:70])
        return r


RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def btype(rng):
    return rng.choice(RB.TYPES)


def enter(rng):
    """Two doors into the building code: directly, and through the engine."""
    from ecoengine.objects.building.Building import Building
    if rng.random() < 0.6:
        return "building", lambda t, m, **k: Building.from_building_type(t, m, climate_zone=api.zone(3), **k)
    return "engine", lambda t, m, **k: api.engine(building_type=t, magnitude=m, zip_code_or_climate_zone=3, supply_temp_f=120.0, storage_temp_f=150.0,
                                                  schematic="primary_no_recirc", storage_volume_storageT_gal=500.0, heating_capacity_kbtuh=100.0, **k)


def shape(rng):
    return G.shape(rng)


# ------------------------------------------------------------------------------ building
@rule
def building_type(t, rng):
    door, mk = enter(rng)
    for b in ("office", "Multi_Family", "multi family", "", "motel ", "multi_family.json", 5, 2.5, {"a": 1}, ("motel", "motel")):
        t.bad(lambda: mk(b, 10), f"{door}: building type {b!r}")
    for b in RB.TYPES:
        t.good(lambda: mk(b, 10), f"{door}: building type {b}")


@rule
def magnitude(t, rng):
    door, mk = enter(rng)
    b = btype(rng)
    for m in (0, -1, -1e-9, 0.0, None, "10", [10, 20], -rng.uniform(0.1, 900)):
        t.bad(lambda: mk(b, m), f"{door}: {b} of magnitude {m!r}")
    for m in (1, 0.5, 1e-3, rng.uniform(1, 5000), [12]):
        t.good(lambda: mk(b, m), f"{door}: {b} of magnitude {m!r}")


def broken_shapes(rng):
    s = shape(rng)
    k = rng.randrange(24)
    neg = list(s)
    j = (k + 1) % 24
    neg[j] += neg[k] + 0.01
    neg[k] = -0.01
    tiny = list(s)
    tiny[j] += tiny[k] + 1e-7
    tiny[k] = -1e-7
    up = 1 + rng.uniform(0.0012, 0.5)
    return [("23 hours", [1 / 23.0] * 23), ("25 hours", [1 / 25.0] * 25), ("48 hours", [1 / 48.0] * 48), ("no hours", []), ("sum too high", [x * up for x in s]),
            ("sum too low", [x * (2 - up) for x in s]), ("all zero", [0.0] * 24), ("a negative hour", neg), ("a slightly negative hour", tiny),
            ("sum just too high", [x * 1.00101 for x in s]), ("sum just too low", [x * 0.99899 for x in s])]


@rule
def custom_shape(t, rng):
    door, mk = enter(rng)
    b = btype(rng)
    which = rng.choice(["custom_peak_load_shape", "custom_avg_load_shape"])
    for what, s in broken_shapes(rng):
        t.bad(lambda: mk(b, 50, **{which: s}), f"{door}: {which} with {what}")
    s = shape(rng)
    z = [0.0] * 24
    z[rng.randrange(12)] = z[12 + rng.randrange(12)] = 0.5
    for what, v in (("exact sum", s), ("sum a little high", [x * 1.0009 for x in s]), ("sum a little low", [x * 0.9991 for x in s]), ("zero hours", z)):
        t.good(lambda: mk(b, 50, **{which: v}), f"{door}: {which} with {what}")


@rule
def custom_only(t, rng):
    from ecoengine.objects.building.Building import Building
    mk = lambda **k: Building.from_building_type(None, climate_zone=api.zone(3), **k)
    t.bad(lambda: mk(magnitude=100.0), "no building type and no shape")
    t.bad(lambda: mk(magnitude=None), "no building type, no shape, no magnitude")
    for m in (None, 1200.0):
        for what, s in broken_shapes(rng):
            if not s or sum(s) == 0 or what.startswith("sum"):
                continue
            t.bad(lambda: mk(magnitude=m, custom_peak_load_shape=s), f"custom-only building with {what}, magnitude {m}")
            k = 10 ** rng.uniform(1, 4)
            t.bad(lambda: mk(magnitude=m, custom_peak_load_shape=[x * k for x in s]), f"custom-only building in gallons with {what}, magnitude {m}")
        k = 10 ** rng.uniform(-1, 4)
        t.good(lambda: mk(magnitude=m, custom_peak_load_shape=[x * k for x in shape(rng)]), f"custom-only building in gallons, magnitude {m}")


@rule
def mixed_use(t, rng):
    door, mk = enter(rng)
    n = rng.choice([2, 3])
    b = rng.sample(RB.TYPES, n)
    m = [rng.randrange(5, 200) for _ in b]
    t.bad(lambda: mk(b, 10), f"{door}: one magnitude for {n} types")
    t.bad(lambda: mk(b, m[:-1]), f"{door}: too few magnitudes")
    t.bad(lambda: mk(b, m + [5]), f"{door}: too many magnitudes")
    k = rng.randrange(n)
    t.bad(lambda: mk(b, m[:k] + [0] + m[k + 1:]), f"{door}: one magnitude zero")
    t.bad(lambda: mk(b[:k] + ["office"] + b[k + 1:], m), f"{door}: one unknown type")
    w = rng.choice(["custom_peak_load_shape", "custom_avg_load_shape"])
    t.bad(lambda: mk(b, m, **{w: shape(rng)}), f"{door}: a single {w} for {n} types")
    t.bad(lambda: mk(b, m, **{w: [shape(rng)] * (n - 1)}), f"{door}: too few {w}")
    t.bad(lambda: mk(b, m, **{w: [None] * (n + 1)}), f"{door}: too many {w}")
    for what, s in rng.sample(broken_shapes(rng), 4):
        t.bad(lambda: mk(b, m, **{w: [None] * k + [s] + [None] * (n - k - 1)}), f"{door}: one of the {w} with {what}")
    t.good(lambda: mk(b, m, **{w: [None] * k + [shape(rng)] + [None] * (n - k - 1)}), f"{door}: {w} for one of {n} types")
    t.good(lambda: mk(b, m), f"{door}: {n} types")


@rule
def gallons_per_person(t, rng):
    from ecoengine.objects.building.Building import Building
    mk = lambda **k: Building.from_building_type("multi_family", 100, climate_zone=api.zone(3), **k)
    for g in ("25", [25], None, {}):
        t.bad(lambda: mk(gpdpp=g), f"gpdpp {g!r}")
    for s in ("CA", "ashlow", "high", "", 3, ["ca"]):
        t.bad(lambda: mk(standard_gpd=s, n_br=[1, 1, 1, 1, 1, 1]), f"standard_gpd {s!r}")
    for n in (None, [1, 2, 3], [0] * 6, [1] * 5, [1] * 7, "123456", 6):
        t.bad(lambda: mk(standard_gpd="ca", n_br=n), f"California standard with bedrooms {n!r}")
    for s in ("ashLow", "ashMed", "ecoMark"):
        t.good(lambda: mk(standard_gpd=s), f"standard {s}")
    nb = [rng.randrange(0, 30) for _ in range(6)]
    nb[rng.randrange(6)] += 1
    t.good(lambda: mk(standard_gpd="ca", n_br=nb), f"California standard with bedrooms {nb}")
    t.good(lambda: mk(gpdpp=rng.choice([12, 33.3])), "gpdpp as a number")


@rule
def annual_profile(t, rng):
    from ecoengine.objects.building.Building import Building
    for b in RB.TYPES:
        if b == "multi_family":
            continue
        x = Building.from_building_type(b, 20, climate_zone=api.zone(3))
        t.bad(x.set_to_annual_load_shape, f"annual profile of {b}")
        t.bad(x.set_to_daily_load_shape, f"daily profile switch of {b}")
    x = Building.from_building_type("multi_family", 20, climate_zone=api.zone(3))
    t.good(x.set_to_annual_load_shape, "annual profile of multi_family")
    t.bad(lambda: Building.from_building_type(["motel", "multi_family"], [10, 10], climate_zone=api.zone(3)).set_to_annual_load_shape(), "annual profile of a mixed-use building")


# ------------------------------------------------------------------------------ engine
def base(rng, sch=None, presized=None):
    sch = sch or rng.choice(G.SCHEMATICS)
    pre = rng.random() < 0.5 if presized is None else presized
    kw = {"building_type": "multi_family", "magnitude": rng.randrange(80, 200), "zip_code_or_climate_zone": rng.randint(1, 16), "supply_temp_f": 120.0,
          "storage_temp_f": 150.0, "schematic": sch}
    if sch in G.RECIRC:
        kw.update(return_temp_f=114.0, return_flow_gpm=1.5)
    if pre:
        kw.update(storage_volume_storageT_gal=800.0, heating_capacity_kbtuh=150.0)
        if sch in ("parallel_loop", "swing_tank"):
            kw.update(tm_storage_vol=120.0, tm_capacity_kbtuh=30.0)
    return kw


def without(kw, *names):
    return {k: v for k, v in kw.items() if k not in names}


@rule
def place(t, rng):
    kw = base(rng)
    for z in (0, -1, 97, 500, 9999, 100000, "NOWHERE", "", "00000", "abcde", "9021", 5.5, None, ["94103"]):
        t.bad(lambda: api.engine(**{**kw, "zip_code_or_climate_zone": z}), f"location {z!r}")
    c = data.climate()
    for z in (1, 96, rng.choice(c["zip"])[0], int(rng.choice(c["zip"])[0]), rng.choice(c["station"])[0]):
        t.good(lambda: api.engine(**{**kw, "zip_code_or_climate_zone": z}), f"location {z!r}")


@rule
def schematic(t, rng):
    for pre in (False, True):
        kw = base(rng, "parallel_loop", pre)
        for s in ("swing", "Swing_Tank", "", "primary", None, "multi_pass", "instant", "swing_er", "parallel loop"):
            t.bad(lambda: api.engine(**{**kw, "schematic": s}), f"schematic {s!r}, pre-sized {pre}")
    for s in G.SCHEMATICS:
        pre = rng.random() < 0.5
        t.good(lambda: api.engine(**base(rng, s, pre)), f"schematic {s}, pre-sized {pre}")
    for a, s in G.ALIASES.items():
        t.good(lambda: api.engine(**{**base(rng, s), "schematic": a}), f"schematic alias {a}")


@rule
def loop_parameters(t, rng):
    for s in sorted(G.RECIRC):
        for pre in (False, True):
            kw = base(rng, s, pre)
            for miss in (("return_temp_f",), ("return_flow_gpm",), ("return_temp_f", "return_flow_gpm")):
                t.bad(lambda: api.engine(**without(kw, *miss)), f"{s}, pre-sized {pre}, without {miss}")
    for s in ("primary_no_recirc", "instant_wh"):
        t.good(lambda: api.engine(**base(rng, s)), f"{s} without a loop")


@rule
def maintenance_parameters(t, rng):
    for s in ("parallel_loop", "swing_tank"):
        kw = base(rng, s, True)
        t.bad(lambda: api.engine(**without(kw, "tm_storage_vol")), f"pre-sized {s} without tm_storage_vol")
        t.bad(lambda: api.engine(**without(kw, "tm_capacity_kbtuh")), f"pre-sized {s} without a heater")
        t.good(lambda: api.engine(**kw), f"pre-sized {s}")
    mp = rng.choice([m for m in sorted(data.maps()) if m.endswith("MP")])
    t.good(lambda: api.engine(**{**without(base(rng, "parallel_loop", True), "tm_capacity_kbtuh"), "tm_model": mp}), "pre-sized parallel loop with a modelled heater")
    t.bad(lambda: api.engine(**{**base(rng, "parallel_loop", True), "tm_model": "MODELS_none"}), "unknown tm_model")


@rule
def heater_model(t, rng):
    s = rng.choice(["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp"])
    kw = without(base(rng, s, True), "heating_capacity_kbtuh")
    for m in ("", "MODELS_none", "ColmacCxV_5_C_SP", "models_colmaccxv_5_c_sp"):
        t.bad(lambda: api.engine(**{**kw, "hpwh_model": m}), f"heater model {m!r}")
    for m in rng.sample(sorted(data.maps()), 3):
        t.good(lambda: api.engine(**{**kw, "hpwh_model": m}), f"heater model {m}")


@rule
def design_inlet(t, rng):
    """Sizing needs an inlet temperature."""
    for s in G.SCHEMATICS:
        kw = base(rng, s, False)
        t.bad(lambda: api.engine(**{**kw, "zip_code_or_climate_zone": {"design_oat_f": 40.0}}), f"sizing {s} without an inlet temperature")
        t.good(lambda: api.engine(**{**kw, "zip_code_or_climate_zone": {"design_inlet_water_temp_f": 50.0}}), f"sizing {s} with an inlet temperature only")


@rule
def loop_tank_sizing(t, rng):
    kw = base(rng, "parallel_loop", False)
    for sf in (1.0, 0.9, 0.0, -1.0):
        t.bad(lambda: api.engine(**{**kw, "tm_safety_factor": sf}), f"parallel loop safety factor {sf}")
    for h in (0.0, -0.5, 1.01, 24.0):
        t.bad(lambda: api.engine(**{**kw, "tm_off_time_hr": h}), f"loop tank off time {h}")
    for on, off in ((125.0, 125.0), (125.0, 124.9), (130.0, 128.0)):
        t.bad(lambda: api.engine(**{**kw, "tm_on_temp_f": on, "tm_off_temp_f": off}), f"loop tank on at {on} off at {off}")
    sf = round(rng.uniform(1.2, 3.0), 3)
    edge = (sf - 1.0) / 3.0               # off time whose run time is exactly 20 minutes
    if edge < 0.95:
        t.bad(lambda: api.engine(**{**kw, "tm_safety_factor": sf, "tm_off_time_hr": edge * 0.98}), f"loop heater run time just under 20 minutes (factor {sf})")
        t.good(lambda: api.engine(**{**kw, "tm_safety_factor": sf, "tm_off_time_hr": edge * 1.02}), f"loop heater run time just over 20 minutes (factor {sf})")
    t.good(lambda: api.engine(**{**kw, "tm_safety_factor": 1.3, "tm_off_time_hr": 1.0}), "loop tank off time 1 h")
    t.good(lambda: api.engine(**{**kw, "tm_on_temp_f": 125.0, "tm_off_temp_f": 125.5}), "loop tank narrow band")


@rule
def swing_sizing(t, rng):
    kw = base(rng, "swing_tank", False)
    for pre in (False, True):
        for sf in (1.0, 0.99, 0.0, -2.0):
            t.bad(lambda: api.engine(**{**base(rng, "swing_tank", pre), "tm_safety_factor": sf}), f"swing safety factor {sf}, pre-sized {pre}")
    t.bad(lambda: api.engine(**{**kw, "return_flow_gpm": rng.uniform(200, 2000), "return_temp_f": 105.0}), "a loop no swing tank can carry")
    t.good(lambda: api.engine(**{**kw, "tm_safety_factor": 1.05}), "swing safety factor 1.05")


@rule
def multi_pass(t, rng):
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem as M
    kw = base(rng, "multi_pass_rtp", False)
    s = [1] * 24
    s[rng.randrange(3, 24)] = 0
    t.bad(lambda: api.engine(**{**kw, "load_shift_schedule": s}), "load shifting with a multi-pass system")
    _, bld = api.parts(api.engine(**base(rng, "primary_no_recirc", True)))
    use = round(rng.uniform(0.5, 0.9), 3)
    on, off = 1 - use, 1 - use
    from vf.ref.sizing import Ctl
    mk = lambda a, b: M.from_size(building=bld, supply_temp_f=120.0, storage_temp_f=150.0, return_temp_f=114.0, return_flow_gpm=1.5, control_schedule=["normal"] * 24,
                                  control_map={"normal": api.Controls(Ctl(a, 120.0, b, 150.0, 150.0))}, percent_useable=use)
    t.bad(lambda: mk(on - 0.01, off + 0.02), "on-sensor in the unusable part of the tank")
    t.bad(lambda: mk(on + 0.1, off - 0.01), "off-sensor in the unusable part of the tank")
    t.good(lambda: mk(on + 0.1, off + 0.02), "sensors above the unusable part of the tank")


@rule
def not_sized_yet(t, rng):
    for s in ("primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp"):
        sysm, bld = api.parts(api.engine(**base(rng, s, True)))
        for g in ("get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal", "get_minimum_tm_volume_gal", "get_minimum_tm_ca_volume_gal",
                  "get_minimum_tm_capacity_kbtuh", "get_recirc_capacity_kbtuh"):
            if hasattr(sysm, g):
                t.bad(getattr(sysm, g), f"{g} of a {s} that was never sized", RuntimeError)
        sysm, bld = api.parts(api.engine(**base(rng, s, False)))
        for g in ("get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal"):
            t.good(getattr(sysm, g), f"{g} of a sized {s}")
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem as E
    e = E(water_heaters=[], storage_tank=None, supply_temp_f=120.0, storage_temp_f=150.0, return_temp_f=114.0, return_flow_gpm=1.5)
    t.bad(e.get_er_capacity_kbtuh, "resistance capacity of a system that was never sized", RuntimeError)


@rule
def shift_curve(t, rng):
    from vf.ref.sizing import Ctl
    for s in ("primary_no_recirc", "parallel_loop", "single_pass_rtp"):
        sysm, bld = api.parts(api.engine(**base(rng, s, False)))
        c = api.Controls(Ctl(0.5, 120.0, 0.1, 150.0, 150.0))
        for cm in ({"normal": c}, None, {"normal": c, "loadUp": c}):
            t.bad(lambda: sysm.get_ls_sizing_curve(bld, control_schedule=["normal"] * 24, control_map=cm), f"load-shift curve of {s} without a shed mode")


@rule
def heater_controls(t, rng):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from vf.ref.sizing import Ctl
    c = api.Controls(Ctl(0.5, 120.0, 0.1, 150.0, 150.0))
    for sched, cm in ((None, None), (["normal"] * 24, None), (["shed"] * 24, {"normal": c})):
        w = WaterHeater.from_nominal_capacity(50.0, sched, cm)
        h = rng.randrange(24)
        t.bad(lambda: w.get_outlet_temp_f(h), f"outlet temperature without controls ({'no schedule' if sched is None else sched[0]})")
    w = WaterHeater.from_nominal_capacity(50.0, ["normal"] * 24, {"normal": c})
    t.good(lambda: w.get_outlet_temp_f(rng.randrange(24)), "outlet temperature with controls")


# ------------------------------------------------------------------------------ tariffs
def params(rng):
    c = tariffcase.seasons(rng)
    a = {k: list(c[k]) for k in ("pk_start_hour", "pk_end_hour", "pk_demand_charge", "pk_energy_charge", "off_pk_demand_charge", "off_pk_energy_charge", "start_month", "end_month")}
    return {"monthly_base_charge": c["base"], **a}


@rule
def tariff_parameters(t, rng):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    a = params(rng)
    n = len(a["start_month"])
    i = rng.randrange(n)

    def put(k, v, j=i):
        b = {x: (list(y) if isinstance(y, list) else y) for x, y in a.items()}
        b[k][j] = v
        return b
    t.good(lambda: U.from_params(**a), f"tariff with {n} seasons")
    for v in (None, "12", [3]):
        t.bad(lambda: U.from_params(**{**a, "monthly_base_charge": v}), f"base charge {v!r}")
    for v in (-1, 23.5, 24, None, "7", -0.001):
        t.bad(lambda: U.from_params(**put("pk_start_hour", v)), f"peak start {v!r}")
    for v in (24.5, 25, None, "9"):
        t.bad(lambda: U.from_params(**put("pk_end_hour", v)), f"peak end {v!r}")
    if a["pk_start_hour"][i] > 0:
        t.bad(lambda: U.from_params(**put("pk_end_hour", a["pk_start_hour"][i] - 1)), "peak ending before it starts")
    for k in ("pk_demand_charge", "pk_energy_charge", "off_pk_demand_charge", "off_pk_energy_charge"):
        for v in (None, "0.1", [1]):
            t.bad(lambda: U.from_params(**put(k, v)), f"{k} {v!r}")
    t.bad(lambda: U.from_params(**put("start_month", 1, 0)), "first season not starting in January")
    t.bad(lambda: U.from_params(**put("end_month", rng.choice([11, 13]), n - 1)), "last season not ending in December")
    t.bad(lambda: U.from_params(**put("end_month", a["start_month"][i])), "an empty season")
    for v in (None, 1.5, "3"):
        t.bad(lambda: U.from_params(**put(rng.choice(["start_month", "end_month"]), v)), f"month {v!r}")
    if n > 1:
        j = rng.randrange(1, n)
        t.bad(lambda: U.from_params(**put("start_month", a["start_month"][j] + rng.choice([-1, 1]), j)), "a gap or overlap between seasons")
    for k in ("pk_end_hour", "pk_demand_charge", "pk_energy_charge", "off_pk_demand_charge", "off_pk_energy_charge", "start_month", "end_month"):
        t.bad(lambda: U.from_params(**{**a, k: a[k] + [a[k][-1]]}), f"one {k} too many")
        if n > 1:
            t.bad(lambda: U.from_params(**{**a, k: a[k][:-1]}), f"one {k} too few")
    for s, e in ((0, 24), (0, 0), (23, 24), (23, 23)):
        t.good(lambda: U.from_params(**{**a, "pk_start_hour": [s] * n, "pk_end_hour": [e] * n}), f"peak {s}-{e}")


@rule
def tariff_file(t, rng):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    case = tariffcase.table(rng)
    path = os.path.join(t.scratch, "t.csv")
    tariffcase.write_table(case, path)
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    head = rows[0]

    def load(r):
        with open(path, "w", newline="") as f:
            csv.writer(f).writerows(r)
        return U.from_csv(csv_path=path)

    def cell(i, name, v):
        r = [list(x) for x in rows]
        r[i][head.index(name)] = v
        return r
    t.good(lambda: load(rows), "a tariff file")
    t.bad(lambda: U.from_csv(), "no tariff file at all")
    t.bad(lambda: load(rows[:-1]), "8759 hours")
    t.bad(lambda: load(rows + [rows[-1]]), "8761 hours")
    t.bad(lambda: load(rows[:1]), "no hours")
    for c in ("Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Demand Period", "Monthly Base Charge"):
        t.bad(lambda: load([[("x" + h if h == c else h) for h in head]] + rows[1:]), f"column {c} missing")
    t.bad(lambda: load(cell(1, "Monthly Base Charge", rng.choice(["", "abc"]))), "unreadable base charge")
    i = rng.randrange(1, 8761)
    t.bad(lambda: load(cell(i, "Demand Period", rng.choice(["", "x", "1.5"]))), "unreadable demand period")
    t.bad(lambda: load(cell(i, "Energy Rate ($/kWh)", "abc")), "unreadable energy rate")
    t.bad(lambda: load(cell(1, "Energy Rate ($/kWh)", "")), "first energy rate of a period missing")
    t.bad(lambda: load(cell(1, "Demand Rate ($/kW)", rng.choice(["", "abc"]))), "first demand rate of a period missing or unreadable")
    last = [list(x) for x in rows]
    last[8760][head.index("Demand Period")] = "999999"
    last[8760][head.index("Energy Rate ($/kWh)")] = ""
    t.bad(lambda: load(last), "a period that never got a rate")


@rule
def tariff_period(t, rng):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
    u = U.from_params(**params(rng))
    keys = u.get_all_demand_period_keys()
    for k in (max(keys) + 1, -1, 10 ** 6, None):
        t.bad(lambda: u.get_demand_charge_for_period(k, 5.0), f"demand charge of unknown period {k}")
    t.good(lambda: u.get_demand_charge_for_period(rng.choice(sorted(keys)), 5.0), "demand charge of a known period")
