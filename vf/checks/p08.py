import copy
import os
import shutil
import tempfile
import warnings

import numpy as np

from vf import api, gen as G, simcase, sizecase
from vf.ref import sizing as RS

ID = "P08"
RULE = ("random histories of queries, plots, re-sizings, simulations, injected failures and other live engines on one installation, the state "
        "observed after every operation and the end state compared with a freshly built installation; distinct = (schematic, sized or given, "
        "operation sequence)")
N = {"quick": 300, "thorough": 5000}
CHUNK = 2
CASE_TIMEOUT_S = 400

ASSUMPTIONS = ["only results visible through the public interface count; internal caches are allowed to differ",
               "re-sizing is only repeated on systems that were sized in the first place"]


class Injected(Exception):
    """Raised by a faulty building in the middle of an operation."""


def plan(tier):
    return []


def gen(rng, i):
    sch = G.SCHEMATICS[i % 6]
    if i % 12 == 8:
        c = sizecase.make(rng, "swing_tank", False)
        case = {"kw": c["kw"], "opts": {}, "er": [round(rng.uniform(0.3, 0.95), 3), round(rng.uniform(0.3, 0.95), 3)]}
    elif sch == "multi_pass_rtp" and i % 24 == 4:
        case = {"kw": G.engine_kwargs(rng, schematic=sch, ls=False, tame=True), "opts": {}}
    else:
        case = simcase.make(rng, sch, hard=True, hand=False)
        case.pop("annual_shape", None)
        if rng.random() < 0.34 and sch not in ("multi_pass_rtp",):
            ls = rng.random() < 0.4 if sch != "instant_wh" else False
            case = {"kw": G.engine_kwargs(rng, schematic=sch, ls=ls, tame=True), "opts": case["opts"]}
    kw = case["kw"]
    if rng.random() < 0.3 and sch != "instant_wh" and "er" not in case:
        kw["building_type"] = "multi_family"
        kw["magnitude"] = max(20, kw["magnitude"] // 2)
        kw.pop("custom_peak_load_shape", None), kw.pop("custom_avg_load_shape", None)
    ops = ["sim", "sim_opts", "plot_sim", "reports", "bad_duration", "bad_ls", "fault_sim", "fault_sim", "other_sim", "other_size", "catalogue", "design"]
    was_sized = "storage_volume_storageT_gal" not in kw
    if "er" in case:
        ops += ["er_curve"] * 4 + ["fault_er"] * 6
    elif sch != "instant_wh":
        ops += ["bad_inlet_size"]
        if was_sized or sch in ("primary_no_recirc", "parallel_loop"):
            ops += ["curve", "curve", "plot_curve", "bad_inlet_curve", "fault_curve", "fault_curve"]
        if was_sized and sch != "multi_pass_rtp":
            ops += ["resize", "resize_other", "resize_other", "fault_size", "fault_size"]
        if "load_shift_schedule" in kw:
            ops += ["ls_curve"] * 3 + ["fault_ls"] * 3
        if annual_ok(kw):
            ops += ["annual"] * 4 + ["annual_fault"] * 6
    if kw["building_type"] != "multi_family":
        ops += ["bad_annual"]
    case["ops"] = [op(rng, ops) for _ in range(rng.randint(3, 8))]
    return case


def annual_ok(kw):
    return kw["building_type"] == "multi_family" and "custom_peak_load_shape" not in kw and "custom_avg_load_shape" not in kw


def op(rng, ops):
    k = rng.choice(ops)
    o = {"op": k}
    if k == "sim_opts":
        o["opts"] = {"outlet_deficit_threshold_f": round(rng.uniform(0, 30), 1), "outlet_deficit_max_min": rng.choice([0, 5, 100])}
    if k == "curve":
        o["step"] = rng.choice([0.25, 0.5, 1.0])
    if "fault" in k:
        o["at"] = rng.choice([1, 2, 3, 5, 8, 20, 60]) if k != "fault_sim" else rng.choice([2, 50, 700, 3000, 6000, 9000])
    if k == "resize_other":
        o["x"] = round(rng.uniform(0.3, 3), 2)
    if k.startswith("other"):
        o["seed"] = rng.randrange(10 ** 6)
    return o


# ------------------------------------------------------------------------------ one live installation
class Unit:
    def __init__(self, case):
        kw = copy.deepcopy(case["kw"])
        self.given = kw
        self.p = G.plant(kw)
        self.schedule = list(self.p.schedule)
        self.cmap = api.control_map(self.p.ctl)
        self.eng = None
        self.was_sized = kw.get("storage_volume_storageT_gal") is None
        if "er" in case:
            from ecoengine.objects.components.heating.WaterHeater import WaterHeater
            from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
            from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
            ref = self.p.size()
            self.was_sized = False
            self.bld = api.building(self.p.demand, kw["zip_code_or_climate_zone"])
            self.sysm = api.system_class("swing_er").from_components(
                [WaterHeater.from_nominal_capacity(ref["cap"] * case["er"][0], self.schedule, self.cmap)],
                StratifiedTank(max(20.0, ref["vol"] * case["er"][1])), MixedStorageTank(ref["tm_vol"]), ref["tm_cap"], self.bld,
                supply_temp_f=self.p.supply, storage_temp_f=self.p.storage, return_temp_f=self.p.ret_t, return_flow_gpm=self.p.ret_gpm,
                er_safety_factor=1.1, control_schedule=self.schedule, control_map=self.cmap)
        else:
            self.eng = api.engine(**kw)
            self.sysm, self.bld = api.parts(self.eng)
        self.resizable = self.was_sized and self.p.schematic != "multi_pass_rtp"   # its constructor adds a capacity search to size()
        self.can_ls = "shed" in self.p.ctl and hasattr(self.sysm, "get_ls_sizing_curve")
        self.can_curve = self.was_sized and self.p.schematic != "instant_wh" or self.p.schematic in ("primary_no_recirc", "parallel_loop") and "er" not in case

    def size_args(self):
        if self.p.schematic == "instant_wh":
            return {}
        a = {"control_schedule": self.schedule, "control_map": self.cmap}
        if self.p.schematic != "multi_pass_rtp":
            a["load_shift_fract_total_vol"] = self.p.fract
        return a

    def simulate(self, **o):
        from ecoengine.interfaces import Simulator
        return Simulator.simulate_3day(self.sysm, self.bld, **o)

    def state(self):
        s, b = self.sysm, self.bld
        st = {"daily": b.daily_dhw_use_supplyT_gal, "peak": np.array(b.peak_load_shape).tobytes(), "avg": np.array(b.avg_load_shape).tobytes(),
              "annual": b.is_annual_load_shape(), "run_hr": getattr(s, "max_daily_run_hr", None), "supply": s.supply_temp_f,
              "storage": s.storage_temp_f, "defrost": s.defrost_factor, "given": repr(self.given), "schedule": list(self.schedule),
              "inlet": b.get_design_inlet_water_temp_f(), "oat": b.get_design_oat_f()}
        for g in ("get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal", "get_minimum_tm_volume_gal", "get_minimum_tm_capacity_kbtuh",
                  "get_minimum_tm_ca_volume_gal", "get_er_capacity_kbtuh", "get_recirc_loss_kbtuh"):
            if hasattr(s, g):
                try:
                    st[g] = getattr(s, g)()
                except RuntimeError:
                    st[g] = "not sized"
        if self.eng is not None:
            st["results"] = repr(self.eng.get_sizing_results())
            st["magnitude"] = self.eng.get_hw_magnitude()
        for k, c in self.cmap.items():
            st["ctl:" + k] = (c.on_sensor_fract, c.on_trigger_t_f, c.off_sensor_fract, c.off_trigger_t_f, c.outlet_temp_f)
        st["equipment"] = [len(s.water_heaters), s.storage_tank.total_volume_gal if s.storage_tank is not None else None]
        return st


SERIES = ("dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f", "inlet_water_temp_f",
          "heater_mode", "tm_tank_temp_f", "tm_heater_output_kbtuh", "tm_heater_input_kw")


def record(r):
    d = {k: list(getattr(r, k)) for k in SERIES}
    for i, n in enumerate(r.tank_temps_f):
        d[f"node{i}"] = list(n)
    d["verdict"] = [r.outage_minutes, r.stopped_early, r.is_successful(), r.get_failure_message(), r.supply_temp_f, r.duration_min, r.timestep_min]
    return d


def same_record(ctx, a, b, key, what):
    for k in a:
        if a[k] == b[k]:
            ctx.evals += 1
            continue
        if k in ("verdict", "heater_mode"):
            ctx.check(False, f"{key}:{k}", "%s: %s is %s, expected %s", what, k, str(b[k])[:120], str(a[k])[:120])
        else:
            ctx.closelist(b[k], a[k], f"{key}:{k}", f"{what}: {k}", 1e-9, 1e-9)


# ------------------------------------------------------------------------------ fault injection
def with_fault(bld, at, fn):
    """fn() with bld's at-th query failing; bld keeps its identity and its state."""
    cls = type(bld)
    n = [0]

    def wrap(name):
        orig = getattr(cls, name)

        def f(self, *a, **k):
            n[0] += 1
            if n[0] == at:
                raise Injected(name)
            return orig(self, *a, **k)
        return f
    faulty = type(cls.__name__, (cls,), {m: wrap(m) for m in ("get_dhw_load_supplyT_gal", "get_oat_f", "get_inlet_water_temp_f",
                                                              "get_design_inlet_water_temp_f", "get_design_oat_f")})
    bld.__class__ = faulty
    try:
        fn()
        return False
    except Injected:
        return True
    finally:
        bld.__class__ = cls


def no_inlet(u):
    from ecoengine.objects.building.Building import Building
    d = u.p.demand
    return Building(climate_zone=None, daily_dhw_use_supplyT_gal=d.daily, peak_load_shape=d.peak, avg_load_shape=d.avg, building_type=d.btype)


def perform(ctx, u, o, runs, scratch):
    """One operation; returns what was done (None = not applicable here)."""
    k = o["op"]
    s, b = u.sysm, u.bld
    if k == "sim":
        r = u.simulate()
        runs.append((r, record(r)))
    elif k == "sim_opts":
        r = u.simulate(**o["opts"])
        runs.append((r, record(r)))
    elif k == "curve":
        if not u.can_curve:
            return None
        if u.p.schematic in ("multi_pass_rtp", "swing_tank"):
            s.get_sizing_curve(b) if u.p.schematic == "multi_pass_rtp" else s.get_sizing_curve(b, step=max(1.0, o["step"]))
        else:
            s.get_sizing_curve(b, step=o["step"])
    elif k == "ls_curve":
        if not u.can_ls or u.p.schematic == "swing_tank" and not u.was_sized:
            return None
        s.get_ls_sizing_curve(b, u.schedule, u.cmap)
    elif k == "plot_curve":
        if u.eng is None or not u.can_curve or u.p.schematic in ("multi_pass_rtp", "swing_tank"):
            return None
        u.eng.plot_sizing_curve(return_with_x_y_points=True)
    elif k == "plot_sim":
        if u.eng is None:
            return None
        u.eng.plot_simulation(include_temperatures=True)
    elif k == "resize":
        if not u.resizable:
            return None
        s.size(b, **u.size_args())
    elif k == "resize_other":
        if not u.resizable:
            return None
        d = u.p.demand
        other = api.building(RS_demand(d, o["x"]), {"design_oat_f": 20.0, "design_inlet_water_temp_f": 44.0})
        try:
            s.size(other, **u.size_args())
        except (ValueError, ZeroDivisionError):
            pass
        s.size(b, **u.size_args())
    elif k == "annual":
        b.set_to_annual_load_shape()
        mid = u.state()
        if u.resizable:
            s.size(b, **u.size_args())
        if u.can_curve and u.p.schematic != "swing_tank":
            s.get_sizing_curve(b)
        after = u.state()
        diff(ctx, mid, after, "annual-sizing", "sizing and curves while the annual shape is switched on")
        b.set_to_daily_load_shape()
    elif k == "annual_fault":
        # a failure half-way must leave the annual shape switched on
        b.set_to_annual_load_shape()
        mid = u.state()
        fs = [u.simulate]
        if u.resizable:
            fs.append(lambda: s.size(b, **u.size_args()))
        if u.can_curve:
            fs.append(lambda: s.get_sizing_curve(b) if u.p.schematic == "multi_pass_rtp" else s.get_sizing_curve(b, step=1.0))
        if u.can_ls and u.p.schematic != "swing_tank":
            fs.append(lambda: s.get_ls_sizing_curve(b, u.schedule, u.cmap))
        for f in fs:
            if with_fault(b, o["at"], f):
                ctx.event("fault-fired:annual")
            diff(ctx, mid, u.state(), "annual-fault", f"a failure while the annual shape is switched on")
        b.set_to_daily_load_shape()
    elif k == "reports":
        if not runs:
            return None
        r = runs[-1][0]
        r.get_summary(), r.get_failure_message(), r.get_monthly_energy_kwh(), r.get_total_energy_kwh(), r.get_peak_demand_kw()
        uc = tariff()
        r.get_annual_utility_cost(uc), r.get_monthly_cost_breakdown(uc), r.get_monthly_cost_breakdown_detailed(uc)
        r.to_csv(os.path.join(scratch, "r.csv"))
        r.to_plotly(include_temperatures=True)
        if u.eng is not None:
            u.eng.get_simulation_summary(r), u.eng.get_annual_cost_estimate(r)
    elif k == "bad_duration":
        from ecoengine.interfaces import Simulator
        ctx.raises(lambda: Simulator.simulate(s, b, duration="week"), ValueError, "bad-duration", "an unknown duration")
    elif k == "bad_ls":
        if not hasattr(s, "get_ls_sizing_curve") or u.p.schematic == "instant_wh":
            return None
        ctx.raises(lambda: s.get_ls_sizing_curve(b, ["normal"] * 24, {"normal": u.cmap["normal"]}), ValueError, "bad-ls", "a load-shift curve without shed controls")
    elif k == "bad_inlet_size":
        if u.p.schematic == "instant_wh" or u.eng is None:
            return None
        nb = no_inlet(u)
        ctx.raises(lambda: s.size(nb, **u.size_args()), ValueError, "bad-inlet", "sizing a building without a design inlet temperature")
    elif k == "bad_inlet_curve":
        if not u.can_curve:
            return None
        ctx.raises(lambda: s.get_sizing_curve(no_inlet(u)), ValueError, "bad-inlet-curve", "a curve for a building without a design inlet temperature")
    elif k == "bad_annual":
        if u.given["building_type"] == "multi_family":
            return None
        ctx.raises(b.set_to_annual_load_shape, ValueError, "bad-annual", "an annual shape for a type without one")
        ctx.raises(b.set_to_daily_load_shape, ValueError, "bad-daily", "resetting the shape of a type without an annual one")
    elif k == "fault_sim":
        if with_fault(b, o["at"], u.simulate):
            ctx.event("fault-fired:sim")
    elif k == "fault_size":
        if not u.resizable:
            return None
        if with_fault(b, o["at"], lambda: s.size(b, **u.size_args())):
            ctx.event("fault-fired:size")
    elif k == "fault_curve":
        if not u.can_curve:
            return None
        kw = {"step": 1.0} if u.p.schematic != "multi_pass_rtp" else {}
        if with_fault(b, o["at"], lambda: s.get_sizing_curve(b, **kw)):
            ctx.event("fault-fired:curve")
    elif k == "fault_ls":
        if not u.can_ls or u.p.schematic == "swing_tank":
            return None
        if with_fault(b, o["at"], lambda: s.get_ls_sizing_curve(b, u.schedule, u.cmap)):
            ctx.event("fault-fired:ls")
    elif k in ("fault_er", "er_curve"):
        if not hasattr(s, "get_er_sized_points"):
            return None
        try:
            if k == "er_curve":
                s.get_er_sized_points(b, 1.3)
                s.get_er_sizing_curve(b, 0.9)
            elif with_fault(b, o["at"], lambda: s.get_er_sized_points(b, 1.4)):
                ctx.event("fault-fired:er")
        except (RuntimeError, ValueError):   # no addition needed / draw larger than the swing tank: documented refusals
            pass
    elif k in ("other_sim", "other_size"):
        import random
        r2 = random.Random(o["seed"])
        sch = r2.choice([x for x in G.SCHEMATICS if x != "multi_pass_rtp"])
        c2 = simcase.make(r2, sch, hand=False) if k == "other_sim" else {"kw": G.engine_kwargs(r2, schematic=sch, tame=True), "opts": {}}
        c2.pop("annual_shape", None)
        if not simcase.buildable(c2):
            return None
        s2, b2 = api.parts(api.engine(**c2["kw"]))
        if k == "other_sim":
            simcase.simulate({"opts": c2["opts"]}, s2, b2)
    elif k == "catalogue":
        from ecoengine.interfaces import EcosizerEngine as E
        E.get_list_of_models(), E.get_weather_stations(), E.get_oat_buckets(zone_id=3)
    elif k == "design":
        b.get_design_inlet_water_temp_f(), b.get_design_oat_f(), b.get_dhw_load_supplyT_gal(700), b.get_oat_f(5, 60)
    return k


def RS_demand(d, x):
    from vf.ref import building as RB
    return RB.Demand(d.daily * x, [1 / 24.0 + (0.05 if h == 7 else -0.05 / 23) for h in range(24)], d.avg)


def tariff():
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    return UtilityCostTracker.from_params(monthly_base_charge=10.0, pk_start_hour=16, pk_end_hour=21, pk_demand_charge=5.0, pk_energy_charge=0.4,
                                          off_pk_demand_charge=2.0, off_pk_energy_charge=0.2)


def diff(ctx, before, after, key, what):
    for k in before:
        a, b = before[k], after.get(k)
        ok = a == b
        if not ok and isinstance(a, float) and isinstance(b, float):
            ok = abs(a - b) <= 1e-9 * max(abs(a), abs(b))
        ctx.check(ok, f"changed:{key}:{k}", lambda: f"{what} changed {k}: {str(a)[:80]} -> {str(b)[:80]}")


def run(ctx, case):
    if not simcase.buildable(case):
        ctx.event("undefined-skipped")
        return
    try:
        u = Unit(case)
    except (RS.Undefined, RS.Refused):
        ctx.event("undefined-skipped")
        return
    except ValueError:
        if "er" in case:       # draw larger than the swing tank: refused at construction
            ctx.event("undefined-skipped")
            return
        raise
    scratch = tempfile.mkdtemp(prefix="vf08-")
    runs, done = [], []
    try:
        st = u.state()
        for o in case["ops"]:
            k = perform(ctx, u, o, runs, scratch)
            if k is None:
                continue
            done.append(k)
            ctx.event("op:" + k)
            diff(ctx, st, u.state(), k, f"operation {k} (after {done[:-1]})")
        opts = case.get("opts", {})
        r = u.simulate(**opts)
        got = record(r)
        again = record(u.simulate(**opts))
        same_record(ctx, got, again, "repeat", f"simulating twice in a row (after {done})")
        f = Unit(case)
        diff(ctx, f.state(), u.state(), "fresh", f"compared with a fresh installation, the history {done}")
        want = record(f.simulate(**opts))
        same_record(ctx, want, got, "fresh-sim", f"simulation after {done} against a fresh installation")
        for k, (old, rec) in enumerate(runs):
            same_record(ctx, rec, record(old), "old-run", f"record of an earlier simulation after {done}")
        if u.can_curve and u.p.schematic not in ("multi_pass_rtp",):
            a, b = u.sysm.get_sizing_curve(u.bld, step=1.0), f.sysm.get_sizing_curve(f.bld, step=1.0)
            for k in b:
                ctx.closelist(a[k] if isinstance(a[k], list) else [a[k]], b[k] if isinstance(b[k], list) else [b[k]], "fresh-curve:" + k, f"curve after {done} against a fresh installation: {k}", 1e-9)
        if u.can_ls and u.p.schematic != "swing_tank":
            a, b = u.sysm.get_ls_sizing_curve(u.bld, u.schedule, u.cmap), f.sysm.get_ls_sizing_curve(f.bld, f.schedule, f.cmap)
            for k in b:
                ctx.closelist(a[k] if isinstance(a[k], list) else [a[k]], b[k] if isinstance(b[k], list) else [b[k]], "fresh-ls:" + k, f"load-shift curve after {done} against a fresh installation: {k}", 1e-9)
        if u.resizable:
            u.sysm.size(u.bld, **u.size_args())
            diff(ctx, st, u.state(), "final-resize", f"sizing again after {done}")
        if hasattr(u.sysm, "get_er_sized_points"):
            pts = []
            for x in (u, f):
                try:
                    pts.append(x.sysm.get_er_sized_points(x.bld, 1.2))
                except (RuntimeError, ValueError) as e:
                    pts.append(str(e))
            ctx.check(pts[0] == pts[1], "fresh-er", "element trade-off curve after %s: %s against %s", done, pts[0], pts[1])
        ctx.seen(u.p.schematic, u.was_sized, tuple(done))
        ctx.sample = {"operations": done, "steps_compared": len(got["oat_f"])}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
