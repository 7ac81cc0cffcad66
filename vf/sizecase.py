"""Shared driver of the sizing checks: one case = one installation sized through the facade or the system classes."""
import warnings

from . import api, gen
from .ref import building as RB
from .ref import sizing as RS


def can_be_annual(kw):
    return kw["building_type"] == "multi_family" and "custom_peak_load_shape" not in kw and "custom_avg_load_shape" not in kw


def make(rng, schematic, ls):
    kw = gen.engine_kwargs(rng, schematic=schematic, ls=ls)
    case = {"kw": kw, "how": rng.choice(["facade", "facade", "from_size", "size", "resize"])}
    if schematic == "instant_wh" and case["how"] == "resize":
        case["how"] = "size"
    if case["how"] != "facade":
        if schematic != "multi_pass_rtp" and rng.random() < 0.6:
            case["slope"] = round(rng.uniform(0.9, 4.0), 2)
        if ls:
            case["fract"] = round(rng.uniform(0.4, 1.0), 3)
            if kw.get("load_up_hours") and rng.random() < 0.5:      # load-up hours elsewhere in the day: they charge nothing for the first block
                case["extra_up"] = sorted(rng.sample(range(24), rng.randrange(1, 6)))
        if not ls and schematic in ("primary_no_recirc", "parallel_loop", "single_pass_rtp") and rng.random() < 0.25:
            case["cmap"] = rng.choice(["none", "other"])
        if can_be_annual(kw) and rng.random() < 0.3:
            case["annual"] = True
        if rng.random() < 0.3:
            case["run_hr_24"] = round(rng.uniform(16, 23.9), 2)
    if rng.random() < 0.1:
        v = gen.balance_shape(rng)
        if v is not None and max(v) <= 0.24:
            kw["custom_peak_load_shape"] = v
            kw["max_daily_run_hr"] = 16.0
            case.pop("run_hr_24", None)
            case.pop("annual", None)
    if rng.random() < 0.15:
        inv = {v: k for k, v in gen.ALIASES.items()}
        if schematic in inv:
            case["alias"] = inv[schematic]
    return case


def plant(case):
    p = gen.plant(case["kw"])
    if case["how"] != "facade":
        if "slope" in case:
            p.slope = case["slope"]
        if "fract" in case:
            p.fract = case["fract"]
        if case.get("cmap") == "none":
            p.ctl = None
        elif case.get("cmap") == "other":
            p.ctl = {"eco": p.ctl["normal"], "boost": _boost(p.ctl["normal"])}
            p.schedule = ["eco"] * 12 + ["boost"] * 12
        for h in case.get("extra_up", ()):
            if p.schedule[h] == "normal":
                p.schedule[h] = "loadUp"
        if "run_hr_24" in case and p.schematic != "multi_pass_rtp":
            p.run_hr = case["run_hr_24"]
    return p


def _boost(c):
    return RS.Ctl(min(0.85, c.on_f + 0.11), c.on_t - 3.0, c.off_f, c.off_t, c.out_t)


def build(case, p, quiet=True):
    """Run the real sizing; returns (system, building)."""
    kw = dict(case["kw"])
    if case["how"] == "facade":
        if case.get("alias"):
            kw["schematic"] = case["alias"]
        return api.parts(api.engine(**kw))
    bld = api.building(p.demand, kw["zip_code_or_climate_zone"])
    if case.get("annual"):
        bld.set_to_annual_load_shape()
    cls = api.system_class(p.schematic)
    a = {"supply_temp_f": p.supply, "storage_temp_f": p.storage, "defrost_factor": p.defrost}
    if p.schematic != "instant_wh":
        a["max_daily_run_hr"] = p.run_hr
    if p.schematic in gen.RECIRC:
        a.update(return_temp_f=p.ret_t, return_flow_gpm=p.ret_gpm)
    if p.schematic == "swing_tank":
        a["tm_safety_factor"] = p.tm_sf
    if p.schematic == "parallel_loop":
        a.update(tm_on_temp_f=p.tm_on, tm_off_temp_f=p.tm_off, tm_off_time_hr=p.tm_off_hr, tm_safety_factor=p.tm_sf)
    s = {}
    if p.schematic != "instant_wh":
        s = {"control_schedule": p.schedule if p.ctl else None, "control_map": api.control_map(p.ctl)}
        if "slope" in case:
            s["strat_slope"] = p.slope
        if "fract" in case:
            s["load_shift_fract_total_vol"] = p.fract
    with warnings.catch_warnings():
        if quiet:
            warnings.simplefilter("ignore")
        if case["how"] == "from_size":
            return cls.from_size(building=bld, **a, **s), bld
        if p.schematic == "instant_wh":
            sysm = cls(**a)
        else:
            sysm = cls(water_heaters=[], storage_tank=None, **a)
        if case["how"] == "resize":
            # history: the same object sized for something else first
            other = api.building(RB.Demand(p.demand.daily * 1.7, [1 / 24.0 + (0.05 if h == 7 else -0.05 / 23) for h in range(24)],
                                           p.demand.avg), {"design_oat_f": 30.0, "design_inlet_water_temp_f": 45.0})
            try:
                sysm.size(other, **s)
            except ValueError:
                pass
        sysm.size(bld, **s)
    return sysm, bld


def compare(ctx, case, keys, rel=1e-6, tag=""):
    """Size for real, size by the reference, compare; returns (system, building, plant, ref) or None."""
    p = plant(case)
    try:
        ref = p.size()
    except RS.Undefined:
        ctx.event("undefined-skipped")
        return None
    except RS.Refused:
        ctx.event("refused")
        ctx.raises(lambda: build(case, p), ValueError, "not-refused", "an installation the sizing method must refuse")
        ctx.seen("refused", p.schematic)
        return None
    sysm, bld = build(case, p)
    got = api.sized(sysm)
    ctx.event("sized:" + p.schematic + (":ls" if p.ls else ""))
    for k in keys:
        if k in ref:
            ctx.close(got[k], ref[k], f"{tag}{k}:{p.schematic}", f"{p.schematic} {k} ({case['how']})", rel, 1e-6)
    ctx.seen(p.schematic, case["how"], p.ls, round(ref["cap"], 2), round(ref["vol"], 1))
    return sysm, bld, p, ref
