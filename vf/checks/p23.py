"""Relations between sizing runs that differ in one input; nothing here depends on the reference sizing numbers."""
import copy

from vf import api, gen as G
from vf.ref import building as RB
from vf.ref import sizing as RS

ID = "P23"
RULE = ("pairs and chains of installations differing in one input, each sized by the real engine, and the required relation judged between the "
        "results; distinct = (relation, schematic, load shifting, sizes)")
N = {"quick": 12000, "thorough": 250000}
CHUNK = 10
CASE_TIMEOUT_S = 300
ASSUMPTIONS = ["linear scaling and rotation are not required of swing systems (table steps, start at midnight) or multi-pass systems",
               "installations the sizing method refuses or leaves undefined are skipped"]
EPS = 1e-9

LINEAR = ["primary_no_recirc", "parallel_loop", "single_pass_rtp"]
RELS = {
    "scale": LINEAR + ["instant_wh"],
    "rotate": LINEAR + ["instant_wh"],
    "flow": ["parallel_loop"],
    "inlet": LINEAR + ["swing_tank", "instant_wh"],
    "run_hr": LINEAR + ["swing_tank"],
    "aquastat": LINEAR + ["swing_tank"],
    "storage_t": LINEAR,
    "defrost": LINEAR + ["swing_tank", "instant_wh"],
    "supply_t": ["primary_no_recirc", "instant_wh"],
    "split": LINEAR + ["swing_tank", "instant_wh"],
    "percent": LINEAR + ["swing_tank"],
    "dominate": LINEAR + ["swing_tank"],
    "more_people": LINEAR + ["instant_wh"],
    "loss": ["single_pass_rtp", "swing_tank", "parallel_loop"],
    "flatten": ["primary_no_recirc", "parallel_loop"],
}


def plan(tier):
    return []


def gen(rng, i):
    rel = sorted(RELS)[i % len(RELS)]
    sch = rng.choice(RELS[rel])
    ls = {"percent": True, "dominate": True, "rotate": False, "run_hr": False, "flatten": False}.get(rel)
    if sch in ("instant_wh",):
        ls = False
    kw = G.engine_kwargs(rng, schematic=sch, ls=ls, tame=True)
    cl = RB.climate_for(kw["zip_code_or_climate_zone"])
    kw["zip_code_or_climate_zone"] = {"design_oat_f": cl.design_oat, "design_inlet_water_temp_f": cl.design_inlet}
    c = {"rel": rel, "kw": kw, "xs": [round(rng.uniform(0, 1), 4) for _ in range(4)]}
    if rel == "rotate" and "custom_peak_load_shape" not in kw:
        kw["custom_peak_load_shape"] = G.shape(rng)
    if rel == "split":
        kw.pop("custom_peak_load_shape", None), kw.pop("custom_avg_load_shape", None)
        kw["magnitude"] = max(4, kw["magnitude"])
    return c


def sized(kw):
    try:
        G.plant(kw).size()
    except (RS.Refused, RS.Undefined):
        return None
    return api.sized(api.parts(api.engine(**kw))[0])


def var(kw, **ch):
    k = copy.deepcopy(kw)
    k.update(ch)
    return k


def chain(c, key, values, fn=None):
    out = []
    for v in values:
        k = fn(v) if fn else var(c["kw"], **{key: v})
        s = sized(k)
        if s is not None:
            out.append((v, s))
    return out


def monotone(ctx, c, pts, key, up, rel):
    sch = c["kw"]["schematic"]
    for (v0, a), (v1, b) in zip(pts, pts[1:]):
        lo, hi = (a[key], b[key]) if up else (b[key], a[key])
        ctx.check(lo <= hi * (1 + EPS) + 1e-9, f"{rel}:{key}:{sch}", "%s of %s goes from %r to %r as %s goes from %r to %r", key, sch, a[key], b[key], rel, v0, v1)


def same(ctx, c, pts, key, rel):
    sch = c["kw"]["schematic"]
    for (v0, a), (v1, b) in zip(pts, pts[1:]):
        ctx.close(b[key], a[key], f"{rel}:{key}:{sch}", f"{key} of {sch} must not change as {rel} goes from {v0!r} to {v1!r}", 1e-9, 1e-9)


def run(ctx, c):
    kw, rel = c["kw"], c["rel"]
    sch = kw["schematic"]
    base = sized(kw)
    if base is None:
        ctx.event("not-sizable-skipped")
        return
    pts = globals()["rel_" + rel](ctx, c, base)
    if pts:
        ctx.event(f"{rel}:{sch}" + (":ls" if kw.get("load_shift_schedule") else ""))
        ctx.seen(rel, sch, bool(kw.get("load_shift_schedule")), round(base["cap"], 2), round(base["vol"], 1))


def rel_scale(ctx, c, base):
    kw = c["kw"]
    n = 2 + int(c["xs"][0] * 9)
    ch = {"magnitude": kw["magnitude"] * n}
    if "return_flow_gpm" in kw:
        ch["return_flow_gpm"] = kw["return_flow_gpm"] * n
    s = sized(var(kw, **ch))
    if s is None:
        return
    for k in ("cap", "vol", "tm_cap", "tm_vol"):
        if k in base:
            ctx.close(s[k], base[k] * n, f"scale:{k}:{kw['schematic']}", f"{k} of {kw['schematic']} for {n} times the building", 1e-8, 1e-8)
    return True


def rel_rotate(ctx, c, base):
    kw = c["kw"]
    pts = [(0, base)]
    for x in c["xs"]:
        r = 1 + int(x * 23)
        sh = kw["custom_peak_load_shape"]
        s = sized(var(kw, custom_peak_load_shape=sh[r:] + sh[:r]))
        if s:
            pts.append((r, s))
    for k in ("cap", "vol"):
        for r, s in pts[1:]:
            ctx.close(s[k], base[k], f"rotate:{k}:{kw['schematic']}", f"{k} of {kw['schematic']} with the load shape turned by {r} h", 1e-8, 1e-7)
    return len(pts) > 1


def rel_flow(ctx, c, base):
    kw = c["kw"]
    f = 0.2 + 5 * c["xs"][0]
    s = sized(var(kw, return_flow_gpm=kw["return_flow_gpm"] * f))
    if s is None:
        return
    for k in ("tm_cap", "tm_vol"):
        ctx.close(s[k], base[k] * f, f"flow:{k}", f"{k} for {f} times the loop flow", 1e-8, 1e-8)
    for k in ("cap", "vol"):
        ctx.close(s[k], base[k], f"flow:{k}", f"{k} of a parallel loop system must not depend on the loop flow", 1e-9, 1e-9)
    return True


def rel_inlet(ctx, c, base):
    kw = c["kw"]
    t = sorted((34.0 + 40.0 * x for x in c["xs"]), reverse=True)
    pts = chain(c, None, t, lambda v: var(kw, zip_code_or_climate_zone={"design_oat_f": 40.0, "design_inlet_water_temp_f": v}))
    monotone(ctx, c, pts, "cap", True, "colder inlet water")
    return len(pts) > 1


def rel_run_hr(ctx, c, base):
    kw = c["kw"]
    h = sorted((12.0 + 10.0 * x for x in c["xs"]), reverse=True)
    pts = chain(c, "max_daily_run_hr", h)
    monotone(ctx, c, pts, "cap", True, "fewer run hours")
    monotone(ctx, c, pts, "vol", False, "fewer run hours")
    if kw["schematic"] in ("primary_no_recirc", "parallel_loop"):
        for (v0, a), (v1, b) in zip(pts, pts[1:]):
            ctx.close(b["cap"] * v1, a["cap"] * v0, f"run_hr:product:{kw['schematic']}", "capacity times run hours is the day's heat", 1e-9, 1e-9)
    return len(pts) > 1


def rel_aquastat(ctx, c, base):
    kw = c["kw"]
    if kw.get("load_shift_schedule"):
        kw = var(kw)
        kw.pop("load_shift_schedule")
        c = dict(c, kw=kw)
    off = kw.get("off_sensor_fract", 0.1)
    a = sorted(max(off, 0.2) + (0.75 - max(off, 0.2)) * x for x in c["xs"])
    pts = chain(c, "aquastat_fract", a)
    monotone(ctx, c, pts, "vol", True, "a higher aquastat")
    same(ctx, c, pts, "cap", "the aquastat")
    return len(pts) > 1


def rel_storage_t(ctx, c, base):
    kw = var(c["kw"])
    kw.pop("off_trigger_t_f", None), kw.pop("load_up_off_trigger_t_f", None)
    c = dict(c, kw=kw)
    t = sorted(kw["supply_temp_f"] + 8 + 40 * x for x in c["xs"])
    pts = chain(c, "storage_temp_f", t)
    monotone(ctx, c, pts, "vol", False, "hotter storage")
    return len(pts) > 1


def rel_defrost(ctx, c, base):
    d = sorted(0.5 + 0.5 * x for x in c["xs"])
    pts = chain(c, "defrost_factor", d)
    monotone(ctx, c, pts, "cap", False, "a better defrost factor")
    if not c["kw"].get("load_shift_schedule"):
        for (v0, a), (v1, b) in zip(pts, pts[1:]):
            ctx.close(b["cap"] * v1, a["cap"] * v0, f"defrost:product:{c['kw']['schematic']}", "capacity times defrost factor is what the building needs", 1e-9, 1e-9)
        same(ctx, c, pts, "vol", "the defrost factor")
    return len(pts) > 1


def rel_supply_t(ctx, c, base):
    kw = var(c["kw"], storage_temp_f=165.0)
    for k in ("on_trigger_t_f", "off_trigger_t_f", "load_up_off_trigger_t_f", "load_shift_schedule"):
        kw.pop(k, None)
    c = dict(c, kw=kw)
    pts = chain(c, "supply_temp_f", sorted(110 + 40 * x for x in c["xs"]))
    monotone(ctx, c, pts, "cap", True, "a hotter supply")
    return len(pts) > 1


def rel_split(ctx, c, base):
    kw = c["kw"]
    bt, m = kw["building_type"], kw["magnitude"]
    a = max(1, min(m - 1, int(m * c["xs"][0])))
    k = var(kw, building_type=[bt, bt], magnitude=[a, m - a])
    s = sized(k)
    if s is None:
        return
    for key in base:
        ctx.close(s[key], base[key], f"split:{key}:{kw['schematic']}", f"{key} of a building described as two halves of the same type", 1e-7, 1e-7)
    return True


def rel_percent(ctx, c, base):
    pts = chain(c, "load_shift_percent", sorted(0.3 + 0.7 * x for x in c["xs"]) + [1.0])
    if c["kw"]["schematic"] != "swing_tank":     # storage may shrink: the larger heater recovers faster after the shed block
        monotone(ctx, c, pts, "cap", True, "a larger share of covered days")
    return len(pts) > 1


def rel_dominate(ctx, c, base):
    """Shedding never makes the plant smaller than the same plant held to the hours left over."""
    kw = var(c["kw"])
    shed = kw.pop("load_shift_schedule").count(0)
    kw["max_daily_run_hr"] = min(kw.get("max_daily_run_hr", 16.0), 24.0 - shed)
    s = sized(kw)
    if s is None:
        return
    for k in ("cap", "vol"):
        ctx.check(base[k] >= s[k] * (1 - EPS), f"dominate:{k}:{kw['schematic']}", "%s with load shifting %r, without %r", k, base[k], s[k])
    return True


def rel_more_people(ctx, c, base):
    kw = c["kw"]
    pts = chain(c, "magnitude", sorted({kw["magnitude"] + int(kw["magnitude"] * 3 * x) for x in c["xs"]}))
    for k in ("cap", "vol"):
        monotone(ctx, c, pts, k, True, "more occupants")
    return len(pts) > 1


def rel_loss(ctx, c, base):
    """A colder return means more loop loss: the element or, for return to primary, the heat pump grows."""
    kw = c["kw"]
    t = sorted((kw["supply_temp_f"] - 2 - 14 * x for x in c["xs"]), reverse=True)
    pts = chain(c, "return_temp_f", t)
    monotone(ctx, c, pts, "cap" if kw["schematic"] == "single_pass_rtp" else "tm_cap", True, "a colder return")
    if kw["schematic"] != "single_pass_rtp":
        for (v0, a), (v1, b) in zip(pts, pts[1:]):
            d0, d1 = kw["supply_temp_f"] - v0, kw["supply_temp_f"] - v1
            ctx.close(b["tm_cap"] / d1, a["tm_cap"] / d0, f"loss:tm_cap:{kw['schematic']}", "element per degree of loop loss", 1e-8, 1e-9)
    return len(pts) > 1


def rel_flatten(ctx, c, base):
    """Blending a shape with the flat one never needs more storage."""
    kw = c["kw"]
    sh = G.demand(kw).peak
    w = sorted(x * 0.7 for x in c["xs"])
    pts = chain(c, None, w, lambda v: var(kw, custom_peak_load_shape=[(1 - v) * s + v / 24.0 for s in sh]))
    monotone(ctx, c, pts, "vol", False, "a flatter day")
    same(ctx, c, pts, "cap", "the shape of the day")
    return len(pts) > 1
