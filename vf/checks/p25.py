import re
import warnings

from vf import api, gen as G, sizecase
from vf.ref import sizing as RS
from vf.ref.data import RHO_CP

ID = "P25"
RULE = ("random installations sized through the classes with sensor heights tuned to both sides of the ten-minute cycle, every warning "
        "recorded; distinct = (schematic, path, verdict per control mode, rounded size)")
ASSUMPTIONS = ["cycle times within 1e-6 of the limit are not judged", "storage hotter than supply"]
N = {"quick": 4000, "thorough": 80000}
CHUNK = 12
LIMIT_MIN = 10.0


def plan(tier):
    return []


def gen(rng, i):
    ls = rng.random() < 0.55
    c = sizecase.make(rng, rng.choice(["primary_no_recirc", "parallel_loop", "single_pass_rtp"]), ls)
    c["how"] = rng.choice(["from_size", "from_size", "size", "resize"])
    if ls:
        c.setdefault("fract", round(rng.uniform(0.4, 1.0), 3))
    if c.get("cmap") == "none" and rng.random() < 0.5:
        c.pop("cmap")
    c["tune"] = [[rng.choice(["limit", "limit", "above", "equal", "keep", "wide"]), rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -0.3), round(rng.uniform(0.01, 0.2), 3)]
                 for _ in range(3)]
    c["strict"] = rng.random() < 0.25
    if rng.random() < 0.08:
        c["engine"] = G.engine_kwargs(rng, schematic=rng.choice(G.SCHEMATICS + [s for s in G.SCHEMATICS if s != "multi_pass_rtp"]), tame=True)
    return c


def place(c, kind, eps, far, rate, vol):
    if kind == "limit" and vol > 0:
        x = c.on_f - LIMIT_MIN / 60.0 * rate / vol * (1 + eps)
        c.off_f = x if 0.0 <= x <= 1.0 else c.off_f
    elif kind == "above":
        c.off_f = min(1.0, c.on_f + far)
    elif kind == "equal":
        c.off_f = c.on_f
    elif kind == "wide":
        c.off_f = 0.0


def tune(p, ref, case):
    """Move the off-sensors to the probed side of each boundary; returns (size, verdict per mode)."""
    # with load shifting the load-up off-sensor enters the size: settle it first
    lead = ("loadUp" if "loadUp" in p.ctl else "normal") if p.ls else None
    kinds = dict(zip(sorted(p.ctl), case["tune"]))
    if lead:
        kind, eps, far = kinds[lead]
        place(p.ctl[lead], kind if kind != "limit" else "keep", eps, far, 0.0, 0.0)
        ref = p.size()
    rate = ref["cap"] * 1000.0 / (RHO_CP * (p.storage - p.supply))
    out = {}
    for key, c in sorted(p.ctl.items()):
        if key != lead:
            place(c, *kinds[key], rate, ref["vol"])
        if c.off_f > c.on_f:
            out[key] = "backwards"
            continue
        cycle = (c.on_f - c.off_f) * ref["vol"] / rate * 60.0
        if abs(cycle - LIMIT_MIN) <= 1e-6 * LIMIT_MIN:
            out[key] = None
        else:
            out[key] = "short" if cycle < LIMIT_MIN else "fine"
    return ref, out


def read(ctx, w, keys):
    text = str(w.message)
    named = [k for k in keys if re.search(r"\b" + re.escape(k) + r"\b", text)]
    kind = "short" if re.search(r"cycl", text, re.I) else "backwards" if "off_sensor_fract" in text else "other"
    return named, kind, text


def run(ctx, case):
    p = sizecase.plant(case)
    try:
        ref = p.size()
    except (RS.Undefined, RS.Refused):
        ctx.event("not-sizeable")
        return
    want = {}
    if p.ctl:
        # independent control objects: tuning one must not touch another
        p.ctl = {k: RS.Ctl(c.on_f, c.on_t, c.off_f, c.off_t, c.out_t) for k, c in p.ctl.items()}
        try:
            ref, want = tune(p, ref, case)
        except (RS.Undefined, RS.Refused):
            ctx.event("not-sizeable")
            return
    first = dict(case, how="size") if case["how"] == "resize" else case
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        if "engine" in case:
            # an engine built before must not take the caller's warnings with it
            from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
            try:
                EcosizerEngine(**case["engine"])
                ctx.event("after-engine:" + case["engine"]["schematic"])
            except (ValueError, ZeroDivisionError):
                ctx.event("engine-refused")
            del seen[:]
        sysm, bld = sizecase.build(first, p, quiet=False)
    ctx.close(api.sized(sysm)["vol"], ref["vol"], "size", "storage of the warned-about plant", 1e-6, 1e-6)
    judge(ctx, [w for w in seen if issubclass(w.category, UserWarning)], want, first["how"])
    if case["how"] == "resize" and p.ctl:
        # sizing the same plant again repeats the verdict
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            kw = {"strat_slope": p.slope} if "slope" in case else {}
            if "fract" in case:
                kw["load_shift_fract_total_vol"] = p.fract
            sysm.size(bld, control_schedule=p.schedule, control_map=api.control_map(p.ctl), **kw)
        judge(ctx, [w for w in seen if issubclass(w.category, UserWarning)], want, "again")
    ctx.event("judged:" + p.schematic + (":ls" if p.ls else ""))
    for v in want.values():
        ctx.event("mode:" + str(v))
    ctx.seen(p.schematic, case["how"], tuple(sorted(want.items(), key=str)), round(ref["vol"], 1))
    ctx.sample = {"want": want, "vol": ref["vol"], "cap": ref["cap"]}
    if case["strict"] and any(v in ("short", "backwards") for v in want.values()):
        strict(ctx, case, p)


def judge(ctx, seen, want, how):
    got = {}
    for w in seen:
        named, kind, text = read(ctx, w, want)
        if not ctx.check(len(named) == 1 and kind != "other", "unattributed:" + how, "a sizing warning names no single control mode: %s", text):
            continue
        ctx.check(named[0] not in got, "repeated:" + how, "two warnings for control mode %s", named[0])
        got[named[0]] = kind
    for k, v in want.items():
        if v is not None:
            ctx.check(got.get(k, "fine") == v, "verdict:" + how, "control mode %s judged %s, expected %s", k, got.get(k, "fine"), v)


def strict(ctx, case, p):
    """Warnings turned into errors: the refusal leaves the building and the run hours alone."""
    bld = api.building(p.demand, case["kw"]["zip_code_or_climate_zone"])
    a = {"supply_temp_f": p.supply, "storage_temp_f": p.storage, "defrost_factor": p.defrost, "max_daily_run_hr": p.run_hr}
    if p.schematic != "primary_no_recirc":
        a.update(return_temp_f=p.ret_t, return_flow_gpm=p.ret_gpm)
    if p.schematic == "parallel_loop":
        a.update(tm_on_temp_f=p.tm_on, tm_off_temp_f=p.tm_off, tm_off_time_hr=p.tm_off_hr, tm_safety_factor=p.tm_sf)
    sysm = api.system_class(p.schematic)(water_heaters=[], storage_tank=None, **a)
    annual = bool(case.get("annual"))
    if annual:
        bld.set_to_annual_load_shape()
    daily = bld.daily_dhw_use_supplyT_gal
    raised = False
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        try:
            sysm.size(bld, control_schedule=p.schedule, control_map=api.control_map(p.ctl), **({"strat_slope": p.slope} if "slope" in case else {}))
        except UserWarning:
            raised = True
    ctx.check(sysm.max_daily_run_hr == p.run_hr, "strict-run-hours", "a warning raised as an error left %r run hours, had %r", sysm.max_daily_run_hr, p.run_hr)
    ctx.check(bld.daily_dhw_use_supplyT_gal == daily and bool(bld.is_annual_load_shape()) == annual, "strict-building", "a warning raised as an error changed the building")
    ctx.event("strict:" + ("raised" if raised else "silent"))
