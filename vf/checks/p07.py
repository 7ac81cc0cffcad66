import os
import random
import re
import shutil
import tempfile
from vf import api, gen as G, sizecase
from vf.ref import sizing as RS
from vf.ref.data import KBTUH_PER_KW, RHO_CP

ID = "P07"
RULE = ("sizing curves, load-shift curves, multi-pass curves and electric-resistance trade-off curves of random sized installations, "
        "every point compared with an independent sizing at that point's setting; distinct = (schematic, curve kind, number of points, "
        "rounded recommended point)")
N = {"quick": 500, "thorough": 11000}
CHUNK = 6


def plan(tier):
    return []


def gen(rng, i):
    kind = ["plain", "ls", "plain", "swing", "plain", "swing_ls", "plain", "ls", "er", "mp"][i % 10]
    if i % 10 == 4 and i % 20 == 4:
        kind = "asked"
    if kind == "mp" and i % 40 != 9:
        kind = "plot"
    if kind == "asked":
        ls = rng.random() < 0.5
        c = sizecase.make(rng, rng.choice(["primary_no_recirc", "parallel_loop", "single_pass_rtp"]), ls)
        for k in ("slope", "cmap", "annual", "run_hr_24", "extra_up", "alias"):
            c.pop(k, None)
        c["how"], c["kind"] = "from_size", kind
        c["slopes"] = [round(rng.uniform(0.9, 4.0), 2) for _ in range(3)]
        c["ops"] = [rng.choice(["curve", "ls"] if ls else ["curve"]) for _ in range(3)]
        c["step"] = rng.choice([0.5, 1.0, 2.0])
        return c
    if kind == "mp":
        c = sizecase.make(rng, "multi_pass_rtp", False)
        c["how"] = "facade"
        if rng.random() < 0.35:
            # peak hour near the least run time: one or two points on the curve
            v = [rng.uniform(0.2, 1.7) for _ in range(24)]
            top = rng.choice([13.2, 13.7, 14.2, 15.5])
            v = [min(x, sum(v) / top) for x in v]
            c["kw"]["custom_peak_load_shape"] = [x / sum(v) for x in v]
    elif kind == "er":
        c = sizecase.make(rng, "swing_tank", False)
        c["er"] = {"sf": round(rng.uniform(1.0, 1.5), 2), "add": round(rng.uniform(0.8, 1.6), 2), "cap_x": round(rng.uniform(0.3, 0.95), 3),
                   "vol_x": round(rng.uniform(0.3, 0.95), 3)}
    elif kind in ("swing", "swing_ls"):
        c = sizecase.make(rng, "swing_tank", kind == "swing_ls")
        c["step"] = rng.choice([1.0, 2.0, 0.5])
    else:
        c = sizecase.make(rng, rng.choice(["primary_no_recirc", "parallel_loop", "single_pass_rtp"]), kind == "ls" or (kind == "plot" and rng.random() < 0.5))
        c["step"] = rng.choice([0.25, 0.25, 0.5, 0.125, 1.0])
    if c["how"] in ("size", "resize"):
        c["how"] = "from_size"
    if kind == "plot":
        c["how"] = "facade"
        for k in ("slope", "cmap", "annual", "run_hr_24", "fract"):
            c.pop(k, None)
    if c["how"] == "facade":
        for k in ("slope", "cmap", "annual", "run_hr_24", "fract"):
            c.pop(k, None)
    c["kind"] = kind
    if kind in ("er", "mp") and sizecase.can_be_annual(c["kw"]) and rng.random() < 0.5:
        c["annual_curve"] = True     # the building is switched to its annual shape before the curve is asked for
    if kind in ("ls", "swing_ls"):
        c["pct"] = rng.choice([None, 0.2, 0.25, 1.0, round(rng.uniform(0.25, 1.0), 2)])
    if kind in ("plain", "ls", "swing", "swing_ls") and rng.random() < 0.35:
        c["reslope"] = round(rng.uniform(0.9, 4.0), 2)      # sized anew with another stratification slope, curves asked again
    return c


def expected_hours(p, step):
    lim = 1.0 / max(p.demand.peak) * 1.001
    hs, k = [], 0
    while 24.0 - step * k > p.run_hr + 1e-9:
        hs.append(24.0 - step * k)
        k += 1
    rec = len(hs)
    k = 0
    while True:
        h = p.run_hr - step * k
        if abs(h - lim) < 1e-7:
            raise RS.Undefined("hour exactly at the limit")
        if h <= lim:
            break
        hs.append(h)
        k += 1
    return hs, rec


def point(p, h):
    """Demand-only primary sizing at h run hours (no load shift)."""
    q = RS.Plant(**{**dict(schematic=p.schematic, demand=p.demand, inlet=p.inlet, supply=p.supply, storage=p.storage, run_hr=h, defrost=p.defrost,
                           schedule=["normal"] * 24, slope=p.slope, ret_t=p.ret_t, ret_gpm=p.ret_gpm, tm_on=p.tm_on, tm_off=p.tm_off,
                           tm_off_hr=p.tm_off_hr, tm_sf=p.tm_sf),
                    "ctl": None if not p.ctl else ({"normal": p.ctl["normal"]} if "normal" in p.ctl else p.ctl)})
    return q.size()


def check_curve(ctx, case, sysm, bld, p, ref):
    step = case["step"]
    hs, rec = expected_hours(p, step)
    if len(hs) <= rec:
        ctx.event("skipped-no-range")
        return
    curve = sysm.get_sizing_curve(bld, step=step)
    want_c, want_v = [], []
    for h in hs:
        try:
            r = point(p, h)
        except RS.Refused:
            break
        want_c.append(r["cap"])
        want_v.append(r["vol"])
    hs = hs[:len(want_c)]
    if len(hs) <= rec:
        return
    t = p.schematic
    if not ctx.closelist(curve["heat_hours"], hs, "hours:" + t, f"{t} curve hours", 1e-9):
        return
    ctx.closelist(curve["capacity_kbtuh"], want_c, "curve-cap:" + t, f"{t} curve capacity", 1e-6)
    ctx.closelist(curve["storage_storageT_gal"], want_v, "curve-vol:" + t, f"{t} curve storage", 1e-6)
    ri = curve["recommended_index"]
    ctx.check(ri == rec, "rec-index:" + t, "recommended index %s, expected %s", ri, rec)
    ctx.close(curve["heat_hours"][ri], p.run_hr, "rec-hours:" + t, "run hours of the recommended point", 1e-9)
    if not p.ls:
        ctx.close(curve["capacity_kbtuh"][ri], ref["cap"], "rec-cap:" + t, "capacity of the recommended point against the sized system")
        ctx.close(curve["storage_storageT_gal"][ri], ref["vol"], "rec-vol:" + t, "storage of the recommended point against the sized system")
    c, v = curve["capacity_kbtuh"], curve["storage_storageT_gal"]
    if t != "swing_tank":
        ctx.check(all(a < b + 1e-9 for a, b in zip(c, c[1:])), "monotone-cap:" + t, "capacity does not grow as run hours shrink")
        ctx.check(all(a > b - 1e-6 * abs(a) for a, b in zip(v, v[1:])), "monotone-vol:" + t, "storage does not shrink as run hours shrink")
    ctx.seen(t, "curve", len(hs), round(c[ri], 2), round(v[ri], 1))
    ctx.event("curve-points", len(hs))
    ctx.sample = {"hours": hs[:3], "capacity": want_c[:3], "storage": want_v[:3], "recommended": ri}


def check_ls(ctx, case, sysm, bld, p, ref):
    pct = case.get("pct")
    kw = {} if pct is None else {"load_shift_percent": pct}
    cm = api.control_map(p.ctl)
    curve = sysm.get_ls_sizing_curve(bld, p.schedule, cm, **kw)
    t = p.schematic
    pc = [i / 100.0 for i in range(25, 101)]
    if not ctx.closelist(curve["load_shift_percent"], pc, "ls-percent:" + t, "coverage values", 1e-9):
        return
    idx = list(range(76)) if t != "swing_tank" else sorted({0, 75, 70, 30})
    keep = p.fract
    for i in idx:
        p.fract = RS.ls_fraction(pc[i])
        try:
            r = p.size()
        finally:
            p.fract = keep
        if not ctx.close(curve["capacity_kbtuh"][i], r["cap"], "ls-cap:" + t, f"{t} capacity at {pc[i]:.2f} coverage"):
            break
        if not ctx.close(curve["storage_storageT_gal"][i], r["vol"], "ls-vol:" + t, f"{t} storage at {pc[i]:.2f} coverage"):
            break
    want = 1.0 if pct is None else pct
    rec = min(range(76), key=lambda i: abs(pc[i] - want))
    ctx.check(curve["recommended_index"] == rec, "ls-rec:" + t, "recommended index %s, expected %s for %s", curve["recommended_index"], rec, want)
    v, c = curve["storage_storageT_gal"], curve["capacity_kbtuh"]
    # a larger heater may recover with less storage, so only points of equal capacity are compared
    ctx.check(all(v[k] <= v[k + 1] * (1 + 1e-6) for k in range(75) if abs(c[k + 1] - c[k]) <= 1e-9 * c[k]), "ls-monotone-vol:" + t,
              "covering more days asks for less storage at the same capacity")
    ctx.check(all(a <= b + 1e-6 * abs(b) for a, b in zip(c, c[1:])), "ls-monotone-cap:" + t, "covering more days asks for less capacity")
    ctx.seen(t, "ls", rec, round(v[rec], 1), round(c[rec], 2))
    ctx.event("ls-points", 76)


def numbers(text):
    return [float(t) for t in re.findall(r"-?\d+(?:\.\d+)?", re.sub(r"<[^>]*>", " ", text))]


def check_figure(ctx, fig, x, y, start, tag, hours=None):
    d = fig.data
    ctx.closelist(d[0].x, x, f"plot-x:{tag}", "plotted x", 1e-9)
    ctx.closelist(d[0].y, y, f"plot-y:{tag}", "plotted y", 1e-9)
    ctx.check(len(d) == len(x) + 1, f"plot-markers:{tag}", "%d markers for %d points", len(d) - 1, len(x))
    for i in range(len(x)):
        ok = abs(d[i + 1].x[0] - x[i]) < 1e-9 * (1 + abs(x[i])) and abs(d[i + 1].y[0] - y[i]) < 1e-9 * (1 + abs(y[i]))
        if not ctx.check(ok, f"plot-marker:{tag}", "marker %d is not on its point", i):
            break
    vis = [i for i in range(len(x)) if d[i + 1].visible]
    ctx.check(vis == [start], f"plot-visible:{tag}", "visible markers %s, expected [%s]", vis, start)
    sl = fig.layout.sliders[0]
    ctx.check(sl.active == start, f"plot-active:{tag}", "slider starts at %s, expected %s", sl.active, start)
    for i, st in enumerate(sl.steps):
        v = list(st.args[0]["visible"])
        if not ctx.check([k for k, b in enumerate(v) if b] == [0, i + 1], f"plot-step:{tag}", "slider step %d shows the wrong marker", i):
            break
        # the caption names the point (however it is rounded): every number in it belongs to this point
        own = [x[i], y[i]] + ([hours[i]] if hours else [])
        far = [n for n in numbers(st.label or "") if min(abs(n - o) for o in own) > 0.51]
        if not ctx.check(not far, f"plot-label:{tag}", "slider step %d (%s) is labelled %r", i, own, st.label):
            break


def run_plot(ctx, case, p, ref):
    eng = api.engine(**case["kw"])
    sysm, bld = api.parts(eng)
    fig, x, y, start = eng.plot_sizing_curve(return_with_x_y_points=True)
    pct = case["kw"].get("load_shift_percent", 0.95)
    if p.ls:
        pc = [i / 100.0 for i in range(25, 101)]
        ctx.closelist(x, [100.0 * a for a in pc], "plot-ls-x", "coverage axis", 1e-9)
        want = min(range(76), key=lambda i: abs(pc[i] - pct))
        ctx.check(start == want, "plot-ls-start", "start index %s, expected %s", start, want)
        keep = p.fract
        p.fract = RS.ls_fraction(pc[want])
        ctx.close(y[start], p.size()["vol"], "plot-ls-point", "storage at the selected coverage")
        p.fract = keep
    else:
        try:
            hs, rec = expected_hours(p, 0.25)
        except RS.Undefined:
            return
        if len(hs) <= rec:
            return
        if not ctx.check(len(x) == len(hs), "plot-len", "%d plotted points, expected %d", len(x), len(hs)):
            return
        want = len(hs) - 1 - rec
        ctx.check(start == want, "plot-start", "start index %s, expected %s", start, want)
        ctx.close(x[start], ref["vol"], "plot-rec-vol", "selected storage against the sized system")
        ctx.close(y[start], ref["cap"], "plot-rec-cap", "selected capacity against the sized system")
        ctx.check(all(a <= b + 1e-6 * abs(b) for a, b in zip(x, x[1:])), "plot-sorted", "storage axis is not ascending")
    check_figure(ctx, fig, x, y, start, "ls" if p.ls else "plain", None if p.ls else hs[::-1])
    again = eng.plot_sizing_curve()
    ctx.closelist(again.data[0].y, y, "plot-repeat", "second plot", 1e-12)
    path = os.path.join(tempfile.mkdtemp(prefix="vf07-"), "curve.html")
    try:
        eng.plot_sizing_curve(filepath=path)
        ctx.check(os.path.exists(path) and os.path.getsize(path) > 1000, "plot-file", "no plot was written to the given file")
    finally:
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)
    div = eng.plot_sizing_curve(return_as_div=True)
    ctx.check(isinstance(div, str) and "<div" in div, "plot-div", "no div returned")
    ctx.seen("plot", p.schematic, p.ls, start, len(x))
    ctx.event("plots")


def run_mp(ctx, case, p):
    eng = api.engine(**case["kw"])
    sysm, bld = api.parts(eng)
    cls = api.system_class("multi_pass_rtp")
    got = api.sized(sysm)
    if case.get("annual_curve"):
        bld.set_to_annual_load_shape()
    curve = sysm.get_sizing_curve(bld)
    if case.get("annual_curve"):
        ctx.check(bld.is_annual_load_shape(), "mp-annual-kept", "the curve query switched the building's load shape")
        bld.set_to_daily_load_shape()
        ctx.event("mp-annual")
    load = p.demand.daily * RHO_CP * (p.supply - p.inlet) / 1000.0 + p.recirc_kbtuh() * 24.0
    back = lambda cap: load / (cap * p.defrost)
    exp = [(back(got["cap"]), got["cap"], got["vol"])]
    h = 14.0 - 0.5
    lim = 1.0 / max(p.demand.peak) * 1.001
    cm = api.control_map(p.ctl)
    while h > lim and h >= 9:
        try:
            s = api.sized(cls.from_size(bld, p.supply, p.storage, p.ret_t, p.ret_gpm, max_daily_run_hr=h, defrost_factor=p.defrost,
                                        control_schedule=p.schedule, control_map=cm, capacity_boost_trial_days=2, capacity_boost_iterations=1))
        except (ValueError, RuntimeError, ZeroDivisionError):
            break
        if s["vol"] == 0:
            break
        b = back(s["cap"])
        if abs((b * 10) % 1 - 0.5) < 1e-6:
            return
        if all(round(b, 1) < round(e[0], 1) for e in exp):
            exp.append((b, s["cap"], s["vol"]))
        h -= 0.5
    ctx.closelist(curve["heat_hours"], [round(e[0], 1) for e in exp], "mp-hours", "multi-pass curve hours", 1e-9)
    ctx.closelist(curve["capacity_kbtuh"], [e[1] for e in exp], "mp-cap", "multi-pass curve capacity", 1e-6)
    ctx.closelist(curve["storage_storageT_gal"], [e[2] for e in exp], "mp-vol", "multi-pass curve storage", 1e-6)
    ri = curve["recommended_index"]
    ctx.close(curve["capacity_kbtuh"][ri], got["cap"], "mp-rec-cap", "recommended capacity against the sized system", 1e-9)
    ctx.close(curve["storage_storageT_gal"][ri], got["vol"], "mp-rec-vol", "recommended storage against the sized system", 1e-9)
    ctx.seen("mp", len(exp), round(got["cap"], 2))
    ctx.event("mp-points", len(exp))


def run_er(ctx, case, p):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    er = case["er"]
    ref = p.size()
    cap, sv, base, vol = ref["cap"] * er["cap_x"], max(20.0, ref["vol"] * er["vol_x"]), ref["tm_cap"], ref["tm_vol"]
    d = p.er_deficit(cap, sv, vol, base, run_hr=24.0)
    bld = api.building(p.demand, case["kw"]["zip_code_or_climate_zone"])
    cm = api.control_map(p.ctl)
    s = api.system_class("swing_er").from_components(
        [WaterHeater.from_nominal_capacity(cap, p.schedule, cm)], StratifiedTank(sv), MixedStorageTank(vol), base, bld, supply_temp_f=p.supply,
        storage_temp_f=p.storage, return_temp_f=p.ret_t, return_flow_gpm=p.ret_gpm, er_safety_factor=er["sf"], control_schedule=p.schedule, control_map=cm)
    if d <= 0:
        ctx.raises(lambda: s.get_er_sized_points(bld), RuntimeError, "er-curve-refused", "trade-off curve of a system that needs no addition")
        return
    full = base + p.er_kbtuh(d, vol, er["sf"])
    exp, i = [], 120.0
    try:
        while i > 0:
            if i == 100.0:
                exp.append((i, full))
                need = True
            else:
                di = p.er_deficit(cap, sv, vol, base, daily=p.demand.daily * i / 100.0, run_hr=24.0)
                exp.append((i, base + p.er_kbtuh(di, vol, er["add"])))
                need = di > 0
                if abs(di) < 1e-7 and di != 0:
                    return
            i -= 10.0
            if not need:
                break
    except RS.Refused:
        ctx.raises(lambda: s.get_er_sized_points(bld, er["add"]), ValueError, "er-curve-refused", "trade-off curve with a draw larger than the swing tank")
        return
    if len(exp) < 3 or any(abs((k / KBTUH_PER_KW) % 1 - 0.5) < 1e-6 for _, k in exp):
        return
    if case.get("annual_curve"):
        bld.set_to_annual_load_shape()
        ctx.event("er-annual")
    kw, pct, start = s.get_er_sized_points(bld, er["add"])
    exp.reverse()
    ctx.closelist(pct, [e[0] for e in exp], "er-coverage", "coverage values", 1e-9)
    ctx.closelist(kw, [round(e[1] / KBTUH_PER_KW, 0) for e in exp], "er-kw", "element sizes (kW)", 1e-9, 1e-6)
    ctx.check(pct[start] == 100.0, "er-start", "start index points at %s %% coverage", pct[start])
    ctx.close(s.get_minimum_tm_capacity_kbtuh(), full, "er-restored", "element size after the curve query", 1e-6)
    ctx.close(bld.daily_dhw_use_supplyT_gal, p.demand.daily, "er-building", "daily use after the curve query", 1e-12)
    fig = s.get_er_sizing_curve(bld, er["add"])
    ctx.check(bld.is_annual_load_shape() == bool(case.get("annual_curve")), "er-annual-kept", "the curve query switched the building's load shape")
    check_figure(ctx, fig, pct, kw, start, "er")
    ctx.seen("er", len(pct), start, tuple(kw))
    ctx.event("er-points", len(pct))


def run_asked(ctx, case, p):
    """A plant that was never sized: every query answers for the stratification slope it is asked with, whatever was asked before."""
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    ref = p.size()
    bld = api.building(p.demand, case["kw"]["zip_code_or_climate_zone"])
    cm = api.control_map(p.ctl)
    a = {"supply_temp_f": p.supply, "storage_temp_f": p.storage, "defrost_factor": p.defrost, "max_daily_run_hr": p.run_hr}
    if p.schematic in G.RECIRC:
        a.update(return_temp_f=p.ret_t, return_flow_gpm=p.ret_gpm)
    if p.schematic == "parallel_loop":
        a.update(tm_on_temp_f=p.tm_on, tm_off_temp_f=p.tm_off, tm_off_time_hr=p.tm_off_hr, tm_safety_factor=p.tm_sf)
    sysm = api.system_class(p.schematic)(water_heaters=[WaterHeater.from_nominal_capacity(ref["cap"], p.schedule, cm)],
                                         storage_tank=StratifiedTank(max(ref["vol"], 10.0)), **a)
    for slope, op in zip(case["slopes"], case["ops"]):
        p.slope = slope
        if op == "curve":
            hs, rec = expected_hours(p, case["step"])
            got = sysm.get_sizing_curve(bld, strat_slope=slope, step=case["step"])
            want = [point(p, h) for h in hs]
            ctx.closelist(got["heat_hours"], hs, "asked-hours", "hours of an unsized plant's curve", 1e-9)
            ctx.closelist(got["capacity_kbtuh"], [w["cap"] for w in want], "asked-cap", f"capacity of an unsized plant's curve at slope {slope}", 1e-6)
            ctx.closelist(got["storage_storageT_gal"], [w["vol"] for w in want], "asked-vol", f"storage of an unsized plant's curve at slope {slope}", 1e-6)
        else:
            got = sysm.get_ls_sizing_curve(bld, p.schedule, cm, strat_slope=slope)
            keep = p.fract
            for k in (0, 30, 75):
                p.fract = RS.ls_fraction((25 + k) / 100.0)
                w = p.size()
                ctx.close(got["storage_storageT_gal"][k], w["vol"], "asked-ls-vol", f"storage of an unsized plant's load-shift curve at slope {slope}")
                ctx.close(got["capacity_kbtuh"][k], w["cap"], "asked-ls-cap", f"capacity of an unsized plant's load-shift curve at slope {slope}")
            p.fract = keep
        ctx.event("asked:" + op)
    ctx.seen("asked", p.schematic, tuple(case["ops"]), tuple(case["slopes"]))


def curves(ctx, case, sysm, bld, p, ref):
    if p.ls:
        check_ls(ctx, case, sysm, bld, p, ref)
        if p.schematic == "swing_tank":
            return
    check_curve(ctx, case, sysm, bld, p, ref)


def run(ctx, case):
    p = sizecase.plant(case)
    try:
        if case["kind"] == "asked":
            return run_asked(ctx, case, p)
        if case["kind"] == "er":
            return run_er(ctx, case, p)
        ref = p.size()
        if case["kind"] == "mp":
            return run_mp(ctx, case, p)
        if case["kind"] == "plot":
            return run_plot(ctx, case, p, ref)
        sysm, bld = sizecase.build(case, p)
        curves(ctx, case, sysm, bld, p, ref)
        if "reslope" in case:
            p.slope = case["reslope"]
            ref = p.size()
            kw = {"load_shift_fract_total_vol": p.fract} if "fract" in case else {}
            sysm.size(bld, control_schedule=p.schedule if p.ctl else None, control_map=api.control_map(p.ctl), strat_slope=p.slope, **kw)
            curves(ctx, case, sysm, bld, p, ref)
            ctx.event("curves-after-resizing")
    except RS.Undefined:
        ctx.event("undefined-skipped")
    except RS.Refused:
        ctx.event("refused-skipped")
