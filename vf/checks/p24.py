import copy
import csv
import os
import random
import shutil
import tempfile

from vf import api, simcase, tariffcase
from vf import gen as G
from vf.ref import data

ID = "P24"
RULE = ("recorded runs (hand-recorded with gaps, modes and temperature-maintenance data, or simulated) are exported and plotted, and every row, trace point, "
        "shaded window and bar is read back; distinct = (kind of export, schematic or timestep, length, number of windows)")
N = {"quick": 800, "thorough": 26000}
CHUNK = 3
NODES = ["tank_temp_0pct", "tank_temp_20pct", "tank_temp_40pct", "tank_temp_60pct", "tank_temp_80pct", "tank_temp_100pct"]
HEAD = ["timestep", "time_min", "dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f", "inlet_water_temp_f"]


def plan(tier):
    return [{"kind": "facade", "seed": 100 + i, "schematic": s} for i, s in enumerate(G.SCHEMATICS)] + [{"kind": "refuse"}]


def gen(rng, i):
    k = rng.random()
    if k < 0.5:
        return {"kind": "record", "seed": rng.randrange(10 ** 9)}
    if k < 0.62:
        c = simcase.make(rng)
        return {"kind": "sim", "case": c, "seed": rng.randrange(10 ** 9)}
    if k < 0.68:
        return {"kind": "facade", "seed": rng.randrange(10 ** 9)}
    if k < 0.85:
        return {"kind": "compare", "seed": rng.randrange(10 ** 9), "tariff": tariffcase.make(rng)}
    return {"kind": "curveplot", "seed": rng.randrange(10 ** 9)}


def recorded(rng):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    dt = rng.choice([1, 2, 5, 10, 15, 60])
    n = rng.choice([0, 1, 2, rng.randrange(3, 400), rng.randrange(50, 900)])
    r = SimulationRun(rng.choice([4320, 525600]), dt)
    tm = rng.random() < 0.5
    r.show_tm_panel = tm
    if rng.random() < 0.8:
        r.supply_temp_f = round(rng.uniform(105, 130), 1)
    mode, left = "normal", 0
    for i in range(n):
        if left == 0:
            mode, left = rng.choice(["normal", "shed", "loadUp", "normal", "other"]), rng.randrange(1, 60)
        left -= 1
        kw = {}
        if tm:
            kw = {"tm_tank_temp_f": rng.uniform(100, 140), "tm_heater_output_kbtuh": rng.choice([0.0, rng.uniform(1, 50)]), "tm_heater_input_kw": rng.choice([None, rng.uniform(0, 9)])}
        r.record_timestep(rng.uniform(0, 30), rng.choice([0.0, rng.uniform(0, 800)]), rng.choice([0.0, rng.uniform(0, 300)]),
                          rng.choice([None, 0.0, rng.uniform(0, 60)]), rng.uniform(-10, 110), rng.uniform(35, 130), [rng.uniform(40, 170) for _ in range(6)], mode=mode, **kw)
    return r


def public(r):
    return copy.deepcopy({k: v for k, v in vars(r).items() if not k.startswith("_")})


def num(x):
    return None if x in ("", None) else float(x)


def check_csv(ctx, r, scratch):
    path = os.path.join(scratch, "run.csv")
    if os.path.exists(path):
        os.unlink(path)
    r.to_csv(path)
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    n = len(r.dhw_demand_supplyT_gal)
    head = rows[0]
    ctx.check(all(h in head for h in HEAD + NODES), "csv-heading", lambda: f"headings {head}")
    ctx.check(len(rows) - 1 == n, "csv-rows", "%s rows for %s recorded steps", len(rows) - 1, n)
    want = {"timestep": list(range(n)), "time_min": [i * r.timestep_min for i in range(n)]}
    for h in HEAD[2:]:
        want[h] = list(getattr(r, h))
    for k, h in enumerate(NODES):
        want[h] = list(r.tank_temps_f[k])
    for h, col in want.items():
        i = head.index(h)
        got = [num(row[i]) for row in rows[1:]]
        bad = [j for j in range(min(n, len(got))) if got[j] != (None if col[j] is None else float(col[j]))]
        ctx.check(not bad, "csv-column:" + h, lambda: f"row {bad[0]} column {h}: {got[bad[0]]}, recorded {col[bad[0]]}")
    ctx.evals += n * len(want)
    ctx.event("csv-rows", n)


def series_equal(ctx, got, want, key, what):
    got, want = [None if x is None else float(x) for x in got], [None if x is None else float(x) for x in want]
    if len(got) != len(want):
        ctx.check(False, key, "%s has %s points, expected %s", what, len(got), len(want))
        return
    bad = [i for i, (a, b) in enumerate(zip(got, want)) if a != b and not (a is not None and b is not None and abs(a - b) <= 1e-9 * max(1.0, abs(b)))]
    ctx.check(not bad, key, lambda: f"{what} at point {bad[0]}: {got[bad[0]]}, expected {want[bad[0]]}")
    ctx.evals += len(want)


def windows(modes, dt):
    out, i = {"shed": [], "loadUp": []}, 0
    while i < len(modes):
        j = i
        while j < len(modes) and modes[j] == modes[i]:
            j += 1
        if modes[i] in out:
            out[modes[i]].append((i * dt, j * dt))
        i = j
    return out


def check_fig(ctx, r, fig, temps):
    n = len(r.dhw_demand_supplyT_gal)
    x = [i * r.timestep_min for i in range(n)]
    per = 60.0 / r.timestep_min
    want = {"Usable Volume": list(r.usable_volume_supplyT_gal), "DHW Demand": [v * per for v in r.dhw_demand_supplyT_gal]}
    if r.supply_temp_f is not None:
        want["Heater Generation"] = [q * 1000.0 / (data.RHO_CP * max(1.0, r.supply_temp_f - t)) for q, t in zip(r.heater_output_kbtuh, r.inlet_water_temp_f)]
    if temps:
        want["OAT"], want["Inlet Water"] = list(r.oat_f), list(r.inlet_water_temp_f)
        for k, lab in enumerate(("Tank 0%", "Tank 20%", "Tank 40%", "Tank 60%", "Tank 80%", "Tank 100%")):
            if r.tank_temps_f[k]:
                want[lab] = list(r.tank_temps_f[k])
    if r.show_tm_panel:
        want["TM Heater Output"], want["Swing Tank Temp"] = list(r.tm_heater_output_kbtuh), list(r.tm_tank_temp_f)
    ctx.check(len(fig.data) == len(want), "plot-traces", lambda: f"{[t.name for t in fig.data]} for {list(want)}")
    for lab, y in want.items():
        tr = [t for t in fig.data if t.name and t.name.startswith(lab)]
        if not ctx.check(len(tr) == 1, "plot-trace:" + lab, "%s traces called %s", len(tr), lab):
            continue
        series_equal(ctx, tr[0].y if tr[0].y is not None else [], y, "plot-values:" + lab, f"trace {lab}")
        series_equal(ctx, tr[0].x if tr[0].x is not None else [], x[:len(y)], "plot-time:" + lab, f"time axis of {lab}")
    w = windows(r.heater_mode, r.timestep_min)
    shapes = {(float(s.x0), float(s.x1), s.fillcolor) for s in (fig.layout.shapes or ())}
    colours = {}
    for m, spans in w.items():
        for a, b in spans:
            c = {s[2] for s in shapes if s[0] == a and s[1] == b}
            if ctx.check(len(c) == 1, "plot-window:" + m, lambda: f"{m} from minute {a} to {b} is shaded {len(c)} times"):
                colours.setdefault(m, set()).update(c)
    ctx.check(len(shapes) == sum(len(v) for v in w.values()), "plot-windows", lambda: f"{len(shapes)} shaded windows for {sum(len(v) for v in w.values())} in the record")
    ctx.check(all(len(c) == 1 for c in colours.values()) and len({c for v in colours.values() for c in v}) == len(colours), "plot-colours", "windows of one kind differ in colour or kinds share it")
    texts = {a.text for a in (fig.layout.annotations or ()) if a.text}
    for m, lab in (("shed", "Shed"), ("loadUp", "Load-Up")):
        ctx.check((lab in texts) == bool(w[m]), "plot-label:" + m, "window label %s %s", lab, "missing" if w[m] else "without a window")
    ctx.event("plot-points", n * len(want))
    return sum(len(v) for v in w.values())


def exports(ctx, r, rng, scratch, tag):
    before = public(r)
    order = rng.random() < 0.5
    if order:
        check_csv(ctx, r, scratch)
    temps = rng.random() < 0.6
    title = rng.choice(["Simulation Results", "x", "Título ©"])
    path = os.path.join(scratch, "fig.html") if rng.random() < 0.25 else None
    fig = r.to_plotly(title=title, filepath=path, include_temperatures=temps)
    ctx.check(fig.layout.title.text == title, "plot-title", "title %r", fig.layout.title.text)
    if path:
        ctx.check(os.path.getsize(path) > 1000, "plot-file", "the figure file is empty")
    k = check_fig(ctx, r, fig, temps)
    if not order:
        check_csv(ctx, r, scratch)
    ctx.check(public(r) == before, "export-alters", "exporting or plotting altered the record")
    ctx.seen(tag, r.timestep_min, len(r.oat_f), k, temps)


def run(ctx, case):
    if case["kind"] == "refuse":
        return refuse(ctx)
    rng = random.Random(case["seed"])
    scratch = tempfile.mkdtemp(prefix="vf24-")
    try:
        if case["kind"] == "record":
            exports(ctx, recorded(rng), rng, scratch, "record")
        elif case["kind"] == "sim":
            if not simcase.buildable(case["case"]):
                return
            sysm, bld, spec = simcase.build(case["case"])
            exports(ctx, simcase.simulate(case["case"], sysm, bld), rng, scratch, "sim:" + spec.schematic)
        elif case["kind"] == "facade":
            facade(ctx, rng, scratch, case.get("schematic"))
        elif case["kind"] == "compare":
            compare(ctx, rng, scratch, case["tariff"])
        else:
            curveplot(ctx, rng)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def facade(ctx, rng, scratch, schematic):
    kw = G.engine_kwargs(rng, schematic=schematic, presized=True, tame=True)
    if kw["schematic"] == "instant_wh":
        kw.setdefault("heating_capacity_kbtuh", 100.0)
    if kw["schematic"] == "multi_pass_rtp":
        kw["storage_temp_f"] = round(max(kw["storage_temp_f"], kw["supply_temp_f"] + 12.0), 1)
        kw.pop("off_trigger_t_f", None)
    e = api.engine(**kw)
    run = e.simulate_3day()
    temps = rng.random() < 0.5
    path = os.path.join(scratch, "p.html") if rng.random() < 0.4 else None
    fig = e.plot_simulation(title="T", filepath=path, include_temperatures=temps)
    check_fig(ctx, run, fig, temps)
    ctx.check(fig.layout.title.text == "T", "facade-title", "title %r", fig.layout.title.text)
    if path:
        ctx.check(os.path.exists(path), "facade-file", "no figure file written")
    div = e.plot_simulation(return_as_div=True)
    ctx.check(isinstance(div, str) and "<div" in div and "<html" not in div, "facade-div", "not an HTML fragment")
    ctx.seen("facade", kw["schematic"], len(run.oat_f))


def annual_run(rng):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    r = SimulationRun(525600, 60)
    tm = rng.random() < 0.4
    for i in range(8760):
        r.record_timestep(1.0, 5.0, 10.0, rng.choice([None, rng.uniform(0, 50)]), 50.0, 55.0, [100.0] * 6,
                          **({"tm_tank_temp_f": 120.0, "tm_heater_output_kbtuh": 1.0, "tm_heater_input_kw": rng.uniform(0, 5)} if tm else {}))
    return r


def compare(ctx, rng, scratch, tariff):
    from ecoengine import get_annual_utility_comparison_graph as graph
    uc, ref = tariffcase.build(tariff, scratch)
    hp, iwh = annual_run(rng), annual_run(rng)
    bd = [hp.get_monthly_cost_breakdown_detailed(uc), iwh.get_monthly_cost_breakdown_detailed(uc)]
    arr = graph(hp, iwh, uc, return_as_array=True)
    ctx.check(len(arr) == 2, "compare-array", "%s arrays", len(arr))
    for got, want, who in zip(arr, bd, ("heat pump", "resistance")):
        for k in ("energy_peak", "energy_off_peak", "demand_peak", "demand_off_peak"):
            ctx.closelist(got[k], want[k], "compare-array:" + k, f"{who} {k} in the comparison arrays", 1e-12)
        ctx.close(got["base"], want["base"], "compare-array:base", f"{who} base charge")
    fig = graph(hp, iwh, uc)
    cats = {"Base Charges": None, "Peak Energy": "energy_peak", "Off-Peak Energy": "energy_off_peak", "Peak Demand": "demand_peak", "Off-Peak Demand": "demand_off_peak"}
    months = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
    ctx.check(len(fig.data) == 10, "compare-bars", "%s bar series", len(fig.data))
    total = [0.0, 0.0]
    for lab, k in cats.items():
        for who, tag in ((0, "HP"), (1, "UER")):
            tr = [t for t in fig.data if t.name.startswith(lab) and t.name.endswith(tag)]
            if not ctx.check(len(tr) == 1, "compare-series", "%s bar series for %s %s", len(tr), lab, tag):
                continue
            want = [ref.base] * 12 if k is None else bd[who][k]
            ys, xs = [float(v) for v in tr[0].y], list(tr[0].x)
            got = [sum(y for x, y in zip(xs, ys) if x.strip() == m) for m in months]
            ctx.closelist(got, want, f"compare-values:{lab}:{tag}", f"{lab} bars of {tag}", 1e-9)
            used = {x for x, y in zip(xs, ys) if y}
            other = {x for t in fig.data if not t.name.endswith(tag) for x, y in zip(t.x, t.y) if y}
            ctx.check(not used & other, "compare-slot", "the two systems share a bar position")
            total[who] += sum(ys)
    for who, r in ((0, hp), (1, iwh)):
        ctx.close(total[who], r.get_annual_utility_cost(uc), "compare-total", "sum of all bars of a system", 1e-9)
    div = graph(hp, iwh, uc, return_as_div=True)
    ctx.check(isinstance(div, str) and "<div" in div and "<html" not in div, "compare-div", "not an HTML fragment")
    ctx.seen("compare", tariff["how"], round(total[0], 1))
    ctx.event("comparison-graphs")


def curveplot(ctx, rng):
    from ecoengine import get_sizing_curve_plot as plot
    n = rng.randrange(1, 60)
    x, y = [round(rng.uniform(0, 2000), 3) for _ in range(n)], [round(rng.uniform(0, 900), 3) for _ in range(n)]
    k = rng.randrange(n)
    x0, y0 = list(x), list(y)
    a = rng.choice([{}, {"load_shifting": True}, {"er_sized": True}, {"load_shifting": True, "er_sized": True}])
    fig = plot(x, y, k, **a)
    lines = [t for t in fig.data if t.mode == "lines"]
    marks = [t for t in fig.data if t.mode == "markers"]
    ctx.check(len(lines) == 1 and len(marks) == 1, "curve-traces", "%s line and %s marker traces", len(lines), len(marks))
    series_equal(ctx, lines[0].x, x0, "curve-x", "curve x values")
    series_equal(ctx, lines[0].y, y0, "curve-y", "curve y values")
    series_equal(ctx, marks[0].x, [x0[k]], "curve-mark-x", "marked point")
    series_equal(ctx, marks[0].y, [y0[k]], "curve-mark-y", "marked point")
    ax = fig.layout.xaxis.title.text, fig.layout.yaxis.title.text
    want = ("%", "kW") if a.get("er_sized") else (("%", "gal") if a.get("load_shifting") else ("gal", "kBTU"))
    ctx.check(want[0] in ax[0] and want[1] in ax[1], "curve-axes", "axes %s for %s", ax, a)
    ctx.check(x == x0 and y == y0, "curve-alters", "plotting altered the curve")
    div = plot(x, y, k, return_as_div=True, **a)
    ctx.check(isinstance(div, str) and "<div" in div and "<html" not in div, "curve-div", "not an HTML fragment")
    ctx.seen("curveplot", n, k, str(a))


def refuse(ctx):
    from ecoengine import get_annual_utility_comparison_graph as graph
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    a, b = SimulationRun(525600, 60), SimulationRun(4320, 1)
    for p, q in ((a, b), (b, a), (b, b)):
        ctx.raises(lambda: graph(p, q, None), ValueError, "compare-short", "comparing runs that are not annual")
    ctx.seen("refuse")

