"""Every recorded step of every schematic against a stepwise reference simulation."""
from vf import simcase
from vf.ref import sim as S

ID = "P14"
RULE = ("simulated installations whose every recorded step (tank nodes, usable volume, outputs, powers, loop tank) is predicted by the "
        "reference; distinct = (schematic, run class, switching counts, outage class)")
N = {"quick": 300, "thorough": 5000}
CHUNK = 2


def plan(tier):
    return []


def gen(rng, i):
    dur = "annual" if i % 25 == 24 else "3day"
    sch = ["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp", "swing_tank", "single_pass_rtp", "parallel_loop"][i % 8]
    if i % 37 == 36:
        sch = "instant_wh"
    return simcase.make(rng, sch, hard=rng.random() < 0.35, duration=dur)


def run(ctx, case, cats=("inputs", "heater", "tank", "tm")):
    if not simcase.buildable(case):
        ctx.event("skipped-undefined-size")
        return None
    sysm, bld, spec = simcase.build(case)
    r = simcase.simulate(case, sysm, bld)
    n = {"steps": 0}

    def judge(cat, ok, key, text):
        if cat in cats:
            if ok:
                n["steps"] += 1
            else:
                ctx.check(False, cat + ":" + key, text)

    w = S.Walk(spec, r, judge, ctx)
    deliver = w.walk()
    ctx.evals += n["steps"]
    ctx.event("steps", len(deliver))
    ctx.event("run:" + spec.schematic)
    if w.lost:
        ctx.event("walk-lost")
    if r.outage_minutes:
        ctx.event("runs-with-outage")
    if r.stopped_early:
        ctx.event("runs-stopped-early")
    ctx.seen(spec.schematic, case["duration"], bool(case.get("hand")), ctx.events.get("switch-on", 0), min(r.outage_minutes, 50), len(deliver))
    ctx.sample = {"schematic": spec.schematic, "steps": len(deliver), "switches": ctx.events.get("switch-on", 0), "outage_min": r.outage_minutes,
                  "last_nodes": S.node_list(r, -1)}
    return r, spec, w, deliver, sysm, bld
