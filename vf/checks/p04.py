from vf import api, sizecase
from vf.ref import sizing as RS

ID = "P04"
RULE = ("random load-shift installation (no-recirculation, parallel loop, single-pass return-to-primary, swing) with 1-5 shed hours, "
        "optional second shed block, 0-4 load-up hours and random setpoints; distinct = (schematic, path, rounded capacity, rounded volume)")
ASSUMPTIONS = ["load-up and shed settings leave a usable band"]
KINDS = ["primary_no_recirc", "parallel_loop", "single_pass_rtp", "swing_tank"]
N = {"quick": 4000, "thorough": 90000}


def plan(tier):
    return []


def gen(rng, i):
    return sizecase.make(rng, KINDS[i % 4], True)


def run(ctx, case):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    r = sizecase.compare(ctx, case, ("cap", "vol"))
    if r is None:
        return
    sysm, bld, p, ref = r
    got = api.sized(sysm)
    ctx.sample = {k: got[k] for k in ("cap", "vol")}
    # never smaller than the same plant without load shifting at the shortened day
    q = sizecase.plant(case)
    q.run_hr = p.eff_run_hr()
    q.schedule, q.ctl = ["normal"] * 24, {"normal": p.ctl["normal"]}
    try:
        base = q.size()
    except (RS.Refused, RS.Undefined):
        return
    ctx.check(got["cap"] >= base["cap"] * (1 - 1e-6), "ls-cap-below-normal:" + p.schematic, "load-shift capacity %.4f is below the plain capacity %.4f", got["cap"], base["cap"])
    ctx.check(got["vol"] >= base["vol"] * (1 - 1e-6), "ls-vol-below-normal:" + p.schematic, "load-shift storage %.4f is below the plain storage %.4f", got["vol"], base["vol"])
    # the shifted volume alone fits the band between load-up and shed settings
    first, end, up = p.shed_block()
    if p.schematic != "swing_tank":
        need = p.demand.daily * sum(p.demand.avg[first:end]) * p.fract
        ctx.check(got["vol"] * p.ls_band() >= need * (1 - 1e-6), "shed-not-covered:" + p.schematic, "band holds %.3f gal, shed hours use %.3f", got["vol"] * p.ls_band(), need)
    ctx.event("load_up_hours=%d" % up)
    ctx.event("shed_hours=%d" % (end - first))
