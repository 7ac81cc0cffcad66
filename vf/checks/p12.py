import random
from vf.ref import tanks as RT
from vf.ref.data import RHO_CP

ID = "P12"
RULE = ("random histories of heating, supply-temperature draws, physical draws, recirculation and temperature changes on stratified "
        "tanks of many sizes and slopes; after every operation the whole observed profile, average draw temperatures and usable volume "
        "are judged; distinct = (operation, profile regime before, profile regime after, tank size class)")
N = {"quick": 20000, "thorough": 400000}


def plan(tier):
    return []


def gen(rng, i):
    v = 10 ** rng.uniform(1.3, 4.2)
    if rng.random() < 0.3:
        v = round(v, 2)
    slope = rng.choice([2.8, 1.7, 0.8, round(rng.uniform(0.5, 6.0), 3)])
    cold = round(rng.uniform(36, 75), 2)
    supply = round(rng.uniform(max(105, cold + 25), 135), 2)
    hot = round(supply + rng.uniform(2, 50), 2)
    ops = [["init", hot, cold, rng.choice([1.0, 0.0, round(rng.random(), 3), round(rng.random(), 3)])]]
    for _ in range(rng.randrange(8, 45)):
        k = rng.random()
        if k < 0.3:
            outlet = hot if rng.random() < 0.8 else round(rng.uniform(supply, hot + 10), 2)
            if rng.random() < 0.04:
                outlet = rng.choice([supply, round(rng.uniform(80, supply), 2)])
            kb = v * RHO_CP * (hot - cold) / 1000.0 * 10 ** rng.uniform(-3, 0.3)
            ops.append(["heat", rng.choice([0.0, round(kb, 4), round(kb, 4), round(kb, 4)]), rng.choice([1, 1, 10, 60]), outlet])
        elif k < 0.6:
            c = cold if rng.random() < 0.7 else round(rng.uniform(36, 75), 2)
            ops.append(["draw", rng.choice([0.0, round(v * 10 ** rng.uniform(-4, 0.2), 5), round(v * 10 ** rng.uniform(-3, -0.5), 5)]), c, supply,
                        hot if rng.random() < 0.85 else round(rng.uniform(supply + 1, hot + 10), 2)])
            if rng.random() < 0.04:
                ops[-1][4] = rng.choice([supply, round(rng.uniform(80, supply), 2)])
        elif k < 0.75:
            ops.append(["phys", rng.choice([0.0, round(v * 10 ** rng.uniform(-4, 0.2), 5)]), cold if rng.random() < 0.7 else round(rng.uniform(36, 75), 2),
                        rng.choice([None, supply])])
        elif k < 0.88:
            ops.append(["recirc", round(10 ** rng.uniform(-1, 1.5), 3), round(supply - rng.uniform(2, 15), 2), rng.choice([1, 1, 10]), rng.choice([None, supply])])
        elif k < 0.94:
            ops.append(["init", hot, cold, rng.choice([0.0, 1.0, round(rng.random(), 3), round(rng.random(), 3)])])
        else:
            ops.append(["query"])
    return {"v": v, "slope": slope, "supply": supply, "ops": ops}


FR = [0.0, 0.05, 0.1, 0.2, 0.25, 0.4, 0.5, 0.6, 0.75, 0.8, 0.9, 1.0]


def regime(r):
    a, b = r.t(0.0), r.t(1.0)
    return ("c" if a <= r.cold + 1e-9 else "h" if a >= r.hot - 1e-9 else "m") + ("c" if b <= r.cold + 1e-9 else "h" if b >= r.hot - 1e-9 else "m")


def step(t, r, op):
    k = op[0]
    if k == "init":
        t.initialize(op[1], op[2], op[3])
        r.init(op[1], op[2], op[3])
    elif k == "heat":
        t.heat(op[1], op[2], op[3])
        r.heat(op[1], op[2], op[3])
    elif k == "draw":
        t.draw(op[1], op[2], op[3], op[4])
        r.draw(op[1], op[2], op[3], op[4])
    elif k == "phys":
        if op[3] is None:
            t.draw_physical_gal(op[1], op[2])
        else:
            t.draw_physical_gal(op[1], op[2], op[3])
        r.draw_physical(op[1], op[2], op[3])
    elif k == "recirc":
        t.add_recirc_return(op[1], op[2], op[3], supply_temp_f=op[4]) if op[4] is not None else t.add_recirc_return(op[1], op[2], op[3])
        r.recirc(op[1], op[2], op[3], op[4])


def resync(t, r):
    """Take over the solver's last digits so that they do not add up over the history."""
    for f in [i / 64.0 for i in range(65)]:
        x = t.get_temperature_at_fraction(f)
        if r.cold + 1e-5 < x < r.hot - 1e-5:
            b = x - r.slope * 100.0 * f
            if abs(b - r.b) < 1e-4 * (1 + abs(r.b)):
                r.b = b
            return


def run(ctx, c):
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    v, sup = c["v"], c["supply"]
    t, r = StratifiedTank(v, c["slope"]), RT.Strat(v, c["slope"])
    tol = 2e-5 + 2e-6 * c["slope"] * 100.0 / v * 2
    for n, op in enumerate(c["ops"]):
        before, cold0, hot0 = regime(r), r.cold, r.hot
        e0 = v * RHO_CP * (t.get_average_draw_temp_f(v) - r.cold) if n else 0.0
        step(t, r, op)
        what = f"after {op[0]} (op {n})"
        got = [t.get_temperature_at_fraction(f) for f in FR]
        want = [r.t(f) for f in FR]
        if not ctx.closelist(got, want, "profile:" + op[0], "temperature profile " + what, 1e-9, tol):
            return
        ctx.check(all(a <= b + 1e-9 for a, b in zip(got, got[1:])), "inverted:" + op[0], "the tank is hotter below than above %s", what)
        ctx.check(min(got) >= r.cold - 1e-9 and max(got) <= max(r.hot, r.cold) + 1e-9, "bounds:" + op[0], lambda: f"profile {got} leaves [{r.cold}, {r.hot}] {what}")
        ctx.close(t.get_usable_volume_supplyT_gal(sup), r.usable(sup), "usable:" + op[0], "usable volume " + what, 1e-9, max(1e-6, tol * v / c["slope"] / 100.0 * 2))
        u = t.get_usable_volume_supplyT_gal(sup)
        ctx.check(-1e-9 <= u <= v * (1 + 1e-9), "usable-range:" + op[0], "usable volume %r of a %r gal tank", u, v)
        ctx.check(not 0.0 < u < 1e-9 * v, "usable-dust:" + op[0], "an exhausted %r gal tank claims %r usable gallons %s", v, u, what)
        if r.usable(sup) == 0.0 and op[0] == "draw":
            ctx.event("exhausted")
        for g in (0.0, v * 0.01, v * 0.2, v * 0.7, v, v * 2):
            if not ctx.close(t.get_average_draw_temp_f(g), r.avg(g), "avg-draw:" + op[0], f"average temperature of the top {g:.2f} gal {what}", 1e-9, tol):
                return
        e1 = v * RHO_CP * (t.get_average_draw_temp_f(v) - r.cold)
        after = regime(r)
        # energy bookkeeping where the whole ramp stays inside the tank
        if n and before == "ch" and after == "ch" and cold0 == r.cold and hot0 == r.hot:
            if op[0] == "heat" and op[3] == r.hot:
                ctx.close(e1 - e0, op[1] * op[2] / 60.0 * 1000.0, "energy:heat", "stored energy gained " + what, 1e-6, 1e-7 * v * RHO_CP * 100)
                ctx.event("energy-balance:heat")
            if op[0] == "draw" and op[4] == r.hot and r.hot > sup + 0.5:
                ctx.close(e0 - e1, op[1] * RHO_CP * (sup - r.cold), "energy:draw", "stored energy lost " + what, 1e-5, 1e-6 * v * RHO_CP)
                ctx.event("energy-balance:draw")
        ctx.event("op:" + op[0])
        ctx.seen(op[0], before, after, int(v ** 0.33), round(c["slope"], 1))
        resync(t, r)
    ctx.sample = {"ops": len(c["ops"]), "last_profile": got, "usable": u}
