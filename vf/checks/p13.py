from vf.ref import tanks as RT
from vf.ref.data import RHO_CP

ID = "P13"
RULE = ("random histories on fully mixed, energy-based and slug-overlay tanks; after every operation temperatures, average draw "
        "temperatures, usable volume and energy balances are judged; distinct = (tank kind, operation, fill level class, slug state)")
N = {"quick": 3000, "thorough": 90000}
FR = [0.0, 0.1, 0.2, 0.4, 0.5, 0.6, 0.8, 0.95, 1.0]


def plan(tier):
    return []


def gen(rng, i):
    kind = ["mixed", "energy", "slug", "slug"][i % 4]
    v = round(10 ** rng.uniform(1.3, 4.0), 2)
    cold = round(rng.uniform(36, 70), 2)
    supply = round(rng.uniform(max(105, cold + 25), 135), 2)
    hot = round(supply + rng.uniform(4, 45), 2)
    c = {"kind": kind, "v": v, "cold": cold, "hot": hot, "supply": supply, "slope": rng.choice([0.8, 2.8, round(rng.uniform(0.5, 5), 2)]),
         "uf": rng.choice([1.0, 1.0, round(rng.uniform(0.5, 0.98), 3)])}
    full = v * RHO_CP * (hot - cold) / 1000.0
    ops = [["init", hot, cold, rng.choice([1.0, round(rng.uniform(0.05, 1), 3)])]]
    for _ in range(rng.randrange(6, 30)):
        gal = rng.choice([0.0, round(v * 10 ** rng.uniform(-4, 0.1), 5), round(v * 10 ** rng.uniform(-3, -0.7), 5), round(v * 10 ** rng.uniform(-3, -0.7), 5)])
        kb = round(full * 10 ** rng.uniform(-3, 0.5), 4)
        if kind == "mixed":
            k = rng.choice(["heat", "draw", "mix", "loss", "recirc", "phys", "init"])
        elif kind == "energy":
            k = rng.choice(["heat", "draw", "phys", "add", "recirc", "phys", "init"])
        else:
            k = rng.choice(["activate", "activate", "heat_slug", "heat_slug", "phys", "phys", "phys", "grow", "deactivate", "deactivate", "init",
                            "add", "heat", "draw", "recirc"])
        if k == "init" and rng.random() < 0.6:
            k = "phys"
        c2 = cold if rng.random() < 0.8 else round(rng.uniform(36, 70), 2)
        if k in ("heat", "heat_slug"):
            ops.append([k, rng.choice([0.0, kb, kb, kb]), rng.choice([1, 1, 10]), hot])
        elif k == "draw":
            ops.append([k, gal, c2, supply, hot])
        elif k == "mix":
            ops.append([k, gal, round(rng.uniform(supply - 10, hot), 2)])
        elif k == "loss":
            ops.append([k, rng.choice([0.0, round(full * 10 ** rng.uniform(-4, -1), 4)]), rng.choice([1, 10])])
        elif k == "recirc":
            ops.append([k, round(v * 10 ** rng.uniform(-4, -1.5 if kind != "mixed" else 0.6), 4), round(supply - rng.uniform(1, 15), 2), rng.choice([1, 10]),
                        rng.choice([None, supply]) if kind != "mixed" else None])
        elif k == "phys":
            keep = kind != "mixed" and rng.random() < 0.7
            ops.append([k, gal, c2 if not keep else round(rng.uniform(cold, supply), 2), keep])
        elif k == "add":
            ops.append([k, round(full * 1000 * 10 ** rng.uniform(-3, 0), 3)])
        elif k == "grow":
            ops.append([k, gal if gal < 0.2 * v else 0.01 * v, round(rng.uniform(cold, supply), 2)])
        elif k == "init":
            ops.append([k, hot, cold, round(rng.uniform(0.05, 1), 3)])
        else:
            ops.append([k])
    c["ops"] = ops
    return c


def apply(t, r, op, c):
    k = op[0]
    if k == "init":
        t.initialize(op[1], op[2], op[3])
        r.init(op[1], op[2], op[3])
    elif k == "heat":
        t.heat(op[1], op[2], op[3])
        r.heat(op[1], op[2], op[3])
    elif k == "draw":
        t.draw(*op[1:])
        r.draw(*op[1:])
    elif k == "mix":
        t.mix_primary_inflow(op[1], op[2])
        r.replace(op[1], op[2])
    elif k == "loss":
        t.apply_fixed_heat_loss_kbtuh(op[1], op[2])
        r.loss(op[1], op[2])
    elif k == "recirc":
        if op[4] is None:
            t.add_recirc_return(op[1], op[2], op[3])
        else:
            t.add_recirc_return(op[1], op[2], op[3], supply_temp_f=op[4])
        r.recirc(op[1], op[2], op[3], op[4])
    elif k == "phys":
        if c["kind"] == "mixed":
            t.draw_physical_gal(op[1], op[2])
            r.replace(op[1], op[2])
        elif op[3]:
            t.draw_physical_gal(op[1], op[2], update_internal_cold_temp=False)
            r.draw_physical(op[1], op[2], keep_cold=True)
        else:
            t.draw_physical_gal(op[1], op[2])
            r.draw_physical(op[1], op[2])
    elif k == "add":
        t.add_energy_btu(op[1])
        r.add(op[1])
    elif k == "activate":
        t.activate_slug(c["supply"])
        r.activate(c["supply"])
    elif k == "grow":
        t.add_to_slug(op[1], op[2])
        r.grow(op[1], op[2])
    elif k == "heat_slug":
        t.heat_slug(op[1], op[2])
        r.heat_slug(op[1], op[2])
    elif k == "deactivate":
        t.deactivate_slug()
        r.deactivate()


def outside(r, op, c):
    """Histories the multi-pass model does not describe: a vanishing slug, water far beyond the storage temperature,
    drawing from below the usable zone, a cold-water change under a live slug."""
    k = op[0]
    if k == "activate" and not r.active:
        x = (c["supply"] - r.cold) / r.slope - r.shift()
        return x - r.cold_pct < 1.0
    if k == "heat_slug" and r.active:
        return r.sv <= 0 or r.st + op[1] * 1000.0 * op[2] / 60.0 / (r.sv * RHO_CP) > r.hot + 5.0
    if k == "phys":
        return op[1] > 0.95 * r.umax
    return False


def within(ctx, got, fn, E, d, key, what, pad):
    """fn is monotone in the stored energy: the observation must lie between its values at E-d and E+d."""
    lo, hi = fn(max(0.0, E - d)), fn(E + d)
    if lo > hi:
        lo, hi = hi, lo
    ctx.check(lo - pad <= got <= hi + pad, key, lambda: f"{what}: observed {got!r}, expected {fn(E)!r}")


def run(ctx, c):
    kind, v, sup = c["kind"], c["v"], c["supply"]
    if kind == "mixed":
        from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
        t, r = MixedStorageTank(v), RT.Mixed(v)
    elif kind == "energy":
        from ecoengine.objects.components.storage.EnergyTank import EnergyTank
        t, r = EnergyTank(v, c["cold"], c["hot"], c["slope"]), RT.Energy(v, c["cold"], c["hot"], c["slope"])
    else:
        from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
        t = SlugOverlayTank(v, c["cold"], c["hot"], sup, c["uf"], c["slope"])
        r = RT.Slug(v, c["cold"], c["hot"], sup, c["uf"], c["slope"])
    err = 0.0      # admitted energy error of the real solver, Btu
    unsure = False
    for n, op in enumerate(c["ops"]):
        act0 = getattr(r, "active", False)
        if kind == "slug" and op[0] == "phys" and r.active and max(0.0, r.umax - r.sv) < op[1] and (op[1] >= r.umax or r.full):
            continue      # more than the whole slug in one step: outside the model
        if kind == "slug" and op[0] == "grow" and r.active and r.sv + op[1] > r.umax:
            continue
        if kind == "slug" and r.active and op[0] in ("add", "heat", "draw", "recirc"):
            continue      # whole-tank operations on a tank that is being heated through its slug
        if kind == "slug" and outside(r, op, c):
            ctx.event("skipped:outside-the-model")
            continue
        apply(t, r, op, c)
        what = f"{kind} after {op[0]} (op {n})"
        k = f"{kind}:{op[0]}"
        if kind == "mixed":
            for f in (0.0, 0.5, 1.0):
                if not ctx.close(t.get_temperature_at_fraction(f), r.temp, "temp:" + k, "temperature " + what, 1e-9, 1e-8):
                    return
            ctx.close(t.get_average_draw_temp_f(v * 0.3), r.temp, "avg:" + k, "draw temperature " + what, 1e-9, 1e-8)
            if abs(r.temp - sup) > 1e-7:
                ctx.close(t.get_usable_volume_supplyT_gal(sup), r.usable(sup), "usable:" + k, "usable volume " + what, 1e-12, 0)
            ctx.seen(kind, op[0], r.temp > sup, int(v ** 0.3), int(r.temp / 10))
            ctx.event("op:" + k)
            continue
        if op[0] in ("phys", "activate", "deactivate"):
            err += 4e-6 * r.emax() + 1e-5
        if op[0] == "init":
            err = 0.0
        d = err + 3e-6 * max(r.emax(), 1.0)
        pad = 2e-4 if act0 or getattr(r, "active", False) else 2e-5
        if kind == "slug" and r.active:
            # slug temperature and volume inherit the profile's precision
            amp = d / (RHO_CP * max(r.sv, 1e-9))
            near = abs(r.st - sup) < amp + 1e-3
            if r.sv > 1e-6 * v:
                ctx.close(t.slug_temp_f, r.st, "slug-temp:" + k, "slug temperature " + what, 1e-7, min(5.0, amp + 1e-2))
            ctx.check(t.is_slug_active(), "slug-flag:" + k, "slug not active %s", what)
            if not near:
                vp = 4 * d / (RHO_CP * 10) + 2e-4 * v
                ctx.close(t.get_usable_volume_supplyT_gal(sup), r.usable(sup), "usable:" + k, "usable volume " + what, 1e-6, vp)
            edge = 100.0 * 1e-3
            for f in FR:
                x = 100.0 * f
                if abs(x - r.top) < edge or x < r.cold_pct + edge:
                    continue
                if x < r.top:
                    ctx.close(t.get_temperature_at_fraction(f), r.t(f), "temp-in-slug:" + k, f"temperature at {f} " + what, 1e-7, min(5.0, amp + 1e-2))
                else:
                    within(ctx, t.get_temperature_at_fraction(f), lambda E: r.t(f, E), r.E, d, "temp-above:" + k, f"temperature at {f} " + what, 0.02 * c["slope"] + 0.01)
            if r.st <= r.hot:
                for g in (v * 0.02, v * 0.15, v * 0.35, v * 0.7, v):
                    within(ctx, t.get_average_draw_temp_f(g), lambda E: r.avg(g, E), r.E, d, "avg-slug:" + k, f"average of the top {g:.2f} gal " + what,
                           0.02 * c["slope"] + 0.03 + min(5.0, amp))
                ctx.event("slug-averages")
        else:
            if kind == "slug":
                ctx.check(not t.is_slug_active(), "slug-flag:" + k, "slug still active %s", what)
            got = [t.get_temperature_at_fraction(f) for f in FR]
            for f, g in zip(FR, got):
                if abs(100 * f - r.cold_pct) < 1e-6 and r.cold_pct:
                    continue
                within(ctx, g, lambda E: r.t(f, E), r.E, d, "temp:" + k, f"temperature at {f} " + what, pad)
            ctx.check(all(a <= b + 1e-9 for a, b in zip(got, got[1:])), "inverted:" + k, "hotter below than above %s", what)
            ctx.check(min(got) >= r.cold - 1e-9 and max(got) <= max(r.hot, r.cold) + 1e-9, "bounds:" + k, lambda: f"{got} leaves [{r.cold},{r.hot}] {what}")
            within(ctx, t.get_usable_volume_supplyT_gal(sup), lambda E: r.usable(sup, E), r.E, d, "usable:" + k, "usable volume " + what, 1e-5 * v)
            for g in (v * 0.02, v * 0.3, v):
                within(ctx, t.get_average_draw_temp_f(g), lambda E: r.avg(g, E), r.E, d, "avg:" + k, f"average of the top {g:.2f} gal " + what, pad)
        ctx.seen(kind, op[0], int(10 * r.E / max(r.emax(), 1e-9)), act0, getattr(r, "active", False), int(v ** 0.25))
        ctx.event("op:" + k)
        if op[0] == "deactivate" and act0:
            ctx.event("slug-cycle")
