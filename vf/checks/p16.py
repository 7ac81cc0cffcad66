import random

from vf.ref import sim as RSIM

ID = "P16"
RULE = ("the loop mixing valve is asked for random and boundary combinations of load, loop flow and temperatures; every answer must balance; "
        "distinct = (regime, sign pattern of the inputs, rounded draw share, rounded inlet position)")
N = {"quick": 60000, "thorough": 1500000}
CHUNK = 20


def plan(tier):
    return []


def gen(rng, i):
    return {"seed": rng.randrange(10 ** 9)}


def run(ctx, case):
    from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior as valve
    rng = random.Random(case["seed"])
    for _ in range(25):
        cold = rng.uniform(33, 85)
        ret = rng.choice([rng.uniform(cold, 140), rng.uniform(90, 130), cold + 1e-3])
        sup = ret + rng.choice([rng.uniform(0.5, 25), rng.uniform(0.01, 1)])
        flow = rng.choice([0.0, rng.uniform(1e-3, 5), 10 ** rng.uniform(0, 3.3)])
        load = rng.choice([0.0, rng.uniform(1e-3, 5), 10 ** rng.uniform(0, 3.3)])
        kind = rng.choice(["hot", "hot", "near", "crit", "crit", "full", "at"])
        if kind in ("hot", "crit"):
            store = sup + rng.uniform(1, 60)
        elif kind == "near":
            store = sup + 10 ** rng.uniform(-4, 0)
        elif kind == "at":
            store = sup
        else:
            store = sup - rng.uniform(0, sup - ret) * rng.choice([0.0, 0.5, 0.99])
        if kind == "crit":
            load = flow * (sup - ret) / (store - sup) * rng.choice([1 - 1e-6, 1.0, 1 + 1e-6, 0.5, 1.5])
        out = valve(load, flow, cold, sup, ret, store)
        g, inl = out["storage_draw_gal"], out["inlet_temp_f"]
        what = f"load {load} flow {flow} cold {cold} supply {sup} return {ret} storage {store}"
        rg, ri = RSIM.mixing_valve(load, flow, cold, sup, ret, store)
        tol = 1e-9
        ctx.close(g, rg, "draw", f"draw for {what}", tol)
        if rg > 1e-9:
            ctx.close(inl, ri, "inlet", f"refill temperature for {what}", 1e-6 if kind == "crit" else 1e-8)
        ctx.check(-1e-12 <= g <= (load + flow) * (1 + 1e-9) + 1e-12, "draw-range", "draw %s outside 0..load+flow for %s", g, what)
        if g > 1e-9:
            ctx.check(cold - 1e-6 <= inl <= ret + 1e-6, "inlet-range", "refill at %s outside cold..return for %s", inl, what)
        if store > sup:
            need = load * (sup - cold) + flow * (sup - ret)
            ctx.close(g * (store - inl), need, "energy-balance", f"heat leaving storage for {what}", 1e-8, 1e-8)
            # what reaches the loop: g at storage, the rest from return (and cold only once all of the return is used)
            rest = load + flow - g
            hot = g * store + min(rest, flow) * ret + max(0.0, rest - flow) * cold
            ctx.close(hot, (load + flow) * sup, "delivered-temperature", f"delivered stream for {what}", 1e-8, 1e-8)
        else:
            ctx.close(g, load + flow, "fully-open", f"draw with storage below supply for {what}", 1e-12)
        same = valve(load, flow, cold, sup, ret, store)
        ctx.check(same == out, "repeat", "asking twice gives %s then %s for %s", out, same, what)
        k = 10 ** rng.uniform(-1, 1)
        big = valve(load * k, flow * k, cold, sup, ret, store)
        if kind != "crit":
            ctx.close(big["storage_draw_gal"], g * k, "scaling", f"draw for {k} times {what}", 1e-8, 1e-12)
        regime = "open" if store <= sup else ("cold" if load * (store - sup) > flow * (sup - ret) else "blend")
        ctx.event("regime:" + regime)
        ctx.seen(regime, load > 0, flow > 0, round(g / (load + flow), 2) if load + flow else 0, round((inl - cold) / (ret - cold), 1) if ret > cold else 0)
    ctx.sample = {"case": what, "draw": g, "inlet": inl}
