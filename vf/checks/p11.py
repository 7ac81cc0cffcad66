"""Heater control: online hysteresis automaton on live heaters, and output/power of every simulated step."""
from vf import simcase
from vf.checks import p14
from vf.ref import sizing as RS

ID = "P11"
RULE = ("heater state after every update compared with the hysteresis automaton, and every recorded output/power with the running set; "
        "distinct = (source, schematic or mode count, transition, heater count)")
N = {"quick": 900, "thorough": 14000}
CHUNK = 12


def plan(tier):
    return []


def gen(rng, i):
    if i % 5 == 4:
        sch = ["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp", "swing_tank", "parallel_loop"][(i // 5) % 7]
        c = simcase.make(rng, sch, hard=rng.random() < 0.3, duration="annual" if i % 100 == 99 else "3day", hand=rng.random() < 0.6)
        c["kind"] = "sim"
        return c
    modes = rng.sample(["normal", "shed", "loadUp", "eco", "boost"], rng.randrange(1, 4))
    ctl = {}
    for m in modes:
        on_t = round(rng.uniform(90, 140), 2)
        ctl[m] = [round(rng.random(), 2), on_t, round(rng.random(), 2), round(on_t + rng.uniform(-5, 30), 2), round(rng.uniform(130, 170), 1)]
    sched = [rng.choice(modes) for _ in range(24)]
    seq = []
    for _ in range(rng.randrange(10, 60)):
        k = rng.choice(["update", "update", "update", "update", "on", "off", "query"])
        seq.append([k, rng.randrange(24), [round(rng.uniform(70, 170), 2) for _ in range(11)], rng.random() < 0.25])
    model = rng.random() < 0.3
    return {"kind": "unit", "ctl": ctl, "sched": sched, "seq": seq, "model": rng.choice(simcase.models(rng.random() < 0.3)) if model else None,
            "cap": round(rng.uniform(5, 500), 3), "missing": rng.random() < 0.1, "cond": [round(rng.uniform(35, 90), 1), round(rng.uniform(120, 160), 1), round(rng.uniform(40, 70), 1)]}


class Probe:
    """A tank that shows the heater a prescribed profile (only the public sensor interface is there)."""

    def __init__(self, temps):
        self.temps = temps
        self.reads = 0

    def get_temperature_at_fraction(self, fract, *a, **k):
        self.reads += 1
        return self.temps(fract)


def run(ctx, c):
    if c["kind"] == "sim":
        p14.run(ctx, c, cats=("heater", "tm"))
        return
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from vf import api
    ctl = {k: RS.Ctl(*v) for k, v in c["ctl"].items()}
    cm = {k: api.Controls(x) for k, x in ctl.items()}
    sched = list(c["sched"])
    if c["missing"]:
        sched[5] = "nosuchmode"
    if c["model"]:
        h = WaterHeater.from_model_name(c["model"], sched, cm)
        w2 = WaterHeater.from_model_name(c["model"], None, None)
        cap, kw = w2.get_capacity_kbtuh(*c["cond"]), w2.get_power_in_kw(*c["cond"])
    else:
        h = WaterHeater.from_nominal_capacity(c["cap"], sched, cm)
        cap, kw = c["cap"], None
    ctx.check(not h.is_active(), "born-on", "a new heater is on")
    ctx.check(h.is_load_shifting() == bool({"shed", "loadUp"} & set(ctl)), "load-shifting", "is_load_shifting() = %r for modes %r", h.is_load_shifting(), sorted(ctl))
    on = False
    for k, hour, temps, edge in c["seq"]:
        if k == "on":
            h.turn_on()
            on = True
        elif k == "off":
            h.turn_off()
            on = False
        elif k == "update":
            m = ctl.get(sched[hour])

            def read(f):
                x = f * 10
                i = min(9, int(x))
                return temps[i] + (temps[i + 1] - temps[i]) * (x - i)
            if m is None:
                ctx.raises(lambda: h.update_state(Probe(read), hour), ValueError, "no-controls", "an hour whose mode has no controls")
                ctx.check(h.is_active() == on, "no-controls-state", "a failed update changed the heater state")
                continue
            if edge:      # exactly on the trigger
                probe = Probe(lambda f: m.on_t if f == m.on_f and not on else m.off_t if f == m.off_f and on else read(f))
            else:
                probe = Probe(read)
            t = probe.get_temperature_at_fraction(m.off_f if on else m.on_f)
            want = (t < m.off_t) if on else (t < m.on_t)
            h.update_state(probe, hour)
            got = h.is_active()
            ctx.check(got == want, "hysteresis:" + ("on" if on else "off"),
                      lambda: f"heater {'on' if on else 'off'}, mode {sched[hour]}, sensor {t!r} vs trigger {m.off_t if on else m.on_t!r}: now {'on' if got else 'off'}")
            ctx.seen("unit", len(ctl), on, want, edge, int(t / 10))
            ctx.event("transition:" + ("on" if on else "off") + ">" + ("on" if want else "off"))
            on = got
            ctx.close(h.get_outlet_temp_f(hour), m.out_t, "outlet", "outlet temperature of the mode")
        ctx.check(h.is_active() == on, "state", "heater state changed without an update")
        ctx.close(h.get_output_kbtuh(*c["cond"]), cap if on else 0.0, "unit-output", "output of a heater that is " + ("on" if on else "off"), 1e-12)
        ctx.close(h.get_capacity_kbtuh(*c["cond"]), cap, "unit-capacity", "capacity")
        ctx.close(h.get_power_in_kw(*c["cond"]), kw, "unit-power", "input power")
