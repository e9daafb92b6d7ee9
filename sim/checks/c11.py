"""C11: every heater follows its aquastat and the schedule at every step (hysteresis reference model run in lock-step)."""
from .. import core, observe, ops, world

N_QUICK, N_THOROUGH = 300, 9000
LEVEL = "exploration"
TECH = "lock-step hysteresis reference model over disturbed runs"
RULE = ("one execution = one simulation of one seeded system under a seeded disturbance schedule, each heater compared at every step with a "
        "reference hysteresis state machine (a fifth of the executions drive a heater directly with seeded hours and tank conditions); it counts when a heater changed state at least twice")
REAL = ["Simulator", "all DHWSystem classes with heaters", "WaterHeater", "Controls", "tanks", "EcosizerEngine schedule construction"]
STUB = ["a wrapper around the building's demand/weather queries and the equipment maps applies the disturbances"]
ASSUME = ["a decision within 1e-7 degF of its trigger is not judged", "a run starts with every heater off"]
LISTS = ("events",)
STATE_MEASURE = "distinct (schematic, mode, previous state, next state, transition kind) per heater"
def simplify(sc):
    if sc.get("kind") != "bench":
        yield from observe.simplify(sc)


EPS = 1e-7


def gen_bench(rng):
    """One heater on a test bench: the scenario decides the hour and the tank's condition at every update."""
    mode = lambda: [round(rng.uniform(.3, .9), 2), rng.choice([40.0, 90.0, 110.0, 120.0, 135.0]), round(rng.uniform(0, .3), 2), rng.choice([110.0, 125.0, 140.0, 150.0])]
    modes = {m: mode() for m in rng.choice([["normal"], ["normal", "shed"], ["normal", "loadUp", "shed"]])}
    trig = sorted({t for c in modes.values() for t in (c[1], c[3])})
    steps = []
    for _ in range(rng.randrange(30, 200)):
        hot = rng.choice(trig) if rng.random() < .4 else round(rng.uniform(36, 170), 2)
        steps.append([rng.randrange(24) if rng.random() < .3 else None, rng.choice(["strat", "energy", "mixed"]), hot,
                      round(min(hot, rng.uniform(33, 70)), 1), rng.choice([0.0, 0.3, 0.6, 0.9, 1.0, 1.0, round(rng.random(), 3)]),
                      rng.choice([None] * 12 + ["on", "off"])])
    return {"kind": "bench", "modes": modes, "schedule": [rng.choice(sorted(modes)) for _ in range(24)], "cap": round(rng.uniform(5, 300), 2),
            "events": steps, "n": rng.choice([1, 2])}


def run_bench(sc, ctx):
    from ecoengine.objects.components.heating.Controls import Controls
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.EnergyTank import EnergyTank
    outlet = lambda m: 140.0 + 5 * sorted(sc["modes"]).index(m)
    cmap = {m: Controls(on_sensor_fract=c[0], on_trigger_t_f=c[1], off_sensor_fract=c[2], off_trigger_t_f=c[3], outlet_temp_f=outlet(m)) for m, c in sc["modes"].items()}
    heaters = [WaterHeater.from_nominal_capacity(sc["cap"] * (k + 1), control_schedule=list(sc["schedule"]), control_map=cmap) for k in range(sc["n"])]
    want = [False] * sc["n"]
    h, changes = 0, 0
    for i, (jump, kind, hot, cold, pu, force) in enumerate(sc["events"]):
        h = jump if jump is not None else (h + (i % 3 == 0)) % 24
        t = StratifiedTank(200.0) if kind == "strat" else MixedStorageTank(200.0) if kind == "mixed" else EnergyTank(200.0, cold, hot)
        t.initialize(hot, cold, pu)
        w = i % sc["n"]
        if force:
            getattr(heaters[w], "turn_" + force)()
            want[w] = force == "on"
        m = sc["schedule"][h]
        on_f, on_t, off_f, off_t = sc["modes"][m]
        temp = t.get_temperature_at_fraction(off_f if want[w] else on_f)
        near = abs(temp - (off_t if want[w] else on_t))
        was = want[w]
        heaters[w].update_state(t, h)
        if near < EPS and near:
            want[w] = heaters[w].is_active()
        else:
            want[w] = not temp >= off_t if was else temp < on_t
        ctx.check([x.is_active() for x in heaters] == want, "heater_ignores_aquastat", bench=True, step=i, hour=h, heater=w, mode=m, was_on=was,
                  is_on=heaters[w].is_active(), sensor=temp, controls=sc["modes"][m])
        ctx.check(heaters[w].get_outlet_temp_f(h) == outlet(m), "setpoint_of_wrong_mode", step=i, hour=h, mode=m, got=heaters[w].get_outlet_temp_f(h))
        for k, x in enumerate(heaters):
            q = x.get_output_kbtuh(47.0, 140.0, 50.0)
            ctx.check(q == (sc["cap"] * (k + 1) if want[k] else 0.0), "heater_off_but_heating" if not want[k] else "output_is_not_that_of_the_running_heaters",
                      step=i, heater=k, on=want[k], kbtuh=q)
        changes += was != want[w]
        ctx.state("bench", m, was, want[w], kind)
        ctx.probe("bench_decisions")
        ctx.steps += 1
    ctx.log(sc["schedule"], want, changes)
    if changes >= 2:
        ctx.probe("nontrivial")
    ctx.sample = {"bench": True, "updates": len(sc["events"]), "state_changes": changes}


def gen(rng, i, tier):
    if rng.random() < .2:
        return gen_bench(rng)
    sc = observe.gen_scenario(rng, tier, margins=[0.7, 1.0, 1.3, 2.0, 3.0], er=False, instant=0)
    if rng.random() < 0.45 and "rtp" not in sc["cfg"]["schematic"] or sc["cfg"]["schematic"] == "single_pass_rtp" and rng.random() < .4:
        c = sc["cfg"]
        if not c.get("load_shift_schedule"):
            c["load_shift_schedule"] = world.ls_schedule(rng)
            if rng.random() < .8:
                c["shed_aquastat_fract"] = round(rng.uniform(max(c["aquastat_fract"], 0.6), 0.9), 2)
                if rng.random() < .3:
                    c["shed_off_sensor_fract"] = round(rng.uniform(0.05, c["shed_aquastat_fract"] - 0.1), 2)
            if rng.random() < 0.7:
                c["load_up_hours"] = rng.randrange(1, 5)
                c["load_up_aquastat_fract"] = round(rng.uniform(0.1, min(0.3, c["aquastat_fract"])), 2)
                if rng.random() < .6:
                    c["load_up_off_sensor_fract"] = round(c["load_up_aquastat_fract"] / 2, 2)
                if rng.random() < .4 and "storage_volume_storageT_gal" in c:
                    c["load_up_off_trigger_t_f"] = c["storage_temp_f"] - rng.choice([2.0, 5.0])
                if rng.random() < .15:
                    c.pop("load_up_aquastat_fract"); c.pop("load_up_off_sensor_fract", None)
    c = sc["cfg"]
    if rng.random() < .3 and "storage_volume_storageT_gal" in c and c["schematic"] != "multi_pass_rtp":
        c["on_trigger_t_f"] = c["supply_temp_f"] + rng.choice([-4.0, 2.0, 5.0])
        if rng.random() < .5:
            c["off_trigger_t_f"] = c["storage_temp_f"] - rng.choice([1.0, 3.0, 6.0])
        elif rng.random() < .4:
            c["on_trigger_t_f"] = c["storage_temp_f"]           # a full tank sits exactly on its trigger
    sc["kw"] = {"outlet_deficit_max_min": 10**7} if rng.random() < .8 else sc["kw"]
    return sc


def want_schedule(c):
    ls = c.get("load_shift_schedule")
    if not ls:
        return ["normal"] * 24
    first = next((h for h, v in enumerate(ls) if v == 0), None)
    lu = c.get("load_up_hours", 0)
    return ["shed" if v == 0 else ("loadUp" if first is not None and first - lu <= h < first else "normal") for h, v in enumerate(ls)]


def want_controls(c):
    """mode -> (on sensor, on trigger, off sensor, off trigger) as configured by the caller."""
    on_t = c.get("on_trigger_t_f", c["supply_temp_f"])
    off_t = c.get("off_trigger_t_f", c["storage_temp_f"])
    d = {"normal": (c["aquastat_fract"], on_t, c["off_sensor_fract"], off_t)}
    if c.get("load_shift_schedule"):
        d["shed"] = (c.get("shed_aquastat_fract", c["aquastat_fract"]), on_t, c.get("shed_off_sensor_fract", c["off_sensor_fract"]), off_t)
        if c.get("load_up_hours", 0):
            d["loadUp"] = (c.get("load_up_aquastat_fract", c["aquastat_fract"]), on_t, c.get("load_up_off_sensor_fract", c["off_sensor_fract"]),
                           c.get("load_up_off_trigger_t_f", off_t))
    return d


class Obs(observe.Observer):
    def __init__(self, *a):
        super().__init__(*a)
        self.prev = None
        self.changes = 0
        self.mp = self.rig.cfg["schematic"] == "multi_pass_rtp"
        self.last_inlet = None
        self.sch = want_schedule(self.rig.cfg)
        self.ctl = want_controls(self.rig.cfg)

    def decide(self, was, t_on, t_off, on_trig, off_trig):
        """None = too close to call."""
        if was:
            if abs(t_off - off_trig) < EPS and t_off != off_trig:
                return None
            return not (t_off >= off_trig)
        if abs(t_on - on_trig) < EPS and t_on != on_trig:
            return None
        return t_on < on_trig

    def before(self, i, dt):
        states = [wh.is_active() for wh in self.heaters] + ([self.tm.is_active()] if self.tm is not None else [])
        if self.prev is None:
            self.ctx.check(not any(states), "heater_on_at_start", states=states)
        else:
            self.ctx.check(states == self.prev, "heater_state_changed_between_steps", step=i, before=self.prev, now=states)
        self.was = states
        mode = self.sch[(i * dt // 60) % 24]
        self.mode = mode
        a, on_t, b, off_t = self.ctl[mode]
        self.expect = []
        inlet = self.b.get_inlet_water_temp_f(i, dt)
        judge = not self.mp or inlet == self.last_inlet      # multi-pass: the cold baseline moves with the inlet inside the step
        self.last_inlet = inlet
        self.sens = (self.tank.get_temperature_at_fraction(a), self.tank.get_temperature_at_fraction(b))
        for was in self.was[:len(self.heaters)]:
            self.expect.append(self.decide(was, self.sens[0], self.sens[1], on_t, off_t) if judge else None)
        self.tm0 = None if self.tm_tank is None else self.tm_tank.get_temperature_at_fraction(0.5)

    def after(self, i, dt, step):
        now = [wh.is_active() for wh in self.heaters] + ([self.tm.is_active()] if self.tm is not None else [])
        ctx = self.ctx
        for n, (w, e, g) in enumerate(zip(self.was, self.expect, now)):
            if e is not None:
                ctx.check(g == e, "heater_ignores_aquastat", step=i, minute=i * dt, heater=n, mode=self.mode, was_on=w, is_on=g,
                          sensors=self.sens, controls=self.ctl[self.mode])
                ctx.probe("decisions")
            if w != g:
                self.changes += 1
                ctx.probe(("on_" if g else "off_") + self.mode)
            ctx.state(self.rig.cfg["schematic"], self.mode, w, g, n)
        if self.tm is not None:
            kb = step.get("tm_heater_output_kbtuh") or 0.0
            t1 = self.tm_tank.get_temperature_at_fraction(0.5)
            sensor = t1 - kb * 1000.0 * dt / 60.0 / (self.tm_tank.total_volume_gal * observe.RHO_CP)
            w, g = self.was[-1], now[-1]
            _, c = self.sched(self.tm, i, dt)
            near = min(abs(sensor - c.on_trigger_t_f), abs(sensor - c.off_trigger_t_f)) < 1e-5
            if not near:
                e = self.decide(w, sensor, sensor, c.on_trigger_t_f, c.off_trigger_t_f)
                ctx.check(g == e, "tm_heater_ignores_aquastat", step=i, was_on=w, is_on=g, sensor=sensor,
                          on_below=c.on_trigger_t_f, off_at=c.off_trigger_t_f)
                ctx.probe("tm_decisions")
            if w != g:
                self.changes += 1
            if not g:
                ctx.check(not kb and not step.get("tm_heater_input_kw"), "tm_heater_off_but_heating", step=i, kbtuh=kb, kw=step.get("tm_heater_input_kw"))
        last = lambda k, n: (self.env.served.get((k, n)) or [None])[-1]
        on = [n for n in range(len(self.heaters)) if now[n]]
        if all(("cap", n) in self.env.served for n in on):
            q = sum(last("cap", n) or 0.0 for n in on)
            ctx.check(observe.close(step["heater_output_kbtuh"], q, 1e-7), "output_is_not_that_of_the_running_heaters", step=i, running=on,
                      output=step["heater_output_kbtuh"], expected=q)
        if not on:
            ctx.check(not step["heater_output_kbtuh"] and not step["heater_power_in_kw"], "heater_off_but_heating", step=i,
                      kbtuh=step["heater_output_kbtuh"], kw=step["heater_power_in_kw"])
        self.prev = now


def run(sc, ctx):
    if sc.get("kind") == "bench":
        return run_bench(sc, ctx)
    rig = ops.try_rig(sc["cfg"])
    r, ob = observe.run(rig, sc["dur"], sc["events"], ctx, Obs, sc["kw"], sc["annual_shape"])
    dt = r.timestep_min
    sch = ob.sch
    for wh in ob.heaters:
        ctx.check(list(wh.control_schedule) == sch, "schedule_differs_from_configuration", want=sch, got=list(wh.control_schedule))
    for i, m in enumerate(r.heater_mode):
        ctx.check(m == sch[(i * dt // 60) % 24], "recorded_mode_is_not_the_scheduled_one", step=i, recorded=m, scheduled=sch[(i * dt // 60) % 24])
    ctx.log(world.run_state(r))
    if ob.changes >= 2:
        ctx.probe("nontrivial")
    ctx.sample = {"steps": ob.count, "state_changes": ob.changes, "modes": sorted(set(r.heater_mode))}
