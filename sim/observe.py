"""A simulation of a real system inside a disturbed environment, observed before and after every time step."""
from . import core, ops, world

NODES = (0.0, 0.2, 0.4, 0.6, 0.8, 1.0)
RHO_CP = 8.353535


class Observer:
    """Subclass hooks: before(i, dt), after(i, dt, step)."""
    def __init__(self, rig, env, ctx):
        self.rig, self.env, self.ctx = rig, env, ctx
        self.sys, self.b = rig.system, rig.building
        self.heaters = list(rig.system.water_heaters or [])
        self.tank = rig.system.storage_tank
        self.tm = getattr(rig.system, "tm_water_heater", None)
        self.tm_tank = getattr(rig.system, "tm_storage_tank", None)
        self.count = 0

    def before(self, i, dt):
        pass

    def after(self, i, dt, step):
        pass

    # helpers
    def nodes(self):
        return [self.tank.get_temperature_at_fraction(f) for f in NODES]

    def sched(self, wh, i, dt):
        """(mode, Controls) scheduled for the hour that contains step i."""
        if wh.control_schedule is None or wh.control_map is None:
            return None, None
        m = wh.control_schedule[(i * dt // 60) % 24]
        return m, wh.control_map.get(m)


def run(rig, duration, events, ctx, cls, kw=None, annual_shape=False):
    """Simulate with disturbances; returns (SimulationRun, observer)."""
    from ecoengine.interfaces import Simulator
    if annual_shape:
        rig.building.set_to_annual_load_shape()
    env = world.Env(rig.pair, events, ctx=ctx)
    with env:
        ob = cls(rig, env, ctx)
        sysm = rig.system
        orig = sysm.simulate_step
        nxt = [0]

        def simulate_step(*a, **k):
            i = nxt[0]
            dt = k.get("interval_min", a[2] if len(a) > 2 else 1)
            got_i = k.get("timestep_interval", a[1] if len(a) > 1 else None)
            ctx.check(got_i == i, "steps_out_of_order", expected=i, got=got_i)
            env.served.clear()
            env.armed = False
            ob.before(i, dt)
            env.armed = True
            step = orig(*a, **k)
            env.armed = False
            ob.count += 1
            ob.after(i, dt, step)
            env.armed = True
            nxt[0] += 1
            return step
        env._set(sysm, "simulate_step", simulate_step)
        if rig.engine is not None:
            r = rig.engine.simulate_3day(**(kw or {})) if duration == "3day" else rig.engine.simulate_annual(**(kw or {}))
        else:
            r = Simulator.simulate(sysm, rig.building, duration=duration, **(kw or {}))
    if ob.count == 0:
        raise core.HarnessError("simulate_step was not observed")
    ctx.sim_min += ob.count * r.timestep_min
    ctx.steps += ob.count
    return r, ob


def gen_scenario(rng, tier, heavy=False, margins=None, mp_share=2, annual_share=0.12, er=True, instant=1, rich=.2):
    s = rng.choices(world.CHEAP + ["swing_er", "instant_wh", "multi_pass_rtp"], [5, 5, 6, 5, 1 if er else 0, instant, mp_share])[0]
    kw = {}
    if margins is not None and s != "swing_er" and rng.random() < 0.8:
        kw = {"presized": True, "margin": rng.choice(margins)}
    cfg = ops.gen_cfg(rng, schematic=s, rich=rich, **kw)
    dur = "annual" if rng.random() < (annual_share if tier == "quick" else 2 * annual_share) and s != "multi_pass_rtp" else "3day"
    sc = {"cfg": cfg, "dur": dur, "kw": {}, "annual_shape": False}
    if dur == "annual" and rng.random() < .5 and ops.applicable(cfg, "toggle"):
        sc["annual_shape"] = True
    if rng.random() < 0.6:
        sc["kw"] = {"outlet_deficit_threshold_f": rng.choice([-30.0, 0.0, 2.5, 5.0, 20.0]),
                    "outlet_deficit_max_min": rng.choice([0, 1, 10, 15, 60, 240, 10**7])}
    dm = 4320 if dur == "3day" else 525600
    sc["events"] = world.gen_events(rng, dm, n=rng.choice([0, 1, 2, 4, 6] if dur == "3day" else [0, 3, 8, 20]), heavy=heavy)
    return sc


def simplify(sc):
    if sc["kw"]:
        yield dict(sc, kw={})
    if sc.get("annual_shape"):
        yield dict(sc, annual_shape=False)
    if sc["dur"] == "annual":
        yield dict(sc, dur="3day", annual_shape=False, events=[e for e in sc["events"] if e["a"] < 4320])
    for n, e in enumerate(sc["events"]):
        if e["b"] - e["a"] > 2:
            ev = list(sc["events"]); ev[n] = dict(e, b=e["a"] + (e["b"] - e["a"]) // 2)
            yield dict(sc, events=ev)
    for k in ("custom_peak_load_shape", "custom_avg_load_shape", "load_up_hours"):
        if k in sc["cfg"]:
            drop = {k} | ({"load_up_aquastat_fract", "load_up_off_sensor_fract"} if k == "load_up_hours" else set())
            yield dict(sc, cfg={a: b for a, b in sc["cfg"].items() if a not in drop})


def close(a, b, rel=1e-9, ab=1e-9):
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))
