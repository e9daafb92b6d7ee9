"""C14: after a disturbance ends the system recovers within bounded time (liveness once faults stop).

A system with a clear capacity margin runs for several simulated days with seeded disturbances in the first part (heater out of
service or derated, demand spikes, cold inlet, cold snap).  After the last disturbance the storage must be recharged (off-sensor
at its trigger, heaters off) within a bound computed from capacity, load and storage only; heating must never stay off while the
on-sensor is cold, nor on once the storage is recharged.
"""
from .. import core, observe, ops, world
from .c11 import want_controls, want_schedule

N_QUICK, N_THOROUGH = 1500, 40000
LEVEL = "exploration"
TECH = "transient disturbances then bounded-time recovery (liveness)"
RULE = ("one execution = one system with capacity >= 1.5 times its average load, disturbed, then observed until the bound has passed; it "
        "counts when the disturbance actually depleted or changed the storage and the recovery was judged")
REAL = ["DHWSystem subclasses and their heaters, tanks, controls", "Simulator", "Building", "ClimateZone"]
STUB = ["building demand/weather and equipment maps pass through a wrapper that disturbs them for a while; the run is ended by the harness "
        "once the bound has passed"]
ASSUME = ["capacity available outside shed hours exceeds average demand plus recirculation loss by at least 1.5 times at the coldest inlet",
          "the off-sensor is placed above the water exchanged in one time step", "equipment has a constant nominal capacity in the disturbance-free part"]
LISTS = ("events",)
STATE_MEASURE = "distinct (schematic, kinds of disturbance, storage level at its end, load-shift, days to recover)"
RHO = observe.RHO_CP


class Done(BaseException):
    pass


def gen(rng, i, tier):
    s = rng.choices(world.CHEAP + ["multi_pass_rtp"], [5, 5, 5, 5, 2])[0]
    cfg = world.gen_config(rng, schematic=s, presized=True, models_ok=False, ls=rng.random() < .4)
    if rng.random() < .5:
        cfg["building_type"] = "multi_family"
        cfg.setdefault("gpdpp", 20.0)
        cfg["magnitude"] = max(10, int(rng.uniform(300, 5000) / cfg["gpdpp"]))
        cfg.pop("custom_peak_load_shape", None); cfg.pop("custom_avg_load_shape", None)
    dur = rng.choice(["annual", "annual", "3day"])
    end = rng.choice([360, 720, 1440, 2880]) if dur == "annual" else rng.choice([240, 600])
    ev = world.gen_events(rng, end, n=rng.choice([1, 1, 2, 3, 5]), heavy=True)
    for e in ev:
        e["b"] = min(e["b"], end)
        if e["k"] == "trip" and rng.random() < .6:
            e["h"] = -1
    return {"cfg": cfg, "margin": rng.choice([1.5, 1.8, 2.5, 4.0] if s != "multi_pass_rtp" else [1.8, 2.5, 4.0]),
            "vol_h": rng.choice([2.0, 4.0, 8.0, 14.0] if s != "multi_pass_rtp" else [8.0, 14.0]), "events": ev, "dur": dur, "end": end}


def simplify(sc):
    for k in ("load_shift_schedule",):
        if k in sc["cfg"]:
            drop = {"load_shift_schedule", "shed_aquastat_fract", "load_up_hours", "load_up_aquastat_fract", "load_up_off_sensor_fract", "load_shift_percent"}
            yield dict(sc, cfg={a: b for a, b in sc["cfg"].items() if a not in drop})
    for n, e in enumerate(sc["events"]):
        if e["b"] - e["a"] > 20:
            ev = list(sc["events"]); ev[n] = dict(e, b=e["a"] + (e["b"] - e["a"]) // 2)
            yield dict(sc, events=ev)


class Obs(observe.Observer):
    def setup(self, sc, avail, cap, load_day, store):
        self.sc = sc
        self.sch, self.ctl = want_schedule(self.rig.cfg), want_controls(self.rig.cfg)
        self.end = max([e["b"] for e in sc["events"]], default=0)
        days = store / max(1e-9, cap * avail - load_day)
        self.bound = int((2.0 + 1.5 * days) * 1440)
        self.recharged = self.usable = self.off = None
        self.coldoff = self.hoton = 0
        self.low = 1e9
        self.tmok = None
        self.worst = 0

    def sensors(self, i, dt):
        m = self.sch[(i * dt // 60) % 24]
        a, on_t, b, off_t = self.ctl[m]
        T = self.tank.get_temperature_at_fraction
        return m, T(a) < on_t - 0.01, T(b) >= off_t + (0 if self.rig.cfg["schematic"] != "multi_pass_rtp" else 0)

    def after(self, i, dt, step):
        t = i * dt
        ctx = self.ctx
        u = step["usable_volume_supplyT_gal"]
        on = step["heater_output_kbtuh"] > 0
        mode, cold, full = self.sensors(i, dt)
        self.low = min(self.low, u)
        # a heater's state follows the sensors with a delay of at most one step and one mode change
        self.coldoff = self.coldoff + dt if (cold and not on and t >= self.end) else 0
        self.hoton = self.hoton + dt if (full and on and t >= self.end) else 0
        self.worst = max(self.worst, self.coldoff, self.hoton)
        ctx.check(self.coldoff <= 60 + 2 * dt, "heating_locked_off", step=i, minute=t, mode=mode, minutes=self.coldoff)
        ctx.check(self.hoton <= 60 + 2 * dt, "heating_locked_on", step=i, minute=t, mode=mode, minutes=self.hoton)
        if t >= self.end:
            if self.off is None and not on:
                self.off = t - self.end
            if self.usable is None and u > 0:
                self.usable = t - self.end
            if self.recharged is None and full:
                self.recharged = t - self.end
            if self.tm_tank is not None and self.tmok is None and self.tm_tank.get_temperature_at_fraction(0.5) >= self.sys.supply_temp_f - 1e-9:
                self.tmok = t - self.end
            if None not in (self.off, self.usable, self.recharged) and (self.tm_tank is None or self.tmok is not None) and t - self.end > 2880:
                raise Done()
            if t - self.end > self.bound:
                ctx.fail("not_recovered", after_days=self.bound / 1440, recharged=self.recharged, heaters_off=self.off, usable=self.usable,
                         tm_recovered=self.tmok, schematic=self.rig.cfg["schematic"], level=u, temps=step["tank_temps_f"])


def run(sc, ctx):
    cfg = dict(sc["cfg"])
    s = cfg["schematic"]
    # size the margin from the building's real daily use, before the system is built for good
    from ecoengine.objects.building.Building import Building
    rig0 = ops.try_rig(cfg)
    b = rig0.building
    inlet = b.get_design_inlet_water_temp_f()
    loss = 0.0 if "return_flow_gpm" not in cfg else cfg["return_flow_gpm"] * 60 * RHO * (cfg["supply_temp_f"] - cfg["return_temp_f"]) / 1000
    dhw_day = b.daily_dhw_use_supplyT_gal * RHO * (cfg["supply_temp_f"] - inlet) / 1000
    sched = cfg.get("load_shift_schedule")
    avail = 24.0 if not sched else float(sum(1 for x in sched if x))
    load_day = dhw_day + (0.0 if s == "parallel_loop" else 24 * loss)
    cap = sc["margin"] * load_day / avail
    cfg["heating_capacity_kbtuh"] = round(cap, 3)
    cfg["num_heaters"] = cfg.get("num_heaters", 1)
    store_gal = max(60.0, sc["vol_h"] / 24 * b.daily_dhw_use_supplyT_gal)
    cfg["storage_volume_storageT_gal"] = round(store_gal, 1)
    # the off-sensor sits above the water exchanged in one time step (otherwise it can never read a full tank)
    dt = 1 if sc["dur"] == "3day" else 10
    per = b.daily_dhw_use_supplyT_gal * max(b.peak_load_shape[:24]) * dt / 60 * (cfg["supply_temp_f"] - inlet)
    if "rtp" in s:
        per += cfg["return_flow_gpm"] * dt * (cfg["supply_temp_f"] - cfg["return_temp_f"])
    need = 0.04 + 1.5 * per / (cfg["storage_temp_f"] - inlet) / store_gal
    cfg["off_sensor_fract"] = round(max(cfg["off_sensor_fract"], need), 3)
    if "load_up_off_sensor_fract" in cfg:
        cfg["load_up_off_sensor_fract"] = round(max(cfg["load_up_off_sensor_fract"], need), 3)
        cfg["load_up_aquastat_fract"] = max(cfg["load_up_aquastat_fract"], round(cfg["load_up_off_sensor_fract"] + 0.05, 3))
    if cfg["off_sensor_fract"] > cfg["aquastat_fract"] - 0.05 or cfg.get("load_up_aquastat_fract", 0) > cfg["aquastat_fract"]:
        raise core.Rejected("storage too small for the time step")
    if s == "multi_pass_rtp" and (cfg["return_flow_gpm"] * dt > 0.2 * store_gal or sc["margin"] < 1.8):
        raise core.Rejected("the loop turns the small storage over within a few time steps")
    if "tm_capacity_kbtuh" in cfg:
        cfg["tm_capacity_kbtuh"] = round(1.75 * loss + 2.0, 2)
        cfg.pop("tm_model", None)
    rig = ops.try_rig(cfg)
    store = store_gal * RHO * (cfg["storage_temp_f"] - inlet) / 1000

    class O(Obs):
        def __init__(self, *a):
            super().__init__(*a)
            self.setup(sc, avail, cap, load_day, store)
            box.append(self)
    box = []
    try:
        observe.run(rig, sc["dur"], sc["events"], ctx, O, {"outlet_deficit_max_min": 10**9})
        ended = "duration"
        o_ = box[0]
        if None not in (o_.off, o_.usable, o_.recharged) and (o_.tm_tank is None or o_.tmok is not None):
            ended = "recovered"
    except Done:
        ended = "recovered"
    ob = box[0]
    if ctx.steps == 0:
        ctx.sim_min += ob.count * (1 if sc["dur"] == "3day" else 10)
        ctx.steps += ob.count
    ctx.log(ended, ob.count, ob.recharged, ob.off, ob.usable, ob.tmok, ob.low)
    ctx.probe(ended); ctx.probe("sys_" + s)
    lvl = int(4 * min(1, max(0, ob.low) / store_gal))
    ctx.state(s, tuple(sorted({e["k"] for e in sc["events"]})), lvl, bool(sched), None if ob.recharged is None else ob.recharged // 720)
    ctx.sample = {"ended": ended, "minutes_to_recharge": ob.recharged, "minutes_to_usable": ob.usable, "bound_min": ob.bound, "lowest_usable": ob.low}
    if ended == "recovered" and sc["events"]:
        ctx.probe("nontrivial")
        ctx.probe("recharge_share_of_bound_pct_%02d" % (10 * (10 * max(ob.recharged, ob.off) // max(1, ob.bound))))
