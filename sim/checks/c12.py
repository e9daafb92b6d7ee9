"""C12: outages are counted exactly; overload ends by the documented rule, never with an error."""
import contextlib, errno, math, re
from .. import core, observe, ops, world

N_QUICK, N_THOROUGH = 320, 9000
LEVEL = "exploration"
TECH = "overload and outage injection, outage accounting recomputed from the step history"
RULE = ("one execution = one simulation of one (often grossly undersized) system under severe disturbances with a random early-stop rule; it "
        "counts when it had at least one outage step, stopped early, or met a non-default stop rule")
REAL = ["Simulator", "SimulationRun", "all DHWSystem classes", "tanks", "mixing valve", "WaterHeater/Controls", "Building", "ClimateZone"]
STUB = ["a wrapper around the building's demand/weather queries and the equipment maps applies the disturbances",
        "standard output, in some executions one whose writes fail"]
ASSUME = ["the delivered temperature is the tank top, the swing tank for swing systems, and for multi-pass return-to-primary the supply "
          "temperature while heating, else the tank top at the draw"]
LISTS = ("events", "ledger")
STATE_MEASURE = "distinct (schematic, stopped early, outage share bucket, event kinds, stop rule)"


def simplify(sc):
    return iter(()) if "ledger" in sc else observe.simplify(sc)


def gen(rng, i, tier):
    if i % 8 == 5:
        return {"ledger": [[rng.randrange(0, 4000), rng.choice([1, 1, 2, 5, 300])] for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))],
                "dt": rng.choice([1, 10]), "n": rng.choice([1, 60, 4320]), "sup": rng.choice([110.0, 120.0]), "events": [],
                "rule": [rng.choice([0.0, 5.0, 2.5, -10.0]), rng.choice([0, 1, 10, 30])],
                # delivered temperature relative to the limit, and for how many steps; exactly the limit is not below it
                "deliv": [[rng.choice([0.0, 0.0, -1e-9, -0.5, -20.0, 1e-9, 3.0]), rng.choice([1, 1, 2, 9, 10, 11, 31])] for _ in range(rng.randrange(1, 12))]}
    sc = observe.gen_scenario(rng, tier, heavy=True, margins=[0.0, 0.05, 0.05, 0.3, 0.7, 1.0, 1.3], mp_share=4, annual_share=0.15)
    c = sc["cfg"]
    if "storage_volume_storageT_gal" in c and rng.random() < .3:
        c["storage_volume_storageT_gal"] = float(rng.choice([1.0, 5.0, 15.0]))
    if rng.random() < .15 and "tm_storage_vol" in c:
        c["tm_storage_vol"] = float(rng.choice([5, 15]))
        c["tm_capacity_kbtuh"] = rng.choice([0.1, 0.5, 2.0])
    if "storage_volume_storageT_gal" not in c and c["building_type"] in world.BTYPES[1:] and c["schematic"] not in ("swing_er", "multi_pass_rtp") and rng.random() < .3:
        c["custom_peak_load_shape"] = [1 / 24] * 24           # no peak at all: sized to little or no storage
        c.pop("custom_avg_load_shape", None)
    if rng.random() < .25:
        sc["kw"]["outlet_deficit_max_min"] = 10**7
    if rng.random() < .3:
        sc["console"] = [rng.choice(["EPIPE", "ENOSPC", "EIO"]), rng.choice([0, 0, 7, 2000])]
    return sc


CONSOLE_GONE = "console gone"


class Console:
    """Standard output that stops working after some writes: a closed pipe, a full disk."""
    encoding, errors = "utf-8", "strict"

    def __init__(self, kind, after, ctx):
        self.kind, self.left, self.ctx = kind, after, ctx

    def write(self, text):
        if self.left <= 0:
            self.ctx.fault("console_" + self.kind)
            raise OSError(getattr(errno, self.kind), CONSOLE_GONE)
        self.left -= 1
        return len(text)

    def flush(self):
        pass


class Obs(observe.Observer):
    def __init__(self, *a):
        super().__init__(*a)
        self.deliv = []
        self.mp = self.rig.cfg["schematic"] == "multi_pass_rtp"
        self.sup = self.sys.supply_temp_f

    def after(self, i, dt, step):
        if "swing" in self.rig.cfg["schematic"]:
            d = self.tm_tank.get_temperature_at_fraction(0.5)
        elif self.mp:
            d = self.sup if any(w.is_active() for w in self.heaters) else step.get("delivery_temp_f", step["tank_temps_f"][-1])
        elif self.tank is None:
            d = self.sup
        else:
            d = self.tank.get_temperature_at_fraction(1.0)
        if self.tank is not None and not self.mp:
            top, u = self.tank.get_temperature_at_fraction(1.0), step["usable_volume_supplyT_gal"]
            if top < self.sup - 1e-6:
                self.ctx.check(u <= 0.0, "usable_water_in_a_cold_tank", step=i, top=top, supply=self.sup, usable=u)
            elif top > self.sup + 1e-6 and "swing" not in self.rig.cfg["schematic"]:
                self.ctx.check(u > 0.0, "outage_with_hot_water_left", step=i, top=top, supply=self.sup, usable=u)
        if "swing" in self.rig.cfg["schematic"] and self.deliv:
            # water leaves through the swing tank: below supply temperature before and after the step, none of it was usable
            u, top = step["usable_volume_supplyT_gal"], self.tank.get_temperature_at_fraction(1.0)
            if max(d, self.deliv[-1]) < self.sup - 1e-6:
                self.ctx.check(u <= 0.0, "usable_water_from_a_cold_swing_tank", step=i, swing=d, supply=self.sup, usable=u)
            elif min(d, self.deliv[-1], top) > self.sup + 1e-6:
                self.ctx.check(u > 0.0, "outage_with_hot_water_left", step=i, top=top, swing=d, supply=self.sup, usable=u)
        if self.tank is not None and "swing" not in self.rig.cfg["schematic"]:
            told = self.sys.check_for_outage(step["demand_supplyT_gal"])
            self.ctx.check(told == (step["usable_volume_supplyT_gal"] <= 0.0), "outage_query_disagrees", step=i, told=told, usable=step["usable_volume_supplyT_gal"])
        self.deliv.append(d)


def finite(x):
    return x is None or (isinstance(x, (int, float)) and math.isfinite(x)) or math.isfinite(float(x))


def reports(r, dry, dt, n, stop, ctx):
    """Success, summary and failure message agree with the recorded outages."""
    sm = r.get_summary()
    out = len(dry) * dt
    ctx.check(sm["total_outage_min"] == out and sm["stopped_early"] == (stop is not None) and sm["num_steps_recorded"] == n, "summary_disagrees", summary=sm, outage=out, steps=n)
    ctx.check(sm["successful"] == (out == 0) == r.is_successful(), "success_disagrees", summary=sm["successful"], outage=out, method=r.is_successful())
    for m in (0, 1, dt, 2 * dt, out - 1, out, out + 1):
        if m >= 0:
            ctx.check(r.is_successful(m) == (out <= m), "success_threshold_wrong", allowed=m, outage=out)
    msg = r.get_failure_message()
    if out == 0:
        ctx.check("fail" not in msg.lower(), "failure_message_disagrees", message=msg, outage=out)
    else:
        ctx.check("fail" in msg.lower() and re.search(rf"\b{out} minutes", msg) is not None, "failure_message_disagrees", message=msg, outage=out)
        day = dry[0] * dt // 1440 + 1
        ctx.check(re.search(rf"\bday {day}\b", msg) is not None, "failure_message_disagrees", message=msg, first_outage_day=day)
        told = re.search(r"temperature of (-?[0-9.]+)", msg)
        temps = r.tm_tank_temp_f if r.show_tm_panel and r.tm_tank_temp_f else r.tank_temps_f[5]
        if told and len(temps) == n:        # swing and similar systems deliver from the loop tank
            avg = sum(temps[i] for i in dry) / len(dry)
            ctx.check(abs(float(told[1]) - avg) <= 0.051, "failure_message_disagrees", message=msg, average_delivered_temp=avg)
            ctx.probe("delivered_temperature_compared")
        ctx.probe("outages")
    return out, sm


def run_ledger(sc, ctx):
    """A recorded history with a few outage steps at chosen moments, straight into the real SimulationRun."""
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    dt, n, sup = sc["dt"], sc["n"], sc["sup"]
    dry = sorted({j for a, k in sc["ledger"] for j in range(a % n, min(n, a % n + k))})
    r = SimulationRun(4320 if dt == 1 else 525600, dt)
    r.supply_temp_f = sup
    ds = set(dry)
    for i in range(n):
        r.record_timestep(dhw_demand_supplyT_gal=1.0, usable_volume_supplyT_gal=0.0 if i in ds else 20.0, heater_output_kbtuh=0.0, heater_power_in_kw=0.0,
                          oat_f=40.0, inlet_water_temp_f=50.0, tank_temps_f=[60.0] * 5 + [sup - 3.0 if i in ds else sup + 20.0], mode="normal")
        if i in ds:
            r.record_outage(dt)
    out, _ = reports(r, dry, dt, n, None, ctx)
    if sc.get("deliv"):
        thr, mx = sc["rule"]
        r = SimulationRun(4320 if dt == 1 else 525600, dt, outlet_deficit_threshold_f=thr, outlet_deficit_max_min=mx)
        low = 0
        for x, k in sc["deliv"]:
            for _ in range(k):
                t = sup - thr + x
                low = low + dt if t < sup - thr else 0
                told = r.check_outlet_deficit(t, sup)
                ctx.check(bool(told) == (low > mx) == r.stopped_early, "stop_rule_wrong", rule=[thr, mx], below_for_min=low, told=told, flag=r.stopped_early)
                if told:
                    break
            if told:
                break
        ctx.probe("stop_rule_bench")
    ctx.steps += n
    ctx.fault("forced_outage", len(dry))
    ctx.log(r.get_summary(), r.get_failure_message())
    ctx.state("ledger", min(len(dry), 3), dt)
    ctx.sample = {"steps": n, "outage_min": out}
    if dry:
        ctx.probe("nontrivial")


def run(sc, ctx):
    if "ledger" in sc:
        return run_ledger(sc, ctx)
    rig = ops.try_rig(sc["cfg"])
    s = sc["cfg"]["schematic"]
    with contextlib.redirect_stdout(Console(*sc["console"], ctx)) if sc.get("console") else contextlib.nullcontext():
        try:
            r, ob = observe.run(rig, sc["dur"], sc["events"], ctx, Obs, sc["kw"], sc["annual_shape"])
        except OSError as e:
            if e.strerror != CONSOLE_GONE:
                raise
            ctx.fail("simulation_fails_without_console", schematic=s, error=type(e).__name__)
    if sc.get("console"):
        ctx.probe("without_console")
    n, dt, sup = ob.count, r.timestep_min, rig.system.supply_temp_f
    full = 4320 if sc["dur"] == "3day" else 52560
    for k in ("dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "tm_tank_temp_f",
              "tm_heater_output_kbtuh", "tm_heater_input_kw"):
        bad = [j for j, v in enumerate(getattr(r, k)) if not finite(v)]
        ctx.check(not bad, "not_a_number", series=k, step=bad[:1])
    for node in r.tank_temps_f:
        ctx.check(all(finite(v) for v in node), "not_a_number", series="tank_temps_f")
    # outage minutes = the steps that ended with no usable hot water
    dry = [j for j, v in enumerate(r.usable_volume_supplyT_gal) if v <= 0.0]
    ctx.check(r.outage_minutes == len(dry) * dt, "outage_minutes_wrong", recorded=r.outage_minutes, expected=len(dry) * dt)
    # documented stop rule
    thr, mx = sc["kw"].get("outlet_deficit_threshold_f", 5.0), sc["kw"].get("outlet_deficit_max_min", 10)
    run_min, stop = 0, None
    for j, d in enumerate(ob.deliv):
        run_min = run_min + dt if d < sup - thr else 0
        if run_min > mx:
            stop = j
            break
    ctx.check(r.stopped_early == (stop is not None), "stopped_early_flag_wrong", flag=r.stopped_early, expected=stop is not None, rule=[thr, mx], steps=n)
    ctx.check(n == (full if stop is None else stop + 1), "stopped_at_wrong_step", steps=n, expected=full if stop is None else stop + 1, rule=[thr, mx])
    # agreement of the reports
    out, sm = reports(r, dry, dt, n, stop, ctx)
    if rig.engine is not None:
        ctx.check(core.canon(rig.engine.get_simulation_summary(r)) == core.canon(sm), "engine_summary_disagrees")
    # supply well above the tank is an outage: a depleted tank cannot count as usable
    if stop is not None:
        ctx.probe("stopped_early")
    ctx.state(s, stop is not None, min(3, int(4 * len(dry) / n)), tuple(sorted({e["k"] for e in sc["events"]})), thr, mx)
    ctx.log(world.run_state(r))
    ctx.sample = {"steps": n, "outage_min": out, "stopped_early": stop is not None, "rule": [thr, mx]}
    if out or stop is not None or sc["kw"]:
        ctx.probe("nontrivial")
