"""C08: every recorded series is complete and entry i describes step i, whatever the environment does."""
import math
from .. import core, observe, ops, world

N_QUICK, N_THOROUGH = 260, 8000
LEVEL = "exploration"
TECH = "disturbed simulations observed step by step, history checked against the environment's answers"
RULE = ("one execution = one simulation of one seeded system under a seeded disturbance schedule (demand, weather, equipment), every step "
        "observed; it counts when at least 10 steps were recorded and compared with what the environment served at that moment")
REAL = ["Simulator", "SimulationRun", "all DHWSystem classes", "tanks", "WaterHeater/Controls", "PerformanceMap", "Building", "ClimateZone"]
STUB = ["a wrapper around the building's demand/weather queries and the equipment maps applies the disturbances"]
ASSUME = ["missing power readings (None) and zero are both 'no power'"]
LISTS = ("events",)
STATE_MEASURE = "distinct (schematic, duration, stopped early, event kinds, load shifting)"
simplify = observe.simplify
SERIES = ("dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f",
          "inlet_water_temp_f", "heater_mode")
TM = ("tm_tank_temp_f", "tm_heater_output_kbtuh", "tm_heater_input_kw")


def gen(rng, i, tier):
    return observe.gen_scenario(rng, tier, margins=[0.3, 0.7, 1.0, 1.3, 2.0])


class Obs(observe.Observer):
    def __init__(self, *a):
        super().__init__(*a)
        self.rec = []
        self.ls = any(m in (wh.control_map or {}) for wh in self.heaters for m in ("shed", "loadUp"))
        if self.rig.cfg["schematic"] == "multi_pass_rtp":      # always the peak day: no load-shift design for it
            self.ls = False

    def before(self, i, dt):
        self.tm0 = None if self.tm_tank is None else self.tm_tank.get_temperature_at_fraction(0.5)

    def after(self, i, dt, step):
        env = self.env
        last = lambda k, n: (env.served.get((k, n)) or [None])[-1]
        act = [n for n, wh in enumerate(self.heaters) if wh.is_active()]
        caps = [last("cap", n) for n in act]
        pows = [last("pow", n) for n in act]
        if any(("cap", n) not in env.served for n in act):
            caps = None
        if any(("pow", n) not in env.served for n in act):
            pows = None
        tm = None
        if self.tm_tank is not None:
            on = self.tm.is_active()
            mult = getattr(self.sys, "num_tm_heaters", 1)
            tm = (self.tm_tank.get_temperature_at_fraction(0.5), on, last("cap", -1), last("pow", -1), mult, self.tm0)
        self.rec.append((
            self.b.get_dhw_load_supplyT_gal(i, dt, use_avg=self.ls), self.b.get_oat_f(i, dt), self.b.get_inlet_water_temp_f(i, dt),
            self.nodes() if self.tank is not None else None,
            self.tank.get_usable_volume_supplyT_gal(self.sys.supply_temp_f) if self.tank is not None else None,
            self.sched(self.heaters[0], i, dt)[0] if self.heaters else None, caps, pows, tm))


def run(sc, ctx):
    rig = ops.try_rig(sc["cfg"])
    s = sc["cfg"]["schematic"]
    r, ob = observe.run(rig, sc["dur"], sc["events"], ctx, Obs, sc["kw"], sc["annual_shape"])
    n = ob.count
    dt = r.timestep_min
    want_n = (4320 if sc["dur"] == "3day" else 52560)
    ctx.check(dt == (1 if sc["dur"] == "3day" else 10), "step_length", got=dt)
    ctx.check(n == want_n or (r.stopped_early and n < want_n + 1), "steps_missing", simulated=n, expected=want_n)
    for k in SERIES:
        ctx.check(len(getattr(r, k)) == n, "series_length", series=k, got=len(getattr(r, k)), steps=n)
    ctx.check(len(r.tank_temps_f) == 6, "series_length", series="tank_temps_f", got=len(r.tank_temps_f))
    for j in range(6):
        ctx.check(len(r.tank_temps_f[j]) == n, "series_length", series=f"tank_temps_f[{j}]", got=len(r.tank_temps_f[j]), steps=n)
    has_tm = ob.tm_tank is not None
    for k in TM:
        ctx.check(len(getattr(r, k)) == (n if has_tm else 0), "series_length", series=k, got=len(getattr(r, k)), steps=n, has_tm=has_tm)
    ctx.check(r.get_summary()["num_steps_recorded"] == n, "summary_steps", got=r.get_summary()["num_steps_recorded"], steps=n)
    sup = rig.system.supply_temp_f
    ctx.check(r.supply_temp_f == sup, "supply_temp", got=r.supply_temp_f, want=sup)
    for i, (load, oat, inlet, nodes, usable, mode, caps, pows, tm) in enumerate(ob.rec):
        got = r.dhw_demand_supplyT_gal[i]
        ctx.check(observe.close(got, load), "demand_not_of_its_step", step=i, recorded=got, served=load)
        ctx.check(observe.close(r.oat_f[i], oat), "oat_not_of_its_step", step=i, recorded=r.oat_f[i], served=oat)
        ctx.check(observe.close(r.inlet_water_temp_f[i], inlet), "inlet_not_of_its_step", step=i, recorded=r.inlet_water_temp_f[i], served=inlet)
        if mode is not None and s != "instant_wh":
            ctx.check(r.heater_mode[i] == mode, "mode_not_of_its_step", step=i, recorded=r.heater_mode[i], scheduled=mode)
        if s == "instant_wh":
            q = load * (60 / dt) * observe.RHO_CP * max(sup - inlet, 1.0) / rig.system.defrost_factor / 1000
            ctx.check(observe.close(r.heater_output_kbtuh[i], q, 1e-6), "output_not_of_its_step", step=i, recorded=r.heater_output_kbtuh[i], want=q)
            continue
        temps = [r.tank_temps_f[j][i] for j in range(6)]
        ctx.check(all(observe.close(a, b) for a, b in zip(temps, nodes)), "tank_temperatures_not_of_its_step", step=i, recorded=temps, tank=nodes)
        u = r.usable_volume_supplyT_gal[i]
        if has_tm and "swing" in s:
            cold = [t < sup for t in (tm[5], tm[0])]
            ok = (u == 0.0 and any(cold)) or (observe.close(u, usable) and not all(cold))
        else:
            ok = observe.close(u, usable)
        ctx.check(ok, "usable_volume_not_of_its_step", step=i, recorded=u, tank=usable)
        if caps is not None:
            q = sum(c or 0.0 for c in caps)
            ctx.check(observe.close(r.heater_output_kbtuh[i], q, 1e-7), "output_not_of_its_step", step=i, recorded=r.heater_output_kbtuh[i], equipment=q)
        if pows is not None:
            q = sum(p or 0.0 for p in pows)
            ctx.check(observe.close(r.heater_power_in_kw[i] or 0.0, q, 1e-7), "power_not_of_its_step", step=i, recorded=r.heater_power_in_kw[i], equipment=q)
        if has_tm:
            ctx.check(observe.close(r.tm_tank_temp_f[i], tm[0]), "tm_temperature_not_of_its_step", step=i, recorded=r.tm_tank_temp_f[i], tank=tm[0])
            if not tm[1]:
                q, p = 0.0, 0.0
            else:
                q = None if tm[2] is None else tm[2] * tm[4]
                p = None if q is None else (q / 3.412142 if "swing" in s else (tm[3] or 0.0) * tm[4])
            if q is not None:
                ctx.check(observe.close(r.tm_heater_output_kbtuh[i], q, 1e-7), "tm_output_not_of_its_step", step=i, recorded=r.tm_heater_output_kbtuh[i], want=q)
                ctx.check(observe.close(r.tm_heater_input_kw[i] or 0.0, p, 1e-4), "tm_power_not_of_its_step", step=i, recorded=r.tm_heater_input_kw[i], want=p)
    ctx.state(s, sc["dur"], r.stopped_early, sorted({e["k"] for e in sc["events"]}), ob.ls)
    ctx.log(world.run_state(r))
    ctx.probe("stopped_early" if r.stopped_early else "completed")
    if has_tm:
        ctx.probe("tm_runs")
    if n >= 10:
        ctx.probe("nontrivial")
    ctx.sample = {"steps": n, "stopped_early": r.stopped_early, "summary": r.get_summary()}
