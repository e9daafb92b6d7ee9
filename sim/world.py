"""Scenario building blocks: random engine configurations, snapshots, environment stubs."""
from __future__ import annotations
import json, os, random
from . import core

SCHEMATICS = ["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp", "instant_wh"]
STORED = SCHEMATICS[:5]
ALIAS = {"primary_no_recirc": "singlepass_norecirc", "parallel_loop": "paralleltank", "swing_tank": "swingtank", "single_pass_rtp": "sprtp",
         "multi_pass_rtp": "mprtp"}
CHEAP = ["primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp"]
BTYPES = ["multi_family", "apartment", "motel", "office_building", "mens_dorm", "womens_dorm", "nursing_home",
          "food_service_a", "food_service_b", "elementary_school", "junior_high", "senior_high"]
GPD = {"apartment": 35, "motel": 15, "office_building": 1, "mens_dorm": 18, "womens_dorm": 16, "nursing_home": 18,
       "food_service_a": 10, "food_service_b": 3, "elementary_school": .8, "junior_high": 1.5, "senior_high": 1.8}
SP_MODELS = ["MODELS_ColmacCxV_5_C_SP", "MODELS_SANCO2_C_SP"]
ZONES = list(range(1, 17)) + [19, 27, 45, 62, 80, 91]


def _models():
    p = os.path.join(core.PKG, "data", "preformanceMaps", "maps.json")
    d = json.load(open(p))
    sp = sorted(m for m, v in d.items() if m.endswith("_SP"))
    mp = sorted(m for m, v in d.items() if m.endswith("_MP"))
    return sp, mp


_cache = {}


def models():
    if "m" not in _cache:
        _cache["m"] = _models()
    return _cache["m"]


def pick_climate(rng, kind=None):
    kind = kind or rng.choice(["zone", "zone", "design", "zip", "station"])
    if kind == "design":
        return {"design_oat_f": round(rng.uniform(5, 60), 1), "design_inlet_water_temp_f": round(rng.uniform(38, 62), 1)}
    if kind == "zip":
        return rng.choice(["94922", "90210", "95814", "92101", "96150", "93721"])
    if kind == "station":
        return rng.choice(["ARCATA_725945", "OAKLAND_724930"]) if False else rng.choice(ZONES)
    return rng.choice(ZONES)


def shape24(rng, peaky=None):
    peaky = rng.choice([1, 3, 8]) if peaky is None else peaky
    v = [rng.random() ** peaky + 0.01 for _ in range(24)]
    if rng.random() < 0.2:
        for h in range(rng.randrange(1, 6)):
            v[h] = 0.0
    s = sum(v)
    v = [round(x / s, 6) for x in v]
    v[12] = round(v[12] + 1.0 - sum(v), 6)
    if v[12] < 0:
        return [1 / 24] * 24
    return v


def ls_schedule(rng):
    sch = [1] * 24
    a = rng.randrange(6, 18)
    for h in range(a, min(24, a + rng.randrange(2, 6))):
        sch[h] = 0
    if rng.random() < 0.3:
        b = rng.randrange(0, 5)
        for h in range(b, b + 2):
            sch[h] = 0
    elif rng.random() < 0.15:       # a second block soon after the first
        b = max(h for h in range(24) if not sch[h]) + 1 + rng.randrange(1, 3)
        for h in range(b, min(24, b + rng.randrange(1, 4))):
            sch[h] = 0
    return sch


def gen_config(rng, schematic=None, presized=None, ls=None, climate=None, btype=None, models_ok=True, margin=None):
    """Random JSON-able EcosizerEngine kwargs. Stays inside documented input ranges."""
    s = schematic or rng.choice(SCHEMATICS)
    c = {"schematic": s}
    bt = btype or (rng.choice(BTYPES) if rng.random() < 0.6 else "multi_family")
    daily = rng.uniform(300, 6000)
    c["building_type"] = bt
    if bt == "multi_family":
        c["gpdpp"] = round(rng.uniform(12, 30), 1)
        c["magnitude"] = max(4, int(daily / c["gpdpp"]))
        daily = c["magnitude"] * c["gpdpp"]
    else:
        c["magnitude"] = max(1, int(daily / GPD[bt]))
        daily = c["magnitude"] * GPD[bt]
        if rng.random() < 0.25:
            c["custom_peak_load_shape"] = shape24(rng)
            if rng.random() < 0.5:
                c["custom_avg_load_shape"] = shape24(rng, 1)
    c["zip_code_or_climate_zone"] = pick_climate(rng, climate)
    sup = float(rng.choice([115, 120, 120, 122, 125, 130]))
    c["supply_temp_f"] = sup
    c["storage_temp_f"] = float(sup + rng.choice([10, 15, 20, 25, 30]))
    c["max_daily_run_hr"] = float(rng.choice([12, 14, 16, 16, 18, 20]))
    c["defrost_factor"] = rng.choice([1.0, 1.0, 0.9])
    c["aquastat_fract"] = round(rng.uniform(0.25, 0.6), 2)
    c["off_sensor_fract"] = round(rng.uniform(0.02, c["aquastat_fract"] - 0.05), 2)
    if s in ("parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp"):
        c["return_temp_f"] = sup - rng.choice([5.0, 8.0, 10.0])
        # recirc loss stays a modest share of the daily load
        c["return_flow_gpm"] = round(daily * rng.uniform(0.0008, 0.0030), 2)
        if s == "multi_pass_rtp":
            c["aquastat_fract"], c["off_sensor_fract"] = round(rng.uniform(0.3, 0.5), 2), round(rng.uniform(0.1, 0.25), 2)
    if s == "parallel_loop":
        c["tm_on_temp_f"] = sup
        c["tm_off_temp_f"] = sup + rng.choice([6.0, 8.0, 10.0])
        c["num_tm_heaters"] = rng.choice([1, 1, 2])
    want_ls = (rng.random() < 0.3 if ls is None else ls) and s not in ("instant_wh", "multi_pass_rtp")
    if want_ls:
        c["load_shift_schedule"] = ls_schedule(rng)
        c["shed_aquastat_fract"] = round(rng.uniform(max(c["aquastat_fract"], 0.6), 0.9), 2)
        if rng.random() < 0.6:
            c["load_up_hours"] = rng.randrange(1, 4)
            c["load_up_aquastat_fract"] = round(rng.uniform(0.1, min(0.3, c["aquastat_fract"])), 2)
            c["load_up_off_sensor_fract"] = round(c["load_up_aquastat_fract"] / 2, 2)
        c["load_shift_percent"] = rng.choice([0.8, 0.95, 1.0])
    pre = rng.random() < 0.5 if presized is None else presized
    if pre:
        m = margin if margin is not None else rng.choice([0.05, 0.3, 0.7, 1.0, 1.3, 2.0, 3.0])
        btu_day = daily * 8.33 * (sup - 50)
        if s in ("parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp"):
            loss = c["return_flow_gpm"] * 500 * (sup - c["return_temp_f"]) / 1000
        else:
            loss = 0.0
        prim = btu_day / 1000 / 24 + (loss if "rtp" in s else 0.0) + (0.6 * loss if s == "swing_tank" else 0.0)
        c["storage_volume_storageT_gal"] = float(round(max(30, daily * rng.choice([0.05, 0.15, 0.3, 0.5, 0.8])), 1))
        c["num_heaters"] = rng.choice([1, 1, 2, 3])
        if models_ok and rng.random() < 0.35 and s != "multi_pass_rtp":
            c["hpwh_model"] = rng.choice(models()[0])
            c["num_heaters"] = max(1, round(prim * m / 60))
        elif models_ok and rng.random() < 0.35 and s == "multi_pass_rtp":
            c["hpwh_model"] = rng.choice(models()[1])
            c["num_heaters"] = max(1, round(prim * m / 60))
        else:
            c["heating_capacity_kbtuh"] = round(prim * m * 24 / c["max_daily_run_hr"], 2)
        if s in ("parallel_loop", "swing_tank"):
            c["tm_storage_vol"] = float(rng.choice([50, 80, 120, 200]))
            c["tm_capacity_kbtuh"] = round(max(loss, 1.0) * rng.choice([0.3, 1.2, 1.75, 3.0]), 2)
            if s == "parallel_loop" and models_ok and rng.random() < 0.25:
                c["tm_model"] = rng.choice(models()[1])
    return c


def enrich(rng, c):
    """Less usual but documented settings: mixed-use buildings, own triggers and sensors per mode, TM cycle settings."""
    if isinstance(c["building_type"], str) and c["building_type"] != "multi_family" and rng.random() < .35:
        ts = rng.sample(BTYPES[1:], 2)
        for k in ("custom_peak_load_shape", "custom_avg_load_shape"):
            c.pop(k, None)
        c.update(building_type=ts, magnitude=[max(2, int(rng.uniform(200, 2500) / GPD[t])) for t in ts])
    elif isinstance(c["building_type"], str) and c["building_type"] != "multi_family" and rng.random() < .15:
        # own building: the hourly gallons themselves, or a total and a shape
        k = rng.uniform(300, 3000)
        c.pop("custom_avg_load_shape", None)
        c.update(building_type=None, magnitude=rng.choice([None, round(k, 1)]), custom_peak_load_shape=[round(x * k, 3) for x in shape24(rng)])
    if rng.random() < .2 and c["schematic"] in ALIAS:
        c["alias"] = True
    if c["schematic"] == "multi_pass_rtp" and "storage_volume_storageT_gal" in c and rng.random() < .5:
        c["load_shift_schedule"] = ls_schedule(rng)         # a given system can be load shifted, only its sizing cannot
        c["shed_aquastat_fract"] = round(rng.uniform(0.6, 0.9), 2)
    if rng.random() < .5:
        c["on_trigger_t_f"] = c["supply_temp_f"] + rng.choice([-4.0, 1.5, 4.0])
    if rng.random() < .5:
        c["off_trigger_t_f"] = c["storage_temp_f"] - rng.choice([1.0, 3.0, 5.0])
    if c.get("load_shift_schedule"):
        if rng.random() < .5:
            c["shed_off_sensor_fract"] = round(rng.uniform(0.05, c["shed_aquastat_fract"] - 0.1), 2)
        if c.get("load_up_hours") and rng.random() < .25:
            for k in ("load_up_aquastat_fract", "load_up_off_sensor_fract"):
                c.pop(k, None)
        if c.get("load_up_hours") and rng.random() < .5:
            c["load_up_off_trigger_t_f"] = c["storage_temp_f"] - rng.choice([1.0, 4.0])
    if c["schematic"] in ("parallel_loop", "swing_tank") and rng.random() < .6:
        c["tm_safety_factor"] = rng.choice([1.2, 1.5, 2.5])
        if c["schematic"] == "parallel_loop":
            c["tm_off_time_hr"] = rng.choice([0.25, 0.75, 1.0])
    return c


def make_engine(cfg):
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
    return EcosizerEngine(**json.loads(json.dumps(engine_kwargs(cfg))))


def engine_kwargs(cfg):
    c = {k: v for k, v in cfg.items() if k != "alias"}
    if cfg.get("alias"):
        c["schematic"] = ALIAS[c["schematic"]]
    return c


def try_engine(cfg):
    """Build, or reject the scenario if the (fault-free) configuration is refused."""
    try:
        return make_engine(cfg)
    except (ValueError, NotImplementedError) as e:
        raise core.Rejected(f"{type(e).__name__}: {e}")
    except ZeroDivisionError as e:
        if cfg["schematic"] == "multi_pass_rtp":    # sized to no storage at all (see DESIGN.md, observations)
            raise core.Rejected(f"{type(e).__name__}: {e}")
        raise


RUN_SERIES = ["dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw",
              "oat_f", "inlet_water_temp_f", "heater_mode", "tank_temps_f", "tm_tank_temp_f",
              "tm_heater_output_kbtuh", "tm_heater_input_kw"]


def run_state(run):
    """Everything a caller can see on a SimulationRun, exactly."""
    d = {k: core.canon(getattr(run, k)) for k in RUN_SERIES}
    d.update(outage=run.outage_minutes, stopped=run.stopped_early, dur=run.duration_min, dt=run.timestep_min,
             supply=run.supply_temp_f, panel=run.show_tm_panel, summary=core.canon(run.get_summary()),
             msg=run.get_failure_message())
    return d


def run_digest(run):
    return core.digest(run_state(run))


def diff_runs(a, b):
    """First difference between two run_state dicts (for reports)."""
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], list) and isinstance(b.get(k), list):
                if len(a[k]) != len(b[k]):
                    return {"series": k, "len": [len(a[k]), len(b[k])]}
                for i, (x, y) in enumerate(zip(a[k], b[k])):
                    if x != y:
                        if isinstance(x, list):
                            for j, (p, q) in enumerate(zip(x, y)):
                                if p != q:
                                    return {"series": f"{k}[{i}]", "step": j, "values": [p, q]}
                        return {"series": k, "step": i, "values": [x, y]}
            return {"field": k, "values": [str(a[k])[:200], str(b.get(k))[:200]]}
    return None


def building_state(b):
    """Observable state of a Building (attributes are public)."""
    probe = []
    for t, dt in ((0, 1), (7 * 60 + 3, 1), (100, 10), (20000, 10), (52559, 10)):
        for avg in (False, True):
            probe.append(float(b.get_dhw_load_supplyT_gal(t, dt, use_avg=avg)))
        probe.append(float(b.get_oat_f(t, dt)) if b.climate_zone is not None else None)
        probe.append(float(b.get_inlet_water_temp_f(t, dt)) if b.climate_zone is not None else None)
    return {"daily": float(b.daily_dhw_use_supplyT_gal), "type": b.building_type,
            "annual": bool(b.is_annual_load_shape()), "peak": core.digest(b.peak_load_shape),
            "avg": core.digest(b.avg_load_shape), "probe": probe}


# ------------------------------------------------------------- environment
class AllocFault:
    """Memory runs out in the k-th numpy call that repository code makes (None: only count them)."""
    TOOL = 4

    def __init__(self, k=None, ctx=None):
        self.k, self.ctx, self.n, self.failed = k, ctx, 0, False

    def __enter__(self):
        import numpy
        import sys
        self.m = m = sys.monitoring
        kinds, pkg = (numpy.ufunc, numpy.ndarray), core.PKG

        def called(code, off, fn, arg0):
            if not code.co_filename.startswith(pkg):
                return m.DISABLE
            if not (str(getattr(fn, "__module__", "") or "").split(".")[0] == "numpy" or isinstance(fn, kinds)
                    or isinstance(getattr(fn, "__self__", None), kinds) or fn is numpy.ndarray):
                return m.DISABLE
            self.n += 1
            if self.n == self.k:
                self.failed = True
                if self.ctx:
                    self.ctx.fault("alloc")
                raise MemoryError("injected")
        m.use_tool_id(self.TOOL, "verif")
        m.register_callback(self.TOOL, m.events.CALL, called)
        m.restart_events()
        m.set_events(self.TOOL, m.events.CALL)
        return self

    def __exit__(self, *a):
        self.m.set_events(self.TOOL, 0)
        self.m.register_callback(self.TOOL, self.m.events.CALL, None)
        self.m.free_tool_id(self.TOOL)


class EnvFault(OSError):
    """Raised by the simulated environment (a data source failing)."""


class Env:
    """Puts the building's data sources and the heaters' performance maps behind a seam.

    events: list of dicts
      {"k":"spike","a":min,"b":min,"f":x}      demand multiplied by f
      {"k":"nodraw","a","b"}                   demand zero
      {"k":"coldin","a","b","d":dF}            inlet water colder by d
      {"k":"coldsnap","a","b","d"}             OAT lower by d
      {"k":"trip","a","b","h":idx|-1,"f":x}    heater capacity and power multiplied by f (0 = out of service)
      {"k":"tmtrip","a","b","f":x}             same for the temperature-maintenance heater
    fail_at: n-th environment query raises EnvFault (None = never)
    """
    def __init__(self, engine_or_pair, events=(), fail_at=None, ctx=None, kinds=("load", "oat", "inlet", "cap", "pow")):
        if isinstance(engine_or_pair, tuple):
            self.system, self.building = engine_or_pair
        else:
            raise TypeError("Env needs a (system, building) pair")
        self.events = list(events)
        self.fail_at, self.kinds = fail_at, kinds
        self.queries = 0
        self.now = 0
        self.served = {}        # what the equipment maps answered in the current step: ("cap"|"pow", heater | -1) -> values
        self.ctx = ctx
        self.fired = {}
        self.failed = False
        self.armed = True
        self.maps = True
        self._installed = []

    # -- disturbances as pure functions of time
    def _ev(self, minute, kinds):
        for e in self.events:
            if e["k"] in kinds and e["a"] <= minute < e["b"]:
                yield e

    def _fire(self, e):
        if self.ctx is not None and self.armed:
            key = (e["k"], e["a"], e["b"])
            if key not in self.fired:
                self.fired[key] = 1
                self.ctx.fault(e["k"])

    def _query(self, kind):
        if not self.armed or kind not in self.kinds:
            return
        self.queries += 1
        if self.fail_at is not None and self.queries == self.fail_at:
            self.failed = True
            if self.ctx is not None:
                self.ctx.fault("source_error_" + kind)
            raise EnvFault(5, f"simulated failure of the {kind} source (query {self.queries})")

    def install(self):
        b, env = self.building, self
        o_load, o_oat, o_in = b.get_dhw_load_supplyT_gal, b.get_oat_f, b.get_inlet_water_temp_f
        self.orig = (o_load, o_oat, o_in)

        def load(timestep_interval, interval_min=1, use_avg=False):
            env._query("load")
            m = timestep_interval * interval_min
            v = o_load(timestep_interval, interval_min, use_avg=use_avg)
            for e in env._ev(m, ("spike", "nodraw")):
                env._fire(e)
                v = v * e["f"] if e["k"] == "spike" else v * 0.0
            return v

        def oat(timestep_interval, interval_min=1):
            env._query("oat")
            env.now = timestep_interval * interval_min
            v = o_oat(timestep_interval, interval_min)
            for e in env._ev(env.now, ("coldsnap",)):
                env._fire(e)
                v = v - e["d"]
            return v

        def inlet(timestep_interval, interval_min=1):
            env._query("inlet")
            v = o_in(timestep_interval, interval_min)
            for e in env._ev(timestep_interval * interval_min, ("coldin",)):
                env._fire(e)
                v = max(33.0, v - e["d"])
            return v
        self._set(b, "get_dhw_load_supplyT_gal", load)
        self._set(b, "get_oat_f", oat)
        self._set(b, "get_inlet_water_temp_f", inlet)
        for name in ("get_design_oat_f", "get_design_inlet_water_temp_f"):
            def design(_f=getattr(b, name)):
                env._query("design")
                return _f()
            self._set(b, name, design)
        if self.maps:
            for i, wh in enumerate(getattr(self.system, "water_heaters", None) or []):
                self._wrap_heater(wh, "trip", i)
            tm = getattr(self.system, "tm_water_heater", None)
            if tm is not None:
                self._wrap_heater(tm, "tmtrip", -1)
        return self

    def _wrap_heater(self, wh, kind, idx):
        pm = wh.performance_map
        if pm is None:
            return
        env = self

        class Map:
            """Stand-in for the equipment: delegates to the real map, then derates."""
            def __getattr__(self_, n):
                return getattr(pm, n)

            def __setattr__(self_, n, v):
                setattr(pm, n, v)

            def get_capacity_kbtuh(self_, *a, **k):
                env._query("cap")
                v = env._derate(pm.get_capacity_kbtuh(*a, **k), kind, idx)
                env.served.setdefault(("cap", idx), []).append(v)
                return v

            def get_power_in_kw(self_, *a, **k):
                env._query("pow")
                v = env._derate(pm.get_power_in_kw(*a, **k), kind, idx)
                env.served.setdefault(("pow", idx), []).append(v)
                return v
        self._set(wh, "performance_map", Map())

    def _derate(self, v, kind, idx):
        if v is None:
            return None
        for e in self._ev(self.now, (kind,)):
            if kind == "trip" and e.get("h", -1) not in (-1, idx):
                continue
            self._fire(e)
            v = v * e["f"]
        return v

    def _set(self, obj, name, val):
        had = name in obj.__dict__
        self._installed.append((obj, name, had, obj.__dict__.get(name)))
        obj.__dict__[name] = val

    def uninstall(self):
        for obj, name, had, old in reversed(self._installed):
            if had:
                obj.__dict__[name] = old
            else:
                obj.__dict__.pop(name, None)
        self._installed = []

    def __enter__(self):
        return self.install()

    def __exit__(self, *a):
        self.uninstall()


def gen_events(rng, dur_min, n=None, heavy=False, kinds=None):
    n = rng.choice([0, 1, 2, 3, 5]) if n is None else n
    kinds = kinds or ["spike", "nodraw", "coldin", "coldsnap", "trip", "tmtrip"]
    sel = [k for k in kinds if rng.random() < 0.6] or kinds   # swarm: random subset per run
    out = []
    for _ in range(n):
        k = rng.choice(sel)
        a = rng.randrange(0, dur_min)
        ln = int(rng.choice([5, 30, 120, 480, 1440]) * rng.uniform(0.5, 1.5))
        e = {"k": k, "a": a, "b": min(dur_min, a + ln)}
        if k == "spike":
            e["f"] = rng.choice([1.5, 3.0, 8.0] + ([40.0] if heavy else []))
        elif k in ("coldin",):
            e["d"] = rng.choice([5.0, 12.0, 25.0])
        elif k == "coldsnap":
            e["d"] = rng.choice([10.0, 30.0, 60.0])
        elif k in ("trip", "tmtrip"):
            e["f"] = rng.choice([0.0, 0.0, 0.4, 0.8])
            if k == "trip":
                e["h"] = rng.choice([-1, -1, 0, 1])
        out.append(e)
    return out


class Mute:
    """Some systems print during a run; executions run with stdout already muted."""


def simulate(engine, duration="3day", **kw):
    return engine.simulate_3day(**kw) if duration == "3day" else engine.simulate_annual(**kw)
