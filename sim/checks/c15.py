"""C15: caller data is never modified and returned results never change later.

One caller process holds its own configuration lists, tariff lists, weather lists and every result it was ever given.  A seeded
history of operations runs on several systems that share those inputs; sometimes the caller itself scribbles over a result it
was given.  After every operation all inputs and all results still held must read as they did, and every later result must be
the one a pristine process gives.
"""
import copy, json, os, random
from .. import core, ops, runs, tariffs, world

N_QUICK, N_THOROUGH = 240, 8000
LEVEL = "exploration"
TECH = "seeded histories with aliased inputs, held results and caller overwrites"
RULE = ("one execution = a seeded history of 4-14 operations on 1-2 systems built from the same caller-owned inputs, with 0-3 caller "
        "scribbles; it counts when at least two results were held across later operations")
REAL = ["EcosizerEngine", "DHWSystem subclasses", "Simulator", "SimulationRun", "Building", "ClimateZone", "UtilityCostTracker", "catalogue look-ups"]
STUB = ["none (the caller's history, aliasing and scribbles are the scheduled events)"]
ASSUME = ["scribbles touch only containers that were returned to the caller, never objects' private state"]
LISTS = ("history",)
STATE_MEASURE = "distinct (operation, kind of result held across it) pairs and (scribbled kind, operation compared afterwards) pairs"
TIMEOUT = 200

KINDS = ["sim3", "sim3", "simA", "curve", "lscurve", "sizing", "size", "plotcurve", "plotsim", "bill", "energy", "compare", "models", "stations",
         "buckets", "keys", "summary", "simb", "build", "nbr", "direct", "direct", "curvefig", "graph", "hpwh", "bill", "lastbill", "csv", "tocsv", "badtariff", "badcfg", "other", "rebuild", "scribble", "scribble", "scribble"]


def gen(rng, i, tier):
    s = rng.choices(world.CHEAP + ["instant_wh", "multi_pass_rtp"], [5, 5, 6, 5, 1, 1])[0]
    cfg = world.gen_config(rng, schematic=s, **({"ls": True} if rng.random() < .5 else {}))
    if rng.random() < .3:
        ts = rng.sample(world.BTYPES[1:], 2)
        for k in ("gpdpp", "custom_peak_load_shape", "custom_avg_load_shape"):
            cfg.pop(k, None)
        cfg.update(building_type=ts, magnitude=[max(2, int(rng.uniform(200, 1500) / world.GPD[t])) for t in ts])
        if rng.random() < .5:
            cfg["custom_peak_load_shape"] = [world.shape24(rng), None] if rng.random() < .5 else [world.shape24(rng), world.shape24(rng)]
    hist, pool = [], []
    for _ in range(rng.randrange(4, 12 if tier == "quick" else 18)):
        while True:
            k = rng.choice(KINDS)
            if k in ("curve", "lscurve", "plotcurve") and not ops.applicable(cfg, k):
                continue
            if k == "size" and ops.size_changes(cfg):
                continue
            if k == "simA" and rng.random() < (.9 if tier == "quick" else .6):
                continue
            if s == "multi_pass_rtp" and k in ("curve", "plotcurve", "simA", "compare"):
                continue
            break
        o = {"op": k}
        if k == "scribble":
            o.update(which=rng.random(), seed=rng.getrandbits(20))
        if k in ("bill", "energy", "csv"):
            if len(pool) < 2 and rng.random() < .5 or not pool:
                pool.append(dict(runs.gen(rng), seed=rng.getrandbits(20)))
                pool[-1]["n"] = min(pool[-1]["n"], 3000)
            o["run"] = rng.choice(pool)
        if k in ("badtariff", "badcfg"):
            o.update(seed=rng.getrandbits(20))
        if k == "compare":
            o["dt"] = 1440
        if k == "models":
            o.update(mp=rng.random() < .5, res=rng.random() < .5, sgip=rng.random() < .5)
        if k == "simb":
            o.update(type=rng.choice(world.BTYPES), mag=rng.randrange(5, 60))
        if k == "build":
            o.update(gal=rng.choice([150.0, 700.0]), then=rng.choice(["state", "state", "sim", "curve", "toggle"]))
        if k == "direct":
            o.update(cls=rng.choice(["plain", "plain", "parts", "swing", "sp", "par"]), then=rng.choice(["sim", "sim", "ls", "size", "curve"]))
        if k == "curvefig":
            o.update(er=rng.random() < .3, ls=rng.random() < .5)
        if k == "graph":
            o["dt"] = 1440
        if k == "hpwh":
            o.update(m=rng.choice(world.models()[0]), oat=rng.choice([20.0, 60.0]), n=rng.randrange(1, 3))
        if k == "nbr":
            o.update(mag=rng.randrange(5, 60), std=rng.choice(["ca", "ca", "ashLow"]))
        hist.append(o)
    return {"cfg": cfg, "tariff": tariffs.gen(rng), "wseed": rng.getrandbits(20), "np": rng.random() < .3, "history": hist}


class World:
    """Everything the caller owns."""
    def __init__(self, sc):
        import numpy as np
        from ecoengine.objects.building.ClimateZone import ClimateZone
        from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
        self.cfg = json.loads(json.dumps(sc["cfg"]))
        if sc["np"] and isinstance(self.cfg.get("building_type"), str):
            for k in ("custom_peak_load_shape", "custom_avg_load_shape"):
                if k in self.cfg:
                    self.cfg[k] = np.array(self.cfg[k])
        rg = random.Random(sc["wseed"])
        self.oat = [round(20 + 40 * rg.random(), 2) for _ in range(8760)]
        self.inl = [round(45 + 15 * rg.random(), 2) for _ in range(12)]
        self.tspec = json.loads(json.dumps(sc["tariff"]))
        shape = lambda: [v * rg.choice([1.0, 1.0, 1.25]) for v in world.shape24(rg)]
        self.peak, self.avg = shape(), shape()
        if sc["np"]:
            self.peak, self.avg = np.array(self.peak), np.array(self.avg)
        self.skip = rg.sample(range(1, 97), 5)
        self.nbr = [rg.randrange(0, 6) + 1 for _ in range(6)]
        n = rg.randrange(5, 30)
        self.x, self.y = sorted(rg.random() * 900 for _ in range(n)), sorted((rg.random() * 90 for _ in range(n)), reverse=True)
        if sc["np"]:
            self.x = np.array(self.x)
        a = rg.randrange(6, 16)
        self.sched = ["normal"] * (a - 2) + ["loadUp"] * 2 + ["shed"] * 4 + ["normal"] * (20 - a)
        if rg.random() < .6:        # a second block, or a gap in the first
            self.sched[rg.randrange(a + 1, 23)] = rg.choice(["normal", "shed", "loadUp"])
        self.runs = {}
        self.d = None

    def lists(self):
        return core.canon({"cfg": self.cfg, "oat": self.oat, "inl": self.inl, "t": self.tspec, "peak": self.peak, "avg": self.avg, "skip": self.skip,
                           "nbr": self.nbr, "x": self.x, "y": self.y, "sched": self.sched})

    def a_run(self, spec):
        """The caller keeps its simulation results and comes back to them."""
        k = json.dumps(spec, sort_keys=True)
        if k not in self.runs:
            self.runs[k] = runs.build(spec)
        return self.runs[k]

    def start(self, d):
        from ecoengine.objects.building.ClimateZone import ClimateZone
        from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
        from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
        self.d = d
        from ecoengine.objects.components.heating.Controls import Controls
        sup, sto = self.cfg["supply_temp_f"], self.cfg["storage_temp_f"]
        self.cmap = {"normal": Controls(on_sensor_fract=.4, on_trigger_t_f=sup, off_sensor_fract=.1, off_trigger_t_f=sto - 1, outlet_temp_f=sto),
                     "loadUp": Controls(on_sensor_fract=.2, on_trigger_t_f=sup, off_sensor_fract=.05, off_trigger_t_f=sto - 1, outlet_temp_f=sto),
                     "shed": Controls(on_sensor_fract=.8, on_trigger_t_f=sup, off_sensor_fract=.3, off_trigger_t_f=sto - 1, outlet_temp_f=sto)}
        self.heaters, self.names = [], list(self.cmap)
        self.zone = ClimateZone(900, self.oat, self.inl)
        if self.tspec["kind"] == "params":
            self.uc = UtilityCostTracker.from_params(**self.tspec["p"])
        else:
            self.uc = tariffs.build(self.tspec, d)
        self.engine = EcosizerEngine(**world.engine_kwargs(self.cfg), utility_cost_tracker=self.uc)
        return self

    def inputs(self):
        return core.canon({"lists": self.lists(), "modes": [[k, {a: v for a, v in vars(c).items() if isinstance(v, (int, float))}] for k, c in self.cmap.items()],
                           "zone": [self.zone.get_oat_f(h, 60) for h in range(0, 8760, 97)] + [self.zone.get_inlet_water_temp_f(k, 1440) for k in range(0, 365, 13)],
                           "design": [self.zone.get_design_oat_f(), self.zone.get_design_inlet_water_temp_f()],
                           "rates": [[self.uc.get_energy_charge_at_step(h, 60), self.uc.get_demand_period_at_step(h, 60)] for h in range(0, 8760, 61)],
                           "charges": [[k, self.uc.get_demand_charge_for_period(k, 1.0)] for k in sorted(self.uc.get_all_demand_period_keys())],
                           "base": self.uc.get_yearly_base_charge()})


class FakeRig:
    def __init__(self, w):
        from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
        from ecoengine.objects.building.Building import Building
        self.engine, self.cfg = w.engine, w.cfg
        self.system, self.building = ops._find(w.engine, DHWSystem), ops._find(w.engine, Building)

    controls = ops.Rig.controls
    is_ls = ops.Rig.is_ls
    pair = ops.Rig.pair


def go(w, o, last):
    """Returns the raw object given to the caller."""
    from ecoengine.interfaces import EcosizerEngine as EE, Simulator
    from ecoengine.objects.building.Building import Building
    k, e = o["op"], w.engine
    rig = FakeRig(w)
    if k == "sim3":
        return e.simulate_3day()
    if k == "simA":
        return e.simulate_annual()
    if k == "simb":
        b = Building.from_building_type(o["type"], o["mag"], w.zone, gpdpp=20.0)
        return Simulator.simulate(rig.system, b, duration="3day")
    if k == "curve":
        return rig.system.get_sizing_curve(rig.building)
    if k == "lscurve":
        cs, cm = rig.controls()
        return rig.system.get_ls_sizing_curve(rig.building, control_schedule=cs, control_map=cm, load_shift_percent=rig.cfg.get("load_shift_percent", 1.0))
    if k == "sizing":
        return e.get_sizing_results()
    if k == "size":
        ops.perform(rig, {"op": "size"}, core.Ctx())
        return e.get_sizing_results()
    if k == "plotcurve":
        return e.plot_sizing_curve(return_with_x_y_points=True)
    if k == "plotsim":
        return e.plot_simulation()
    if k == "bill":
        r = w.a_run(o["run"])
        return [r.get_annual_utility_cost(w.uc), r.get_monthly_cost_breakdown(w.uc), r.get_monthly_cost_breakdown_detailed(w.uc), r.get_monthly_energy_kwh(), r.get_summary()]
    if k == "lastbill":
        return None if last is None else [last.get_monthly_cost_breakdown(w.uc), last.get_monthly_cost_breakdown_detailed(w.uc), last.get_monthly_energy_kwh()]
    if k == "build":
        b = Building(w.zone, o["gal"], w.peak, w.avg, building_type="office_building" if o["then"] != "toggle" else "multi_family")
        if o["then"] == "toggle":
            b.set_to_annual_load_shape()
            a = world.building_state(b)
            b.set_to_daily_load_shape()
            return [a, world.building_state(b)]
        if o["then"] == "sim":
            return [world.building_state(b), Simulator.simulate(rig.system, b, duration="3day")]
        if o["then"] == "curve" and ops.applicable(w.cfg, "curve") and w.cfg["schematic"] != "multi_pass_rtp":
            return [world.building_state(b), rig.system.get_sizing_curve(b)]
        return [world.building_state(b)]
    if k == "nbr":
        kw = {"n_br": w.nbr} if o["std"] == "ca" else {}
        return [world.building_state(Building.from_building_type("multi_family", o["mag"], w.zone, standard_gpd=o["std"], **kw))]
    if k == "direct":
        return direct(w, o)
    if k == "curvefig":
        return EE.get_sizing_curve_plot(w.x, w.y, len(w.x) // 2, load_shifting=o["ls"], er_sized=o["er"])
    if k == "graph":
        r = {"dt": o["dt"], "dur": 525600, "n": 525600 // o["dt"], "seed": 5, "tm": "none", "pow": "rand", "scale": 9.0}
        return EE.get_annual_utility_comparison_graph(w.a_run(r), w.a_run(dict(r, seed=6)), w.uc)
    if k == "hpwh":
        return [EE.get_hpwh_output_capacity(o["m"], o["oat"], 55.0, 140.0, num_heaters=o["n"])]
    if k == "energy":
        r = w.a_run(o["run"])
        return [e.get_annual_cost_estimate(r), e.get_simulation_summary(r)]
    if k == "compare":
        r = {"dt": o["dt"], "dur": 525600, "n": 525600 // o["dt"], "seed": 5, "tm": "none", "pow": "rand", "scale": 9.0}
        a, b = runs.build(r), runs.build(dict(r, seed=6))
        return EE.get_annual_utility_comparison_graph(a, b, w.uc, return_as_array=True)
    if k == "models":
        return EE.get_list_of_models(multi_pass=o["mp"], include_residential=o["res"], sgip_models_only=o["sgip"])
    if k == "stations":
        return EE.get_weather_stations(w.skip)
    if k == "buckets":
        return w.zone.get_oat_buckets()
    if k == "keys":
        return w.uc.get_all_demand_period_keys()
    if k == "summary":
        return None if last is None else e.get_simulation_summary(last)
    if k == "csv":
        p = os.path.join(w.d, "r.csv")
        w.a_run(o["run"]).to_csv(p)
        with open(p) as f:
            return [core.digest(f.read())]
    if k == "tocsv":
        p = os.path.join(w.d, "t.csv")
        w.uc.to_csv(p)
        with open(p) as f:
            return [core.digest(f.read())]
    if k in ("badtariff", "badcfg"):
        return refused(w, o)
    if k == "other":
        from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
        x = EcosizerEngine(**world.engine_kwargs(w.cfg), utility_cost_tracker=w.uc)
        return [x.get_sizing_results(), x.get_hw_magnitude()]
    if k == "rebuild":
        e.build()
        return e.get_sizing_results()
    raise core.HarnessError(k)


def refused(w, o):
    """A request with an inconsistent argument: whatever the answer, the caller's lists are left alone."""
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
    rg = random.Random(o["seed"])
    if o["op"] == "badtariff":
        kw = json.loads(json.dumps(w.tspec["p"])) if w.tspec["kind"] == "params" else \
            dict(monthly_base_charge=10.0, pk_start_hour=[8, 16], pk_end_hour=[12, 21], pk_demand_charge=[3.0, 4.0], pk_energy_charge=[.2, .3],
                 off_pk_demand_charge=[1.0, 2.0], off_pk_energy_charge=[.1, .15], start_month=[0, 5], end_month=[5, 12])
        kw.update(include_discount=True)
        n = len(kw["pk_start_hour"]) if isinstance(kw["pk_start_hour"], list) else 1
        for k, v in (("dscnt_start_hour", 1), ("dscnt_end_hour", 4), ("discnt_demand_charge", .5), ("discnt_energy_charge", .05)):
            if not isinstance(kw.get(k), list) or rg.random() < .5:
                kw[k] = [v] * rg.choice([1, n, n, n + 1])
        for k in rg.sample(sorted(k for k in kw if isinstance(kw[k], list)), 1):
            rg.choice([lambda: kw[k].append(kw[k][-1]), lambda: kw[k].pop(), lambda: kw[k].reverse(), lambda: kw[k].__setitem__(0, -1)])()
        make = lambda: UtilityCostTracker.from_params(**kw)
    else:
        kw = dict(world.engine_kwargs(w.cfg))
        k = rg.choice(["load_shift_schedule", "custom_peak_load_shape", "custom_avg_load_shape", "supply_temp_f", "hpwh_model"])
        kw[k] = {"supply_temp_f": 400.0, "hpwh_model": "no such model", "load_shift_schedule": [rg.randrange(2) for _ in range(rg.choice([0, 23, 24, 25]))]}.get(
            k, [round(rg.random(), 3) for _ in range(rg.choice([23, 24, 25]))])
        make = lambda: EcosizerEngine(**kw)
    was = core.canon(kw)
    try:
        make()
        out = "accepted"
    except Exception as e:
        if not core.from_repo(e):
            raise
        out = type(e).__name__
    if core.canon(kw) != was:
        raise Modified("the arguments of a call that was " + out)
    return [out]


def direct(w, o):
    """A system put together by the caller from its own schedule, control map and heater list."""
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    from ecoengine.interfaces import Simulator
    b = Building(w.zone, 900.0, w.peak, w.avg, building_type="office_building")
    c = dict(supply_temp_f=w.cfg["supply_temp_f"], storage_temp_f=w.cfg["storage_temp_f"])
    ctl = dict(control_schedule=w.sched, control_map=w.cmap)
    loop = dict(return_temp_f=c["supply_temp_f"] - 6.0, return_flow_gpm=1.5)
    if o["cls"] == "parts":
        heaters = [WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=40.0, **ctl) for _ in range(2)]
        mine = list(heaters)
        s = DHWSystem.from_components(storage_volume_storageT_gal=300.0, water_heaters=heaters, **c)
    elif o["cls"] == "swing":
        s = SwingSystem.from_size(b, **c, **loop, **ctl, max_daily_run_hr=16.0)
    elif o["cls"] == "par":
        s = ParallelLoopSystem.from_size(b, **c, **loop, **ctl, max_daily_run_hr=16.0, tm_on_temp_f=c["supply_temp_f"], tm_off_temp_f=c["supply_temp_f"] + 8.0)
    elif o["cls"] == "sp":
        s = SinglePassRTPSystem.from_size(b, **c, **loop, **ctl, max_daily_run_hr=16.0)
    else:
        s = DHWSystem.from_size(b, **c, **ctl, max_daily_run_hr=16.0)
    if o["then"] == "sim":
        out = Simulator.simulate(s, b, duration="3day")
    elif o["then"] == "ls":
        out = s.get_ls_sizing_curve(b, load_shift_percent=.95, **ctl)
    elif o["then"] == "curve":
        out = s.get_sizing_curve(b)
    else:
        s.size(b, load_shift_fract_total_vol=.9, **ctl)
        out = [s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()]
    if o["cls"] == "parts" and heaters != mine:
        raise Modified("the list of water heaters")
    return out


class Modified(Exception):
    pass


def reading(x):
    """Canonical reading of a returned object."""
    if hasattr(x, "heater_power_in_kw"):
        return world.run_state(x)
    if hasattr(x, "to_dict") and hasattr(x, "layout"):
        return ops.figure(x)
    if isinstance(x, (list, tuple)):
        return [reading(v) for v in x]
    if isinstance(x, dict):
        return {str(k): reading(v) for k, v in x.items()}
    return core.canon(x)


def scribble(x, rg, depth=0):
    """The caller overwrites containers it was given. Returns how many."""
    import numpy as np
    n = 0
    if hasattr(x, "heater_power_in_kw"):
        for k in world.RUN_SERIES:
            n += scribble(getattr(x, k), rg, depth + 1)
        return n
    if hasattr(x, "to_dict") and hasattr(x, "layout"):
        x.data = ()
        return 1
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x.flat[0] = -12345.0
            return 1
        return 0
    if isinstance(x, dict):
        for v in list(x.values()):
            n += scribble(v, rg, depth + 1)
        for k in list(x):
            if not isinstance(x[k], (list, dict)):
                x[k] = -777.0
        if rg.random() < .4 and x:
            x.pop(rg.choice(sorted(x, key=str)))
        x["scribble"] = 1
        return n + 1
    if isinstance(x, list):
        for v in x:
            n += scribble(v, rg, depth + 1)
        if rg.random() < .5:
            x.reverse()
        for j in range(len(x)):
            if isinstance(x[j], (int, float)) and rg.random() < .5:
                x[j] = -999.0
        if rg.random() < .4:
            x.clear()
        x.append("scribble")
        return n + 1
    if isinstance(x, tuple):
        return sum(scribble(v, rg, depth + 1) for v in x)
    return 0


def reference(sc, o):
    core._mute()
    with ops.Scratch() as d:
        try:
            return reading(go(World(sc).start(d), o, None))
        except Modified as e:
            return ["Modified", str(e)]


def run(sc, ctx):
    refs = {}
    for o in sc["history"]:
        if o["op"] in ("scribble", "summary", "lastbill"):
            continue
        k = json.dumps(o, sort_keys=True)
        if k not in refs:
            refs[k] = core.fork_call(reference, sc, o, timeout=150)
            if refs[k][0] == "exc" and refs[k][1] in ("ValueError", "NotImplementedError", "TypeError", "ZeroDivisionError", "RuntimeError"):
                continue
            if refs[k][0] != "ok":
                raise core.HarnessError(str(refs[k])[:2000])
    held, last, across, scribbled = [], None, 0, []
    with ops.Scratch() as d:
        w = World(sc)
        snap = w.lists()
        try:
            w.start(d)
        except (ValueError, NotImplementedError, ZeroDivisionError) as e:
            raise core.Rejected(repr(e))
        ctx.check(w.lists() == snap, "caller_data_modified", op="construction")
        first = w.inputs()
        for n, o in enumerate(sc["history"]):
            k = o["op"]
            if k == "scribble":
                if held:
                    h = held.pop(int(o["which"] * len(held)))
                    c = scribble(h["obj"], random.Random(o["seed"]))
                    if c:
                        ctx.fault("caller_overwrites_result"); scribbled.append(h["op"])
                    if h["obj"] is last:
                        last = None
                continue
            ref = refs.get(json.dumps(o, sort_keys=True))
            try:
                obj = go(w, o, last)
            except Modified as e:
                ctx.fail("caller_data_modified", n=n, op=o, what=str(e))
            except Exception as e:
                if ref is not None and ref[0] == "exc" and ref[1] == type(e).__name__ and core.from_repo(e):
                    ctx.probe("refused_op"); continue
                if not core.from_repo(e):
                    raise
                ctx.fail("different_outcome", n=n, op=o, error=repr(e)[:300], scribbled=scribbled)
            got = reading(obj)
            if ref is not None:
                if ref[0] != "ok":
                    ctx.fail("different_outcome", n=n, op=o, got="completed", reference=ref[1])
                if got != ref[1]:
                    ctx.fail("later_result_altered", n=n, op=o, scribbled=scribbled,
                             diff=world.diff_runs(ref[1], got) if isinstance(got, dict) and "oat_f" in got else {"want": str(ref[1])[:300], "got": str(got)[:300]})
                for x in scribbled:
                    ctx.state("scribbled", x, k)
            now = w.inputs()
            if now != first:
                ctx.fail("caller_data_modified", n=n, op=o, fields=[f for f in first if first[f] != now[f]])
            for h in held:
                r = reading(h["obj"])
                if r != h["r"]:
                    ctx.fail("earlier_result_changed", n=n, op=o, result_of=h["op"], obtained_at=h["n"],
                             diff=world.diff_runs(h["r"], r) if isinstance(r, dict) and "oat_f" in r else {"was": str(h["r"])[:300], "now": str(r)[:300]})
                across += 1
                ctx.state(k, "held", h["op"])
            if obj is not None:
                held.append({"obj": obj, "r": got, "op": k, "n": n})
            if hasattr(obj, "heater_power_in_kw"):
                last = obj
                ctx.sim_min += len(obj.oat_f) * obj.timestep_min
            ctx.probe("op_" + k)
            ctx.log(k, core.digest(got))
    ctx.sample = {"ops": [o["op"] for o in sc["history"]], "held_across": across, "scribbled": scribbled}
    if across >= 2:
        ctx.probe("nontrivial")
