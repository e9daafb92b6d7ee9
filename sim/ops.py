"""Operations a caller can perform on a built system, with canonical results."""
from __future__ import annotations
import json, os, tempfile, warnings
from . import core, world


class Rig:
    """One system in one building, as a caller holds it.

    cfg["schematic"] may also be "swing_er" (SwingERTrdOffSystem, not reachable from EcosizerEngine).
    """
    def __init__(self, cfg, swing_er_building=None):
        self.cfg = cfg
        er = cfg["schematic"] == "swing_er"
        base = {k: v for k, v in dict(cfg, schematic="swing_tank").items() if not k.startswith("er_")} if er else cfg
        self.engine = world.make_engine(base)
        from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
        from ecoengine.objects.building.Building import Building
        self.building = _find(self.engine, Building)
        if er:
            from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
            swing = _find(self.engine, DHWSystem)
            wh = swing.water_heaters[0]
            common = dict(building=self.building, supply_temp_f=cfg["supply_temp_f"], storage_temp_f=cfg["storage_temp_f"],
                          return_temp_f=cfg["return_temp_f"], return_flow_gpm=cfg["return_flow_gpm"],
                          er_safety_factor=cfg.get("er_safety", 1.0),
                          control_schedule=wh.control_schedule, control_map=wh.control_map)
            if cfg.get("er_fract"):
                # an intentionally undersized primary plant, to be made up by the swing tank's element
                from ecoengine.objects.components.heating.WaterHeater import WaterHeater
                small = WaterHeater.from_nominal_capacity(
                    nominal_capacity_kbtuh=swing.get_minimum_capacity_kbtuh() * cfg["er_fract"],
                    control_schedule=wh.control_schedule, control_map=wh.control_map)
                self.system = SwingERTrdOffSystem.from_components(
                    water_heaters=[small], storage_tank=swing.storage_tank, tm_storage_tank=swing.tm_storage_tank,
                    initial_tm_capacity_kbtuh=swing.get_minimum_tm_capacity_kbtuh(), **common)
            else:
                self.system = SwingERTrdOffSystem.from_size(
                    max_daily_run_hr=cfg["max_daily_run_hr"], defrost_factor=cfg["defrost_factor"], **common)
            self.engine = None
        else:
            self.system = _find(self.engine, DHWSystem)

    def refind(self):
        """After engine.build() the engine holds new objects."""
        if self.engine is not None:
            from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
            from ecoengine.objects.building.Building import Building
            self.building, self.system = _find(self.engine, Building), _find(self.engine, DHWSystem)

    @property
    def pair(self):
        return self.system, self.building

    def controls(self):
        for wh in self.system.water_heaters:
            if wh.control_schedule is not None:
                return wh.control_schedule, wh.control_map
        return None, None

    def is_ls(self):
        return bool(self.cfg.get("load_shift_schedule"))


def _find(engine, cls):
    for v in vars(engine).values():
        if isinstance(v, cls):
            return v
    raise core.HarnessError(f"engine holds no {cls.__name__}")


def try_rig(cfg):
    try:
        return Rig(cfg)
    except (ValueError, NotImplementedError) as e:
        raise core.Rejected(f"{type(e).__name__}: {e}")
    except ZeroDivisionError as e:
        if cfg["schematic"] == "multi_pass_rtp":
            raise core.Rejected(f"{type(e).__name__}: {e}")
        raise


def gen_cfg(rng, **k):
    rich = k.pop("rich", 0.0)
    if k.get("schematic") == "swing_er":
        c = world.gen_config(rng, **dict(k, schematic="swing_tank", presized=False, ls=False))
        c["schematic"] = "swing_er"
        if rng.random() < 0.5:
            c["er_fract"] = rng.choice([0.4, 0.6, 0.8, 0.95])
        if rng.random() < 0.5:
            c["er_safety"] = rng.choice([1.1, 1.3])
        return c
    c = world.gen_config(rng, **k)
    if rng.random() < rich:
        world.enrich(rng, c)
    return c


def sizing(rig):
    """What the system reports as its sizing (public getters, else None)."""
    out = {}
    s = rig.system
    for n in ("get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal", "get_minimum_tm_volume_gal",
              "get_minimum_tm_capacity_kbtuh", "get_er_capacity_kbtuh", "get_er_capacity_kw", "get_minimum_tm_ca_volume_gal",
              "get_daily_recirc_loss_kbtu", "get_recirc_capacity_kbtuh", "get_recirc_loss_kbtuh"):
        f = getattr(s, n, None)
        if f is None:
            continue
        try:
            out[n] = f()
        except RuntimeError as e:
            out[n] = "unsized"
    if rig.engine is not None:
        out["engine"] = rig.engine.get_sizing_results()
        out["magnitude"] = rig.engine.get_hw_magnitude()
    return core.canon(out)


def settings(rig):
    """The system's public scalar settings (temperatures, safety factors, run hours ...)."""
    return {k: core.canon(v) for k, v in vars(rig.system).items()
            if not k.startswith("_") and (v is None or isinstance(v, (bool, int, float, str)))}


def figure(fig):
    """Traces and sliders of a figure, canonical and stable."""
    d = fig.to_dict()
    return core.canon({"data": [{k: t.get(k) for k in ("name", "x", "y", "text")} for t in d["data"]],
                       "shapes": [{k: s.get(k) for k in ("x0", "x1", "fillcolor")} for s in d["layout"].get("shapes", ())],
                       "sliders": [{"active": s.get("active"), "steps": [[st.get("label"), canon_args(st.get("args"))] for st in s.get("steps", ())]}
                                   for s in d["layout"].get("sliders", ())]})


def canon_args(a):
    return core.digest(a)


def applicable(cfg, kind):
    s = cfg["schematic"]
    ls = bool(cfg.get("load_shift_schedule"))
    if kind == "curve":
        return s not in ("instant_wh",)
    if kind == "simb":
        return True
    if kind == "curveb":
        return s not in ("instant_wh", "swing_er", "multi_pass_rtp") and "storage_volume_storageT_gal" not in cfg
    if kind == "lscurve":
        return ls and s not in ("instant_wh", "multi_pass_rtp")
    if kind == "plotcurve":
        return s not in ("instant_wh", "swing_er")
    if kind in ("er", "ercurve"):
        return s == "swing_er"
    if kind in ("toggle", "annual", "daily"):
        return cfg["building_type"] == "multi_family" and "custom_peak_load_shape" not in cfg
    if kind in ("plotsim", "rebuild"):
        return s != "swing_er"
    return True


def size_changes(cfg):
    """An explicit size() gives other results than construction did: pre-sized systems have none before, and a multi-pass
    system built with from_size() had its capacity boosted by trial runs."""
    return "storage_volume_storageT_gal" in cfg or "er_fract" in cfg or cfg["schematic"] == "multi_pass_rtp"


def ls_fraction(percent):
    """Share of the daily volume that load-shift sizing covers (the package's own conversion when it is where it was)."""
    from ecoengine.objects.dhwsystems import DHWSystem as m
    f = getattr(m, "_load_shift_fract_total_vol", None)
    return f(percent) if callable(f) else percent


class OpFailed(Exception):
    pass


def perform(rig, op, ctx, scratch=None):
    """Do one operation; the returned value is canonical (exact floats)."""
    k = op["op"]
    eng, sysm, b = rig.engine, rig.system, rig.building
    if k in ("sim3", "simA"):
        from ecoengine.interfaces import Simulator
        kw = op.get("kw", {})
        if eng is not None:
            r = eng.simulate_3day(**kw) if k == "sim3" else eng.simulate_annual(**kw)
        else:
            r = Simulator.simulate(sysm, b, duration="3day" if k == "sim3" else "annual", **kw)
        ctx.sim_min += len(r.oat_f) * r.timestep_min
        ctx.steps += len(r.oat_f)
        rig.last_run = r
        return world.run_state(r)
    if k == "sizing":
        return sizing(rig)
    if k == "size":
        cs, cm = rig.controls()
        kw = {}
        if rig.is_ls():
            kw["load_shift_fract_total_vol"] = ls_fraction(rig.cfg.get("load_shift_percent", 1.0))
        sysm.size(b, control_schedule=cs, control_map=cm, **kw)
        return sizing(rig)
    if k == "curve":
        return core.canon(sysm.get_sizing_curve(b, **op.get("kw", {})))
    if k == "lscurve":
        cs, cm = rig.controls()
        return core.canon(sysm.get_ls_sizing_curve(b, control_schedule=cs, control_map=cm,
                                                   load_shift_percent=rig.cfg.get("load_shift_percent", 1.0),
                                                   **op.get("kw", {})))
    if k in ("simb", "curveb"):
        from ecoengine.interfaces import Simulator
        b2 = other_building(rig, op)
        if k == "curveb":
            return core.canon(sysm.get_sizing_curve(b2))
        r = Simulator.simulate(sysm, b2, duration="3day")
        ctx.sim_min += len(r.oat_f) * r.timestep_min
        rig.last_run = r
        return world.run_state(r)
    if k == "plotcurve":
        out = eng.plot_sizing_curve(return_with_x_y_points=True, **op.get("kw", {}), **({"filepath": os.path.join(scratch, "c.html")} if op.get("file") else {}))
        return [figure(out[0]), core.canon(out[1:])]
    if k == "plotsim":
        return figure(eng.plot_simulation(include_temperatures=op.get("temps", False),
                                          **({"filepath": os.path.join(scratch, "s.html")} if op.get("file") else {})))
    if k == "er":
        return core.canon(sysm.get_er_sized_points(b, **op.get("kw", {})))
    if k == "ercurve":
        return figure(sysm.get_er_sizing_curve(b, **op.get("kw", {})))
    if k == "query":
        return lookup(op["what"], op["args"])
    if k == "probe":
        return probe(rig, op)
    if k == "toggle":
        b.set_to_annual_load_shape()
        v = float(b.get_dhw_load_supplyT_gal(5000, 10))
        b.set_to_daily_load_shape()
        return v
    if k in ("annual", "daily"):
        (b.set_to_annual_load_shape if k == "annual" else b.set_to_daily_load_shape)()
        return None
    if k == "rebuild":
        for a, v in op.get("set", {}).items():
            setattr(eng, a, v)
        eng.build()
        rig.refind()
        return sizing(rig)
    if k == "csv":
        r = getattr(rig, "last_run", None)
        if r is None:
            return None
        p = os.path.join(scratch, "r.csv")
        r.to_csv(p)
        with open(p) as f:
            return core.digest(f.read())
    if k == "costs":
        r = getattr(rig, "last_run", None)
        if r is None:
            return None
        from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
        uc = UtilityCostTracker.from_params(**op["tariff"])
        return core.canon([r.get_annual_utility_cost(uc), r.get_monthly_cost_breakdown(uc),
                           r.get_monthly_cost_breakdown_detailed(uc), r.get_monthly_energy_kwh(), r.get_summary()])
    raise core.HarnessError(k)


def gen_probe(rng):
    """Direct questions to the system's own heaters and its building, at seeded conditions and moments in any order."""
    base = rng.choice([25.0, 50.0, 65.0])
    q = [[rng.choice([base, base + rng.choice([0.2, -0.3, 0.01]), 5.0, 95.0, 118.0, rng.uniform(-10, 120)]),
          rng.choice([140.0, 150.0, 130.2]), rng.choice([None, 50.0, 50.3, 70.0, 110.0])] for _ in range(rng.randrange(1, 7))]
    t = [[rng.choice([0, 59, 60, 1439, 1440, 4319, rng.randrange(0, 52560)]), rng.choice([1, 10, 60, 15]), rng.random() < .5] for _ in range(rng.randrange(1, 6))]
    return {"op": "probe", "q": q, "t": t}


def probe(rig, op):
    s, b = rig.system, rig.building
    out = []
    for wh in [*s.water_heaters, getattr(s, "tm_water_heater", None)]:
        if wh is not None:
            out.append([[wh.get_capacity_kbtuh(*q), wh.get_power_in_kw(*q)] for q in op["q"]])
    out.append([[b.get_dhw_load_supplyT_gal(i, dt, use_avg=a), b.get_oat_f(i, dt), b.get_inlet_water_temp_f(i, dt)] for i, dt, a in op["t"]])
    out.append([b.get_design_oat_f(), b.get_design_inlet_water_temp_f(), b.is_annual_load_shape()])
    return core.canon(out)


def other_building(rig, op):
    """The system put to use in another building (same daily use when op says so)."""
    from ecoengine.objects.building.Building import Building
    b, z = rig.building, rig.building.climate_zone
    if op.get("zone"):
        from ecoengine.objects.building.ClimateZone import ClimateZone
        z = ClimateZone.from_zone_id(op["zone"])
    if op["alike"] == "use":        # same daily use, other load shapes
        return Building(z, b.daily_dhw_use_supplyT_gal, list(op["peak"]), list(op["peak"]), building_type="office_building")
    if op["alike"] == "shape":      # same shapes, other daily use
        return Building(z, b.daily_dhw_use_supplyT_gal * op["f"], list(b.peak_load_shape), list(b.avg_load_shape), building_type=b.building_type)
    return Building(z, b.daily_dhw_use_supplyT_gal, list(b.peak_load_shape), list(b.avg_load_shape), building_type=b.building_type)


def gen_other_building(rng, k):
    o = {"op": k, "alike": rng.choice(["use", "use", "shape", "both"])}
    if o["alike"] == "use":
        o["peak"] = world.shape24(rng)
    if o["alike"] == "shape":
        o["f"] = rng.choice([0.5, 0.97, 1.3])
    if o["alike"] == "both" or rng.random() < .3:
        o["zone"] = rng.choice(world.ZONES)
    return o


def gen_lookup(rng):
    """A data lookup that needs no system (equipment capacity, climate, model and station lists)."""
    what = rng.choice(["capacity", "capacity", "capacity", "buckets", "models", "stations", "zone"])
    if what == "capacity":
        sp, mp = world.models()
        base = rng.choice([20, 45, 60, 85])
        args = {"model": rng.choice((sp + mp)[:6] if rng.random() < 0.7 else sp + mp), "oat_f": base + rng.choice([0.0, 0.2, 0.4, -0.3]),
                "inlet_water_temp_f": 50 + rng.choice([0.0, 0.3, -0.4]), "outlet_water_temp_f": 140.0 + rng.choice([0.0, 0.3]),
                "num_heaters": rng.choice([1, 2]), "return_as_kw": rng.random() < 0.5, "defrost_derate": rng.choice([0.0, 0.1])}
    elif what == "buckets":
        args = rng.choice([{"zip_code": "94922"}, {"zip_code": 90210}, {"zone_id": rng.choice([1, 3, 19])}])
    elif what == "zone":
        args = {"zone": rng.choice([1, 3, 16, 19]), "at": rng.choice([0, 4000, 200000, 525599])}
    elif what == "models":
        args = {"multi_pass": rng.random() < 0.5, "include_residential": rng.random() < 0.5, "sgip_models_only": rng.random() < 0.5}
    else:
        args = {"exclude_zones": rng.choice([[], [1, 2, 3], [7]])}
    return {"op": "query", "what": what, "args": args}


def lookup(what, args):
    import inspect
    from ecoengine.interfaces import EcosizerEngine as M
    if what == "zone":
        from ecoengine.objects.building.ClimateZone import ClimateZone
        z = ClimateZone.from_zone_id(args["zone"])
        return core.canon([z.get_oat_f(args["at"], 1), z.get_inlet_water_temp_f(args["at"], 1), z.get_design_oat_f(),
                           z.get_design_inlet_water_temp_f()])
    f = {"capacity": M.get_hpwh_output_capacity, "buckets": M.get_oat_buckets, "models": M.get_list_of_models,
         "stations": M.get_weather_stations}[what]
    accepted = inspect.signature(f).parameters
    return core.canon(f(**{k: v for k, v in args.items() if k in accepted}))


TARIFF = dict(monthly_base_charge=190.0, pk_start_hour=16, pk_end_hour=21, pk_demand_charge=38.75,
              pk_energy_charge=0.21585, off_pk_demand_charge=30.20, off_pk_energy_charge=0.14341)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-sim-")
        return self.d

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)


def sizing_of(engine):
    return core.canon([engine.get_sizing_results(), engine.get_hw_magnitude()])
