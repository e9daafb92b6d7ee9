"""Data-source requests (catalogue, climate, building, tariff look-ups) with canonical answers."""
import json, os
from . import core, world, tariffs

STATIONS = ["ID - Boise Air Terminal"]


def stations():
    import csv, os
    with open(os.path.join(core.PKG, "data", "climate_data", "WeatherStation_ClimateZone_Lookup.csv"), newline="") as f:
        return sorted(r["Weather Station"].strip() for r in csv.DictReader(f) if r["Building CZ"].strip().isdigit())


def zips():
    import csv, glob, os
    out = []
    for p in glob.glob(os.path.join(core.PKG, "data", "climate_data", "*.csv")):
        with open(p, newline="") as f:
            rd = csv.DictReader(f)
            if "Zip Code" in (rd.fieldnames or ()):
                out += [r["Zip Code"].strip() for r in rd if r["Zip Code"].strip().isdigit()]
    return sorted(set(out)) or ["94922"]


def zone_state(z):
    return core.canon({"id": z.zone_id, "oat": core.digest([z.get_oat_f(h, 60) for h in range(8760)]),
                       "inlet": [z.get_inlet_water_temp_f(d, 1440) for d in range(0, 365, 5)],
                       "design": [z.get_design_oat_f(), z.get_design_inlet_water_temp_f()], "buckets": z.get_oat_buckets()})


TEMPS = [(o, t, i) for o in (-20., 17., 35., 47.5, 68., 95., 118.) for (t, i) in ((120., 45.), (140., 60.), (150., 108.))]


def map_state(pm):
    out = []
    for o, t, i in TEMPS:
        for f in (pm.get_capacity_kbtuh, pm.get_power_in_kw):
            try:
                out.append(core.canon(f(o, t, i)))
            except Exception as e:
                out.append(type(e).__name__)
    return out


def gen_request(rng, kind=None, extra=[]):
    k = kind or rng.choice(["zone", "zone", "zip", "station", "building", "building", "multiuse", "ca", "model", "model", "hpwh", "models", "stations",
                    "buckets", "engine", "annual"] + extra)
    sp, mp = world.models()
    if k == "zone":
        return {"r": k, "id": rng.choice(world.ZONES)}
    if k in ("zip", "buckets"):
        return {"r": k, "zip": rng.choice(zips()) if rng.random() < .5 else rng.choice(["94922", "90210", "95814", "92101", "96150", "93721"])}
    if k == "station":
        return {"r": k, "name": rng.choice(stations())}
    if k == "building":
        return {"r": k, "type": rng.choice(world.BTYPES), "mag": rng.randrange(5, 300), "gpdpp": 20.0}
    if k == "multiuse":
        ts = rng.sample(world.BTYPES[1:], 2)
        return {"r": k, "types": ts, "mags": [rng.randrange(5, 100), rng.randrange(5, 100)]}
    if k == "ca":
        return {"r": k, "std": rng.choice(["ca", "ca", "ashLow", "ashMed", "ecoMark"]), "mag": rng.randrange(5, 300)}
    if k in ("model", "hpwh"):
        return {"r": k, "m": rng.choice(sp + mp), "n": rng.randrange(1, 4), "t": rng.randrange(len(TEMPS))}
    if k == "models":
        return {"r": k, "mp": rng.random() < .5, "res": rng.random() < .5, "sgip": rng.random() < .5}
    if k == "tariff":
        return {"r": k, "t": tariffs.gen(rng), "as_file": rng.random() < .4}
    if k == "engine":
        return {"r": k, "cfg": world.gen_config(rng, schematic=rng.choice(world.CHEAP))}
    return {"r": k}


def tariff_file(q, d):
    """Writes the request's tariff as a CSV below d (before any fault is armed)."""
    if q["r"] == "tariff":
        p = os.path.join(d, core.digest(q["t"]) + ".csv")
        if not os.path.exists(p):
            sub = os.path.join(d, "src"); os.makedirs(sub, exist_ok=True)
            tariffs.build(q["t"], sub).to_csv(p)


def perform(q, d=None):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
    from ecoengine.interfaces import EcosizerEngine as EE
    k = q["r"]
    if k == "tariff":
        from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
        p = os.path.join(d, core.digest(q["t"]) + ".csv")
        if q["as_file"]:
            with open(p, newline="") as f:
                u = UtilityCostTracker.from_csv(csv_file=f)
        else:
            u = UtilityCostTracker.from_csv(csv_path=p)
        return core.canon([core.digest([u.get_energy_charge_at_step(h, 60) for h in range(8760)]),
                           [u.get_demand_charge_for_period(k, 10.0) for k in u.get_all_demand_period_keys()], u.get_yearly_base_charge()])
    if k == "zone":
        return zone_state(ClimateZone.from_zone_id(q["id"]))
    if k == "zip":
        return zone_state(ClimateZone.from_zip_code(q["zip"]))
    if k == "station":
        return zone_state(ClimateZone.from_weather_station(q["name"]))
    if k == "buckets":
        return core.canon(EE.get_oat_buckets(zip_code=q["zip"]))
    if k == "building":
        return world.building_state(Building.from_building_type(q["type"], q["mag"], None, gpdpp=q["gpdpp"]))
    if k == "multiuse":
        return world.building_state(Building.from_building_type(list(q["types"]), list(q["mags"]), None))
    if k == "ca":
        kw = {"n_br": [1, 4, 3, 2, 0, 0]} if q["std"] == "ca" else {}
        return world.building_state(Building.from_building_type("multi_family", q["mag"], None, standard_gpd=q["std"], **kw))
    if k == "annual":
        b = Building.from_building_type("multi_family", 100, None, gpdpp=20.0)
        b.set_to_annual_load_shape()
        a = world.building_state(b)
        b.set_to_daily_load_shape()
        return [a, world.building_state(b)]
    if k == "model":
        return map_state(PerformanceMap.from_model_name(q["m"], num_units=q["n"]))
    if k == "hpwh":
        o, t, i = TEMPS[q["t"]]
        return core.canon(EE.get_hpwh_output_capacity(q["m"], o, i, t, num_heaters=q["n"]))
    if k == "models":
        return core.canon(EE.get_list_of_models(multi_pass=q["mp"], include_residential=q["res"], sgip_models_only=q["sgip"]))
    if k == "stations":
        return core.canon(EE.get_weather_stations())
    if k == "engine":
        e = world.make_engine(q["cfg"])
        return core.canon([e.get_sizing_results(), e.get_hw_magnitude()])
    raise core.HarnessError(k)


def reference(q):
    core._mute()
    return perform(q)
