"""C13: weather, water temperature, demand, operating mode and tariff follow one calendar, along any clock path.

Each execution owns one building, climate zone, tariff and (sometimes) system and queries them along a seeded clock path
(forward, repeated, backward, jumps across hour, day, month and year ends, any step length); every answer is compared with a
reference calendar over independently read data.
"""
import csv, json, math, os, random
from .. import core, ops, runs, tariffs, world
from .c11 import want_schedule

N_QUICK, N_THOROUGH = 500, 20000
LEVEL = "exploration"
TECH = "seeded clock paths against a reference calendar"
RULE = ("one execution = one seeded clock path of 60-400 queries against one building, zone, tariff and system; it counts when the path "
        "crossed at least one hour, month or year boundary and every answer was compared with the reference calendar")
REAL = ["ClimateZone", "Building", "UtilityCostTracker", "SimulationRun monthly figures", "DHWSystem.simulate_step"]
STUB = ["the simulation clock (the scenario decides every moment and step length that is queried)"]
ASSUME = ["moments are non-negative whole minutes; the calendar has 365 days", "tariffs are queried within the year only"]
LISTS = ("path",)
STATE_MEASURE = "distinct (query, step length, month, hour of day class, direction of the clock) tuples"
DTS = [1, 1, 1, 10, 10, 10, 2, 5, 15, 20, 30, 60, 60, 7, 11, 29, 45, 58, 90, 120, 180, 360, 1440]
YEAR = 525600


def moment(rng, prev, within):
    k = rng.random()
    if k < .25:
        m = prev + rng.choice([0, 1, 1, 9, 10, 59, 60, 61, 1440, 10080])
    elif k < .35:
        m = prev - rng.choice([1, 10, 60, 1440, 43200])
    elif k < .6:
        b = tariffs.MSTART[rng.randrange(12)] * 60 + rng.choice([0, 0, YEAR]) * (not within)
        m = b + rng.choice([-61, -60, -10, -1, 0, 0, 1, 59, 60, 1440, -1440])
    elif k < .7:
        m = YEAR + rng.choice([-1, -10, -60, -1440, 0, 1, 60, 1440]) if not within else YEAR - rng.choice([1, 10, 60, 61, 1440])
    elif k < .85:
        m = rng.randrange(8760) * 60 + rng.choice([0, -1, 59, 30, 1])
    else:
        m = rng.randrange(YEAR) if within else rng.randrange(3 * YEAR)
    if within:
        m = min(m, YEAR - 1)
    return max(0, m)


def gen(rng, i, tier):
    sc = {"zone": rng.choice(world.ZONES) if rng.random() < .6 else None, "zseed": rng.getrandbits(30), "type": rng.choice(world.BTYPES),
          "mag": rng.randrange(5, 400), "tariff": tariffs.gen(rng), "cfg": None, "path": []}
    if rng.random() < .5:
        sc["type"] = "multi_family"
    if rng.random() < .5:
        s = rng.choice(world.CHEAP + ["multi_pass_rtp"])
        sc["cfg"] = world.gen_config(rng, schematic=s, climate="zone", **({"ls": True} if rng.random() < .7 else {}))
    prev = 0
    fixed = rng.choice(DTS) if rng.random() < .4 else None
    for _ in range(rng.randrange(60, 200 if tier == "quick" else 400)):
        q = rng.choices(["load", "avg", "oat", "zoat", "inlet", "rate", "demand", "day", "toggle", "step", "pulse"],
                        [5, 2, 5, 2, 5, 5, 4, .7, .5 if sc["type"] == "multi_family" else 0, 4 if sc["cfg"] else 0, .15])[0]
        if q == "toggle":
            sc["path"].append({"q": q}); continue
        dt = fixed or rng.choice(DTS)
        if q == "step":
            dt = rng.choice([1, 10, 10, 15, 30, 60, 7, 29, 45])
        if q == "day":
            dt = rng.choice([1, 2, 5, 10, 15, 20, 30, 60])
        if q == "pulse":
            dt = rng.choice([60, 60, 30, 1440, 58, 90, 720])
        m = moment(rng, prev, q in ("rate", "demand", "pulse"))
        sc["path"].append({"q": q, "i": m // dt, "dt": dt})
        prev = m
    return sc


def table(name, zone):
    with open(os.path.join(core.PKG, "data", "climate_data", name), newline="", encoding="utf-8-sig") as f:
        r = list(csv.reader(f))
    c = [h.strip() for h in r[0]].index(str(zone))
    return [float(x[c]) for x in r[1:] if x]


def run(sc, ctx):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    if sc["zone"] is None:
        rg = random.Random(sc["zseed"])
        oat = [round(rg.uniform(-10, 110), 3) for _ in range(8760)]
        inl = [round(rg.uniform(35, 75), 3) for _ in range(12)]
        z = ClimateZone(900, list(oat), list(inl))
    else:
        oat, inl = table("DryBulbTemperatures_ByClimateZone.csv", sc["zone"]), table("InletWaterTemperatures_ByClimateZone.csv", sc["zone"])
        z = ClimateZone.from_zone_id(sc["zone"])
    b = Building.from_building_type(sc["type"], sc["mag"], z, gpdpp=22.5)
    shapes = {}

    def take():
        shapes["p"], shapes["a"] = [float(x) for x in b.peak_load_shape], [float(x) for x in b.avg_load_shape]
        shapes["d"] = float(b.daily_dhw_use_supplyT_gal)
    take()
    rig = None
    with ops.Scratch() as d:
        uc = tariffs.build(sc["tariff"], d)
    model = tariffs.Model(sc["tariff"])
    if sc["cfg"] is not None and any(o["q"] == "step" for o in sc["path"]):
        rig = ops.try_rig(sc["cfg"])
        zid = sc["cfg"]["zip_code_or_climate_zone"]
        soat, sinl = table("DryBulbTemperatures_ByClimateZone.csv", zid), table("InletWaterTemperatures_ByClimateZone.csv", zid)
        sch = want_schedule(sc["cfg"])
        sb = rig.building
        sshape, sd = [float(x) for x in sb.peak_load_shape], float(sb.daily_dhw_use_supplyT_gal)
        avg = [float(x) for x in sb.avg_load_shape]
        st = rig.system
        if st.storage_tank is not None:
            st.storage_tank.initialize(st.storage_temp_f, min(sinl), 0.6)
        tm = getattr(st, "tm_storage_tank", None)
        if tm is not None:
            tm.initialize(getattr(st, "tm_off_temp_f", st.storage_temp_f), min(sinl), 1.0)
    near = lambda x, y: abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
    prev, crossed = 0, 0
    for n, o in enumerate(sc["path"]):
        q = o["q"]
        if q == "toggle":
            ctx.check(bool(b.is_annual_load_shape()) == (len(shapes["p"]) == 8760), "profile_flag_wrong", n=n)
            if b.is_annual_load_shape():
                b.set_to_daily_load_shape()
                ctx.check(len(b.peak_load_shape) == 24, "profile_not_daily", n=n)
            else:
                b.set_to_annual_load_shape()
                ctx.check(len(b.peak_load_shape) == 8760, "profile_not_annual", n=n)
            take()
            continue
        i, dt = o["i"], o["dt"]
        m = i * dt
        hoy, hod = (m // 60) % 8760, (m // 60) % 24
        mon = tariffs.month_of_hour(hoy)
        ctx.state(q, dt, mon, hod % 6, (m > prev) - (m < prev))
        crossed += (m // 60) != (prev // 60)
        prev = m
        at = {"n": n, "query": q, "step": i, "dt": dt, "minute": m, "hour_of_year": hoy, "month": mon}
        if q in ("load", "avg"):
            sh = shapes["a" if q == "avg" else "p"]
            got, want = b.get_dhw_load_supplyT_gal(i, dt, use_avg=q == "avg"), shapes["d"] * sh[(m // 60) % len(sh)] * dt / 60
            ctx.check(near(got, want), "demand_of_wrong_moment", got=got, want=want, **at)
        elif q in ("oat", "zoat"):
            got = (b if q == "oat" else z).get_oat_f(i, dt)
            ctx.check(got == oat[hoy], "outdoor_temperature_of_wrong_moment", got=got, want=oat[hoy], **at)
        elif q == "inlet":
            got = b.get_inlet_water_temp_f(i, dt)
            ctx.check(got == inl[mon], "inlet_temperature_of_wrong_moment", got=got, want=inl[mon], **at)
            ctx.check(z.get_inlet_water_temp_f(i, dt) == inl[mon], "inlet_temperature_of_wrong_moment", via="zone", **at)
        elif q == "rate":
            got = uc.get_energy_charge_at_step(i, dt)
            ctx.check(near(got, model.energy[hoy]), "rate_of_wrong_moment", got=got, want=model.energy[hoy], **at)
        elif q == "demand":
            got = uc.get_demand_charge_for_period(uc.get_demand_period_at_step(i, dt), 10.0)
            want = model.demand[model.period[hoy]] * 10.0
            ctx.check(near(got, want), "demand_charge_of_wrong_moment", got=got, want=want, **at)
        elif q == "day":
            if len(shapes["p"]) != 24:
                continue
            s0 = (m // 1440) * 1440 // dt
            got = math.fsum(b.get_dhw_load_supplyT_gal(j, dt) for j in range(s0, s0 + 1440 // dt))
            want = shapes["d"] * math.fsum(shapes["p"])
            ctx.check(near(got, want) and abs(got - shapes["d"]) <= 2e-3 * shapes["d"], "day_does_not_sum_to_daily_use", got=got, want=shapes["d"], **at)
            for j in range(s0, s0 + 1440 // dt, max(1, 60 // dt)):
                w = shapes["d"] * shapes["p"][(j * dt // 60) % 24] * dt / 60
                ctx.check(near(b.get_dhw_load_supplyT_gal(j, dt), w), "demand_of_wrong_moment", **dict(at, step=j))
        elif q == "pulse":
            r = SimulationRun(YEAR, dt)
            k = min(i, YEAR // dt - 1)
            mon = tariffs.month_of_hour(k * dt // 60)
            for j in range(k + 2 if k + 2 < YEAR // dt else YEAR // dt):
                r.record_timestep(dhw_demand_supplyT_gal=0.0, usable_volume_supplyT_gal=1.0, heater_output_kbtuh=0.0, heater_power_in_kw=6.0 if j == k else None,
                                  oat_f=50.0, inlet_water_temp_f=50.0, tank_temps_f=[100.0] * 6, mode="normal")
            e = r.get_monthly_energy_kwh()
            want = 6.0 * dt / 60
            ctx.check(len(e) == 12 and all(near(x, want if c == mon else 0.0) for c, x in enumerate(e)), "energy_in_wrong_month", got=list(e), want_month=mon, **at)
        elif q == "step":
            s = rig.system.simulate_step(building=sb, timestep_interval=i, interval_min=dt)
            use_avg = None
            w = [sd * x[(m // 60) % len(x)] * dt / 60 for x in (sshape, avg)]
            ctx.check(any(near(s["demand_supplyT_gal"], x) for x in w), "step_demand_of_wrong_moment", got=s["demand_supplyT_gal"], want=w, **at)
            ctx.check(s["oat_f"] == soat[hoy], "step_outdoor_temperature_of_wrong_moment", got=s["oat_f"], want=soat[hoy], **at)
            ctx.check(s["inlet_water_temp_f"] == sinl[mon], "step_inlet_temperature_of_wrong_moment", got=s["inlet_water_temp_f"], want=sinl[mon], **at)
            ctx.check(s.get("mode", "normal") == sch[hod], "step_mode_of_wrong_moment", got=s.get("mode"), want=sch[hod], **at)
            ctx.sim_min += dt
        ctx.probe("q_" + q)
        ctx.steps += 1
    ctx.log(core.digest(sc["path"]), crossed, sc["zone"])
    ctx.sample = {"queries": len(sc["path"]), "boundary_crossings": crossed}
    if crossed:
        ctx.probe("nontrivial")
