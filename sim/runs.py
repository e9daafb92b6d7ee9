"""Seeded synthetic SimulationRun histories (power series with None gaps, TM series, any tariff-relevant length)."""
import random


def gen(rng, tier="quick"):
    kind = rng.choice(["3day", "annual", "annual", "cut", "short"])
    dt = 1 if kind == "3day" else rng.choice([10, 10, 10, 60, 30, 15, 1440, 7, 29, 45, 90, 58])
    dur = 4320 if kind == "3day" else 525600
    n = dur // dt
    if kind == "cut":
        n = rng.randrange(1, n)
    if kind == "short":
        n = min(n, rng.randrange(0, 400))
    return {"dt": dt, "dur": dur, "n": n, "seed": rng.getrandbits(32), "tm": rng.choice(["none", "all", "gaps"]),
            "pow": rng.choice(["const", "rand", "duty", "none", "duty", "spike"]), "scale": rng.choice([0.02, 0.5, 10.0, 120.0]),
            "inlet": rng.choice([50, 50, 68, 119]),
            "edge": [rng.choice(["first", "last", "month", "month_end", "hour"]), rng.choice(["kw", "tm", "both"]), rng.choice([1.5, 4.0])] if rng.random() < .35 else None}


def series(r):
    rg = random.Random(r["seed"])
    n = r["n"]

    def mk(kind, scale):
        if kind == "none":
            return [None] * n
        if kind == "const":
            return [scale] * n
        if kind == "rand":
            return [rg.random() * scale for _ in range(n)]
        if kind == "spike":
            hot = {rg.randrange(n) for _ in range(6)} if n else ()
            return [scale * (1 + rg.random()) if i in hot else rg.choice([None, 0.0]) for i in range(n)]
        out, on = [], False
        while len(out) < n:
            ln = rg.randrange(1, 90)
            v = scale * (0.5 + rg.random())
            out += [v if on else rg.choice([None, None, 0.0])] * ln
            on = not on
        return out[:n]
    kw = mk(r["pow"], r["scale"])
    ts = 4.0 if r["scale"] > .1 else r["scale"]
    tm = None if r["tm"] == "none" else (mk("duty", ts) if r["tm"] == "gaps" else mk("rand", ts))
    if r.get("edge") and n:       # the highest power of the year in a step at an edge of the calendar
        where, who, f = r["edge"]
        m = rg.choice([31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]) * 1440
        t = {"first": 0, "last": (n - 1) * r["dt"], "month": m, "month_end": m - 1, "hour": 60 * rg.randrange(8760)}[where]
        i = min(n - 1, t // r["dt"])
        peak = max(max((x or 0.0 for x in kw), default=0.0), max((x or 0.0 for x in tm or ()), default=0.0), 0.1) * f
        if who != "tm" or tm is None:
            kw[i] = peak
        if who != "kw" and tm is not None:
            tm[i] = peak
    return kw, tm


def build(r):
    from ecoengine.objects.simulation.SimulationRun import SimulationRun
    s = SimulationRun(r["dur"], r["dt"])
    kw, tm = series(r)
    rg = random.Random(r["seed"] ^ 77)
    for i in range(r["n"]):
        extra = {}
        if tm is not None:
            extra = {"tm_tank_temp_f": 118.0 + (i % 9), "tm_heater_output_kbtuh": 0.0 if not tm[i] else tm[i] * 3.412, "tm_heater_input_kw": tm[i]}
        us = rg.choice([0.0, 5.5, 60.25]) if i % 17 == 0 else 33.0 + (i % 5) / 3.0
        s.record_timestep(dhw_demand_supplyT_gal=(i % 11) / 7.0, usable_volume_supplyT_gal=us, heater_output_kbtuh=0.0 if not kw[i] else kw[i] * 9,
                          heater_power_in_kw=kw[i], oat_f=40 + (i % 31) / 3.0, inlet_water_temp_f=r.get("inlet", 50) + (i % 7) / 9.0,
                          tank_temps_f=[60 + j * 10 + (i % 13) / 11.0 for j in range(6)], mode=r.get("mode") or ("normal" if (i // 60) % 4 else "shed"), **extra)
        if us <= 0:
            s.record_outage(r["dt"])
    s.supply_temp_f = 120.0
    s.show_tm_panel = tm is not None
    return s


def combined(r):
    kw, tm = series(r)
    return [(k or 0.0) + ((tm[i] or 0.0) if tm is not None else 0.0) for i, k in enumerate(kw)]


def bills(run, uc):
    from . import core
    return core.canon({"annual": run.get_annual_utility_cost(uc), "month": run.get_monthly_cost_breakdown(uc),
                       "detail": run.get_monthly_cost_breakdown_detailed(uc)})
