"""C09: energy and utility costs add up over every recorded history (reference biller fed with the same steps)."""
import math
from .. import core, observe, ops, runs, tariffs, world

N_QUICK, N_THOROUGH = 420, 12000
LEVEL = "exploration"
TECH = "seeded power histories billed by a reference model"
RULE = ("one execution = one recorded history (synthetic with gaps in the power readings, or a real disturbed simulation) billed with one seeded "
        "tariff; it counts when some electricity was recorded")
REAL = ["SimulationRun summaries and cost methods", "UtilityCostTracker", "in real-run executions: EcosizerEngine, Simulator, DHWSystem"]
STUB = ["the reference biller works from the recorded series and the tariff parameters only"]
ASSUME = ["a period's demand charge is shown in the month of the period's first recorded step", "sums compared with relative tolerance 1e-9"]
LISTS = ("events",)
STATE_MEASURE = "distinct (history kind, step length, tariff kind, discount, power kind, TM kind)"


def gen(rng, i, tier):
    sc = {"tariff": tariffs.gen(rng), "events": []}
    if rng.random() < 0.75:
        sc["run"] = runs.gen(rng)
    else:
        sim = observe.gen_scenario(rng, tier, margins=[0.7, 1.0, 1.3, 2.0], annual_share=0.35, mp_share=1)
        sc.update(sim)
    return sc


def simplify(sc):
    if "run" in sc:
        r = sc["run"]
        for ch in ({"n": r["n"] // 2}, {"tm": "none"}, {"pow": "const"}, {"dt": 60, "n": min(r["n"], 8760)}):
            yield dict(sc, run=dict(r, **ch))
    else:
        yield from observe.simplify(sc)


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b), scale)


def comparison(ctx, sc, r, uc, want, md):
    """The published comparison of two annual runs and the engine's own estimate show the same figures."""
    from ecoengine.interfaces import EcosizerEngine as M
    other = runs.build({"dt": 1440, "dur": 525600, "n": 365, "seed": len(sc["events"]), "tm": "gaps", "pow": "rand", "scale": 9.0})
    md2 = other.get_monthly_cost_breakdown_detailed(uc)
    a, b = M.get_annual_utility_comparison_graph(r, other, uc, return_as_array=True)
    ctx.check(core.canon([a, b]) == core.canon([md, md2]), "comparison_array_wrong")
    fig = M.get_annual_utility_comparison_graph(r, other, uc)
    scale = want["annual"]
    for who, bd in (("HP", md), ("UER", md2)):
        bars = [t for t in fig.data if str(t.name or "").endswith("for " + who)]
        tot = math.fsum(float(v) for t in bars for v in t.y)
        exp = math.fsum(bd["energy_peak"] + bd["energy_off_peak"] + bd["demand_peak"] + bd["demand_off_peak"]) + 12 * bd["base"]
        ctx.check(close(tot, exp, scale), "comparison_bars_do_not_sum", which=who, got=tot, want=exp)
    ctx.probe("comparison_graph")


def run(sc, ctx):
    if "run" in sc:
        r = runs.build(sc["run"])
        kw, tm = runs.series(sc["run"])
        dt, dur = sc["run"]["dt"], sc["run"]["dur"]
        kind = ("synthetic", dt, sc["run"]["pow"], sc["run"]["tm"])
    else:
        rig = ops.try_rig(sc["cfg"])
        r, ob = observe.run(rig, sc["dur"], sc["events"], ctx, observe.Observer, sc["kw"], sc["annual_shape"])
        kw, tm = list(r.heater_power_in_kw), (list(r.tm_heater_input_kw) or None)
        dt, dur = r.timestep_min, r.duration_min
        kind = (sc["cfg"]["schematic"], dt, "real", tm is not None)
        if tm is not None:
            ctx.check(len(tm) == len(kw), "tm_power_not_aligned", tm=len(tm), primary=len(kw))
    n = len(kw)
    ctx.steps += n; ctx.sim_min += n * dt if "run" in sc else 0
    comb = [(k or 0.0) + ((tm[i] or 0.0) if tm is not None else 0.0) for i, k in enumerate(kw)]
    h = dt / 60.0
    with ops.Scratch() as d:
        uc = tariffs.build(sc["tariff"], d)
    model = tariffs.Model(sc["tariff"])
    want = model.bill(comb, dt)
    total = math.fsum(k * h for k in comb)
    ctx.check(close(r.get_total_energy_kwh(), total, 0), "total_energy_wrong", got=r.get_total_energy_kwh(), want=total)
    peak = max(comb, default=0.0)
    ctx.check(close(r.get_peak_demand_kw(), peak, 0), "peak_power_wrong", got=r.get_peak_demand_kw(), want=peak)
    sm = r.get_summary()
    ctx.check(close(sm["total_energy_kwh"], total, 0) and close(sm["peak_demand_kw"], peak, 0), "summary_wrong", summary=sm, total=total, peak=peak)
    months = [[] for _ in range(12)]
    for i, k in enumerate(comb):
        months[tariffs.month_of_hour(i * dt // 60)].append(k * h)
    months = [math.fsum(m) for m in months]
    got = r.get_monthly_energy_kwh()
    ctx.check(len(got) == 12, "monthly_energy_shape", got=len(got))
    if dur == 525600:
        for m in range(12):
            ctx.check(close(got[m], months[m], total), "monthly_energy_wrong", month=m, got=got[m], want=months[m])
        ctx.check(close(math.fsum(got), r.get_total_energy_kwh(), 0), "monthly_energy_does_not_sum", months=math.fsum(got), total=total)
        ctx.probe("monthly_energy")
    else:
        ctx.check(not any(got), "monthly_energy_wrong", got=got, note="documented as zeros for runs that are not annual")
    annual = r.get_annual_utility_cost(uc)
    ctx.check(close(annual, want["annual"], 0), "annual_cost_wrong", got=annual, want=want["annual"])
    mb, md = r.get_monthly_cost_breakdown(uc), r.get_monthly_cost_breakdown_detailed(uc)
    sc_ = want["annual"]
    for m in range(12):
        e, dm = want["energy_peak"][m] + want["energy_off_peak"][m], want["demand_peak"][m] + want["demand_off_peak"][m]
        ctx.check(close(mb["energy"][m], e, sc_), "monthly_energy_cost_wrong", month=m, got=mb["energy"][m], want=e)
        ctx.check(close(mb["demand"][m], dm, sc_), "monthly_demand_cost_wrong", month=m, got=mb["demand"][m], want=dm)
        for k in ("energy_peak", "energy_off_peak", "demand_peak", "demand_off_peak"):
            ctx.check(close(md[k][m], want[k][m], sc_), "detailed_cost_wrong", part=k, month=m, got=md[k][m], want=want[k][m])
    ctx.check(close(mb["base"], want["base"], 0) and close(md["base"], want["base"], 0), "base_charge_wrong", got=[mb["base"], md["base"]], want=want["base"])
    for name, tot in (("breakdown", math.fsum(mb["energy"] + mb["demand"]) + 12 * mb["base"]),
                      ("detailed", math.fsum(md["energy_peak"] + md["energy_off_peak"] + md["demand_peak"] + md["demand_off_peak"]) + 12 * md["base"])):
        ctx.check(close(tot, annual, 0), "monthly_costs_do_not_sum_to_annual", which=name, months=tot, annual=annual)
    if dur == 525600:
        comparison(ctx, sc, r, uc, want, md)
    ctx.log(annual, mb, md, got, sm)
    ctx.state(*kind, sc["tariff"]["kind"], bool(sc["tariff"].get("p", {}).get("include_discount")))
    ctx.sample = {"steps": n, "kwh": total, "annual_cost": annual}
    if total > 0:
        ctx.probe("nontrivial")
