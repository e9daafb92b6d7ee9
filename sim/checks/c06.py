"""C06: a tariff survives export and import with identical bills, and a failed export never bills differently."""
import os
from .. import core, ops, runs, tariffs
from ..faultfs import FaultFS, WRITE_OPEN, WRITE_DATA, READ_DATA, Crash

N_QUICK, N_THOROUGH = 320, 8000
LEVEL = "exploration"
TECH = "write faults and crashes during export, import differential against a reference tariff"
RULE = ("one execution = one seeded tariff exported (possibly with a write fault or crash at a byte), imported, billed on a seeded run, and "
        "exported/imported again; it counts when a bill of an imported tariff was compared or a partial file was presented to the importer")
REAL = ["UtilityCostTracker (from_params, from_csv, to_csv)", "SimulationRun billing", "csv module, text and buffer layers"]
STUB = ["raw file below the io layer (real bytes in a scratch folder) injects ENOSPC/EIO/close errors, short writes and crashes",
        "simulation results are synthetic step records"]
ASSUME = ["a crash keeps a prefix of the written bytes"]
LISTS = ("faults",)
STATE_MEASURE = "distinct (tariff kind, discount, fault kind, outcome of export, outcome of import)"
FILE_BYTES = 260_000
OLD = "Date,Demand Period,Energy Rate ($/kWh),Demand Rate ($/kW),Monthly Base Charge\r\n" + "x,0,9.99,9.99,9\r\n" * 8760


def gen(rng, i, tier):
    sc = {"tariff": tariffs.gen(rng), "run": runs.gen(rng), "faults": [], "old": rng.random() < .5, "handle": rng.random() < .3, "gens": rng.choice([1, 1, 2]),
          "name": rng.choice(["out.csv", "out.csv", "tariff 2026", "rates.v1.txt"])}
    if rng.random() < 0.65:
        k = rng.choice(WRITE_OPEN[:1] + WRITE_DATA * 3 + ["short_write"])
        at = rng.choice([0, 1, 60]) if rng.random() < .15 else (-rng.randrange(0, 60) if rng.random() < .35 else rng.randrange(0, FILE_BYTES))
        sc["faults"] = [{"open": 1, "kind": k, "at": at if k != "short_write" else rng.choice([1, 7, 500])}]
    return sc


def simplify(sc):
    yield dict(sc, gens=1)
    yield dict(sc, old=False)
    yield dict(sc, handle=False)
    r = sc["run"]
    for ch in ({"n": max(0, r["n"] // 2)}, {"tm": "none"}, {"pow": "const"}):
        yield dict(sc, run=dict(r, **ch))


def imp(path, handle):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    if handle:
        with open(path, newline="") as f:
            return UtilityCostTracker.from_csv(csv_file=f)
    return UtilityCostTracker.from_csv(csv_path=path)


def same(ctx, uc, uc2, run, want_bill, what):
    for h in range(8760):
        a, b = uc.get_energy_charge_at_step(h, 60), uc2.get_energy_charge_at_step(h, 60)
        ctx.check(a == b, "energy_rate_changed", when=what, hour=h, before=a, after=b)
    ctx.check(uc.get_yearly_base_charge() == uc2.get_yearly_base_charge(), "base_charge_changed", when=what,
              before=uc.get_yearly_base_charge(), after=uc2.get_yearly_base_charge())
    got = runs.bills(run, uc2)
    if got != want_bill:
        ctx.fail("bill_changed", when=what, before={k: str(v)[:400] for k, v in want_bill.items()}, after={k: str(v)[:400] for k, v in got.items()})
    for h in range(0, 8760, 7):
        a = uc.get_demand_charge_for_period(uc.get_demand_period_at_step(h, 60), 1.0)
        b = uc2.get_demand_charge_for_period(uc2.get_demand_period_at_step(h, 60), 1.0)
        ctx.check(a == b, "demand_rate_changed", when=what, hour=h, before=a, after=b)


def run(sc, ctx):
    with ops.Scratch() as d:
        uc = tariffs.build(sc["tariff"], d)
        r = runs.build(sc["run"])
        bill = runs.bills(r, uc)
        ctx.sim_min += sc["run"]["n"] * sc["run"]["dt"]; ctx.steps += sc["run"]["n"]
        p = os.path.join(d, sc.get("name", "out.csv"))
        if sc["old"]:
            with open(p, "w", newline="") as f:
                f.write(OLD)
        outcome = "ok"
        if sc["faults"]:
            f = dict(sc["faults"][0])
            if f["at"] < 0:                               # near the end of the file
                q = os.path.join(d, "size.csv")
                uc.to_csv(q)
                f["at"] = max(0, os.path.getsize(q) + f["at"])
            fs = FaultFS([d], [f], ctx)
            with fs:
                try:
                    uc.to_csv(p)
                except Crash:
                    outcome = "crashed"
                except OSError:
                    outcome = "error"
            hit = [x["kind"] for x in fs.hits]
            real = [h for h in hit if h != "short_write"]
            if outcome == "ok" and real:
                ctx.fail("failed_export_not_reported", fault=f, size=os.path.getsize(p))
            if outcome == "error" and not real:
                ctx.fail("export_error_without_fault", fault=f)
            if outcome == "error":
                ctx.check(not fs.still_open(), "file_left_open", fault=f)
            inp = "none"
            if sc["old"] and outcome != "ok" and os.path.exists(p) and open(p, newline="").read() == OLD:
                inp = "untouched"       # the previous file is still there, whole: nothing of the failed export is
            elif os.path.exists(p) and not (outcome == "error" and f["kind"] in WRITE_OPEN):
                size = os.path.getsize(p)
                try:
                    uc2 = imp(p, sc["handle"])
                    inp = "accepted"
                except Exception as e:
                    inp = "refused"
                if inp == "accepted":
                    same(ctx, uc, uc2, r, bill, f"after {outcome} export ({size} bytes on disk, {f['kind']} at {f['at']})")
                else:
                    ctx.check(outcome != "ok", "good_export_refused", fault=f)
                ctx.probe("partial_" + inp)
                ctx.probe("nontrivial")
            ctx.state(sc["tariff"]["kind"], hit, outcome, inp)
            ctx.log(outcome, inp, hit)
        # (re)try without faults
        cur = uc
        for g in range(sc["gens"]):
            cur.to_csv(p)
            cur = imp(p, sc["handle"])
            same(ctx, uc, cur, r, bill, f"generation {g + 1}")
            ctx.probe("roundtrip")
        ctx.probe("nontrivial")
        ctx.log(bill)
        ctx.state(sc["tariff"]["kind"], bool(sc["tariff"].get("p", {}).get("include_discount")), outcome)
        ctx.sample = {"annual_bill": bill["annual"], "export": outcome}
