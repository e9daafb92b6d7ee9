"""C01: a result depends on its inputs, not on what was run earlier.

Each execution drives one system through a seeded history (complete, disturbed, early-stopped and aborted runs,
sizing, curves, plots, exports, rebuilds, other systems in the same process).  Every comparable operation result
must be exactly the result of the same request on a freshly built identical system in a pristine process.
"""
import json
from .. import core, ops, world

N_QUICK, N_THOROUGH = 300, 8000
LEVEL = "exploration"
TECH = "seeded operation histories with aborted runs, differential against a pristine process"
RULE = ("one execution = one seeded history of 2-8 operations on one system; it counts when at least one operation after the "
        "first was compared with a pristine-process reference and its history digest differs from all others")
REAL = ["EcosizerEngine", "DHWSystem and all subclasses", "Simulator", "SimulationRun", "Building", "ClimateZone", "PerformanceMap",
        "tanks", "plotly figure construction"]
STUB = ["building demand/weather source and equipment map queries pass through a wrapper that can disturb or fail them"]
ASSUME = ["exact equality is required only between two executions of the same code",
          "the history is sequential: concurrency is C02"]
LISTS = ("history",)
STATE_MEASURE = "distinct (schematic, previous operation and its outcome, current operation) triples"

KINDS = ["sim3", "sim3", "sim3", "simA", "curve", "lscurve", "plotcurve", "plotsim", "size", "sizing", "er", "er", "ercurve",
         "toggle", "rebuild", "csv", "costs", "other", "query", "simb", "curveb", "probe", "probe"]


def gen_op(rng, cfg, tier):
    while True:
        k = rng.choice(KINDS)
        if k != "other" and not ops.applicable(cfg, k):
            continue
        if k == "size" and ops.size_changes(cfg):
            continue        # sizing a pre-sized (or boosted) system legitimately changes its sizing results
        mp = cfg["schematic"] == "multi_pass_rtp"
        if mp and k in ("curve", "plotcurve", "simA", "simb") and rng.random() < 0.8:
            continue
        if k == "simA" and rng.random() < (0.88 if tier == "quick" else 0.5):
            continue
        break
    op = {"op": k}
    if k in ("simb", "curveb"):
        op = ops.gen_other_building(rng, k)
    if k == "probe":
        op = ops.gen_probe(rng)
    if k in ("sim3", "simA"):
        if rng.random() < 0.4:
            op["kw"] = {"outlet_deficit_threshold_f": rng.choice([-30.0, 0.0, 5.0]), "outlet_deficit_max_min": rng.choice([0, 10, 60, 10**7])}
        if rng.random() < 0.4:
            op["events"] = world.gen_events(rng, 4320, kinds=["spike", "nodraw", "coldin", "coldsnap"])
            for e in op["events"]:
                if "d" in e and rng.random() < 0.6:     # also conditions close to the undisturbed ones
                    e["d"] = rng.choice([0.3, -0.4, e["d"] + 0.37, -55.0 if e["k"] == "coldsnap" else 0.2])
                    if rng.random() < 0.5:
                        e["a"], e["b"] = 0, 525600
    if k in ("curve", "lscurve", "plotcurve") and rng.random() < 0.4:
        op["kw"] = {"strat_slope": rng.choice([1.0, 2.0, 3.5])}
        if k == "curve" and rng.random() < 0.5:
            op["kw"]["step"] = rng.choice([0.5, 1.0])
    if k in ("er", "ercurve") and rng.random() < 0.6:
        op["kw"] = {"additional_er_safety": rng.choice([1.2, 1.5])}
    if k in ("sim3", "simA", "curve", "lscurve", "plotcurve", "plotsim", "size", "er", "ercurve") and rng.random() < 0.3:
        hi = 20000 if k in ("sim3", "simA", "plotsim") else 60 if k not in ("er", "ercurve") else 30000
        op["fail"] = int(hi ** rng.random())
    if k == "other":
        op["cfg"] = ops.gen_cfg(rng, schematic=rng.choice(world.CHEAP + ["instant_wh"]))
    if k == "costs":
        op["tariff"] = ops.TARIFF
    if k == "query":
        op.update(ops.gen_lookup(rng))
    return op


def near(rng, cfg):
    """The same few requests again and again under conditions that differ a little."""
    out = []
    for _ in range(rng.randrange(3, 6)):
        k = rng.choice(["sim3", "sim3", "sim3", "curve", "lscurve", "plotcurve", "er", "simb", "curveb", "probe", "probe"])
        if not ops.applicable(cfg, k):
            k = "sim3"
        op = {"op": k}
        if k == "probe":
            out.append(ops.gen_probe(rng))
            continue
        if k in ("simb", "curveb"):
            out.append(ops.gen_other_building(rng, k))
            continue
        if k == "sim3" and rng.random() < 0.7:
            op["events"] = [{"k": kk, "a": 0, "b": 525600, **({"f": rng.choice([0.98, 1.01, 1.1])} if kk == "spike" else {"d": rng.choice([0.3, -0.3, 0.45, 1.2])})}
                            for kk in ("coldsnap", "coldin", "spike") if rng.random() < 0.6]
        elif k == "er":
            op["kw"] = {"additional_er_safety": rng.choice([1.0, 1.2, 1.5])}
        elif k != "sim3" and rng.random() < 0.7:
            op["kw"] = {"strat_slope": rng.choice([1.0, 2.8, 3.5])}
        out.append(op)
    return out


def gen(rng, i, tier):
    if i % 12 == 9:
        cfg = ops.gen_cfg(rng, schematic=rng.choice(world.CHEAP + ["swing_er", "instant_wh"]), presized=rng.random() < 0.75)
        if "heating_capacity_kbtuh" in cfg and cfg["schematic"] in world.CHEAP:
            cfg["hpwh_model"] = rng.choice(world.models()[0])
            cfg["num_heaters"] = max(1, round(cfg.pop("heating_capacity_kbtuh") / 60))
        return {"cfg": cfg, "history": near(rng, cfg)}
    if i % 12 == 7:         # several heaters, a schedule that starts in shed: what a run leaves on stays on unless reset
        cfg = ops.gen_cfg(rng, schematic=rng.choice(world.CHEAP), presized=True, ls=True, models_ok=False)
        cfg["num_heaters"] = rng.choice([2, 3, 4])
        cfg["load_shift_schedule"] = [0] * rng.randrange(1, 4) + cfg["load_shift_schedule"][4:] + [1] * 4
        cfg["load_shift_schedule"] = cfg["load_shift_schedule"][:24] + [1] * (24 - len(cfg["load_shift_schedule"]))
        hist = []
        for _ in range(rng.randrange(2, 5)):
            hist.append(rng.choice([{"op": "sim3"}, {"op": "sim3", "fail": int(20000 ** rng.random())}, {"op": "plotsim", "fail": int(20000 ** rng.random())},
                                    {"op": "sim3", "kw": {"outlet_deficit_max_min": 0, "outlet_deficit_threshold_f": rng.choice([0.0, -25.0])}}]))
        return {"cfg": cfg, "history": hist + [{"op": "sim3"}]}
    s = rng.choices(world.CHEAP + ["swing_er", "instant_wh", "multi_pass_rtp"], [5, 5, 7, 5, 4, 1, 2])[0]
    cfg = ops.gen_cfg(rng, schematic=s, rich=.35, **({} if rng.random() < 0.5 else {"btype": "multi_family"}))
    if "heating_capacity_kbtuh" in cfg and s in world.CHEAP and rng.random() < 0.4:
        cfg["hpwh_model"] = rng.choice(world.models()[0])       # more real equipment
        cfg["num_heaters"] = max(1, round(cfg.pop("heating_capacity_kbtuh") / 60))
    if s == "multi_pass_rtp" and "storage_volume_storageT_gal" not in cfg and rng.random() < 0.5:
        tail = [{"op": rng.choice(["sizing", "sim3", "sizing", "plotsim"])} for _ in range(2)]
        return {"cfg": cfg, "history": [{"op": "curve"}] + tail}
    if i % 12 == 5:         # lookups around one another, and one system between them
        return {"cfg": cfg, "history": [ops.gen_lookup(rng) for _ in range(rng.randrange(4, 9))] + [{"op": "sim3"}]}
    hist = [gen_op(rng, cfg, tier) for _ in range(rng.randrange(2, 9 if tier == "quick" else 13))]
    if cfg["schematic"] == "multi_pass_rtp":
        hist = hist[:4]
    if ops.size_changes(cfg) and rng.random() < (0.3 if s != "swing_er" else 0.8):
        hist.append({"op": "size"})     # last: sizing a pre-sized system legitimately adds sizing results to it
    return {"cfg": cfg, "history": hist}


def simplify(sc):
    for i, op in enumerate(sc["history"]):
        for f in ("events", "kw", "fail"):
            if f in op:
                h = list(sc["history"]); h[i] = {k: v for k, v in op.items() if k != f}
                yield dict(sc, history=h)


COMPARED = {"sim3", "simA", "curve", "lscurve", "plotcurve", "plotsim", "size", "sizing", "er", "ercurve",
            "toggle", "rebuild", "query", "simb", "curveb", "probe"}


def one(rig, op, ctx, d):
    env = world.Env(rig.pair, op.get("events", ()), fail_at=op.get("fail"), ctx=ctx)
    with env:
        return ops.perform(rig, op, ctx, d)


def reference(cfg, op):
    core._mute()
    ctx = core.Ctx()
    with ops.Scratch() as d:
        rig = ops.Rig(cfg)
        ref_op = {k: v for k, v in op.items() if k != "fail"}
        return one(rig, ref_op, ctx, d)


def run(sc, ctx):
    cfg = sc["cfg"]
    refs = {}

    def need(c, op):
        key = json.dumps([c, {k: v for k, v in op.items() if k != "fail"}], sort_keys=True)
        if key not in refs:
            r = core.fork_call(reference, c, op)
            refs[key] = r
        return key
    plan = []
    for op in sc["history"]:
        if op["op"] == "other":
            plan.append(need(op["cfg"], {"op": "sim3"}))
        elif op["op"] in COMPARED:
            plan.append(need(cfg, op))
        else:
            plan.append(None)
    rig = ops.try_rig(cfg)
    prev, compared, sized = "new", 0, False
    with ops.Scratch() as d:
        for n, (op, key) in enumerate(zip(sc["history"], plan)):
            k = op["op"]
            ref = refs.get(key)
            outcome = "ok"
            try:
                if k == "other":
                    got = one(ops.Rig(op["cfg"]), {"op": "sim3"}, ctx, d)
                else:
                    got = one(rig, op, ctx, d)
            except world.EnvFault:
                outcome, got = "aborted", None
            except Exception as e:
                if ref is not None and ref[0] == "exc" and ref[1] == type(e).__name__:
                    outcome, got = "refused", None        # the same refusal as on a fresh system
                elif ref is None or not core.from_repo(e):
                    raise
                else:
                    ctx.fail("different_outcome", step=n, op=op, error=repr(e), reference=str(ref)[:300])
            ctx.state(cfg["schematic"], prev, k)
            if outcome == "ok" and ref is not None:
                if ref[0] != "ok":
                    if ref[0] in ("exc",):
                        ctx.fail("different_outcome", step=n, op=op, got="completed", reference=ref[1])
                    raise core.HarnessError(str(ref))
                if k == "sizing" and sized:
                    pass        # an explicit size() may legitimately change the report
                else:
                    want = ref[1]
                    if got != want:
                        diff = world.diff_runs(want, got) if isinstance(got, dict) and "oat_f" in got else {"want": str(want)[:300], "got": str(got)[:300]}
                        ctx.fail("result_depends_on_history", step=n, op=op, history=[o["op"] for o in sc["history"][:n]], diff=diff)
                    ctx.probe("compared_" + k)
                    if n > 0:
                        compared += 1
            if k == "size":
                sized = True
            if k == "rebuild" and outcome == "ok":
                sized = False
            if isinstance(got, dict) and got.get("stopped"):
                ctx.probe("early_stopped_run")
            ctx.log(k, outcome, core.digest(got))
            ctx.probe("outcome_" + outcome)
            prev = k + ":" + outcome
    ctx.sample = {"ops": [o["op"] for o in sc["history"]], "compared": compared}
    if compared:
        ctx.probe("nontrivial")
