"""C17: a copied or transferred system continues exactly like the original and shares nothing with it."""
import copy, json, pickle
from .. import core, ops, tariffs, world

N_QUICK, N_THOROUGH = 260, 9000
LEVEL = "exploration"
TECH = "seeded snapshot points (deep copy, pickle, another process) in a seeded history, interleaved continuation against the uncopied execution"
RULE = ("one execution = one system taken to a seeded state (finished, early-stopped or aborted runs, queries), copied 1-3 times there, originals and copies then "
        "stepped and used in a seeded interleaving, one copy in another process; it counts when at least one continuation and one request were compared")
REAL = ["EcosizerEngine", "DHWSystem and all subclasses, tanks, heaters, maps", "Building, ClimateZone", "SimulationRun, UtilityCostTracker", "pickle and copy of all of them"]
STUB = ["data-source queries pass through a wrapper that disturbs or aborts runs before the snapshot (removed while copying)"]
ASSUME = ["copies are made with copy.deepcopy or pickle between calls, not during one", "the receiving process has the same package version"]
LISTS = ("before", "after")
STATE_MEASURE = "distinct (schematic, last operation before the snapshot, way of copying, operation) tuples"
HOWS = ["deep", "pickle", "pickle0", "twice"]


def gen_op(rng, cfg, pre):
    kinds = ["sim3", "sim3", "sizing", "curve", "lscurve", "er", "plotsim", "plotcurve", "probe", "simA"]
    while True:
        k = rng.choice(kinds)
        if not ops.applicable(cfg, k) or k == "simA" and rng.random() < .9:
            continue
        if cfg["schematic"] == "multi_pass_rtp" and k in ("curve", "plotcurve", "simA") and rng.random() < .8:
            continue
        break
    op = ops.gen_probe(rng) if k == "probe" else {"op": k}
    if pre and k in ("sim3", "simA", "curve", "lscurve", "plotsim") and rng.random() < .4:
        op["fail"] = int((20000 if k in ("sim3", "simA", "plotsim") else 60) ** rng.random())
    if pre and k == "sim3" and rng.random() < .4:
        op["events"] = world.gen_events(rng, 4320, kinds=["spike", "nodraw", "coldin", "coldsnap"])
    if k == "sim3" and rng.random() < .3:
        op["kw"] = {"outlet_deficit_threshold_f": rng.choice([-30.0, 0.0, 5.0]), "outlet_deficit_max_min": rng.choice([0, 60, 10**7])}
    return op


def gen(rng, i, tier):
    s = rng.choices(world.CHEAP + ["swing_er", "instant_wh", "multi_pass_rtp"], [5, 5, 6, 5, 3, 1, 2])[0]
    cfg = ops.gen_cfg(rng, schematic=s, rich=.3, **({"btype": "multi_family"} if rng.random() < .5 else {}), **({"ls": True} if rng.random() < .4 and s != "swing_er" else {}))
    hows = [rng.choice(HOWS) for _ in range(rng.choice([1, 1, 2, 3]))]
    before = [gen_op(rng, cfg, True) for _ in range(rng.randrange(0, 4))]
    if not any(o["op"] in ("sim3", "simA") for o in before):
        before.append({"op": "sim3"})
    after = [dict(gen_op(rng, cfg, False), who=rng.randrange(0, len(hows) + 1)) for _ in range(rng.randrange(1, 5))]
    spoil = []
    if ops.applicable(cfg, "annual"):
        spoil.append("annual")
    if s != "swing_er":
        spoil += ["rebuild", "size"] if not ops.size_changes(cfg) else ["rebuild"]
    return {"cfg": cfg, "hows": hows, "before": before, "after": after, "steps": rng.choice([0, 30, 200, 700]), "t0": rng.choice([0, 4320, 1020, 230000]),
            "dt": rng.choice([1, 1, 10]), "order": rng.getrandbits(30), "spoil": rng.choice(spoil) if spoil and rng.random() < .5 else None, "tariff": tariffs.gen(rng)}


def simplify(sc):
    if len(sc["hows"]) > 1:
        for j in range(len(sc["hows"])):
            yield dict(sc, hows=[sc["hows"][j]], after=[dict(o, who=min(o["who"], 1)) for o in sc["after"]])
    if sc["spoil"]:
        yield dict(sc, spoil=None)
    if sc["steps"] > 30:
        yield dict(sc, steps=30)
    for i, op in enumerate(sc["before"]):
        for f in ("events", "kw", "fail"):
            if f in op:
                h = list(sc["before"]); h[i] = {k: v for k, v in op.items() if k != f}
                yield dict(sc, before=h)


def do(rig, op, d):
    with world.Env(rig.pair, op.get("events", ()), fail_at=op.get("fail")):
        return ops.perform(rig, op, core.Ctx(), d)


def reference(cfg, op):
    core._mute()
    with ops.Scratch() as d:
        return do(ops.Rig(cfg), op, d)


def parts(rig, uc):
    return (rig.engine, rig.system, rig.building, getattr(rig, "last_run", None), uc)


def duplicate(rig, uc, how):
    p = parts(rig, uc)
    if how == "deep":
        q = copy.deepcopy(p)
    elif how == "twice":
        q = copy.deepcopy(pickle.loads(pickle.dumps(p)))
    else:
        q = pickle.loads(pickle.dumps(p, 0 if how == "pickle0" else pickle.HIGHEST_PROTOCOL))
    return assemble(rig.cfg, q)


def assemble(cfg, q):
    r = ops.Rig.__new__(ops.Rig)
    r.cfg = cfg
    r.engine, r.system, r.building, r.last_run, uc = q
    return r, uc


def step(rig, sc, n):
    s = rig.system.simulate_step(building=rig.building, timestep_interval=sc["t0"] // sc["dt"] + n, interval_min=sc["dt"])
    return core.digest(s)


def bill(rig, uc, d):
    r = getattr(rig, "last_run", None)
    if r is None:
        return None
    return core.canon([world.run_digest(r), ops.perform(rig, {"op": "csv"}, core.Ctx(), d), r.get_monthly_energy_kwh(), r.get_annual_utility_cost(uc),
                       r.get_monthly_cost_breakdown_detailed(uc)])


def home(sc):
    """Builds, uses and copies in one process."""
    import random
    core._mute()
    rng = random.Random(sc["order"])
    out = {"after": [], "outcomes": []}
    with ops.Scratch() as d:
        rig = ops.try_rig(sc["cfg"])
        uc = tariffs.build(sc["tariff"], d)
        for op in sc["before"]:
            try:
                do(rig, op, d)
                out["outcomes"].append(op["op"] + ":ok")
            except world.EnvFault:
                out["outcomes"].append(op["op"] + ":aborted")
            except Exception as e:
                if not core.from_repo(e):
                    raise
                out["outcomes"].append(op["op"] + ":refused")
        out["bytes"] = pickle.dumps(parts(rig, uc))
        all_ = [(rig, uc)] + [duplicate(rig, uc, h) for h in sc["hows"]]
        if sc["spoil"]:         # one more copy is changed for good; nobody else may notice
            x, _ = duplicate(rig, uc, rng.choice(HOWS))
            if sc["spoil"] == "annual":
                x.building.set_to_annual_load_shape()
            elif sc["spoil"] == "rebuild":
                x.engine.magnitude = x.engine.magnitude * 3 if isinstance(x.engine.magnitude, (int, float)) else x.engine.magnitude
                x.engine.build()
            else:
                x.building.daily_dhw_use_supplyT_gal *= 1.5
                ops.perform(x, {"op": "size"}, core.Ctx(), d)
            if x.last_run is not None:
                x.last_run.oat_f.clear()
        out["bills"] = [bill(r, u, d) for r, u in all_]
        tr = [[] for _ in all_]
        todo = [w for w in range(len(all_)) for _ in range(sc["steps"])]
        rng.shuffle(todo)
        for w in todo:
            tr[w].append(step(all_[w][0], sc, len(tr[w])))
        out["trails"] = tr
        for op in sc["after"]:
            w = op["who"] % len(all_)
            o = {k: v for k, v in op.items() if k != "who"}
            try:
                out["after"].append(["ok", do(all_[w][0], o, d)])
            except Exception as e:
                if not core.from_repo(e):
                    raise
                out["after"].append(["exc", type(e).__name__])
    return out


def away(sc, data):
    """The snapshot arrives in a process that has built nothing."""
    core._mute()
    rig, uc = assemble(sc["cfg"], pickle.loads(data))
    with ops.Scratch() as d:
        b = bill(rig, uc, d)
        trail = [step(rig, sc, n) for n in range(sc["steps"])]
        first = sc["after"][0] if sc["after"] else {"op": "sizing"}
        o = {k: v for k, v in first.items() if k != "who"}
        try:
            a = ["ok", do(rig, o, d)]
        except Exception as e:
            if not core.from_repo(e):
                raise
            a = ["exc", type(e).__name__]
    return {"bill": b, "trail": trail, "after": a}


def run(sc, ctx):
    refs = {}

    def ref(op):
        o = {k: v for k, v in op.items() if k != "who"}
        k = json.dumps(o, sort_keys=True)
        if k not in refs:
            refs[k] = core.fork_call(reference, sc["cfg"], o, timeout=120)
            if refs[k][0] not in ("ok", "exc", "rej"):
                raise core.HarnessError(str(refs[k])[:1500])
        return list(refs[k][:2])
    r = core.fork_call(home, sc, timeout=170)
    if r[0] == "rej":
        raise core.Rejected(r[1])
    if r[0] == "exc":
        ctx.fail("copy_or_use_of_copy_fails", error=r[1], trace=r[2][-1200:])
    if r[0] != "ok":
        raise core.HarnessError(str(r)[:2500])
    h = r[1]
    names = ["original"] + sc["hows"]
    for o in sc["before"]:
        if o.get("events"):
            ctx.fault("disturbed_before_snapshot")
    for o in h["outcomes"]:
        if o.endswith("aborted"):
            ctx.fault("run_aborted_before_snapshot")
    for w in range(1, len(names)):
        ctx.check(h["bills"][w] == h["bills"][0], "copied_result_differs", copy=names[w], original=str(h["bills"][0])[:300], here=str(h["bills"][w])[:300])
        bad = [n for n, (a, b) in enumerate(zip(h["trails"][0], h["trails"][w])) if a != b]
        ctx.check(not bad, "copy_continues_differently", copy=names[w], first_step=bad[:1], of=sc["steps"], before=h["outcomes"])
    for op, got in zip(sc["after"], h["after"]):
        want = ref(op)
        w = names[op["who"] % len(names)]
        if got != want:
            diff = world.diff_runs(want[1], got[1]) if got[0] == want[0] == "ok" and isinstance(got[1], dict) and "oat_f" in got[1] else {"want": str(want)[:300], "got": str(got)[:300]}
            ctx.fail("result_differs_from_fresh_system", op=op, who=w, before=h["outcomes"], spoiled=sc["spoil"], diff=diff)
        ctx.probe("same_" + op["op"])
        ctx.state(sc["cfg"]["schematic"], h["outcomes"][-1] if h["outcomes"] else "", w, op["op"])
    a = core.fork_call(away, sc, h["bytes"], timeout=150)
    if a[0] == "exc":
        ctx.fail("transferred_system_fails", error=a[1], trace=a[2][-1200:])
    if a[0] != "ok":
        raise core.HarnessError(str(a)[:2500])
    a = a[1]
    ctx.check(a["bill"] == h["bills"][0], "transferred_result_differs", here=str(a["bill"])[:300], original=str(h["bills"][0])[:300])
    bad = [n for n, (x, y) in enumerate(zip(h["trails"][0], a["trail"])) if x != y]
    ctx.check(not bad, "transferred_system_continues_differently", first_step=bad[:1], before=h["outcomes"])
    want = ref(sc["after"][0] if sc["after"] else {"op": "sizing"})
    ctx.check(a["after"] == want, "transferred_system_differs_from_fresh_system", op=sc["after"][:1], got=str(a["after"])[:300], want=str(want)[:300])
    ctx.fault("snapshot", len(sc["hows"])); ctx.fault("process_change")
    ctx.fault("interleaved_steps", sc["steps"] * len(names))
    ctx.sim_min += sc["steps"] * sc["dt"] * (len(names) + 1) + 4320 * sum(o["op"] == "sim3" for o in sc["before"] + sc["after"])
    ctx.steps += sc["steps"] * (len(names) + 1)
    ctx.log(h["outcomes"], h["trails"][0][-1:], h["bills"][0], [core.digest(x) for x in h["after"]])
    ctx.sample = {"before": h["outcomes"], "copies": sc["hows"], "after": [o["op"] for o in sc["after"]]}
    if sc["after"] and (sc["steps"] or h["bills"][0] is not None):
        ctx.probe("nontrivial")
