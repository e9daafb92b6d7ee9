"""C02: independent systems used from several threads behave as if used one by one."""
import json, os
from .. import core, ops, requests, runs, sched, tariffs, world

N_QUICK, N_THOROUGH = 480, 20000
LEVEL = "exploration"
TECH = "seeded thread scheduler with preemption at line events, differential against running alone"
RULE = ("one execution = 2-4 real threads with their own operation lists, one running at a time, switched at seeded line events of repository "
        "code; it counts when at least one switch happened inside repository code and every result was compared with a run alone")
REAL = ["EcosizerEngine", "DHWSystem subclasses", "Building", "ClimateZone", "PerformanceMap", "Simulator", "SimulationRun", "UtilityCostTracker"]
STUB = ["the operating system's thread scheduler (seeded, one thread at a time, switches at line events of the package)",
        "locks created by the package (cooperative)"]
ASSUME = ["a switch can happen before any line (in a fifth of the executions any bytecode instruction) of repository code, not inside C extensions",
          "each thread uses its own systems; only tariffs, weather zones and package-level catalogues are shared"]
LISTS = ("slices",)
STATE_MEASURE = "distinct (function the running thread was in, function the resumed thread was in) pairs at context switches"
TIMEOUT = 240
prepare = sched.install_locks


def gen_op(rng, cfgs, shared, heavy):
    k = rng.choices(["req", "build", "sim3", "curve", "bill", "szone", "sbuild", "tariff", "plot", "size", "export", "timport", "tank"],
                    [6, 4, 2.5 if heavy else .6, 1, 2, 1.5, 1.5, 1.5, .5, 1, 1, 1, 1])[0]
    if k == "tank":
        return a_tank(rng)
    if k in ("export", "timport"):
        return an_export(rng, k)
    if k == "req":
        return {"op": k, "q": requests.gen_request(rng)}
    if k in ("build", "sim3", "curve", "plot", "size"):
        c = rng.choice(cfgs)
        if k == "curve" and not ops.applicable(c, "curve") or k == "size" and "storage_volume_storageT_gal" in c:
            k = "build"
        return {"op": k, "cfg": c}
    if k == "bill":
        r = runs.gen(rng)
        r.update(n=min(r["n"], 1500))
        return {"op": k, "run": r}
    if k == "tariff":
        return {"op": k, "t": tariffs.gen(rng), "run": dict(runs.gen(rng), n=60)}
    return {"op": k, "type": rng.choice(world.BTYPES), "mag": rng.randrange(5, 200)}


def an_export(rng, k):
    if k == "timport":
        return {"op": k, "t": tariffs.gen(rng), "run": dict(runs.gen(rng), n=60)}
    return {"op": k, "run": dict(runs.gen(rng), n=rng.choice([30, 120]))}


def a_tank(rng):
    """A storage tank of the caller's own, driven directly, often down to its last hot water."""
    kind = rng.choice(["strat", "strat", "energy", "slug", "mixed"])
    V = float(rng.choice([80, 300, 1000]))
    seq = [[rng.choice(["draw", "draw", "phys", "heat", "recirc"] if kind != "slug" else ["phys", "act", "hslug", "deact"]),
            round(V * 10 ** rng.uniform(-2, -.3), 3)] for _ in range(rng.randrange(8, 30))]
    return {"op": "tank", "kind": kind, "V": V, "cold": round(rng.uniform(38, 60), 1), "sup": 120.0, "stor": rng.choice([140.0, 150.0, 160.0]), "seq": seq}


def drive_tank(op):
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.EnergyTank import EnergyTank
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    V, cold, sup, stor, kind = (op[k] for k in ("V", "cold", "sup", "stor", "kind"))
    t = StratifiedTank(V) if kind == "strat" else MixedStorageTank(V) if kind == "mixed" else \
        EnergyTank(V, cold, stor) if kind == "energy" else SlugOverlayTank(V, cold, stor, sup)
    t.initialize(stor, cold, .7)
    out = []
    for k, g in op["seq"]:
        q = g * .5
        if k == "draw":
            t.draw(g, cold, sup, stor)
        elif k == "phys":
            t.draw_physical_gal(g, cold, **({"update_internal_cold_temp": False} if kind == "slug" else {}))
        elif k == "heat":
            t.heat(q, 60, stor)
        elif k == "recirc":
            t.add_recirc_return(g / 20, sup - 5, 10)
        elif k == "act":
            t.activate_slug(sup)
        elif k == "hslug":
            t.heat_slug(q, 60)
        else:
            t.deactivate_slug()
        out.append([t.get_usable_volume_supplyT_gal(sup), t.get_average_draw_temp_f(V / 4)] + [t.get_temperature_at_fraction(f / 4) for f in range(5)])
    return out


def storm(rng):
    """First use: several threads make the same kind of look-up at once, preempted at lines that run for the first time."""
    kind = rng.choice(["req", "req", "req", "req", "build", "size", "tariff"])
    cfgs = [world.gen_config(rng, schematic=rng.choice(world.CHEAP + ["instant_wh"])) for _ in range(2)]
    if kind == "req":
        first = requests.gen_request(rng)
        threads = []
        for t in range(rng.choice([2, 2, 3])):
            q = requests.gen_request(rng, kind=first["r"]) if rng.random() < .6 else first
            threads.append([{"op": "req", "q": q}] + [{"op": "req", "q": requests.gen_request(rng)} for _ in range(rng.randrange(2))])
    elif kind in ("build", "size", "curve"):
        if kind == "size":
            cfgs = [world.gen_config(rng, schematic=rng.choice(world.CHEAP), presized=False) for _ in range(2)]
        threads = [[{"op": "build" if kind == "curve" and not ops.applicable(c, "curve") else kind, "cfg": c}]
                   for c in (rng.choice(cfgs) for _ in range(rng.choice([2, 2, 3])))]
    else:
        threads = [[{"op": "tariff", "t": tariffs.gen(rng), "run": dict(runs.gen(rng), n=60)}] for _ in range(2)]
    return threads, {"mode": "novel", "p": rng.choice([.02, .06, .2, .5]), "max": 400, "seed": rng.getrandbits(32)}


def twins(rng):
    """Two or three threads inside the same code with different inputs, switched every few lines."""
    kind = rng.choice(["sim3", "sim3", "model", "model", "size", "bill", "curve", "building", "zone", "tariff", "export", "timport", "tank", "tank"])
    n = 2 if kind in ("sim3", "curve") or rng.random() < .7 else 3
    sch = rng.choice(world.CHEAP + (["multi_pass_rtp"] * 2 if kind == "sim3" else []))

    def one():
        if kind in ("sim3", "size", "curve"):
            c = world.gen_config(rng, schematic=sch, presized=kind == "sim3" and (sch == "multi_pass_rtp" or rng.random() < .5))
            if "storage_volume_storageT_gal" in c and rng.random() < .5:
                c["storage_volume_storageT_gal"] = round(c["storage_volume_storageT_gal"] * rng.choice([.1, .4]), 1)
            if kind == "sim3" and sch in ("swing_tank", "single_pass_rtp") and rng.random() < .3:
                # a year at its own step length that ends early: far too little heat
                c = world.gen_config(rng, schematic=sch, presized=True, models_ok=False, margin=rng.choice([.02, .3]))
                c["storage_volume_storageT_gal"] = 30.0
                return {"op": "simA", "cfg": c}
            return {"op": kind, "cfg": c} if kind != "curve" or ops.applicable(c, "curve") else {"op": "build", "cfg": c}
        if kind == "bill":
            return {"op": kind, "run": dict(runs.gen(rng), n=400)}
        if kind == "tank":
            return a_tank(rng)
        if kind in ("export", "timport"):
            return an_export(rng, kind)
        if kind == "tariff":
            return {"op": kind, "t": tariffs.gen(rng), "run": dict(runs.gen(rng), n=60)}
        return {"op": "req", "q": requests.gen_request(rng, kind=kind)}
    pol = {"mode": "slices", "lo": 1, "hi": rng.choice([10, 40, 150]), "max": 6000, "seed": rng.getrandbits(32)}
    if rng.random() < .6:
        pol = {"mode": "geo", "first": rng.choice([1, 10, 100]), "grow": rng.choice([.5, 1.5, 4.0]), "max": 40000, "seed": rng.getrandbits(32)}
    return [[one()] for _ in range(n)], pol


def gen(rng, i, tier):
    sc = gen_lines(rng, i, tier)
    sc["one_dir"] = rng.random() < .5
    if rng.random() < .2 and not any(o["op"] in ("curve", "sim3", "simA", "plot", "size") for th in sc["threads"] for o in th):
        sc["policy"]["unit"] = "op"
        if sc["policy"]["mode"] == "slices":
            sc["policy"]["hi"] *= 6
    return sc


def gen_lines(rng, i, tier):
    if i % 6 == 4:
        threads, pol = twins(rng)
        return {"threads": threads, "policy": pol, "zone": rng.choice(world.ZONES), "tariff": tariffs.gen(rng), "slices": None}
    if rng.random() < .5:
        threads, pol = storm(rng)
        return {"threads": threads, "policy": pol, "zone": rng.choice(world.ZONES), "tariff": tariffs.gen(rng), "slices": None}
    heavy = rng.random() < .35
    cfgs = [world.gen_config(rng, schematic=rng.choice(world.CHEAP + ["instant_wh"])) for _ in range(rng.randrange(1, 4))]
    same = rng.random() < .5
    nt = rng.choice([2, 2, 3, 4])
    threads = []
    pool = [gen_op(rng, cfgs, None, heavy) for _ in range(rng.randrange(1, 4))]
    for t in range(nt):
        threads.append([rng.choice(pool) if same and rng.random() < .7 else gen_op(rng, cfgs, None, heavy) for _ in range(rng.randrange(1, 4))])
    m = rng.random()
    if m < .25:
        pol = {"mode": "geo", "first": rng.choice([1, 30]), "grow": rng.choice([.5, 1.5, 4.0]), "max": 40000}
    elif m < .5:
        pol = {"mode": "hot", "of": rng.choice([1, 2, 4, 12, 30]), "salt": rng.getrandbits(20), "p": rng.choice([.02, .2, .5, .9]), "max": rng.choice([300, 3000, 12000])}
    elif m < .75:
        pol = {"mode": "slices", "lo": 1, "hi": rng.choice([30, 300, 3000]), "max": 8000}
    else:
        pol = {"mode": "slices", "lo": rng.choice([20, 300]), "hi": rng.choice([3000, 40000, 200000]), "max": 8000}
    pol["seed"] = rng.getrandbits(32)
    return {"threads": threads, "policy": pol, "zone": rng.choice(world.ZONES), "tariff": tariffs.gen(rng), "slices": None}


def simplify(sc):
    n = len(sc["threads"])
    for t in range(n):
        for j in range(len(sc["threads"][t])):
            th = [list(x) for x in sc["threads"]]
            del th[t][j]
            yield dict(sc, threads=th)


def concretise(sc, res):
    """The seeded policy replaced by the slices it took."""
    s = (res.get("extra") or {}).get("slices")
    return dict(sc, slices=s) if s else sc


class Shared:
    def __init__(self, sc, d):
        ks = {op["op"] for th in sc["threads"] for op in th}
        if ks & {"szone", "sbuild"}:        # otherwise nothing of the package runs before the threads start
            from ecoengine.objects.building.ClimateZone import ClimateZone
            self.zone = ClimateZone.from_zone_id(sc["zone"])
        if "bill" in ks:
            self.tariff = tariffs.build(sc["tariff"], d)


def perform(op, sh, d, tag=""):
    k = op["op"]
    if k == "req":
        return requests.perform(op["q"])
    if k == "build":
        e = world.make_engine(op["cfg"])
        return ops.sizing_of(e)
    if k in ("sim3", "simA", "curve", "plot", "size"):
        rig = ops.Rig(op["cfg"])
        name = {"plot": "plotsim"}.get(k, k)
        a = ops.perform(rig, {"op": name}, core.Ctx(), d)
        return [core.digest(a), a["outage"]] if k in ("sim3", "simA") else a
    if k == "bill":
        return runs.bills(runs.build(op["run"]), sh.tariff)
    if k == "tariff":
        sub = os.path.join(d, tag + "t"); os.makedirs(sub, exist_ok=True)
        return runs.bills(runs.build(op["run"]), tariffs.build(op["t"], sub))
    if k == "export":       # to the caller's own directory under a name other threads use in theirs, or beside their files
        p = os.path.join(d, tag + "out.csv")
        runs.build(op["run"]).to_csv(p)
        with open(p, newline="") as f:
            return core.digest(f.read())
    if k == "timport":
        from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
        sub = os.path.join(d, tag + "t"); os.makedirs(sub, exist_ok=True)
        p = os.path.join(d, tag + "rates.csv")
        tariffs.build(op["t"], sub).to_csv(p)
        with open(p, newline="") as f:
            text = f.read()
        return [core.digest(text), runs.bills(runs.build(op["run"]), UtilityCostTracker.from_csv(csv_path=p))]
    if k == "tank":
        return drive_tank(op)
    if k == "szone":
        return requests.zone_state(sh.zone)
    if k == "sbuild":
        from ecoengine.objects.building.Building import Building
        b = Building.from_building_type(op["type"], op["mag"], sh.zone, gpdpp=20.0)
        return [world.building_state(b), b.get_design_oat_f(), b.get_design_inlet_water_temp_f(),
                core.digest([[b.get_oat_f(t, 10), b.get_inlet_water_temp_f(t, 10)] for t in range(0, 52560, 1003)])]
    raise core.HarnessError(k)


def reference(sc, op):
    core._mute()
    with ops.Scratch() as d:
        return perform(op, Shared(sc, d), d)


def run(sc, ctx):
    refs = {}
    for th in sc["threads"]:
        for op in th:
            key = json.dumps(op, sort_keys=True)
            if key not in refs:
                refs[key] = core.fork_call(reference, sc, op)
                if refs[key][0] not in ("ok", "exc"):
                    raise core.HarnessError(str(refs[key])[:2000])
    with ops.Scratch() as d:
        sh = Shared(sc, d)

        def body(t):
            def go():
                out = []
                dd, tag = (d, f"{t}-") if sc.get("one_dir") else (os.path.join(d, f"th{t}"), "")
                os.makedirs(dd, exist_ok=True)
                for op in sc["threads"][t]:
                    try:
                        out.append(("ok", perform(op, sh, dd, tag)))
                    except Exception as e:
                        out.append(("exc" if core.from_repo(e) else "harness", type(e).__name__, core._tb(e)))
                return out
            return go
        s = sched.Scheduler([body(t) for t in range(len(sc["threads"]))], sc["policy"], sc.get("slices"), ctx)
        res = s.run()
    ctx.extra = {"slices": s.taken}
    ctx.fault("preemption", s.switches)
    ctx.steps += s.events
    if s.error:
        ctx.fail(s.error[0], **s.error[1])
    for t, (th, outs) in enumerate(zip(sc["threads"], res)):
        if not isinstance(outs, list):
            raise core.HarnessError(repr(outs))
        for n, (op, got) in enumerate(zip(th, outs)):
            ref = refs[json.dumps(op, sort_keys=True)]
            if got[0] == "harness":
                raise core.HarnessError(got[2])
            if got[0] != ref[0] or (got[0] == "exc" and got[1] != ref[1]):
                ctx.fail("outcome_depends_on_other_threads", thread=t, n=n, op=op, alone=str(ref[:2])[:300], got=str(got)[-700:])
            if got[0] == "ok" and got[1] != ref[1]:
                ctx.fail("result_depends_on_other_threads", thread=t, n=n, op=op, alone=str(ref[1])[:300], got=str(got[1])[:300])
            ctx.log(t, n, got[0], core.digest(got[1]))
            ctx.probe("compared_" + op["op"])
    ctx.log(core.digest(s.taken))
    ctx.sample = {"threads": [[o["op"] for o in th] for th in sc["threads"]], "switches": s.switches, "line_events": s.events}
    if s.switches > len(sc["threads"]):
        ctx.probe("nontrivial")
