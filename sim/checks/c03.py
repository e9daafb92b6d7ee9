"""C03: a failed operation leaves system and building as they were and can be retried."""
import contextlib, json
from .. import core, ops, world
from ..faultfs import FaultFS, READ_OPEN, READ_DATA, WRITE_OPEN

N_QUICK, N_THOROUGH = 300, 10000
LEVEL = "exploration"
TECH = "failure injected at a seeded source query or file operation, state comparison and retry against a pristine process"
RULE = ("one execution = one system taken through 1-4 operations, each first made to fail at a seeded point (n-th query of a data source, "
        "n-th file open or byte, n-th array allocation), then retried; it counts when a fault was reached, the state was compared and the retry was compared "
        "with a pristine-process reference")
REAL = ["EcosizerEngine", "DHWSystem and all subclasses", "Simulator", "Building", "ClimateZone", "PerformanceMap", "plotly export"]
STUB = ["building demand, weather and design-temperature queries and equipment-map queries pass through a wrapper that fails the chosen one",
        "file opens below the package data folder and the scratch folder go through a fault-injecting raw file"]
ASSUME = ["failures are exceptions raised by a data source, by file I/O or by a numpy call that runs out of memory", "one fault per attempt, several attempts per system"]
LISTS = ("attempts",)
STATE_MEASURE = "distinct (schematic, annual profile, operation, fault kind, decile of the failing query) tuples"
ALL = ("load", "oat", "inlet", "cap", "pow", "design")
TIMEOUT = 200


def gen(rng, i, tier):
    s = rng.choices(world.CHEAP + ["swing_er", "instant_wh", "multi_pass_rtp"], [5, 5, 7, 6, 4, 1, 3])[0]
    cfg = ops.gen_cfg(rng, schematic=s, rich=.3, **({} if rng.random() < 0.4 else {"btype": "multi_family"}), **({"ls": True} if rng.random() < .4 and s != "swing_er" else {}))
    annual = ops.applicable(cfg, "toggle") and rng.random() < .4 and s != "swing_er"
    kinds = [k for k in ("sim3", "simA", "size", "curve", "lscurve", "plotcurve", "plotsim", "er", "ercurve", "rebuild", "daily" if annual else "annual") if ops.applicable(cfg, k)]
    w = {"sim3": 2, "simA": .25, "size": 4, "curve": 2, "lscurve": 4, "plotcurve": 1.5, "plotsim": 1, "er": 4, "ercurve": 2, "rebuild": 3, "annual": 1.5, "daily": 1.5}
    if s == "multi_pass_rtp":
        w.update(simA=.02, curve=.5, plotcurve=.3, plotsim=.3)
    if ops.size_changes(cfg):
        w["size"] = 0
    if annual:
        w["rebuild"] = w["sim3"] = w["plotsim"] = 0
    n = rng.randrange(1, 4 if tier == "quick" else 6)
    if s == "multi_pass_rtp":
        n = min(n, 2)
    att = []
    for _ in range(n):
        k = rng.choices(kinds, [w[x] for x in kinds])[0]
        op = {"op": k}
        if k in ("plotcurve", "plotsim"):
            op["file"] = rng.random() < .6
            if k == "plotsim":
                op["temps"] = rng.random() < .5
        if k in ("er", "ercurve") and rng.random() < .7:
            op["kw"] = {"additional_er_safety": rng.choice([1.2, 1.5])}
        if k in ("curve", "lscurve", "plotcurve") and rng.random() < .3:
            op["kw"] = {"strat_slope": rng.choice([1.0, 2.0, 3.5])}
        if k == "rebuild" and rng.random() < .5 and isinstance(cfg.get("magnitude"), (int, float)):
            op["set"] = {"magnitude": cfg["magnitude"] + rng.choice([1, 7, 40])}
        fails = []
        for _ in range(rng.choice([1, 1, 2])):
            fails.append({"src": rng.choice(["env", "env", "file", "alloc"]), "u": rng.random(), "log": rng.random() < .3,
                          "kind": rng.choice(READ_OPEN + READ_DATA), "wkind": rng.choice(WRITE_OPEN + ["enospc", "eio_write", "eio_close"]),
                          "at": rng.choice([0, 0, 1, 200, 3000, 40000])})
        other = [x for x in ("sim3", "curve", "lscurve", "er") if x in kinds and x != k and w[x] and s != "multi_pass_rtp"]
        att.append({"op": op, "fails": fails, "then": {"op": rng.choice(other)} if other and rng.random() < .4 else None})
    if s == "multi_pass_rtp" and ops.size_changes(cfg) and "storage_volume_storageT_gal" not in cfg and rng.random() < .6:
        att[-1] = dict(att[-1], op={"op": "size"}, then=None)       # last: it replaces the boosted sizing
    return {"cfg": cfg, "annual": annual, "attempts": att}


def simplify(sc):
    for i, a in enumerate(sc["attempts"]):
        if a.get("then"):
            at = list(sc["attempts"]); at[i] = dict(a, then=None)
            yield dict(sc, attempts=at)
        for j in range(len(a["fails"])):
            if len(a["fails"]) > 1:
                at = list(sc["attempts"]); at[i] = dict(a, fails=a["fails"][:j] + a["fails"][j + 1:])
                yield dict(sc, attempts=at)
    if sc["annual"]:
        yield dict(sc, annual=False)


def prepared(sc):
    rig = ops.Rig(sc["cfg"])
    if sc["annual"]:
        rig.building.set_to_annual_load_shape()
    return rig


def attempt(rig, op, ctx, d, fail_at=None, faults=(), alloc_at=None, count=False):
    env = world.Env(rig.pair, (), fail_at=fail_at, ctx=ctx, kinds=ALL)
    fs = FaultFS([core.PKG + "data", d], faults, ctx)
    al = world.AllocFault(alloc_at, ctx)
    try:
        with env, fs, (al if count or alloc_at else contextlib.nullcontext()):
            return ("ok", ops.perform(rig, op, core.Ctx(), d), env, fs, al)
    except Exception as e:
        return ("exc", e, env, fs, al)


def reference(sc, op):
    core._mute()
    with ops.Scratch() as d:
        rig = prepared(sc)
        r = attempt(rig, op, None, d, count=True)
        if r[0] == "exc":
            raise r[1]
        modes = [m for _, m, _ in r[3].log]
        return {"got": r[1], "building": world.building_state(rig.building), "queries": r[2].queries, "allocs": r[4].n, "opens": ["w" if any(c in m for c in "wax+") else "r" for m in modes]}


def run(sc, ctx):
    refs = {}
    for o in [a["op"] for a in sc["attempts"]] + [a["then"] for a in sc["attempts"] if a.get("then")]:
        k = json.dumps(o, sort_keys=True)
        if k not in refs:
            refs[k] = core.fork_call(reference, sc, o, timeout=150)
            if refs[k][0] not in ("ok", "exc"):
                raise core.HarnessError(str(refs[k])[:2000])
    ops.try_rig(sc["cfg"])
    rig = prepared(sc)
    done = 0
    with ops.Scratch() as d:
        for n, a in enumerate(sc["attempts"]):
            op, ref = a["op"], refs[json.dumps(a["op"], sort_keys=True)]
            if ref[0] == "exc":
                ctx.probe("refused_op"); continue       # refused without any fault: outside the property
            want = ref[1]
            hit, moved_on = 0, False
            for f in a["fails"]:
                if moved_on:
                    break
                b0, s0, p0 = world.building_state(rig.building), ops.sizing(rig), ops.settings(rig)
                Q, O = want["queries"], want["opens"]
                src = f["src"]
                if src == "alloc" and not want["allocs"]:
                    src = "env"
                if src == "env" and Q == 0 or src == "file" and not O:
                    src = "file" if O else "env" if Q else None
                if src is None:
                    ctx.probe("op_without_sources"); continue
                if src == "env":
                    pos = 1 + int(Q ** f["u"] - 1e-9) if f["log"] else 1 + int(f["u"] * Q)
                    r = attempt(rig, op, ctx, d, fail_at=min(pos, Q))
                    fired, how = r[2].failed, "env"
                elif src == "alloc":
                    A = want["allocs"]
                    pos = 1 + int(A ** f["u"] - 1e-9) if f["log"] else 1 + int(f["u"] * A)
                    r = attempt(rig, op, ctx, d, alloc_at=min(pos, A))
                    fired, how = r[4].failed, "alloc"
                else:
                    pos = 1 + int(f["u"] * len(O))
                    kind = f["wkind"] if O[pos - 1] == "w" else f["kind"]
                    r = attempt(rig, op, ctx, d, faults=[{"open": pos, "kind": kind, "at": f["at"]}])
                    fired, how = bool(r[3].hits), kind
                moved_on = r[0] == "ok" and (op["op"] in ("annual", "daily") or bool(op.get("set")))    # went through despite the fault
                if fired and r[0] == "ok":
                    benign = how == "eintr_read" or (how not in ("env", "alloc") and O[pos - 1] == "r")
                    if not (benign and r[1] == want["got"]):
                        ctx.fail("failure_not_reported", op=op, fault=f, source=how)
                elif not fired and r[0] == "ok":
                    ctx.check(r[1] == want["got"], "wrong_result", op=op, fault=f)
                elif not fired:
                    ctx.fail("failed_without_fault", op=op, fault=f, error=repr(r[1])[:400])
                else:
                    if not core.from_repo(r[1]) and not isinstance(r[1], (OSError, MemoryError)):
                        raise r[1]
                    hit += 1
                    rig.refind()
                    b1, s1 = world.building_state(rig.building), ops.sizing(rig)
                    ctx.check(b1 == b0, "building_changed_by_failed_call", op=op, fault=f, at=[pos, Q],
                              diff={k: [str(b0[k])[:120], str(b1[k])[:120]] for k in b0 if b0[k] != b1[k]})
                    ctx.check(s1 == s0, "sizing_changed_by_failed_call", op=op, fault=f, at=[pos, Q], before=s0, after=s1)
                    p1 = ops.settings(rig)
                    moved = {k: [p0[k], p1.get(k)] for k in p0 if p0[k] != p1.get(k)}
                    ctx.check(not moved, "settings_changed_by_failed_call", op=op, fault=f, at=[pos, Q], diff=moved)
                    ctx.state(sc["cfg"]["schematic"], sc["annual"], op["op"], how, int(10 * pos / max(Q, 1)))
                    ctx.probe("failed_" + op["op"])
                ctx.log(op["op"], how, pos, r[0])
            if a.get("then") and not moved_on and refs[json.dumps(a["then"], sort_keys=True)][0] == "ok":
                # something else is asked of the system before the retry
                r = attempt(rig, a["then"], ctx, d)
                w = refs[json.dumps(a["then"], sort_keys=True)][1]["got"]
                if r[0] == "exc" and not core.from_repo(r[1]):
                    raise r[1]
                ctx.check(r[0] == "ok" and r[1] == w, "next_operation_differs", op=op, then=a["then"], fails=a["fails"],
                          got=str(r[1])[:300], want=str(w)[:300])
                ctx.probe("other_operation_after_failure")
            r = attempt(rig, op, ctx, d)
            if r[0] == "exc":
                if not core.from_repo(r[1]):
                    raise r[1]
                ctx.fail("retry_failed", op=op, fails=a["fails"], error=repr(r[1])[:400])
            if r[1] != want["got"]:
                g, w = r[1], want["got"]
                ctx.fail("retry_differs", op=op, fails=a["fails"],
                         diff=world.diff_runs(w, g) if isinstance(g, dict) and "oat_f" in g else {"want": str(w)[:300], "got": str(g)[:300]})
            rig.refind()
            b1 = world.building_state(rig.building)
            ctx.check(b1 == want["building"], "building_differs_after_retry", op=op, fails=a["fails"],
                      diff={k: [str(want["building"][k])[:120], str(b1[k])[:120]] for k in b1 if b1[k] != want["building"][k]})
            if op.get("set"):           # back to the first project for the attempts that follow
                for k in op["set"]:
                    setattr(rig.engine, k, sc["cfg"][k])
                rig.engine.build()
            if op["op"] == "rebuild":
                rig.refind()
            elif op["op"] in ("annual", "daily"):
                (rig.building.set_to_daily_load_shape if op["op"] == "annual" else rig.building.set_to_annual_load_shape)()
            if isinstance(r[1], dict) and "oat_f" in r[1]:
                ctx.sim_min += len(r[1]["oat_f"]) * r[1]["dt"]
            done += hit
            ctx.log(core.digest(r[1]))
    ctx.sample = {"schematic": sc["cfg"]["schematic"], "ops": [a["op"]["op"] for a in sc["attempts"]], "failures": done}
    if done:
        ctx.probe("nontrivial")
