"""C16: results do not depend on when, where or in which process they are computed."""
import json, os, subprocess, sys
from .. import core, hostwork, ops, requests, tariffs, world

N_QUICK, N_THOROUGH = 130, 3000
LEVEL = "exploration"
TECH = "the same work in fresh interpreters under seeded host conditions (simulated clock, time zone, locale, hash seed, random state, working directory, listing order, collector), exact differential"
RULE = ("one execution = 2-8 requests done by two fresh processes, one under plain and one under seeded host conditions; it counts when both gave at least "
        "one result and every result was compared")
REAL = ["EcosizerEngine", "all systems, Simulator, sizing curves, charts", "Building, ClimateZone, PerformanceMap", "UtilityCostTracker and SimulationRun with exports"]
STUB = ["wall and monotonic clock and datetime (simulated, with jumps)", "order of directory listings"]
ASSUME = ["same machine, Python and library versions in both processes"]
LISTS = ("work",)
STATE_MEASURE = "distinct (operation, host factor, value) tuples"
TIMEOUT = 300
PLAIN = {"hash": 0, "tz": "UTC", "locale": "C.UTF-8", "cwd": "scratch", "flags": [], "clock": {"start": 1686830400, "jump": "frozen"}, "rand": 1,
         "listing": 0, "gc": "default", "tools": False, "imports": [], "umask": 0o022}
TIMES = [0, 951782399, 1709210000, 1709251199, 1710064799, 1730610000, 1735689599, 1830297599, 2147483647, 4102444800]
MODS = ["ecoengine.objects.building.Building", "ecoengine.objects.building.UtilityCostTracker", "ecoengine.objects.simulation.SimulationRun",
        "ecoengine.interfaces", "ecoengine.objects.components.heating.PerformanceMap"]


def gen_host(rng):
    full = {"hash": rng.randrange(1, 4294967295), "tz": rng.choice(["America/Los_Angeles", "Asia/Kathmandu", "Pacific/Kiritimati", "XYZ+11", "Europe/London"]),
            "locale": rng.choice(["ascii", "ascii", "POSIX", "C"]), "cwd": rng.choice(["decoy", "decoy", "gone", "root"]),
            "flags": rng.choice([["-O"], ["-OO"], ["-X", "dev"], ["-X", "utf8"], ["-s", "-E"]]),
            "clock": {"start": rng.choice(TIMES) + rng.choice([0, 0, rng.randrange(86400)]), "jump": rng.choice(["frozen", "steady", "leaps", "jitter"])},
            "rand": rng.randrange(1 << 31), "listing": rng.randrange(1, 1 << 31), "gc": rng.choice(["off", "often"]), "tools": True,
            "imports": rng.sample(MODS, rng.randrange(1, len(MODS))), "umask": rng.choice([0o077, 0o002])}
    if full["flags"] == ["-s", "-E"]:
        full["flags"] = ["-s"]
    keep = [k for k in full if rng.random() < .6]
    return dict(PLAIN, **{k: full[k] for k in keep})


def gen(rng, i, tier):
    work = []
    if rng.random() < .8:
        s = rng.choices(world.CHEAP + ["swing_er", "instant_wh", "multi_pass_rtp"], [5, 5, 5, 5, 2, 1, 2])[0]
        cfg = ops.gen_cfg(rng, schematic=s, rich=.4, **({"ls": True} if rng.random() < .4 and s != "swing_er" else {}))
        work.append({"op": "build", "cfg": cfg})
        if rng.random() < .6:
            work.append({"op": "tariff", "t": tariffs.gen(rng)})
        kinds = [k for k in ("sim3", "simA", "sizing", "curve", "lscurve", "plotcurve", "plotsim", "er", "ercurve", "toggle", "csv", "probe") if ops.applicable(cfg, k)]
        w = {"sim3": 3, "simA": .6, "sizing": 1, "curve": 2, "lscurve": 3, "plotcurve": 1.5, "plotsim": 1, "er": 2, "ercurve": 1, "toggle": 1, "csv": 2, "probe": 1}
        if s in ("multi_pass_rtp", "swing_er"):
            w.update(simA=.05, curve=.5, plotcurve=.3, plotsim=.5)
        for _ in range(rng.randrange(1, 5 if tier == "quick" else 8)):
            k = rng.choices(kinds, [w[x] for x in kinds])[0]
            op = ops.gen_probe(rng) if k == "probe" else {"op": k}
            if k in ("plotcurve", "plotsim"):
                op["file"] = rng.random() < .6
                if k == "plotsim":
                    op["temps"] = rng.random() < .5
            work.append(op)
            if k in ("sim3", "simA"):
                work.append({"op": rng.choice(["csv", "bill"])})
    for _ in range(rng.randrange(1, 4)):
        work.append({"op": "request", "q": requests.gen_request(rng, extra=["tariff", "stations", "models"])})
    if rng.random() < .3:
        work = work[-3:] + work[:-3]
    return {"work": work, "host": gen_host(rng)}


def simplify(sc):
    for k in PLAIN:
        if sc["host"][k] != PLAIN[k]:
            yield dict(sc, host=dict(sc["host"], **{k: PLAIN[k]}))


def decoys(cwd):
    """Other files with the names of the bundled ones, below the working directory."""
    root = os.path.join(core.PKG, "data")
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith((".json", ".csv", ".pkl")):
                rel = os.path.relpath(os.path.join(d, f), root)
                for q in (os.path.join("data", rel), os.path.join("src", "ecoengine", "data", rel), os.path.join("ecoengine", "data", rel), rel, f):
                    q = os.path.join(cwd, q)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, "w") as h:
                        h.write("{}" if f.endswith("json") else "1,2,3\n4,5,6\n" if f.endswith("csv") else "")


def do(host, work, base):
    """The work in a fresh process under *host*; returns (results, clock reads)."""
    scratch = os.path.join(base, "s"); os.makedirs(scratch)
    cwd = os.path.join(base, "cwd"); os.makedirs(cwd)
    if host["cwd"] == "decoy":
        decoys(cwd)
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": base, "TMPDIR": scratch, "PYTHONPATH": core.VERIF, "PYTHONHASHSEED": str(host["hash"]), "TZ": host["tz"],
           "VERIF_REPO": core.REPO, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}
    if host["locale"] == "ascii":
        env.update(LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
    else:
        env["LC_ALL"] = host["locale"]
    p = subprocess.run([sys.executable, "-P", "-B", *host["flags"], "-m", "sim.hostproc"], input=json.dumps({"host": host, "work": work, "scratch": scratch}).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/" if host["cwd"] == "root" else cwd, umask=host["umask"], timeout=TIMEOUT - 20)
    if p.returncode or not p.stdout:
        raise core.HarnessError(f"host process: {p.returncode} {p.stderr.decode()[-1500:]}")
    o = json.loads(p.stdout)
    return o["res"], o["reads"]


def run(sc, ctx):
    with ops.Scratch() as a:
        want, _ = do(PLAIN, sc["work"], a)
    with ops.Scratch() as b:
        got, reads = do(sc["host"], sc["work"], b)
    odd = {k: v for k, v in sc["host"].items() if v != PLAIN[k]}
    for k in odd:
        ctx.fault("host_" + k)
    n = 0
    for i, (w, g) in enumerate(zip(want, got)):
        st = sc["work"][i]
        if w[:2] != g[:2]:
            ctx.fail("result_depends_on_host", index=i, work=st, host=odd, plain=w, here=g)
        n += w[0] == "ok"
        if st["op"] in ("sim3", "simA"):
            ctx.sim_min += 4320 if st["op"] == "sim3" else 525600
        ctx.probe("same_" + st["op"])
        for k, v in odd.items():
            ctx.state(st["op"], k, str(v)[:12])
    ctx.steps += len(want)
    ctx.log(want)
    ctx.sample = {"work": [s["op"] for s in sc["work"]], "host": odd}
    if n:
        ctx.probe("nontrivial")
