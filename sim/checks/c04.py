"""C04: a transient read failure is reported and never poisons later results."""
import json, os
from .. import core, ops, requests, world
from ..faultfs import FaultFS, READ_OPEN, READ_DATA, Crash

N_QUICK, N_THOROUGH = 700, 12000
LEVEL = "exploration"
TECH = "file faults injected under every data read, differential against a pristine process"
RULE = ("one execution = 2-7 look-ups in one process with read faults on chosen opens/bytes, then all repeated fault-free; it counts when at "
        "least one injected fault was reached and a fault-free answer was compared afterwards")
REAL = ["ClimateZone", "Building", "PerformanceMap and pickled maps", "EcosizerEngine look-ups and constructor", "csv/json/pickle parsers"]
STUB = ["file opens below the package data folder go through a fault-injecting raw file over the real bytes"]
ASSUME = ["faults are those the OS reports (open error, read error, interruption, allocation failure) short reads, or a torn JSON or pickle file (a file torn by whole rows is C05)"]
LISTS = ("steps",)
STATE_MEASURE = "distinct (request kind, fault kind, file, outcome) tuples"


def gen(rng, i, tier):
    steps = []
    req = lambda: requests.gen_request(rng, extra=["tariff", "stations", "models"])
    pool = [req() for _ in range(rng.randrange(1, 4))]
    for _ in range(rng.randrange(2, 6 if tier == "quick" else 9)):
        q = rng.choice(pool) if rng.random() < 0.6 else req()
        st = {"q": q}
        if rng.random() < 0.7:
            k = rng.choice(READ_OPEN + READ_DATA * 2 + ["short", "trunc", "trunc"])
            # u: which of the files the request opens; pos: how far into that file
            st["faults"] = [{"u": rng.random(), "kind": k,
                             "pos": rng.choice([0.0, 0.02, 0.5, 0.98]) if rng.random() < .3 else rng.random() ** rng.choice([1, 1, 4])}]
            if k == "trunc" and rng.random() < .5:
                st["faults"][0]["pos"] = 0.0
            if q["r"] in ("zip", "buckets", "station") and rng.random() < .5:
                st["faults"][0].update(near=rng.choice([0, 4, 40, 300]), u=0.0)     # just before the row that is looked for
            if k == "short":
                st["faults"][0]["at"] = rng.choice([3, 100, 5000])
        steps.append(st)
    return {"steps": steps}


def simplify(sc):
    for i, st in enumerate(sc["steps"]):
        if "faults" in st:
            s = list(sc["steps"]); s[i] = {"q": st["q"]}
            yield dict(sc, steps=s)


def reference(q):
    """Fault-free answer in a pristine process, with the files it opened and their sizes."""
    core._mute()
    with ops.Scratch() as d:
        requests.tariff_file(q, d)
        fs = FaultFS([core.PKG, d], (), None, writers=False)
        with fs:
            got = requests.perform(q, d)
        return [got, [[os.path.getsize(r.path), r.path.endswith((".json", ".pkl")), find(r.path, q)] for r in fs.raws]]


def find(path, q):
    key = str(q.get("zip") or q.get("name") or "").encode()
    if not key:
        return -1
    with open(path, "rb") as f:
        return f.read().find(key)


def resolve(f, sizes):
    if not sizes:
        return dict(f, open=1, at=f.get("at", 0))
    n = min(len(sizes), 1 + int(f["u"] * len(sizes)))
    size, closed, row = sizes[n - 1]         # closed: a format whose end is marked, so a torn copy is always recognisable
    if "near" in f and row >= 0 and f["kind"] != "short":
        f = dict(f, at=max(0, row - f["near"]))
    f = dict(f, open=n, at=f.get("at", int(f["pos"] * size)))
    return dict(f, kind="eio_read") if f["kind"] == "trunc" and not (closed and f["at"] < size - 1) else f


BENIGN = {"short", "eintr_read"}


def run(sc, ctx):
    refs = {}
    for st in sc["steps"]:
        k = json.dumps(st["q"], sort_keys=True)
        if k not in refs:
            refs[k] = core.fork_call(reference, st["q"])
            if refs[k][0] not in ("ok", "exc"):
                raise core.HarnessError(str(refs[k]))
    with ops.Scratch() as d:
        drive(sc, ctx, refs, d)


def drive(sc, ctx, refs, d):
    reached = compared = 0
    for st in sc["steps"]:
        requests.tariff_file(st["q"], d)

    def compare(got, ref, n, q, where):
        if ref[0] == "exc":
            ctx.fail("different_answer", step=n, request=q, when=where, got=str(got)[:200], want=ref[1])
        if got != ref[1][0]:
            ctx.fail("wrong_answer", step=n, request=q, when=where, got=str(got)[:300], want=str(ref[1][0])[:300])

    for rnd in ("faulted", "after"):
        for n, st in enumerate(sc["steps"]):
            q = st["q"]
            ref = refs[json.dumps(q, sort_keys=True)]
            faults = st.get("faults", []) if rnd == "faulted" else []
            sizes = ref[1][1] if ref[0] == "ok" else []
            faults = [resolve(f, sizes) for f in faults]
            fs = FaultFS([core.PKG, d], faults, ctx, writers=False)
            err = None
            with fs:
                try:
                    got = requests.perform(q, d)
                except Exception as e:
                    if not core.from_repo(e) and not fs.hits:
                        raise
                    err = e
            hit = [f["kind"] for f in fs.hits]
            left = fs.still_open()
            ctx.check(not left, "file_left_open", step=n, request=q, files=left, faults=faults)
            reached += bool(hit)
            files = [x[0] for x in fs.log if x[2]]
            ctx.state(q["r"], hit, files, "error" if err else "ok")
            ctx.log(rnd, n, hit, type(err).__name__ if err else core.digest(got))
            if err is not None:
                if [h for h in hit if h not in BENIGN]:
                    ctx.probe("error_reported")
                elif ref[0] == "exc" and ref[1] == type(err).__name__:
                    ctx.probe("same_refusal")
                else:
                    ctx.fail("error_without_fault" if rnd == "faulted" else "error_after_fault_passed", step=n, request=q,
                             error=repr(err)[:300], faults=faults, earlier=[s.get("faults") for s in sc["steps"][:n]])
            else:
                compare(got, ref, n, q, rnd)
                compared += 1
                if hit:
                    ctx.probe("correct_despite_fault")
    ctx.sample = {"requests": [s["q"]["r"] for s in sc["steps"]], "faults_reached": reached}
    if reached and compared:
        ctx.probe("nontrivial")
