"""Deterministic-simulation core: isolation, seeds, results, minimiser, replay, evidence.

One seed -> one scenario (plain JSON) -> one execution.  Every execution runs in a
process forked from a pristine zygote in which the package under test has been imported
but never called, so no state leaks from one execution to the next.
"""
from __future__ import annotations
import hashlib, importlib, json, os, pickle, random, select, signal, struct, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "ecoengine") + os.sep
EVID = os.path.join(VERIF, "evidence")
FORMAT = 1


# ----------------------------------------------------------------- helpers
def canon(x):
    """JSON-able canonical form with exact floats (repr round-trips)."""
    try:
        import numpy as np
    except Exception:  # pragma: no cover
        np = None
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if np is not None and isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        x = float(x)
        return "nan" if x != x else x + 0.0
    if np is not None and isinstance(x, np.generic):
        return canon(x.item())
    if np is not None and isinstance(x, np.ndarray):
        return [canon(v) for v in x.tolist()]
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    return f"<{type(x).__name__}>"


def digest(x) -> str:
    return hashlib.sha256(json.dumps(canon(x), sort_keys=True).encode()).hexdigest()[:24]


class ViolationFound(BaseException):
    """BaseException so that code under test cannot swallow it."""
    def __init__(self, kind, detail):
        super().__init__(kind)
        self.kind, self.detail = kind, detail


class Rejected(BaseException):
    """Scenario is outside the property's domain (e.g. configuration refused)."""


class HarnessError(Exception):
    pass


def from_repo(exc) -> bool:
    """Was *exc* raised by (or below) code of the repository rather than by the harness?"""
    tb = exc.__traceback__
    seen = False
    last_owner = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(PKG):
            last_owner, seen = "repo", True
        elif fn.startswith(VERIF + os.sep):
            last_owner = "verif"
        tb = tb.tb_next
    return seen and last_owner == "repo"


class Ctx:
    """Collected by an execution: violation checks, history, probes, faults."""
    def __init__(self):
        self.h = hashlib.sha256()
        self.probes = {}
        self.faults = {}
        self.sim_min = 0.0
        self.states = set()
        self._sigs = set()
        self.steps = 0
        self.sample = None
        self.findings = []
        self.extra = None

    def log(self, *xs):
        self.h.update(json.dumps(canon(xs), sort_keys=True).encode())
        self.h.update(b"\n")

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def state(self, *sig):
        try:
            if sig in self._sigs:
                return
            self._sigs.add(sig)
        except TypeError:
            pass
        if len(self.states) < 4000:
            self.states.add(hashlib.md5(json.dumps(canon(sig)).encode()).hexdigest()[:12])

    def fail(self, kind, **detail):
        raise ViolationFound(kind, detail)

    def check(self, cond, kind, **detail):
        if not cond:
            raise ViolationFound(kind, detail)

    def finding(self, key):
        """A listed, recorded defect was met (never invented at run time)."""
        self.findings.append(key)


# ----------------------------------------------------------------- isolation
def _read_all(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def fork_call(fn, *args, timeout=None):
    """Run fn(*args) in a forked child; return its value. Exceptions are re-raised by name.

    Result: ("ok", value) | ("exc", type_name, text) | ("viol", kind, detail) | ("rej", why)
            | ("harness", text) | ("timeout",) | ("died", status)
    """
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                res = ("ok", fn(*args))
            except ViolationFound as e:
                res = ("viol", e.kind, canon(e.detail))
            except Rejected as e:
                res = ("rej", str(e))
            except BaseException as e:
                if from_repo(e):
                    res = ("exc", type(e).__name__, _tb(e))
                else:
                    res = ("harness", _tb(e))
            data = pickle.dumps(res)
            os.write(w, struct.pack("<Q", len(data)))
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv[:1 << 16]); mv = mv[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        deadline = None if timeout is None else time.monotonic() + timeout
        def avail():
            if deadline is None:
                return True
            left = deadline - time.monotonic()
            return left > 0 and bool(select.select([r], [], [], left)[0])
        if not avail():
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
            return ("timeout",)
        head = _read_all(r, 8)
        if head is None:
            _, st = os.waitpid(pid, 0)
            return ("died", st)
        data = _read_all(r, struct.unpack("<Q", head)[0])
        os.waitpid(pid, 0)
        return pickle.loads(data)
    finally:
        os.close(r)


def _tb(e):
    t = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    return t[-3000:]


def _mute():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.close(dn)
    import warnings
    warnings.simplefilter("ignore")


def _prepare(check):
    if hasattr(check, "prepare"):
        check.prepare()


def load_world():
    """Import the package under test (never call it) from /repo's working tree."""
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import pkgutil
    import ecoengine
    if not os.path.realpath(ecoengine.__file__).startswith(os.path.realpath(PKG)):
        raise HarnessError(f"ecoengine imported from {ecoengine.__file__}")
    for m in pkgutil.walk_packages(ecoengine.__path__, "ecoengine."):
        if ".tests" in m.name:
            continue
        importlib.import_module(m.name)
    import scipy.interpolate, scipy.spatial  # noqa: F401  (used lazily by pickled maps)
    import plotly.graph_objects, plotly.subplots, plotly.io  # noqa: F401


def execute(check, sc):
    """Run one scenario (called in an isolated child). Returns a plain dict."""
    _mute()
    ctx = Ctx()
    res = {"status": "ok", "violation": None}
    try:
        check.run(sc, ctx)
    except ViolationFound as e:
        res = {"status": "violation", "violation": {"kind": e.kind, "detail": canon(e.detail)}}
    except Rejected as e:
        res = {"status": "rejected", "why": str(e), "violation": None}
    except Exception as e:
        if from_repo(e):
            res = {"status": "violation", "violation": {
                "kind": "unexpected_error", "detail": {"type": type(e).__name__, "trace": _tb(e)}}}
        else:
            res = {"status": "harness_error", "violation": None, "trace": _tb(e)}
    if res["violation"]:
        ctx.log("violation", res["violation"]["kind"])
    res.update(digest=ctx.h.hexdigest()[:24], probes=ctx.probes, faults=ctx.faults,
               sim_min=ctx.sim_min, states=sorted(ctx.states), steps=ctx.steps,
               findings=ctx.findings, sample=canon(ctx.sample))
    if ctx.extra is not None and res["violation"]:
        res["extra"] = ctx.extra
    return res


def run_isolated(check, sc, timeout=None):
    timeout = timeout or getattr(check, "TIMEOUT", 150)
    r = fork_call(execute, check, sc, timeout=timeout)
    if r[0] == "ok":
        return r[1]
    base = dict(digest="", probes={}, faults={}, sim_min=0, states=[], steps=0, findings=[], sample=None)
    if r[0] == "timeout":
        return dict(base, status="violation", violation={"kind": "no_progress", "detail": {
            "text": f"execution made no progress to completion within {timeout} s (typical: < 3 s)"}})
    return dict(base, status="harness_error", violation=None, trace=repr(r))


# ----------------------------------------------------------------- seeds
def seed_for(base, i):
    return base * 1_000_003 + i


def scenario_for(check, base, i, tier):
    s = seed_for(base, i)
    rng = random.Random(s)
    sc = check.gen(rng, i, tier)
    sc["seed"] = s
    return json.loads(json.dumps(canon(sc)))


# ----------------------------------------------------------------- minimiser
def _ddmin_list(lst, test):
    n = 2
    while len(lst) >= 1:
        size = max(1, len(lst) // n)
        for k in range(0, len(lst), size):
            cand = lst[:k] + lst[k + size:]
            if test(cand):
                lst = cand
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(n * 2, len(lst))
    return lst


def minimise(check, sc, kind, budget_s=60.0):
    t0 = time.monotonic()
    tries = [0]
    same = getattr(check, "same_kind", lambda a, b: a == b)

    def still(c):
        if time.monotonic() - t0 > budget_s or tries[0] > 400:
            return False
        tries[0] += 1
        r = run_isolated(check, c)
        return r["status"] == "violation" and same(r["violation"]["kind"], kind)
    changed = True
    while changed and time.monotonic() - t0 < budget_s:
        changed = False
        for f in getattr(check, "LISTS", ()):  # lists of events / faults / operations
            if sc.get(f):
                new = _ddmin_list(list(sc[f]), lambda l: still(dict(sc, **{f: l})))
                if len(new) < len(sc[f]):
                    sc = dict(sc, **{f: new}); changed = True
        for c in getattr(check, "simplify", lambda s: ())(sc):
            if c != sc and still(c):
                sc = c; changed = True
                break
    return sc, tries[0]


# ----------------------------------------------------------------- the runner
def _worker(check, base, tier, idxs, wfd, stop_r, t_end):
    out = os.fdopen(wfd, "wb", 0)
    for i in idxs:
        if time.monotonic() > t_end or select.select([stop_r], [], [], 0)[0]:
            break
        try:
            sc = scenario_for(check, base, i, tier)
            t = time.monotonic()
            r = run_isolated(check, sc)
            r["i"], r["t"] = i, time.monotonic() - t
        except Exception as e:
            r = dict(status="harness_error", trace=_tb(e), i=i, t=0, digest="", probes={}, faults={}, sim_min=0,
                     states=[], steps=0, findings=[], sample=None, violation=None)
        b = pickle.dumps(r)
        out.write(struct.pack("<Q", len(b)) + b)
    os._exit(0)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def run_check(cid, tier, base):
    check = importlib.import_module(f"sim.checks.{cid.lower()}")
    t0 = time.monotonic()
    _prepare(check)
    load_world()
    n = check.N_QUICK if tier == "quick" else check.N_THOROUGH
    if os.environ.get("VERIF_N"):
        n = int(os.environ["VERIF_N"])
    limit = 420.0 if tier == "quick" else float(os.environ.get("VERIF_LIMIT", "3000"))
    t_end = t0 + limit
    nw = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
    stop_r, stop_w = os.pipe()
    fds, pids = {}, []
    for k in range(nw):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                _worker(check, base, tier, range(k, n, nw), w, stop_r, t_end)
            finally:
                os._exit(4)
        os.close(w)
        fds[r] = b""
        pids.append(pid)
    results, viols, harness = [], [], []
    stopping = False
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 5.0)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd); del fds[fd]
                continue
            fds[fd] += b
            while len(fds[fd]) >= 8:
                ln = struct.unpack("<Q", fds[fd][:8])[0]
                if len(fds[fd]) < 8 + ln:
                    break
                res = pickle.loads(fds[fd][8:8 + ln]); fds[fd] = fds[fd][8 + ln:]
                results.append(res)
                if res["status"] == "violation":
                    viols.append(res)
                elif res["status"] == "harness_error":
                    harness.append(res)
                if viols and not stopping:
                    os.write(stop_w, b"x"); stopping = True
    for p in pids:
        os.waitpid(p, 0)
    results.sort(key=lambda r: r["i"])
    explore_s = time.monotonic() - t0

    # determinism: some seeds again, in another process with another hash seed
    det = {"checked": 0, "mismatch": 0}
    ok = [r for r in results if r["status"] == "ok"]
    if not viols and ok:
        pick = ok[:: max(1, len(ok) // (4 if tier == "quick" else 12))][: (4 if tier == "quick" else 12)]
        env = dict(os.environ, PYTHONHASHSEED="4242", PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-m", "sim.run", cid, "--digests", ",".join(str(r["i"]) for r in pick),
                            "--seed", str(base), "--tier", tier], cwd=VERIF, env=env, capture_output=True, text=True)
        try:
            again = json.loads(p.stdout.strip().splitlines()[-1])
            for r in pick:
                det["checked"] += 1
                if again[str(r["i"])] != r["digest"]:
                    det["mismatch"] += 1
                    det.setdefault("indices", []).append(r["i"])
        except Exception:
            det["error"] = (p.stderr or "")[-500:]
        if det["mismatch"]:
            print(f"WARNING: {det['mismatch']} of {det['checked']} executions are not repeatable: {det}")

    exit_code, viol_lines = 0, []
    if viols:
        reproduced = False
        for v in sorted(viols, key=lambda r: r["i"])[:3]:
            sc = scenario_for(check, base, v["i"], tier)
            kind = v["violation"]["kind"]
            again = run_isolated(check, sc)
            if again["status"] != "violation":
                print(f"WARNING: seed index {v['i']} ({kind}) did not reproduce", flush=True)
                if kind == "no_progress":
                    continue
                rep, tries = sc, 0
            elif kind == "no_progress":
                rep, tries = sc, 0
            else:
                start = sc
                if hasattr(check, "concretise"):
                    c = check.concretise(sc, again)
                    r2 = run_isolated(check, c)
                    if r2["status"] == "violation" and r2["violation"]["kind"] == kind:
                        start = c
                rep, tries = minimise(check, start, kind, 45.0 if tier == "quick" else 240.0)
            final = run_isolated(check, rep) if again["status"] == "violation" and kind != "no_progress" else v
            path = os.path.join(EVID, "replays", f"{cid}-{sc['seed']}.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"format": FORMAT, "property": cid, "seed": sc["seed"], "tier": tier, "index": v["i"],
                       "scenario": rep, "expect": {"kind": (final["violation"] or v["violation"])["kind"], "digest": final["digest"]},
                       "violation": final["violation"] or v["violation"], "minimise_runs": tries,
                       "original_scenario": sc,
                       "replay_with": f"cd /verif && /opt/venv/bin/python -m sim.run {cid} --replay {path}"},
                      open(path, "w"), indent=1)
            print(f"{cid}: {kind}: {json.dumps((final['violation'] or v['violation'])['detail'])[:1500]}")
            viol_lines.append(f"VIOLATION property={cid} replay={path}")
            exit_code = 1
            break
    for r in harness[:3]:
        print(f"HARNESS-ERROR seed index {r['i']}:\n{r.get('trace','')}", file=sys.stderr)
    known = {f["key"]: f for f in load_known() if f.get("property") == cid}
    met = {}
    for r in results:
        for k in r["findings"]:
            met[k] = met.get(k, 0) + 1
    for k in sorted(known):
        f = known[k]
        if f.get("status") == "known":
            print(f"KNOWN-FINDING: property={cid} {f['what']} [met in {met.get(k, 0)} runs]")
    wall = time.monotonic() - t0
    write_evidence(check, cid, tier, base, results, harness, det, wall, explore_s, len(viol_lines), met)
    good = sum(r["status"] == "ok" for r in results)
    if exit_code == 0 and good == 0:
        print(f"{cid}: no execution completed ({len(harness)} harness errors)", file=sys.stderr)
        return 2
    print(f"{cid} {tier}: {len(results)} executions, {good} ok, {sum(r['status']=='rejected' for r in results)} rejected, "
          f"{len(harness)} harness errors, {len(viols)} violating, {wall:.1f} s")
    for l in viol_lines:
        print(l, flush=True)
    return exit_code


def write_evidence(check, cid, tier, base, results, harness, det, wall, explore_s, nviol, met):
    probes, faults, states, digests = {}, {}, set(), set()
    sim_min = steps = nontriv = 0
    for r in results:
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        states.update(r["states"])
        sim_min += r["sim_min"]; steps += r["steps"]
        if r["status"] in ("ok", "violation") and r["probes"].get("nontrivial"):
            if r["digest"] not in digests:
                digests.add(r["digest"]); nontriv += 1
    samples = []
    for r in results:
        if r["status"] == "ok" and r["probes"].get("nontrivial") and len(samples) < 3:
            samples.append({"index": r["i"], "seed": seed_for(base, r["i"]), "digest": r["digest"],
                            "scenario": scenario_for(check, base, r["i"], tier), "outcome": r["sample"]})
    ev = {"property": cid, "tier": tier, "seed": base, "level": check.LEVEL, "coverage": {
        "evaluations": len(results), "distinct_nontrivial": nontriv, "rule": check.RULE, "samples": samples,
        "seeds_per_hour": round(len(results) / max(explore_s, 1e-9) * 3600),
        "first_seed": seed_for(base, 0), "last_seed": seed_for(base, max([r["i"] for r in results], default=0)),
        "simulated_days": round(sim_min / 1440, 2), "simulated_steps": steps,
        "faults_injected": dict(sorted(faults.items())), "distinct_states": len(states),
        "distinct_states_measure": getattr(check, "STATE_MEASURE", "distinct state signatures logged by the check"),
        "probes": dict(sorted(probes.items())),
        "rejected": sum(r["status"] == "rejected" for r in results), "harness_errors": len(harness),
        "determinism": det, "known_findings_met": met,
        "real_components": check.REAL, "stubbed_components": check.STUB},
        "assumptions": check.ASSUME, "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{cid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, f"{cid}.json"))


def replay(cid, path):
    check = importlib.import_module(f"sim.checks.{cid.lower()}")
    _prepare(check)
    load_world()
    rep = json.load(open(path))
    r = run_isolated(check, rep["scenario"])
    print(json.dumps({k: r.get(k) for k in ("status", "violation", "digest", "faults", "trace")}, indent=1))
    if r["status"] == "violation":
        print("reproduced exactly" if (r["digest"] == rep["expect"]["digest"] and r["violation"]["kind"] == rep["expect"]["kind"])
              else "violation, but not the recorded one")
        print(f"VIOLATION property={cid} replay={path}")
        return 1
    print("no violation")
    return 0


def digests(cid, idxs, base, tier):
    check = importlib.import_module(f"sim.checks.{cid.lower()}")
    _prepare(check)
    load_world()
    out = {}
    for i in idxs:
        out[str(i)] = run_isolated(check, scenario_for(check, base, i, tier))["digest"]
    print(json.dumps(out))
    return 0
