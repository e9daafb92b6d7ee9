"""Regenerates MANIFEST.json from the check modules (run by hand after a change)."""
import importlib, json, sys
PY = "/opt/venv/bin/python"
NA = {
 "C20": "sizing is a pure single-call formula: no schedule, time, I/O or fault can change whether it is minimal, so simulation decides nothing that an input-space method would not; the history- and fault-dependent side is C01 and C03",
 "C21": "map interpolation is a pure function of three temperatures and bundled data; no nondeterminism to schedule. Failure and truncation of the bundled data are C04",
 "C22": "a static mapping from building type to numbers; no concurrency, time or I/O. Read failures are C04, later corruption is C15",
 "C23": "filtering of static catalogues by pure predicates; read failures of the catalogues are C04",
 "C24": "algebraic identity of one pure function; its use over time is covered by C10 and C12",
}
def main():
    checks = []
    for n in range(1, 18):
        cid = f"C{n:02d}"
        m = importlib.import_module(f"sim.checks.{cid.lower()}")
        checks.append({"property": cid, "quick_cmd": f"{PY} -m sim.run {cid} --tier quick", "thorough_cmd": f"{PY} -m sim.run {cid} --tier thorough",
            "evidence_file": f"evidence/{cid}.json",
            "technique": "deterministic simulation with fault injection: " + m.TECH,
            "level": m.LEVEL, "level_note": "Seeded search, not exhaustive. " + m.RULE[0].upper() + m.RULE[1:] + ". Assumes: " + "; ".join(m.ASSUME) + ". Stubbed: " + "; ".join(m.STUB) + "."})
    json.dump({"version": 1, "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, '/repo/src'); sys.dont_write_bytecode = True; import ecoengine, numpy, plotly\"",
        "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
        "notes": "No hooks in /repo: every seam used is an existing one (objects handed to the system, open(), threads). See DESIGN.md."},
        open("MANIFEST.json", "w"), indent=1)
main()
