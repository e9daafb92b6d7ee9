"""C07: exported simulation results are complete and faithful, or the export fails."""
import csv, json, os, re
from .. import core, ops, runs, world
from ..observe import RHO_CP
from ..faultfs import FaultFS, WRITE_OPEN, WRITE_DATA, Crash

N_QUICK, N_THOROUGH = 320, 8000
LEVEL = "exploration"
TECH = "write faults during exports, file compared with recorded history"
RULE = ("one execution = exporting one run (synthetic or simulated) to CSV or HTML with a seeded write fault, then again without; it counts when "
        "the final file was parsed back and compared value by value")
REAL = ["SimulationRun.to_csv/to_plotly", "EcosizerEngine.plot_simulation/plot_sizing_curve file output", "csv, text and buffer layers", "plotly HTML writer"]
STUB = ["raw file below the io layer (real bytes in a scratch folder)", "some runs are synthetic step records"]
ASSUME = ["plotly's write_html writes through io.open"]
LISTS = ("faults",)
STATE_MEASURE = "distinct (export kind, fault kind, log2 of fault byte, outcome)"


def gen(rng, i, tier):
    src = rng.choice(["synth", "synth", "sim"])
    out = rng.choice(["csv", "csv", "csv", "html", "curve"])
    sc = {"src": src, "out": out, "faults": [], "old": rng.random() < .5, "temps": rng.random() < .5,
          "name": rng.choice(["out.", "out.", "result (v2) 90%.", "out.2026-01.", "ré sumé-"])}
    if src == "synth" and out != "curve":
        r = runs.gen(rng)
        if out == "html" and r["n"] > 6000:
            if rng.random() < .75:
                r["n"] = rng.randrange(1, 3000)
            else:
                r["mode"] = "normal"        # (a year of shading is slow to draw)
        sc["run"] = r
    else:
        sc["src"] = "sim"
        sc["cfg"] = world.gen_config(rng, schematic=rng.choice(world.CHEAP))
        sc["kw"] = rng.choice([{}, {"outlet_deficit_max_min": 0, "outlet_deficit_threshold_f": rng.choice([0.0, -25.0])}])
        if out == "html" and rng.random() < .6:
            sc["via"], sc["kw"] = rng.choice(["engine", "engine", "div"]), {}
    if rng.random() < 0.75:
        k = rng.choice(WRITE_OPEN + WRITE_DATA * 3 + ["short_write"])
        sc["faults"] = [{"open": 1, "kind": k, "at": -rng.randrange(0, 300) if rng.random() < .3 else int(10 ** rng.uniform(0, 6.6))}]
        if k == "short_write":
            sc["faults"][0]["at"] = rng.choice([50, 5000])
    return sc


def simplify(sc):
    yield dict(sc, old=False)
    if "run" in sc:
        r = sc["run"]
        yield dict(sc, run=dict(r, n=max(0, r["n"] // 2)))
        yield dict(sc, run=dict(r, tm="none"))


COLS = ["timestep", "time_min", "dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f",
        "inlet_water_temp_f"] + [f"tank_temp_{p}pct" for p in (0, 20, 40, 60, 80, 100)]


def num(s):
    return None if s == "" else float(s)


def check_csv(ctx, path, r, when):
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    head, rows = rows[0], rows[1:]
    n = len(r.oat_f)
    ctx.check(all(c in head for c in COLS), "missing_columns", when=when, header=head)
    ctx.check(len(rows) == n, "row_count", when=when, rows=len(rows), steps=n)
    ix = {c: head.index(c) for c in COLS}
    ser = {"dhw_demand_supplyT_gal": r.dhw_demand_supplyT_gal, "usable_volume_supplyT_gal": r.usable_volume_supplyT_gal,
           "heater_output_kbtuh": r.heater_output_kbtuh, "heater_power_in_kw": r.heater_power_in_kw, "oat_f": r.oat_f,
           "inlet_water_temp_f": r.inlet_water_temp_f}
    for j, p in enumerate((0, 20, 40, 60, 80, 100)):
        ser[f"tank_temp_{p}pct"] = r.tank_temps_f[j] if r.tank_temps_f[j] else None
    ser = {k: v for k, v in ser.items() if v is not None}
    for i, row in enumerate(rows):
        ctx.check(num(row[ix["timestep"]]) == i and num(row[ix["time_min"]]) == i * r.timestep_min, "row_order", when=when, row=i, got=row[:2])
        for c, s in ser.items():
            v = num(row[ix[c]])
            w = s[i] if s[i] is None else float(s[i])
            ctx.check(v == w, "value_changed", when=when, row=i, column=c, file=row[ix[c]], memory=w)


def html_data(path):
    """Arrays of the figure in a plotly HTML file."""
    t = open(path, encoding="utf-8").read()
    i = t.rindex("Plotly.newPlot(")
    j = t.index("[{", i)
    return json.JSONDecoder().raw_decode(t[j:])[0], t


def arrays(text):
    j = text.index("[{", text.rindex("Plotly.newPlot("))
    return [[core.canon(dec(t.get(k))) for k in ("name", "x", "y")] for t in json.JSONDecoder().raw_decode(text[j:])[0]]


def check_div(ctx, div, path):
    """The returned division draws the same figure as the file."""
    ctx.check(isinstance(div, str) and div.lstrip().startswith("<div"), "not_a_division", got=str(div)[:60])
    with open(path, encoding="utf-8") as f:
        text = f.read()
    ctx.check(arrays(div) == arrays(text), "division_differs_from_file")


def dec(a):
    """plotly may store arrays as base64 typed arrays."""
    if isinstance(a, dict) and "bdata" in a:
        import base64, numpy as np
        return np.frombuffer(base64.b64decode(a["bdata"]), dtype=np.dtype(a["dtype"])).astype(float).tolist()
    return a


def check_html(ctx, path, fig, r, when, temps=False):
    try:
        data, text = html_data(path)
    except ValueError as e:
        ctx.fail("html_incomplete", when=when, size=os.path.getsize(path), error=str(e))
    ctx.check(text.rstrip().endswith("</html>"), "html_incomplete", when=when, size=len(text))
    want = fig.to_dict()["data"]
    ctx.check(len(want) == len(data), "trace_count", when=when, want=len(want), got=len(data))
    for a, b in zip(want, data):
        for k in ("x", "y"):
            x, y = core.canon(dec(a.get(k))), core.canon(dec(b.get(k)))
            x = None if x is None else list(x)
            if x != y and [None if v is None else float(v) for v in x] != [None if v is None else float(v) for v in y]:
                ctx.fail("trace_changed", when=when, trace=a.get("name"), axis=k, lens=[len(x), len(y)])
    if r is not None:
        n = len(r.oat_f)
        times = [float(i * r.timestep_min) for i in range(n)]
        fl = lambda v: [None if q is None else float(q) for q in v]
        drawn = [(fl(dec(t.get("x")) or ()), fl(dec(t.get("y")) or ())) for t in data]
        spm = 60 / r.timestep_min
        want = {"usable volume": fl(r.usable_volume_supplyT_gal), "demand": [v * spm for v in fl(r.dhw_demand_supplyT_gal)]}
        if r.supply_temp_f is not None:
            want["generation"] = [q * 1000.0 / (RHO_CP * max(1.0, r.supply_temp_f - t)) for q, t in zip(r.heater_output_kbtuh, r.inlet_water_temp_f)]
        if temps:
            want.update({"outdoor air": fl(r.oat_f), "inlet water": fl(r.inlet_water_temp_f)})
            want.update({f"tank node {j}": fl(v) for j, v in enumerate(r.tank_temps_f) if v})
        if r.show_tm_panel:
            want.update({"loop heater output": fl(r.tm_heater_output_kbtuh), "loop tank temperature": fl(r.tm_tank_temp_f)})
        for name, w in want.items():
            exact = name not in ("demand", "generation")
            ok = any(x == times and (y == w if exact else len(y) == n and all(abs(p - q) <= 1e-11 * (1 + abs(q)) for p, q in zip(y, w)))
                     for x, y in drawn)
            ctx.check(ok, "trace_not_the_run", when=when, series=name, steps=n, lengths=[[len(x), len(y)] for x, y in drawn])
        covered = set()
        for sh in fig.to_dict()["layout"].get("shapes", ()):
            covered.update(range(int(sh["x0"] / r.timestep_min), int(sh["x1"] / r.timestep_min)))
        moded = {i for i, m in enumerate(r.heater_mode) if m in ("shed", "loadUp")}
        ctx.check(covered == moded, "shading_not_the_run", when=when, first=sorted(covered ^ moded)[:3])
        ctx.probe("traces_compared_with_the_run")


def run(sc, ctx):
    with ops.Scratch() as d:
        r = eng = None
        if sc["src"] == "synth":
            r = runs.build(sc["run"])
        else:
            eng = world.try_engine(sc["cfg"])
            if sc["out"] == "curve" and "storage_volume_storageT_gal" in sc["cfg"] and sc["cfg"]["schematic"] == "swing_tank":
                raise core.Rejected("curve of a pre-sized swing tank is not available")
            if sc["out"] != "curve":
                r = eng.simulate_3day(**sc["kw"])
                ctx.sim_min += len(r.oat_f); ctx.steps += len(r.oat_f)
        p = os.path.join(d, sc.get("name", "out.") + ("csv" if sc["out"] == "csv" else "html"))
        if sc["old"]:
            with open(p, "w") as f:
                f.write("old,content\n" * 50000)

        def export(path):
            if sc["out"] == "csv":
                return r.to_csv(path)
            if sc.get("via"):
                got = eng.plot_simulation(filepath=path, include_temperatures=sc["temps"], return_as_div=sc["via"] == "div")
                ctx.probe("exported_by_engine")
                if sc["via"] == "engine":
                    return got
                check_div(ctx, got, path)
                return r.to_plotly(include_temperatures=sc["temps"])
            if sc["out"] == "html":
                return r.to_plotly(filepath=path, include_temperatures=sc["temps"])
            return eng.plot_sizing_curve(filepath=path)
        before = world.run_digest(r) if r is not None else ops.sizing_of(eng)
        outcome, hit = "ok", []
        if sc["faults"]:
            f = dict(sc["faults"][0])
            if f["at"] < 0:
                q = os.path.join(d, "size.out")
                export(q)
                f["at"] = max(0, os.path.getsize(q) + f["at"])
            fs = FaultFS([d], [f], ctx)
            with fs:
                try:
                    res = export(p)
                except Crash:
                    outcome = "crashed"
                except OSError:
                    outcome = "error"
                    ctx.check(not fs.still_open(), "file_left_open", fault=f)
            hit = [x["kind"] for x in fs.hits]
            real = [h for h in hit if h != "short_write"]
            if fs.opens == 0:
                raise core.HarnessError("export did not go through open()")
            if outcome == "ok" and real:
                ctx.fail("failed_export_not_reported", fault=f, size=os.path.getsize(p) if os.path.exists(p) else None)
            ctx.check(outcome == "ok" or real, "export_error_without_fault", fault=f)
            if outcome == "ok":
                (check_csv(ctx, p, r, "export under benign faults") if sc["out"] == "csv" else check_html(ctx, p, res, r, "export under benign faults", sc["temps"]))
            after = world.run_digest(r) if r is not None else ops.sizing_of(eng)
            ctx.check(before == after, "export_changed_results", fault=f, outcome=outcome)
            ctx.state(sc["out"], hit, f["at"].bit_length(), outcome)
        res = export(p)
        if sc["out"] == "csv":
            check_csv(ctx, p, r, "retry after " + outcome)
        else:
            check_html(ctx, p, res, r if sc["out"] == "html" else None, "retry after " + outcome, sc["temps"])
        after = world.run_digest(r) if r is not None else ops.sizing_of(eng)
        ctx.check(before == after, "export_changed_results", outcome="retry")
        ctx.log(sc["out"], outcome, hit, before)
        ctx.state(sc["out"], sc["src"], outcome)
        ctx.probe("nontrivial"); ctx.probe("parsed_" + sc["out"]); ctx.probe("outcome_" + outcome)
        ctx.sample = {"export": sc["out"], "outcome": outcome, "faults": hit, "steps": len(r.oat_f) if r is not None else None}
