"""C05: incomplete weather, water-temperature or tariff data is refused.

The on-disk file is seen as truncated at a row boundary (partial copy, torn write) or with rows missing in the middle
(lost block); loading it must raise, and a later load of the intact file must give the intact data.
"""
import csv, io, os
from .. import core, requests, world, ops, tariffs
from ..faultfs import FaultFS

N_QUICK, N_THOROUGH = 480, 8000
LEVEL = "exploration"
TECH = "lost rows injected into data files, refusal oracle"
RULE = ("one execution = loading one data file that lost a seeded set of rows, then the intact one; it counts when the load actually read "
        "a file with missing rows (distinct by file, kind of loss and rows lost)")
REAL = ["ClimateZone loaders", "UtilityCostTracker.from_csv", "EcosizerEngine constructor", "csv parser"]
STUB = ["the file as seen through open() is the real file with rows removed"]
ASSUME = ["rows are lost whole (cuts inside a row of the shipped weather tables are outside the property)"]
STATE_MEASURE = "distinct (file, loss kind, log2 of rows lost)"
TABLES = {"oat": ("DryBulbTemperatures_ByClimateZone.csv", 8760), "inlet": ("InletWaterTemperatures_ByClimateZone.csv", 12)}


def gen(rng, i, tier):
    what = rng.choice(["oat", "oat", "inlet", "inlet", "tariff", "tariff"])
    n = 12 if what == "inlet" else 8760
    sc = {"what": what, "via": rng.choice(["zone", "zone", "zip", "engine", "station"]), "zone": rng.choice(world.ZONES), "end": rng.random() < .5}
    k = rng.choice(["tail", "tail", "tail", "head", "hole", "all"])
    sc["loss"] = k
    if k == "tail":
        sc["keep"] = rng.choice([n - 1, n - 1, n - 2, n // 2, n - 24, n - 168, 8759, 8736, 24, 1]) if rng.random() < .6 else rng.randrange(0, n)
        sc["keep"] = max(0, min(n - 1, sc["keep"]))
    elif k in ("head", "hole"):
        ln = max(1, min(n - 1, int(n ** rng.random())))
        a = 0 if k == "head" else rng.randrange(0, n - ln)
        sc["cut"] = [a, a + ln]
    if what == "tariff":
        sc["tariff"] = tariffs.gen(rng)
        sc["handle"], sc["own"] = rng.random() < .35, rng.random() < .6
    return sc


def lose(text, sc):
    """Remove data rows (row 0 is the header) at line boundaries."""
    lines = text.splitlines(keepends=True)
    head, rows = lines[:1], lines[1:]
    if sc["loss"] == "tail":
        rows = rows[:sc["keep"]]
    elif sc["loss"] == "all":
        rows = []
    else:
        a, b = sc["cut"]
        rows = rows[:a] + rows[b:]
    out = "".join(head + rows)
    if not sc["end"] and out.endswith("\n"):
        out = out.rstrip("\r\n")                 # torn just before the line end
    return out, len(lines) - 1 - len(rows)


class Redirect(FaultFS):
    """open() of one named file sees other bytes."""
    def __init__(self, name, data):
        super().__init__([core.PKG], writers=False)
        self.name, self.data, self.seen = name, data, 0

    def open(self, file, mode="r", *a, **k):
        try:
            p = os.fspath(file)
        except TypeError:
            p = ""
        if isinstance(p, str) and os.path.basename(p) == self.name and not any(c in mode for c in "wax+"):
            self.seen += 1
            raw = io.BytesIO(self.data)
            if "b" in mode:
                return raw
            enc = k.get("encoding") or (a[1] if len(a) > 1 else None) or "utf-8"
            return io.TextIOWrapper(raw, enc, newline=k.get("newline", a[3] if len(a) > 3 else None))
        return self._real(file, mode, *a, **k)


def run(sc, ctx):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    if sc["what"] == "tariff":
        with ops.Scratch() as d:
            p = os.path.join(d, "t.csv")

            def load():
                if not sc.get("handle"):
                    return UtilityCostTracker.from_csv(csv_path=p)
                with open(p, newline="") as f:
                    return UtilityCostTracker.from_csv(csv_file=f)
            if sc.get("own") and sc["tariff"]["kind"] == "csv":
                tariffs.write_csv(sc["tariff"], p)       # the caller's own file rather than an exported one
            else:
                tariffs.build(sc["tariff"], d).to_csv(p)
            text = open(p, newline="").read()
            bad, lost = lose(text, sc)
            open(p, "w", newline="").write(bad)
            err = None
            try:
                uc = load()
            except Exception as e:
                err = e
            ctx.fault("rows_lost_" + sc["loss"])
            ctx.check(err is not None, "incomplete_file_accepted", file="tariff", rows_lost=lost)
            open(p, "w", newline="").write(text)
            uc = load()
            model = tariffs.Model(sc["tariff"])
            ctx.check([uc.get_energy_charge_at_step(h, 60) for h in range(8760)] == model.energy, "wrong_data_after_refusal", file="tariff")
            ctx.log("tariff", lost, type(err).__name__, uc.get_energy_charge_at_step(8759, 60))
    else:
        name, n = TABLES[sc["what"]]
        full = open(os.path.join(core.PKG, "data", "climate_data", name), newline="", encoding="utf-8").read()
        bad, lost = lose(full, sc)
        ctx.check(lost > 0, "harness_no_loss") if lost <= 0 else None

        with open(os.path.join(core.PKG, "data", "climate_data", "WeatherStation_ClimateZone_Lookup.csv"), newline="", encoding="utf-8") as f:
            station = [r["Weather Station"].strip() for r in csv.DictReader(f)][-1]

        def load():
            if sc["via"] == "engine":
                return world.make_engine({"schematic": "primary_no_recirc", "building_type": "motel", "magnitude": 50, "supply_temp_f": 120.0,
                                          "zip_code_or_climate_zone": sc["zone"], "storage_temp_f": 145.0, "max_daily_run_hr": 16.0, "aquastat_fract": 0.4,
                                          "off_sensor_fract": 0.1})
            if sc["via"] == "station":
                return ClimateZone.from_weather_station(station)
            if sc["via"] == "zip":
                return ClimateZone.from_zip_code("94922")
            return ClimateZone.from_zone_id(sc["zone"])
        err = None
        with Redirect(name, bad.encode()) as fs:
            try:
                z = load()
            except Exception as e:
                err = e
        if not fs.seen:
            raise core.HarnessError("the data file was not opened")
        ctx.fault("rows_lost_" + sc["loss"])
        if err is None:
            ctx.fail("incomplete_file_accepted", file=name, rows_lost=lost, rows_kept=n - lost, via=sc["via"])
        z = load()
        if sc["via"] == "zone":
            rows = list(csv.reader(io.StringIO(full)))[1:]
            col = sc["zone"] - 1
            if sc["what"] == "oat":
                ctx.check([z.get_oat_f(h, 60) for h in range(8760)] == [float(r[col]) for r in rows], "wrong_data_after_refusal", zone=sc["zone"])
            else:
                starts = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
                ctx.check([z.get_inlet_water_temp_f(s, 1440) for s in starts] == [float(r[col]) for r in rows], "wrong_data_after_refusal", zone=sc["zone"])
        ctx.log(sc["what"], lost, type(err).__name__)
    ctx.state(sc["what"], sc["loss"], lost.bit_length())
    ctx.sample = {"file": sc["what"], "rows_lost": lost, "refused_with": repr(err)[:120]}
    ctx.probe("nontrivial")
    ctx.probe("refused_" + sc["what"])
