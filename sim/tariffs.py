"""Seeded tariffs: from parameters (seasonal, discount) and from hourly CSV files; plus a reference biller."""
import csv, math, os

MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
MSTART = [sum(MDAYS[:m]) * 24 for m in range(12)]


def month_of_hour(h):
    m = 0
    while m < 11 and h >= MSTART[m + 1]:
        m += 1
    return m


def _rate(rng):
    return rng.choice([0.0, 0.1, 0.21585, round(rng.uniform(0.01, 0.9), 5), rng.uniform(0.01, 0.9), 1, 0.3333333333333333])


def _dem(rng):
    return rng.choice([0.0, 30.2, 38.75, round(rng.uniform(0, 60), 2), rng.uniform(0, 60), 5])


def gen(rng, kind=None):
    kind = kind or rng.choice(["params", "params", "params", "csv"])
    if kind == "params":
        n = rng.choice([1, 1, 2, 3, 4])
        cuts = sorted(rng.sample(range(1, 12), n - 1))
        sm, em = [0] + cuts, cuts + [12]
        ps = [rng.randrange(0, 24) for _ in range(n)]
        pe = [rng.choice([p, 24, rng.randrange(p, 25)]) for p in ps]
        t = {"monthly_base_charge": rng.choice([0.0, 190.0, round(rng.uniform(0, 400), 2), 15, rng.uniform(0, 400)]),
             "pk_start_hour": ps, "pk_end_hour": pe, "pk_demand_charge": [_dem(rng) for _ in range(n)],
             "pk_energy_charge": [_rate(rng) for _ in range(n)], "off_pk_demand_charge": [_dem(rng) for _ in range(n)],
             "off_pk_energy_charge": [_rate(rng) for _ in range(n)], "start_month": sm, "end_month": em}
        if rng.random() < 0.45:
            t.update(include_discount=True, dscnt_start_hour=[rng.randrange(0, 24) for _ in range(n)],
                     dscnt_end_hour=[rng.randrange(0, 25) for _ in range(n)],
                     discnt_demand_charge=[_dem(rng) for _ in range(n)], discnt_energy_charge=[_rate(rng) for _ in range(n)])
        if n == 1 and rng.random() < .5:
            t = {k: (v[0] if isinstance(v, list) else v) for k, v in t.items()}
        return {"kind": "params", "p": t}
    # CSV tariff: arbitrary period labels, optional per-hour rates
    scheme = rng.choice(["two", "monthly", "odd", "big"])
    if scheme == "two":
        labels = {m: [0, 1] for m in range(12)}
    elif scheme == "monthly":
        labels = {m: [2 * m, 2 * m + 1] for m in range(12)}
    elif scheme == "odd":
        labels = {m: rng.sample(range(0, 12), 3) for m in range(12)}
    else:
        labels = {m: [100 + m * 3 + j for j in range(3)] for m in range(12)}
    keys = sorted({k for v in labels.values() for k in v})
    return {"kind": "csv", "labels": [labels[m] for m in range(12)], "split": [rng.randrange(1, 23) for _ in range(2)],
            "rate": {str(k): _rate(rng) for k in keys}, "dem": {str(k): _dem(rng) for k in keys},
            "base": round(rng.uniform(0, 300), rng.choice([2, 2, 5])), "hourly": rng.random() < 0.6, "vary": rng.choice([0.01, 0.1, 0.37]), "fine": rng.choice([0, 0, 0, 1e-6, 1e-11]),
            "fill": rng.choice(["all", "first", "changed"])}


def csv_tables(t):
    """(period, energy rate) by hour of a CSV tariff spec."""
    per, en = [], []
    for h in range(8760):
        ls = t["labels"][month_of_hour(h)]
        hod = h % 24
        j = 0 if hod < min(t["split"]) else (1 if hod < max(t["split"]) else len(ls) - 1)
        p = ls[j % len(ls)]
        per.append(p)
        r = t["rate"][str(p)]
        if t["hourly"] and (h * 2654435761 >> 7) % 100 < t["vary"] * 100:
            r = r + t["fine"] * (1 + h % 97) / 3 if t.get("fine") else round(r * 1.5 + 0.01 * (h % 7), 6)
        en.append(float(r))
    # the first hour of each period defines the period's own rate
    return per, en


def write_csv(t, path):
    per, en = csv_tables(t)
    seen, last = set(), {}
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(["Date", "Demand Period", "Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Monthly Base Charge"])
        for h in range(8760):
            p = per[h]
            first = p not in seen
            seen.add(p)
            if first:
                last[p] = en[h]
            e = en[h] if (t["fill"] == "all" or first or en[h] != last[p]) else ""
            w.writerow([f"h{h}", p, e, t["dem"][str(p)] if first or t["fill"] == "all" else "", t["base"] if h == 0 else ""])


def build(t, scratch):
    from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
    import json
    if t["kind"] == "params":
        return UtilityCostTracker.from_params(**json.loads(json.dumps(t["p"])))
    p = os.path.join(scratch, "tariff-in.csv")
    write_csv(t, p)
    return UtilityCostTracker.from_csv(csv_path=p)


class Model:
    """Reference tariff, written from the documentation only."""
    def __init__(self, t):
        self.t = t
        if t["kind"] == "csv":
            self.period, self.energy = csv_tables(t)
            self.demand = {int(k): float(v) for k, v in t["dem"].items()}
            self.peak = {p: p % 2 == 1 for p in self.demand}
            self.base = float(t["base"])
            return
        p = t["p"]
        L = lambda k, d=None: (lambda v: v if isinstance(v, list) else None)(p.get(k, d))
        n = len(p["pk_start_hour"]) if isinstance(p["pk_start_hour"], list) else 1
        g = lambda k, i, d=None: (p[k][i] if isinstance(p.get(k), list) else p.get(k, d))
        self.base = float(p["monthly_base_charge"])
        self.period, self.energy, self.demand, self.peak = [], [], {}, {}
        dsc = bool(p.get("include_discount"))
        for h in range(8760):
            m, hod = month_of_hour(h), h % 24
            i = next(j for j in range(n) if g("start_month", j, 0) <= m < g("end_month", j, 12))
            if g("pk_start_hour", i) <= hod < g("pk_end_hour", i):
                kind, e, d = "pk", g("pk_energy_charge", i), g("pk_demand_charge", i)
            elif dsc and self._in(hod, g("dscnt_start_hour", i), g("dscnt_end_hour", i)):
                kind, e, d = "ds", g("discnt_energy_charge", i), g("discnt_demand_charge", i)
            else:
                kind, e, d = "off", g("off_pk_energy_charge", i), g("off_pk_demand_charge", i)
            self.period.append((m, kind))
            self.energy.append(float(e))
            self.demand[(m, kind)] = float(d)
            self.peak[(m, kind)] = kind == "pk"

    @staticmethod
    def _in(h, a, b):
        if a is None or b is None:
            return False
        return (h >= a or h < b) if b < a else a <= h < b

    def bill(self, kw, dt):
        """kw: combined kW per step.  Returns annual cost and the monthly splits."""
        e_pk, e_off = [[] for _ in range(12)], [[] for _ in range(12)]
        mx, first = {}, {}
        for i, k in enumerate(kw):
            h = i * dt // 60
            m = month_of_hour(h)
            p = self.period[h]
            c = k * (dt / 60.0) * self.energy[h]
            (e_pk if self.peak[p] else e_off)[m].append(c)
            if p not in mx:
                first[p] = m
            mx[p] = max(mx.get(p, 0.0), k)
        d_pk, d_off = [0.0] * 12, [0.0] * 12
        for p, k in mx.items():
            (d_pk if self.peak[p] else d_off)[first[p]] += k * self.demand[p]
        e_pk, e_off = [math.fsum(x) for x in e_pk], [math.fsum(x) for x in e_off]
        return {"annual": math.fsum(e_pk + e_off + d_pk + d_off) + 12 * self.base, "energy_peak": e_pk, "energy_off_peak": e_off,
                "demand_peak": d_pk, "demand_off_peak": d_off, "base": self.base}
