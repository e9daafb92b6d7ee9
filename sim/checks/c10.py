"""C10: storage tanks stay physical through any sequence of operations (operation histories and whole simulations)."""
import copy, math
from .. import core, observe, ops, world

N_QUICK, N_THOROUGH = 700, 20000
LEVEL = "exploration"
TECH = "seeded operation sequences and disturbed runs with physical invariants after every step"
RULE = ("one execution = one seeded history of 20-400 operations on one tank, or one disturbed simulation, with the physical invariants judged "
        "after every operation/step; it counts when usable water changed at least once")
REAL = ["StratifiedTank", "MixedStorageTank", "EnergyTank", "SlugOverlayTank", "in simulations: all of Simulator and DHWSystem classes"]
STUB = ["in simulations a wrapper around the building's demand/weather queries and the equipment maps applies the disturbances"]
ASSUME = ["one supply temperature per tank, cold inlet < supply <= outlet", "energy balance is judged with relative tolerance 1e-6",
          "a tank is full/depleted when its bottom is warmer than the inlet / its top no hotter than supply"]
LISTS = ("ops", "events")
STATE_MEASURE = "distinct (tank, operation, usable bucket before, after)"
RHO = observe.RHO_CP


def gen(rng, i, tier):
    kind = rng.choices(["strat", "mixed", "energy", "slug", "sim"], [5, 2, 3, 3, 3])[0]
    if kind == "sim":
        sc = observe.gen_scenario(rng, tier, margins=[0.05, 0.3, 0.7, 1.0, 1.3, 2.0], annual_share=0.2, instant=0)
        sc["kind"] = "sim"
        if "tm_storage_vol" in sc["cfg"] and rng.random() < .4:
            sc["cfg"]["tm_storage_vol"] = float(rng.choice([20, 35, 50]))
        if rng.random() < .7:
            sc["kw"] = {"outlet_deficit_max_min": 10**7}
        return sc
    sup = rng.choice([110.0, 120.0, 125.0])
    stor = sup + rng.choice([5.0, 15.0, 25.0, 40.0])
    V = float(rng.choice([20, 80, 300, 1000, 5000]))
    cold = round(rng.uniform(35, 65), 1)
    sc = {"kind": kind, "V": V, "sup": sup, "stor": stor, "cold": cold, "pu": rng.choice([0.0, 0.2, 0.5, 0.8, 1.0]),
          "slope": rng.choice([2.8, 2.8, 1.7, 0.8, 5.0]), "pct": rng.choice([1.0, 0.95, 0.8]), "ops": [], "wander": rng.random() < .4}
    hi = {"quick": 120, "thorough": 500}[tier]
    cur = cold
    for _ in range(rng.randrange(20, hi)):
        dt = rng.choice([1, 1, 1, 10])
        if sc["wander"] and rng.random() < .1:
            cur = round(rng.uniform(35, 70), 1)
        o = rng.choices(["heat", "draw", "phys", "recirc", "mix", "loss", "idle", "act", "deact", "hslug", "init", "add"],
                        [6, 5, 4, 3, 3, 1, 1, 3, 2, 5, .3, 2])[0]
        size = V * (10 ** rng.uniform(-4, 0.2))
        d = {"o": o, "dt": dt, "cold": cur}
        if o in ("heat", "hslug", "add"):
            d["q"] = rng.choice([0.0, round(size * RHO * (stor - cold) / 1000 * 60 / dt, 4)])
        elif o in ("draw", "phys", "mix"):
            d["v"] = rng.choice([0.0, round(size, 4), round(size, 4), round(size / 20, 5)])
            d["t"] = round(rng.uniform(cold, stor), 2)
            d["floor"] = rng.random() < .5
        elif o == "recirc":
            d["f"] = round(size / dt / rng.choice([1, 5, 20]), 4); d["r"] = round(sup - rng.choice([0.0, 3.0, 10.0, 20.0]), 1)
            d["s"] = rng.random() < .5
        elif o == "loss":
            d["q"] = round(size * RHO * 5 / 1000 * 60 / dt, 4)
        elif o == "init":
            d["pu"] = rng.choice([0.0, 0.3, 0.7, 1.0])
        sc["ops"].append(d)
        if kind == "slug" and rng.random() < .08:       # one reheating cycle without a draw: from almost nothing to beyond full
            w = [{"o": "hslug", "dt": dt, "cold": cur, "q": round(V * RHO * rng.uniform(0, .4) ** 2 * (stor - cold) / 1000 * 60 / dt, 4)}
                 for _ in range(rng.randrange(1, 6))]
            sc["ops"] += [{"o": "deact", "dt": dt, "cold": cur}, {"o": "act", "dt": dt, "cold": cur}] + w + [{"o": "deact", "dt": dt, "cold": cur}]
    return sc


def simplify(sc):
    if sc["kind"] == "sim":
        yield from observe.simplify(sc)
    else:
        for k, v in (("V", 80.0), ("slope", 2.8), ("pct", 1.0), ("pu", 0.5)):
            if sc[k] != v:
                yield dict(sc, **{k: v})


def integral(tank, g, V, n=400):
    """Volume-weighted average temperature of the top g gallons from the point queries."""
    lo = 1.0 - g / V
    s = 0.0
    for j in range(n):
        s += tank.get_temperature_at_fraction(lo + (j + 0.5) / n * (1 - lo))
    return s / n


def profile_ok(ctx, tank, lo, hi, what, mono=True, n=11):
    ts = [tank.get_temperature_at_fraction(j / (n - 1)) for j in range(n)]
    for t in ts:
        ctx.check(math.isfinite(t) and lo - 1e-9 <= t <= hi + 1e-9, "temperature_outside_range", after=what, temps=ts, low=lo, high=hi)
    if mono:
        for a, b in zip(ts, ts[1:]):
            ctx.check(b >= a - 1e-9, "colder_higher_up", after=what, temps=ts)
    return ts


def bot_slug(t, cold):
    """True when heat given to the slug warms it (an empty slug takes none)."""
    c = copy.deepcopy(t)
    was = c.slug_temp_f
    c.heat_slug(1.0, 60)
    return c.slug_temp_f > was


def run_ops(sc, ctx):
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.EnergyTank import EnergyTank
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    V, sup, stor, cold, kind = sc["V"], sc["sup"], sc["stor"], sc["cold"], sc["kind"]
    if kind == "strat":
        t = StratifiedTank(V, strat_slope=sc["slope"])
    elif kind == "mixed":
        t = MixedStorageTank(V)
    elif kind == "energy":
        t = EnergyTank(V, cold, stor, strat_slope=sc["slope"])
    else:
        t = SlugOverlayTank(V, cold, stor, sup, percent_useable=sc["pct"], strat_slope=sc["slope"])
    t.initialize(stor, cold, sc["pu"])
    cap = V * (sc["pct"] if kind == "slug" else 1.0)
    U = lambda: t.get_usable_volume_supplyT_gal(sup)
    tolU = {"strat": 1e-6, "mixed": 1e-9, "energy": 1e-3, "slug": 1e-3}[kind] * V
    changed = 0
    slug = lambda: kind == "slug" and t.is_slug_active()
    displaced = 0.0         # gallons of storage replaced by cold water since the last heating
    # a full tank holds its volume of hot water, plus (stratified model) the part of the transition zone pushed out below
    holds = V * (1 + ((stor - min([cold] + [o["cold"] for o in sc["ops"]])) / sc["slope"] / 100.0 if kind == "strat" else 0.0))
    twin, put = None, 0.0   # the tank as it was when the slug formed, and the heat given to the slug since
    for n, o in enumerate(sc["ops"]):
        k = o["o"]
        if (k in ("act", "deact", "hslug") and kind != "slug") or (k in ("mix", "loss") and kind != "mixed") \
                or (k == "add" and kind != "energy"):
            continue
        if kind == "slug" and k in ("heat", "draw", "recirc"):
            continue            # the multi-pass system uses draw_physical_gal and the slug operations only
        if slug() and k == "init" and False:
            continue
        u0 = U()
        T0 = t.get_temperature_at_fraction(0.5)
        same_cold = o["cold"] == cold
        avg0 = t.get_average_draw_temp_f(V) if kind != "slug" else None
        bot0, top0 = t.get_temperature_at_fraction(0.0), t.get_temperature_at_fraction(1.0)
        what = {"n": n, **o}
        dt = o["dt"]
        E = None            # expected energy change [BTU], when the model defines it
        if k == "init":
            t.initialize(stor, o["cold"], o["pu"]); cold = o["cold"]
        elif k == "idle":
            pass
        elif k == "heat":
            t.heat(o["q"], dt, stor); E = o["q"] * 1000.0 * dt / 60.0
        elif k == "add":
            E = o["q"] * 1000.0 * dt / 60.0
            t.add_energy_btu(E)
        elif k == "draw":
            t.draw(o["v"], o["cold"], sup, stor); cold = o["cold"] if kind != "mixed" else cold
            E = -o["v"] * RHO * (sup - o["cold"])
        elif k == "phys":
            if kind == "strat":
                g = min(o["v"], V)
                E = -g * RHO * (t.get_average_draw_temp_f(g) - o["cold"]) if g > 0 else 0.0
                t.draw_physical_gal(o["v"], o["cold"], sup if o["floor"] else None)
                cold = o["cold"]
            elif kind == "mixed":
                t.draw_physical_gal(o["v"], o["cold"])
                E = -min(o["v"], V) * RHO * (T0 - o["cold"])
            elif kind == "energy":
                t.draw_physical_gal(o["v"], o["cold"]); cold = o["cold"]
            else:
                # the slug tank is fed by the mixing valve: water no warmer than supply, baseline kept
                t.draw_physical_gal(o["v"], max(cold, min(o["t"], sup - 1.0)), update_internal_cold_temp=False)
        elif k == "recirc":
            if kind == "mixed":
                t.add_recirc_return(o["f"], o["r"], dt)
                E = min(o["f"] * dt, V) * RHO * (o["r"] - T0)
            else:
                t.add_recirc_return(o["f"], o["r"], dt, supply_temp_f=sup if o["s"] else None)
                E = -o["f"] * dt * RHO * ((sup if o["s"] else stor) - o["r"])
        elif k == "mix":
            t.mix_primary_inflow(o["v"], o["t"]); E = min(o["v"], V) * RHO * (o["t"] - T0)
        elif k == "loss":
            t.apply_fixed_heat_loss_kbtuh(o["q"], dt); E = -o["q"] * 1000.0 * dt / 60.0
        elif k == "act":
            if not slug():
                twin, put = copy.deepcopy(t), 0.0
            t.activate_slug(sup)
        elif k == "deact":
            if slug() and twin is not None and t.slug_temp_f < stor - 1e-6:
                twin.add_energy_btu(put)
                t.deactivate_slug()
                a, b = ([x.get_temperature_at_fraction(j / 16) for j in range(17)] + [x.get_usable_volume_supplyT_gal(sup) * 100 / V] for x in (t, twin))
                ctx.check(all(abs(x - y) <= 1e-3 * max(1.0, sc["slope"]) for x, y in zip(a, b)), "slug_does_not_conserve_energy", after=what, heat_btu=put, got=a, want=b)
                ctx.probe("slug_energy_balances")
            t.deactivate_slug()
            twin = None
        elif k == "hslug":
            if slug() and bot_slug(t, cold):
                put += o["q"] * 1000.0 * dt / 60.0
            elif o["q"]:
                twin = None
            t.heat_slug(o["q"], dt)
        if k in ("phys", "init"):
            twin = None
        u1 = U()
        T1 = t.get_temperature_at_fraction(0.5)
        if k in ("heat", "hslug", "add", "init", "act", "deact"):
            displaced = 0.0
        elif k == "draw" and kind != "mixed":
            displaced += o["v"] * (sup - o["cold"]) / (stor - o["cold"])
        elif k == "phys":
            displaced += min(o["v"], V)
        if kind in ("strat", "energy") and not sc["wander"]:
            ctx.check(displaced <= holds * (1 + 1e-6) or u1 <= tolU, "holds_more_than_its_volume", after=what, replaced_gal=displaced, volume=V, usable=u1)
            if displaced > holds:
                ctx.probe("emptied")
        if kind == "mixed":
            ctx.check(u1 in (0.0, V), "usable_outside_capacity", after=what, usable=u1, capacity=V)
            ctx.check((u1 == V) == (T1 >= sup), "usable_disagrees_with_temperature", after=what, usable=u1, temp=T1, supply=sup)
            if E is not None:
                cap_draw = k == "draw" and (T0 <= o["cold"] or -E >= V * RHO * (T0 - o["cold"]) - 1e-6)
                if cap_draw:
                    ctx.check(T1 == T0 if T0 <= o["cold"] else observe.close(T1, o["cold"], 1e-6), "depleting_draw_wrong", after=what, before=T0, now=T1)
                else:
                    ctx.check(abs((T1 - T0) * V * RHO - E) <= 1e-6 * max(1.0, abs(E), V * RHO), "energy_not_conserved", after=what,
                              change_btu=(T1 - T0) * V * RHO, expected_btu=E)
                if k in ("recirc", "mix"):
                    other = o["r"] if k == "recirc" else o["t"]
                    ctx.check(min(T0, other) - 1e-9 <= T1 <= max(T0, other) + 1e-9, "temperature_outside_range", after=what, before=T0, fed=other, now=T1)
            ctx.check(all(t.get_temperature_at_fraction(f) == T1 for f in (0.0, 0.3, 1.0)) and t.get_average_draw_temp_f(V / 3) == T1, "mixed_tank_not_uniform", after=what)
        else:
            profile_ok(ctx, t, cold, stor, what, mono=not slug())
            ctx.check(-1e-6 * V <= u1 <= cap * (1 + 1e-9), "usable_outside_capacity", after=what, usable=u1, capacity=cap)
            judge = kind == "strat" or cold == o["cold"] and same_cold or kind == "slug"
            if k in ("draw", "phys") and judge:
                ctx.check(u1 <= u0 + tolU, "usable_rose_from_drawing", after=what, before=u0, now=u1)
            if k == "recirc":
                ctx.check(u1 <= u0 + tolU, "usable_rose_from_drawing", after=what, before=u0, now=u1)
            if k in ("heat", "hslug", "add"):
                ctx.check(u1 >= u0 - tolU, "usable_fell_from_heating", after=what, before=u0, now=u1)
            if k == "idle":
                ctx.check(u1 == u0, "usable_changed_without_operation", after=what, before=u0, now=u1)
            if kind != "slug":
                bot1, top1 = t.get_temperature_at_fraction(0.0), t.get_temperature_at_fraction(1.0)
                # neither full nor depleted, before and after
                inside = bot0 <= cold + 1e-9 and bot1 <= cold + 1e-9 and min(top0, top1) > sup + 1e-6 and same_cold and cold == o["cold"]
                if kind == "energy" and E is not None and E <= 0 and not sc["wander"]:       # nothing beyond full is held back: taking from a full tank shows at once
                    inside = min(top0, top1) > sup + 1e-6 and same_cold and cold == o["cold"]
                if kind == "strat":
                    inside = inside and min(top0, top1) >= stor - 1e-9 if k == "recirc" or k == "heat" else inside
                if E is not None and inside:
                    got = (t.get_average_draw_temp_f(V) - avg0) * V * RHO
                    tol = max(1.0, abs(E), V * RHO * (stor - cold)) * (2e-6 if kind == "strat" else 2e-5)
                    ctx.check(abs(got - E) <= tol, "energy_not_conserved", after=what, change_btu=got, expected_btu=E, tank=kind)
                    ctx.probe("energy_balances")
                if n % 7 == 0:
                    g = V * (0.07 + (n % 10) / 11.0)
                    a, b = t.get_average_draw_temp_f(g), integral(t, g, V)
                    ctx.check(abs(a - b) <= 0.02 * (stor - cold) + 1e-6, "average_draw_temperature_wrong", after=what, gallons=g, reported=a, profile=b)
        if abs(u1 - u0) > tolU or abs(T1 - T0) > 1e-9:
            changed += 1
        ctx.state(kind, k, int(4 * u0 / cap), int(4 * u1 / cap))
        ctx.steps += 1
    ctx.log([t.get_temperature_at_fraction(j / 10) for j in range(11)], U())
    ctx.probe("ops_" + kind)
    ctx.sample = {"tank": kind, "operations": len(sc["ops"]), "final_usable": U()}
    if changed:
        ctx.probe("nontrivial")


GRID = (0.0, 0.05, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9, 0.95, 1.0)


class Obs(observe.Observer):
    def __init__(self, *a):
        super().__init__(*a)
        c = self.rig.cfg
        self.s, self.sup, self.stor = c["schematic"], self.sys.supply_temp_f, self.sys.storage_temp_f
        self.lo = self.b.get_design_inlet_water_temp_f() or 50.0
        self.V = self.tank.total_volume_gal
        self.changed = False
        self.cold = None

    def before(self, i, dt):
        self.u0 = self.tank.get_usable_volume_supplyT_gal(self.sup)
        self.t0 = None if self.tm_tank is None else self.tm_tank.get_temperature_at_fraction(0.5)
        if self.s != "multi_pass_rtp":
            self.avg0 = self.tank.get_average_draw_temp_f(self.V)
            self.ends0 = (self.tank.get_temperature_at_fraction(0.0), self.tank.get_temperature_at_fraction(1.0))
            self.prof0 = None
            if self.cold is not None and self.ends0[0] <= self.cold + 1e-9 and self.ends0[1] >= self.stor - 1e-9:
                self.prof0 = [self.tank.get_temperature_at_fraction(f) for f in GRID]

    def room(self, inlet):
        """Gallons at the bottom still at inlet temperature, and gallons at the top at storage temperature (lower bounds)."""
        cold = max((f for f, x in zip(GRID, self.prof0) if x <= inlet + 1e-9), default=0.0)
        hot = 1.0 - min((f for f, x in zip(GRID, self.prof0) if x >= self.stor - 1e-9), default=1.0)
        return cold * self.V, hot * self.V

    def after(self, i, dt, step):
        ctx, t = self.ctx, self.tank
        inlet = step["inlet_water_temp_f"]
        same_cold = inlet == self.cold
        self.cold = inlet
        self.lo = min(self.lo, inlet)
        ts = step["tank_temps_f"]
        ctx.check(all(self.lo - 1e-9 <= x <= self.stor + 1e-9 for x in ts), "temperature_outside_range", step=i, temps=ts, low=self.lo, high=self.stor)
        if self.s != "multi_pass_rtp":
            ctx.check(all(b >= a - 1e-9 for a, b in zip(ts, ts[1:])), "colder_higher_up", step=i, temps=ts)
        u1 = t.get_usable_volume_supplyT_gal(self.sup)
        ctx.check(-1e-9 <= u1 <= self.V * (1 + 1e-9), "usable_outside_capacity", step=i, usable=u1, capacity=self.V)
        ctx.check(-1e-9 <= step["usable_volume_supplyT_gal"] <= self.V * (1 + 1e-9), "usable_outside_capacity", step=i, recorded=step["usable_volume_supplyT_gal"])
        Q, dem = step["heater_output_kbtuh"] * 1000 * dt / 60, step["demand_supplyT_gal"]
        if self.s != "multi_pass_rtp":
            if Q == 0:
                ctx.check(u1 <= self.u0 + 1e-6 * self.V, "usable_rose_from_drawing", step=i, before=self.u0, now=u1)
            if dem == 0 and self.s != "single_pass_rtp":
                ctx.check(u1 >= self.u0 - 1e-6 * self.V, "usable_fell_from_heating", step=i, before=self.u0, now=u1)
            e1 = (t.get_temperature_at_fraction(0.0), t.get_temperature_at_fraction(1.0))
            if "swing" not in self.s and same_cold and self.prof0 is not None and e1[0] <= inlet + 1e-9 and e1[1] >= self.stor - 1e-9:
                out = dem * RHO * (self.sup - inlet)
                if self.s == "single_pass_rtp":
                    out += self.sys.return_flow_gpm * dt * RHO * (self.sup - self.sys.return_temp_f)
                E = Q - out
                # neither full nor depleted at any moment inside the step, whichever comes first
                cv, hv = self.room(inlet)
                per_gal = RHO * (self.stor - inlet)
                if Q / per_gal >= cv or out / per_gal >= hv:
                    E = None
            else:
                E = None
            if E is not None:
                got = (t.get_average_draw_temp_f(self.V) - self.avg0) * self.V * RHO
                ctx.check(abs(got - E) <= 2e-6 * max(1.0, abs(E), self.V * RHO * (self.stor - inlet)), "energy_not_conserved", step=i, change_btu=got, expected_btu=E)
                ctx.probe("energy_balances")
        if self.t0 is not None:
            V = self.tm_tank.total_volume_gal
            t1 = self.tm_tank.get_temperature_at_fraction(0.5)
            q = (step["tm_heater_output_kbtuh"] or 0.0) * 1000 * dt / 60 / (V * RHO)
            if self.s == "parallel_loop":
                f = min(self.sys.return_flow_gpm * dt, V) / V
                want = self.t0 + f * (self.sys.return_temp_f - self.t0) + q
                ctx.check(abs(t1 - want) <= 1e-6 * max(1, abs(want)), "energy_not_conserved", tank="tm", step=i, temp=t1, expected=want)
            else:
                loss = self.sys.get_recirc_loss_kbtuh() * 1000 * dt / 60 / (V * RHO)
                g = dem if self.t0 <= self.sup else dem * (self.sup - inlet) / (self.t0 - inlet)
                f = min(1.0, g / V)
                a, b = (self.t0 + f * (x - self.t0) - loss + q for x in (self.lo, self.stor))
                ctx.check(min(a, b) - 1e-6 <= t1 <= max(a, b) + 1e-6, "energy_not_conserved", tank="swing", step=i, temp=t1, expected=[a, b])
        if abs(u1 - self.u0) > 1e-6 * self.V:
            self.changed = True
        V = self.V or 1.0
        ctx.state(self.s, "step", int(4 * self.u0 / V), int(4 * u1 / V))


def run(sc, ctx):
    if sc["kind"] != "sim":
        return run_ops(sc, ctx)
    rig = ops.try_rig(sc["cfg"])
    r, ob = observe.run(rig, sc["dur"], sc["events"], ctx, Obs, sc["kw"], sc["annual_shape"])
    ctx.log(world.run_state(r))
    ctx.probe("sim_" + sc["cfg"]["schematic"])
    ctx.sample = {"steps": ob.count}
    if ob.changed:
        ctx.probe("nontrivial")
