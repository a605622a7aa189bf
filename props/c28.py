"""C28: heat demand, heating system and the complete heating simulation."""
import datetime
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_close,
                      req_equal, sub)
from props.lib_heat import (BUILD_KEYS, HeatData, SYSTEM_KEYS, building_st,
                            demand, next_temperatures, next_thermostat,
                            outputs, system_st, take, thermostat_st)

from demod.simulators.base_simulators import SimLogger
from demod.simulators.heating_simulators import (
    BuildingThermalDynamics, FiveModulesHeatingSimulator, HeatDemand,
    HeatingSystem)

ALGOS = ["heat_max_emmiters", "room_estimation"]
NODES = ["building", "interior", "emitter", "cylinder"]


# ------------------------------------------------------------ the system
def fuel_shares(out, s):
    """Share of the nominal fuel flow."""
    r = np.zeros(len(out["dhw"]))
    for phi, m in ((out["space_heating"], s["heat_output_sh"]),
                   (out["dhw"], s["heat_output_dhw"])):
        r += np.where(m > 0, phi / np.where(m > 0, m, 1.), 0.)
    return r


@sub("C28", "system", st.fixed_dictionaries({
    "systems": st.lists(system_st, min_size=1, max_size=3),
    "missing": st.lists(st.sampled_from(["", "", "", "sh", "dhw", "both"]),
                        min_size=3, max_size=3),
    "n": st.integers(1, 5), "log": st.booleans(), "init": st.booleans(),
    "steps": st.lists(st.fixed_dictionaries({
        "dhw": st.lists(st.integers(-2000, 30000), min_size=5, max_size=5),
        "sh": st.lists(st.integers(-2000, 30000), min_size=5, max_size=5),
        "on": st.lists(st.sampled_from(["wa", "sp", "both", "off"]),
                       min_size=5, max_size=5)}),
        min_size=1, max_size=8)}), 1500, 20000, budget=200,
     rule="demand beyond the capacity, or a system without some output")
def system(case):
    n = case["n"]
    kinds = [dict(x) for x in case["systems"]]
    for i, (x, miss) in enumerate(zip(kinds, case["missing"])):
        if miss in ("sh", "both"):
            x["heat_output_sh"] = 0.
        if miss in ("dhw", "both"):
            x["heat_output_dhw"] = 0.
        if miss == "both":
            x["fuel_flow_rate"] = x["flow_rate_to_W"] = 0.
        x["standby_power"] = 1. + i         # tells the kinds apart
    data = HeatData(kinds)
    kw, tags = {}, set()

    def demand_of(x):
        return ({"dhw": np.array(x["dhw"][:n], float),
                 "space_heating": np.array(x["sh"][:n], float)},
                {"heat_water_on": np.array([o in ("wa", "both")
                                            for o in x["on"][:n]]),
                 "space_heating_on": np.array([o in ("sp", "both")
                                               for o in x["on"][:n]]),
                 "heater_on": np.array([o != "off" for o in x["on"][:n]])})

    if case["init"]:
        # starting values known: all off, so that the kinds still show
        d0, _ = demand_of(case["steps"][0])
        kw["initial_heat_demand"] = d0
        kw["initial_controls"] = {k: np.zeros(n, bool) for k in (
            "heater_on", "heat_water_on", "space_heating_on")}
    getters = ["get_power_demand", "get_energy_consumption",
               "get_heat_outputs"]
    if case["log"]:
        kw["logger"] = SimLogger(*getters, aggregated=False)
    sim = HeatingSystem(n, data=data, **kw)
    own = np.asarray(sim.get_power_demand(), float)
    kind = [int(round(x)) - 1 for x in own]
    req(np.allclose(own, np.round(own)) and set(kind) <= set(
        range(len(kinds))), "stand-by power %s of no system", own)
    s = take(kinds, kind, SYSTEM_KEYS + ["fuel_type"])
    for k in ("dhw", "space_heating", "total"):
        req_equal(np.asarray(sim.get_heat_outputs()[k], float), np.zeros(n),
                  "%s output at start" % k)
    zero = np.zeros(n)
    hist = {"get_power_demand": [own], "get_energy_consumption": [own],
            "get_heat_outputs": [zero]}
    for i, x in enumerate(case["steps"]):
        dem, con = demand_of(x)
        keep = {k: v.copy() for k, v in {**dem, **con}.items()}
        sim.step(con, dem)
        for k, v in keep.items():
            req_equal({**dem, **con}[k], v, "%s given" % k)
        want = outputs(dem, con["heat_water_on"], con["space_heating_on"], s)
        got = {k: np.array(v, float)
               for k, v in sim.get_heat_outputs().items()}
        for k, v in want.items():
            req_close(got[k], v, "%s output after step %d" % (k, i))
        # what any heating system must respect
        req(np.all(got["dhw"] <= s["heat_output_dhw"] + 1e-9)
            and np.all(got["space_heating"] <= s["heat_output_sh"] + 1e-9)
            and np.all(got["dhw"] >= 0) and np.all(got["space_heating"] >= 0),
            "outputs %s exceed the capacity", got)
        share = fuel_shares(want, s)
        pump = np.where(con["space_heating_on"], s["pump_power"],
                        s["standby_power"])
        elec = np.where(s["fuel_type"] == "Electricity",
                        share * s["fuel_flow_rate"] * 1000., 0.)
        gas = np.where(s["fuel_type"] == "Mainsgas", share, 0.)
        fuel = sim.get_fuel_consumptions()
        req(set(fuel) == set(s["fuel_type"]), "fuels %s, expected %s",
            sorted(fuel), sorted(set(s["fuel_type"])))
        if "Electricity" in fuel:
            req_close(fuel["Electricity"], elec, "electricity at step %d" % i)
        if "Mainsgas" in fuel:
            req_close(fuel["Mainsgas"], gas * s["fuel_flow_rate"] / 3600.,
                      "gas in m^3/s at step %d" % i, atol=1e-12)
        power = pump + elec
        energy = power + gas * s["flow_rate_to_W"]
        req_close(sim.get_power_demand(), power, "power at step %d" % i)
        req_close(sim.get_energy_consumption(), energy,
                  "energy consumption at step %d" % i)
        hist["get_power_demand"].append(power)
        hist["get_energy_consumption"].append(energy)
        hist["get_heat_outputs"].append(want["total"])
        if (dem["dhw"] > s["heat_output_dhw"]).any():
            tags.add("beyond")
        if (s["heat_output_dhw"] == 0).any() != \
                (s["heat_output_sh"] == 0).any():
            tags.add("missing output")
    if case["log"]:
        for g in getters:
            got = sim.logger.get(g)
            got = got["total"] if isinstance(got, dict) else got
            req_close(got, hist[g][:-1], "logged " + g)
    return sorted(tags)


@sub("C28", "equipment", st.fixed_dictionaries({
    "systems": st.lists(system_st, min_size=1, max_size=4),
    "w": st.lists(st.integers(0, 4), min_size=4, max_size=4),
    "bad": st.sampled_from(["", "", "prob", "fuel"]),
    "seed": st.integers(0, 9999)}), 150, 1000, rule="several systems")
def equipment(case):
    kinds = [{**x, "standby_power": 1. + i}
             for i, x in enumerate(case["systems"])]
    w = np.array(case["w"][:len(kinds)], float)
    if w.sum() == 0:
        w[-1] = 1
    w /= w.sum()
    bad = case["bad"]
    if bad == "fuel":
        for x in kinds:
            x["fuel_type"] = "Straw"

    class D(HeatData):
        def load_heating_system_dict(self, subgroup={}):
            d = super().load_heating_system_dict()
            d["equipped_prob"] = w * (0.6 if bad == "prob" else 1.)
            return d

    n = 2000
    if bad == "prob":
        req(raises(Exception, HeatingSystem, n, data=D(kinds)),
            "shares adding up to 0.6 are accepted")
        return None
    sim = HeatingSystem(n, data=D(kinds))
    if bad == "fuel":
        req(raises(ValueError, sim.get_power_demand), "unknown fuel accepted")
        return None
    own = np.asarray(sim.get_power_demand())
    cnt = [int(np.isclose(own, 1. + i).sum()) for i in range(len(kinds))]
    req(sum(cnt) == n, "stand-by of no system: %s", np.unique(own))
    for c, x in zip(cnt, w):
        req(x > 0 or c == 0, "system nobody has is used")
    p = gtest_pvalue(cnt, w)
    req(p > P_REJECT, "systems %s, shares %s (p=%.2g)", cnt, w, p)
    return ["several"] if len(kinds) > 1 else None


# ------------------------------------------------------------ heat demand
temps = st.fixed_dictionaries({
    "building": st.integers(0, 25), "interior": st.integers(10, 28),
    "emitter": st.integers(12, 58), "cylinder": st.integers(15, 65)})


def mixed_kinds(case):
    """Systems and buildings that can be told apart from outside."""
    return ([{**x, "standby_power": 1. + i}
             for i, x in enumerate(case["systems"])],
            [{**x, "floor_area": 40. + i}
             for i, x in enumerate(case["buildings"])])


def kinds_of(data, system, building):
    """Parameters of the system and building of each household."""
    kind = np.round(np.asarray(system.get_power_demand()) - 1).astype(int)
    house = np.round(np.asarray(building.building_area) - 40).astype(int)
    return (take(data.systems, kind, SYSTEM_KEYS + ["fuel_type", "is_combi"]),
            take(data.buildings, house, BUILD_KEYS))


@sub("C28", "demand", st.fixed_dictionaries({
    "systems": st.lists(system_st, min_size=1, max_size=3),
    "buildings": st.lists(building_st, min_size=1, max_size=3),
    "th": thermostat_st,
    "dt": st.sampled_from([1, 30, 60, 60, 300, 600, 3600]),
    "algo": st.sampled_from(ALGOS + ["unknown"]), "log": st.booleans(),
    "steps": st.lists(st.fixed_dictionaries({
        "T": st.lists(temps, min_size=3, max_size=3),
        "dhw": st.lists(st.sampled_from([0., 40., 300.]), min_size=3,
                        max_size=3),
        "out": st.one_of(st.integers(-20, 35), st.none())}),
        min_size=1, max_size=5)}), 1000, 10000,
     rule="several steps with hot water drawn")
def heat_demand(case):
    n = 3
    data = HeatData(*mixed_kinds(case), case["th"])
    target = {"dhw": np.array([45., 50., 55.]),
              "space_heating": np.array([19., 20., 22.]),
              "emitter": np.full(n, case["th"]["emitter"])}
    db = dict(zip(["space_heating", "hot_water", "emitter"],
                  case["th"]["db"]))
    hs = HeatingSystem(n, data=data)
    dt = datetime.timedelta(seconds=case["dt"])
    bld = BuildingThermalDynamics(n, hs, 0., data=data, step_size=dt,
                                  target_temperatures=np.full(n, 20.))
    s, b = kinds_of(data, hs, bld)
    kw = {}
    if case["log"]:
        kw["logger"] = SimLogger("get_heat_demand", aggregated=False)
    sim = HeatDemand(n, hs, bld, step_size=dt, heatdemand_algo=case["algo"],
                     deadbands=db, **kw)
    for k in ("dhw", "space_heating"):
        req_equal(np.asarray(sim.get_heat_demand()[k], float), np.zeros(n),
                  "%s demand at start" % k)
    algo, hist, tags = case["algo"], [], []
    for i, x in enumerate(case["steps"]):
        T = {k: np.array([t[k] for t in x["T"]], float) for k in NODES}
        T["cold_water"] = 10.
        h = np.array(x["dhw"])
        args = dict(temperatures=T, target_temperatures=target,
                    dhw_heating_demand=h)
        if x["out"] is not None:
            args["outside_temperature"] = x["out"]
        if algo == "unknown":
            req(raises(ValueError, sim.step, **args),
                "unknown heat demand algorithm accepted")
            return None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            sim.step(**args)
        if algo == "room_estimation" and x["out"] is None:
            req(w, "no warning that the outside temperature is missing")
            algo = "heat_max_emmiters"
        want = demand(T, target, db, b, s, case["dt"], x["out"], h, algo)
        got = sim.get_heat_demand()
        for k, v in want.items():
            req_close(got[k], v, "%s demand after step %d" % (k, i),
                      atol=1e-6)
        hist.append({k: np.array(v) for k, v in want.items()})
        if h.any() and i:
            tags = ["drawn"]
    if case["log"]:
        got = sim.logger.get("get_heat_demand")
        for k in ("dhw", "space_heating"):
            req_close(got[k], [np.zeros(n)] + [x[k] for x in hist[:-1]],
                      "logged demand of " + k, atol=1e-6)
    return tags


# --------------------------------------------------- the whole simulation
def nan_list(lo, hi):
    return st.one_of(st.none(), st.lists(st.one_of(
        st.none(), st.integers(lo, hi)), min_size=4, max_size=4))


step_st = st.fixed_dictionaries({
    "out": st.integers(-20, 30), "irr": st.sampled_from([0., 0., 600.]),
    "dhw": st.lists(st.sampled_from([0., 0., 40., 300.]), min_size=4,
                    max_size=4),
    "gain": st.lists(st.integers(0, 800), min_size=4, max_size=4),
    "target": st.one_of(st.none(), st.integers(16, 24)),
    "target_dict": st.booleans(),
    "ext": st.sampled_from(["none", "none", "none", "dict", "array", "parts",
                            "dhw", "sh", "dict+dhw"]),
    "ext_dhw": st.lists(st.one_of(st.none(), st.integers(0, 5000)),
                        min_size=4, max_size=4),
    "ext_sh": st.lists(st.one_of(st.none(), st.integers(0, 5000)),
                       min_size=4, max_size=4),
    "cyl": st.one_of(st.none(), st.none(), st.none(), st.lists(st.one_of(
        st.none(), st.integers(30, 65)), min_size=4, max_size=4))})


def arr(xs, n):
    return np.array([np.nan if x is None else x for x in xs[:n]], float)


def merge(base, ext):
    return base if ext is None else np.where(np.isnan(ext), base, ext)


@sub("C28", "household", st.fixed_dictionaries({
    "systems": st.lists(system_st, min_size=1, max_size=2),
    "buildings": st.lists(building_st, min_size=1, max_size=2),
    "pick": st.sampled_from([0, 1, None, None]),
    "th": thermostat_st, "n": st.integers(1, 4),
    "dt": st.sampled_from([10, 30, 60, 60, 60, 120, 300]),
    "algo": st.sampled_from(ALGOS), "out0": st.integers(-15, 30),
    "log": st.booleans(), "read": st.booleans(),
    "steps": st.lists(step_st, min_size=1, max_size=25)}), 2000, 25000,
     budget=300,
     rule="own heating ran, or outputs came from outside for some only")
def household(case):
    n, dt = case["n"], case["dt"]
    ps = pb = None
    if case["pick"] is not None:
        ps, pb = case["pick"] % len(case["systems"]), \
            case["pick"] % len(case["buildings"])
    th = case["th"]
    db = dict(zip(["space_heating", "hot_water", "emitter"], th["db"]))
    data = HeatData(*mixed_kinds(case), th, system=ps, building=pb)
    kw = {}
    getters = ["get_power_demand", "get_dhw_heat_demand",
               "get_sh_heat_demand", "get_total_heat_demand",
               "get_room_temperature"]
    if case["log"]:
        kw["logger"] = SimLogger(*getters, aggregated=False)
    sim = FiveModulesHeatingSimulator(
        n, case["out0"], heatdemand_algo=case["algo"], data=data,
        step_size=datetime.timedelta(seconds=dt), **kw)
    s, b = kinds_of(data, sim, sim.building_sim)
    T = {k: np.array(v, float) for k, v in sim.get_temperatures().items()}
    target = {k: np.array(v, float)
              for k, v in sim.get_target_temperatures().items()}
    req(np.all(np.abs(T["interior"] - target["space_heating"]) <= 1),
        "interior %s starts away from its target %s", T["interior"],
        target["space_heating"])
    state = {"hot_water": np.zeros(n, bool),
             "space_heating": np.zeros(n, bool),
             "emitter": np.zeros(n, bool)}
    ext_cyl = np.zeros(n, bool)
    con = {"heater_on": np.zeros(n, bool), "heat_water_on": np.zeros(n, bool),
           "space_heating_on": np.zeros(n, bool)}
    dem = {"dhw": np.zeros(n), "space_heating": np.zeros(n)}
    hist = {g: [] for g in getters}
    tags = set()
    held = []
    for i, x in enumerate(case["steps"]):
        # ------------------------------------------------ inputs
        h = np.array(x["dhw"][:n])
        g = np.array(x["gain"][:n], float)
        args = dict(outside_temperature=x["out"], irradiance=x["irr"],
                    dhw_heating_demand=h, occupancy_thermal_gains=g,
                    lighting_thermal_gains=g / 2,
                    appliances_thermal_gains=g / 4)
        if x["target"] is not None:
            new = np.full(n, float(x["target"])) + np.arange(n)
            args["external_target_temperature"] = (
                {"space_heating": new.copy()} if x["target_dict"]
                else new.copy())
            target["space_heating"] = new
        e_dhw, e_sh = arr(x["ext_dhw"], n), arr(x["ext_sh"], n)
        how = x["ext"]
        if how == "dict":
            args["external_heat_outputs"] = {"dhw": e_dhw.copy(),
                                             "space_heating": e_sh.copy()}
        elif how == "dict+dhw":
            args["external_heat_outputs"] = {"dhw": e_dhw.copy() + 7,
                                             "space_heating": e_sh.copy()}
            args["external_dhw_outputs"] = e_dhw.copy()
        elif how == "parts":
            args["external_dhw_outputs"] = e_dhw.copy()
            args["external_sh_outputs"] = e_sh.copy()
        elif how == "dhw":
            args["external_dhw_outputs"] = e_dhw.copy()
            e_sh = None
        elif how == "sh":
            args["external_sh_outputs"] = e_sh.copy()
            e_dhw = None
        elif how == "array":
            args["external_heat_outputs"] = e_dhw.copy()
        else:
            e_dhw = e_sh = None
        if how == "array":
            # split on what was requested, hot water first, all of it used
            tot = e_dhw
            d = np.where(con["heat_water_on"],
                         np.clip(dem["dhw"], 0, tot), 0.)
            e_sh = np.where(con["space_heating_on"],
                            np.clip(dem["space_heating"], 0, tot - d), 0.)
            e_sh = np.where(np.isnan(tot), np.nan, e_sh)
            e_dhw = tot - e_sh
        if x["cyl"] is not None:
            args["external_cylinder_temperature"] = arr(x["cyl"], n)
        keep = {k: ({m: v.copy() for m, v in w.items()}
                    if isinstance(w, dict) else np.array(w))
                for k, w in args.items()}
        if case["read"]:
            for gname in getters:
                v = getattr(sim, gname)()
                held.append((gname, v, np.array(v)))
        for gname in getters:
            hist[gname].append(np.array(getattr(sim, gname)())
                               if case["read"] else None)
        # ------------------------------------------------ the step
        sim.step(**args)
        for k, v in keep.items():
            if isinstance(v, dict):
                req(set(args[k]) == set(v), "%s given now has %s", k,
                    sorted(args[k]))
                for m in v:
                    req_equal(args[k][m], v[m], "%s given" % k)
            else:
                req_equal(args[k], v, "%s given" % k)
        # ------------------------------------------------ the model
        if x["cyl"] is not None:
            T["cylinder"] = merge(T["cylinder"], arr(x["cyl"], n))
        for name, comp, key in (("hot_water", "cylinder", "dhw"),
                                ("space_heating", "interior",
                                 "space_heating"),
                                ("emitter", "emitter", "emitter")):
            state[name] = next_thermostat(state[name], T[comp], target[key],
                                          db[name])
        before = dict(T)
        by_demand = s["is_combi"].astype(bool) | ext_cyl
        water = np.where(by_demand, h > 0, state["hot_water"])
        space = state["space_heating"] & state["emitter"]
        con = {"heat_water_on": water, "space_heating_on": space,
               "heater_on": water | space}
        dem = demand(T, target, db, b, s, dt, x["out"], h, case["algo"])
        own = outputs(dem, water, space, s)
        out = {"dhw": merge(own["dhw"], e_dhw),
               "space_heating": merge(own["space_heating"], e_sh)}
        outside = np.zeros(n, bool)
        for e in (e_dhw, e_sh):
            if e is not None:
                outside |= ~np.isnan(e)
        T = next_temperatures(T, b, s, dt, x["out"], x["irr"], h,
                              g + g / 2 + g / 4, out["space_heating"],
                              out["dhw"])
        share = fuel_shares(own, s)
        power = np.where(space, s["pump_power"], s["standby_power"]) + \
            np.where(s["fuel_type"] == "Electricity",
                     share * s["fuel_flow_rate"] * 1000., 0.)
        power = np.where(outside, 0., power)
        # ------------------------------------------------ comparison
        at = " after step %d" % i
        st_ = sim.get_thermostat_states()
        for k, v in state.items():
            req_equal(np.asarray(st_[k], bool), v, k + " thermostat" + at)
        c = sim.get_controls()
        for k, v in con.items():
            req_equal(np.asarray(c[k], bool), v, k + at)
        ho = sim.get_heat_outputs()
        for k, v in out.items():
            req_close(ho[k], v, "%s output" % k + at, rtol=1e-7, atol=1e-4)
        req_close(ho["total"], out["dhw"] + out["space_heating"],
                  "total output" + at, rtol=1e-7, atol=1e-4)
        got = sim.get_temperatures()
        for k in NODES:
            req_close(got[k], T[k], k + " temperature" + at, rtol=1e-8,
                      atol=1e-6)
        req_close(sim.get_room_temperature(), T["interior"],
                  "room temperature" + at, rtol=1e-8, atol=1e-6)
        req_close(sim.get_power_demand(), power, "power" + at, rtol=1e-7,
                  atol=1e-4)
        if x["cyl"] is not None:
            ext_cyl = ~np.isnan(arr(x["cyl"], n))
        elif ext_cyl.any():
            # how long an external cylinder lasts when it is no longer given
            # is not specified
            return sorted(tags)
        sh_dem = dem["space_heating"] * space
        dhw_dem = dem["dhw"] * water
        mine = ~ext_cyl
        req_close(sim.get_sh_heat_demand(), sh_dem, "space heat demand" + at,
                  rtol=1e-7, atol=1e-4)
        gd = np.asarray(sim.get_dhw_heat_demand())
        req_close(gd[mine], dhw_dem[mine], "hot water heat demand" + at,
                  rtol=1e-7, atol=1e-4)
        req(np.all(gd[~mine & ~water] == 0), "heat demand of an external "
            "cylinder without hot water on: %s", gd)
        # only what is drawn and lost, before or after the step
        drawn = h * (target["dhw"] - T["cold_water"])
        want = [(drawn + s["cyl_loss"] * (t["cylinder"] - t["interior"]))
                * water for t in (before, T)]
        near = np.any([np.isclose(gd, w, rtol=1e-6, atol=1e-3)
                       for w in want], axis=0)
        req(np.all(near[~mine]), "heat demand %s of external cylinders, "
            "expected %s (or %s)", gd, *want)
        if (~mine & water).any():
            tags.add("external cylinder")
        req_close(sim.get_total_heat_demand(), gd + sh_dem,
                  "total heat demand" + at, rtol=1e-7, atol=1e-4)
        if not outside.all() and outside.any():
            tags.add("some outside")
        if own["space_heating"].any():
            tags.add("own heating")
        T = {k: np.array(v, float) for k, v in got.items()}
        dem = {k: np.array(v, float) for k, v in dem.items()}
    for gname, v, was in held:
        req_equal(v, was, "%s read at an earlier step" % gname)
    if case["log"] and case["read"]:
        for gname in getters:
            req_equal(np.asarray(sim.logger.get(gname)), hist[gname],
                      "logged " + gname)
    return sorted(tags)


@sub("C28", "reached", st.fixed_dictionaries({
    "system": system_st, "building": building_st, "th": thermostat_st,
    "dt": st.sampled_from([1, 20, 60, 60, 300, 600, 900]),
    "out": st.integers(-15, 10), "k": st.integers(1, 30)}), 400, 4000,
     rule="the cylinder and the emitters were heated up")
def reached(case):
    """Unlimited power: one step heats up to the end of the band."""
    n = 3
    s = {**case["system"], "heat_output_sh": 1e12, "heat_output_dhw": 1e12,
         "is_combi": False}
    th = case["th"]
    data = HeatData([s], [case["building"]], th)
    sim = FiveModulesHeatingSimulator(
        n, case["out"], data=data,
        step_size=datetime.timedelta(seconds=case["dt"]))
    tg = {k: np.array(v) for k, v in sim.get_target_temperatures().items()}
    z = np.zeros(n)
    tags = set()
    for i in range(case["k"]):
        sim.step(case["out"], 0., z + 40. * (i % 2), z, z, z)
        c = {k: np.asarray(v, bool) for k, v in sim.get_controls().items()}
        T = sim.get_temperatures()
        w, sp = c["heat_water_on"], c["space_heating_on"]
        # (a hot room can heat them beyond: no heat is demanded then)
        both = sp & ~w & (np.asarray(sim.get_sh_heat_demand()) >= 0)
        w = w & (np.asarray(sim.get_dhw_heat_demand()) >= 0)
        if w.any():
            req_close(np.asarray(T["cylinder"])[w],
                      (tg["dhw"] + th["db"][1])[w],
                      "cylinder heated with unlimited power", rtol=1e-6)
            tags.add("cylinder")
        if both.any():
            req_close(np.asarray(T["emitter"])[both],
                      (tg["emitter"] + th["db"][2])[both],
                      "emitter heated with unlimited power", rtol=1e-6)
            tags.add("emitter")
    return sorted(tags) if len(tags) == 2 else None
