"""C03: getters show the current step, and reading or logging changes nothing.

Four runs of one simulation from the same random seed are compared: without
any reads, with generated reads of generated getters after each step, with a
logger, and stopped at generated steps.
"""
import datetime as dt
import inspect
import random
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Violation, req, req_equal, sub
from props import c11, c12, c23, c24, c25, c28, c29, c33, lib
from props.lib_app import TYPES, AppData, profiles
from props.lib_heat import HeatData, building_st, system_st, thermostat_st
from props.lib_gtou import sparse_multi

from demod.simulators.activity_simulators import (
    MarkovChain1rstOrder, SemiMarkovSimulator,
    SubgroupsIndividualsActivitySimulator)
from demod.simulators.appliance_simulators import (
    ActivityApplianceSimulator, OccupancyApplianceSimulator,
    ProbabiliticActivityAppliancesSimulator)
from demod.simulators.base_simulators import SimLogger
from demod.simulators.crest_simulators import Crest4StatesModel
from demod.simulators.heating_simulators import (
    BuildingThermalDynamics, FiveModulesHeatingSimulator, HeatDemand,
    HeatingSystem, Thermostats, VariableThermostatTemperatureSimulator)
from demod.simulators.lighting_simulators import (CrestLightingSimulator,
                                                  FisherLightingSimulator)
from demod.simulators.sparse_simulators import (SparseTransitStatesSimulator,
                                                SubgroupsActivitySimulator)

START = dt.datetime(2014, 3, 5, 4)


def snap(x):
    """Values of a reading, apart from the simulator."""
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (dt.datetime, dt.timedelta, str, type(None))):
        return x
    return np.array(x)


def same(a, b, what):
    if isinstance(a, dict) or isinstance(b, dict):
        req(isinstance(a, dict) and isinstance(b, dict)
            and sorted(a) == sorted(b), "%s: %s and %s", what, a, b)
        for k in a:
            same(a[k], b[k], "%s[%s]" % (what, k))
    elif isinstance(a, np.ndarray):
        req_equal(a, b, what)
    else:
        req(a == b, "%s: %s and %s", what, a, b)


def equal(a, b):
    try:
        same(a, b, "")
        return True
    except Violation:
        return False


def getters_of(sim, more=()):
    """Names of the getters that need no argument, and calls with one."""
    out = {}
    for name in sorted(dir(type(sim))):
        if not name.startswith("get_"):
            continue
        f = getattr(sim, name)
        if not callable(f):
            continue
        try:
            need = [p for p in inspect.signature(f).parameters.values()
                    if p.default is p.empty and p.kind not in (
                        p.VAR_POSITIONAL, p.VAR_KEYWORD)]
        except (TypeError, ValueError):
            continue
        if not need:
            out[name] = ()
    for name, arg in more:
        if callable(getattr(sim, name, None)):
            out["%s(%s)" % (name, arg)] = (arg,)
    return out


def read(sim, name, args):
    return getattr(sim, name.split("(")[0])(*args)


def seed_all(seed):
    np.random.seed(seed % 2**31)
    random.seed(seed)


def compare(case, make, move, more=()):
    """make(**kw) builds a simulator, move(sim, i) runs its i-th step."""
    n = case["n"]

    def run(k, reads=None, after=None, **kw):
        seed_all(case["seed"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sim = make(**kw)
            if reads:
                reads(sim, 0)
            for i in range(k):
                move(sim, i)
                if reads:
                    reads(sim, i + 1)
        return sim

    # which getters there are, and that the run is determined by the seed
    one, two = run(n), run(n)
    names = getters_of(one, more)
    final = {}
    for g, a in list(names.items()):
        try:
            final[g] = snap(read(one, g, a))
            ok = equal(final[g], snap(read(two, g, a)))
        except Exception:
            ok = False                         # not for this simulator
        if not ok:
            names.pop(g)
            final.pop(g, None)
    if not names:
        return []
    order = sorted(names)

    # the same steps, read at once there
    at = {k: None for k in {x % (n + 1) for x in case["stops"]}}
    for k in at:
        sim = run(k)
        at[k] = {g: snap(read(sim, g, a)) for g, a in names.items()}
    at[n] = final

    held = []
    n_reads = [0, 0]

    def reads(sim, i):
        rng = np.random.RandomState((case["seed"] * 131 + i) % 2**31)
        mode = case["reads"][i % len(case["reads"])]
        wanted = [order[j] for j in rng.permutation(len(order))]
        if mode == "none" and i not in at:
            return
        if mode == "some":
            wanted = wanted[:1 + rng.randint(len(wanted))]
        if mode == "twice":
            wanted = wanted + wanted
        for g in wanted:
            v = read(sim, g, names[g])
            n_reads[0] += 1
            if i in at:
                n_reads[1] += i < n
                same(snap(v), at[i][g], "%s read after %d steps, among "
                     "other reads and without them" % (g, i))
            for q, x in (v.items() if isinstance(v, dict)
                         else [("", v)]):
                if isinstance(x, np.ndarray):
                    held.append(("%s %s" % (g, q), i, x, x.copy()))
            if isinstance(v, np.ndarray) and not names[g] and \
                    case["single"]:
                single(sim, g, v)

    def single(sim, g, v):
        # a single household
        for h in {0, len(v) - 1} if v.ndim else ():
            try:
                one = getattr(sim, g)(h)
            except TypeError:
                return                        # only whole readings
            req_equal(one, v[h], "%s of household %d" % (g, h))

    # single household readings only where the argument is the household
    sim = run(n, reads)
    for g, a in names.items():
        same(snap(read(sim, g, a)), final[g],
             "%s at the end of a run with reads and without" % g)
    for g, i, v, was in held:
        req_equal(v, was, "%s read after %d steps, seen later" % (g, i))

    # a logger
    attrs = [g for g in order if not names[g]]
    if case["log"] == "some":
        attrs = attrs[::2]
    if attrs and case["log"] != "no":
        agg = case["log"] == "aggregated"
        if agg:
            attrs = [g for g in attrs if isinstance(final[g], np.ndarray)
                     and final[g].dtype.kind in "bif"]
        if attrs:
            sim = run(n, logger=SimLogger(attrs, aggregated=agg))
            for g, a in names.items():
                same(snap(read(sim, g, a)), final[g],
                     "%s at the end of a logged run and without logger" % g)
            for g in attrs:
                got = sim.logger.get(g)
                for k, v in at.items():
                    if k >= n:
                        continue
                    x = ({q: w[k] for q, w in got.items()}
                         if isinstance(got, dict) else got[k])
                    if agg:
                        req(np.isclose(x, np.sum(v[g])), "total %s logged "
                            "after %d steps is %s, read %s", g, k, x,
                            np.sum(v[g]))
                    else:
                        same(snap(x), v[g], "%s logged and read after %d "
                             "steps" % (g, k))
    if n_reads[1] and n > 1:
        return ["reads"]
    return []


BASE = {
    "n": st.integers(1, 25), "seed": st.integers(0, 10**6),
    "stops": st.lists(st.integers(0, 24), min_size=1, max_size=3),
    "reads": st.lists(st.sampled_from(["all", "some", "none", "twice"]),
                      min_size=1, max_size=5),
    "log": st.sampled_from(["no", "all", "some", "aggregated"]),
    "single": st.booleans()}


def cases(kinds, **more):
    return st.fixed_dictionaries(
        {"kind": st.sampled_from(kinds), **BASE, **more})


RULE = "getters were read and compared before the end of the run"


# ------------------------------------------------------------- activities
@sub("C03", "activities", cases(
    ["markov", "semi_markov", "sparse", "sparse_multi", "persons", "crest"],
    n_hh=st.integers(1, 6), minute=st.integers(0, 1439)), 500, 6000,
     budget=220, rule=RULE)
def activities(case):
    n_hh, kind, seed = case["n_hh"], case["kind"], case["seed"]
    rng = np.random.RandomState(seed)
    start = START + dt.timedelta(minutes=case["minute"])
    more = []
    if kind in ("markov", "semi_markov"):
        labels, p0 = ["a", "b", "c"], np.array([.5, .3, .2])
        tpm = c11.random_tpm(rng, 144, 3, False)
        if kind == "semi_markov":
            tpm = rng.uniform(size=(144, 3, 3)) * (1 - np.eye(3))
            tpm /= tpm.sum(axis=-1, keepdims=True)
            dur = rng.uniform(size=(144, 3, 7))
            dur[..., 0] = 0
            dur /= dur.sum(axis=-1, keepdims=True)

        def make(**kw):
            if kind == "markov":
                sim = MarkovChain1rstOrder(n_hh, 3, tpm.copy(),
                                           list(labels), **kw)
                sim.initialize_starting_state(p0.copy())
            else:
                sim = SemiMarkovSimulator(n_hh, 3, tpm.copy(), dur.copy(),
                                          list(labels), **kw)
                sim.initialize_starting_state(p0.copy(), dur[0].copy())
            return sim
        more = [("get_n_doing_activity", "b"), ("get_n_doing_state", 2)]
    elif kind == "sparse":
        data = c12.SparseData(["HWH", "HOH", "x"], 5, 20, 2, False, seed)

        def make(**kw):
            return SparseTransitStatesSimulator(
                n_hh, {"n_residents": 3}, data=data, **kw)
        more = [("get_n_doing_activity", "x"), ("get_n_doing_state", 1)]
    elif kind == "sparse_multi":
        data = c12.SparseData(["HWH", "HOH", "x"], 5, 144, 2, False, seed)

        def make(**kw):
            return SubgroupsActivitySimulator(
                [{"n_residents": 1}, {"n_residents": 3}], [n_hh, 2],
                data=data, start_datetime=start, **kw)
        more = [("get_n_doing_activity", "x")]
    elif kind == "persons":
        data = c11.RandomData(4, seed)

        def make(**kw):
            return SubgroupsIndividualsActivitySimulator(
                [{"n_residents": 2}, {"n_residents": 3}], [n_hh, 1],
                data=data, start_datetime=start, **kw)
        more = [("get_performing_activity", "away"),
                ("get_n_doing_activity", "sleeping")]
    else:
        data = c12.CrestData([1, 2, 4], [.3, .3, .4], seed)

        def make(**kw):
            return Crest4StatesModel(n_hh, data=data, start_datetime=start,
                                     **kw)
    return compare(case, make, lambda sim, i: sim.step(), more)


# ---------------------------------------------------------------- climate
@sub("C03", "climate", cases(
    ["real_climate", "interpolated_climate", "crest_climate",
     "crest_irradiance"], minute=st.integers(0, 1439)), 40, 500,
     budget=220, rule=RULE)
def climate(case):
    start = START + dt.timedelta(minutes=case["minute"])
    step = dt.timedelta(minutes=30)
    from demod.simulators import weather_simulators as w

    def make(**kw):
        kind = case["kind"]
        if kind == "real_climate":
            return w.RealClimate(lib.stub_climate(start, step), start, **kw)
        if kind == "interpolated_climate":
            return w.RealInterpolatedClimate(
                lib.stub_climate(start, 2 * step), start, step_size=step,
                **kw)
        cls = (w.CrestClimateSimulator if kind == "crest_climate"
               else w.CrestIrradianceSimulator)
        return cls(start_datetime=start, **kw)
    return compare({**case, "single": False}, make,
                   lambda sim, i: sim.step())


# ------------------------------------------------------------- appliances
def some_apps(rng, acts, **more):
    return [{"type": TYPES[rng.randint(len(TYPES))],
             "act": acts[rng.randint(len(acts))],
             "iso": bool(rng.randint(2)), "mean": float(rng.randint(2000)),
             "standby": int(rng.randint(4)), "dur": float(rng.randint(1, 9)),
             "delay": int(rng.randint(4)), "water": bool(rng.randint(2)),
             "flow": 6., "lam": 12., "on": float(rng.uniform()),
             **{k: f() for k, f in more.items()}}
            for _ in range(rng.randint(1, 6))]


@sub("C03", "appliances", cases(
    ["occupancy", "activity", "probabilistic"], n_hh=st.integers(1, 4),
    profiles=st.sampled_from(["nothing", "only_switched_on", "uniform",
                              "only_always_on"])),
     250, 3000, budget=220, rule=RULE)
def appliances(case):
    n_hh, kind, seed = case["n_hh"], case["kind"], case["seed"]
    rng = np.random.RandomState(seed)
    prof = case["profiles"]
    if kind == "occupancy":
        apps = some_apps(rng, c23.ACTS)
        acts = c23.Acts(seed, 0.5)
        data = AppData(apps, acts=acts, on_profiles=profiles(seed, TYPES[::2]),
                       full_profiles=profiles(seed, TYPES[1::2]))
        occ = [rng.randint(0, 4, size=n_hh) for _ in range(case["n"] + 1)]

        def make(**kw):
            return OccupancyApplianceSimulator(
                [{"n_residents": 3}], [n_hh], data=data,
                start_datetime=START + dt.timedelta(minutes=seed % 50),
                initial_active_occupancy=occ[-1].copy(),
                equipped_sampling_algo="basic", real_profiles_algo=prof,
                **kw)
        return compare(case, make, lambda sim, i: sim.step(occ[i].copy()))
    names = c24.ACTS
    own = [] if kind == "probabilistic" else ["level", "constant"]
    apps = some_apps(rng, names + own)
    hist = c24.activity_history(list(rng.randint(10, size=30)), n_hh,
                                case["n"] + 1, names)
    kw0 = dict(on_profiles=profiles(seed, TYPES[::2]),
               full_profiles=profiles(seed, TYPES[1::2]))
    if kind == "activity":
        data = AppData(apps, **kw0)
        cls = ActivityApplianceSimulator
        more = {}
    else:
        nan = ["nan"] * len(apps)
        count = {}
        targets = {}
        for a in apps:
            i = count[a["type"]] = count.get(a["type"], 0) + 1
            targets[a["type"] + ("_%d" % i if i > 1 else "")] = 4000.
        if prof in ("uniform", "only_always_on"):
            prof = "nothing"
        data = c33.ProbData(
            apps, targets, {a: np.full(144, 0.1) for a in names},
            {a: np.array([0.5, 0.3, 0.2]) for a in names},
            previous_activity=nan, previous_appliance_type=nan, **kw0)
        cls = ProbabiliticActivityAppliancesSimulator
        more = dict(subgroups_list=[{"n_residents": 2}],
                    n_households_list=[n_hh])

    def make(**kw):
        return cls(n_hh, c24.copy_acts(hist[0]), data=data,
                   equipped_sampling_algo="basic", real_profiles_algo=prof,
                   **more, **kw)
    return compare(case, make,
                   lambda sim, i: sim.step(c24.copy_acts(hist[i + 1])))


@sub("C03", "always_on", cases(
    ["activity"], n_hh=st.integers(1, 4),
    types=st.lists(st.sampled_from(TYPES), min_size=2, max_size=8),
    profiles=st.sampled_from(["uniform", "only_always_on"])), 100, 1500,
     budget=150, rule=RULE)
def always_on(case):
    """Appliances of several types, with load profiles, always on."""
    n_hh, seed = case["n_hh"], case["seed"]
    rng = np.random.RandomState(seed)
    apps = [dict(some_apps(rng, ["level", "constant"])[0], type=t)
            for t in case["types"]]
    data = AppData(apps, on_profiles=profiles(seed, TYPES),
                   full_profiles=profiles(seed + 1, TYPES))
    acts = {"tv": np.zeros(n_hh, dtype=int)}

    def make(**kw):
        return ActivityApplianceSimulator(
            n_hh, c24.copy_acts(acts), data=data,
            equipped_sampling_algo="basic",
            real_profiles_algo=case["profiles"], **kw)
    return compare(case, make, lambda sim, i: sim.step(c24.copy_acts(acts)))


# --------------------------------------------------------------- lighting
@sub("C03", "lighting", cases(["fisher", "crest"], n_hh=st.integers(1, 4)),
     500, 6000, rule=RULE)
def lighting(case):
    n_hh, kind = case["n_hh"], case["kind"]
    rng = np.random.RandomState(case["seed"])
    occ = [rng.randint(0, 4, size=n_hh) for _ in range(case["n"])]
    irr = [float(rng.choice([0, 30, 90, 400])) for _ in range(case["n"])]
    if kind == "fisher":
        data = c25.FisherData(10, 200, 60.)

        def make(**kw):
            return FisherLightingSimulator(n_hh, data=data, **kw)
    else:
        data = c25.BulbData([[40., 11., 0.], [60., 7., 7.]], 2.,
                            (0, .4, .6, .7), (1, 3, 8), (2, 6, 20),
                            (.3, .3, .4), 60., 10.)

        def make(**kw):
            return CrestLightingSimulator(
                n_hh, data=data, bulbs_sampling_algo="config", **kw)
    return compare(case, make, lambda sim, i: sim.step(
        occ[i].copy(), irr[i]))


# ---------------------------------------------------------------- heating
HEAT_KINDS = ["building", "system", "demand", "thermostats",
              "household"]


@sub("C03", "heating", cases(
    HEAT_KINDS, n_hh=st.integers(1, 3),
    systems=st.lists(system_st, min_size=1, max_size=3),
    buildings=st.lists(building_st, min_size=1, max_size=2),
    th=thermostat_st, algo=st.sampled_from(c28.ALGOS)), 500, 6000,
     budget=220, rule=RULE)
def heating(case):
    n, kind = case["n_hh"], case["kind"]
    rng = np.random.RandomState(case["seed"])
    data = HeatData(case["systems"], case["buildings"], case["th"])
    k = case["n"]
    inp = [{"out": float(rng.randint(-15, 25)), "irr": float(rng.choice(
        [0, 300])), "dhw": rng.choice([0., 80.], size=n),
        "g": rng.randint(0, 500, size=n).astype(float),
        "sh": rng.randint(0, 6000, size=n).astype(float),
        "hw": rng.randint(0, 6000, size=n).astype(float),
        "on": rng.randint(2, size=(2, n)).astype(bool),
        "T": {x: rng.uniform(15, 55, size=n) for x in c28.NODES}}
        for _ in range(k)]

    if kind == "building":
        def make(**kw):
            return BuildingThermalDynamics(
                n, HeatingSystem(n, data=data), 5., data=data,
                target_temperatures=np.full(n, 20.), **kw)

        def move(sim, i):
            x = inp[i]
            sim.step(x["out"], x["irr"], x["dhw"].copy(), x["g"].copy(),
                     x["g"].copy(), x["g"].copy(),
                     {"space_heating": x["sh"].copy(),
                      "dhw": x["hw"].copy()})
    elif kind == "system":
        def make(**kw):
            return HeatingSystem(n, data=data, **kw)

        def move(sim, i):
            x = inp[i]
            sim.step({"heat_water_on": x["on"][0].copy(),
                      "space_heating_on": x["on"][1].copy(),
                      "heater_on": x["on"][0] | x["on"][1]},
                     {"space_heating": x["sh"].copy(),
                      "dhw": x["hw"].copy()})
    elif kind == "thermostats":
        def make(**kw):
            return Thermostats(n, data=data, **kw)

        def move(sim, i):
            sim.step({x: v.copy() for x, v in inp[i]["T"].items()})
    elif kind == "demand":
        def make(**kw):
            hs = HeatingSystem(n, data=data)
            bld = BuildingThermalDynamics(
                n, hs, 0., data=data, target_temperatures=np.full(n, 20.))
            return HeatDemand(n, hs, bld, heatdemand_algo=case["algo"],
                              deadbands={"space_heating": 2.,
                                         "hot_water": 5., "emitter": 5.},
                              **kw)

        def move(sim, i):
            x = inp[i]
            t = {q: v.copy() for q, v in x["T"].items()}
            t["cold_water"] = 10.
            sim.step(temperatures=t, target_temperatures={
                "dhw": np.full(n, 50.), "space_heating": np.full(n, 20.),
                "emitter": np.full(n, 50.)},
                dhw_heating_demand=x["dhw"].copy(),
                outside_temperature=x["out"])
    else:
        def make(**kw):
            return FiveModulesHeatingSimulator(
                n, 5., heatdemand_algo=case["algo"], data=data, **kw)

        def move(sim, i):
            x = inp[i]
            sim.step(x["out"], x["irr"], x["dhw"].copy(), x["g"].copy(),
                     x["g"].copy(), x["g"].copy())
    return compare(case, make, move)


# ----------------------------------------------------- the load simulation
@sub("C03", "set_points", cases(
    ["random", "living lab", "Cool Conservers", "Steady and Savvy",
     "On-Demand Sizzlers", "Toasty Cruisers", "Hot and Cold Fluctuators"],
    n_hh=st.integers(1, 40), hour=st.integers(0, 23),
    active=st.booleans()), 120, 2000, budget=150, rule=RULE)
def set_points(case):
    """Thermostats set by the residents."""
    n, rng = case["n_hh"], np.random.RandomState(case["seed"])
    low = int(case["active"])
    inp = []
    for _ in range(case["n"] + 1):
        occ = rng.randint(low, 3, size=n)
        inp.append((occ, np.minimum(occ, rng.randint(low, 3, size=n))))

    def make(**kw):
        return VariableThermostatTemperatureSimulator(
            n, inp[-1][0].copy(), inp[-1][1].copy(),
            dt.datetime(2014, 1, 1, case["hour"]),
            pattern_attribution_method=case["kind"], **kw)
    return compare(case, make, lambda sim, i: sim.step(
        inp[i][0].copy(), inp[i][1].copy()))


@sub("C03", "load", cases(["load"], n_hh=st.integers(1, 3),
                          heating=st.booleans(),
                          slot=st.integers(0, 143)), 40, 500, budget=250,
     rule=RULE)
def load(case):
    x = {"day": case["seed"] % 300, "slot": case["slot"],
         "heating": case["heating"], "climate": True}

    def make(**kw):
        return c29.make(case["n_hh"], x, **kw)[1]
    return compare({**case, "n": min(case["n"], 25)}, make,
                   lambda sim, i: sim.step())
