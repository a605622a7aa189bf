"""C22: consumption of appliances follows their usage."""
import datetime as dt
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import raises, req, req_close, req_equal, sub
from props.c23 import Acts
from props.c24 import activity_history, copy_acts
from props.c33 import ProbData
from props.lib_app import app_strategy, profiles

from demod.simulators.appliance_simulators import (
    ActivityApplianceSimulator, OccupancyApplianceSimulator,
    ProbabiliticActivityAppliancesSimulator)

ACTS = ["cooking", "tv", "washing"]
ALWAYS = ["level", "constant"]


@sub("C22", "consumption", st.fixed_dictionaries({
    "kind": st.sampled_from(["occupancy", "activity", "probabilistic"]),
    "apps": st.lists(app_strategy(ACTS + ["level"]), min_size=1, max_size=6),
    "hh": st.lists(st.integers(1, 3), min_size=1, max_size=3),
    "acts": st.lists(st.integers(0, 9), min_size=6, max_size=40),
    "n": st.integers(1, 40),
    "own": st.sampled_from([1., 0.6, 0.6]),
    "seed": st.integers(0, 10**6),
    "profiles": st.sampled_from(["nothing", "only_switched_on",
                                 "only_always_on", "uniform"]),
    "order": st.lists(st.integers(0, 7), max_size=8)}), 1200, 15000,
     budget=200, rule="appliances were used and not used during the run")
def consumption(case):
    apps = [dict(a) for a in case["apps"]]
    if case["kind"] == "activity":
        for a in apps:        # restarts of the patterns are visible then
            a["iso"] = True
    if case["kind"] == "probabilistic":
        for a in apps:
            a["act"] = "tv" if a["act"] == "level" else a["act"]
    n_hh = sum(case["hh"])
    if case["profiles"] != "nothing" and case["kind"] == "occupancy":
        for a in apps:        # fixtures have a volume, no load profile
            a["water"] = False
    types = sorted({a["type"] for a in apps})
    on = profiles(case["seed"], types[::2])
    full = profiles(case["seed"] + 1, types[1::2] + types[:1])
    nan = ["nan"] * len(apps)
    data = ProbData(
        [{**a, "own": case["own"]} for a in apps],
        {t + k: 1e8 if t != types[0] else 1e5
         for t in types for k in ["", "_2", "_3", "_4", "_5", "_6"]},
        {a: np.full(144, 0.1) for a in ACTS + ["level"]},
        {a: np.array([0.5, 0.3, 0.2]) for a in ACTS + ["level"]},
        on_profiles=on, full_profiles=full, previous_activity=nan,
        previous_appliance_type=nan)
    data.acts = Acts(case["seed"], 0.6)
    hist = activity_history(case["acts"], n_hh, case["n"] + 1, ACTS)
    subgroups = [{"n_residents": i + 1} for i in range(len(case["hh"]))]
    kw = dict(data=data, subgroups_list=subgroups,
              n_households_list=case["hh"], equipped_sampling_algo="basic",
              real_profiles_algo=case["profiles"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["kind"] == "occupancy":
            sim = OccupancyApplianceSimulator(
                start_datetime=dt.datetime(2021, 3, 1, 4, 9), **kw)
        else:
            cls = (ActivityApplianceSimulator if case["kind"] == "activity"
                   else ProbabiliticActivityAppliancesSimulator)
            sim = cls(n_hh, copy_acts(hist[0]), **kw)
    owned = np.asarray(sim.available_appliances)
    mean = np.array([a["mean"] for a in apps])
    standby = np.array([a["standby"] for a in apps])
    flow = np.array([a["flow"] if a["water"] else 0. for a in apps])
    var, cand = [], {}
    for a, app in enumerate(apps):
        al = app["act"] in ALWAYS
        src = full if al else on
        var.append(app["type"] in src and case["profiles"] in (
            "uniform", "only_always_on" if al else "only_switched_on"))
        if var[a]:
            loads = [list(x) for x in src[app["type"]].values()]
            for h in range(n_hh):
                cand[h, a] = loads
    var = np.array(var)
    run = {}                    # position in the current use
    getters = ["get_current_usage", "get_current_power_consumptions",
               "get_power_demand", "get_thermal_gains",
               "get_energy_consumption", "get_current_water_consumptions",
               "get_dhw_heating_demand", "get_mask_available_appliances"]
    seen_on = seen_off = seen_var = seen_water = False
    for i, acts in enumerate(hist):
        if i:
            if case["kind"] == "occupancy":
                sim.step(acts["cooking"] + acts["tv"])
            else:
                sim.step(copy_acts(acts))
        values = {}
        for j in case["order"] + list(range(len(getters))):
            v = np.array(getattr(sim, getters[j])())
            if getters[j] in values:
                req_equal(v, values[getters[j]], getters[j] + " again")
            values[getters[j]] = v
            one = getattr(sim, getters[j])
            if j in (1, 4, 5, 6):
                req_equal(one(n_hh - 1), v[n_hh - 1],
                          getters[j] + " of one household")
        use = values["get_current_usage"]
        power = values["get_current_power_consumptions"]
        water = values["get_current_water_consumptions"]
        req(use.dtype == bool and use.shape == owned.shape, "usage %s", use)
        req(not (use & ~owned).any(), "appliances nobody owns are used")
        req(not (values["get_mask_available_appliances"]
                 & (use & (case["kind"] != "activity") | ~owned)).any(),
            "appliances in use or not owned can be switched on")
        want = np.where(use, mean, standby) * owned
        for h, a in zip(*np.where(use & var[None, :])):
            # values of one of the load profiles, in their order
            always = apps[a]["act"] in ALWAYS and case["kind"] == "activity"
            new = []
            for c in cand[h, a]:
                x, starts = c if isinstance(c, tuple) else (
                    c, list(range(len(c))) if always else [0])
                k = run.get((h, a), 0)
                ok = [s for s in starts
                      if x[(s + k) % len(x)] == power[h, a]]
                if ok:
                    new.append((x, ok if always else [0]))
            req(new, "step %d: appliance %d of household %d uses %s W in "
                "step %d of its use, profiles %s", i, a, h, power[h, a],
                run.get((h, a), 0), cand[h, a])
            cand[h, a] = new
            want[h, a] = power[h, a]
            seen_var = True
        for h in range(n_hh):
            for a in range(len(apps)):
                if use[h, a]:
                    run[h, a] = run.get((h, a), 0) + 1
                else:
                    run.pop((h, a), None)
        req_close(power, want, "power after %d steps" % i)
        for g in ("get_power_demand", "get_thermal_gains",
                  "get_energy_consumption"):
            req_close(values[g], want.sum(axis=1), g)
        req(((water <= (use * flow) + 1e-9) & (water >= 0)).all(),
            "water of unused appliances: %s", water)
        if case["kind"] != "occupancy":
            req_close(water, use * flow, "water")
        req(not (use & (flow > 0) & (water <= 0)).any(),
            "used fixtures without water")
        req_close(values["get_dhw_heating_demand"], water.sum(axis=1) * 70.,
                  "heat of the hot water")
        seen_on |= bool(use.any())
        seen_off |= bool((owned & ~use).any())
        seen_water |= bool((water > 0).any())
    req_equal(sim.available_appliances, owned, "owned appliances")
    if not (seen_on and seen_off):
        return None
    return [case["kind"]] + ["profile"] * seen_var + ["water"] * seen_water


@sub("C22", "fleet", st.fixed_dictionaries({
    "kind": st.sampled_from(["activity", "probabilistic"]),
    "loads": st.integers(1, 6), "seed": st.integers(0, 1000)}), 30, 300,
     budget=60, rule="several load profiles to choose from")
def fleet(case):
    """Each owner gets one of the profiles of the type, all as likely."""
    from pbt.core import P_REJECT, gtest_pvalue
    n_hh = 1500
    k = case["loads"]
    app = [{"type": "tv", "act": "tv", "iso": True, "mean": 1., "standby": 0,
            "dur": 3, "delay": 0, "water": False, "flow": 0., "lam": 0.,
            "on": 1}]
    on = {"tv": {"l%d" % i: np.full(3 + i, 100. + i) for i in range(k)}}
    nan = ["nan"]
    data = ProbData(app, {"tv": 1e9}, {"tv": np.full(144, .1)},
                    {"tv": np.array([.5, .5])}, on_profiles=on,
                    previous_activity=nan, previous_appliance_type=nan)
    cls = (ActivityApplianceSimulator if case["kind"] == "activity"
           else ProbabiliticActivityAppliancesSimulator)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = cls(n_hh, {"tv": np.zeros(n_hh, dtype=int)}, data=data,
                  equipped_sampling_algo="all",
                  real_profiles_algo="only_switched_on")
        sim.step({"tv": np.ones(n_hh, dtype=int)})
    p = np.asarray(sim.get_power_demand()) - 100.
    req(np.isin(p, np.arange(k)).all(), "powers %s", np.unique(p))
    counts = np.bincount(p.astype(int), minlength=k)
    pv = gtest_pvalue(counts, np.full(k, 1. / k))
    req(pv > P_REJECT, "profiles used by %s households", counts)
    return ["several"] if k > 1 else None


@sub("C22", "long", st.fixed_dictionaries({
    "kind": st.sampled_from(["activity", "always", "probabilistic",
                             "occupancy"]),
    "length": st.one_of(st.integers(2, 40), st.integers(120, 700),
                        st.sampled_from([127, 128, 129, 255, 256, 257, 300,
                                         512])),
    "delay": st.sampled_from([0, 1, 5, 100, 126, 254]),
    "off": st.integers(0, 3)}), 60, 900, budget=120,
     rule="a load profile longer than 100 steps")
def long_profiles(case):
    """The whole of a long load profile is used, from its first value."""
    n_hh, length, kind = 2, case["length"], case["kind"]
    act = "level" if kind == "always" else "tv"
    x = np.arange(length) + 100.
    app = [{"type": "tv", "act": act, "iso": kind == "activity", "mean": 1.,
            "standby": 3., "dur": 3, "delay": case["delay"], "water": False,
            "flow": 0., "lam": 0., "on": 1}]
    nan = ["nan"]
    prof = {"tv": {"l": x}}
    data = ProbData(app, {"tv": 1e9}, {a: np.full(144, .1) for a in ACTS},
                    {a: np.array([.5, .5]) for a in ACTS},
                    on_profiles=prof, full_profiles=prof,
                    previous_activity=nan, previous_appliance_type=nan)
    probability = np.ones((144, 3))
    probability[:, 0] = 0.
    data.acts = lambda sg: {a: probability.copy() for a in ACTS + ["level"]}
    kw = dict(data=data, equipped_sampling_algo="all",
              real_profiles_algo="uniform")

    def doing(on):
        return {a: np.full(n_hh, int(on and a == "tv")) for a in ACTS}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "occupancy":
            sim = OccupancyApplianceSimulator(
                [{"n_residents": 1}], [n_hh],
                start_datetime=dt.datetime(2021, 3, 1, 4),
                initial_active_occupancy=np.zeros(n_hh), **kw)
        else:
            cls = (ProbabiliticActivityAppliancesSimulator
                   if kind == "probabilistic" else ActivityApplianceSimulator)
            sim = cls(n_hh, doing(False), **kw)

    def step(on):
        if kind == "occupancy":
            sim.step(np.full(n_hh, int(on)))
        else:
            sim.step(doing(on))
        return np.array(sim.get_power_demand())
    power = [np.array(sim.get_power_demand())] if kind == "always" else []
    if kind != "always":
        # a delay after an earlier use may not be over at the start
        for _ in range(case["off"] + case["delay"]
                       * (kind == "occupancy")):
            req_equal(step(False), np.full(n_hh, 3.), "standby")
    once = kind in ("probabilistic", "occupancy")
    for i in range(length + 30):
        power.append(step(not once or i == 0))
    power = np.array(power)
    k = np.arange(len(power))
    for h in range(n_hh):
        if once:
            want = np.where(k < length, x[k % length], 3.)
        else:
            start = (int(power[0, h] - 100) if kind == "always" else 0)
            req(0 <= start < length, "power %s", power[0, h])
            want = x[(start + k) % length]
        req_close(power[:, h], want, "power of a profile of %d steps"
                  % length)
    return [kind] if length > 100 else None


@sub("C22", "refusals", st.fixed_dictionaries({
    "kind": st.sampled_from(["activity", "probabilistic", "occupancy"]),
    "algo": st.sampled_from(["what", "Uniform", ""]),
    "missing": st.sampled_from(["only_switched_on", "only_always_on",
                                "uniform"])}), 60, 300,
     rule="always: an impossible input must be refused")
def refusals(case):
    app = [{"type": "tv", "act": "tv", "iso": True, "mean": 1., "standby": 0,
            "dur": 3, "delay": 0, "water": False, "flow": 0., "lam": 0.,
            "on": 1}]
    nan = ["nan"]
    data = ProbData(app, {"tv": 1e9}, {"tv": np.full(144, .1)},
                    {"tv": np.array([.5, .5])}, previous_activity=nan,
                    previous_appliance_type=nan)
    data.acts = lambda sg: {"tv": np.zeros((144, 7))}

    def make(algo):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if case["kind"] == "occupancy":
                return OccupancyApplianceSimulator(
                    [{"n_residents": 1}], [2], data=data,
                    start_datetime=dt.datetime(2021, 3, 1, 4),
                    equipped_sampling_algo="all", real_profiles_algo=algo)
            cls = (ActivityApplianceSimulator if case["kind"] == "activity"
                   else ProbabiliticActivityAppliancesSimulator)
            return cls(2, {"tv": np.zeros(2, dtype=int)}, data=data,
                       equipped_sampling_algo="all", real_profiles_algo=algo)

    req(raises(ValueError, make, case["algo"]), "accepted algorithm %r",
        case["algo"])
    req(raises(NotImplementedError, make, case["missing"]),
        "accepted %s without data", case["missing"])
    return ["refused"]
