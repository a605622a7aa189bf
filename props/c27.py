"""C27: thermostats, heating controls and set point patterns."""
import datetime

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_close,
                      req_equal, sub)
from props.lib_heat import HeatData, next_thermostat, thermostat_st

from demod.simulators.base_simulators import SimLogger
from demod.simulators.heating_simulators import (
    SystemControls, Thermostats, VariableThermostatTemperatureSimulator)

PAIRS = [("hot_water", "cylinder", "dhw"),
         ("space_heating", "interior", "space_heating"),
         ("emitter", "emitter", "emitter")]


@sub("C27", "hysteresis", st.fixed_dictionaries({
    "th": thermostat_st, "n": st.integers(1, 4), "init": st.booleans(),
    "log": st.booleans(),
    "d0": st.lists(st.integers(-3, 3), min_size=12, max_size=12),
    "steps": st.lists(st.fixed_dictionaries({
        # temperatures relative to the target, in quarters of the band
        "d": st.lists(st.integers(-6, 6), min_size=12, max_size=12),
        "how": st.sampled_from(["none", "none", "dict", "array", "part"]),
        "new": st.lists(st.integers(-3, 3), min_size=4, max_size=4)}),
        min_size=1, max_size=15)}), 1500, 20000, budget=200,
     rule="a thermostat switched on and off inside its band")
def hysteresis(case):
    n, t = case["n"], case["th"]
    data = HeatData(thermostat=t)
    band = dict(zip(["space_heating", "hot_water", "emitter"], t["db"]))
    kw = {}
    if case["log"]:
        kw["logger"] = SimLogger("get_thermostat_states", aggregated=False)
    if case["init"]:
        # constant set points, to know them in advance
        data.thermostat = t = {**t, "home": t["home"][:1],
                               "water": t["water"][:1]}
        tgt = {"dhw": t["water"][0], "space_heating": t["home"][0],
               "emitter": t["emitter"]}
        kw["initial_temperatures"] = {
            c: np.array([tgt[g] + case["d0"][4 * j + h] for h in range(n)],
                        float) for j, (_, c, g) in enumerate(PAIRS)}
    sim = Thermostats(n, data=data, **kw)
    target = {k: np.array(v, float)
              for k, v in sim.get_target_temperatures().items()}
    req(set(target) == {"dhw", "space_heating", "emitter"},
        "targets for %s", sorted(target))
    for v in target.values():
        req(v.shape == (n,), "one target per household expected")
    req(set(target["space_heating"]) <= set(t["home"]), "home targets %s",
        target["space_heating"])
    req(set(target["dhw"]) <= set(t["water"]), "water targets %s",
        target["dhw"])
    req_equal(target["emitter"], np.full(n, t["emitter"]), "emitter targets")
    state = {}
    for j, (s, c, g) in enumerate(PAIRS):
        state[s] = (kw["initial_temperatures"][c] < target[g]
                    if case["init"] else np.zeros(n, bool))
        req_equal(sim.get_thermostat_states()[s], state[s],
                  "%s thermostat at start" % s)
    hist, tags, given = [dict(state)], set(), []
    for i, x in enumerate(case["steps"]):
        new = None
        if x["how"] != "none":
            for j, (s, c, g) in enumerate(PAIRS):
                if x["how"] == "array" and g != "space_heating":
                    continue
                if x["how"] == "part" and g != "dhw":
                    continue
                target[g] = target[g] + np.array(x["new"][:n])
            new = {k: v.copy() for k, v in target.items()}
            if x["how"] == "array":
                new = new["space_heating"]
            elif x["how"] == "part":
                new = {"dhw": new["dhw"]}
            for v in (new.values() if isinstance(new, dict) else [new]):
                given.append((v, v.copy()))
        T = {c: np.array([target[g][h] + x["d"][4 * j + h] / 4. * band[s]
                          for h in range(n)])
             for j, (s, c, g) in enumerate(PAIRS)}
        keep = {k: v.copy() for k, v in T.items()}
        if new is None:
            sim.step(T)
        else:
            sim.step(T, new)
        for k in T:
            req_equal(T[k], keep[k], "temperatures given")
        for v, old in given:
            req_equal(v, old, "target temperatures given by the user")
        for s, c, g in PAIRS:
            want = next_thermostat(state[s], T[c], target[g], band[s])
            got = sim.get_thermostat_states()[s]
            req_equal(got, want, "%s thermostat after step %d (was %s, "
                      "temperature %s, target %s, band %s)" % (
                          s, i, state[s], T[c], target[g], band[s]))
            req_equal(sim.get_target_temperatures()[g], target[g],
                      "target of " + g)
            inside = np.abs(T[c] - target[g]) < band[s]
            if (inside & want).any():
                tags.add("on inside band")
            if (inside & ~want).any():
                tags.add("off inside band")
            state[s] = want
        hist.append(dict(state))
    if case["log"]:
        got = sim.logger.get("get_thermostat_states")
        for s, _, _ in PAIRS:
            req_equal(np.asarray(got[s]), [h[s] for h in hist[:-1]],
                      "logged " + s)
    return sorted(tags) if len(tags) == 2 else None


@sub("C27", "setpoints", st.fixed_dictionaries({
    "th": thermostat_st, "seed": st.integers(0, 9999),
    "bad": st.sampled_from([20., [20.], None])}), 100, 1000,
     rule="several possible set points")
def set_points(case):
    n = 2000
    t = case["th"]
    sim = Thermostats(n, data=HeatData(thermostat=t))
    tg = sim.get_target_temperatures()
    for key, vals in (("space_heating", t["home"]), ("dhw", t["water"])):
        cnt = [int((np.asarray(tg[key]) == v).sum()) for v in vals]
        req(sum(cnt) == n, "unknown set points of " + key)
        p = gtest_pvalue(cnt, [1 / len(vals)] * len(vals))
        req(p > P_REJECT, "set points of %s counted %s (p=%.2g)", key, cnt,
            p)
    if case["bad"] is not None:
        req(raises(TypeError, sim.set_new_target_temperature, case["bad"]),
            "target temperature %r accepted", case["bad"])
    if len(t["home"]) > 1:
        return ["several"]


@sub("C27", "controls", st.fixed_dictionaries({
    "n": st.integers(1, 6), "combi": st.one_of(
        st.none(), st.lists(st.booleans(), min_size=6, max_size=6)),
    "ints": st.booleans(), "log": st.booleans(),
    "steps": st.lists(st.fixed_dictionaries({
        "dhw": st.lists(st.sampled_from([0., 0., 1e-3, 80.]), min_size=6,
                        max_size=6),
        "th": st.lists(st.booleans(), min_size=18, max_size=18),
        "ext": st.one_of(st.none(), st.lists(st.booleans(), min_size=6,
                                             max_size=6))}),
        min_size=1, max_size=6)}), 800, 10000,
     rule="combi or external cylinder differs from the thermostat")
def controls(case):
    n = case["n"]
    combi = None if case["combi"] is None else np.array(case["combi"][:n])
    if combi is not None and case["ints"]:
        combi = combi.astype(int)        # as in the data sets
    kw = {"is_combi_boiler": combi}
    if case["log"]:
        kw["logger"] = SimLogger("get_controls", aggregated=False)
    sim = SystemControls(n, **kw)
    off = {k: np.zeros(n, bool) for k in ("heater_on", "heat_water_on",
                                          "space_heating_on")}
    for k, v in off.items():
        req_equal(np.asarray(sim.get_controls()[k], bool), v,
                  k + " at start")
    hist, tags = [off], set()
    for i, x in enumerate(case["steps"]):
        dhw = np.array(x["dhw"][:n])
        th = {k: np.array(x["th"][6 * j:6 * j + n]) for j, k in enumerate(
            ("hot_water", "space_heating", "emitter"))}
        ext = None if x["ext"] is None else np.array(x["ext"][:n])
        sim.step(dhw, th, ext) if ext is not None else sim.step(dhw, th)
        water = th["hot_water"].copy()
        for h in range(n):
            if (combi is not None and combi[h]) or (
                    ext is not None and ext[h]):
                if water[h] != (dhw[h] > 0):
                    tags.add("differs")
                water[h] = dhw[h] > 0
        space = th["space_heating"] & th["emitter"]
        want = {"heat_water_on": water, "space_heating_on": space,
                "heater_on": water | space}
        for k, v in want.items():
            req_equal(np.asarray(sim.get_controls()[k], bool), v,
                      "%s after step %d" % (k, i))
        hist.append(want)
    if case["log"]:
        got = sim.logger.get("get_controls")
        for k in off:
            req_equal(np.asarray(got[k], bool), [h[k] for h in hist[:-1]],
                      "logged " + k)
    return sorted(tags)


# --------------------------------------------------- variable set points
MEAN = {"Cool Conservers": 17., "Steady and Savvy": 18.5,
        "Hot and Cold Fluctuators": 20., "On-Demand Sizzlers": 23.,
        "On-off Switchers": 20., "Toasty Cruisers": 21.}
DEV = {"Cool Conservers": 1.5, "Hot and Cold Fluctuators": 2.,
       "On-Demand Sizzlers": 2., "Steady and Savvy": 1.,
       "Toasty Cruisers": 1.}
FLUCT = ["Cool Conservers", "Hot and Cold Fluctuators", "On-Demand Sizzlers"]
LOW = 16.


def occupancy(seed, n, k):
    rs = np.random.RandomState(seed)
    occ = rs.randint(0, 4, (k + 1, n)) * (rs.uniform(size=(k + 1, n)) < 0.7)
    for i in range(1, k + 1):       # keep most of the households as they are
        same = rs.uniform(size=n) < 0.5
        occ[i] = np.where(same, occ[i - 1], occ[i])
    act = np.minimum(occ, rs.randint(0, 4, (k + 1, n)))
    for i in range(1, k + 1):
        same = rs.uniform(size=n) < 0.4
        act[i] = np.where(same, np.minimum(act[i - 1], occ[i]), act[i])
    return occ, act


@sub("C27", "patterns", st.fixed_dictionaries({
    "label": st.sampled_from(FLUCT + ["On-off Switchers"]),
    "n": st.integers(1, 30), "seed": st.integers(0, 10**6),
    "k": st.integers(1, 20), "log": st.booleans(),
    "hour": st.integers(0, 23)}), 500, 6000,
     rule="households left, came, woke up and slept")
def patterns(case):
    n, k, lab = case["n"], case["k"], case["label"]
    occ, act = occupancy(case["seed"], n, k)
    kw = {"pattern_attribution_method": lab}
    if case["log"]:
        kw["logger"] = SimLogger("get_thermostat_temperatures",
                                 aggregated=False)
    sim = VariableThermostatTemperatureSimulator(
        n, occ[0].copy(), act[0].copy(),
        datetime.datetime(2014, 1, 1, case["hour"]), **kw)
    T = np.full(n, MEAN[lab])
    req_close(sim.get_thermostat_temperatures(), T, "set points at start")
    hist, free, moved = [T], 0, 0
    tags = set()
    for i in range(1, k + 1):
        o, a = occ[i].copy(), act[i].copy()
        given = o.copy(), a.copy()
        sim.step(*given)
        req_equal(given[0], occ[i], "occupancy given")
        req_equal(given[1], act[i], "active occupancy given")
        for x in given:
            x[:] = 2            # used again by who gave them
        got = np.asarray(sim.get_thermostat_temperatures(), float)
        req(got.shape == (n,), "one set point per household expected")
        if lab == "On-off Switchers":
            want = np.where(o > 0, MEAN[lab], LOW)
            req_close(got, want, "set points with occupancy %s" % o)
        else:
            left = (o == 0) & (occ[i - 1] > 0)
            came = (o > 0) & (occ[i - 1] == 0)
            bed = (a == 0) & (act[i - 1] > 0) & ~left & ~came
            wake = (a > 0) & (act[i - 1] == 0) & ~left & ~came
            want = T.copy()
            want[left] = LOW
            want[came | wake] = MEAN[lab] + DEV[lab]
            want[bed] = MEAN[lab]
            comfort = MEAN[lab] + np.arange(int(2 * DEV[lab]) + 1) / 2.
            for h in range(n):
                ok = np.isclose(got[h], want[h])
                if not ok and a[h] > 0:
                    ok = np.isclose(got[h], comfort).any()
                    moved += 1
                free += a[h] > 0
                req(ok, "step %d: set point %s of household %d, expected %s "
                    "(occupants %s -> %s, active %s -> %s)", i, got[h], h,
                    want[h], occ[i - 1][h], o[h], act[i - 1][h], a[h])
            for name, m in (("left", left), ("came", came), ("bed", bed),
                            ("wake", wake)):
                if m.any():
                    tags.add(name)
        T = got
        hist.append(T)
    if case["log"]:
        req_close(sim.logger.get("get_thermostat_temperatures"), hist[:-1],
                  "logged set points")
    # one active step out of ten changes the set point for comfort, to one
    # of a few values (some changes do not show)
    from scipy.stats import binom
    req(binom.sf(moved - 1, free, 0.1) > P_REJECT,
        "%d comfort changes in %d active steps", moved, free)
    return ["moved"] if len(tags) >= 3 else None


@sub("C27", "comfort", st.fixed_dictionaries({
    "label": st.sampled_from(FLUCT), "seed": st.integers(0, 9999)}), 30, 200,
     rule="all")
def comfort(case):
    """How often and to which values active residents change it."""
    n, lab = 4000, case["label"]
    one = np.ones(n, int)
    sim = VariableThermostatTemperatureSimulator(
        n, one, one, datetime.datetime(2014, 1, 1),
        pattern_attribution_method=lab)
    sim.step(one, 0 * one)
    sim.step(one, one)      # everybody wakes up: high, or changed at once
    sim.step(one, one)
    got = np.asarray(sim.get_thermostat_temperatures())
    vals = MEAN[lab] + np.arange(int(2 * DEV[lab]) + 1) / 2.
    p = np.full(len(vals), (1 - .9 ** 2) / len(vals))
    p[-1] += .9 ** 2
    cnt = [int(np.isclose(got, v).sum()) for v in vals]
    req(sum(cnt) == n, "set points %s", np.unique(got))
    pv = gtest_pvalue(cnt, p)
    req(pv > P_REJECT, "set points counted %s, expected %s (p=%.2g)", cnt,
        p * n, pv)
    return ["all"]


@sub("C27", "fixedpatterns", st.fixed_dictionaries({
    "label": st.sampled_from(["Steady and Savvy", "Toasty Cruisers"]),
    "n": st.integers(1, 40), "seed": st.integers(0, 10**6),
    "start": st.integers(0, 143), "half": st.booleans()}), 60, 600,
     rule="a household changes its set point during the day")
def fixed(case):
    n, lab = case["n"], case["label"]
    m, d = MEAN[lab], DEV[lab]
    start = datetime.datetime(2014, 2, 27) + datetime.timedelta(
        minutes=10 * case["start"])
    occ, act = occupancy(case["seed"], n, 3 * 144)
    sim = VariableThermostatTemperatureSimulator(
        n, occ[0], act[0], start, pattern_attribution_method=lab)
    inc = datetime.timedelta(minutes=10)
    hist = [np.asarray(sim.get_thermostat_temperatures())]
    req_close(hist[0], np.full(n, m), "set points at start")
    for i in range(1, 3 * 144 + 1):
        sim.step(occ[i], act[i])
        hist.append(np.asarray(sim.get_thermostat_temperatures()))
    hist = np.array(hist)
    kinds = np.array([m - d, m, m + d])
    req(np.isclose(hist[..., None], kinds).any(axis=-1).all(),
        "set points %s", np.unique(hist))
    # the same every day, whatever the occupancy
    req_close(hist[145 + 143:], hist[145 - 1:-144],
              "set points one day later")
    time = [(start + i * inc) for i in range(len(hist))]
    minute = np.array([t.hour * 60 + t.minute for t in time])
    day = hist[144:289]
    mins = minute[144:289]
    for h in range(n):
        x = day[:, h]
        morning = x[(mins >= 360) & (mins <= 590)]
        req(np.isclose(morning, m + d).any(), "household %d is not warm "
            "after waking up: %s", h, morning)
        low = mins[np.isclose(x, m - d)]
        req(not len(low) or (low.min() >= 390 and low.max() <= 1240),
            "household %d is cold at minutes %s", h, low)
        night = x[(mins >= 60) & (mins < 360)]
        req(len(set(night)) == 1 and not np.isclose(night[0], m - d),
            "household %d changes at night: %s", h, night)
    if np.isclose(day, m - d).any():
        return ["cold"]


@sub("C27", "schedules", st.fixed_dictionaries({
    "label": st.sampled_from(["Steady and Savvy", "Toasty Cruisers"]),
    "seed": st.integers(0, 10**6), "start": st.integers(0, 35)}), 4, 40,
     rule="households leave during the day")
def schedules(case):
    """The timetables of many households with a fixed pattern."""
    n, lab = 600, case["label"]
    m, d = MEAN[lab], DEV[lab]
    np.random.seed(case["seed"] % 2**32)
    start = datetime.datetime(2014, 2, 27) + datetime.timedelta(
        minutes=10 * case["start"])
    occ = np.ones(n, dtype=int)
    sim = VariableThermostatTemperatureSimulator(
        n, occ, occ, start, pattern_attribution_method=lab)
    hist = []
    for _ in range(144 * 2):
        sim.step(occ, occ)
        hist.append(np.array(sim.get_thermostat_temperatures()))
    # a whole day, from 5 o'clock
    first = 30 - case["start"] - 1
    first += 144 if first < 0 else 0
    day = np.array(hist)[first:][:144].T
    req(day.shape == (n, 144), "recorded %s", day.shape)
    warm, cold = np.isclose(day, m + d), np.isclose(day, m - d)
    wake = np.argmax(warm, axis=1)
    req(warm.any(axis=1).all(), "households that never warm up")
    req(len(set(wake)) >= 12, "households wake only in slots %s", set(wake))
    late = np.mean(wake % 6 != 0)
    # between 10 and 50 minutes past the hour: half of the households
    req(0.3 < late < 0.7, "%s of the households wake past the hour", late)
    away = cold.any(axis=1)
    req(0.3 < away.mean() < 0.7, "%s of the households change their set "
        "point during the day", away.mean())
    leave = np.argmax(cold, axis=1)
    stay = leave - wake
    req(stay[away].min() >= 3, "households leave %s minutes after waking",
        10 * stay[away].min())
    req((cold.sum(axis=1)[away] >= 24).all(),
        "households back after %s minutes",
        10 * cold.sum(axis=1)[away].min())
    req((cold.sum(axis=1)[away] <= 43).all(),
        "households away for %s minutes",
        10 * cold.sum(axis=1)[away].max())
    for h in np.flatnonzero(away):
        req(cold[h, leave[h]:leave[h] + cold[h].sum()].all(),
            "household %d leaves more than once", h)
    back = leave + cold.sum(axis=1)
    for x, what in ((leave[away], "leave"), (back[away], "come back")):
        req(len(set(x % 6)) == 6,
            "households %s only at slots %s of the hour", what, set(x % 6))
    bed = 144 - np.argmax(~np.isclose(day[:, ::-1], m), axis=1)
    # whoever comes back after the bed time stays warm over the night
    asleep = bed < 144
    req(asleep.mean() > 0.9, "%s of the households go to bed", asleep.mean())
    bed = bed[asleep]
    req(bed.min() >= 90 and bed.max() <= 119 and len(set(bed // 6)) == 5,
        "bed times %s", set(bed))
    late = np.mean(bed % 6 != 0)
    req(0.3 < late < 0.7, "%s of the households sleep past the hour", late)
    return ["leaves"]


@sub("C27", "attribution", st.fixed_dictionaries({
    "how": st.sampled_from(["living lab", "random", "default", "unknown"]),
    "seed": st.integers(0, 9999)}), 40, 300, rule="known method")
def attribution(case):
    n = 3000
    z = np.zeros(n, int)
    kw = {} if case["how"] == "default" else {
        "pattern_attribution_method": case["how"]}

    def make():
        return VariableThermostatTemperatureSimulator(
            n, z, z, datetime.datetime(2014, 1, 1), **kw)
    if case["how"] == "unknown":
        req(raises(ValueError, make), "unknown attribution accepted")
        return None
    got = np.asarray(make().get_thermostat_temperatures())
    vals = [17., 18.5, 20., 23., 21.]
    p = ([1 / 6, 1 / 6, 2 / 6, 1 / 6, 1 / 6] if case["how"] == "random" else
         [0.06, 0.24, 0.17 + 0.28, 0.12, 0.13])
    cnt = [int(np.isclose(got, v).sum()) for v in vals]
    req(sum(cnt) == n, "set points %s", np.unique(got))
    pv = gtest_pvalue(cnt, p)
    req(pv > P_REJECT, "patterns counted %s (p=%.2g)", cnt, pv)
    return ["known"]
