"""C23: appliances driven by active occupancy."""
import datetime as dt
import warnings
import zlib

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_close,
                      req_equal, sub)
from props.lib_app import AppData, app_strategy, profiles

from demod.simulators.appliance_simulators import OccupancyApplianceSimulator

ACTS = ["cooking", "level", "tv", "washing"]
MINUTE = dt.timedelta(minutes=1)


class Acts:
    """0/1 activity probabilities of a subgroup and day, first slot empty."""

    def __init__(self, seed, p=0.5, n_occ=6):
        self.seed, self.p, self.n_occ, self.cache = seed, p, n_occ, {}

    def __call__(self, subgroup):
        key = repr(sorted(subgroup.items())) + str(self.seed)
        if key not in self.cache:
            rng = np.random.RandomState(zlib.crc32(key.encode()))
            out = {}
            # other activities are there as well, in another order
            for a in ACTS[::-1] + ["unused"]:
                x = (rng.uniform(size=(144, self.n_occ + 1))
                     < self.p).astype(float)
                x[0] = 0.
                out[a] = x
            self.cache[key] = out
        return {k: v.copy() for k, v in self.cache[key].items()}


def day_of(t, refresh):
    """Start of the activity day the clock t belongs to."""
    r = t.replace(hour=refresh.hour, minute=refresh.minute, second=0,
                  microsecond=0)
    return r if r <= t else r - dt.timedelta(days=1)


class Model:
    """The documented behaviour, household by household."""

    def __init__(self, sim, apps, subgroups, hh_types, acts, refresh, clock,
                 loads):
        self.sim, self.apps, self.acts = sim, apps, acts
        self.subgroups, self.hh, self.refresh = subgroups, hh_types, refresh
        self.clock = clock
        n = len(hh_types)
        self.left = [[0.] * len(apps) for _ in range(n)]
        self.wait = [[0] * len(apps) for _ in range(n)]
        self.loads = loads
        self.switched = []

    def step(self, occ, owned, drawn):
        """drawn(h, a): duration drawn for water fixtures."""
        day = day_of(self.clock, self.refresh)
        slot = int((self.clock - day).total_seconds() // 600)
        wd = [1, 2, 3, 4, 5] if day.isoweekday() <= 5 else [6, 7]
        self.switched = []
        for h, g in enumerate(self.hh):
            sg = {k: v for k, v in self.subgroups[g].items()
                  if k != "quarter"}
            sg["weekday"] = wd
            p = self.acts(sg)
            for a, app in enumerate(self.apps):
                starts = (owned[h][a] and self.left[h][a] <= 0
                          and self.wait[h][a] <= 0 and app["on"] == 1
                          and p[app["act"]][slot, occ[h]] == 1)
                self.left[h][a] = max(0., self.left[h][a] - 1)
                self.wait[h][a] = max(0, self.wait[h][a] - 1)
                if starts:
                    d = (drawn(h, a) if app["water"]
                         else self.loads.get((h, a), app["dur"]))
                    self.left[h][a] = d
                    self.wait[h][a] = int(d + app["delay"])
                    self.switched.append((h, a))
                if occ[h] == 0 and app["iso"]:
                    self.left[h][a] = 0.
                    self.wait[h][a] = min(self.wait[h][a], app["delay"])
        self.clock += MINUTE


CASES = st.fixed_dictionaries({
    "apps": st.lists(app_strategy(ACTS), min_size=1, max_size=5),
    "hh": st.lists(st.integers(1, 3), min_size=1, max_size=3),
    "seed": st.integers(0, 10**6),
    "p": st.sampled_from([0.3, 0.6, 1.0]),
    "refresh": st.sampled_from([240, 240, 0, 0, 590, 1430]),
    "offset": st.one_of(st.integers(0, 45), st.integers(1395, 1439),
                        st.integers(0, 1439)),
    "sec": st.sampled_from([0, 0, 30]),
    # 2021-03-01 is a Monday, the kind of day changes after days 4 and 6
    "day": st.one_of(st.integers(0, 13), st.sampled_from([4, 6])),
    "n": st.integers(1, 60),
    "occ": st.lists(st.integers(0, 5), min_size=1, max_size=12),
    "occ_len": st.sampled_from([1, 3, 10]),
    "init_occ": st.sampled_from([None, 0, 2]),
    "profiles": st.sampled_from(["nothing", "only_switched_on"]),
    "tz": st.booleans(),
})


def build(case, **kwargs):
    refresh = dt.time(case["refresh"] // 60, case["refresh"] % 60)
    acts = Acts(case["seed"], case["p"])
    on = profiles(case["seed"], ["tv", "hob", "washer"])
    data = AppData(case["apps"], on_profiles=on, acts=acts)
    data.refresh_time = refresh
    subgroups = [{"n_residents": i + 1} for i in range(len(case["hh"]))]
    start = dt.datetime(2021, 3, 1, refresh.hour, refresh.minute,
                        tzinfo=dt.timezone.utc if case["tz"] else None)
    start += dt.timedelta(days=case["day"], minutes=case["offset"],
                          seconds=case["sec"])
    n = sum(case["hh"])
    init = None if case["init_occ"] is None else np.full(n, case["init_occ"])
    rng = np.random.RandomState(case["seed"])
    sets = [[("A%02d" % i) for i in range(len(case["apps"]))
             if rng.uniform() < 0.8] for _ in subgroups]
    return data, subgroups, start, init, sets, acts, refresh, on, dict(
        subgroups_list=subgroups, n_households_list=case["hh"], data=data,
        start_datetime=start, initial_active_occupancy=init,
        equipped_sampling_algo="set_defined", equipped_set_defined=sets,
        real_profiles_algo=case["profiles"], **kwargs)


@sub("C23", "usage", CASES, 300, 6000, budget=200,
     rule="some appliance was switched on and off during the run")
def usage(case):
    return follow(case)


@sub("C23", "crossing", st.builds(
    lambda c, before, day: dict(c, offset=1440 - before, day=day,
                                n=before + 25, apps=c["apps"][:3]),
    CASES, st.integers(1, 20), st.sampled_from([3, 4, 4, 5, 6, 6])),
     60, 1200, budget=200,
     rule="some appliance was switched on and off during the run")
def crossing(case):
    """Runs over the time where the activities of the next day apply."""
    return follow(case)


def follow(case):
    data, subgroups, start, init, sets, acts, refresh, on, kw = build(case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sims = []

        class Traced(OccupancyApplianceSimulator):
            # also follows the steps of the initialization
            def step(self, active_occupancy):
                if not sims:
                    sims.append(None)
                    first(self)
                super().step(active_occupancy)
                check(self, np.array(active_occupancy, dtype=int))

        hh = np.repeat(np.arange(len(case["hh"])), case["hh"])
        apps = case["apps"]
        state = {"started": 0, "ended": 0, "steps": 0, "water": 0,
                 "off": 0}

        def first(sim):
            owned = np.asarray(sim.available_appliances)
            req_equal(owned, [[("A%02d" % a) in sets[g]
                               for a in range(len(apps))] for g in hh],
                      "owned appliances")
            lengths = {}
            if case["profiles"] != "nothing":
                for h in range(len(hh)):
                    for a, app in enumerate(apps):
                        if (owned[h, a] and app["type"] in on
                                and app["act"] != "level"):
                            lengths[h, a] = int(sim.load_duration[h, a])
                            req(lengths[h, a] in [
                                len(x) for x in on[app["type"]].values()],
                                "length %s of a load profile of %s",
                                lengths[h, a], app["type"])
            state["model"] = Model(sim, apps, subgroups, hh, acts, refresh,
                                   sim.current_time, lengths)
            state["owned"] = owned.copy()
            want = day_of(start, refresh) + dt.timedelta(
                seconds=case["sec"])
            req(sim.current_time == want, "first step at %s instead of %s",
                sim.current_time, want)
            state["before"] = np.zeros(owned.shape, dtype=bool)

        def check(sim, occ):
            m = state["model"]

            def drawn(h, a):
                d = float(sim.n_steps_left[h, a])
                if occ[h] == 0 and apps[a]["iso"]:
                    return 0.         # switched off at once
                v = d * apps[a]["flow"]
                req(v >= 0 and abs(v - round(v)) < 1e-6,
                    "volume of %s liters drawn", v)
                req(apps[a]["lam"] > 0 or v == 0, "%s liters with mean 0", v)
                state["water"] += v > 0
                return d

            m.step(occ, state["owned"], drawn)
            state["started"] += len(m.switched)
            state["off"] += int((occ == 0).any())
            want = np.array([[x > 0 for x in r] for r in m.left])
            req_equal(sim.get_current_usage(), want,
                      "used appliances after the step at %s"
                      % (m.clock - MINUTE))
            flow = np.array([[app["flow"] if app["water"] else 0.
                              for app in apps]] * len(hh))
            req_close(sim.get_current_water_consumptions(),
                      np.minimum(np.array(m.left), 1.) * flow,
                      "water consumption")
            state["ended"] += int((state["before"] & ~want).sum())
            state["before"] = want
            state["steps"] += 1

        sim = Traced(**kw)
        state["init"] = state["steps"]
        req(sim.current_time == start, "starts at %s, not %s",
            sim.current_time, start)
        for i in range(case["n"]):
            o = case["occ"][(i // case["occ_len"]) % len(case["occ"])]
            occ = np.array([(o + h) % 6 if o else 0
                            for h in range(len(hh))])
            given = occ.copy()
            sim.step(occ)
            req_equal(occ, given, "the given occupancy")
        req(state["steps"] - state["init"] == case["n"], "wrong steps")
    req(all(set(g) == {"n_residents"} for g in subgroups),
        "the given subgroups were changed: %s", subgroups)
    if not (state["started"] and state["ended"]):
        return None
    return (["cycles"] + ["water"] * (state["water"] > 0)
            + ["inactive"] * (state["off"] > 0)
            + ["initialized"] * (state["init"] > 0))


@sub("C23", "rates", st.fixed_dictionaries({
    "on": st.sampled_from([0.02, 0.1, 0.3]),
    "act": st.sampled_from([0.1, 0.5, 1.0]),
    "lam": st.sampled_from([1., 5., 20.]),
    "occ": st.integers(0, 3),
    "seed": st.integers(0, 1000)}), 40, 400, budget=120,
     rule="always: switch-ons and volumes are counted")
def rates(case):
    """Frequencies of switch-ons and distribution of the volumes."""
    from scipy.stats import poisson
    n = 24000
    rng = np.random.RandomState(case["seed"])
    table = rng.choice([0.2, 0.6, 1.], size=4)
    prof = np.tile(case["act"] * table, (144, 1))

    def acts(subgroup):
        return {"a": prof.copy(), "b": prof[:, ::-1].copy()}

    apps = [{"type": "tv", "act": "a", "iso": False, "mean": 1., "standby": 0,
             "dur": 1, "delay": 0, "water": False, "flow": 0., "lam": 0.,
             "on": case["on"]},
            {"type": "shower", "act": "b", "iso": False, "mean": 0.,
             "standby": 0, "dur": 1, "delay": 0, "water": True,
             "flow": 100., "lam": case["lam"], "on": case["on"]},
            {"type": "shower", "act": "a", "iso": False, "mean": 0.,
             "standby": 0, "dur": 1, "delay": 0, "water": True,
             "flow": 100., "lam": case["lam"], "on": 1.}]
    data = AppData(apps, acts=acts)
    sim = OccupancyApplianceSimulator(
        [{"n_residents": 2}], [n], data=data,
        start_datetime=dt.datetime(2021, 3, 1, 4),
        equipped_sampling_algo="all")
    occ = np.full(n, case["occ"])
    counts = np.zeros(2)
    vols = []
    steps = 1                # later steps depend on the cycles
    for _ in range(steps):
        sim.step(occ)
        counts[0] += np.sum(sim.get_current_usage()[:, 0])
        # volumes below one minute of flow: seen in one step
        v = sim.get_current_water_consumptions()[:, 1:]
        vols.append(v)
    vols = np.concatenate(vols)
    p_a = case["on"] * prof[0, case["occ"]]
    p_b = case["on"] * prof[0, ::-1][case["occ"]]
    full = prof[0, case["occ"]]
    tot = n * steps
    pv = gtest_pvalue([counts[0], tot - counts[0]], [p_a, 1 - p_a])
    req(pv > P_REJECT, "%d switch-ons in %d, probability %.4f (p=%.2g)",
        counts[0], tot, p_a, pv)
    for col, p in ((0, p_b), (1, full)):
        x = vols[:, col]
        kmax = int(case["lam"] * 3 + 12)
        req(np.allclose(x, np.round(x)), "volumes are not whole liters")
        obs = np.bincount(np.minimum(np.round(x).astype(int), kmax),
                          minlength=kmax + 1)
        pk = p * poisson.pmf(np.arange(kmax + 1), case["lam"])
        pk[0] += 1 - p
        pk[kmax] = max(0., 1 - pk[:kmax].sum())
        pv = gtest_pvalue(obs, pk)
        req(pv > P_REJECT, "volumes %s, expected %s (p=%.2g)", obs.tolist(),
            (pk * tot).round(1).tolist(), pv)
    return ["counted"]


@sub("C23", "long_cycles", st.fixed_dictionaries({
    "dur": st.one_of(st.integers(1, 300), st.sampled_from([
        127, 128, 255, 256, 300.5, 511])),
    "delay": st.sampled_from([0, 1, 100, 127, 128, 130, 255, 256, 300]),
    "iso": st.booleans(), "n_res": st.integers(1, 5),
    "profile": st.booleans()}), 30, 500, budget=100,
     rule="the cycle and its delay take more than 100 steps")
def long_cycles(case):
    """A cycle is as long as it should, and starts again after its delay."""
    n_hh, dur, delay = 2, case["dur"], case["delay"]
    app = {"type": "tv", "act": "tv", "iso": case["iso"], "mean": 100.,
           "standby": 0, "dur": dur, "delay": delay, "water": False,
           "flow": 0., "lam": 0., "on": 1}
    kw = {}
    if case["profile"]:
        dur = int(dur)
        app["dur"] = 3.
        kw["on_profiles"] = {"tv": {"a": np.full(dur, 100.)}}
    p = np.ones((144, 7))
    p[:, 0] = 0.
    data = AppData([app], acts=lambda sg: {"tv": p.copy()}, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = OccupancyApplianceSimulator(
            [{"n_residents": 1}], [n_hh], data=data,
            start_datetime=dt.datetime(2021, 3, 1, 4),
            initial_active_occupancy=np.zeros(n_hh),
            equipped_sampling_algo="all",
            real_profiles_algo=("only_switched_on" if case["profile"]
                                else "nothing"))
    for _ in range(delay):            # of a use before the start
        sim.step(np.zeros(n_hh, dtype=int))
    on = int(np.ceil(dur))
    period = max(on + 1, int(dur + delay) + 1)
    for i in range(2 * period + 5):
        sim.step(np.full(n_hh, case["n_res"]))
        req_equal(sim.get_power_demand(),
                  np.full(n_hh, 100. * (i % period < on)),
                  "power at step %d of a cycle of %s with a delay of %s "
                  "steps" % (i, dur, delay))
    return ["long"] if period > 100 else None


@sub("C23", "refusals", st.fixed_dictionaries({
    "hh": st.lists(st.integers(1, 3), min_size=1, max_size=2),
    "step": st.integers(2, 10), "miss": st.integers(0, 2)}), 60, 400,
     rule="always: an impossible input must be refused")
def refusals(case):
    apps = [{"type": "tv", "act": a, "iso": False, "mean": 1., "standby": 0,
             "dur": 1, "delay": 0, "water": False, "flow": 0., "lam": 0.,
             "on": 1} for a in ACTS[:3]]
    acts = Acts(1)

    def fewer(subgroup):
        out = acts(subgroup)
        del out[ACTS[case["miss"]]]
        return out

    sgs = [{"n_residents": 1} for _ in case["hh"]]
    kw = dict(subgroups_list=sgs, n_households_list=case["hh"],
              start_datetime=dt.datetime(2021, 3, 1, 4),
              equipped_sampling_algo="all")
    req(raises(ValueError, OccupancyApplianceSimulator,
               data=AppData(apps, acts=fewer), **kw),
        "accepted appliances whose activity has no profile")
    req(raises(ValueError, OccupancyApplianceSimulator,
               data=AppData(apps, acts=acts),
               step_size=dt.timedelta(minutes=case["step"]), **kw),
        "accepted another step size than the one of the data")
    return ["refused"]
