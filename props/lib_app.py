"""Synthetic appliances shared by the appliance property modules."""
import datetime as dt

import numpy as np
from hypothesis import strategies as st

TYPES = ["tv", "hob", "kettle", "fridge", "shower", "washer", "dryer"]


def app_strategy(activities, water=True, profiles=True, **more):
    """One appliance of an appliance set (JSON-able)."""
    return st.fixed_dictionaries({
        "type": st.sampled_from(TYPES),
        "act": st.sampled_from(activities),
        "iso": st.booleans(),
        "mean": st.sampled_from([0., 5., 40.5, 1000., 2200.]),
        "standby": st.sampled_from([0, 0, 1, 3]),
        "dur": st.one_of(st.integers(1, 12),
                         st.sampled_from([1.5, 2.25, 0.5, 4.75])),
        "delay": st.sampled_from([0, 0, 0, 1, 2, 5, 9]),
        "water": st.booleans() if water else st.just(False),
        "flow": st.sampled_from([1., 2.5, 6., 10.]),
        "lam": st.sampled_from([0., 0.7, 3., 12., 40.]),
        "on": st.sampled_from([1, 1, 1, 0]),
        **more,
    })


def appliance_dict(apps, **more):
    """The appliances in the format of the data sets."""
    n = len(apps)
    out = {
        "number": n,
        "name": np.array(["A%02d" % i for i in range(n)]),
        "type": np.array([a["type"] for a in apps]),
        "related_activity": np.array([a["act"] for a in apps]),
        "inactive_switch_off": np.array([a["iso"] for a in apps], dtype=bool),
        "mean_elec_consumption": np.array([a["mean"] for a in apps], float),
        "standby_consumption": np.array([a["standby"] for a in apps]),
        "mean_duration": np.array([a["dur"] for a in apps], dtype=float),
        "after_cycle_delay": np.array([a["delay"] for a in apps], dtype=int),
        "uses_water": np.array([a["water"] for a in apps], dtype=bool),
        "mean_water_consumption": np.array(
            [a["flow"] if a["water"] else 0. for a in apps]),
        "poisson_sampling_lambda_liters": np.array(
            [a["lam"] if a["water"] else 0. for a in apps]),
        "switch_on_prob_crest": np.array([a["on"] for a in apps], float),
        "equipped_prob": np.array([a.get("own", 1.) for a in apps], float),
        "target_cycle_year": np.array([a.get("target", 0.) for a in apps]),
        "mean_power_factor": np.ones(n),
        "heat_gains_ratio": np.ones(n),
    }
    out.update({k: np.array(v) for k, v in more.items()})
    return out


def profiles(seed, types, kinds=("a", "b")):
    """Load profiles per type, deterministic in the seed."""
    rng = np.random.RandomState(seed)
    return {t: {"%s_%s" % (t, k): rng.randint(
        1, 3000, size=rng.randint(1, 9)).astype(float)
        for k in kinds[:rng.randint(1, len(kinds) + 1)]} for t in types}


class AppData:
    """Appliance data set held in memory."""

    refresh_time = dt.time(4, 0)
    step_size = dt.timedelta(minutes=1)

    def __init__(self, apps, on_profiles=None, full_profiles=None,
                 acts=None, **more):
        self.apps, self.more = apps, more
        self.on, self.full, self.acts = on_profiles, full_profiles, acts
        self.asked = []

    def __str__(self):
        return "AppData"

    def load_appliance_dict(self):
        return appliance_dict(self.apps, **self.more)

    def load_real_profiles_dict(self, kind):
        src = {"switchedON": self.on, "full": self.full}[kind]
        if src is None:
            raise NotImplementedError()
        return {t: {k: v.copy() for k, v in d.items()}
                for t, d in src.items()}

    def load_activity_probability_profiles(self, subgroup):
        self.asked.append(dict(subgroup))
        return self.acts(subgroup)
