"""C24: appliances driven by the activities of the residents."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import req, req_close, req_equal, sub
from props.lib_app import AppData, app_strategy, profiles

from demod.simulators.appliance_simulators import ActivityApplianceSimulator

ACTS = ["cooking", "tv", "washing"]
OWN = ["level", "constant"]


def activity_history(draw_list, n_hh, n, acts):
    """n_performing of each activity at each step from a list of draws."""
    out = []
    cur = {a: [0] * n_hh for a in acts}
    k = 0
    for i in range(n):
        if i:
            for a in acts:
                cur[a] = list(cur[a])
                for h in range(n_hh):
                    x = draw_list[k % len(draw_list)]
                    k += 1
                    if x >= 5:                 # otherwise unchanged
                        cur[a][h] = max(0, x - 7)
        else:
            for a in acts:
                cur[a] = [max(0, draw_list[(j + len(a)) % len(draw_list)] - 6)
                          for j in range(n_hh)]
        out.append({a: np.array(cur[a]) for a in acts})
    return out


def copy_acts(d):
    return {k: v.copy() for k, v in d.items()}


@sub("C24", "usage", st.fixed_dictionaries({
    "apps": st.lists(app_strategy(ACTS + ["level", "constant", "absent"],
                                  probabilistic=st.sampled_from(
                                      [False, False, False, True])),
                     min_size=1, max_size=6),
    "prob_key": st.booleans(),
    "hh": st.lists(st.integers(1, 3), min_size=1, max_size=3),
    "subgroups": st.booleans(),
    "acts": st.lists(st.integers(0, 9), min_size=6, max_size=40),
    "extra": st.booleans(),
    "n": st.integers(1, 40),
    "own": st.sampled_from([1., 1., 0.7]),
    "seed": st.integers(0, 10**6),
    "profiles": st.sampled_from(["nothing", "only_switched_on",
                                 "only_always_on", "uniform"]),
    "order": st.booleans()}), 2500, 20000, budget=200,
     rule="an activity of some owned appliance started and stopped")
def usage(case):
    apps = case["apps"]
    more = {}
    if case["prob_key"]:
        more["probabilistic"] = [bool(a["probabilistic"]) for a in apps]
    types = sorted({a["type"] for a in apps})
    on = profiles(case["seed"], types[::2])
    # the types of the appliances that are always on have other profiles
    full = profiles(case["seed"] + 1, types[1::2] + types[:1])
    data = AppData([{**a, "own": case["own"]} for a in apps],
                   on_profiles=on, full_profiles=full, **more)
    keep = [i for i, a in enumerate(apps) if a["act"] != "absent"
            and not (case["prob_key"] and a["probabilistic"])]
    if not keep:
        return None
    n_hh = sum(case["hh"])
    names = ACTS + (["other"] if case["extra"] else [])
    if case["order"]:
        names = names[::-1]
    hist = activity_history(case["acts"], n_hh, case["n"] + 1, names)
    kw = {}
    if case["subgroups"]:
        kw = dict(subgroups_list=[{"n_residents": i} for i in
                                  range(1, len(case["hh"]) + 1)],
                  n_households_list=case["hh"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        first = copy_acts(hist[0])
        sim = ActivityApplianceSimulator(
            n_hh, first, data=data, equipped_sampling_algo="basic",
            real_profiles_algo=case["profiles"], **kw)
    for k in first:
        req_equal(first[k], hist[0][k], "the initial activities")
    got = sim.appliances
    req(int(got["number"]) == len(keep), "%s appliances simulated, "
        "expected %s", got["number"], len(keep))
    req_equal(list(got["name"]), ["A%02d" % i for i in keep],
              "simulated appliances")
    apps = [apps[i] for i in keep]
    owned = np.asarray(sim.available_appliances).copy()
    req(owned.shape == (n_hh, len(apps)), "ownership %s", owned.shape)
    if case["own"] == 1.:
        req(owned.all(), "an appliance everybody owns is missing")

    def loads_of(app):
        kind = case["profiles"]
        src = (full if app["act"] in OWN else on)
        ok = {"nothing": False, "uniform": True,
              "only_always_on": app["act"] in OWN,
              "only_switched_on": app["act"] not in OWN}[kind]
        if not ok or app["type"] not in src:
            return None
        return [list(x) for x in src[app["type"]].values()]

    # candidates (profile, position) of each appliance with a load profile
    cand = {}
    for h in range(n_hh):
        for a, app in enumerate(apps):
            p = loads_of(app)
            if p is None or not owned[h, a]:
                continue
            cand[h, a] = [(x, j) for x in p for j in
                          (range(len(x)) if app["act"] in OWN else [None])]
    used = np.zeros(owned.shape, dtype=bool)
    starts = stops = cycles = 0
    prev = None
    for i, acts in enumerate(hist):
        if i:
            given = copy_acts(acts)
            sim.step(given)
            for k in given:
                req_equal(given[k], acts[k], "the given activities")
        started = np.zeros(owned.shape, dtype=bool)
        for a, app in enumerate(apps):
            if app["act"] in OWN:
                used[:, a] = True
                continue
            now = acts[app["act"]] > 0
            was = prev[app["act"]] > 0 if i else np.zeros(n_hh, dtype=bool)
            started[:, a] = now & ~was
            used[started[:, a], a] = True
            if app["iso"]:
                stops += int((used[:, a] & ~now & owned[:, a]).sum())
                used[~now, a] = False
            starts += int((started[:, a] & owned[:, a]).sum())
        prev = acts
        req_equal(sim.get_current_usage(), used & owned,
                  "used appliances after %d steps" % i)
        power = np.asarray(sim.get_current_power_consumptions())
        want = np.zeros(owned.shape)
        for h in range(n_hh):
            for a, app in enumerate(apps):
                if not owned[h, a]:
                    continue
                if not used[h, a]:
                    want[h, a] = app["standby"]
                    # the pattern restarts with the activity
                elif (h, a) not in cand:
                    want[h, a] = app["mean"]
                else:
                    new = []
                    for x, j in cand[h, a]:
                        if started[h, a]:
                            j = 0
                        if x[j] == power[h, a]:
                            new.append((x, (j + 1) % len(x)))
                    req(new, "step %d: appliance %d of household %d uses %s "
                        "W, expected the next value of its profile, one of "
                        "%s", i, a, h, power[h, a],
                        [(x, j) for x, j in cand[h, a]])
                    cycles += any(j == 0 for _, j in new)
                    cand[h, a] = new
                    want[h, a] = power[h, a]
        req_close(power, want, "power after %d steps" % i)
        req_close(sim.get_power_demand(), want.sum(axis=1), "power demand")
    tags = []
    if starts and stops:
        tags.append("activity")
    if cycles:
        tags.append("profile")
    if len(apps) < len(case["apps"]) and tags:
        tags.append("others removed")
    return tags
