"""C33: appliances used at random while their activity takes place."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, req, req_close, req_equal, sub)
from props.c24 import activity_history, copy_acts
from props.lib_app import AppData, app_strategy, profiles

from demod.simulators.appliance_simulators import (
    ProbabiliticActivityAppliancesSimulator)

ACTS = ["cooking", "tv", "washing"]
TYPES = ["tv", "hob", "kettle", "shower", "washer", "dryer"]


class ProbData(AppData):
    """With targets and activity statistics depending on the subgroup."""

    def __init__(self, apps, targets, act_probs, act_starts, **kw):
        super().__init__(apps, **kw)
        self.targets = targets          # type -> number, or callable
        self.act_probs, self.act_starts = act_probs, act_starts

    def _of(self, x, subgroup):
        return x(subgroup) if callable(x) else {
            k: (v.copy() if hasattr(v, "copy") else v) for k, v in x.items()}

    def load_yearly_target_switchons(self, subgroup):
        return self._of(self.targets, subgroup)

    def load_activity_probabilities(self, subgroup):
        return self._of(self.act_probs, subgroup)

    def load_daily_activity_starts(self, subgroup):
        return self._of(self.act_starts, subgroup)


@sub("C33", "usage", st.fixed_dictionaries({
    "apps": st.lists(app_strategy(
        ACTS + ["absent"], probabilistic=st.sampled_from(
            [True, True, True, True, False]),
        prev=st.sampled_from(["", "", "", "act:cooking", "act:tv",
                              "act:washing", "act:other", "type:tv",
                              "type:washer", "type:hob", "type:kettle"])),
        min_size=1, max_size=6),
    "prob_key": st.booleans(),
    "hh": st.lists(st.integers(1, 3), min_size=1, max_size=3),
    "acts": st.lists(st.integers(0, 9), min_size=6, max_size=40),
    "n": st.integers(1, 40),
    "own": st.sampled_from([1., 1., 0.7]),
    "seed": st.integers(0, 10**6),
    "profiles": st.sampled_from(["nothing", "only_switched_on"]),
    "order": st.booleans(),
    "read": st.booleans()}), 2500, 20000, budget=200,
     rule="appliances started and their use ended during the run")
def usage(case):
    """Probabilities of 0 or 1: the whole history is determined."""
    apps = [dict(a) for a in case["apps"]]
    # as in the data sets, appliances of one type start for one reason
    own = {}
    for a in apps:
        a["on"], a["prev"] = own.setdefault(a["type"], (a["on"], a["prev"]))
        if a["prev"] == "type:" + a["type"]:
            a["prev"] = ""
    more = {
        "previous_activity": [a["prev"][4:] if a["prev"][:4] == "act:"
                              else "nan" for a in apps],
        "previous_appliance_type": [
            a["prev"][5:] if a["prev"][:5] == "type:" else "nan"
            for a in apps]}
    if case["prob_key"]:
        more["probabilistic"] = [bool(a["probabilistic"]) for a in apps]
    types = {}
    for a in apps:
        types.setdefault(a["type"], []).append(a)
    # a target beyond the possible starts starts the appliance at each one
    targets = {}
    for t, l in types.items():
        # larger than the total of the appliances it follows
        depth, x = 0, t
        while types[x][0]["prev"][:5] == "type:" and depth < 7:
            depth, x = depth + 1, types[x][0]["prev"][5:]
            if x not in types:
                break
        for i in range(len(l)):
            targets[t + ("_%d" % (i + 1) if i else "")] = (
                1e8 * 100. ** depth if l[0]["on"] else 0.)
    on = profiles(case["seed"], sorted(types)[::2])
    names = ACTS + ["other"]
    if case["order"]:
        names = names[::-1]
    data = ProbData([{**a, "own": case["own"]} for a in apps], targets,
                    {a: np.full(144, 0.1) for a in names},
                    {a: np.array([0.5, 0.3, 0.2]) for a in names},
                    on_profiles=on, **more)
    keep = [i for i, a in enumerate(apps) if a["act"] != "absent"
            and (not case["prob_key"] or a["probabilistic"])]
    if not keep:
        return None
    n_hh = sum(case["hh"])
    hist = activity_history(case["acts"], n_hh, case["n"] + 1, names)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        first = copy_acts(hist[0])
        sim = ProbabiliticActivityAppliancesSimulator(
            n_hh, first, data=data, equipped_sampling_algo="basic",
            real_profiles_algo=case["profiles"],
            subgroups_list=[{"n_residents": i} for i in
                            range(1, len(case["hh"]) + 1)],
            n_households_list=case["hh"])
    got = sim.appliances
    req(int(got["number"]) == len(keep), "%s appliances simulated, "
        "expected %s", got["number"], len(keep))
    req_equal(list(got["name"]), ["A%02d" % i for i in keep],
              "simulated appliances")
    apps = [apps[i] for i in keep]
    owned = np.asarray(sim.available_appliances).copy()
    if case["own"] == 1.:
        req(owned.all(), "an appliance everybody owns is missing")

    def lengths(app):
        if case["profiles"] == "nothing" or app["type"] not in on:
            return None
        return [list(x) for x in on[app["type"]].values()]

    def wins(app):
        """Whether a possible start happens (1), or not (0)."""
        if not app["on"]:
            return 0
        return 1

    left = np.zeros(owned.shape)
    dur = np.zeros(owned.shape)
    cand = {}
    tags = set()
    for i, acts in enumerate(hist):
        if i == 0:
            req(not np.any(sim.get_current_usage()), "used at the start")
            prev = acts
            continue
        given = copy_acts(acts)
        sim.step(given)
        started = np.zeros(owned.shape, dtype=bool)

        def start(h, a):
            app = apps[a]
            p = lengths(app)
            if p is not None:
                d = float(sim.load_duration[h, a])
                req(d in [len(x) for x in p], "profile of length %s", d)
                cand[h, a] = p if (h, a) not in cand else cand[h, a]
            elif app["water"]:
                d = float(sim.n_steps_left[h, a])
                v = d * app["flow"]
                req(abs(v - round(v)) < 1e-6 and (app["lam"] or v == 0),
                    "volume of %s liters drawn", v)
            else:
                d = float(app["dur"])
            left[h, a] = dur[h, a] = d
            started[h, a] = True

        before = left > 0
        left[before] = np.maximum(0., left[before] - 1)
        ended = before & ~(left > 0)
        tags.update(["ended"] * int(ended.any()))
        todo = []
        for h, a in zip(*np.where(ended)):
            for b, app in enumerate(apps):
                if (app["prev"] == "type:" + apps[a]["type"] and owned[h, b]
                        and left[h, b] <= 0 and wins(app)):
                    todo.append((h, b))
        for h, b in todo:
            start(h, b)
            tags.add("follows appliance")
        for act, now in acts.items():
            stop = (prev[act] != now) & (now == 0)
            for a, app in enumerate(apps):
                if app["act"] == act and app["iso"]:
                    left[stop, a] = 0.
                    tags.update(["inactive"] * int(stop.any()))
            todo = []
            for b, app in enumerate(apps):
                if app["prev"] == "act:" + act and wins(app):
                    todo += [(h, b) for h in np.where(stop)[0]
                             if owned[h, b] and left[h, b] <= 0]
            for h, b in todo:
                start(h, b)
                tags.add("follows activity")
            todo = []
            for a, app in enumerate(apps):
                if app["act"] == act and not app["prev"] and wins(app):
                    todo += [(h, a) for h in np.where(now > 0)[0]
                             if owned[h, a] and left[h, a] <= 0]
            for h, a in todo:
                start(h, a)
                tags.add("activity")
        prev = acts
        used = left > 0
        if not case["read"] and i % 3:
            continue
        req_equal(sim.get_current_usage(), used, "used appliances after %d "
                  "steps" % i)
        power = np.asarray(sim.get_current_power_consumptions())
        for h in range(n_hh):
            for a, app in enumerate(apps):
                if not owned[h, a]:
                    want = [0.]
                elif not used[h, a]:
                    want = [app["standby"]]
                elif lengths(app) is None:
                    want = [app["mean"]]
                else:
                    pos = int(dur[h, a] - left[h, a])
                    cand[h, a] = [x for x in cand[h, a]
                                  if len(x) == dur[h, a]]
                    want = [x[pos] for x in cand[h, a]]
                    cand[h, a] = [x for x in cand[h, a]
                                  if x[pos] == power[h, a]]
                    tags.add("profile")
                req(power[h, a] in want, "after %d steps, appliance %d of "
                    "household %d uses %s W, expected %s", i, a, h,
                    power[h, a], want)
        req_close(sim.get_power_demand(), power.sum(axis=1), "power demand")
    return sorted(tags) if {"activity", "ended"} <= tags else None


NUM = st.sampled_from([0., 3., 52., 365., 1400., 20000.])


@sub("C33", "probabilities", st.fixed_dictionaries({
    "apps": st.lists(app_strategy(ACTS, prev=st.sampled_from(
        ["", "", "", "act:cooking", "act:tv", "type:tv", "type:hob"]),
        parent=st.sampled_from(["", "", "big_", "very_big_"])),
        min_size=1, max_size=6),
    "hh": st.lists(st.integers(1, 3), min_size=1, max_size=3),
    "targets": st.lists(NUM, min_size=12, max_size=12),
    "no_target": st.booleans(),
    "res": st.lists(st.sampled_from([None, 1, 2, 5]), min_size=3,
                    max_size=3),
    "probs": st.lists(st.floats(0.01, 1.), min_size=9, max_size=9),
    "starts": st.lists(st.floats(0.01, 1.), min_size=6, max_size=6),
    "steps": st.sampled_from([1, 10]),
    "seed": st.integers(0, 10**6)}), 1000, 15000, budget=120,
     rule="several subgroups with positive probabilities")
def probabilities(case):
    """Probabilities reach the yearly targets of each subgroup."""
    import datetime as dt
    apps = [dict(a) for a in case["apps"]]
    for a in apps:
        a["type"] = a["parent"] + a["type"]
        if a["prev"] == "type:" + a["type"]:
            a["prev"] = ""
    bases = sorted({a["type"].split("_")[-1] for a in apps})
    missing = bases[:1] if case["no_target"] else []
    sgs, tg, pr, sr = [], [], [], []
    rng = np.random.RandomState(case["seed"])
    for i in range(len(case["hh"])):
        sgs.append({"household_type": i + 1})
        if case["res"][i] is not None:
            sgs[-1]["n_residents"] = case["res"][i]
        tg.append({})
        for j, b in enumerate(bases):
            if b in missing:
                continue
            for k in ("", "_2"):
                tg[-1][b + k] = case["targets"][
                    (3 * i + 2 * j + len(k)) % 12]
        pr.append({a: rng.uniform(size=144) * case["probs"][3 * i + j]
                   for j, a in enumerate(ACTS)})
        # pdf of the number of starts per day
        sr.append({a: np.array([1 - case["starts"][i + j],
                                case["starts"][i + j] / 2,
                                case["starts"][i + j] / 2])
                   for j, a in enumerate(ACTS)})

    def of(l):
        return lambda sg: {k: (v.copy() if hasattr(v, "copy") else v)
                           for k, v in l[sg["household_type"] - 1].items()}

    more = {"previous_activity": [a["prev"][4:] if a["prev"][:4] == "act:"
                                  else "nan" for a in apps],
            "previous_appliance_type": [
                a["prev"][5:] if a["prev"][:5] == "type:" else "nan"
                for a in apps],
            "target_switchons": rng.randint(1, 500, size=len(apps)) * 1.}
    data = ProbData(apps, of(tg), of(pr), of(sr), **more)
    n_hh = sum(case["hh"])
    zero = {a: np.zeros(n_hh, dtype=int) for a in ACTS}
    step = dt.timedelta(minutes=case["steps"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = ProbabiliticActivityAppliancesSimulator(
            n_hh, zero, data=data, equipped_sampling_algo="all",
            subgroups_list=sgs, n_households_list=case["hh"],
            step_size=step)
        got = np.asarray(sim.sample_switch_on_probs())
    want = np.zeros((n_hh, len(apps)))
    h = 0
    for i, n in enumerate(case["hh"]):
        count, target = {}, []
        for a, app in enumerate(apps):
            b = app["type"].split("_")[-1]
            if b in missing:
                target.append(more["target_switchons"][a])
                continue
            count[b] = count.get(b, 0) + 1
            key = b if count[b] == 1 else "%s_%d" % (b, count[b])
            target.append(tg[i].get(key, 0.))
        res = sgs[i].get("n_residents", 2.3)
        for a, app in enumerate(apps):
            if app["prev"][:5] == "type:" and any(
                    x["type"] == app["prev"][5:] for x in apps):
                tot = sum(t for t, x in zip(target, apps)
                          if x["type"] == app["prev"][5:])
                p = target[a] / tot if tot else np.nan
            elif app["prev"][:4] == "act:":
                p0 = sr[i][app["prev"][4:]]
                p = target[a] / (365.25 * (p0[1] + 2 * p0[2]) * res)
            else:
                year = 365.25 * 24 * 60 / case["steps"]
                free = year * pr[i][app["act"]].mean() - (
                    app["dur"] * target[a])
                p = target[a] / max(free, 1.)
            want[h:h + n, a] = p
        h += n
    ok = np.isfinite(want)
    req(got.shape == want.shape, "shape %s", got.shape)
    req_close(got[ok], want[ok], "switch-on probabilities")
    if len(case["hh"]) > 1 and (want[ok] > 0).any():
        return ["subgroups"] + (["after"] if any(a["prev"] for a in apps)
                                else [])
    return None


@sub("C33", "frequencies", st.fixed_dictionaries({
    "p": st.lists(st.floats(0.005, 0.9), min_size=2, max_size=2),
    "dur": st.lists(st.sampled_from([1, 2, 5]), min_size=2, max_size=2),
    "lam": st.sampled_from([0., 2., 15.]),
    "n": st.integers(3, 12), "seed": st.integers(0, 1000)}),
     25, 250, budget=100,
     rule="always: starts among the households that can start are counted")
def frequencies(case):
    """Households start independently with the probability of their model."""
    from scipy.stats import poisson
    n_hh = 3000
    water = case["lam"] > 0
    apps = [{"type": t, "act": "cooking", "iso": False, "mean": 10.,
             "standby": 0, "dur": d, "delay": 0, "water": w, "flow": 100.,
             "lam": case["lam"], "on": 1}
            for t, d, w in zip(("tv", "shower"), case["dur"],
                               (False, water))]
    # target so that the probability of a free step is p
    year = 365.25 * 24 * 60 * 0.5
    targets = {a["type"]: p * year / (1 + p * a["dur"])
               for a, p in zip(apps, case["p"])}
    nan = ["nan", "nan"]
    data = ProbData(apps, targets, {"cooking": np.full(144, 0.5)},
                    {"cooking": np.array([0.5, 0.5])},
                    previous_activity=nan, previous_appliance_type=nan)
    some = np.random.RandomState(case["seed"]).randint(0, 3, size=n_hh)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = ProbabiliticActivityAppliancesSimulator(
            n_hh, {"cooking": some.copy()}, data=data,
            equipped_sampling_algo="all")
    free_since = np.zeros((n_hh, 2), dtype=int)
    tot, hits = np.zeros(2), np.zeros(2)
    volumes = []
    for i in range(case["n"]):
        sim.step({"cooking": some.copy()})
        use = np.asarray(sim.get_current_usage())
        req(not use[some == 0].any(), "started without the activity")
        left = np.asarray(sim.n_steps_left)
        for a in range(2):
            can = (free_since[:, a] <= i) & (some > 0)
            if apps[a]["water"]:
                volumes.append(np.maximum(left[can, a], 0.) * 100.)
                tot[a] += can.sum()
                # fraction of a minute: free again at the next step
                free_since[can, a] = i + 1
            else:
                hit = can & use[:, a]
                hits[a] += hit.sum()
                tot[a] += can.sum()
                free_since[hit, a] = i + int(apps[a]["dur"])
                req((use[:, a] == (free_since[:, a] > i)).all(),
                    "durations differ from %s steps", apps[a]["dur"])
    for a in range(2):
        p = case["p"][a]
        if not apps[a]["water"]:
            pv = gtest_pvalue([hits[a], tot[a] - hits[a]], [p, 1 - p])
            req(pv > P_REJECT, "%d starts in %d, probability %.4f (p=%.2g)",
                hits[a], tot[a], p, pv)
        else:
            x = np.round(np.concatenate(volumes)).astype(int)
            kmax = int(case["lam"] * 3 + 12)
            obs = np.bincount(np.minimum(x, kmax), minlength=kmax + 1)
            pk = p * poisson.pmf(np.arange(kmax + 1), case["lam"])
            pk[0] += 1 - p
            pk[kmax] = max(0., 1 - pk[:kmax].sum())
            pv = gtest_pvalue(obs, pk)
            req(pv > P_REJECT, "volumes %s, expected %s (p=%.2g)",
                obs.tolist(), (pk * tot[a]).round(1).tolist(), pv)
    return ["water" if water else "dry"]
