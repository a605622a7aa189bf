"""C11: households made of independently simulated individuals."""
import datetime as dt
import json
import warnings
import zlib

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_equal, sub)

from demod.simulators.activity_simulators import (
    MarkovChain1rstOrder, SemiMarkovSimulator,
    SubgroupsIndividualsActivitySimulator)
from props.c09 import one_hot, random_tpm

BASE = ["away", "sleeping", "cooking", "tv", "other"]
NT = 144


def persons_of(sg):
    sg = dict(sg)
    n = sg.pop("n_residents", None)
    t = sg.pop("household_type", None)
    if t == 1 or n == 1:
        if "age" not in sg and "hh_mean_age" in sg:
            sg["age"] = sg.pop("hh_mean_age")
        return [sg]
    if t == 2:
        pos = [1, 2]
    elif t == 3:
        pos = [1] + [3] * (n - 1)
    elif t == 4:
        pos = [1, 2] + [3] * (n - 2)
    else:
        return [dict(sg) for _ in range(n)]
    return [{**sg, "household_position": p} for p in pos]


def ref_add_time(sg, flags, date):
    sg = {k: v for k, v in sg.items() if k not in ("weekday", "quarter")}
    d = date.isoweekday()
    if flags.get("use_week_ends_days"):
        sg["weekday"] = [1, 2, 3, 4, 5] if d <= 5 else [6, 7]
    elif flags.get("use_week_sat_sun"):
        sg["weekday"] = [1, 2, 3, 4, 5] if d <= 5 else d
    elif flags.get("use_7days"):
        sg["weekday"] = d
    if flags.get("use_quarters"):
        sg["quarter"] = (date.month - 1) // 3 + 1
    return sg


class Data:
    """Deterministic behaviour depending on the subgroup, slot and label."""
    step_size = dt.timedelta(minutes=10)

    def __init__(self, n, dmax, prev, permute, refresh, seed=0, drop=None):
        self.n, self.dmax, self.prev, self.permute = n, dmax, prev, permute
        self.drop = drop
        self.refresh_time = refresh
        self.seed = seed
        self.cache = {}

    def tables(self, sg):
        key = json.dumps(dict(sg), sort_keys=True, default=int) + str(self.seed)
        if key not in self.cache:
            rng = np.random.RandomState(zlib.crc32(key.encode()))
            n, have = self.n, np.array(self.states_of(sg))
            self.cache[key] = {
                "next": rng.randint(n, size=(NT, n)),
                "dur": rng.randint(1, self.dmax + 1, size=(NT, n, n)),
                "start": int(rng.randint(n)),
                "dur0": rng.randint(1, self.dmax + 1, size=n),
                "perm": (rng.permutation(n) if self.permute
                         else np.arange(n)),
            }
            if self.drop:
                t = self.cache[key]
                t["next"] = have[t["next"] % len(have)]
                # states that everyone has at the end of the day
                t["next"][0] %= 2
                t["start"] = int(have[t["start"] % len(have)])
                t["perm"] = t["perm"][np.isin(t["perm"], have)]
            if not self.prev:
                d = self.cache[key]["dur"]
                d[:] = d[:, :1, :]
        return self.cache[key]

    def states_of(self, sg):
        """The states that some kind of person can have."""
        if not self.drop:
            return list(range(self.n))
        sg = {k: v for k, v in sg.items() if self.drop == "times"
              or k not in ("weekday", "quarter")}
        key = "drop" + json.dumps(sg, sort_keys=True, default=int)
        rng = np.random.RandomState(zlib.crc32(key.encode()) + self.seed)
        return [i for i in range(self.n) if i < 2 or rng.rand() < .5]

    def _common(self, sg):
        t = self.tables(sg)
        perm = t["perm"]                 # position -> label index
        inv = np.full(self.n, -1)
        inv[perm] = np.arange(len(perm))
        nxt = inv[t["next"][:, perm]]
        pdf = np.zeros(len(perm))
        pdf[inv[t["start"]]] = 1.
        labels = np.array(BASE[:self.n])[perm]
        return t, perm, one_hot(nxt, len(perm)), labels, pdf

    def load_tpm(self, sg):
        _, _, tpm, labels, pdf = self._common(sg)
        return tpm, labels, pdf

    def load_tpm_with_duration(self, sg):
        t, perm, tpm, labels, pdf = self._common(sg)
        d = t["dur"][:, perm][:, :, perm]
        if not self.prev:
            d = d[:, 0]
        durs = one_hot(d, NT)
        return tpm, durs, labels, pdf, one_hot(t["dur0"][perm], NT)


FLAGS = ["use_week_ends_days", "use_week_sat_sun", "use_7days"]

SUBGROUPS = st.one_of(
    st.builds(lambda x: {"n_residents": 1, "household_type": 1, **x},
              st.sampled_from([{}, {"hh_mean_age": 2}, {"age": 3}])),
    st.builds(lambda x: {"n_residents": 2, "household_type": 2, **x},
              st.sampled_from([{}, {"age": 3}])),
    st.builds(lambda n: {"n_residents": n, "household_type": 3},
              st.integers(2, 4)),
    st.builds(lambda n: {"n_residents": n, "household_type": 4},
              st.integers(3, 5)),
    st.builds(lambda n, x: {"n_residents": n, **x}, st.integers(1, 5),
              st.sampled_from([{}, {"work": "a"}])))


@st.composite
def cases(draw):
    refresh = draw(st.sampled_from([240, 240, 0, 330, 1430]))
    return {
        "groups": draw(st.lists(st.tuples(SUBGROUPS, st.integers(0, 4)),
                                min_size=1, max_size=5)),
        "n": draw(st.integers(2, 5)), "semi": draw(st.booleans()),
        "dmax": draw(st.sampled_from([1, 4, 30])), "prev": draw(st.booleans()),
        "permute": draw(st.booleans()), "refresh": refresh,
        "flags": draw(st.sampled_from([[], [FLAGS[0]], [FLAGS[1]], [FLAGS[2]],
                                       ["use_quarters"],
                                       [FLAGS[0], "use_quarters"]])),
        "day": draw(st.integers(0, 900)),
        "slot": draw(st.one_of(st.integers(130, 143), st.integers(0, 143))),
        "run": draw(st.sampled_from([0, 1, 7, 20, 40])),
        "seed": draw(st.integers(0, 5)),
        # activities that some kinds of persons never do (at some times)
        "drop": draw(st.sampled_from([None, None, "persons", "times"])),
    }


def drop_of(case):
    drop = case.get("drop")
    return "persons" if drop == "times" and case["semi"] else drop


def simulate_reference(case, data, flags, start):
    """Label index of every person at every recorded step."""
    groups = [(sg, n) for sg, n in case["groups"] if n > 0]
    people = []
    for sg, n in groups:
        for _ in range(n):
            people.append(persons_of(sg))
    r = case["refresh"]
    sod = start.hour * 60 + start.minute
    init_slots = ((sod - r) % 1440) // 10
    t0 = start - dt.timedelta(minutes=10 * init_slots)
    cache = {}

    def path(person):
        key = json.dumps(person, sort_keys=True)
        if key in cache:
            return cache[key]
        sg = person
        tb = data.tables(sg)
        s = tb["start"]
        left = int(tb["dur0"][s])
        out = [s]
        for k in range(init_slots + case["run"]):
            time = t0 + dt.timedelta(minutes=10 * k)
            slot = k % NT
            if slot == 0 and flags:
                sg = ref_add_time(person, flags, time)
                tb = data.tables(sg)
            i = (slot + 1) % NT
            if case["semi"]:
                left -= 1
                if left == 0:
                    new = int(tb["next"][i, s])
                    left = int(tb["dur"][i, s, new])
                    s = new
            else:
                s = int(tb["next"][i, s])
            out.append(s)
        cache[key] = out[init_slots:]
        return cache[key]
    return [[path(p) for p in hh] for hh in people]


@sub("C11", "deterministic_households", cases(), 260, 5000, budget=200,
     rule="at least two kinds of households; simulated across a day change")
def deterministic(case):
    groups = [(dict(sg), n) for sg, n in case["groups"]]
    if not any(n for _, n in groups):
        return None
    refresh = dt.time(case["refresh"] // 60, case["refresh"] % 60)
    data = Data(case["n"], case["dmax"], case["prev"], case["permute"],
                refresh, case["seed"], drop_of(case))
    flags = {f: True for f in case["flags"]}
    start = (dt.datetime(2014, 1, 1) + dt.timedelta(days=case["day"]) +
             dt.timedelta(minutes=case["refresh"] + 10 * case["slot"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = SubgroupsIndividualsActivitySimulator(
            [dict(sg) for sg, _ in groups], [n for _, n in groups],
            subsimulator=(SemiMarkovSimulator if case["semi"]
                          else MarkovChain1rstOrder),
            data=data, start_datetime=start, **flags)
    ref = simulate_reference(case, data, flags, start)
    residents = np.array([len(h) for h in ref])
    req_equal(sim.n_households, len(ref), "number of households")
    req_equal(sim.n_residents, residents, "residents")
    req(sim.current_time == start, "clock")
    acts = sorted(map(str, sim.activity_labels))
    if data.drop:
        mine = {BASE[i] for sg, n in groups if n for p in persons_of(sg)
                for i in data.states_of(p)}
        req(mine <= set(acts) <= set(BASE[:case["n"]]), "activity labels %s, "
            "some persons have %s", acts, mine)
    else:
        req(acts == sorted(BASE[:case["n"]]), "activity labels %s", acts)
    for k in range(case["run"] + 1):
        if k:
            sim.step()
        counts = {lab: np.array([sum(p[k] == i for p in h) for h in ref])
                  for i, lab in enumerate(BASE[:case["n"]])}
        # activities of nobody may be unknown
        known = set(map(str, sim.activity_labels))
        req(all(lab in known or not v.any() for lab, v in counts.items()),
            "step %d: activities %s", k, known)
        counts = {lab: v for lab, v in counts.items() if lab in known}
        for lab, want in counts.items():
            req_equal(sim.get_n_doing_activity(lab), want,
                      "step %d: doing %s" % (k, lab))
        occ = residents - counts["away"]
        req_equal(sim.get_occupancy(), occ, "step %d: occupancy" % k)
        req_equal(sim.get_active_occupancy(), occ - counts["sleeping"],
                  "step %d: active occupancy" % k)
        states = sim.get_activity_states()
        req(set(map(str, states)) == set(counts) | {"active_occupancy"},
            "keys of the activity states: %s" % sorted(states))
        for lab, want in counts.items():
            req_equal(states[lab], want, "activity state %s" % lab)
            req_equal(sim.get_performing_activity(lab), want,
                      "performing %s" % lab)
        req_equal(states["active_occupancy"], occ - counts["sleeping"],
                  "active occupancy in the states")
        got = sim.get_n_doing_activity(["away", "sleeping"])
        req_equal(got[0], counts["away"], "list of activities")
        req_equal(got[1], counts["sleeping"], "list of activities")
    req(sim.current_time == start + dt.timedelta(minutes=10 * case["run"]),
        "clock")
    crosses = case["slot"] + case["run"] > NT
    if len({json.dumps(sg, sort_keys=True) for sg, n in groups if n}) > 1:
        return ((["semi"] if case["semi"] else ["markov"]) +
                (["day_change"] if crosses and flags else []) +
                (["own-activities"] if data.drop else []))


@sub("C11", "weeks", cases().map(lambda c: dict(
    c, groups=[(sg, min(n, 2)) for sg, n in c["groups"][:3]], n=min(c["n"], 3),
    flags=c["flags"] or [FLAGS[c["seed"] % 3]],
    run=[450, 900, 1250][c["seed"] % 3])), 16, 300, budget=200,
     rule="two kinds of households simulated for several days")
def weeks(case):
    return deterministic(case)


@sub("C11", "changing_activities", st.tuples(cases(), st.sampled_from(
        ["persons", "times", "times"])).map(lambda c: dict(
            c[0], drop=c[1], n=5, run=200,
            flags=[FLAGS[c[0]["seed"] % 3]])), 100, 1000, budget=100,
     rule="activities exist at some times only")
def changing(case):
    """Persons stay in the households when their activities change."""
    groups = [(dict(sg), n) for sg, n in case["groups"]]
    if not any(n for _, n in groups):
        return None
    data = Data(case["n"], case["dmax"], case["prev"], case["permute"],
                dt.time(case["refresh"] // 60, case["refresh"] % 60),
                case["seed"], case["drop"])
    start = (dt.datetime(2014, 1, 1) + dt.timedelta(days=case["day"]) +
             dt.timedelta(minutes=case["refresh"] + 10 * case["slot"]))
    sim = SubgroupsIndividualsActivitySimulator(
        [dict(sg) for sg, _ in groups], [n for _, n in groups],
        subsimulator=(SemiMarkovSimulator if case["semi"]
                      else MarkovChain1rstOrder),
        data=data, start_datetime=start, **{f: True for f in case["flags"]})
    residents = np.concatenate([[len(persons_of(sg))] * n
                                for sg, n in groups])
    sets = set()
    for k in range(case["run"]):
        sim.step()
        req_equal(all_labels_sum(sim), residents,
                  "persons over all activities, step %d" % k)
        states = sim.get_activity_states()
        known = set(map(str, sim.activity_labels))
        req(set(map(str, states)) == known | {"active_occupancy"},
            "step %d: states %s of %s", k, sorted(states), known)
        sets.add(tuple(str(list(s.state_labels)) for s in sim.simulators)
                 if hasattr(sim.simulators[0], "state_labels") else ())
    if case["drop"] == "times" and len(sets) > 1:
        return ["semi" if case["semi"] else "markov"]


class RandomData:
    refresh_time = dt.time(4)
    step_size = dt.timedelta(minutes=10)

    def __init__(self, n, seed):
        self.n, self.seed = n, seed

    def load_tpm(self, sg):
        key = json.dumps(dict(sg), sort_keys=True, default=int) + str(self.seed)
        rng = np.random.RandomState(zlib.crc32(key.encode()))
        tpm = random_tpm(rng, NT, self.n, False)
        return (tpm, np.array(BASE[:self.n]),
                random_tpm(rng, 1, self.n, False)[0, 0])


def all_labels_sum(sim):
    return sum(sim.get_n_doing_activity(a) for a in sim.activity_labels)


@sub("C11", "random_households", st.fixed_dictionaries({
    "groups": st.lists(st.tuples(SUBGROUPS, st.sampled_from([0, 1, 3, 900])),
                       min_size=1, max_size=3),
    "n": st.integers(2, 4), "seed": st.integers(0, 10**6),
    "slot": st.integers(0, 12), "run": st.integers(1, 6)}), 90, 2000,
     budget=200,
     rule="at least 900 households of several persons")
def random_households(case):
    groups = [(dict(sg), n) for sg, n in case["groups"] if n]
    if not groups:
        return None
    data = RandomData(case["n"], case["seed"])
    start = dt.datetime(2014, 3, 5, 4) + dt.timedelta(
        minutes=10 * case["slot"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = SubgroupsIndividualsActivitySimulator(
            [dict(sg) for sg, _ in groups], [n for _, n in groups],
            data=data, start_datetime=start)
    residents = np.concatenate([[len(persons_of(sg))] * n
                                for sg, n in groups])
    margs = {}
    tags = []
    for k in range(case["run"] + 1):
        if k:
            sim.step()
        req_equal(all_labels_sum(sim), residents,
                  "persons over all activities, step %d" % k)
        occ, act = sim.get_occupancy(), sim.get_active_occupancy()
        req(bool(np.all((0 <= act) & (act <= occ) & (occ <= residents))),
            "0 <= active <= occupants <= residents")
        off = 0
        for sg, n in groups:
            people = persons_of(sg)
            if n >= 900:
                # distribution of the number of people away: independent
                # persons, each with the probability of its own chain
                dist = np.ones(1)
                for p in people:
                    key = json.dumps(p, sort_keys=True)
                    if (key, k) not in margs:
                        tpm, _, pdf = data.load_tpm(p)
                        m = pdf
                        for j in range(case["slot"] + k):
                            m = m @ tpm[(j + 1) % NT]
                        margs[key, k] = m[0]
                    q = margs[key, k]
                    dist = np.convolve(dist, [1 - q, q])
                away = sim.get_n_doing_activity("away")[off:off + n]
                pv = gtest_pvalue(np.bincount(
                    away, minlength=len(dist)), np.clip(dist, 0, 1))
                req(pv > P_REJECT, "people away per household: %s, "
                    "expected %s (p=%g)" % (np.bincount(
                        away, minlength=len(dist)) / n, dist, pv))
                if len(people) > 1:
                    tags = ["independence"]
            off += n
    return tags


@sub("C11", "shipped_data", st.fixed_dictionaries({
    "activity": st.sampled_from(["DemodActivities_0", "Bottaccioli2018"]),
    "sizes": st.lists(st.integers(0, 6), min_size=3, max_size=3),
    "slot": st.integers(0, 143), "run": st.integers(0, 12)}), 12, 200,
     budget=200, rule="at least two kinds of households")
def shipped(case):
    from demod.datasets.GermanTOU.loader import GTOU
    sgs = [{"n_residents": 2, "household_type": 2},
           {"n_residents": 3, "household_type": 3},
           {"n_residents": 4, "household_type": 4}]
    if not any(case["sizes"]):
        return None
    sim = SubgroupsIndividualsActivitySimulator(
        sgs, case["sizes"], data=GTOU(case["activity"]),
        subsimulator=(SemiMarkovSimulator
                      if case["activity"] == "Bottaccioli2018"
                      else MarkovChain1rstOrder),
        start_datetime=dt.datetime(2014, 1, 1, 4) + dt.timedelta(
            minutes=10 * case["slot"]))
    residents = np.concatenate([[s["n_residents"]] * n
                                for s, n in zip(sgs, case["sizes"])])
    for _ in range(case["run"]):
        sim.step()
    req_equal(sim.n_residents, residents, "residents")
    req_equal(all_labels_sum(sim), residents, "persons over all activities")
    occ, act = sim.get_occupancy(), sim.get_active_occupancy()
    req(bool(np.all((0 <= act) & (act <= occ) & (occ <= residents))),
        "0 <= active <= occupants <= residents")
    if sum(n > 0 for n in case["sizes"]) > 1:
        return [case["activity"]]


@sub("C11", "refused", st.fixed_dictionaries({
    "what": st.sampled_from(["subsimulator", "step_size"]),
    "minutes": st.sampled_from([1, 5, 11, 60])}), 20, 100, rule="every case")
def refused(case):
    data = Data(3, 2, False, False, dt.time(4))
    args = ([{"n_residents": 2, "household_type": 2}], [2])
    start = dt.datetime(2014, 1, 1, 4)
    if case["what"] == "step_size":
        req(raises(ValueError, SubgroupsIndividualsActivitySimulator, *args,
                   data=data, start_datetime=start,
                   step_size=dt.timedelta(minutes=case["minutes"])),
            "step size accepted")
        SubgroupsIndividualsActivitySimulator(
            *args, data=data, start_datetime=start,
            step_size=dt.timedelta(minutes=10))
    else:
        req(raises(TypeError, SubgroupsIndividualsActivitySimulator, *args,
                   data=data, start_datetime=start, subsimulator=dict),
            "sub-simulator accepted")
    return [case["what"]]
