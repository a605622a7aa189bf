"""C18: appliances owned by the households."""
import copy
import datetime as dt
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_close,
                      req_equal, sub)
from props.c33 import ProbData
from props.lib_app import AppData

from demod.simulators.appliance_simulators import (
    ActivityApplianceSimulator, OccupancyApplianceSimulator,
    ProbabiliticActivityAppliancesSimulator)
from demod.utils import appliances as ua

PARTS = ["chest", "electric", "gaz", "hob", "freezer", "tv", "2", "box"]
TYPE = st.lists(st.sampled_from(PARTS), min_size=1, max_size=3).map("_".join)


def closest(t, known):
    parts = t.split("_")
    for i in range(len(parts)):
        k = "_".join(parts[i:])
        if k in known:
            return k
    return False


def numbers(types, table, default):
    out, count = [], {}
    for i, t in enumerate(types):
        k = closest(t, table)
        if k is False:
            out.append(default[i])
            continue
        count[k] = count.get(k, 0) + 1
        key = k if count[k] == 1 else "%s_%d" % (k, count[k])
        out.append(table.get(key, 0.))
    return out


@sub("C18", "tables", st.fixed_dictionaries({
    "types": st.lists(TYPE, min_size=1, max_size=8),
    "table": st.dictionaries(st.one_of(TYPE, st.builds(
        lambda t, n: "%s_%d" % (t, n), TYPE, st.integers(2, 4))),
        st.sampled_from([0., 0.25, 0.5, 0.9, 1.]), max_size=8),
    "copies": st.booleans()}), 3000, 60000,
     rule="a parent type, a second appliance of a type or an unknown type")
def tables(case):
    types = case["types"] + (case["types"][::-1] if case["copies"] else [])
    table = dict(case["table"])
    for t in case["types"][:2]:
        if case["copies"]:
            table.setdefault(t.split("_")[-1], 0.75)
            table.setdefault(t.split("_")[-1] + "_2", 0.125)
    n = len(types)
    prob = 0.01 * np.arange(n)
    target = 10. * np.arange(n)
    dic = {"type": np.array(types), "number": n, "equipped_prob": prob,
           "target_switchons": target, "other": target + 1}
    keep_t, keep_d = dict(table), copy.deepcopy(dic)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        own = ua.get_ownership_from_dict(dic, table)
        tar = ua.get_target_from_dict(dic, table)
        oth = ua.get_target_from_dict(dic, table, default_key="other")
    req_close(own, numbers(types, table, prob), "ownership")
    req_close(tar, numbers(types, table, target), "target")
    req_close(oth, numbers(types, table, target + 1), "target (other key)")
    req(table == keep_t, "the table was changed")
    req(sorted(dic) == sorted(keep_d), "the appliances were changed")
    for k in dic:
        req_equal(dic[k], keep_d[k], "given appliances")
    tags = set()
    for t in types:
        k = closest(t, table)
        req(ua.find_closest_type(t, table) == k, "closest to %s is %s",
            t, ua.find_closest_type(t, table))
        req(ua.find_closest_type(t, list(table)) == k, "closest in a list")
        parts = t.split("_")
        want = "_".join(parts[1:]) if len(parts) > 1 else False
        req(ua.remove_start(t) == want, "parent of %s is %s", t,
            ua.remove_start(t))
        tags.add("unknown" if k is False else "parent" if k != t else "")
    if len(set(types)) < len(types):
        tags.add("repeated")
    return sorted(tags - {""})


@sub("C18", "several", st.fixed_dictionaries({
    "p": st.floats(0, 1), "more": st.one_of(
        st.floats(0, 6), st.integers(0, 5).map(float)),
    "nan": st.sampled_from([None, None, None, "np", "float", "array"])}),
     2000, 40000, rule="more than one appliance on average, or unknown")
def several(case):
    p, n = case["p"], case["p"] + case["more"]
    given = {None: n, "np": np.nan, "float": float("nan"),
             "array": np.array([np.nan])[0]}[case["nan"]]
    out = list(ua.assign_ownership_from_prob1_and_number(p, given))
    if case["nan"]:
        n = p
    req(out[0] == p, "probability of a first one %s instead of %s", out[0], p)
    req(all(0 <= x <= 1 for x in out), "probabilities %s", out)
    req(abs(sum(out) - n) < 1e-9, "%s own %s on average, not %s", out,
        sum(out), n)
    rest = [x for x in out[1:] if x > 0]
    req(all(x > 1 - 1e-12 for x in rest[:-1]), "not filled in order: %s", out)
    for bad in ((p, -0.1), (-0.1, n), (1.5, 2.), (p, p - 0.01)):
        req(raises(ValueError, ua.assign_ownership_from_prob1_and_number,
                   *bad), "accepted probability %s with number %s", *bad)
    req(raises(ValueError, ua.assign_ownership_from_prob1_and_number, p, n,
               algo="other"), "accepted an unknown algorithm")
    if case["nan"]:
        return ["unknown"]
    return ["several"] if n > 1 else None


@sub("C18", "merge", st.fixed_dictionaries({
    "n": st.tuples(st.integers(1, 4), st.integers(1, 4)),
    "k1": st.sets(st.sampled_from("abcde")),
    "k2": st.sets(st.sampled_from("abcde"))}), 800, 10000,
     rule="some common and some different keys")
def merge(case):
    n1, n2 = case["n"]
    k1, k2 = sorted(case["k1"]), sorted(case["k2"])
    d1 = {"number": n1, "name": np.array(["x%d" % i for i in range(n1)])}
    d2 = {"number": n2, "name": np.array(["long%d" % i for i in range(n2)])}
    for d, ks, n, o in ((d1, k1, n1, 0), (d2, k2, n2, 100)):
        for k in ks:
            d[k] = np.arange(n) * 1. + o + ord(k)
    c1, c2 = copy.deepcopy(d1), copy.deepcopy(d2)
    out = ua.merge_appliance_dict(d1, d2)
    req(set(out) == {"number", "name"} | (set(k1) & set(k2)),
        "merged keys %s", sorted(out))
    req(out["number"] == n1 + n2, "number %s", out["number"])
    for k in out:
        if k != "number":
            req_equal(out[k], list(c1[k]) + list(c2[k]), "merged " + k)
    for d, c in ((d1, c1), (d2, c2)):
        for k in c:
            req_equal(d[k], c[k], "given " + k)
    common = set(k1) & set(k2)
    return ["mixed"] if common and (set(k1) ^ set(k2)) else None


def make(kind, n_hh, data, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "occupancy":
            kw.setdefault("subgroups_list", [{"n_residents": 1}])
            kw.setdefault("n_households_list", [n_hh])
            return OccupancyApplianceSimulator(
                data=data, start_datetime=dt.datetime(2021, 3, 1, 4), **kw)
        cls = (ActivityApplianceSimulator if kind == "activity"
               else ProbabiliticActivityAppliancesSimulator)
        return cls(n_hh, {"tv": np.ones(n_hh, dtype=int)}, data=data, **kw)


def set_data(types, own, tables=None):
    apps = [{"type": t, "act": "tv", "iso": True, "mean": 1., "standby": 0,
             "dur": 3, "delay": 0, "water": False, "flow": 0., "lam": 0.,
             "on": 0, "own": o} for t, o in zip(types, own)]
    nan = ["nan"] * len(types)

    class Data(ProbData):
        def load_appliance_ownership_dict(self, subgroup):
            return dict(tables[subgroup["n_residents"] - 1])

    data = Data(apps, lambda sg: {t: 0. for t in set(types)},
                {"tv": np.full(144, .1)}, {"tv": np.array([.5, .5])},
                previous_activity=nan, previous_appliance_type=nan)
    data.acts = lambda sg: {"tv": np.zeros((144, 7))}
    return data


KINDS = st.sampled_from(["occupancy", "activity", "probabilistic"])


@sub("C18", "sets", st.fixed_dictionaries({
    "kind": KINDS, "n_apps": st.integers(1, 6),
    "hh": st.lists(st.integers(0, 4), min_size=1, max_size=4),
    "sets": st.lists(st.lists(st.integers(0, 7), max_size=6), min_size=4,
                     max_size=4),
    "bad": st.sampled_from(["more", "less", "sum", "one"])}), 400, 6000,
     budget=100, rule="subgroups of several households with different sets")
def sets(case):
    """Households own exactly the set defined for their subgroup."""
    hh = list(case["hh"])
    if not sum(hh):
        return None
    n, k = sum(hh), case["n_apps"]
    data = set_data(["tv"] * k, [0.5] * k)
    sgs = [{"n_residents": i + 1} for i in range(len(hh))]
    names = [["A%02d" % i for i in s] for s in case["sets"][:len(hh)]]
    kw = dict(subgroups_list=copy.deepcopy(sgs), n_households_list=hh)
    sim = make(case["kind"], n, data, equipped_sampling_algo="set_defined",
               equipped_set_defined=copy.deepcopy(names), **kw)
    which = np.repeat(np.arange(len(hh)), hh)
    want = [["A%02d" % a in names[g] for a in range(k)] for g in which]
    req_equal(sim.available_appliances, want, "owned appliances")
    sim = make(case["kind"], n, data, equipped_sampling_algo="all", **kw)
    req_equal(sim.available_appliances, np.ones((n, k), dtype=bool), "all")
    req(raises(ValueError, make, case["kind"], n, data,
               equipped_sampling_algo="whatever", **kw),
        "accepted an unknown algorithm")
    if case["bad"] == "more":
        bad = names + [[]]
    elif case["bad"] == "less":
        bad = names[:-1]
    else:
        bad = None
    if bad is not None:
        req(raises((ValueError, IndexError), make, case["kind"], n, data,
                   equipped_sampling_algo="set_defined",
                   equipped_set_defined=bad, **kw),
            "accepted %d sets for %d subgroups", len(bad), len(hh))
    elif case["kind"] != "occupancy":
        if case["bad"] == "sum":
            req(raises(ValueError, make, case["kind"], n + 1, data,
                       equipped_sampling_algo="all", **kw),
                "accepted %d households in subgroups of %s", n + 1, hh)
        else:
            for key in kw:
                req(raises(AttributeError, make, case["kind"], n, data,
                           equipped_sampling_algo="all", **{key: kw[key]}),
                    "accepted %s alone", key)
    if len(hh) > 1 and len({tuple(sorted(set(x))) for x in names}) > 1:
        return [case["kind"]]
    return None


@sub("C18", "frequencies", st.fixed_dictionaries({
    "kind": KINDS,
    "types": st.lists(st.sampled_from(["tv", "fridge", "big_fridge", "hob"]),
                      min_size=1, max_size=5),
    "own": st.lists(st.sampled_from([0., 0.05, 0.3, 0.5, 0.9, 1.]),
                    min_size=5, max_size=5),
    "tables": st.lists(st.dictionaries(
        st.sampled_from(["tv", "tv_2", "fridge", "fridge_2", "hob"]),
        st.sampled_from([0., 0.1, 0.4, 0.8, 1.])), min_size=3, max_size=3),
    "hh": st.lists(st.integers(300, 900), min_size=1, max_size=3),
    "algo": st.sampled_from(["basic", "subgroup"])}), 150, 1500, budget=100,
     rule="some probability that is neither 0 nor 1")
def frequencies(case):
    """Each household owns each appliance with the given probability."""
    hh, types = case["hh"], case["types"]
    own = case["own"][:len(types)]
    data = set_data(types, own, case["tables"])
    n = sum(hh)
    sim = make(case["kind"], n, data, equipped_sampling_algo=case["algo"],
               subgroups_list=[{"n_residents": i + 1}
                               for i in range(len(hh))],
               n_households_list=hh)
    got = np.asarray(sim.available_appliances)
    req(got.shape == (n, len(types)) and got.dtype == bool, "ownership of "
        "shape %s", got.shape)
    start = 0
    some = False
    for g, m in enumerate(hh):
        p = (own if case["algo"] == "basic"
             else numbers(types, case["tables"][g], own))
        x = got[start:start + m]
        start += m
        for a, q in enumerate(p):
            c = x[:, a].sum()
            if q in (0., 1.):
                req(c == q * m, "%d of %d own an appliance of probability %s",
                    c, m, q)
                continue
            some = True
            pv = gtest_pvalue([c, m - c], [q, 1 - q])
            req(pv > P_REJECT, "%d of %d own appliance %d of probability %s "
                "(p=%.2g)", c, m, a, q, pv)
            for b in range(a):
                r = p[b]
                if r in (0., 1.):
                    continue
                joint = [(x[:, a] & x[:, b]).sum(), (x[:, a] & ~x[:, b]).sum(),
                         (~x[:, a] & x[:, b]).sum(),
                         (~x[:, a] & ~x[:, b]).sum()]
                pv = gtest_pvalue(joint, [q * r, q * (1 - r), (1 - q) * r,
                                          (1 - q) * (1 - r)])
                req(pv > P_REJECT, "appliances %d and %d are owned together "
                    "%s times (p=%.2g)", a, b, joint, pv)
    return [case["algo"]] if some else None
