"""C31: the shipped data describe every household of the populations."""
import datetime as dt
import glob
import json
import os
import re
import shutil
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import (
    P_REJECT, gtest_pvalue, known, req, req_close, req_equal, sub)
from props.c19 import DS

from demod.datasets.CREST.loader import Crest
from demod.datasets.DESTATIS.loader import Destatis
from demod.datasets.GermanTOU.loader import GTOU
from demod.datasets.Germany.loader import GermanDataHerus
from demod.simulators.sparse_simulators import (
    SparseTransitStatesSimulator, SubgroupsActivitySimulator)
from demod.utils.subgroup_handling import Subgroup

DAYS = {False: [1, 2, 3, 4, 5], True: [6, 7]}
TEN = dt.timedelta(minutes=10)


def parsed(*path):
    return os.path.join(DS, path[0], "parsed_data", *path[1:])


def file_part(group):
    """Part of the file names for a group of households."""
    out = []
    for key in sorted(group):
        v = group[key]
        out.append("%s_%s" % (key, ",".join(map(str, v)) if isinstance(
            v, list) else v))
    return "__".join(out)


def read(path):
    """Arrays of a shipped file, without the loaders."""
    x = np.load(path)
    if path.endswith(".npy"):
        return x
    out = {k: x[k] for k in x.files}
    if set(out) and all(re.fullmatch(r"arr_\d+", k) for k in out):
        return [out["arr_%d" % i] for i in range(len(out))]
    return out


def respell(group, how):
    """The same group given otherwise."""
    items = list(group.items())
    if how % 2:
        items = items[::-1]
    out = dict(items)
    if how // 2 % 2:
        out = Subgroup(out)
    if how // 4 % 2 and "n_residents" in out:
        out["n_residents"] = np.int64(out["n_residents"])
    return out


def check_pdf(pdf, what):
    pdf = np.asarray(pdf, float)
    req(np.all(pdf >= 0) and np.all(np.abs(pdf.sum(axis=-1) - 1) < 1e-9),
        "%s: not probabilities, sums from %s to %s", what,
        pdf.sum(axis=-1).min(), pdf.sum(axis=-1).max())


def check_profiles(profiles, what):
    req({"level", "active_occupancy", "cooking", "watching_tv",
         "laundry", "self_washing"} <= set(profiles), "%s: %s", what,
        sorted(profiles))
    for k, v in profiles.items():
        req(v.shape == (144, 6), "%s of %s: shape %s", what, k, v.shape)
        req(np.all((v >= 0) & (v <= 1)), "%s of %s: not probabilities", what,
            k)
        if k != "level":
            req(not v[:, 0].any(), "%s of %s without active occupants", what,
                k)


def dense(group):
    """Matrices of the sparse transitions, read without the loader."""
    base = parsed("GermanTOU", "Sparse9States", file_part(group))
    labels, acts, start = read(base + ".npz")
    t, i, j, v = (read(base + "_tpm_%s.npy" % s) for s in (
        "times", "inds_from", "inds_to", "values"))
    out = np.zeros((144, len(labels), len(labels)))
    np.add.at(out, (t, i, j), v)
    return out, labels, acts, start


def counts(labels, i):
    return labels // 7 ** i % 7


# ------------------------------------------------------------------- loading
households = Destatis().load_population_subgroups("household_types")[0]


@sub("C31", "population", st.fixed_dictionaries({
    "type": st.sampled_from([
        "household_types", "household_types", "household_types_2019",
        "resident_number", "crest", "resident_number_2013",
        "resident_number_2019"]),
    "i": st.integers(0, 7), "weekend": st.booleans(),
    "version": st.sampled_from(["v0.1", "vBottaccioli"]),
    "spell": st.integers(0, 7)}), 120, 600, budget=120, rule="any")
def population(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = GermanDataHerus(case["version"])
        groups, pdf, n = data.load_population_subgroups(case["type"])
        check_pdf(pdf, "population")
        req(len(groups) == len(pdf) and n > 30e6, "population of %s", n)
        req(all(a != b for i, a in enumerate(groups) for b in groups[:i]),
            "the same households twice: %s", groups)
        types = case["type"].startswith("household")
        req(sorted(g["n_residents"] for g in groups) == (
            [1, 2, 2, 3, 3, 4, 4, 5] if types else [1, 2, 3, 4, 5]),
            "households of %s", groups)
        group = dict(groups[case["i"] % len(groups)])
        own = data.load_appliance_ownership_dict(respell(group,
                                                         case["spell"]))
        for k, p in own.items():
            req(0 <= float(p) <= 1, "ownership of %s: %s", k, p)
        req(sum(float(p) for p in own.values()) > 5, "ownership %s", own)
        shipped = read(parsed("DESTATIS", "appliance_ownership",
                              "ownership__" + file_part(group) + ".npz"))
        req({k: float(v) for k, v in own.items()} == {
            k: float(v) for k, v in shipped.items()},
            "ownership of %s is not the shipped one", group)
        group["weekday"] = DAYS[case["weekend"]]
        group = respell(group, case["spell"])
        if types:
            # activities of each household and kind of day
            got = data.load_activity_probability_profiles(group)
            check_profiles(got, "profiles")
            name = "Sparse9States" if case["version"] == "v0.1" else (
                "Bottaccioli2018")
            want = read(parsed("GermanTOU", name, "activity_profiles_"
                               + file_part(group) + ".npz"))
            req(set(got) == set(want), "profiles %s", sorted(got))
            for k, v in want.items():
                req_equal(got[k], v, "profile of %s" % k)
        else:
            sparse_or_four(GTOU("4_States"), group, parsed(
                "GermanTOU", "4_States", file_part(group) + ".npz"))
    return ["types" if types else "residents"]


def sparse_or_four(data, group, path):
    tpm, labels, start = data.load_tpm(group)
    if isinstance(path, str):
        want = read(path)
        want = want["tpm"], want["labels"], want["initial_pdf"]
    else:
        want = [read(p) for p in path]
    n = int(group["n_residents"])
    check_pdf(tpm, "matrices")
    check_pdf(start, "start")
    req(tpm.shape == (144, len(labels), len(labels)), "matrices of shape %s",
        tpm.shape)
    req(sorted(int(x) for x in labels) == sorted(
        10 * i + j for i in range(n + 1) for j in range(n + 1)),
        "states of %s residents: %s", n, labels)
    for got, w, what in zip((tpm, labels, start), want,
                            ("matrices", "states", "start")):
        req_equal(got, w, what + " of %s" % file_part(group))


@sub("C31", "residents", st.fixed_dictionaries({
    "version": st.sampled_from(["2.2", "2.3.3"]), "n": st.integers(1, 6),
    "weekend": st.booleans(), "spell": st.integers(0, 7)}), 24, 96,
    budget=120, rule="any")
def residents(case):
    group = respell({"n_residents": case["n"], "weekday": DAYS[
        case["weekend"]]}, case["spell"])
    folder = parsed("CREST", "v_" + case["version"], "4_States")
    part = file_part(group) + ".npy"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = Crest(case["version"])
        sparse_or_four(data, group, [os.path.join(folder, k + part) for k in (
            "tpm__", "labels__", "start_pdf__")])
        if case["version"] == "2.2":
            got = data.load_activity_probability_profiles(group)
            check_profiles(got, "profiles")
            want = read(os.path.join(folder, "activity_profiles_"
                                     + file_part(group) + ".npz"))
            req(set(got) == set(want), "profiles %s", sorted(got))
            for k, v in want.items():
                req_equal(got[k], v, "profile of %s" % k)
    return [case["version"]]


DURATIONS = sorted(
    glob.glob(parsed("GermanTOU", "*", "*with_duration.npz")))


def group_of(name):
    """Group written in a file name."""
    out = {}
    for part in name.split("__"):
        if part:
            key, value = part.rsplit("_", 1)
            out[key] = ([int(x) for x in value.split(",")] if "," in value
                        else int(value))
    return out


@sub("C31", "durations", st.fixed_dictionaries({
    "i": st.integers(0, max(len(DURATIONS) - 1, 0)),
    "spell": st.integers(0, 7)}), 20, 80, budget=100, rule="any")
def durations(case):
    path = DURATIONS[case["i"]]
    act = os.path.basename(os.path.dirname(path))
    name = os.path.basename(path)[:-len("_with_duration.npz")]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = GTOU(act).load_tpm_with_duration(respell(group_of(name),
                                                       case["spell"]))
    want = read(path)
    for x, k in zip(got, ("tpm", "duration_pdfs", "labels", "initial_pdf",
                          "initial_duration_pdfs")):
        req_equal(x, want[k], "%s of %s" % (k, name))
        if k != "labels":
            check_pdf(x, k)
    tpm, durs, labels, start, first = got
    n = len(labels)
    req(len(set(labels.tolist())) == n, "states %s", labels)
    req(tpm.shape == (144, n, n) and durs.shape[:2] == (144, n)
        and start.shape == (n,) and first.shape[0] == n, "shapes")
    return [act]


@sub("C31", "sparse", st.fixed_dictionaries({
    "i": st.integers(0, 7), "weekend": st.sampled_from([None, False, True]),
    "spell": st.integers(0, 7)}), 40, 200, budget=100, rule="any")
def sparse(case):
    group = dict(households[case["i"]])
    n = group["n_residents"]
    if case["weekend"] is not None:
        group["quarter"] = None
        group["weekday"] = DAYS[case["weekend"]]
    group = respell(group, case["spell"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tpm, labels, acts, start = GTOU("Sparse9States").load_sparse_tpm(
            group)
    want = dense(group)
    req_equal(labels, want[1], "states")
    req_equal(acts, want[2], "activities")
    req_equal(start, want[3], "start")
    check_pdf(start, "start")
    req(tuple(tpm.shape) == want[0].shape, "shape %s", tpm.shape)
    got = np.zeros(tpm.shape)
    np.add.at(got, (tpm.times, tpm.inds_from, tpm.inds_to), tpm.values)
    req_equal(got, want[0], "transitions")
    total = got.sum(axis=-1)
    req(np.all(got >= 0) and np.all((total == 0) | (
        np.abs(total - 1) < 1e-9)), "transitions are not probabilities")
    # nobody starts or arrives where no transition is known
    p = start
    for t in range(144):
        req(np.all(total[t][p > 0] > 0), "step %d: no transition from states "
            "%s", t, labels[(p > 0) & (total[t] == 0)])
        p = p @ got[t]
    for i in range(len(acts)):
        req(np.all(counts(labels, i) <= n), "more than %d residents: %s", n,
            labels)
    return ["year" if case["weekend"] is None else "week"]


# ------------------------------------------------------------------ raw data
def same(a, b, where):
    if isinstance(a, dict):
        req(isinstance(b, dict) and set(a) == set(b), "%s: %s, shipped %s",
            where, sorted(a), sorted(b))
        for k in a:
            same(a[k], b[k], "%s, %s" % (where, k))
        return
    a, b = np.asarray(a), np.asarray(b)
    req(a.shape == b.shape, "%s: shape %s, shipped %s", where, a.shape,
        b.shape)
    if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
        req_close(a, b, where)
    else:
        req(a.astype(str).tolist() == b.astype(str).tolist(),
            "%s: %s, shipped %s", where, a, b)


GERMAN = {"appliances": lambda d: d.load_appliance_dict(),
          "bulbs": lambda d: list(d.load_bulbs()),
          "lighting": lambda d: d.load_crest_lighting(),
          "buildings": lambda d: d.load_buildings_dict({}),
          "heating": lambda d: d.load_heating_system_dict({}),
          "targets": lambda d: d.load_yearly_target_switchons({}),
          "number of bulbs": lambda d: list(d.load_installed_bulbs_stats({})),
          "thermostats": lambda d: d.load_thermostat_dict({})}


# heating systems of v0.1, in the raw sheet and as shipped
KNOWN_HEATING = {
    "equipped_prob": ([.5, 0., 0., 0., 0., .5], [0., 0., 0., 0., 0., 1.]),
    "is_combi": ([0, 1, 0, 0, 0, 0], [0, 1, 0, 0, 1, 1])}


def heating_differences(got, shipped):
    return {k: tuple(list(map(float, x[k])) for x in (got, shipped))
            for k in KNOWN_HEATING if list(got[k]) != list(shipped[k])}


class Aside:
    """Parsed data of a folder are away for some time."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.copy = self.path + ".aside"
        if os.path.isdir(self.path):
            shutil.move(self.path, self.copy)
        os.makedirs(self.path)

    def __exit__(self, *args):
        shutil.rmtree(self.path)
        if os.path.isdir(self.copy):
            shutil.move(self.copy, self.path)


@sub("C31", "raw", st.fixed_dictionaries({
    "what": st.sampled_from(sorted(GERMAN) + ["ownership"] * 5),
    "version": st.sampled_from(["v0.1", "vBottaccioli"]),
    "i": st.integers(0, 7)}), 30, 120, budget=150, rule="any")
def raw(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["what"] == "ownership":
            group = dict(households[case["i"]])
            shipped = Destatis().load_appliance_ownership_dict(group)
            with Aside(parsed("DESTATIS")):
                got = Destatis().load_appliance_ownership_dict(group)
            got, shipped = ({k: v for k, v in x.items() if not k.startswith(
                "laptop_computer")} for x in (dict(got), dict(shipped)))
        else:
            f = GERMAN[case["what"]]
            shipped = f(GermanDataHerus(case["version"]))
            with Aside(parsed("Germany", case["version"])):
                got = f(GermanDataHerus(case["version"]))
        if case["what"] == "appliances":
            # columns added to the sheet since
            got = {k: v for k, v in got.items() if not (
                k.startswith("target_") and k not in shipped)}
        if case["what"] == "heating" and case["version"] == "v0.1":
            if heating_differences(got, shipped) == KNOWN_HEATING:
                for x in (got, shipped):
                    for k in KNOWN_HEATING:
                        x.pop(k)
        same(got, shipped, case["what"])
    return [case["what"]]


@known("C31", "heating-systems-v0.1", "")
def heating_systems():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = GERMAN["heating"]
        shipped = f(GermanDataHerus("v0.1"))
        with Aside(parsed("Germany", "v0.1")):
            got = f(GermanDataHerus("v0.1"))
    return heating_differences(got, shipped) == KNOWN_HEATING


# --------------------------------------------------------------- simulations
@sub("C31", "days", st.fixed_dictionaries({
    "i": st.integers(0, 7), "day": st.integers(0, 365),
    "step": st.integers(0, 143), "seed": st.integers(0, 10 ** 6)}),
    10, 80, budget=150, rule="any")
def days(case):
    group = dict(households[case["i"]])
    day = dt.datetime(2014, 1, 1, 4) + dt.timedelta(days=case["day"])
    tables = dict(group, quarter=None, weekday=DAYS[day.isoweekday() > 5])
    tpm, labels, acts, p = dense(tables)
    # the households start with the states of the year
    first = dense(group)
    p = np.zeros(len(labels))
    for lab, x in zip(first[1], first[3]):
        at = np.flatnonzero(labels == lab)
        p[at[0] if len(at) else 0] += x
    for k in range(case["step"]):
        left = p[tpm[k].sum(axis=1) == 0].sum()
        p = p @ tpm[k]
        p[0] += left
    n = 4000
    np.random.seed(case["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = SubgroupsActivitySimulator(
            [group], [n], subsimulator=SparseTransitStatesSimulator,
            data=GTOU("Sparse9States"),
            start_datetime=day + case["step"] * TEN)
        got = sum(np.asarray(sim.get_n_doing_state(i)) * 7 ** i
                  for i in range(len(acts)))
        req(set(got.tolist()) <= set(labels[p > 0].tolist()),
            "impossible states %s", set(got.tolist()) - set(
                labels[p > 0].tolist()))
        res = group["n_residents"]
        occ = sim.get_occupancy()
        act = sim.get_active_occupancy()
    req(np.all((0 <= act) & (act <= occ) & (occ <= res)), "occupancy")
    seen = [int((got == lab).sum()) for lab in labels]
    pv = gtest_pvalue(seen, p)
    req(pv > P_REJECT, "states of %s households %s after %d steps: %s, "
        "expected %s (p=%.2g)", group, day, case["step"], seen,
        (p * n).round(1).tolist(), pv)
    return ["weekend" if day.isoweekday() > 5 else "weekday"]
