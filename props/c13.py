"""C13: populations sampled from the distribution of their subgroups."""
import datetime as dt

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_equal, sub)

from demod.simulators.crest_simulators import Crest4StatesModel
from demod.simulators.util import sample_population

PHI = 0.6180339887498949


@st.composite
def pdfs(draw):
    kind = draw(st.sampled_from(["weights", "weights", "rounded", "one",
                                 "floats", "zeros"]))
    k = draw(st.integers(1, 25))
    if kind == "one":
        i = draw(st.integers(0, k - 1))
        w = [0.] * k
        w[i] = 1.
    elif kind == "floats":
        w = draw(st.lists(st.floats(1e-6, 1), min_size=k, max_size=k))
    elif kind == "zeros":
        w = draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=k,
                          max_size=k))
    else:
        w = draw(st.lists(st.integers(0, 12), min_size=k, max_size=k))
    w = np.array(w, float)
    if w.sum() == 0:
        w[draw(st.integers(0, k - 1))] = 1
    p = w / w.sum()
    if kind == "rounded":          # sums to one within the accepted 1e-6
        p = p * (1 + draw(st.sampled_from([-8e-7, -1e-9, 1e-9, 8e-7])))
    return p.tolist()


@sub("C13", "real_population", st.fixed_dictionaries({
    "p": pdfs(), "n": st.one_of(st.integers(1, 12), st.integers(1, 3000)),
    "default": st.booleans(), "list": st.booleans()}), 3000, 60000,
     rule="several subgroups with positive probability")
def real_population(case):
    p, n = np.array(case["p"]), case["n"]
    keep = p.copy()
    kw = {} if case["default"] else {
        "population_sampling_algo": "real_population"}
    got = np.asarray(sample_population(
        n, p.tolist() if case["list"] else p, **kw))
    req_equal(p, keep, "the given distribution")
    req(got.dtype.kind in "iu", "counts are %s" % got.dtype)
    req_equal(got.shape, p.shape, "one count per subgroup")
    req_equal(int(got.sum()), n, "sum of the counts")
    req(bool(np.all(got >= 0)), "negative counts %s", got)
    req(bool(np.all(got[p == 0] == 0)), "households in empty subgroups: %s "
        "for %s", got, p)
    req(bool(np.all(np.abs(got - n * p) <= 2 + 1e-5 * n)),
        "counts %s, expected about %s", got, n * p)
    cum = np.cumsum(got) - n * np.cumsum(p)
    req(bool(np.all(np.abs(cum) <= 2 + 1e-5 * n)),
        "cumulated counts are off by %s", cum)
    again = np.asarray(sample_population(n, p, **kw))
    req_equal(again, got, "second call")
    return ["several"] if np.sum(p > 0) > 1 else None


@sub("C13", "monte_carlo", st.fixed_dictionaries({
    "p": pdfs(), "n": st.sampled_from([1, 3, 50, 4000])}), 400, 8000,
     rule="4000 households in several subgroups")
def monte_carlo(case):
    p, n = np.array(case["p"]), case["n"]
    keep = p.copy()
    got = np.asarray(sample_population(
        n, p, population_sampling_algo="monte_carlo"))
    req_equal(p, keep, "the given distribution")
    req_equal(got.shape, p.shape, "one count per subgroup")
    req_equal(int(got.sum()), n, "sum of the counts")
    req(bool(np.all(got[p == 0] == 0)), "households in empty subgroups: %s",
        got)
    if n == 4000 and np.sum(p > 0) > 1:
        pv = gtest_pvalue(got, p / p.sum())
        req(pv > P_REJECT, "counts %s, expected %s (p=%g)", got, n * p, pv)
        return ["several"]


@sub("C13", "monte_carlo_spread", st.fixed_dictionaries({
    "p": st.sampled_from([[.5, .5], [.2, .3, .5], [.9, .1]]),
    "n": st.integers(1, 4), "s": st.integers(0, 1000)}), 20, 200,
     rule="every case")
def spread(case):
    """Repeated small populations vary as independent draws do."""
    p, n = np.array(case["p"]), case["n"]
    first = [int(sample_population(
        n, p, population_sampling_algo="monte_carlo")[0])
        for _ in range(1500)]
    from math import comb
    q = p[0]
    want = [comb(n, i) * q ** i * (1 - q) ** (n - i) for i in range(n + 1)]
    pv = gtest_pvalue(np.bincount(first, minlength=n + 1), want)
    req(pv > P_REJECT, "counts of the first subgroup %s, expected %s (p=%g)",
        np.bincount(first, minlength=n + 1) / 1500, want, pv)
    return ["spread"]


@sub("C13", "refused", st.fixed_dictionaries({
    "p": pdfs(), "n": st.integers(1, 20),
    "f": st.sampled_from([0.5, 0.99, 1.01, 2.0]),
    "algo": st.sampled_from(["real_population", "monte_carlo", "bad"])}),
     200, 2000, rule="every case")
def refused(case):
    p = np.array(case["p"])
    if case["algo"] == "bad":
        req(raises(NotImplementedError, sample_population, case["n"], p,
                   population_sampling_algo="x"), "unknown algorithm accepted")
        return ["algorithm"]
    req(raises(ValueError, sample_population, case["n"], p * case["f"],
               population_sampling_algo=case["algo"]),
        "accepted a pdf of sum %g", p.sum() * case["f"])
    bad = p.copy()
    bad[0] = -0.4
    bad = np.append(bad, 1 - bad.sum())
    req(raises(ValueError, sample_population, case["n"], bad,
               population_sampling_algo=case["algo"]),
        "accepted the pdf %s", bad)
    return ["sum"]


@sub("C13", "simulated_population", st.fixed_dictionaries({
    "n": st.one_of(st.integers(1, 20), st.integers(20, 400)),
    "algo": st.sampled_from(["default", "real_population", "monte_carlo"])}),
     60, 600, budget=200, rule="every case")
def simulated(case):
    from demod.datasets.CREST.loader import Crest
    n = case["n"]
    kw = ({} if case["algo"] == "default"
          else {"population_sampling_algo": case["algo"]})
    subgroups, pdf, _ = Crest().load_population_subgroups("resident_number")
    sim = Crest4StatesModel(
        n, start_datetime=dt.datetime(2014, 1, 1), **kw)
    req_equal(sim.n_households, n, "households")
    req_equal(len(sim.n_residents), n, "residents")
    if case["algo"] != "monte_carlo":
        want = sample_population(n, pdf)
        res = [s["n_residents"] for s in subgroups]
        req_equal([int(np.sum(sim.n_residents == r)) for r in res], want,
                  "households per number of residents")
    return [case["algo"]]
