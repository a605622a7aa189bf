"""C06: Monte Carlo sampling."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import P_REJECT, gtest_pvalue, req, req_equal, sub

from demod.utils.monte_carlo import (
    monte_carlo_from_1d_cdf, monte_carlo_from_1d_pdf, monte_carlo_from_cdf,
    monte_carlo_from_pdf)


def weights(min_size=1, max_size=9):
    w = st.lists(st.sampled_from([0, 0, 0, 1, 1, 2, 5, 17, 100]),
                 min_size=min_size, max_size=max_size)
    return w.map(lambda x: x if sum(x) else x[:-1] + [1])


def to_pdf(w):
    w = np.array(w, dtype=float)
    return w / w.sum()


def joint_p(a, b, pa, pb):
    """p-value of independence of two index sequences with known marginals."""
    counts = np.zeros((len(pa), len(pb)))
    np.add.at(counts, (a, b), 1)
    return gtest_pvalue(counts.ravel(), np.outer(pa, pb).ravel())


def check_indices(out, n, size, what):
    out = np.asarray(out)
    req(out.shape == (n,), "%s: shape %s for %d samples", what, out.shape, n)
    req(out.dtype.kind in "iu", "%s: not integer indices: %s", what,
        out.dtype)
    req(bool(np.all((out >= 0) & (out < size))), "%s: out of range", what)
    return out


@sub("C06", "one_distribution", st.fixed_dictionaries({
    "w": weights(), "cdf": st.booleans(),
    "n": st.sampled_from([1, 2, 7, 500, 4000])}), 700, 15000,
     rule="at least two possible indices and 500 samples, or a zero "
          "probability")
def one(case):
    pdf = to_pdf(case["w"])
    before = pdf.copy()
    arg = np.cumsum(pdf) if case["cdf"] else pdf
    keep = arg.copy()
    fn = monte_carlo_from_1d_cdf if case["cdf"] else monte_carlo_from_1d_pdf
    n = case["n"]
    out = check_indices(fn(arg, n_samples=n), n, len(pdf), fn.__name__)
    req_equal(arg, keep, "the given distribution")
    req(bool(np.all(before[out] > 0)),
        "an index of probability 0 was drawn: %s from %s" % (
            sorted(set(out.tolist())), before.tolist()))
    req_equal(check_indices(fn(arg), 1, len(pdf), "default").shape, (1,))
    tags = []
    if n >= 500 and (pdf > 0).sum() > 1:
        p = gtest_pvalue(np.bincount(out, minlength=len(pdf)), pdf)
        req(p > P_REJECT, "frequencies %s of %s (p=%g)" % (
            np.bincount(out, minlength=len(pdf)) / n, pdf, p))
        p = joint_p(out[:-1:2], out[1::2], pdf, pdf)
        req(p > P_REJECT, "consecutive samples are not independent %g" % p)
        tags.append("frequencies")
    if (pdf == 0).any():
        tags.append("zeros")
    return tags


@sub("C06", "one_distribution_per_element", st.fixed_dictionaries({
    "size": st.integers(1, 6), "rows": st.integers(1, 12),
    "seed": st.integers(0, 10**6), "cdf": st.booleans(),
    "sparse": st.booleans(),
    "reps": st.sampled_from([1, 3, 600])}), 250, 6000,
     rule="at least two different rows with a random outcome, 600 draws")
def many(case):
    rng = np.random.RandomState(case["seed"])
    choices = [0, 0, 0, 1] if case["sparse"] else [0, 1, 1, 3, 20]
    w = rng.choice(choices, size=(case["rows"], case["size"])).astype(float)
    w[w.sum(axis=1) == 0, rng.randint(case["size"])] = 1
    pdf = w / w.sum(axis=1)[:, None]
    arg = np.cumsum(pdf, axis=1) if case["cdf"] else pdf.copy()
    keep = arg.copy()
    fn = monte_carlo_from_cdf if case["cdf"] else monte_carlo_from_pdf
    outs = []
    for _ in range(case["reps"]):
        out = check_indices(fn(arg), case["rows"], case["size"], fn.__name__)
        req(bool(np.all(pdf[np.arange(case["rows"]), out] > 0)),
            "an element got an index of probability 0: %s from %s" % (
                out.tolist(), pdf.tolist()))
        outs.append(out)
    req_equal(arg, keep, "the given distributions")
    outs = np.array(outs)
    random_rows = np.where((pdf > 0).sum(axis=1) > 1)[0]
    if case["reps"] < 100 or not len(random_rows):
        return None
    for r in random_rows:
        p = gtest_pvalue(np.bincount(outs[:, r], minlength=case["size"]),
                         pdf[r])
        req(p > P_REJECT, "frequencies of element %d: p=%g" % (r, p))
    for a, b in zip(random_rows[:-1], random_rows[1:]):
        p = joint_p(outs[:, a], outs[:, b], pdf[a], pdf[b])
        req(p > P_REJECT,
            "elements %d and %d are not independent: p=%g" % (a, b, p))
    if len(random_rows) > 1:
        return ["frequencies", "independence"]


@sub("C06", "many_elements_share_a_distribution", st.fixed_dictionaries({
    "w": weights(2, 6), "n": st.sampled_from([1, 50, 3000]),
    "broadcast": st.booleans()}), 150, 3000,
     rule="3000 elements and two possible indices")
def shared(case):
    pdf = to_pdf(case["w"])
    cdf = np.broadcast_to(np.cumsum(pdf), (case["n"], len(pdf)))
    if not case["broadcast"]:
        cdf = cdf.copy()
    out = check_indices(monte_carlo_from_cdf(cdf), case["n"], len(pdf), "cdf")
    req(bool(np.all(pdf[out] > 0)), "an impossible index was drawn")
    if case["n"] >= 1000 and (pdf > 0).sum() > 1:
        p = gtest_pvalue(np.bincount(out, minlength=len(pdf)), pdf)
        req(p > P_REJECT, "frequencies: p=%g" % p)
        p = joint_p(out[:-1:2], out[1::2], pdf, pdf)
        req(p > P_REJECT, "neighbour elements are not independent: %g" % p)
        return ["frequencies"]


@sub("C06", "large", st.fixed_dictionaries({
    "size": st.sampled_from([100, 130, 260, 1000, 3000]),
    "n": st.sampled_from([300, 9000, 40000, 140000]),
    "fn": st.sampled_from(["1d_cdf", "1d_pdf", "cdf", "pdf"]),
    "zeros": st.sampled_from([0., 0.5, 0.99]),
    "seed": st.integers(0, 10**6)}), 40, 400, budget=60,
     rule="frequencies of many indices, or many samples")
def large(case):
    """Many possible indices and many samples."""
    rng = np.random.RandomState(case["seed"])
    size, n = case["size"], case["n"]
    if case["fn"] in ("cdf", "pdf"):
        n = min(n, 12 * 10 ** 6 // size)
    w = rng.dirichlet(np.ones(size)) * (rng.rand(size) >= case["zeros"])
    w[rng.randint(size)] += 1. / size
    pdf = w / w.sum()
    arg = np.cumsum(pdf) if "cdf" in case["fn"] else pdf
    fn = {"1d_cdf": monte_carlo_from_1d_cdf, "1d_pdf":
          monte_carlo_from_1d_pdf, "cdf": monte_carlo_from_cdf,
          "pdf": monte_carlo_from_pdf}[case["fn"]]
    if case["fn"].startswith("1d"):
        out = fn(arg, n_samples=n)
    else:
        out = fn(np.broadcast_to(arg, (n, size)))
    out = check_indices(out, n, size, fn.__name__)
    req(bool(np.all(pdf[out] > 0)), "an impossible index was drawn")
    # groups of indices
    group = np.arange(size) * 20 // size
    p = gtest_pvalue(np.bincount(group[out], minlength=20),
                     np.bincount(group, pdf, minlength=20))
    req(p > P_REJECT, "frequencies of %d indices: p=%g", size, p)
    # equal samples at some distance
    same = float((pdf ** 2).sum())
    if same < 0.2:
        for lag in [1, 2, 64, 128, 144, 256, 1000, 1024, 2048, 4096, 8192,
                    10000, 16384, 32768, 65536, 100000]:
            if lag <= n // 2:
                k = int((out[lag:] == out[:-lag]).sum())
                # matches are nearly independent: allow for their clusters
                mean = same * (n - lag)
                req(abs(k - mean) < 60 + 0.25 * mean + 12 * mean ** 0.5,
                    "%d of %d samples equal those %d before, expected "
                    "about %.0f", k, n - lag, lag, mean)
    return ["large"]
