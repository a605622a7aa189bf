"""C07: rescaling and validation of distributions."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import raises, req, req_close, req_equal, sub

from demod.utils.distribution_functions import (
    check_valid_cdf, rescale_cdf, rescale_pdf)

PHI = 0.6180339887498949


@st.composite
def shapes(draw):
    return draw(st.sampled_from(
        [(1,), (3,), (8,), (1, 1), (4, 3), (2, 7), (3, 2, 4), (2, 3, 1)]))


def base_pdf(rng, shape):
    w = rng.choice([0., 0., 1., 2., 7.5], size=shape)
    w = w.reshape(-1, shape[-1])
    w[w.sum(axis=1) == 0, 0] = 1
    return (w / w.sum(axis=1)[:, None]).reshape(shape)


@sub("C07", "rescaling", st.fixed_dictionaries({
    "shape": shapes(), "seed": st.integers(0, 10**6),
    "eps": st.sampled_from([None, 0.01, 0.1, 0.4]),
    "off": st.lists(st.floats(-1.2, 1.2), min_size=1, max_size=8),
    "cdf": st.booleans()}), 2500, 50000,
     rule="some sum differs from one and the answer is not borderline")
def rescaling(case):
    shape = tuple(case["shape"])
    rng = np.random.RandomState(case["seed"])
    pdf = base_pdf(rng, shape)
    n_rows = int(np.prod(shape[:-1]))
    eps = 0.1 if case["eps"] is None else case["eps"]
    offs = np.array([case["off"][i % len(case["off"])]
                     for i in range(n_rows)])
    if np.any(np.abs(np.abs(offs) - 1) < 1e-6):
        return None
    factor = 1 + offs * eps
    scaled = (pdf.reshape(-1, shape[-1]) * factor[:, None]).reshape(shape)
    fn = rescale_pdf
    if case["cdf"]:
        fn = rescale_cdf
        scaled, pdf = np.cumsum(scaled, axis=-1), np.cumsum(pdf, axis=-1)
    kw = {} if case["eps"] is None else {"epsilon": case["eps"]}
    keep = scaled.copy()
    if np.all(np.abs(offs) < 1):
        out = fn(scaled, **kw)
        req_equal(np.shape(out), shape, "shape")
        req_close(out, pdf, "rescaled", rtol=1e-9, atol=1e-12)
        req_close(fn(out, **kw), out, "rescaled again", rtol=1e-12)
        tags = ["accepted"]
    else:
        req(raises(ValueError, fn, scaled, **kw),
            "accepted sums %s with epsilon %s" % (factor, eps))
        tags = ["refused"]
    req_equal(scaled, keep, "the given array")
    return tags if np.any(offs != 0) else None


@sub("C07", "ends_of_cumulative", st.fixed_dictionaries({
    "shape": shapes(), "seed": st.integers(0, 10**6),
    "eps": st.sampled_from([None, 0.01, 0.3]),
    "end": st.sampled_from(["one", "far", "within"]),
    "row": st.integers(0, 100)}), 800, 10000,
     rule="some value of the row differs from its end")
def ends_of_cumulative(case):
    """Only the end of a row counts, whatever values the row goes through."""
    shape = tuple(case["shape"])
    if shape[-1] < 2:
        return None
    rng = np.random.RandomState(case["seed"])
    x = rng.choice([0.2, 0.5, 0.9, 1.0, 1.0, 1.05, 1.7], size=shape)
    eps = 0.1 if case["eps"] is None else case["eps"]
    rows = x.reshape(-1, shape[-1])
    rows[:, -1] = 1 + eps * rng.uniform(-0.9, 0.9, size=len(rows))
    r = case["row"] % len(rows)
    if case["end"] == "one":
        rows[:, -1] = 1
    elif case["end"] == "far":
        rows[r, -1] = rng.choice([1 - 1.2 * eps, 1 + 1.2 * eps, 0.3, 2.])
        rows[r, 0] = 1.
    keep = x.copy()
    kw = {} if case["eps"] is None else {"epsilon": case["eps"]}
    if case["end"] == "far":
        req(raises(ValueError, rescale_cdf, x, **kw),
            "accepted the ends %s with epsilon %s" % (rows[:, -1], eps))
    else:
        out = rescale_cdf(x, **kw)
        req_equal(np.shape(out), shape, "shape")
        want = np.array([[v / row[-1] for v in row] for row in rows])
        req_close(out, want.reshape(shape), "rescaled", rtol=1e-9)
    req_equal(x, keep, "the given array")
    return [case["end"]]


DEFECTS = ["none", "decreasing", "end_low", "end_high", "negative",
           "above_one", "pdf", "tiny_low", "tiny_high", "compensated"]


@sub("C07", "cdf_validity", st.fixed_dictionaries({
    "shape": shapes(), "seed": st.integers(0, 10**6),
    "defect": st.sampled_from(DEFECTS), "row": st.integers(0, 100),
    "col": st.integers(0, 100), "size": st.floats(0.05, 0.9),
    "eps": st.sampled_from([None, 1e-6, 1e-3])}), 3000, 60000,
     rule="one element of one distribution is defective, or all are valid "
          "with several values")
def validity(case):
    shape = tuple(case["shape"])
    rng = np.random.RandomState(case["seed"])
    w = base_pdf(rng, shape).reshape(-1, shape[-1])
    cdf = np.cumsum(w, axis=1)
    cdf = cdf / cdf[:, -1:]
    eps = case["eps"] or 1e-6
    n = shape[-1]
    r, c = case["row"] % len(cdf), case["col"] % n
    d = case["defect"]
    size = case["size"]
    valid = False
    if d == "none":
        valid = True
    elif d == "tiny_low":
        if np.any(cdf[r, :-1] > 1 - eps / 2):
            return None
        cdf[r, -1] = 1 - eps * size / 2
        valid = True
    elif d == "tiny_high":
        cdf[r, -1] = 1 + eps * size / 2
        valid = True
    elif d == "end_low":
        cdf[r] *= 1 - max(size, 10 * eps)
    elif d == "end_high":
        cdf[r] *= 1 + max(size, 10 * eps)
    elif d == "compensated":
        # the errors of the other distributions make up for this one
        if len(cdf) < 2 or n < 2:
            return None
        cdf[:, :-1] *= 0.9
        cdf[:, -1] = 1 + eps * size / 2
        cdf[r, -1] = 1 - eps * (1.05 + size / 2)
    elif d == "decreasing":
        if n < 3:
            return None
        c = 1 + c % (n - 2)
        cdf[r] = np.linspace(0.1, 1, n)
        cdf[r, c] = cdf[r, c - 1] - 0.05 * size
    elif d == "negative":
        if n < 2:
            return None
        cdf[r, 0] = -size
    elif d == "above_one":
        if n < 2:
            return None
        cdf[r, n - 2] = 1 + size
    elif d == "pdf":
        if n < 2:
            return None
        cdf[r] = 0
        cdf[r, 0] = 1
    cdf = cdf.reshape(shape)
    keep = cdf.copy()
    kw = {} if case["eps"] is None else {"epsilon": case["eps"]}
    try:
        res = check_valid_cdf(cdf, **kw)
    except ValueError:
        req(not valid, "refused the valid %s" % keep.tolist())
    else:
        req(valid, "accepted the invalid (%s) %s" % (d, keep.tolist()))
        req(res is True or res == True, "did not return True")  # noqa: E712
    req_equal(cdf, keep, "the given array")
    if not valid or (np.unique(cdf).size > 2):
        return [d]
