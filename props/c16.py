"""C16: metrics of load profiles."""
import datetime as dt
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import raises, req, req_close, req_equal, sub

from demod.metrics import loads as ml
from demod.metrics.errors import RMSE
from demod.utils.converters import joules_to_kwh, kwh_to_joules


@st.composite
def profiles(draw, min_rows=1, max_rows=6, min_times=1, max_times=12,
             negative=False):
    n = draw(st.integers(min_rows, max_rows))
    t = draw(st.integers(min_times, max_times))
    kind = draw(st.sampled_from(["int", "int", "steps", "float", "zero"]))
    if kind == "int":
        e = st.integers(-3 if negative else 0, 9)
    elif kind == "steps":
        e = st.sampled_from([0., 0., 0., 100., 2000., 2000.5])
    elif kind == "float":
        e = st.floats(0, 1e4).map(lambda x: round(x, 3))
    else:
        e = st.just(0)
    return draw(st.lists(st.lists(e, min_size=t, max_size=t), min_size=n,
                         max_size=n))


@sub("C16", "energy", st.fixed_dictionaries({
    "p": profiles(negative=True), "one": st.booleans(),
    "repeat": st.sampled_from([1] * 9 + [60, 1000]),
    "step": st.sampled_from([None, 1, 0.5, 60, 90, 600, 3600, 86400, 100000])}),
     1200, 20000, rule="several profiles with energy")
def energy(case):
    rows = [x * case.get("repeat", 1) for x in case["p"]]
    p = rows[0] if case["one"] else rows
    a = np.array(p)
    keep = a.copy()
    kw, s = {}, 60
    if case["step"] is not None:
        s = case["step"]
        kw = {"step_size": dt.timedelta(seconds=s)}
    got = ml.total_energy_consumed(a, **kw)
    want = (math.fsum(p) * s if case["one"]
            else [math.fsum(r) * s for r in p])
    req_close(got, want, "energy", rtol=1e-10, atol=1e-7)
    req_equal(a, keep, "the given profiles")
    req_close(joules_to_kwh(got), np.array(want) / 3600000, "kwh", rtol=1e-9,
              atol=1e-12)
    req_close(kwh_to_joules(joules_to_kwh(got)), want, "round trip of kwh",
              rtol=1e-9, atol=1e-6)
    req_close(kwh_to_joules(a), a * 3600000., "joules")
    return ["several"] if np.size(want) > 1 and np.any(want) else None


METRICS = {
    "euclidean": lambda x, y: math.sqrt(sum((a - b)**2 for a, b in zip(x, y))),
    "cityblock": lambda x, y: sum(abs(a - b) for a, b in zip(x, y)),
    "chebyshev": lambda x, y: max(abs(a - b) for a, b in zip(x, y)),
    "sqeuclidean": lambda x, y: sum((a - b)**2 for a, b in zip(x, y)),
}


@st.composite
def compared(draw):
    a = draw(profiles(max_rows=5))
    t = len(a[0])
    return {"a": a, "b": draw(profiles(max_rows=4, min_times=t, max_times=t)),
            "metric": draw(st.sampled_from(
                [None, "euclidean", "cityblock", "chebyshev", "sqeuclidean",
                 "callable"]))}


@sub("C16", "similarity", compared(), 1200, 15000,
     rule="several distances that differ")
def similarity(case):
    a, b = np.array(case["a"], float), np.array(case["b"], float)
    k1, k2 = a.copy(), b.copy()
    m = case["metric"]
    if m == "callable":
        def f(x, y):
            return float(np.sum(np.abs(x - y)) + 1)
        arg = (f,)
    else:
        f = METRICS[m or "euclidean"]
        arg = () if m is None else (m,)
    got = ml.profiles_similarity(a, b, *arg)
    req_equal(np.shape(got), (len(a), len(b)), "shape")
    req_close(got, [[f(x, y) for y in b] for x in a], "similarities",
              rtol=1e-9, atol=1e-6)
    if arg:
        req_close(ml.profiles_similarity(a, b, metric=arg[0]), got, "keyword")
    n = len(a)
    if n > 1:
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        want = [f(a[i], a[j]) for i, j in pairs]
        kw = {"metric": arg[0]} if arg else {}
        all_ = ml.profiles_variety(a, average=False, **kw)
        if np.ndim(all_) == 2:       # the documented square form
            all_ = [all_[i][j] for i, j in pairs]
        req_close(sorted(all_), sorted(want), "varieties", rtol=1e-9,
                  atol=1e-6)
        req_close(ml.profiles_variety(a, **kw), sum(want) / len(want),
                  "average variety", rtol=1e-9, atol=1e-6)
    req_equal(a, k1, "the given profiles")
    req_equal(b, k2, "the given profiles")
    return ["several"] if len(set(np.ravel(got).tolist())) > 1 else None


@sub("C16", "diversity", st.fixed_dictionaries({
    "p": profiles(), "seed": st.integers(0, 100),
    "scale": st.sampled_from([0.5, 2.0, 1000.0])}), 1500, 20000,
     rule="peaks of the profiles at different times")
def diversity(case):
    p = case["p"]
    a = np.array(p, float)
    keep = a.copy()
    total = [math.fsum(c) for c in zip(*p)]
    req_close(ml.time_coincident_demand(a), max(total) / len(p),
              "time coincident demand", rtol=1e-10)
    if max(total) == 0:
        return None
    want = math.fsum(max(r) for r in p) / max(total)
    got = ml.diversity_factor(a)
    req_close(got, want, "diversity factor", rtol=1e-10)
    req(got >= 1 - 1e-9, "diversity factor %s", got)
    req_close(ml.coincidence_factor(a), 1 / want, "coincidence factor",
              rtol=1e-10)
    req_close(ml.simultaneity_factor(a), 1 / want, "simultaneity factor",
              rtol=1e-10)
    perm = np.random.RandomState(case["seed"])
    b = a[perm.permutation(len(a))][:, perm.permutation(a.shape[1])]
    req_close(ml.diversity_factor(b * case["scale"]), want,
              "reordered and scaled", rtol=1e-9)
    req_close(ml.diversity_factor(np.concatenate([a, a])), want, "doubled",
              rtol=1e-9)
    req_equal(a, keep, "the given profiles")
    return ["diverse"] if want > 1 + 1e-9 else None


@sub("C16", "changes", st.fixed_dictionaries({
    "p": profiles(min_times=2), "normalize": st.sampled_from([None, True, False]),
    "bins": st.one_of(st.none(), st.integers(1, 12)),
    "edges": st.one_of(st.none(), st.lists(
        st.sampled_from([0., .1, .25, .5, .9, 1., 2., 100., 2000., 1e5]),
        min_size=2, max_size=7, unique=True))}), 3000, 50000,
     rule="several different changes")
def changes(case):
    p = case["p"]
    a = np.array(p)
    keep = a.copy()
    normalize = case["normalize"] is not False
    ch = [abs(r[i + 1] - r[i]) for r in p for i in range(len(r) - 1)]
    top = max(ch)
    if normalize and top > 0:
        ch = [c / top for c in ch]
        top = 1.
    kw = {}
    if case["normalize"] is not None:
        kw["normalize"] = case["normalize"]
    n = 100
    if case["bins"] is not None:
        kw["bins"] = n = case["bins"]
    if case["edges"] is not None:
        edges = sorted(case["edges"])
        given_ = np.array(edges)
        kw["bin_edges"] = given_
        if top > edges[-1] or min(ch) < edges[0]:
            req(raises(ValueError, ml.cumulative_changes_in_demand, a, **kw),
                "edges %s accepted for changes %s", edges, ch)
            return ["refused"]
    elif top == 0:
        edges = None
    else:
        edges = np.linspace(0, top, n + 1).tolist()
    cdf, out = ml.cumulative_changes_in_demand(a, **kw)
    req_equal(a, keep, "the given profiles")
    cdf, out = np.asarray(cdf, float), np.asarray(out, float)
    if edges is None:             # nothing changes: one full distribution
        req(len(cdf) == n and len(out) == n + 1, "lengths %s %s", len(cdf),
            len(out))
        req_close(cdf[-1], 1, "end of the distribution")
        return None
    req_close(out, edges, "edges", rtol=1e-12, atol=1e-12)
    if case["edges"] is not None:
        req_equal(given_, edges, "the given edges")
    req_equal(len(cdf), len(edges) - 1, "length of the distribution")
    req_close(cdf[-1], 1, "end of the distribution")
    # a change within eps of an edge may count on both sides
    eps = 1e-9 * max(1., top)
    for i in range(len(cdf) - 1):
        e = out[i + 1]
        lo = sum(c < e - eps for c in ch) / len(ch)
        hi = sum(c < e + eps for c in ch) / len(ch)
        if case["edges"] is not None and not normalize:
            lo = hi = sum(c < e for c in ch) / len(ch)
            if any(c != int(c) for c in ch):
                continue
        req(lo - 1e-9 <= cdf[i] <= hi + 1e-9, "share %s of the changes below "
            "%s, expected %s to %s (%s)", cdf[i], e, lo, hi, ch)
    return ["several"] if len(set(ch)) > 1 else None


@sub("C16", "load_duration", st.fixed_dictionaries({
    "p": profiles(negative=True), "one": st.booleans(),
    "loads": st.one_of(st.none(), st.lists(
        st.sampled_from([-1., 0., 0.5, 3., 8., 100., 2000., 3000.]),
        min_size=1, max_size=6))}), 2000, 30000,
     rule="several loads and profiles")
def load_duration(case):
    rows = case["p"][:1] if case["one"] else case["p"]
    a = np.array(rows[0] if case["one"] else rows)
    keep = a.copy()
    if case["loads"] is None:
        want = sorted({x for r in rows for x in r})
        got, dur = ml.load_duration(a)
    else:
        given_ = np.array(case["loads"])
        want = sorted(case["loads"])
        got, dur = ml.load_duration(a, given_)
        req_equal(given_, case["loads"], "the given loads")
    req_equal(a, keep, "the given profiles")
    req_equal(got, want, "loads")
    d = [[sum(x >= l for x in r) for l in want] for r in rows]
    req_equal(dur, d, "durations")
    return ["several"] if len(rows) > 1 and len(want) > 1 else None


@sub("C16", "rmse", st.fixed_dictionaries({
    "a": profiles(negative=True), "seed": st.integers(0, 10**6),
    "one": st.booleans(), "ints": st.booleans()}), 600, 8000,
     rule="the profiles differ")
def rmse(case):
    a = np.array(case["a"], float)
    if case["one"]:
        a = a[0]
    rng = np.random.RandomState(case["seed"])
    b = a + rng.choice([0., 1., -2., 7.5], size=a.shape)
    if case["ints"]:
        a, b = a.astype(int), b.astype(int)
    k1, k2 = a.copy(), b.copy()
    want = math.sqrt(sum((x - y)**2 for x, y in zip(
        a.ravel().tolist(), b.ravel().tolist())) / a.size)
    req_close(RMSE(a, b), want, "rmse", rtol=1e-9)
    req_close(RMSE(b, a), want, "rmse swapped", rtol=1e-9)
    req_equal(a, k1, "first array")
    req_equal(b, k2, "second array")
    return ["differ"] if want else None
