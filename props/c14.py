"""C14: durations and metrics of states patterns."""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from pbt.core import req, req_close, req_equal, sub

from demod.metrics import states as ms

NAMES = ["away", "sleep", "cook", "tv", "work", "z"]


@st.composite
def patterns(draw, max_rows=7, max_times=14, values=4, rows=None, times=None):
    n_t = draw(st.integers(1, max_times)) if times is None else times
    n_r = draw(st.integers(1, max_rows)) if rows is None else rows
    out = []
    for _ in range(n_r):
        kind = draw(st.sampled_from(["free", "runs", "runs", "constant",
                                     "copy"]))
        if kind == "constant":
            row = [draw(st.integers(0, values - 1))] * n_t
        elif kind == "copy" and out:
            row = list(draw(st.sampled_from(out)))
            k = draw(st.integers(0, n_t - 1))
            row = row[k:] + row[:k]
        elif kind == "runs":
            row = []
            while len(row) < n_t:
                row += [draw(st.integers(0, values - 1))] * draw(
                    st.integers(1, n_t))
            row = row[:n_t]
        else:
            row = draw(st.lists(st.integers(0, values - 1), min_size=n_t,
                                max_size=n_t))
        out.append(row)
    return out


def runs(row):
    """[(state, start, length)] of the cyclic runs of a row."""
    n = len(row)
    starts = [i for i in range(n) if row[i] != row[i - 1]]
    if not starts:
        return [(row[0], 0, n)]
    out = []
    for j, i in enumerate(starts):
        nxt = starts[(j + 1) % len(starts)]
        out.append((row[i], i, (nxt - i) % n or n))
    return out


def to_array(rows, kind):
    a = np.array(rows)
    if kind == "str":
        return np.array(NAMES)[a]
    if kind == "offset":
        return a * 3 + 2
    if kind == "float":
        return a * 0.5
    if kind == "fortran":
        return np.asfortranarray(a)
    return a


KINDS = st.sampled_from(["int", "int", "str", "offset", "float", "fortran"])


def counted(rows):
    return Counter((s, l) for row in rows for s, _, l in runs(row))


@sub("C14", "durations", st.fixed_dictionaries({
    "rows": patterns(), "kind": KINDS}), 3000, 60000,
     rule="some pattern changes of state")
def durations(case):
    a = to_array(case["rows"], case["kind"])
    keep = a.copy()
    dur, lab = ms.get_states_durations(a)
    req_equal(a, keep, "the given states")
    rows = a.tolist()
    want = counted(rows)
    req(len(dur) == len(lab), "%s durations, %s labels", len(dur), len(lab))
    got = Counter(zip(np.asarray(lab).tolist(), np.asarray(dur).tolist()))
    req(got == want, "durations %s of %s, expected %s", got, rows, want)
    req_equal(int(np.sum(dur)), a.size, "the sum of the durations")
    by = ms.get_durations_by_states(a)
    req(set(np.asarray(list(by.keys())).tolist())
        == {s for s, _ in want}, "states %s, expected %s", list(by), want)
    for state, d in by.items():
        s = np.asarray(state).item()
        req(sorted(np.asarray(d).tolist()) == sorted(
            (Counter({l: c for (x, l), c in want.items() if x == s})
             ).elements()), "durations of %s: %s in %s", s, d, rows)
    req_equal(a, keep, "the given states")
    tags = []
    if any(len(set(r)) > 1 for r in rows):
        tags.append("changes")
    if any(len(set(r)) == 1 for r in rows):
        tags.append("constant")
    if any(r[0] == r[-1] and len(set(r)) > 1 for r in rows):
        tags.append("over the end")
    return tags if "changes" in tags else None


@sub("C14", "count", st.fixed_dictionaries({
    "rows": patterns(), "kind": KINDS}), 600, 8000, rule="several values")
def count(case):
    a = to_array(case["rows"], case["kind"])
    got = ms.count(a)
    want = Counter(a.ravel().tolist())
    req(len(got) == len(want), "counted %s in %s", got, a.tolist())
    req({np.asarray(u).item(): int(c) for u, c in got} == dict(want),
        "counted %s, expected %s", got, want)
    return ["several"] if len(want) > 1 else None


# --------------------------------------------------------------- comparisons
@sub("C14", "average_error", st.fixed_dictionaries({
    "times": st.integers(1, 12), "n": st.integers(1, 6), "m": st.integers(1, 6),
    "seed": st.integers(0, 10**6), "high": st.sampled_from([2, 5, 40]),
    "float": st.booleans()}), 1500, 20000,
     rule="the averages differ")
def average_error(case):
    rng = np.random.RandomState(case["seed"])
    t = case["times"]
    sim = rng.randint(case["high"], size=(case["n"], t))
    mes = rng.randint(case["high"], size=(case["m"], t))
    if case["float"]:
        sim = sim * 0.25 - 1
    k1, k2 = sim.copy(), mes.copy()
    want = [abs(sum(sim[:, i].tolist()) / case["n"]
                - sum(mes[:, i].tolist()) / case["m"]) for i in range(t)]
    each = ms.average_state_metric(sim, mes, average_over_timestep=False)
    req_close(each, want, "errors per step", rtol=1e-12, atol=1e-12)
    one = ms.average_state_metric(sim, mes)
    req_close(one, sum(want) / t, "average error", rtol=1e-12, atol=1e-12)
    req_close(ms.average_state_metric(mes, sim), one, "swapped", rtol=1e-12,
              atol=1e-12)
    req_close(ms.average_state_metric(sim, sim[::-1]), 0, "with itself",
              atol=1e-12)
    req_equal(sim, k1, "the simulated states")
    req_equal(mes, k2, "the measured states")
    return ["differ"] if max(want) > 0 else None


@st.composite
def pairs(draw):
    t = draw(st.integers(1, 12))
    return {"sim": draw(patterns(times=t, max_rows=5, values=4)),
            "mes": draw(patterns(times=t, max_rows=5, values=4)),
            "shift": draw(st.sampled_from([0, 0, 2])),
            "kind": draw(st.sampled_from(["int", "str"]))}


def cdf(rows, state, n):
    d = [l for row in rows for s, _, l in runs(row) if s == state]
    return [sum(x <= k for x in d) / len(d) if d else 0.
            for k in range(n + 1)]


@sub("C14", "duration_distribution", pairs(), 1500, 25000,
     rule="a state has different durations in both; tagged when a state is "
          "missing on one side")
def duration_distribution(case):
    sim = np.array(case["sim"])
    mes = np.array(case["mes"]) + case["shift"]
    if case["kind"] == "str":
        sim, mes = np.array(NAMES)[sim], np.array(NAMES)[mes]
    n = sim.shape[1]
    k1, k2 = sim.copy(), mes.copy()
    states = set(sim.ravel().tolist()) | set(mes.ravel().tolist())
    each = ms.state_duration_distribution_metric(sim, mes, False)
    mean = ms.state_duration_distribution_metric(sim, mes)
    req_equal(sim, k1, "the simulated states")
    req_equal(mes, k2, "the measured states")
    for d in (each, mean):
        req({np.asarray(s).item() for s in d} == states,
            "states %s, expected %s", list(d), states)
    diff = False
    for s in states:
        want = np.abs(np.array(cdf(sim.tolist(), s, n))
                      - np.array(cdf(mes.tolist(), s, n)))
        req_close(each[s], want, "error of the durations of %s" % s,
                  rtol=1e-10, atol=1e-10)
        req_close(mean[s], np.mean(want), "average error of %s" % s,
                  rtol=1e-10, atol=1e-10)
        diff |= bool(want.max() > 1e-9)
    back = ms.state_duration_distribution_metric(mes, sim)
    for s in states:
        req_close(back[s], mean[s], "swapped: %s" % s, rtol=1e-10, atol=1e-10)
    rolled = ms.state_duration_distribution_metric(
        sim, np.roll(sim, 1 + case["shift"], axis=1)[::-1])
    req_close(sorted(rolled.values()), [0.] * len(rolled),
              "the same patterns started later", atol=1e-10)
    if not diff:
        return None
    only = (set(sim.ravel().tolist()) ^ set(mes.ravel().tolist()))
    return ["different"] + (["missing"] if only else [])


def big_states(n_s, n_t, values, mean, seed):
    """Patterns of runs of about ``mean`` steps."""
    rng = np.random.RandomState(seed)
    change = rng.rand(n_s, n_t) < 1. / mean
    change[:, 0] = True
    drawn = rng.randint(0, values, (n_s, n_t))
    last = np.maximum.accumulate(
        np.where(change, np.arange(n_t), 0), axis=1)
    a = np.take_along_axis(drawn, last, axis=1)
    return a


@sub("C14", "durations_of_large_patterns", st.fixed_dictionaries({
    "size": st.sampled_from([
        (1, 70000), (2, 40000), (300, 144), (1500, 24), (40, 1440),
        (3, 300), (1, 33000)]),
    "values": st.sampled_from([2, 3, 12, 300]),
    "mean": st.sampled_from([2, 30, 300, 20000]),
    "seed": st.integers(0, 10**6)}), 60, 800,
     rule="some pattern changes of state")
def durations_of_large_patterns(case):
    n_s, n_t = case["size"]
    a = big_states(n_s, n_t, case["values"], case["mean"], case["seed"])
    want = Counter()
    for row in a:
        cut = np.flatnonzero(row != np.roll(row, 1))
        if not len(cut):
            want[(int(row[0]), n_t)] += 1
            continue
        length = np.diff(np.append(cut, cut[0] + n_t))
        for s, l in zip(row[cut].tolist(), length.tolist()):
            want[(s, l)] += 1
    dur, lab = ms.get_states_durations(a)
    got = Counter(zip(np.asarray(lab).tolist(), np.asarray(dur).tolist()))
    req(got == want, "%s durations are wrong",
        sum(((got - want) + (want - got)).values()))
    by = ms.get_durations_by_states(a)
    req(sum(int(np.sum(d)) for d in by.values()) == a.size,
        "the durations by state do not add up")
    return ["changes"] if len(want) > 1 else None


@sub("C14", "graph_of_large_patterns", st.fixed_dictionaries({
    "size": st.sampled_from([
        (1, 300), (3, 1440), (700, 24), (3000, 4), (200, 144), (40, 111)]),
    "values": st.sampled_from([2, 3, 12, 25, 120]),
    "mean": st.sampled_from([1, 2, 30]),
    "seed": st.integers(0, 10**6)}), 40, 500,
     rule="several nodes at a time")
def graph_of_large_patterns(case):
    n_s, n_t = case["size"]
    values = case["values"]
    while n_t * values ** 2 > 3e6:
        values //= 3
    a = big_states(n_s, n_t, values, case["mean"], case["seed"])
    edges = Counter()
    for t in range(n_t):
        edges.update(zip([t] * n_s, a[:, t - 1].tolist(), a[:, t].tolist()))
    nodes = sum(len(np.unique(a[:, t])) for t in range(n_t))
    k = len(np.unique(a))
    got = ms.graph_metrics(a)
    req_equal(int(got[0]), nodes, "network size")
    req_close(got[1], len(edges) / (n_t * k * k), "network density")
    req_close(got[2], n_s * n_t / len(edges), "centrality")
    same = sum(c for (t, x, y), c in edges.items() if x == y)
    req_close(got[3], same / (n_s * n_t), "homophily")
    return ["several"] if nodes > n_t else None


# ------------------------------------------------------------- graph metrics
@sub("C14", "graph", st.fixed_dictionaries({
    "rows": patterns(max_rows=8, max_times=10),
    "perm": st.permutations(range(4)), "order": st.integers(0, 10**6),
    "roll": st.integers(0, 9)}), 1500, 25000,
     rule="several nodes at a time")
def graph(case):
    rows = case["rows"]
    a = np.array(rows)
    n_s, n_t = a.shape
    keep = a.copy()
    got = ms.graph_metrics(a)
    req_equal(a, keep, "the given states")
    edges = Counter()
    for row in rows:
        for t in range(n_t):
            edges[(t, row[t - 1], row[t])] += 1
    nodes = {(t, row[t]) for row in rows for t in range(n_t)}
    k = len(set(a.ravel().tolist()))
    req_equal(int(got[0]), len(nodes), "network size")
    req_close(got[1], len(edges) / (n_t * k * k), "network density")
    req(got[1] <= 1 + 1e-12, "density %s", got[1])
    req_close(got[2], sum(edges.values()) / len(edges), "centrality")
    same = sum(c for (t, x, y), c in edges.items() if x == y)
    req_close(got[3], same / (n_s * n_t), "homophily")
    for b in (np.array(case["perm"])[a],
              a[np.random.RandomState(case["order"]).permutation(n_s)],
              np.roll(a, case["roll"], axis=1)):
        req_close(ms.graph_metrics(b), got,
                  "renamed, reordered or shifted patterns")
    return ["several"] if len(nodes) > n_t else None


@sub("C14", "sparsity", st.fixed_dictionaries({
    "shape": st.sampled_from([(1, 1), (3, 4), (2, 3, 3), (5, 2, 2), (2, 1, 3, 2)]),
    "seed": st.integers(0, 10**6), "p": st.sampled_from([0, .3, .7, 1]),
    "scale": st.sampled_from([1, 1e-9, 30])}), 800, 10000,
     rule="zero and other elements")
def sparsity(case):
    rng = np.random.RandomState(case["seed"])
    shape = tuple(case["shape"])
    a = np.where(rng.uniform(size=shape) < case["p"], 0.,
                 (rng.uniform(size=shape) + 1e-3) * case["scale"])
    zeros = sum(x == 0 for x in a.ravel().tolist())
    req_close(ms.sparsity(a), zeros / a.size, "sparsity", rtol=1e-12,
              atol=1e-12)
    return ["mixed"] if 0 < zeros < a.size else None
