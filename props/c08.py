"""C08: sparse transition matrices behave as the dense matrices they hold."""
import os
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_close,
                      req_equal, sub)

from demod.utils.sparse import SparseTPM


@st.composite
def matrices(draw, large=False):
    if large:
        nt, ns = draw(st.sampled_from(
            [(300, 3), (700, 2), (2, 180), (1, 300), (3, 140)]))
    else:
        nt, ns = draw(st.integers(1, 6)), draw(st.integers(1, 7))
    seed = draw(st.integers(0, 10**6))
    density = draw(st.sampled_from([0.1, 0.3, 0.6, 1.0]))
    explicit = draw(st.booleans())
    shuffle = draw(st.sampled_from(["time", "from", "to", "random"]))
    return {"nt": nt, "ns": ns, "seed": seed, "density": density,
            "explicit": explicit, "shuffle": shuffle}


def dense_of(m, stochastic=True):
    rng = np.random.RandomState(m["seed"])
    d = rng.choice([1., 2., 5., 20.], size=(m["nt"], m["ns"], m["ns"]))
    d *= rng.uniform(size=d.shape) < m["density"]
    if stochastic:
        t, i = np.where(d.sum(axis=-1) == 0)
        d[t, i, rng.randint(m["ns"], size=len(t))] = 1.
        d /= d.sum(axis=-1)[..., None]
    return d


def sparse_of(m, d):
    """The sparse form with its transitions in some order."""
    if m["explicit"]:      # sizes can be deduced only from the transitions
        t, i, j = np.nonzero(d)
    else:
        t, i, j = np.nonzero(d)
    rng = np.random.RandomState(m["seed"] + 1)
    if m["shuffle"] == "time":
        o = np.lexsort((j, i, t))
    elif m["shuffle"] == "from":
        o = np.lexsort((t, j, i))
    elif m["shuffle"] == "to":
        o = np.lexsort((i, t, j))
    else:
        o = rng.permutation(len(t))
    return t[o], i[o], j[o], d[t, i, j][o]


def build(m, d):
    parts = sparse_of(m, d)
    return SparseTPM(*parts, n_states=m["ns"], n_times=m["nt"])


def same_dense(tpm, d, what):
    req_equal(tuple(int(x) for x in tpm.shape), d.shape, what + ": shape")
    req_equal(int(tpm.n_times), d.shape[0], what + ": n_times")
    req_equal(int(tpm.n_states), d.shape[1], what + ": n_states")
    for t in range(d.shape[0]):
        req_close(tpm[t], d[t], "%s: matrix %d" % (what, t), atol=1e-15)


@sub("C08", "indexing_iterating_storing", st.fixed_dictionaries({
    "m": matrices(),
    "ops": st.lists(st.one_of(
        st.tuples(st.just("set"), st.integers(-12, 12), st.integers(0, 99)),
        st.tuples(st.just("get"), st.integers(-12, 12)),
        st.tuples(st.just("iter"), st.integers(0, 7)),
        st.tuples(st.just("save")),
        st.tuples(st.just("refuse"), st.integers(0, 3))), max_size=8)}),
     900, 20000, rule="several times, not full, with a set or save")
def dense_model(case):
    m = case["m"]
    d = dense_of(m, stochastic=False)
    d[-1, -1, 0] = d[-1, 0, -1] = 0.5
    tpm = build(m, d)
    same_dense(tpm, d, "start")
    scratch = tempfile.mkdtemp()
    done = set()
    try:
        for op in case["ops"]:
            op = list(op)
            done.add(op[0])
            if op[0] == "set":
                new = dense_of({**m, "seed": op[2]}, False)[0]
                key = op[1]
                new[0, -1] = 0.25
                tpm[key] = new
                d[key % m["nt"]] = new
                same_dense(tpm, d, "after set")
            elif op[0] == "get":
                req_close(tpm[op[1]], d[op[1] % m["nt"]],
                          "matrix %d (cyclic)" % op[1])
            elif op[0] == "iter":
                stop = op[1]
                for k, mat in enumerate(tpm):
                    req_close(mat, d[k], "iterated matrix %d" % k)
                    if k == stop:
                        break
                mats = list(tpm)
                req_equal(len(mats), m["nt"], "iterated matrices")
                for k, mat in enumerate(mats):
                    req_close(mat, d[k], "iterated matrix %d" % k)
            elif op[0] == "save":
                path = os.path.join(scratch, "a_b,c")
                tpm.save(path)
                tpm = SparseTPM.load(path)
                same_dense(tpm, d, "after save and load")
            else:
                shape = [(m["ns"] + 1, m["ns"] + 1), (m["ns"], m["ns"] + 1),
                         (m["ns"] + 1, m["ns"]), (1, m["ns"] + 1)][op[1]]
                req(raises(ValueError, tpm.__setitem__, 0, np.ones(shape)),
                    "accepted a matrix of shape %s" % (shape,))
                same_dense(tpm, d, "after a refused matrix")
    finally:
        shutil.rmtree(scratch)
    if m["nt"] > 1 and (d == 0).any() and done & {"set", "save"}:
        return sorted(done)


@sub("C08", "construction", st.fixed_dictionaries({
    "m": matrices(), "cut": st.sampled_from([None, 0, 1, 2, 3]),
    "by": st.integers(1, 3)}), 400, 8000,
     rule="more than one transition")
def construction(case):
    m = case["m"]
    d = dense_of(m)
    parts = list(sparse_of(m, d))
    if case["cut"] is None:
        tpm = SparseTPM(*parts)
        t, i, j, _ = parts
        n = max(i.max(), j.max()) + 1
        same_dense(tpm, d[:t.max() + 1, :n, :n], "deduced sizes")
    else:
        by = min(case["by"], len(parts[0]))
        parts[case["cut"]] = parts[case["cut"]][:-by]
        req(raises(ValueError, SparseTPM, *parts),
            "accepted inputs of lengths %s" % [len(p) for p in parts])
    if len(d[d > 0]) > 1:
        return ["refused" if case["cut"] is not None else "deduced"]


@sub("C08", "sampling", st.fixed_dictionaries({
    "m": matrices(), "time": st.integers(-3, 20), "reset": st.booleans(),
    "n": st.sampled_from([1, 5, 3000]), "subset": st.integers(1, 7),
    "loaded": st.booleans()}), 700, 12000,
     rule="3000 draws from at least two states, one with several "
          "destinations")
def sampling(case):
    m = case["m"]
    d = dense_of(m)
    tpm = build(m, d)
    if case["reset"]:
        d2 = dense_of({**m, "seed": m["seed"] + 5})
        tpm[0] = d2[0]
        d[0] = d2[0]
    rng = np.random.RandomState(m["seed"])
    pool = rng.permutation(m["ns"])[:case["subset"]]
    states = rng.choice(pool, size=case["n"])
    keep = states.copy()
    new = np.asarray(tpm.sparse_monte_carlo(case["time"], states))
    req_equal(states, keep, "the given states")
    req_equal(new.shape, states.shape, "shape of the new states")
    mat = d[case["time"] % m["nt"]]
    req(bool(np.all(mat[states, new] > 0)),
        "a transition of probability 0 happened: %s" % sorted(
            {(int(a), int(b)) for a, b in zip(states, new)
             if mat[a, b] == 0}))
    if case["n"] < 1000:
        return None
    for s in np.unique(states):
        sel = new[states == s].astype(int)
        p = gtest_pvalue(np.bincount(sel, minlength=m["ns"]), mat[s])
        req(p > P_REJECT, "state %d goes to %s, probabilities %s (p=%g)" % (
            s, np.bincount(sel, minlength=m["ns"]) / len(sel), mat[s], p))
        row = mat[s]
        if (row > 0).sum() > 1 and len(sel) > 500:
            joint = np.zeros((m["ns"], m["ns"]))
            np.add.at(joint, (sel[:-1:2], sel[1::2]), 1)
            p = gtest_pvalue(joint.ravel(), np.outer(row, row).ravel())
            req(p > P_REJECT, "draws are not independent (p=%g)" % p)
    u = np.unique(states)
    if len(u) > 1 and ((mat[u] > 0).sum(axis=1) > 1).any():
        return ["reset"] if case["reset"] else ["plain"]


@sub("C08", "dead_states", st.fixed_dictionaries({
    "m": matrices(), "time": st.integers(0, 9), "dead": st.integers(1, 99),
    "value": st.integers(0, 6), "n": st.integers(1, 40)}), 400, 8000,
     rule="some household is in a dead state and some is not")
def dead_states(case):
    m = case["m"]
    if m["ns"] < 2:
        return None
    d = dense_of(m)
    t = case["time"] % m["nt"]
    rng = np.random.RandomState(case["dead"])
    value = case["value"] % m["ns"]
    dead = rng.uniform(size=m["ns"]) < 0.5
    dead[value] = False
    d[t][dead] = 0
    tpm = build(m, d)
    tpm.dead_state_value = value
    states = rng.randint(m["ns"], size=case["n"])
    keep = states.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        new = np.asarray(tpm.sparse_monte_carlo(t, states))
    req_equal(states, keep, "the given states")
    origin = np.where(dead[keep], value, keep)
    req(bool(np.all(d[t][origin, new] > 0)),
        "states %s (dead: %s, assigned %d) went to %s" % (
            keep.tolist(), np.where(dead)[0].tolist(), value, new.tolist()))
    if dead[keep].any() and not dead[keep].all():
        return ["mixed"]


@sub("C08", "large", st.fixed_dictionaries({
    "m": matrices(large=True), "seed": st.integers(0, 10**6),
    "save": st.booleans()}), 80, 800, rule="always")
def large(case):
    """As many times or states as a day of minutes or a large household."""
    m = dict(case["m"])
    m["density"] = min(m["density"], 0.3)
    d = dense_of(m)
    tpm = build(m, d)
    same_dense(tpm, d, "start")
    rng = np.random.RandomState(case["seed"])
    if case["save"]:
        scratch = tempfile.mkdtemp()
        try:
            path = os.path.join(scratch, "tpm")
            tpm.save(path)
            tpm = SparseTPM.load(path)
        finally:
            shutil.rmtree(scratch)
    k = int(rng.randint(m["nt"]))
    d[k] = dense_of({**m, "nt": 1, "seed": case["seed"]})[0]
    tpm[k] = d[k]
    same_dense(tpm, d, "after set")
    for t in (k, int(rng.randint(m["nt"])), m["nt"] - 1, m["nt"] + 1):
        states = rng.randint(m["ns"], size=200)
        new = np.asarray(tpm.sparse_monte_carlo(t, states))
        req(bool(np.all(d[t % m["nt"]][states, new] > 0)),
            "a transition of probability 0 happened at time %d" % t)
    return ["times" if m["nt"] > 10 else "states"]
