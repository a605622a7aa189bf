"""C09: first order Markov chains."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_equal, sub)

from demod.simulators.activity_simulators import MarkovChain1rstOrder
from demod.simulators.base_simulators import SimLogger


def one_hot(idx, n):
    out = np.zeros(idx.shape + (n,))
    np.put_along_axis(out, idx[..., None], 1., axis=-1)
    return out


def label_list(kind, n):
    if kind == "str":
        return ["s%d" % (n - i) for i in range(n)]
    if kind == "array":
        return np.array(["act_%s" % chr(97 + (i * 7 + 3) % 26)
                         for i in range(n)])
    if kind == "int":
        return [11 * i + 3 for i in range(n)]
    return None


def random_tpm(rng, nt, ns, sparse):
    w = rng.choice([0, 0, 0, 1] if sparse else [0, 1, 2, 9],
                   size=(nt, ns, ns)).astype(float)
    t, i = np.where(w.sum(axis=-1) == 0)
    w[t, i, rng.randint(ns, size=len(t))] = 1
    return w / w.sum(axis=-1)[..., None]


@sub("C09", "deterministic_chain", st.fixed_dictionaries({
    "nt": st.integers(1, 7), "ns": st.integers(1, 6), "n": st.integers(1, 6),
    "seed": st.integers(0, 10**6), "start": st.integers(0, 5),
    "init": st.integers(0, 9), "run": st.integers(0, 20),
    "labels": st.sampled_from(["str", "array", "int", None]),
    "logged": st.booleans()}), 1200, 30000,
     rule="more than one state and the run goes past the last matrix")
def deterministic(case):
    nt, ns, n = case["nt"], case["ns"], case["n"]
    rng = np.random.RandomState(case["seed"])
    maps = rng.randint(ns, size=(nt, ns))
    tpm = one_hot(maps, ns)
    keep = tpm.copy()
    labels = label_list(case["labels"], ns)
    kw = {"logger": SimLogger("current_states", aggregated=False)} if case["logged"] else {}
    sim = MarkovChain1rstOrder(n, ns, tpm, labels, **kw)
    pdf = np.zeros(ns)
    s = case["start"] % ns
    pdf[s] = 1.
    sim.initialize_starting_state(pdf, start_time_step=case["init"])
    names = list(range(ns)) if labels is None else list(labels)
    states, done = [], 0
    for k in range(case["init"] + case["run"] + 1):
        if k:
            # the first matrix is the transition that leads to the start
            s = int(maps[k % nt, s])
        if k < case["init"]:
            continue
        if k > case["init"]:
            sim.step()
        req_equal(sim.current_time_step, k, "step counter")
        req_equal(sim.current_states, np.full(n, s), "states, step %d" % k)
        for i, name in enumerate(names):
            req_equal(sim.get_n_doing_state(i), np.full(n, i == s),
                      "doing state %d" % i)
            req_equal(sim.get_n_doing_activity(name), np.full(n, i == s),
                      "doing %r" % name)
        states.append(np.full(n, s))
    req_equal(tpm, keep, "the given matrices")
    req_equal([str(x) for x in sim.state_labels], [str(x) for x in names],
              "labels")
    if case["logged"]:
        req_equal(sim.logger.get("current_states"), np.array(states)[:-1],
                  "logged states")
    if ns > 1 and case["run"] + case["init"] > nt:
        return ["cycled"] + (["initialized"] if case["init"] else [])


@sub("C09", "deterministic_large", st.fixed_dictionaries({
    "size": st.sampled_from([(2, 130), (1, 300), (3, 260), (300, 3),
                             (144, 2), (260, 5)]),
    "n": st.sampled_from([1, 2, 300]), "seed": st.integers(0, 10**6),
    "start": st.integers(0, 299), "init": st.sampled_from([0, 2, 150, 270]),
    "run": st.sampled_from([3, 20]),
    "labels": st.sampled_from(["str", "int", None]),
    "logged": st.booleans()}), 50, 1500,
     rule="more than one state and the run goes past the last matrix")
def deterministic_large(case):
    """Hundreds of states, matrices, households and steps."""
    case = dict(case, nt=case["size"][0], ns=case["size"][1])
    if case["nt"] > 100:
        case["run"] = case["nt"] + 5
    return deterministic(case)


@sub("C09", "random_chain", st.fixed_dictionaries({
    "nt": st.integers(1, 4), "ns": st.integers(2, 5),
    "n": st.sampled_from([1, 3, 2000]), "seed": st.integers(0, 10**6),
    "sparse": st.booleans(), "run": st.integers(1, 7)}), 220, 5000,
     rule="2000 households and rows with several destinations")
def random_chain(case):
    nt, ns, n = case["nt"], case["ns"], case["n"]
    rng = np.random.RandomState(case["seed"])
    tpm = random_tpm(rng, nt, ns, case["sparse"])
    pdf = random_tpm(rng, 1, ns, case["sparse"])[0, 0]
    sim = MarkovChain1rstOrder(n, ns, tpm)
    sim.initialize_starting_state(pdf)
    old = np.array(sim.current_states)
    req_equal(old.shape, (n,), "states")
    req(bool(np.all(pdf[old] > 0)), "an impossible starting state")
    if n > 1000:
        p = gtest_pvalue(np.bincount(old, minlength=ns), pdf)
        req(p > P_REJECT, "starting states %s of %s" % (
            np.bincount(old, minlength=ns) / n, pdf))
    tags = []
    for k in range(case["run"]):
        sim.step()
        new = np.array(sim.current_states)
        mat = tpm[(k + 1) % nt]
        req(bool(np.all(mat[old, new] > 0)),
            "step %d: a transition of probability 0 happened" % (k + 1))
        if n > 1000:
            for s in np.unique(old):
                sel = new[old == s]
                p = gtest_pvalue(np.bincount(sel, minlength=ns), mat[s])
                req(p > P_REJECT, "step %d: from state %d to %s, expected %s"
                    " (p=%g)" % (k + 1, s, np.bincount(sel, minlength=ns)
                                 / len(sel), mat[s], p))
                if len(sel) > 400:
                    joint = np.zeros((ns, ns))
                    np.add.at(joint, (sel[:-1:2], sel[1::2]), 1)
                    p = gtest_pvalue(joint.ravel(),
                                     np.outer(mat[s], mat[s]).ravel())
                    req(p > P_REJECT, "households are not independent")
                if (mat[s] > 0).sum() > 1:
                    tags = ["random"]
        old = new
    return tags


@sub("C09", "refused_inputs", st.fixed_dictionaries({
    "nt": st.integers(1, 3), "ns": st.integers(2, 5),
    "seed": st.integers(0, 10**6), "row": st.integers(0, 99),
    "defect": st.sampled_from(["list", "square", "n_states", "labels",
                               "sum", "negative", "start_sum", "start_size",
                               "households"])}), 300, 4000,
     rule="every case")
def refused(case):
    ns, nt = case["ns"], case["nt"]
    rng = np.random.RandomState(case["seed"])
    tpm = random_tpm(rng, nt, ns, False)
    pdf = np.full(ns, 1 / ns)
    d = case["defect"]
    r = case["row"]

    def run(tpm=tpm, pdf=pdf, n_states=ns, labels=None, n=3):
        sim = MarkovChain1rstOrder(n, n_states, tpm, labels)
        sim.initialize_starting_state(pdf)
        sim.step()
    run()
    if d == "list":
        ok = raises(TypeError, run, tpm=tpm.tolist())
    elif d == "square":
        ok = raises(ValueError, run, tpm=np.concatenate(
            [tpm, np.zeros((nt, ns, 1))], axis=-1))
    elif d == "n_states":
        ok = raises(ValueError, run, n_states=ns + 1)
    elif d == "labels":
        ok = raises(ValueError, run, labels=["x"] * (ns + 1))
    elif d == "sum":
        bad = tpm.copy()
        bad[r % nt, r % ns] *= 0.9
        ok = raises(ValueError, run, tpm=bad)
    elif d == "negative":
        bad = tpm.copy()
        bad[r % nt, r % ns] = 0
        bad[r % nt, r % ns, :2] = [1.4, -0.4]
        ok = raises(ValueError, run, tpm=bad)
    elif d == "start_sum":
        ok = raises(ValueError, run, pdf=pdf * 0.9)
    elif d == "start_size":
        ok = raises((AssertionError, ValueError), run,
                    pdf=np.full(ns + 1, 1 / (ns + 1)))
    else:
        ok = raises(ValueError, run, n=0)
    req(ok, "%s was accepted" % d)
    return [d]
