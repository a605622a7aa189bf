"""C10: semi-Markov chains."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import P_REJECT, gtest_pvalue, raises, req, req_equal, sub

from demod.simulators.activity_simulators import SemiMarkovSimulator
from demod.simulators.base_simulators import SimLogger
from props.c09 import one_hot, random_tpm


def next_maps(rng, nt, ns, selfs):
    maps = rng.randint(ns, size=(nt, ns))
    if not selfs and ns > 1:
        maps = (np.arange(ns) + 1 + rng.randint(ns - 1, size=(nt, ns))) % ns
    return maps


@sub("C10", "deterministic_chain", st.fixed_dictionaries({
    "nt": st.integers(1, 8), "ns": st.integers(1, 5), "n": st.integers(1, 5),
    "dmax": st.integers(1, 6), "seed": st.integers(0, 10**6),
    "prev": st.booleans(), "selfs": st.booleans(),
    "init": st.integers(0, 9), "run": st.integers(0, 25),
    "zero": st.integers(0, 3).map(lambda i: i == 0),
    "logged": st.booleans()}), 1200, 30000,
     rule="several states, durations above one, at least five steps")
def deterministic(case):
    nt, ns, n, dm = case["nt"], case["ns"], case["n"], case["dmax"]
    rng = np.random.RandomState(case["seed"])
    maps = next_maps(rng, nt, ns, case["selfs"])
    size = (nt, ns, ns) if case["prev"] else (nt, ns)
    # a state drawn for no time at all is held for the step of its entry
    low = 0 if case.get("zero") else 1
    durs = rng.randint(low, dm + 1, size=size)
    durs0 = rng.randint(low, dm + 1, size=ns)
    kw = {"logger": SimLogger("current_states", aggregated=False)} if case["logged"] else {}
    labels = ["l%d" % i for i in range(ns)]
    sim = SemiMarkovSimulator(n, ns, one_hot(maps, ns),
                              one_hot(durs, dm + 1), labels, **kw)
    # the households of this chain may start in several states
    pdf = np.zeros(ns)
    s0 = int(rng.randint(ns))
    pdf[s0] = 1.
    sim.initialize_starting_state(pdf, one_hot(durs0, dm + 1),
                                  start_time_step=case["init"])
    s, left = s0, int(durs0[s0])
    states, changes = [], 0
    for k in range(case["init"] + case["run"] + 1):
        if k:
            left -= 1
            if left <= 0:
                new = int(maps[k % nt, s])
                left = int(durs[k % nt, s, new] if case["prev"]
                           else durs[k % nt, new])
                s = new
                changes += 1
        if k < case["init"]:
            continue
        if k > case["init"]:
            sim.step()
        req_equal(sim.current_time_step, k, "step counter")
        req_equal(sim.current_states, np.full(n, s), "states, step %d" % k)
        for i, lab in enumerate(labels):
            req_equal(sim.get_n_doing_activity(lab), np.full(n, i == s),
                      "doing %s" % lab)
        states.append(np.full(n, s))
    if case["logged"]:
        req_equal(sim.logger.get("current_states"), np.array(states)[:-1],
                  "logged states")
    if ns > 1 and dm > 1 and case["init"] + case["run"] >= 5 and changes > 1:
        return ["prev" if case["prev"] else "new"] + (
            ["initialized"] if case["init"] else [])


@sub("C10", "deterministic_long", st.fixed_dictionaries({
    "nt": st.sampled_from([1, 5, 130, 144, 260, 300]),
    "ns": st.integers(2, 4), "n": st.integers(1, 3),
    "dmax": st.sampled_from([100, 144, 150, 300, 400]),
    "seed": st.integers(0, 10**6), "prev": st.booleans(),
    "selfs": st.booleans(), "init": st.sampled_from([0, 3, 140, 300]),
    "run": st.sampled_from([200, 600]), "logged": st.booleans()}), 60, 1500,
     rule="several states were entered")
def deterministic_long(case):
    """Durations and chains of hundreds of steps."""
    return deterministic(case)


@sub("C10", "random_chain", st.fixed_dictionaries({
    "nt": st.integers(1, 3), "ns": st.integers(2, 4),
    "dmax": st.integers(1, 5), "seed": st.integers(0, 10**6),
    "prev": st.booleans(), "n": st.sampled_from([2, 3000]),
    "run": st.integers(1, 9)}), 160, 4000,
     rule="3000 households, several durations")
def random_chain(case):
    nt, ns, dm, n = case["nt"], case["ns"], case["dmax"], case["n"]
    rng = np.random.RandomState(case["seed"])
    tpm = random_tpm(rng, nt, ns, False)
    tpm[:, np.arange(ns), np.arange(ns)] = 0
    t, i = np.where(tpm.sum(axis=-1) == 0)
    tpm[t, i, (i + 1) % ns] = 1
    tpm /= tpm.sum(axis=-1)[..., None]

    def dur_pdf(shape):
        w = rng.choice([0., 1., 3.], size=shape + (dm + 1,))
        w[..., 0] = 0
        w[..., 1][w.sum(axis=-1) == 0] = 1
        return w / w.sum(axis=-1)[..., None]
    durs = dur_pdf((nt, ns, ns) if case["prev"] else (nt, ns))
    durs0 = dur_pdf((ns,))
    pdf = random_tpm(rng, 1, ns, False)[0, 0]
    sim = SemiMarkovSimulator(n, ns, tpm, durs)
    sim.initialize_starting_state(pdf, durs0)
    steps = case["run"]
    hist = [np.array(sim.current_states)]
    for _ in range(steps):
        sim.step()
        hist.append(np.array(sim.current_states))
    hist = np.array(hist)
    # hazard: reference distribution over (state, steps left)
    # probability of each state path prefix is checked by marginals
    dist = np.zeros((ns, dm + 1))
    dist += pdf[:, None] * durs0
    total = 0
    for k in range(steps + 1):
        if k:
            new = np.zeros_like(dist)
            new[:, :-1] = dist[:, 1:]
            ends = new[:, 0].copy()
            new[:, 0] = 0
            for a in range(ns):
                for b in range(ns):
                    p = ends[a] * tpm[k % nt, a, b]
                    d = durs[k % nt, a, b] if case["prev"] else durs[k % nt, b]
                    new[b] += p * d
            dist = new
        marg = dist.sum(axis=1)
        req(bool(np.all(marg[hist[k]] > 0)),
            "step %d: states %s, of which some are impossible (%s)" % (
                k, sorted(set(hist[k].tolist())), marg.tolist()))
        if n > 1000:
            p = gtest_pvalue(np.bincount(hist[k], minlength=ns), marg)
            req(p > P_REJECT, "step %d: states are %s, expected %s (p=%g)" % (
                k, np.bincount(hist[k], minlength=ns) / n, marg, p))
            total += 1
    # duration of the first stay, given the first state
    if n > 1000:
        for s in range(ns):
            sel = hist[:, hist[0] == s]
            if sel.shape[1] < 300:
                continue
            changed = np.argmax(sel != s, axis=0)     # 0: never
            obs = np.bincount(np.where(changed == 0, dm + 1, changed),
                              minlength=dm + 2)[:dm + 2]
            exp = np.zeros(dm + 2)
            for d in range(1, dm + 1):
                exp[d if d <= steps else dm + 1] += durs0[s, d]
            req(obs[exp == 0].sum() == 0, "first stays of %s steps, "
                "probabilities %s" % (obs.tolist(), exp.tolist()))
            p = gtest_pvalue(obs, exp)
            req(p > P_REJECT, "first stays last %s, expected %s" % (
                obs / obs.sum(), exp))
        if dm > 1 and total > 2:
            return ["prev" if case["prev"] else "new"]


@sub("C10", "refused_inputs", st.fixed_dictionaries({
    "ns": st.integers(2, 4), "defect": st.sampled_from(
        ["states", "sum", "none"]), "prev": st.booleans()}), 60, 500,
     rule="a defective input")
def refused(case):
    ns = case["ns"]
    rng = np.random.RandomState(ns)
    tpm = one_hot(next_maps(rng, 2, ns, False), ns)
    shape = (2, ns, ns, 3) if case["prev"] else (2, ns, 3)
    durs = np.zeros(shape)
    durs[..., 2] = 1.

    def run(durs):
        sim = SemiMarkovSimulator(2, ns, tpm, durs)
        sim.initialize_starting_state(
            np.full(ns, 1 / ns), one_hot(np.ones(ns, dtype=int), 3))
    run(durs)
    if case["defect"] == "none":
        return None
    if case["defect"] == "states":
        bad = np.zeros((2, ns + 1) + shape[2:])
        bad[..., 2] = 1.
    else:
        bad = durs * 0.8
    req(raises(ValueError, run, bad), "%s accepted" % case["defect"])
    return [case["defect"]]
