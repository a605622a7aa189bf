"""C37: with the random generator seeded, simulations are reproducible.

The simulations are those of C03: every simulator with generated data and
generated configurations, and the complete one with the shipped data.
"""
import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import SUBS, Violation, req, sub
from props import c03

KINDS = {s.name: s for s in SUBS["C03"]}
SMALL = [k for k in KINDS if k not in ("load", "climate")]


def strategy(names):
    return st.one_of([st.tuples(st.just(k), KINDS[k].strategy)
                      for k in names])


def parts(name, case):
    """make, move and the getters of a generated simulation."""
    out = []
    keep = c03.compare
    c03.compare = lambda c, make, move, more=(): out.append(
        (make, move, more, c["n"])) or []
    try:
        KINDS[name].fn(case)
    finally:
        c03.compare = keep
    req(len(out) == 1, "no simulation of %s", name)
    return out[0]


def state():
    s, r = np.random.get_state(), random.getstate()
    return s, r


def restore(s):
    np.random.set_state(s[0])
    random.setstate(s[1])


def same_state(a, b):
    return (a[1] == b[1] and a[0][0] == b[0][0]
            and np.array_equal(a[0][1], b[0][1]) and a[0][2:] == b[0][2:])


class Run:
    """A simulation with random states of its own, apart from all others."""

    def __init__(self, part, seed):
        self.make, self.move, self.more, self.n = part
        c03.seed_all(seed)
        self.state = state()
        self.sim, self.k = None, 0
        self.trace = []

    def done(self):
        return self.sim is not None and self.k >= self.n

    def advance(self):
        restore(self.state)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if self.sim is None:
                self.sim = self.make()
                self.names = c03.getters_of(self.sim, self.more)
            else:
                self.move(self.sim, self.k)
                self.k += 1
            values = {}
            for g, a in self.names.items():
                try:
                    values[g] = c03.snap(c03.read(self.sim, g, a))
                except Exception as e:         # not for this simulator
                    values[g] = type(e).__name__
        self.trace.append(values)
        self.state = state()

    def all(self):
        while not self.done():
            self.advance()
        return self


def varied(trace):
    """Some value of some getter changes during the run."""
    def flat(v):
        return json.dumps(v, default=lambda x: (
            x.tolist() if isinstance(x, np.ndarray) else str(x)))
    return any(len({flat(t[g]) for t in trace}) > 1 for g in trace[0]
               if g != "get_current_time")


def alike(got, want, what):
    for i, (a, b) in enumerate(zip(got.trace, want.trace)):
        req(sorted(a) == sorted(b), "%s: %s and %s", what, a, b)
        for g in b:
            c03.same(a[g], b[g], "%s: %s after %d steps" % (what, g, i))
    req(same_state(got.state, want.state), "%s: what is drawn afterwards "
        "differs", what)


def check(case):
    (name, a), (other, b) = case["a"], case["b"]
    part = parts(name, a)
    seed = a["seed"]
    alone = Run(part, seed).all()
    second = parts(other, b)
    foreign = Run(second, seed + 1)
    if case["between"]:
        foreign.all()
    alike(Run(part, seed).all(), alone, "%s again with the same seed" % name)
    alike(Run(parts(name, a), seed).all(), alone,
          "%s with new data and the same seed" % name)
    # side by side with others, of the same data and of other ones
    runs = [Run(part, seed), Run(part, seed + 2), Run(second, seed + 1)]
    rng = np.random.RandomState(case["order"])
    while any(not r.done() for r in runs):
        left = [r for r in runs if not r.done()]
        left[rng.randint(len(left))].advance()
    alike(runs[0], alone, "%s while others (%s) are running" % (name, other))
    alike(runs[2], foreign.all(), "%s while others are running" % other)
    again = Run(part, seed + 2).all()
    alike(runs[1], again, "%s with the same seed" % name)
    # the seed is not overruled
    req(not same_state(alone.state, again.state),
        "%s: the same is drawn whatever the seed", name)
    if len(alone.trace) > 2 and varied(alone.trace):
        return [name] + ["with " + other] * (other != name)


@sub("C37", "again", st.fixed_dictionaries({
    "a": strategy(SMALL), "b": strategy(SMALL), "between": st.booleans(),
    "order": st.integers(0, 10**6)}), 250, 4000, budget=200,
     rule="values change during a run of two steps or more")
def again(case):
    return check(case)


@sub("C37", "again_whole", st.fixed_dictionaries({
    "a": strategy(["load", "climate"]), "b": strategy(["load", "climate"]),
    "between": st.booleans(), "order": st.integers(0, 10**6)}), 24, 300,
     budget=200, rule="values change during a run of two steps or more")
def again_whole(case):
    return check(case)


# --------------------------------------------------------- other processes
def listed(v):
    if isinstance(v, dict):
        return {str(k): listed(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return v.tolist() if v.dtype.kind in "bifU" else str(v)
    return v if isinstance(v, (bool, int, float)) else str(v)


def values(run):
    """The values of a run as they are sent between the processes."""
    restore(run.state)
    return json.loads(json.dumps(
        [{g: listed(v) for g, v in t.items()} for t in run.trace]
        + [{"drawn afterwards": np.random.uniform(size=3).tolist()}]))


def close(a, b):
    if isinstance(a, dict):
        return (isinstance(b, dict) and sorted(a) == sorted(b)
                and all(close(a[k], b[k]) for k in a))
    if isinstance(a, list):
        return (isinstance(b, list) and len(a) == len(b)
                and all(map(close, a, b)))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or abs(a - b) <= 1e-9 * (
            abs(a) + abs(b)) + 1e-12
    return a == b


def child():
    out = []
    cases, before = json.load(sys.stdin)
    for name, case in cases:
        if before:                     # others were simulated before
            Run(parts(name, case), case["seed"] + 5).all()
        out.append([values(Run(parts(name, case), case["seed"]).all())
                    for _ in range(2)])
    print("RESULT " + json.dumps(out))


def elsewhere(cases, hash_seed, before):
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed),
               PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
    r = subprocess.run(
        [sys.executable, "-c", "from props import c37; c37.child()"],
        input=json.dumps([cases, before]), capture_output=True, text=True, env=env,
        timeout=300)
    for line in r.stdout.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    raise Violation("no result in another process: %s" % r.stderr[-600:])


def across(case):
    """The same in other processes, which order sets differently."""
    cases = [list(c) for c in case["cases"]]
    runs = [Run(parts(name, a), a["seed"]).all() for name, a in cases]
    wants = [values(r) for r in runs]
    for h, before in case["elsewhere"]:
        gots = elsewhere(cases, h, before)
        for (name, _), want, two in zip(cases, wants, gots):
            for i, got in enumerate(two):
                req(len(got) == len(want), "%s: %d steps", name, len(got))
                for k, (x, y) in enumerate(zip(got, want)):
                    for g in y:
                        req(g in x and close(x[g], y[g]), "%s: %s after %d "
                            "steps is %s, and %s in another process (run "
                            "%d)", name, g, k, y[g], x.get(g), i + 1)
    tags = {name for (name, _), r in zip(cases, runs)
            if len(r.trace) > 2 and varied(r.trace)}
    return sorted(tags) or None


HASH = st.lists(st.tuples(st.integers(0, 4000), st.sampled_from(
    [True, True, False])), min_size=1, max_size=2)


@sub("C37", "processes", st.fixed_dictionaries({
    "cases": st.lists(strategy(SMALL + ["appliances"] * 2), min_size=6,
                      max_size=12), "elsewhere": HASH}), 24, 300, budget=200,
     rule="values change during a run of two steps or more")
def processes(case):
    return across(case)


@sub("C37", "processes_whole", st.fixed_dictionaries({
    "cases": st.lists(strategy(["load", "climate"]), min_size=1, max_size=2),
    "elsewhere": HASH}), 8, 100, budget=200,
     rule="values change during a run of two steps or more")
def processes_whole(case):
    return across(case)
