"""C02: the simulation logger."""
import datetime as dt

import numpy as np
from hypothesis import strategies as st

from pbt.core import raises, req, req_equal, sub

from demod.simulators.base_simulators import (
    ExampleSimulator, MultiSimulator, SimLogger, Simulator,
    TimeAwareSimulator, cached_getter)

START = dt.datetime(2014, 2, 27, 23, 0)


class Recorded(TimeAwareSimulator):
    """Simulator with every kind of loggable attribute, mutated in place."""

    def __init__(self, n, n_init, incs, step, **kw):
        super().__init__(n, start_datetime=START, step_size=step, **kw)
        self.values = np.arange(n)
        self.parts = {"a": np.zeros(n), "b": np.arange(n) * 2.5}
        self.scalar = 1.5
        self.incs = incs
        self.done = 0
        self.initialize_starting_state(
            initialization_time=START - n_init * step)

    def step(self):
        inc = self.incs[self.done % len(self.incs)]
        self.done += 1
        self.values += inc                      # in place
        self.parts["a"] += inc
        self.parts["b"] *= -1
        self.scalar += 0.5
        super().step()

    def get_values(self):
        return self.values

    @cached_getter
    def get_cached(self):
        return self.values * 2

    def get_parts(self):
        return self.parts

    def get_scalar(self):
        return self.scalar


def model(n, incs, k):
    """State after k steps in total."""
    v = np.arange(n)
    a = np.zeros(n)
    b = np.arange(n) * 2.5
    for i in range(k):
        v = v + incs[i % len(incs)]
        a = a + incs[i % len(incs)]
        b = b * -1
    return v, a, b, 1.5 + 0.5 * k


ATTRS = ["values", "get_values", "get_cached", "get_parts", "parts",
         "get_scalar", "scalar", "n_households", "current_time",
         "current_time_step"]


def expected(attr, agg, n, incs, k, n_init, step):
    v, a, b, s = model(n, incs, k)
    if attr in ("values", "get_values"):
        out = v
    elif attr == "get_cached":
        out = v * 2
    elif attr in ("get_parts", "parts"):
        out = {"a": a, "b": b}
    elif attr in ("get_scalar", "scalar"):
        out = s
    elif attr == "n_households":
        out = n
    elif attr == "current_time":
        return START + (k - n_init) * step
    else:
        out = k
    if agg:
        if isinstance(out, dict):
            return {key: x.sum() for key, x in out.items()}
        return np.sum(out)
    return out


def compare(logger, attrs, aggs, n, incs, n_init, run, step, what,
            order=None):
    for attr, agg in (order or list(zip(attrs, aggs))):
        got = logger.get(attr)
        want = [expected(attr, agg, n, incs, n_init + i, n_init, step)
                for i in range(run)]
        if attr in ("get_parts", "parts"):
            if run == 0:
                req(all(len(x) == 0 for x in got.values())
                    if isinstance(got, dict) else len(got) == 0,
                    "%s: records of %s before the first step", what, attr)
                continue
            req(isinstance(got, dict) and set(got) == {"a", "b"},
                "%s: %s logged as %r", what, attr, type(got))
            for key in got:
                req_equal(got[key], [w[key] for w in want],
                          "%s: log of %s[%s]" % (what, attr, key))
        else:
            req(len(got) == run, "%s: %d records of %s for %d steps", what,
                len(got), attr, run)
            if run:
                req_equal(got, want, "%s: log of %s" % (what, attr))


@st.composite
def log_cases(draw):
    attrs = draw(st.lists(st.sampled_from(ATTRS), min_size=1, max_size=5,
                          unique=True))
    mode = draw(st.sampled_from(["default", "bool", "list"]))
    if mode == "bool":
        agg = draw(st.booleans())
    elif mode == "list":
        agg = [False if a == "current_time" else draw(st.booleans())
               for a in attrs]
    else:
        agg = None
    n = draw(st.integers(1, 4))
    return {
        "attrs": attrs, "agg": agg, "varargs": draw(st.booleans()),
        "n": n, "n_init": draw(st.integers(0, 6)),
        "run": draw(st.integers(0, 12)), "run2": draw(st.integers(0, 6)),
        "again": draw(st.booleans()), "step": draw(
            st.sampled_from([60, 600, 3600])),
        "incs": draw(st.lists(st.lists(st.integers(-3, 3), min_size=n,
                                       max_size=n), min_size=1, max_size=5)),
    }


def make_logger(case):
    kw = {} if case["agg"] is None else {"aggregated": case["agg"]}
    attrs = list(case["attrs"])
    lg = (SimLogger(*attrs, **kw) if case["varargs"]
          else SimLogger(attrs, **kw))
    # the logger keeps its own copy of what it was given
    attrs.append("bogus")
    if isinstance(case["agg"], list):
        kw["aggregated"][0] = kw["aggregated"][0]
    if case["agg"] is None or isinstance(case["agg"], bool):
        a = True if case["agg"] is None else case["agg"]
        aggs = [False if x == "current_time" else a for x in case["attrs"]]
    else:
        aggs = list(case["agg"])
    return lg, aggs


@sub("C02", "records_match_model", log_cases(), 900, 20000,
     rule="at least two steps are logged")
def records(case):
    lg, aggs = make_logger(case)
    step = dt.timedelta(seconds=case["step"])
    incs = [np.array(i) for i in case["incs"]]
    n, ni, run = case["n"], case["n_init"], case["run"]
    sim = Recorded(n, ni, incs, step, logger=lg)
    attrs = case["attrs"]
    for i in range(run):
        sim.step()
    compare(sim.logger, attrs, aggs, n, incs, ni, run, step, "run")
    # reading (in another order) and damaging what was read is harmless
    for a in attrs[::-1]:
        out = sim.logger.get(a)
        for x in (out.values() if isinstance(out, dict) else [out]):
            if x.dtype != object:
                x *= 0
    # damaging what the simulator shows must not reach into the log either
    compare(sim.logger, attrs, aggs, n, incs, ni, run, step, "read again",
            list(zip(attrs, aggs))[::-1])
    if len(attrs) == 1:
        out = sim.logger.get()
        ref = sim.logger.get(attrs[0])
        if not isinstance(ref, dict):
            req_equal(out, ref, "get() of a single attribute")
    else:
        req(raises(ValueError, sim.logger.get),
            "get() without attribute on %d attributes", len(attrs))
    for bad in ("bogus", "", "get_bogus"):
        req(raises(ValueError, sim.logger.get, bad), "unknown attribute")
        req(raises(ValueError, sim.logger.clear, bad), "unknown attribute")
    # continued run
    for i in range(case["run2"]):
        sim.step()
    compare(sim.logger, attrs, aggs, n, incs, ni, run + case["run2"], step,
            "continued")
    # the logger of the user is untouched
    for a in attrs:
        got = lg.get(a)
        req(len(got) == 0, "user's logger was written to: %s", a)
    req(sim.logger is not lg, "simulator uses the user's logger")
    # reset
    if case["again"]:
        sim.logger.clear(attrs[0])
        req(len(sim.logger.get(attrs[0])) == 0, "clear(attribute)")
        for a, g in list(zip(attrs, aggs))[1:]:
            compare(sim.logger, [a], [g], n, incs, ni, run + case["run2"],
                    step, "other attribute cleared")
        sim.logger.clear()
        for a in attrs:
            req(len(sim.logger.get(a)) == 0, "clear()")
        # a new initialization starts a new log
        sim.initialize_starting_state()
        for i in range(3):
            sim.step()
        for a in attrs:
            got = sim.logger.get(a)
            for x in (got.values() if isinstance(got, dict) else [got]):
                req(len(x) == 3, "re-initialized logger has %d records of %s"
                    " for 3 steps", len(x), a)
    tags = []
    if run >= 2:
        tags.append("logged")
        if ni:
            tags.append("after init steps")
        if {"parts", "get_parts"} & set(attrs):
            tags.append("dict attribute")
        if False in aggs and True in aggs:
            tags.append("mixed aggregation")
    return tags


@sub("C02", "long_records", st.tuples(log_cases(), st.integers(100, 700)),
     25, 500, rule="at least two steps are logged")
def long_records(case):
    """Hundreds of steps."""
    return records(dict(case[0], run=case[1]))


@sub("C02", "copy_and_merge", st.tuples(log_cases(), log_cases(),
                                        st.integers(0, 3)), 300, 5000,
     rule="two loggers with different attributes are merged or refused")
def copy_merge(cases):
    c1, c2, extra = cases
    c2 = dict(c2)
    keep = [i for i, a in enumerate(c2["attrs"]) if a not in c1["attrs"]]
    if not keep:
        return None
    if isinstance(c2["agg"], list):
        c2["agg"] = [c2["agg"][i] for i in keep]
    c2["attrs"] = [c2["attrs"][i] for i in keep]
    step = dt.timedelta(seconds=c1["step"])
    incs = [np.array(i) for i in c1["incs"]]
    n, ni, run = c1["n"], c1["n_init"], c1["run"]
    l1, g1 = make_logger(c1)
    l2, g2 = make_logger(c2)
    # copies of loggers are equivalent and empty
    s1 = Recorded(n, ni, incs, step, logger=l1.copy())
    s2 = Recorded(n, ni, incs, step, logger=l2.copy())
    for i in range(run):
        s1.step()
        s2.step()
    for i in range(extra):
        s2.step()
    if extra:
        req(raises(ValueError, lambda: s1.logger + s2.logger),
            "loggers of different lengths merged")
        compare(s1.logger, c1["attrs"], g1, n, incs, ni, run, step,
                "after refused merge")
        return ["refused"]
    for bad in (3, None, "x", [l2]):
        req(raises(TypeError, lambda: s1.logger + bad),
            "merged with %r", bad)
    # the copy of a used logger is empty
    cp1, cp2 = s1.logger.copy(), l2.copy()
    for a in c1["attrs"]:
        req(len(cp1.get(a)) == 0, "copy of a used logger is not empty")
    m = cp1 + cp2
    compare(m, c1["attrs"] + c2["attrs"], g1 + g2, n, incs, ni, 0, step,
            "merged copies")
    merged = s1.logger + s2.logger
    compare(merged, c1["attrs"] + c2["attrs"], g1 + g2, n, incs, ni, run,
            step, "merged")
    compare(s2.logger, c2["attrs"], g2, n, incs, ni, run, step,
            "merged-in logger")
    # the merged logger can be given to a new simulator
    s3 = Recorded(n, ni, incs, step, logger=merged)
    for i in range(run):
        s3.step()
    compare(s3.logger, c1["attrs"] + c2["attrs"], g1 + g2, n, incs, ni, run,
            step, "copy of merged logger")
    return ["merged"]


@sub("C02", "invalid_loggers", st.fixed_dictionaries({
    "i": st.integers(0, 5), "what": st.sampled_from(
        ["attrs", "agg_len", "agg_type"]),
    "attrs": st.lists(st.sampled_from(ATTRS), min_size=1, max_size=4,
                      unique=True), "d": st.integers(1, 3)}), 100, 1000,
     rule="every case: one argument of the logger is invalid")
def invalid(case):
    i, attrs = case["i"], case["attrs"]
    if case["what"] == "attrs":
        bad = [None, 3, tuple(attrs), {"a": 1}, 2.5, set(attrs)][i]
        req(raises(TypeError, SimLogger, bad), "attributes %r", bad)
    elif case["what"] == "agg_len":
        for k in (len(attrs) + case["d"], max(0, len(attrs) - case["d"])):
            req(raises(ValueError, SimLogger, attrs, aggregated=[True] * k),
                "aggregated of wrong length accepted")
    else:
        bad = [None, 3, "yes", {"a": 1}, 2.5, (True,)][i]
        req(raises(TypeError, SimLogger, attrs, aggregated=bad),
            "aggregated %r", bad)
    return [case["what"]]


@sub("C02", "multi_simulator_log", st.fixed_dictionaries({
    "sizes": st.lists(st.integers(1, 4), min_size=1, max_size=4),
    "run": st.integers(0, 10), "agg": st.booleans(),
    "inc": st.lists(st.integers(0, 3), min_size=16, max_size=16)}),
     200, 3000, rule="at least two sub-simulators and two steps")
def multi_log(case):
    class Ex(ExampleSimulator):
        def get_occupants(self):
            return self.occupants

    sims = [Ex(n, 4) for n in case["sizes"]]
    multi = MultiSimulator(sims, logger=SimLogger(
        "get_occupants", "n_households", aggregated=case["agg"]))
    multi.initialize_starting_state()
    n = sum(case["sizes"])
    cur = np.concatenate([s.occupants.copy() for s in sims])
    want = []
    for i in range(case["run"]):
        want.append(cur.sum() if case["agg"] else cur)
        inc = np.array(case["inc"][:n]) + i
        dec = np.array(case["inc"][::-1][:n])
        multi.step(inc, leaving=dec)
        cur = cur + inc - dec
    got = multi.logger.get("get_occupants")
    req(len(got) == case["run"], "%d records for %d steps", len(got),
        case["run"])
    if want:
        req_equal(got, want, "logged occupants")
        req_equal(multi.logger.get("n_households"), [n] * case["run"],
                  "n_households")
    if len(sims) > 1 and case["run"] > 1:
        return ["multi"]
