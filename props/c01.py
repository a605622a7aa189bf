"""C01: the simulated clock and step counter."""
import datetime as dt

from hypothesis import strategies as st

from pbt.core import Violation, raises, req, req_equal, sub

from demod.simulators.base_simulators import (
    ExampleSimulator, SimLogger, Simulator, TimeAwareExampleSimulator,
    TimeAwareSimulator)

EPOCH = dt.datetime(2013, 1, 1)

# seconds since EPOCH; biased to boundaries (midnight, 4 am, month ends)
starts = st.one_of(
    st.integers(0, 4 * 366 * 86400 - 1),
    st.builds(lambda d, s: max(0, d * 86400 + s), st.integers(1, 4 * 365),
              st.sampled_from([0, -1, 1, 59, 60, -60, 600, -600, 14400,
                               14399, 14401, 14400 - 600, 3600])),
)
step_sizes = st.sampled_from(
    [0.1, 0.3, 0.25, 0.5, 1, 1.5, 7, 10, 30, 37.5, 60, 61, 90, 300, 600, 601, 900, 1800, 3600, 5400, 7200,
     3 * 3600, 86400, 90000])
tzs = st.sampled_from([None, 0, 60, -330])


def mk(sec, tz):
    t = EPOCH + dt.timedelta(seconds=sec)
    if tz is not None:
        t = t.replace(tzinfo=dt.timezone(dt.timedelta(minutes=tz)))
    return t


class Probe(TimeAwareSimulator):
    """Minimal time-aware simulator recording what every step received."""

    def __init__(self, n, init_kwargs, step_args=(), step_kw=None, **kw):
        super().__init__(n, **kw)
        self.seen = []
        self.initialize_starting_state(
            *step_args, **init_kwargs, **(step_kw or {}))

    def step(self, *args, **kw):
        self.seen.append((self.current_time, args, dict(kw)))
        super().step()


@st.composite
def init_cases(draw):
    step = draw(step_sizes)
    kind = draw(st.sampled_from(["none", "time", "datetime", "same"]))
    case = {
        "start": draw(starts), "tz": draw(tzs), "step": step, "kind": kind,
        "n": draw(st.integers(1, 5)), "run": draw(st.integers(0, 40)),
        "args": draw(st.booleans()), "logger": draw(st.booleans()),
        "sts": draw(st.booleans()),
    }
    if kind == "time":
        # keep the number of initialization steps bounded
        if step >= 300:
            sod = draw(st.one_of(st.integers(0, 86399),
                                 st.integers(0, 23).map(lambda h: h * 3600)))
        else:
            back = draw(st.integers(0, int(400 * step) - 1))
            sod = (case["start"] - back) % 86400
        case["sod"] = sod
        case["us"] = draw(st.sampled_from([0, 0, 1, 250000, 999999]))
    elif kind == "datetime":
        case["back"] = draw(st.one_of(
            st.integers(0, int(60 * step)), st.integers(0, 60).map(
                lambda k: k * step)))
    return case


@sub("C01", "time_aware_initialization", init_cases(), 700, 20000,
     rule="at least one initialization step is expected, or the distance is "
          "not a multiple of the step size, or the run crosses midnight")
def time_aware_initialization(case):
    start, step = mk(case["start"], case["tz"]), dt.timedelta(
        seconds=case["step"])
    kw = {}
    if case["kind"] == "time":
        s = case["sod"]
        us = case.get("us", 0)
        t = dt.time(s // 3600, s // 60 % 60, s % 60, us)
        kw["initialization_time"] = t
        back = (dt.timedelta(seconds=case["start"] - s, microseconds=-us)
                % dt.timedelta(days=1))
    elif case["kind"] == "datetime":
        kw["initialization_time"] = start - dt.timedelta(seconds=case["back"])
        back = start - kw["initialization_time"]
    elif case["kind"] == "same":
        kw["initialization_time"] = start
        back = dt.timedelta(0)
    else:
        back = dt.timedelta(0)
    if case["sts"]:
        kw["start_time_step"] = 3      # documented as ignored
    args = (17, "x") if case["args"] else ()
    skw = {"extra": 5} if case["args"] else {}
    logger = SimLogger("current_time", "current_time_step",
                       aggregated=False) if case["logger"] else None
    sim = Probe(case["n"], kw, args, skw, start_datetime=start,
                step_size=step, logger=logger)
    n_init = back // step
    req_equal(len(sim.seen), n_init, "number of initialization steps")
    req(sim.current_time == start, "initialization ends at %s, not %s",
        sim.current_time, start)
    req(sim.current_time.tzinfo == start.tzinfo, "time zone lost")
    req_equal(sim.current_time_step, n_init, "step counter after init")
    req(sim.step_size == step, "step size changed")
    req_equal(sim.n_households, case["n"], "n_households")
    for i, (t, a, k) in enumerate(sim.seen):
        req(t == start - (n_init - i) * step,
            "initialization step %d starts at %s", i, t)
        req(tuple(a) == args and k == skw,
            "initialization step received %s %s", a, k)
    for i in range(case["run"]):
        sim.step()
        req(sim.current_time == start + (i + 1) * step,
            "after %d steps the clock shows %s", i + 1, sim.current_time)
        req_equal(sim.current_time_step, n_init + i + 1, "step counter")
    if case["logger"]:
        got = list(sim.logger.get("current_time"))
        req(got == [start + i * step for i in range(case["run"])],
            "logged clock %s", got[:5])
        req_equal(sim.logger.get("current_time_step"),
                  [n_init + i for i in range(case["run"])]
                  if case["run"] else [], "logged step counter")
    tags = []
    if n_init:
        tags.append("init steps")
    if back % step:
        tags.append("remainder")
    if (start + case["run"] * step).date() != start.date():
        tags.append("crosses midnight")
    if case["tz"] is not None and tags:
        tags.append("time zone")
    return tags


@sub("C01", "invalid_arguments_are_rejected",
     st.fixed_dictionaries({
         "what": st.sampled_from(
             ["future", "init_type", "start_type", "step_type", "n_type",
              "n_value", "sts_type", "sts_value", "logger_type", "n_ok"]),
         "v": st.integers(1, 10 ** 6), "start": starts, "step": step_sizes,
         "i": st.integers(0, 7)}), 250, 3000,
     rule="every case: one argument is invalid (or castable for n_ok)")
def invalid_arguments(case):
    start = mk(case["start"], None)
    step = dt.timedelta(seconds=case["step"])
    what, v, i = case["what"], case["v"], case["i"]
    kw = dict(start_datetime=start, step_size=step)
    if what == "future":
        fut = start + dt.timedelta(seconds=v)
        req(raises(ValueError, Probe, 1, {"initialization_time": fut}, **kw),
            "initialization time in the future accepted")
    elif what == "init_type":
        bad = [3, "04:00", 4.5, step, [1], start.date(), {}, (4, 0)][i]
        req(raises(NotImplementedError, Probe, 1,
                   {"initialization_time": bad}, **kw),
            "initialization time %r accepted", bad)
    elif what == "start_type":
        bad = [3, "2014-01-01", None, step, [1], start.date(), {},
               dt.time(4)][i]
        kw["start_datetime"] = bad
        req(raises(TypeError, TimeAwareSimulator, 1, **kw),
            "start_datetime %r accepted", bad)
    elif what == "step_type":
        bad = [3, "1", None, start, [1], start.date(), {}, 60.0][i]
        kw["step_size"] = bad
        req(raises(TypeError, TimeAwareSimulator, 1, **kw),
            "step_size %r accepted", bad)
    elif what == "n_type":
        bad = [None, "a", [1], {}, start, (1,), "", object][i]
        for cls in (Simulator, TimeAwareSimulator):
            req(raises(TypeError, cls, bad),
                "n_households %r accepted", bad)
    elif what == "n_value":
        bad = [0, -1, -v, 0.5, -0.2, "0", "-3", -1e9][i]
        for cls in (Simulator, TimeAwareSimulator):
            req(raises(ValueError, cls, bad),
                "n_households %r accepted", bad)
    elif what == "n_ok":
        good = [v, float(v), str(v), v + 0.5, True, 1, 1.0, "1"][i]
        for cls in (Simulator, TimeAwareSimulator):
            req_equal(cls(good).n_households, int(good), "n_households")
    elif what == "sts_type":
        bad = [1.0, "1", None, [1], 2.5, {}, start, step][i]
        req(raises(TypeError, Simulator(1).initialize_starting_state, bad),
            "start_time_step %r accepted", bad)
    elif what == "sts_value":
        req(raises(ValueError, Simulator(1).initialize_starting_state, -v),
            "negative start_time_step accepted")
    elif what == "logger_type":
        bad = [1, "n_households", ["n_households"], {}, SimLogger, step, 2.5,
               object()][i]
        for cls in (Simulator, TimeAwareSimulator):
            req(raises(TypeError, cls, 1, logger=bad),
                "logger %r accepted", bad)
    return [what]


@sub("C01", "plain_simulator_counter",
     st.fixed_dictionaries({"n": st.integers(1, 9), "sts": st.integers(0, 50),
                            "run": st.integers(0, 50),
                            "ex": st.booleans()}), 150, 3000,
     rule="at least one initialization step and one step")
def plain_counter(case):
    if case["ex"]:
        sim = ExampleSimulator(case["n"], 4)
        n0 = 0
        req(((sim.occupants >= 0) & (sim.occupants < 4)).all(),
            "example start state")
    else:
        n0 = case["sts"]
        sim = Simulator(case["n"])
        sim.initialize_starting_state(n0)
    req_equal(sim.current_time_step, n0, "counter after initialization")
    for i in range(case["run"]):
        sim.step(1, 0) if case["ex"] else sim.step()
        req_equal(sim.current_time_step, n0 + i + 1, "counter")
    # a second initialization starts again from zero
    if not case["ex"]:
        sim.initialize_starting_state(2)
        req_equal(sim.current_time_step, 2, "counter after re-initialization")
    if case["run"] and (n0 or case["ex"]):
        return ["steps"]


# --------------------------------------------- the concrete simulators
def _markov_loader():
    import numpy as np
    from props import lib
    return lib


KINDS = ["example_random", "example_4am", "real_climate",
         "interpolated_climate", "crest_climate", "crest_irradiance",
         "crest_4states", "activity_subgroups"]


@st.composite
def concrete_cases(draw):
    kind = draw(st.sampled_from(KINDS))
    case = {"kind": kind, "run": draw(st.integers(1, 30))}
    if kind.startswith("example"):
        case["start"] = draw(starts)
        case["step"] = draw(st.sampled_from([300, 600, 900, 3600, 5400]))
    else:
        case["start"] = draw(st.integers(366, 366 + 500)) * 86400 + draw(
            st.integers(0, 143)) * 600
        case["step"] = draw(st.sampled_from([60, 600, 1800, 3600]))
    return case


@sub("C01", "concrete_simulators", concrete_cases(), 80, 1500, budget=300,
     rule="every case: a concrete simulator is initialized and stepped")
def concrete(case):
    from props import lib
    start = mk(case["start"], None)
    step = dt.timedelta(seconds=case["step"])
    k = case["kind"]
    a = ()
    n_init = 0
    if k.startswith("example"):
        algo = "random" if k == "example_random" else "all_inside_at_4am"
        import io
        import contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            sim = TimeAwareExampleSimulator(
                3, 4, initialization_algo=algo, start_datetime=start,
                step_size=step)
        a = (0, 0)
        if k == "example_4am":
            n_init = (case["start"] - 4 * 3600) % 86400 // case["step"]
    else:
        sim, step, n_init = lib.time_aware(k, start, step)
    req(sim.current_time == start, "%s starts at %s instead of %s", k,
        sim.current_time, start)
    if n_init is not None:
        req_equal(sim.current_time_step, n_init, "%s counter" % k)
    c0 = sim.current_time_step
    for i in range(case["run"]):
        if k.startswith("example"):
            import io
            import contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                sim.step(*a)
        else:
            sim.step(*a)
        req(sim.current_time == start + (i + 1) * step,
            "%s: after %d steps the clock shows %s, expected %s", k, i + 1,
            sim.current_time, start + (i + 1) * step)
        req_equal(sim.current_time_step, c0 + i + 1, "%s counter" % k)
    return [k]
