"""C04: day, 4 am and refresh-time callbacks."""
import datetime as dt
from types import SimpleNamespace

from hypothesis import strategies as st

from pbt.core import req, sub

from demod.simulators import base_simulators as bs
from demod.simulators.base_simulators import Callbacks, TimeAwareSimulator

EPOCH = dt.datetime(2013, 1, 1)
KINDS = ["before_next_day", "after_next_day", "before_next_day_4am",
         "after_next_day_4am", "before_refresh_time", "after_refresh_time"]


def make(kinds, legacy, refresh):
    """Class whose step is decorated with all the kinds."""

    class Sim(TimeAwareSimulator):
        def __init__(self, **kw):
            super().__init__(1, **kw)
            self.data = SimpleNamespace(refresh_time=refresh)
            self.events = []
            self.i = -1
            self.in_step = None
            self.initialize_starting_state()

        def plain_step(self, *args, **kw):
            self.got = (args, kw)
            self.events.append(("step", self.i, self.current_time))
            TimeAwareSimulator.step(self)
            return "out"

    def event(kind):
        def on(self):
            self.events.append((kind, self.i, self.current_time))
        return on

    for k in KINDS:
        setattr(Sim, "on_" + k, event(k))
    step = Sim.plain_step
    for k in kinds:
        deco = getattr(Callbacks, k)
        if legacy and "refresh" not in k:
            deco = getattr(bs, k.replace("next_day_4am", "X").replace(
                "next_day", "next_day_callback").replace(
                "X", "next_day_callback_4am"))
        step = deco(step)
    Sim.step = step
    return Sim


@st.composite
def cases(draw):
    step = draw(st.sampled_from(
        [60, 300, 600, 601, 900, 1000, 1800, 3600, 5400, 7200, 10800, 14399,
         14400, 36000, 43200, 86399, 86400]))
    sod = draw(st.one_of(
        st.integers(0, 86399),
        st.builds(lambda k, o: (k * step + o) % 86400, st.integers(0, 200),
                  st.sampled_from([0, 0, 14400, 14400 - step])),
        st.builds(lambda b, o: (b + o) % 86400,
                  st.sampled_from([0, 14400]), st.integers(-step, step))))
    day = draw(st.one_of(
        st.integers(0, 4 * 365),
        # last days of months / years / leap february
        st.sampled_from([30, 31 + 27, 31 + 28, 89, 364, 365 + 31 + 27,
                         365 * 2 + 364, 365 * 3 + 31 + 27,
                         365 * 3 + 31 + 28, 365 * 3 + 365])))
    if draw(st.booleans()):
        refresh = draw(st.sampled_from([0, 14400, 14400, 3600, 43200]))
    else:
        refresh = draw(st.integers(0, 86399))
    kinds = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=4,
                          unique=True))
    max_steps = max(3, min(150, int(3.2 * 86400 / step)))
    return {"step": step, "start": day * 86400 + sod, "refresh": refresh,
            "kinds": kinds, "legacy": draw(st.booleans()),
            "tz": draw(st.sampled_from([None, None, 60, -300])),
            "run": draw(st.integers(1, max_steps))}


def n_boundaries(a, b, offset):
    """Number of instants  k*day+offset  in (a, b] (naive datetimes)."""
    day = dt.timedelta(days=1)
    o = dt.timedelta(seconds=offset)
    return (b - EPOCH - o) // day - (a - EPOCH - o) // day


@sub("C04", "callbacks_fire_at_crossings", cases(), 1500, 40000,
     rule="at least one of the decorated callbacks has to fire")
def callbacks(case):
    r = case["refresh"]
    refresh = dt.time(r // 3600, r // 60 % 60, r % 60)
    step = dt.timedelta(seconds=case["step"])
    naive = EPOCH + dt.timedelta(seconds=case["start"])
    start = naive if case["tz"] is None else naive.replace(
        tzinfo=dt.timezone(dt.timedelta(minutes=case["tz"])))
    sim = make(case["kinds"], case["legacy"], refresh)(
        start_datetime=start, step_size=step)
    fired = 0
    for i in range(case["run"]):
        sim.i = i
        sim.events = []
        out = sim.step(i, key=i)
        req(out == "out" and sim.got == ((i,), {"key": i}),
            "the decorated step lost its arguments or return value")
        t, u = naive + i * step, naive + (i + 1) * step
        pos = [k for k, e in enumerate(sim.events) if e[0] == "step"]
        req(len(pos) == 1, "step ran %d times", len(pos))
        for kind in KINDS:
            got = [k for k, e in enumerate(sim.events) if e[0] == kind]
            if kind not in case["kinds"]:
                want = 0
            elif "refresh" in kind:
                # first step that starts at or after the refresh time
                want = n_boundaries(t - step, t, r)
            elif "4am" in kind:
                want = n_boundaries(t, u, 4 * 3600)
            else:
                want = n_boundaries(t, u, 0)
            req(len(got) == want,
                "%s fired %d times instead of %d in the step %s -> %s "
                "(refresh time %s)", kind, len(got), want, t, u, refresh)
            for k in got:
                before = kind.startswith("before")
                req((k < pos[0]) == before, "%s called on the wrong side of "
                    "the step", kind)
                now = sim.events[k][2].replace(tzinfo=None)
                req(now == (t if before else u),
                    "%s: clock shows %s during step %s -> %s", kind, now, t,
                    u)
            fired += want
    tags = []
    if fired:
        tags.append("fires")
        if naive.month != (naive + case["run"] * step).month:
            tags.append("crosses month end")
        if case["start"] % case["step"]:
            tags.append("unaligned")
        if case["step"] > 3600:
            tags.append("long steps")
        tags += case["kinds"]
    return tags


@sub("C04", "undefined_callbacks_are_reported", st.fixed_dictionaries({
    "kind": st.sampled_from(KINDS), "day": st.integers(0, 1000)}), 40, 200,
     rule="every case: the callback is not implemented by the simulator")
def undefined(case):
    class Sim(TimeAwareSimulator):
        data = SimpleNamespace(refresh_time=dt.time(4))

        def step(self):
            super().step()
    Sim.step = getattr(Callbacks, case["kind"])(Sim.step)
    sim = Sim(1, start_datetime=EPOCH + dt.timedelta(days=case["day"]),
              step_size=dt.timedelta(hours=2))
    sim.initialize_starting_state()
    try:
        for _ in range(13):
            sim.step()
    except NotImplementedError:
        return [case["kind"]]
    req(False, "missing on_%s was not reported", case["kind"])
