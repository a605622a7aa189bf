"""C20: simulators of recorded climates give the data of the current time."""
import datetime as dt
import warnings
import zoneinfo

import numpy as np
from hypothesis import strategies as st

from pbt.core import raises, req, req_close, req_equal, sub
from props.c19 import scratch_dataset

from demod.datasets.base_loader import ClimateLoader
from demod.simulators.weather_simulators import (
    RealClimate, RealInterpolatedClimate)

UTC = dt.timezone.utc
TZ = {"naive": None, "utc": UTC,
      "+5:30": dt.timezone(dt.timedelta(hours=5, minutes=30)),
      "-8": dt.timezone(dt.timedelta(hours=-8)),
      "berlin": zoneinfo.ZoneInfo("Europe/Berlin"),
      "new-york": zoneinfo.ZoneInfo("America/New_York")}
# no change of legal time around these days
BASES = ["2014-01-10T00:00", "2016-02-28T12:00", "2015-07-01T00:30",
         "2019-12-30T18:00"]
STEPS = [60, 600, 900, 1800, 3600, 10800, 90]


def times(case):
    """Instants of the data, in utc."""
    base = dt.datetime.fromisoformat(case["base"])
    step = dt.timedelta(seconds=case["step"])
    out, t = [], base
    for gap in case["gaps"]:
        out.append(t)
        t = t + gap * step
    return out


def values(case):
    rng = np.random.RandomState(case["seed"])
    n = len(case["gaps"])
    out = {"outside_temperature": rng.randint(-300, 350, n) / 8.,
           "precipitation": rng.randint(0, 100, n) / 8.}
    if case["irr"] in ("irradiance", "both"):
        out["irradiance"] = rng.randint(0, 8000, n) / 8.
    if case["irr"] in ("radiation_global", "both"):
        out["radiation_global"] = rng.randint(0, 8000, n) / 8.
    return out


class Stub(ClimateLoader):
    country = "nowhere"

    def __init__(self, name, case, step):
        self.DATASET_NAME = name
        self.case, self.step_size = case, step
        super().__init__()

    def _parse_historical_climate_data(self):
        return dict(values(self.case), datetime=np.array(
            times(self.case), dtype="datetime64[%s]" % self.case["unit"]))


def start_of(case):
    """(utc instant of the start, start_datetime given)"""
    span = 12 * sum(case["gaps"][:-1])
    at = case["at"] % (span + 8)
    if at > span + 4:
        at = span + 4 - at                    # before the first data
    utc = dt.datetime.fromisoformat(case["base"]) + dt.timedelta(
        seconds=case["step"]) * at / 12
    utc = utc.replace(microsecond=0)
    tz = TZ[case["tz"]]
    if tz is None:
        return utc, utc
    return utc, utc.replace(tzinfo=UTC).astimezone(tz)


def base_cases(regular, steps=STEPS):
    return {
        "base": st.sampled_from(BASES), "step": st.sampled_from(steps),
        "gaps": (st.integers(1, 30).map(lambda n: [1] * n) if regular
                 else st.lists(st.sampled_from([1, 1, 1, 2, 5]),
                               min_size=6, max_size=30)),
        # in twelfths of the step of the data
        "at": st.integers(0, 400) | st.integers(0, 30).map(
            lambda i: 12 * i),
        "irr": st.sampled_from(["irradiance", "radiation_global", "both"]),
        "tz": st.sampled_from(sorted(TZ)),
        "unit": st.sampled_from(["s", "us", "ms"]),
        "seed": st.integers(0, 10 ** 6)}


def loaded(case):
    ts = times(case)
    utc, start = start_of(case)
    step = dt.timedelta(seconds=case["step"])
    return ts, values(case), utc, start, step


@sub("C20", "loading", st.fixed_dictionaries(dict(
    base_cases(True), again=st.lists(st.integers(0, 400), max_size=3))),
     400, 8000, budget=60,
     rule="the start is inside the data, not at their first point")
def loading(case):
    tags = set()
    with scratch_dataset() as ds, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = None
        for at in [case["at"]] + case["again"]:
            c = dict(case, at=at)
            ts, vals, utc, start, step = loaded(c)
            if data is None or at % 2:
                data = Stub(ds.name, c, step)
            if utc > ts[-1]:
                req(raises(ValueError, data.load_historical_climate_data,
                           start), "data ending at %s are given from %s",
                    ts[-1], utc)
                tags.add("after-end")
                continue
            got = data.load_historical_climate_data(start)
            first = max([i for i, t in enumerate(ts) if t <= utc],
                        default=0)
            req(set(got) == set(vals) | {"datetime"}, "keys %s", set(got))
            req_equal(got["datetime"].astype("datetime64[s]").astype(str),
                      np.array(ts[first:], dtype="datetime64[s]").astype(
                          str), "times from %s" % start)
            for k, v in vals.items():
                req_equal(got[k], v[first:], "%s from %s" % (k, start))
            if first:
                tags.add("inside" if ts[first] == utc else "between")
    return sorted(tags) if tags - {"after-end"} else []


@sub("C20", "recorded", st.fixed_dictionaries(dict(
    base_cases(True), steps=st.integers(0, 25))), 500, 10000, budget=80,
     rule="some steps are inside the data")
def recorded(case):
    ts, vals, utc, start, step = loaded(case)
    tags = set()
    with scratch_dataset() as ds, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = Stub(ds.name, case, step)
        if utc < ts[0] or utc > ts[-1]:
            req(raises(Exception, RealClimate, data, start),
                "a start at %s is accepted for data from %s to %s", utc,
                ts[0], ts[-1])
            return []
        req(raises(ValueError, RealClimate, data, start, step_size=step / 2),
            "another step size is accepted")
        sim = RealClimate(data, start)
        key = ("radiation_global" if case["irr"] != "irradiance"
               else "irradiance")
        for k in range(case["steps"] + 1):
            now = utc + k * step
            i = max(j for j, t in enumerate(ts) if t <= now)
            if k:
                if now - ts[-1] >= step:
                    # nothing is recorded so late
                    try:
                        sim.step()
                    except BaseException as e:
                        if isinstance(e, KeyboardInterrupt):
                            raise
                        tags.add("end")
                        break
                    req(False, "steps to %s, after the end of the data (%s)",
                        now, ts[-1])
                sim.step()
                tags.add("stepped")
            what = "after %d steps from %s" % (k, start)
            req(sim.current_time == start + k * step, "%s: clock at %s",
                what, sim.current_time)
            req_equal(np.asarray(sim.get_outside_temperature()),
                      vals["outside_temperature"][i], what + ": temperature")
            req_equal(np.asarray(sim.get_irradiance()), vals[key][i],
                      what + ": irradiance")
    return [] if not tags else sorted(
        tags | {"tz:" + case["tz"]} | (
            {"between"} if case["at"] % 12 else set()))


def interpolate(kind, x, xs, ys):
    """Interpolation at x, None where the rule is not settled."""
    if kind == "linear":
        return np.interp(x, xs, ys)
    i = int(np.searchsorted(xs, x, side="right")) - 1
    if xs[i] == x:
        return ys[i]
    if kind == "previous":
        return ys[i]
    if kind == "next":
        return ys[i + 1]
    if kind == "nearest":
        a, b = x - xs[i], xs[i + 1] - x
        return None if abs(a - b) < 1e-6 else ys[i] if a < b else ys[i + 1]
    return None


@sub("C20", "interpolated", st.fixed_dictionaries(dict(
    base_cases(False), steps=st.integers(1, 25),
    kind=st.sampled_from(["linear", "linear", "linear", "previous", "next",
                          "nearest", "quadratic", "cubic"]),
    every=st.sampled_from([5, 1, 3, 4, 6, 12, 24, 10]),
    read=st.booleans())), 500, 10000, budget=80,
     rule="some values are between two points of the data")
def interpolated(case):
    ts, vals, utc, start, step = loaded(case)
    every = step * case["every"] / 12
    tags = set()
    with scratch_dataset() as ds, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = Stub(ds.name, case, step)
        if utc < ts[0] or utc > ts[-1]:
            req(raises(Exception, RealInterpolatedClimate, data, start,
                       step_size=every),
                "a start at %s is accepted for data from %s to %s", utc,
                ts[0], ts[-1])
            return []
        # what is before the start is not needed: the points from the last
        # one at or before the start are, and it must be near enough
        first = max(j for j, t in enumerate(ts) if t <= utc)
        needed = 4 if case["kind"] in ("quadratic", "cubic") else 2
        if utc - ts[first] >= step or len(ts) - first < needed:
            return []
        sim = RealInterpolatedClimate(
            data, start, interpolation_kind=case["kind"], step_size=every)
        xs = np.array([(t - ts[0]).total_seconds() for t in ts])
        for k in range(case["steps"] + 1):
            now = utc + k * every
            if k:
                if now > ts[-1]:
                    req(raises(Exception, sim.step),
                        "steps to %s, after the end of the data (%s)", now,
                        ts[-1])
                    tags.add("end")
                    break
                sim.step()
            what = "after %d steps from %s" % (k, start)
            req(sim.current_time == start + k * every, "%s: clock at %s",
                what, sim.current_time)
            if not (case["read"] or k == case["steps"] or k % 5 == 2):
                continue
            x = (now - ts[0]).total_seconds()
            for key, ys in vals.items():
                want = interpolate(case["kind"], x, xs, ys)
                if want is None:
                    continue
                got = getattr(sim, "get_" + key)()
                req_close(np.asarray(got), want, "%s: %s" % (what, key),
                          rtol=1e-7, atol=1e-6)
                tags.add("between" if x not in xs else "at")
    return sorted(tags | {case["kind"], "tz:" + case["tz"]}) \
        if "between" in tags else []
