"""Synthetic data sets shared by the property modules."""
import datetime as dt

import numpy as np

TEN = dt.timedelta(minutes=10)


class StubTOU:
    """Time-of-use data set with one-hot (deterministic) matrices.

    next_state(subgroup, slot, state) gives the state reached by the step that
    ends `slot` ten-minute slots after the refresh time.
    """

    def __init__(self, labels, next_state, initial=0,
                 refresh_time=dt.time(4, 0), n_times=144, labels_of=None):
        self.labels = np.array(labels)
        self.next_state = next_state
        self.initial = initial
        self.refresh_time = refresh_time
        self.step_size = TEN
        self.n_times = n_times
        self.labels_of = labels_of
        self.asked = []

    def get_labels(self, subgroup):
        return (self.labels if self.labels_of is None
                else np.array(self.labels_of(subgroup)))

    def load_tpm(self, subgroup, **kwargs):
        self.asked.append(dict(subgroup))
        labels = self.get_labels(subgroup)
        n = len(labels)
        tpm = np.zeros((self.n_times, n, n))
        for t in range(self.n_times):
            for s in range(n):
                tpm[t, s, self.next_state(subgroup, t, s) % n] = 1.0
        pdf = np.zeros(n)
        pdf[self.initial % n] = 1.0
        return tpm, labels, pdf

    load_tpms = load_tpm

    def load_population_subgroups(self, population_type, **kwargs):
        subs = [{"n_residents": i} for i in range(1, 6)]
        return subs, np.full(5, 0.2), 1000


class StubClimate:
    """Historical climate data set held in memory."""

    country = "nowhere"

    def __init__(self, times_utc, columns, step_size):
        self.times = np.array(times_utc, dtype="datetime64[s]")
        self.columns = {k: np.array(v, dtype=float)
                        for k, v in columns.items()}
        self.step_size = step_size

    def load_historical_climate_data(self, start_datetime):
        t = start_datetime
        if t.tzinfo is not None:
            t = t.astimezone(dt.timezone.utc).replace(tzinfo=None)
        mask = self.times > np.datetime64(t - self.step_size)
        out = {k: v[mask] for k, v in self.columns.items()}
        out["datetime"] = self.times[mask]
        return out


def stub_climate(start, step, n=400, before=5):
    base = start
    if base.tzinfo is not None:
        base = base.astimezone(dt.timezone.utc).replace(tzinfo=None)
    t0 = base - before * step
    times = [t0 + i * step for i in range(n)]
    return StubClimate(times, {
        "outside_temperature": np.arange(n) * 1.0,
        "irradiance": np.arange(n) * 10.0,
    }, step)


def time_aware(kind, start, step):
    """(simulator, its step size, expected init steps or None)."""
    from demod.simulators.activity_simulators import (
        SubgroupsIndividualsActivitySimulator)
    from demod.simulators.crest_simulators import Crest4StatesModel
    from demod.simulators.weather_simulators import (
        CrestClimateSimulator, CrestIrradianceSimulator, RealClimate,
        RealInterpolatedClimate)
    minute = dt.timedelta(minutes=1)
    sod = start.hour * 60 + start.minute
    if kind == "real_climate":
        return RealClimate(stub_climate(start, step), start), step, 0
    if kind == "interpolated_climate":
        return RealInterpolatedClimate(
            stub_climate(start, 2 * step), start, step_size=step), step, 0
    if kind == "crest_climate":
        return (CrestClimateSimulator(start_datetime=start), minute, sod)
    if kind == "crest_irradiance":
        return (CrestIrradianceSimulator(start_datetime=start), minute, sod)
    if kind == "crest_4states":
        return (Crest4StatesModel(6, start_datetime=start), TEN, sod // 10)
    if kind == "activity_subgroups":
        data = StubTOU(["away", "sleeping", "x"],
                       lambda g, t, s: s + 1)
        sim = SubgroupsIndividualsActivitySimulator(
            [{"n_residents": 2}], [3], data=data, start_datetime=start)
        return sim, TEN, ((sod - 240) % 1440) // 10
    raise ValueError(kind)
