"""C21: the stochastic climate: sun, clearness and temperature."""
import datetime as dt
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_close, sub)

from demod.simulators.weather_simulators import (
    CrestClimateSimulator, CrestIrradianceSimulator)

MIN = dt.timedelta(minutes=1)


class Data:
    def __init__(self, case):
        self.case = case

    def load_geographic_data(self):
        c = self.case
        return {"country": "here", "longitude": c["lon"],
                "latitude": c["lat"], "meridian": c["meridian"],
                "use_daylight_saving_time": c["dst"]}

    def load_clearness_tpms(self):
        tpm, values = chain(self.case)
        return tpm, values, dt.timedelta(minutes=self.case.get("step", 1))

    def load_temperatures_arma(self):
        return dict(self.case["arma"])


def chain(case):
    vals = np.array(case["values"]) / 100.
    n = len(vals)
    if case["chain"] == "stay":
        return np.eye(n), vals
    if case["chain"] == "cycle":
        return np.roll(np.eye(n), 1, axis=1), vals
    rng = np.random.RandomState(case["seed"])
    tpm = rng.dirichlet(np.full(n, .7), n)
    return tpm, vals


# ----------------------------------------------- the sun, written anew
def solar(t, lat, lon, meridian, dst):
    """Clear sky irradiance [W/m2] on the horizontal at legal time t."""
    doy = t.timetuple().tm_yday
    b = math.radians(360. * (doy - 81) / 364)
    equation = (9.87 * math.sin(2 * b) - 7.53 * math.cos(b)
                - 1.5 * math.sin(b))
    minutes = t.hour * 60 + t.minute
    if dst and 87 <= doy < 304:
        minutes -= 60
    # 4 minutes for each degree away from the meridian of the legal time
    solar_time = minutes + 4 * (lon - meridian) + equation
    angle = math.radians((720 - solar_time) / 4.)
    decl = math.radians(
        23.45 * math.sin(2 * math.pi * (284 + doy) / 365.25))
    phi = math.radians(lat)
    height = (math.cos(phi) * math.cos(decl) * math.cos(angle)
              + math.sin(phi) * math.sin(decl))
    if height <= 0:
        return 0.
    return beyond(doy) * height * math.exp(-(
        0.174 + 0.035 * math.sin(2 * math.pi * (doy - 100) / 365)) / height)


def beyond(doy):
    """Irradiance out of the atmosphere."""
    return 1367. * (1 + 0.034 * math.cos(2 * math.pi * doy / 365.25))


place = {
    "lat": st.floats(-60, 60) | st.floats(-89, 89)
    | st.sampled_from([52.5, 46.5, 0., 59.9, 63.4, 65., 66.2, 69.6, 78.2]),
    "lon": st.floats(-20, 20), "meridian": st.sampled_from([0., 15., -15.]),
    "dst": st.booleans(),
    "values": st.lists(st.integers(1, 110), min_size=1, max_size=5,
                       unique=True),
    "init": st.integers(0, 4), "seed": st.integers(0, 10 ** 6),
    # the limits of the summer time, new year and any day
    "day": st.sampled_from([1, 86, 87, 88, 303, 304, 305, 365])
    | st.integers(1, 365),
    "year": st.sampled_from([2014, 2016]),
    "minute": st.integers(0, 1439) | st.sampled_from([0, 1, 719, 1439])}


def start_of(case):
    return dt.datetime(case["year"], 1, 1) + dt.timedelta(
        days=case["day"] - 1, minutes=case["minute"])


def clearness_after(case, k):
    """Clearness after k transitions from the initial state."""
    i, n = case["init"] % len(case["values"]), len(case["values"])
    return case["values"][(i + k * (case["chain"] == "cycle")) % n] / 100.


def sun_at(case, t):
    return solar(t, case["lat"], case["lon"], case["meridian"], case["dst"])


def check_irradiance(case, got, t, step, c, what):
    """At clock t: the sun of t, or of the step that has just ended."""
    got = np.asarray(got, float)
    req(got.shape == (), "%s: irradiance %s", what, got)
    want = [sun_at(case, u) * c for u in (t - step, t)]
    req(any(abs(got - w) <= 1e-6 * max(1., abs(w)) for w in want),
        "%s: irradiance %s, expected %s (or %s)", what, got, want[0],
        want[1])


@sub("C21", "sun", st.fixed_dictionaries(dict(
    place, chain=st.sampled_from(["stay", "cycle"]),
    step=st.sampled_from([1, 1, 1, 5, 10, 30]), steps=st.integers(0, 300))),
     400, 5000, budget=90,
     rule="the sun is up at some read")
def sun(case):
    step = case["step"] * MIN
    start = start_of(case)
    start -= (start - start.replace(hour=0, minute=0)) % step
    up = tags = 0
    init = case["values"][case["init"] % len(case["values"])] / 100.
    sim = CrestIrradianceSimulator(Data(case), init, start)
    req(raises(ValueError, CrestIrradianceSimulator, Data(case), init,
               start, step_size=step * 2), "another step size is accepted")
    done = (start - start.replace(hour=0, minute=0)) // step
    for k in range(case["steps"] + 1):
        if k:
            sim.step()
        t = start + k * step
        what = "at %s" % t
        req(sim.current_time == t, "%s: clock at %s", what, sim.current_time)
        c = clearness_after(case, done + k)
        req_close(sim.get_current_clearness(), c, what + ": clearness")
        if done + k == 0:
            # the simulation has not made any step from midnight yet
            req(float(sim.get_irradiance()) == 0, "%s: irradiance %s", what,
                sim.get_irradiance())
        else:
            check_irradiance(case, sim.get_irradiance(), t, step, c, what)
        up += sun_at(case, t) > 0
    midnight = (start + case["steps"] * step).date() != start.date()
    return [] if not up else ["up"] + ["midnight"] * midnight + (
        ["summer-time"] if case["dst"] else []) + [case["chain"]]


@sub("C21", "clearness", st.fixed_dictionaries(dict(
    place, chain=st.just("random"))), 12, 150, budget=60,
     rule="at least two clearness values")
def clearness(case):
    if len(case["values"]) < 2:
        return []
    tpm, vals = chain(case)
    init = vals[case["init"] % len(vals)]
    sim = CrestIrradianceSimulator(
        Data(case), init, start_of(case).replace(hour=0, minute=0))
    counts = np.zeros_like(tpm)
    prev = case["init"] % len(vals)
    for k in range(4000):
        sim.step()
        now = int(np.flatnonzero(vals == sim.get_current_clearness())[0])
        counts[prev, now] += 1
        prev = now
    req(not np.any(counts[tpm == 0]), "impossible transition")
    for i in range(len(vals)):
        p = gtest_pvalue(counts[i], tpm[i])
        req(p > P_REJECT, "clearness leaves %s as %s, matrix %s (p=%g)",
            vals[i], counts[i], tpm[i], p)
    return ["random"]


# ------------------------------------------------------------ temperature
ARMA = st.fixed_dictionaries({
    "T_mean": st.integers(-50, 250).map(lambda x: x / 10.),
    "T_std": st.integers(0, 150).map(lambda x: x / 10.),
    "T_shift": st.integers(-180, 180).map(float),
    "AR": st.sampled_from([0., .5, .81, .95]),
    "MA": st.sampled_from([0., .1, .4]),
    "SD": st.sampled_from([0., 1.12, 3.])})


def yearly(arma, doy):
    return arma["T_mean"] + arma["T_std"] * math.sin(
        2 * math.pi * (doy + arma["T_shift"]) / 365.)


def read_day(case, t0, irr, temp, what):
    """Check a day of temperatures; returns (daily mean, excess of range)."""
    doy = t0.timetuple().tm_yday
    light = irr > 0
    req(np.all(np.isfinite(temp)), "%s: temperature not finite", what)
    if not light.any():
        req(np.all(temp == temp[0]), "%s: temperatures from %s to %s "
            "without any sun", what, temp.min(), temp.max())
        return float(temp[0]), None
    ratio = np.where(light, np.cumsum(irr), np.nan) / (
        beyond(doy) * np.cumsum(light).clip(1))
    top = int(np.nanargmax(ratio))
    # the cooling of the night starts with the last minute of the day
    sunset = light & ~np.roll(light, -1)
    day = light & ~sunset
    day[top] = True
    first = np.flatnonzero(day[:top + 1])
    ref = first[int(np.argmin(ratio[first]))]
    q = ratio[ref] / ratio[top]
    if sunset[top] or q > 1 - 1e-4 or ratio[top] < 1e-250:
        return None
    hot = temp[top]
    cold = (temp[ref] - hot * q) / (1 - q)
    span = hot - cold
    tol = dict(rtol=1e-6, atol=1e-6 / (1 - q))
    x = np.arange(len(irr))
    want = np.where(x <= top, cold + span * ratio / ratio[top],
                    hot - 1.7 * span / ratio[top] * (ratio[top] - ratio))
    for part, mask in (("morning", day & (x <= top)),
                       ("afternoon", day & (x > top))):
        req_close(temp[mask], want[mask], what + ": temperature of the "
                  + part, **tol)
    kinds = ["polar-day"] if light.all() else []
    if len(case["values"]) == 1 or case["chain"] == "stay":
        # steady cooling, from each evening to the next sunrise
        for down in np.flatnonzero(sunset):
            n = int(np.argmax(np.roll(light, -down - 1)))
            rate = (want[down] - want[(down + 1 + n) % len(irr)]) / n
            if light[down - 1]:
                night = temp[(down - 1 + np.arange(n + 2)) % len(irr)]
                req_close(night - night[0], -rate * np.arange(n + 2),
                          what + ": cooling of the night", rtol=1e-5,
                          atol=1e-5 / (1 - q))
            if down < 1439 and not light[-1] and light[0]:
                kinds.append("two-nights")
            elif light[0] and light[-1]:
                kinds.append("late-sunset")
    received = irr.sum() / 60. / 1000.             # kWh/m2
    return (hot + cold) / 2, span - (
        20 * math.log10(received + 2.5) - 7), kinds, 1 / (1 - q)


def whole_days(sim, start, n):
    """irr, temp at the minutes of the n whole days after start."""
    first = (start + dt.timedelta(days=1) - MIN).replace(hour=0, minute=0)
    while sim.current_time < first:
        sim.step()
    irr, temp = np.zeros((n, 1440)), np.zeros((n, 1440))
    for d in range(n):
        for m in range(1440):
            if d or m:
                sim.step()
            irr[d, m] = sim.get_irradiance()
            temp[d, m] = sim.get_outside_temperature()
    return first, irr, temp


@sub("C21", "weather", st.fixed_dictionaries(dict(
    place, chain=st.sampled_from(["stay", "cycle"]), arma=ARMA,
    days=st.integers(1, 3))), 150, 1500, budget=120,
     rule="a whole day is simulated")
def weather(case):
    start = start_of(case)
    midnight = start.replace(hour=0, minute=0)
    init = case["values"][case["init"] % len(case["values"])] / 100.
    sim = CrestClimateSimulator(Data(case), start, init)
    req(sim.current_time == start, "clock at %s after starting at %s",
        sim.current_time, start)
    k0 = (start - midnight) // MIN
    if k0:
        check_irradiance(case, sim.get_irradiance(), start, MIN,
                         clearness_after(case, k0), "at %s" % start)
    first, irr, temp = whole_days(sim, start, case["days"])
    tags = set()
    for d in range(case["days"]):
        for m in range(1440):
            t = first + dt.timedelta(days=d, minutes=m)
            k = (t - midnight) // MIN
            if k:
                check_irradiance(case, irr[d, m], t, MIN,
                                 clearness_after(case, k), "at %s" % t)
        t0 = first + dt.timedelta(days=d)
        out = read_day(case, t0, irr[d], temp[d], "on %s" % t0.date())
        if out is None:
            continue
        mean, excess, *more = out
        tags.add("whole-day" if more else "no-sun")
        scale = 1e-5
        if more:
            tags.update(more[0])
            scale *= more[1]
            req(abs(excess) < 7.5 + scale, "on %s: daily range %s away from "
                "the expected one", t0.date(), excess)
        want = yearly(case["arma"], t0.timetuple().tm_yday)
        a = case["arma"]
        if a["SD"] == 0:
            req_close(mean, want, "mean temperature of %s" % t0.date(),
                      rtol=1e-5, atol=scale)
            tags.add("no-noise")
        else:
            sd = a["SD"] * (1 + a["AR"] / math.sqrt(1 - a["AR"] ** 2)
                            + a["MA"])
            req(abs(mean - want) < 8 * sd, "on %s: daily mean %s, expected "
                "about %s", t0.date(), mean, want)
    return sorted(tags)


@sub("C21", "noise", st.fixed_dictionaries({
    "model": st.sampled_from([(.9, -.8), (.9, -.8), (0., .9), (.9, .45),
                              (.5, -.9), (.9, 0.)]),
    "SD": st.sampled_from([.5, 2.]), "seed": st.integers(0, 10 ** 6)}),
     8, 48, budget=100, rule="any")
def noise(case):
    from scipy.stats import chi2, norm
    AR, MA = case["model"]
    arma = {"T_mean": 10., "T_std": 5., "T_shift": -80.,
            "AR": AR, "MA": MA, "SD": case["SD"]}
    c = {"lat": 45., "lon": 0., "meridian": 0., "dst": False,
         "values": [80], "init": 0, "chain": "stay", "seed": 0,
         "arma": arma}
    start = dt.datetime(2014, 2, 1)
    means, spans = [], []
    n = 450
    sim = CrestClimateSimulator(Data(c), start, .8)
    first, irr, temp = whole_days(sim, start, n)
    for d in range(n):
        t0 = first + dt.timedelta(days=d)
        mean, excess, *_ = read_day(c, t0, irr[d], temp[d], "on %s" % t0.date())
        means.append(mean - yearly(arma, t0.timetuple().tm_yday))
        spans.append(excess)
    # innovations of the model
    r, ar, out = 0., 0., []
    for x in means:
        new = x - AR * ar - MA * r
        ar = AR * ar + new
        r = new
        out.append(new)
    z = np.array(out[80:]) / case["SD"]
    for name, v in (("daily means", z), ("daily ranges", np.array(spans))):
        s = float((v ** 2).sum())
        p = 2 * min(chi2.cdf(s, len(v)), chi2.sf(s, len(v)))
        req(p > P_REJECT, "%s: variance of the noise %s, expected 1 (p=%g)",
            name, s / len(v), p)
        top = float(np.abs(v).max())
        p = (1. - 2. * norm.sf(top)) ** len(v)
        req(p > P_REJECT, "%s: %d normal deviations, but none above %s "
            "(p=%g)", name, len(v), top, p)
        for lag in (1, 2):
            w = float((v[lag:] * v[:-lag]).sum() / math.sqrt(len(v) - lag))
            p = 2 * norm.sf(abs(w) / max(1., s / len(v)))
            req(p > P_REJECT, "%s: days at distance %d are correlated: %s "
                "(p=%g)", name, lag, w, p)
    return ["AR%s" % AR, "MA%s" % MA]
