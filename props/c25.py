"""C25: lighting follows presence, daylight and the bulbs of each household."""
import numpy as np
import scipy.stats
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_close,
                      req_equal, sub)

from demod.simulators.lighting_simulators import (CrestLightingSimulator,
                                                  FisherLightingSimulator)
from demod.simulators.base_simulators import SimLogger


class FisherData:
    def __init__(self, lo, hi, use):
        self.d = {"irradiation_threshold_min": lo,
                  "irradiation_threshold_max": hi,
                  "individual_light_use": use}

    def load_fisher_lighting(self):
        return dict(self.d)


class BulbData:
    def __init__(self, configs=None, calibration=1e9, effective=(0, 1.),
                 low=(1,), high=(1,), pdf=(1.,), mean=60., std=0.,
                 bulbs=None, stats=None):
        self.configs, self.bulbs, self.stats = configs, bulbs, stats
        self.d = {
            "calibration_scalar": calibration,
            "effective_occupancy": np.asarray(effective, float),
            "durations_cdf": np.cumsum(np.asarray(pdf, float)),
            "durations_minutes_low": np.asarray(low, float),
            "durations_minutes_high": np.asarray(high, float),
            "irradiance_threshold_mean": mean,
            "irradiance_threshold_std": std}
        self.d["durations_cdf"][-1] = 1.

    def load_crest_lighting(self):
        return {k: (v.copy() if hasattr(v, "copy") else v)
                for k, v in self.d.items()}

    def load_bulbs_config(self):
        if self.configs is None:
            raise NotImplementedError()
        return np.array(self.configs, float)

    def load_installed_bulbs_stats(self):
        if self.stats is None:
            raise NotImplementedError()
        return self.stats

    def load_bulbs(self):
        return tuple(np.array(b, float) for b in self.bulbs)


@sub("C25", "fisher", st.fixed_dictionaries({
    "lo": st.integers(0, 50), "width": st.integers(1, 300),
    "use": st.sampled_from([0., 12.5, 60., 100.]),
    "n": st.integers(1, 5), "init": st.booleans(), "init_irr": st.booleans(),
    "log": st.booleans(),
    "steps": st.lists(st.tuples(st.lists(st.integers(0, 6), min_size=5,
                                         max_size=5),
                                st.one_of(st.integers(0, 60),
                                          st.integers(0, 1200))),
                      min_size=0, max_size=12)}), 1000, 15000,
     rule="partial lighting (irradiance between the thresholds)")
def fisher(case):
    lo, hi, use, n = case["lo"], case["lo"] + case["width"], case["use"], \
        case["n"]

    def want(occ, irr):
        return np.asarray(occ, float) * use * min(
            1., max(0., (hi - irr) / (hi - lo)))

    kw = {}
    occ, irr = np.ones(n), 0
    if case["init"]:
        occ = np.arange(n) % 4
        kw["initial_active_occupancy"] = occ.copy()
    if case["init_irr"]:
        irr = lo + case["width"] / 2
        kw["initial_irradiance"] = irr
    if case["log"]:
        kw["logger"] = SimLogger("get_power_consumption",
                                 aggregated=False)
    sim = FisherLightingSimulator(n, FisherData(lo, hi, use), **kw)
    req_close(sim.get_power_consumption(), want(occ, irr),
              "lighting before the first step")
    hist, first = [], [want(occ, irr)]
    for i, (o, irr) in enumerate(case["steps"]):
        o = np.array(o[:n])
        keep = o.copy()
        sim.step(o, irr)
        req_equal(o, keep, "active occupancy given to the step")
        req_close(sim.get_power_consumption(), want(o, irr),
                  "lighting at step %d (irradiance %s of %s-%s)" % (
                      i, irr, lo, hi))
        hist.append(want(o, irr))
    if case["log"] and hist:
        got = np.asarray(sim.logger.get("get_power_consumption"))
        req_close(got, first + hist[:-1], "logged lighting")
    if any(lo < irr < hi for o, irr in case["steps"]):
        return ["partial"]


# ---------------------------------------------------------------- CREST
def build(case, data, n, algo="config"):
    return CrestLightingSimulator(n, data=data, bulbs_sampling_algo=algo)


@sub("C25", "bulbs", st.fixed_dictionaries({
    "powers": st.lists(st.lists(st.sampled_from([0., 7., 11., 40., 60.5,
                                                 None]),
                                min_size=3, max_size=3),
                       min_size=1, max_size=3),
    "n": st.integers(1, 4),
    "durations": st.integers(0, 9),
    "threshold": st.sampled_from([0., 20., 60.]),
    "log": st.booleans(), "read": st.booleans(),
    "per_household": st.booleans(),
    # occupants: 0 nobody, 1 switches on, 2 keeps lights, 3 switches on
    "steps": st.lists(st.tuples(
        st.lists(st.sampled_from([0, 1, 2, 2, 2, 2, 3]), min_size=4,
                 max_size=4),
        st.sampled_from(["dark", "dark", "edge", "bright"])),
        min_size=1, max_size=40)}), 1500, 20000, budget=200,
     rule="lights were switched on and ran out or were left")
def bulbs(case):
    """Switching on is certain (1, 3 occupants) or impossible (2)."""
    d, thr, n = case["durations"], case["threshold"], case["n"]
    configs = [[np.nan if p is None else p for p in row]
               for row in case["powers"]]
    data = BulbData(configs, effective=[0., 1., 0., 2.], low=[d], high=[d],
                    mean=thr)
    with np.errstate(invalid="ignore"):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sim = build(case, data, n)
    log = None
    if case["log"]:
        log = SimLogger("get_power_demand", "get_thermal_gains",
                        aggregated=False)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sim = CrestLightingSimulator(n, data=data, logger=log)
    power = np.asarray(sim.bulbs_power, float)
    rows = {tuple(np.nan_to_num(np.array(r), nan=-1)) for r in configs}
    for r in power:
        req(tuple(np.nan_to_num(r, nan=-1)) in rows,
            "bulbs of a household %s are no configuration of %s", r, configs)
    left = np.zeros(power.shape, int)
    req_equal(sim.get_power_demand(), np.zeros(n), "lights at the start")
    hist, tags = [], set()
    for i, (occ, light) in enumerate(case["steps"]):
        occ = np.array(occ[:n])
        irr = {"dark": thr - 5., "edge": thr, "bright": thr + 500.}[light]
        if light != "dark":
            # lights may still start at random with daylight: stay passive
            occ = np.where(occ % 2 == 1, 2, occ)
        arg = np.full(n, irr) if case["per_household"] else irr
        keep = occ.copy()
        sim.step(occ, arg)
        req_equal(occ, keep, "active occupancy given to the step")
        ran = (left == 1).any()
        left = np.maximum(left - 1, 0)
        start = (left == 0) & np.isin(occ, [1, 3])[:, None]
        left[start] = d
        if ((occ == 0) & (left > 0).any(axis=1)).any():
            tags.add("left")
        left[occ == 0] = 0
        if ran and (left == 0).any():
            tags.add("ran out")
        want = np.nansum(power * (left > 0), axis=1)
        hist.append(want)
        if case["read"] or i == len(case["steps"]) - 1:
            req_close(sim.get_power_demand(), want,
                      "lighting demand after step %d (occupants %s, "
                      "duration %d)" % (i, occ.tolist(), d))
            req_close(sim.get_thermal_gains(), want,
                      "thermal gains after step %d" % i)
    if log is not None:
        for g in ("get_power_demand", "get_thermal_gains"):
            got = np.asarray(sim.logger.get(g))
            req_close(got, [np.zeros(n)] + hist[:-1], "logged " + g)
    return sorted(tags)


@sub("C25", "daylight", st.fixed_dictionaries({
    "std": st.sampled_from([0., 8.]), "light": st.booleans(),
    "eff": st.lists(st.sampled_from([0., 0.5, 1., 1.7]), min_size=3,
                    max_size=3),
    "p": st.sampled_from([0.02, 0.1, 0.3, 2., 1e9]),
    "nb": st.integers(1, 12), "seed": st.integers(0, 10**6)}),
     150, 2000, budget=150,
     rule="at least 300 switch-ons expected")
def daylight(case):
    """Share of the bulbs switched on in one step."""
    n, nb = 6000 // case["nb"], case["nb"]
    eff = [0.] + case["eff"]
    data = BulbData([[10.] * nb], calibration=case["p"], effective=eff,
                    low=[5], high=[5], std=case["std"])
    sim = build(case, data, n)
    occ = np.arange(n) % 4
    irr = 60. + (400. if case["light"] else -55.)
    sim.step(occ, irr)
    lit = sim.get_power_demand() / 10.
    req(np.all(np.abs(lit - np.round(lit)) < 1e-9) and lit.max() <= nb
        and lit.min() >= 0, "demand is no number of bulbs: %s", lit)
    req(not lit[occ == 0].any(), "lights are on without active occupants")
    tags = []
    for k in (1, 2, 3):
        c = eff[k] * case["p"] * 2.30258509299404
        # E[min(1, c X)], X exponential
        q = 0. if c == 0 else (c * (1 - np.exp(-1 / c)) if c < 1e6 else 1.)
        if case["light"]:
            q *= 0.05
        m = int((occ == k).sum()) * nb
        on = int(lit[occ == k].sum())
        if 0. < q < 1. and nb > 1:
            # each bulb for itself
            want = scipy.stats.binom.pmf(np.arange(nb + 1), nb, q)
            p = gtest_pvalue(np.bincount(np.round(lit[occ == k]).astype(int),
                                         minlength=nb + 1), want)
            req(p > P_REJECT, "the %d bulbs of a household, each switched on "
                "with probability %.4f, do not light independently (p=%.2g)",
                nb, q, p)
        if q == 0 or q == 1.:
            # certain
            req(on == q * m, "%d of %d bulbs switched on with probability "
                "%s", on, m, q)
        else:
            p = gtest_pvalue([on, m - on], [q, 1 - q])
            req(p > P_REJECT, "%d of %d bulbs switched on, expected a share "
                "of %.4f (p=%.2g)", on, m, q, p)
        if q * m > 300:
            tags = ["many"]
    return tags


@sub("C25", "threshold", st.fixed_dictionaries({
    "mean": st.integers(20, 100), "std": st.integers(1, 20),
    "at": st.sampled_from([-1.5, -1., 0., 1., 1.5]),
    "seed": st.integers(0, 10**6)}), 80, 1000,
     rule="irradiance within the spread of the thresholds")
def threshold(case):
    """Share of the households that need light at some irradiance."""
    from scipy.stats import norm
    n = 4000
    data = BulbData([[10.]], effective=[0., 1.], low=[5], high=[5],
                    mean=float(case["mean"]), std=float(case["std"]))
    sim = build(case, data, n)
    sim.step(np.ones(n, int), case["mean"] + case["at"] * case["std"])
    on = int((sim.get_power_demand() > 0).sum())
    q = norm.sf(case["at"])
    q = q + (1 - q) * 0.05
    p = gtest_pvalue([on, n - on], [q, 1 - q])
    req(p > P_REJECT, "%d of %d households switched on, expected a share of "
        "%.4f (p=%.2g)", on, n, q, p)
    return ["spread"]


@sub("C25", "durations", st.fixed_dictionaries({
    "w": st.lists(st.integers(0, 4), min_size=1, max_size=5).filter(
        lambda w: sum(w) > 0),
    "edges": st.lists(st.integers(1, 12), min_size=6, max_size=6),
    "times": st.sampled_from([1, 1, 1, 25]),
    "seed": st.integers(0, 10**6)}), 150, 1500, budget=150,
     rule="several possible durations")
def durations(case):
    w = np.array(case["w"], float) / sum(case["w"])
    edges = np.cumsum(case["edges"]) * case.get("times", 1)
    low, high = edges[:len(w)], edges[1:len(w) + 1]
    n = 3000
    data = BulbData([[10.]], effective=[0., 1., 0.], low=low, high=high,
                    pdf=w)
    sim = build(case, data, n)
    sim.step(np.ones(n, int), 0.)
    on = sim.get_power_demand() > 0
    req(on.all(), "lights with certain switch-on did not start")
    dur = np.zeros(n, int)
    for t in range(int(edges[-1]) + 2):
        dur += on
        was = on
        sim.step(np.full(n, 2), 0.)
        on = sim.get_power_demand() > 0
        req(not (on & ~was).any(), "lights started with probability 0")
    req(not on.any(), "lights stay on after the longest duration")
    # whole minutes of a uniform duration of the interval
    probs = np.zeros(int(edges[-1]) + 1)
    for p, a, b in zip(w, low, high):
        probs[a:b] += p / (b - a)
    cnt = np.bincount(dur, minlength=len(probs))
    req(len(cnt) == len(probs) and not cnt[probs == 0].any(),
        "durations %s, possible were %s", np.unique(dur),
        np.nonzero(probs)[0])
    p = gtest_pvalue(cnt, probs)
    req(p > P_REJECT, "durations counted %s, expected %s (p=%.2g)",
        cnt.tolist(), (probs * n).tolist(), p)
    if (probs > 0).sum() > 1:
        return ["several"]


@sub("C25", "installed", st.fixed_dictionaries({
    "mean": st.floats(0., 12.), "std": st.sampled_from([0., 0., 1., 4.]),
    "powers": st.lists(st.sampled_from([5., 7., 11., 40., 60.]), min_size=1,
                       max_size=4, unique=True),
    "w": st.lists(st.integers(0, 4), min_size=4, max_size=4),
    "config": st.booleans(), "seed": st.integers(0, 10**6)}), 200, 2000,
     rule="several kinds of bulbs or configurations")
def installed(case):
    n = 800
    if case["config"]:
        cfg = [[p, 2 * p] for p in case["powers"]]
        sim = build(case, BulbData(cfg), n)
        got = [tuple(r) for r in np.asarray(sim.bulbs_power)]
        cnt = [got.count(tuple(c)) for c in cfg]
        req(sum(cnt) == n, "bulbs of a household are no configuration")
        p = gtest_pvalue(cnt, [1 / len(cfg)] * len(cfg))
        req(p > P_REJECT, "configurations counted %s (p=%.2g)", cnt, p)
        return ["config"] if len(cfg) > 1 else None
    w = np.array(case["w"][:len(case["powers"])], float)
    if w.sum() == 0:
        w[0] = 1
    w /= w.sum()
    data = BulbData(bulbs=(case["powers"], w), effective=[0., 1.], low=[9],
                    high=[9], stats=(case["mean"], case["std"]))
    sim = build(case, data, n, "randn")
    pw = np.asarray(sim.bulbs_power, float)
    req(pw.shape[0] == n, "bulbs of %d households, expected %d", pw.shape[0],
        n)
    num = (pw > 0).sum(axis=1)
    req(num.min() >= 1, "household without bulbs")
    if case["std"] == 0:
        req(set(num) == {max(1, int(case["mean"]))},
            "numbers of bulbs %s, expected %s", sorted(set(num)),
            case["mean"])
    else:
        from scipy.stats import norm
        top = int(num.max()) + 20
        cdf = norm.cdf((np.arange(1, top + 1) + 1 - case["mean"])
                       / case["std"])
        pr = np.diff(np.concatenate([[0.], cdf]))
        cnt = np.bincount(num, minlength=top + 1)[1:top + 1]
        p = gtest_pvalue(cnt, pr)
        req(p > P_REJECT, "numbers of bulbs counted %s (p=%.2g)", cnt, p)
    cnt = [int((pw == x).sum()) for x in case["powers"]]
    req(sum(cnt) == num.sum(), "bulbs of unknown power: %s", np.unique(pw))
    for c, x in zip(cnt, w):
        req(x > 0 or c == 0, "bulb without penetration installed")
    p = gtest_pvalue(cnt, w)
    req(p > P_REJECT, "bulbs counted %s, expected shares %s (p=%.2g)", cnt,
        w, p)
    # the bulbs of a house are drawn one by one
    two = num >= 2
    if two.any():
        same = int((pw[two, 0] == pw[two, 1]).sum())
        share = float((w ** 2).sum())
        p = gtest_pvalue([same, int(two.sum()) - same],
                         [share, max(0., 1. - share)])
        req(p > P_REJECT, "%d of %d houses start with two equal bulbs, "
            "expected share %s (p=%.2g)", same, int(two.sum()), share, p)
    # all of them light up together
    sim.step(np.ones(n, int), 0.)
    req_close(sim.get_power_demand(), pw.sum(axis=1), "all lights on")
    return ["randn"] if len(case["powers"]) > 1 else None


@sub("C25", "refuse", st.fixed_dictionaries({
    "what": st.sampled_from(["algo", "init", "config", "randn"])}), 8, 8,
     rule="all")
def refuse(case):
    w = case["what"]
    data = BulbData([[1.]]) if w in ("algo", "init") else BulbData()
    kw = {"algo": {"bulbs_sampling_algo": "no"},
          "init": {"initialization_method": "no"},
          "config": {}, "randn": {"bulbs_sampling_algo": "randn"}}[w]
    err = ValueError if w in ("algo", "init") else NotImplementedError
    req(raises(err, CrestLightingSimulator, 2, data=data, **kw),
        "%s accepted", kw)
    return ["refused"]
