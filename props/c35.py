"""C35: what households draw at random they draw independently."""
import datetime as dt
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import P_REJECT, Violation, gtest_pvalue, req, sub
from props.c11 import RandomData
from props.c25 import BulbData
from props.c33 import ProbData
from props.lib_app import AppData
from props.lib_heat import HeatData

from demod.datasets.GermanTOU.loader import GTOU
from demod.simulators.activity_simulators import (
    MarkovChain1rstOrder, SemiMarkovSimulator,
    SubgroupsIndividualsActivitySimulator)
from demod.simulators.appliance_simulators import (
    ActivityApplianceSimulator, OccupancyApplianceSimulator,
    ProbabiliticActivityAppliancesSimulator)
from demod.simulators.crest_simulators import CrestOccupancySimulator
from demod.simulators.heating_simulators import (
    BuildingThermalDynamics, FiveModulesHeatingSimulator, HeatingSystem,
    Thermostats, VariableThermostatTemperatureSimulator)
from demod.simulators.lighting_simulators import CrestLightingSimulator
from demod.utils.sparse import SparseTPM
from demod.simulators.sparse_simulators import (
    SparseTransitStatesSimulator, SubgroupsActivitySimulator)

RUNS = 24


def ranks(x):
    """Average ranks (ties share theirs) in the flattened array."""
    u, inv, cnt = np.unique(x, return_inverse=True, return_counts=True)
    return (np.cumsum(cnt) - (cnt - 1) / 2.)[inv].reshape(x.shape)


def spread_between(r):
    """p-values of the differences between the rows of ranks (test of
    Kruskal and Wallis): too large, too small."""
    from scipy.stats import chi2
    k, n = r.shape
    var = r.var()
    stat = n * ((r.mean(axis=1) - r.mean()) ** 2).sum() / var
    return float(chi2.sf(stat, k - 1)), float(chi2.cdf(stat, k - 1))


def check_pair(x, y, what):
    """Two on/off values of the same households."""
    x, y = np.ravel(x) > 0, np.ravel(y) > 0
    p, q = x.mean(), y.mean()
    if min(p, 1 - p, q, 1 - q) * len(x) < 20 * RUNS:
        return
    joint = np.bincount(2 * x + y, minlength=4)
    pv = gtest_pvalue(joint, [(1 - p) * (1 - q), (1 - p) * q, p * (1 - q),
                              p * q])
    req(pv > P_REJECT, "%s are not independent in a household (p=%.2g): %s",
        what, pv, joint.tolist())


def check(x, what):
    """x: one value per run and per household; True if it varies."""
    x = np.round(np.asarray(x, float), 6)
    x = np.nan_to_num(x, nan=-1e9)
    u, cnt = np.unique(x, return_counts=True)
    # enough households different from the most frequent value
    if x.size - cnt.max() < 20 * RUNS:
        return False
    r = ranks(x)
    p, low = spread_between(r)
    req(p > P_REJECT, "%s: households of the same simulation are alike, "
        "the means of the simulations differ (p=%.2g): %s", what, p,
        x.mean(axis=1)[:6].tolist())
    req(low > P_REJECT, "%s: the means of the simulations are closer to "
        "each other than by chance (p=%.2g): %s", what, low,
        x.mean(axis=1)[:6].tolist())
    # position among the households
    n = x.shape[1]
    k = n // 8
    p = spread_between(np.stack([
        r[:, j * k:(j + 1) * k].ravel() for j in range(8)]))[0]
    req(p > P_REJECT, "%s depends on the position of the household "
        "(p=%.2g): %s", what, p, [
            float(x[:, j * k:(j + 1) * k].mean()) for j in range(8)])
    # each place in the list, over the simulations
    p = spread_between(r.T)[0]
    req(p > P_REJECT, "%s: the households at the same place are alike in "
        "different simulations (p=%.2g)", what, p)
    # neighbours, and households half of the list apart
    high = r > np.median(r)
    if high.mean() < 0.02:
        high = r >= np.median(r)
    q = high.mean()
    if not 0.02 < q < 0.98:
        return True
    for a, b, name in ((high[:, 0:2 * (n // 2):2], high[:, 1::2],
                        "neighbours"),
                       (high[:, :n // 2], high[:, n // 2:2 * (n // 2)],
                        "households of the two halves")):
        joint = np.bincount((2 * a + b).ravel(), minlength=4)
        p = gtest_pvalue(joint, [(1 - q) ** 2, q * (1 - q), q * (1 - q),
                                 q * q])
        req(p > P_REJECT, "%s: %s are not independent (p=%.2g): %s", what,
            name, p, joint.tolist())
    return True


def verify(case, make, n, pairs=()):
    """make() -> {name: value of each household}"""
    runs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(RUNS):
            out = make()
            for k, v in out.items():
                req(np.shape(v) == (n,), "%s of shape %s for %d households",
                    k, np.shape(v), n)
            runs.append({k: np.array(v, float) for k, v in out.items()})
    for a, b in pairs:
        check_pair([r[a] for r in runs], [r[b] for r in runs], a + ", " + b)
    return [k for k in runs[0]
            if check([r[k] for r in runs], k)] or None


def each(**choices):
    """Runs the check for all the combinations of choices, in every case."""
    def deco(fn):
        def run(case):
            tags = set()
            for values in itertools.product(*choices.values()):
                more = dict(zip(choices, values))
                try:
                    tags.update(fn({**case, **more}) or ())
                except Violation as e:
                    raise Violation("%s (%s)" % (e, more)) from None
            return sorted(tags) or None
        return run
    return deco


RULE = "some value differs between the households"
SEED = st.integers(0, 10 ** 6)


def random_rows(rng, *shape):
    w = rng.choice([0., 1., 2., 5.], size=shape)
    w[..., 0][w.sum(axis=-1) == 0] = 1
    return w / w.sum(axis=-1)[..., None]


# ------------------------------------------------------------- activities
@sub("C35", "chains", st.fixed_dictionaries({
    "ns": st.integers(2, 4), "nt": st.integers(1, 4), "seed": SEED}),
     20, 200, budget=90, rule=RULE)
@each(kind=["markov", "semi", "semiprev"])
def chains(case):
    rng = np.random.RandomState(case["seed"])
    ns, nt, n = case["ns"], case["nt"], 250
    tpm = random_rows(rng, nt, ns, ns)
    pdf = random_rows(rng, 1, ns)[0]
    if case["kind"] != "markov":
        tpm[:, np.arange(ns), np.arange(ns)] = 0
        t, i = np.where(tpm.sum(axis=-1) == 0)
        tpm[t, i, (i + 1) % ns] = 1
        tpm /= tpm.sum(axis=-1)[..., None]
        prev = (ns,) if case["kind"] == "semiprev" else ()
        dur = random_rows(rng, nt, ns, *prev, 5)
        dur = np.concatenate([np.zeros(dur.shape[:-1] + (1,)), dur], axis=-1)
        first = np.concatenate([np.zeros((ns, 1)), random_rows(rng, ns, 5)],
                               axis=-1)

    def make():
        if case["kind"] == "markov":
            sim = MarkovChain1rstOrder(n, ns, tpm)
            sim.initialize_starting_state(pdf)
        else:
            sim = SemiMarkovSimulator(n, ns, tpm, dur)
            sim.initialize_starting_state(pdf, first)
        out = {"start": np.array(sim.current_states)}
        for k in range(7):
            sim.step()
            out["state %d" % k] = np.array(sim.current_states)
        return out
    return verify(case, make, n)


@sub("C35", "residents", st.fixed_dictionaries({
    "seed": SEED, "ns": st.integers(2, 4)}), 8, 80, budget=90, rule=RULE)
@each(type=[1, 2, 3, 4])
def residents(case):
    n, t = 200, case["type"]
    data = RandomData(case["ns"], case["seed"])
    group = {"household_type": t, "n_residents": max(t, 1)}

    def make():
        sim = SubgroupsIndividualsActivitySimulator(
            [dict(group)], [n], data=data,
            start_datetime=dt.datetime(2014, 3, 5, 4))
        out = {}
        for k in range(4):
            if k:
                sim.step()
            out["occupants %d" % k] = np.array(sim.get_occupancy())
            out["active %d" % k] = np.array(sim.get_active_occupancy())
        return out
    return verify(case, make, n)


loaded = {}


@sub("C35", "occupancy", st.fixed_dictionaries({
    "hour": st.integers(0, 23), "n_res": st.integers(1, 4)}), 12, 100,
     budget=120, rule=RULE)
@each(kind=["sparse", "four"])
def occupancy(case):
    n = 200
    start = dt.datetime(2014, 3, 5, case["hour"])

    def make():
        if case["kind"] == "four":
            sim = CrestOccupancySimulator(n, case["n_res"], "d")
            for _ in range(6 * case["hour"] % 40):
                sim.step()
        else:
            data = loaded.setdefault("sparse", GTOU("Sparse9States"))
            group = {"n_residents": case["n_res"], "household_type":
                     {1: 1, 2: 2, 3: 4, 4: 4}[case["n_res"]]}
            sim = SubgroupsActivitySimulator(
                [group], [n], subsimulator=SparseTransitStatesSimulator,
                data=data, start_datetime=start)
        out = {}
        for k in range(3):
            if k:
                for _ in range(4):
                    sim.step()
            out["occupants %d" % k] = np.array(sim.get_occupancy())
            out["active %d" % k] = np.array(sim.get_active_occupancy())
        return out
    return verify(case, make, n)


# --------------------------------------------------------------- lighting
@sub("C35", "lighting", st.fixed_dictionaries({
    "seed": SEED, "calibration": st.sampled_from([0.1, 0.4])}), 15, 150,
     budget=90, rule=RULE)
@each(algo=["config", "randn"], std=[0., 15.])
def lighting(case):
    n = 200
    rng = np.random.RandomState(case["seed"])
    data = BulbData(
        configs=rng.choice([7., 11., 40., 60.], size=(4, 5)),
        bulbs=([7., 11., 40., 60.], [0.1, 0.2, 0.3, 0.4]), stats=(5., 2.),
        calibration=case["calibration"], effective=(0., 0.2, 0.5),
        low=(1, 3, 10), high=(3, 10, 30), pdf=(0.3, 0.3, 0.4),
        std=case["std"])

    def make():
        sim = CrestLightingSimulator(n, data=data,
                                     bulbs_sampling_algo=case["algo"])
        out = {}
        total = np.zeros(n)
        for k in range(12):
            # dark, around the threshold of most households, then bright
            sim.step(np.full(n, 1 + k % 2), (0., 60., 500.)[k // 4])
            p = np.array(sim.get_power_demand())
            total += p
            if k % 2:
                out["power %d" % k] = p
        out["total"] = total
        out["bulbs"] = np.nansum(np.asarray(sim.bulbs_power, float), axis=1)
        return out
    return verify(case, make, n)


# ------------------------------------------------------------- appliances
def app(type_, act, **kw):
    return {"type": type_, "act": act, "iso": False, "mean": 10.,
            "standby": 1, "dur": 2, "delay": 0, "water": False, "flow": 0.,
            "lam": 0., "on": 1, **kw}


def usage_of(sim, out, k):
    use = np.asarray(sim.get_current_usage())
    for j in range(use.shape[1]):
        out["use of %d at %d" % (j, k)] = use[:, j].copy()
    out["water at %d" % k] = np.array(sim.get_dhw_heating_demand())
    out["power at %d" % k] = np.array(sim.get_power_demand())


def loads(rng, act="tv"):
    return {act: {"l%d" % i: rng.randint(1, 500, size=4 + 3 * i).astype(float)
                  for i in range(4)}}


@sub("C35", "occupied", st.fixed_dictionaries({
    "on": st.sampled_from([0.2, 0.6]), "hour": st.integers(4, 6),
    "seed": SEED}), 20, 200, budget=90, rule=RULE)
@each(own=[0.6, 1.])
def occupied(case):
    n = 200
    rng = np.random.RandomState(case["seed"])
    table = rng.choice([0.3, 0.6, 1.], size=(144, 4))
    data = AppData(
        [app("tv", "a", own=case["own"], on=case["on"], dur=3),
         app("hob", "a", own=case["own"], on=case["on"], delay=3),
         app("shower", "b", own=case["own"], on=case["on"], water=True,
             flow=4., lam=9.)],
        acts=lambda g: {"a": table.copy(), "b": table[:, ::-1].copy()})

    def make():
        sim = OccupancyApplianceSimulator(
            [{"n_residents": 2}], [n], data=data,
            start_datetime=dt.datetime(2021, 3, 1, case["hour"]),
            equipped_sampling_algo="basic")
        out = {}
        for k in range(5):
            sim.step(np.ones(n, dtype=int))
            usage_of(sim, out, k)
        return out
    return verify(case, make, n, [
        ("use of %d at 0" % i, "use of %d at 0" % j)
        for i, j in ((0, 1), (0, 2), (1, 2))])


@sub("C35", "active", st.fixed_dictionaries({
    "own": st.sampled_from([0.6, 1.]), "seed": SEED,
    "p": st.sampled_from([0.1, 0.4])}), 10, 100, budget=120, rule=RULE)
@each(kind=["activity", "probabilistic"],
      profiles=["nothing", "only_switched_on", "only_always_on", "uniform"])
def active(case):
    n = 200
    rng = np.random.RandomState(case["seed"])
    prob = case["kind"] == "probabilistic"
    apps = [app("tv", "tv", own=case["own"]),
            app("hob", "cooking", own=case["own"]),
            app("shower", "cooking", own=case["own"], water=True, flow=3.,
                lam=8.),
            app("washer", "cooking", own=case["own"]),
            app("dryer", "cooking", own=case["own"])]
    if not prob:
        apps.append(app("fridge", "level", own=case["own"]))
    nan = ["nan"] * len(apps)
    year = 365.25 * 24 * 60 * 0.5
    targets = {a["type"]: case["p"] * year / (1 + case["p"] * 3)
               for a in apps}
    prev, after = list(nan), list(nan)
    if prob:
        # started by the end of the activity, or of another appliance
        prev[3], after[4] = "cooking", "washer"
        targets["washer"] = 365.25 * 0.5 * 0.6
        targets["dryer"] = targets["washer"] * 0.6
    on = {**loads(rng, "tv"), **loads(rng, "hob")}
    full = {**on, **loads(rng, "fridge")}
    data = ProbData(apps, targets,
                    {a: np.full(144, 0.5) for a in ("tv", "cooking")},
                    {a: np.array([0.5, 0.5]) for a in ("tv", "cooking")},
                    on_profiles=on, full_profiles=full,
                    previous_activity=prev, previous_appliance_type=after)
    cls = (ProbabiliticActivityAppliancesSimulator if prob
           else ActivityApplianceSimulator)

    def make():
        zero = np.zeros(n, dtype=int)
        acts = {"tv": zero, "cooking": zero + 1}
        sim = cls(n, {k: v.copy() for k, v in acts.items()}, data=data,
                  equipped_sampling_algo="basic",
                  real_profiles_algo=case["profiles"])
        out = {}
        for k in range(9):
            acts = {"tv": zero + (k > 0), "cooking": zero + (k < 4)}
            sim.step({a: v.copy() for a, v in acts.items()})
            usage_of(sim, out, k)
        return out
    return verify(case, make, n, [
        ("use of 0 at %d" % k, "use of 1 at %d" % k) for k in (1, 2)]
        if prob else ())


# ---------------------------------------------------------------- heating
SYSTEMS = [{"fuel_type": "Electricity", "is_combi": bool(i % 2),
            "pump_power": 20. + i, "standby_power": 1. + i,
            "fuel_flow_rate": 1., "flow_rate_to_W": 1000.,
            "heat_output_sh": 5000. + 1000 * i, "heat_output_dhw": 9000.,
            "cyl_loss": 1. + i, "cyl_volume": 20. + 30 * i}
           for i in range(3)]
HOUSES = [{"emitters_target_temperature": 45. + 3 * i,
           "emitters_capacitance": 2e5, "emitters_transfer_coef": 100.,
           "ext_capacitance": 2e7, "int_capacitance": 1e6,
           "build_int_transfer_coef": 300., "out_build_transfer_coef": 200.,
           "ventilation_transfer_coef": 20. + 10 * i, "floor_area": 100.,
           "irradiance_multiplier": 2.} for i in range(3)]
THERM = {"home": [18, 20, 22], "water": [45, 50, 60], "emitter": 50.,
         "db": (1., 5., 5.)}


@sub("C35", "heating", st.fixed_dictionaries({
    "seed": SEED}), 12, 120, budget=90, rule=RULE)
@each(kind=["systems", "houses", "thermostats", "whole"])
def heating(case):
    n, kind = 200, case["kind"]
    data = HeatData(SYSTEMS, HOUSES, THERM)

    def make():
        if kind == "systems":
            return {"stand-by": HeatingSystem(n, data=data).get_power_demand()}
        if kind == "thermostats":
            tg = Thermostats(n, data=data).get_target_temperatures()
            return {k: tg[k] for k in ("space_heating", "dhw")}
        if kind == "houses":
            system = HeatingSystem(n, data=HeatData(SYSTEMS, HOUSES, THERM,
                                                    system=0))
            T = BuildingThermalDynamics(n, system, 2.,
                                        data=data).get_temperatures()
            return {k: np.array(T[k]) for k in ("interior", "building",
                                                "emitter")}
        sim = FiveModulesHeatingSimulator(n, 2., data=data)
        out = {}
        zero = np.zeros(n)
        for k in range(6):
            sim.step(2., 0., zero + 30. * (k % 2), zero, zero, zero)
            out["power %d" % k] = np.array(sim.get_power_demand())
            out["room %d" % k] = np.array(sim.get_room_temperature())
            out["dhw %d" % k] = np.array(sim.get_dhw_heat_demand())
        return out
    return verify(case, make, n)


@sub("C35", "setpoints", st.fixed_dictionaries({
    "hour": st.integers(5, 8), "seed": SEED}), 4, 40, budget=90, rule=RULE)
@each(label=["random", "living lab", "Cool Conservers", "Steady and Savvy",
             "On-Demand Sizzlers", "Toasty Cruisers"])
def setpoints(case):
    n = 200
    one = np.ones(n, dtype=int)

    def make():
        sim = VariableThermostatTemperatureSimulator(
            n, one, one, dt.datetime(2014, 1, 1, case["hour"]),
            pattern_attribution_method=case["label"])
        out = {"start": np.array(sim.get_thermostat_temperatures())}
        for k in range(36):
            sim.step(one, one)
            if k % 4 == 0:
                out["step %d" % k] = np.array(
                    sim.get_thermostat_temperatures())
        return out
    return verify(case, make, n)


# ------------------------------------------------------------- the past
def memoryless(start, risk, what):
    """start, risk: (steps, cases).  Each case which could start had the
    same chance, whatever it did before."""
    past = np.cumsum(start, axis=0) - start
    since = np.zeros(start.shape, int)
    for t in range(1, len(start)):
        since[t] = np.where(start[t - 1], 0, since[t - 1] + 1)
    for group, name in ((np.minimum(past, 2), "number of earlier starts"),
                        (np.minimum(since // 2, 3), "time since the last")):
        table = np.array([[(risk & ~start & (group == g)).sum(),
                           (risk & start & (group == g)).sum()]
                          for g in np.unique(group[risk])])
        table = table[table.sum(axis=1) > 200]
        if len(table) < 2 or (table.sum(axis=0) < 100).any():
            continue
        from scipy.stats import chi2_contingency
        p = chi2_contingency(table)[1]
        req(p > P_REJECT, "%s: the chance depends on the %s (p=%.2g): "
            "%s (did not, did)", what, name, p, table.tolist())
    return (start & (past > 0)).sum() > 100


def unrelated(a, b, what):
    """Two draws of the same household, one value of each household."""
    from scipy.stats import chi2_contingency
    out = False
    for cut in (0.35, 0.65):
        x, y = a > np.quantile(a, cut), b > np.quantile(b, cut)
        table = np.array([[(x & y).sum(), (x & ~y).sum()],
                          [(~x & y).sum(), (~x & ~y).sum()]])
        if min(table.sum(axis=0).min(), table.sum(axis=1).min()) < 50:
            continue
        p = chi2_contingency(table)[1]
        req(p > P_REJECT, "%s are not independent (p=%.2g): %s", what, p,
            table.tolist())
        out = True
    return out


@sub("C35", "again_lights", st.fixed_dictionaries({
    "seed": SEED, "eff": st.sampled_from([0.7, 1., 1.6]),
    "p": st.sampled_from([0.03, 0.1, 0.25, 1.])}), 10, 100, budget=60,
     rule="bulbs were lit more than once")
@each(light=[False, True])
def again_lights(case):
    """How often the bulb of each household starts in several steps."""
    from scipy.integrate import quad
    from scipy.stats import binom
    n, steps = 8000, 12
    data = BulbData([[10.]], calibration=case["p"],
                    effective=[0., case["eff"]], low=[1], high=[1])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = CrestLightingSimulator(n, data=data,
                                     bulbs_sampling_algo="config")
    one = np.ones(n, int)
    lit = np.zeros(n, int)
    for _ in range(steps):
        sim.step(one, 560. if case["light"] else 5.)
        lit += np.asarray(sim.get_power_demand()) > 0
    # the chance of a bulb is min(1, c X), X exponential, in every step
    c = case["eff"] * case["p"] * 2.30258509299404
    day = 0.05 if case["light"] else 1.
    want = [quad(lambda x: binom.pmf(k, steps, day * c * x) * np.exp(-x),
                 0, 1 / c, limit=200, points=[0.1 / c, 0.5 / c])[0]
            + binom.pmf(k, steps, day) * np.exp(-1 / c)
            for k in range(steps + 1)]
    obs = np.bincount(lit, minlength=steps + 1)
    p = gtest_pvalue(obs, np.array(want) / sum(want))
    req(p > P_REJECT, "bulbs lit 0, 1, 2... times in %d steps: %s, expected "
        "%s (p=%.2g)", steps, obs.tolist(),
        (np.array(want) * n).round(1).tolist(), p)
    return ["again"] if obs[2:].sum() > 100 else None


def follow_usage(sim, step, steps):
    """Usage of appliances 0 and 1, volumes of the fixtures 2."""
    use, vol = [], []
    for _ in range(steps):
        step(sim)
        use.append(np.array(sim.get_current_usage())[:, :2] > 0)
        vol.append(np.asarray(sim.get_current_water_consumptions())[:, 2])
    use, vol = np.array(use), np.array(vol)
    tags = []
    for j in (0, 1):
        start = use[:, :, j].copy()
        risk = np.ones_like(start)
        # it lasts one step, the next start may have to wait for one more
        risk[1:] = ~start[:-1]
        risk[2:] &= ~start[:-2]
        if memoryless(start & risk, risk, "start of appliance %d" % j):
            tags.append("again")
    # the first and the last volume drawn by a household
    got = vol > 0
    two = got.sum(axis=0) >= 2
    if two.sum() > 400:
        i = np.where(two)[0]
        first = vol[got.argmax(axis=0)[i], i]
        last = vol[len(vol) - 1 - got[::-1].argmax(axis=0)[i], i]
        if unrelated(first, last, "two volumes of water of a household"):
            tags.append("volumes")
    return tags or None


@sub("C35", "again_occupied", st.fixed_dictionaries({
    "on": st.sampled_from([0.05, 0.15]), "hour": st.integers(4, 22),
    "act": st.sampled_from([0.4, 0.9]), "seed": SEED}), 10, 100, budget=60,
     rule="appliances were started more than once")
def again_occupied(case):
    n, act = 2500, case["act"]
    table = np.full((144, 4), act)
    data = AppData(
        [app("tv", "a", on=case["on"], dur=1),
         app("hob", "b", on=case["on"], dur=1),
         app("shower", "b", on=0.4, water=True, flow=1000., lam=9.)],
        acts=lambda g: {"a": table.copy(), "b": table.copy()})
    sim = OccupancyApplianceSimulator(
        [{"n_residents": 2}], [n], data=data,
        start_datetime=dt.datetime(2021, 3, 1, case["hour"], 3),
        equipped_sampling_algo="all")
    one = np.ones(n, dtype=int)
    return follow_usage(sim, lambda s: s.step(one), 35)


@sub("C35", "again_active", st.fixed_dictionaries({
    "p": st.sampled_from([0.05, 0.15]), "seed": SEED}), 10, 100, budget=60,
     rule="appliances were started more than once")
def again_active(case):
    n = 2500
    year = 365.25 * 24 * 60 * 0.5
    apps = [app("tv", "tv", dur=1), app("hob", "cooking", dur=1),
            app("shower", "cooking", water=True, flow=1000., lam=9., dur=1)]
    data = ProbData(
        apps, {"tv": case["p"] * year / (1 + case["p"]),
               "hob": case["p"] * year / (1 + case["p"]),
               "shower": 0.3 * year / 1.3},
        {a: np.full(144, 0.5) for a in ("tv", "cooking")},
        {a: np.array([0.5, 0.5]) for a in ("tv", "cooking")},
        previous_activity=["nan"] * 3, previous_appliance_type=["nan"] * 3)
    sim = ProbabiliticActivityAppliancesSimulator(
        n, {a: np.zeros(n, int) for a in ("tv", "cooking")}, data=data,
        equipped_sampling_algo="all")

    def step(sim):
        # a minute without, then a minute with the activity
        for k in (0, 1):
            sim.step({a: np.full(n, k) for a in ("tv", "cooking")})
    return follow_usage(sim, step, 35)


@sub("C35", "again_comfort", st.fixed_dictionaries({
    "seed": SEED}), 4, 40, budget=60, rule="set points changed")
@each(label=["Cool Conservers", "Hot and Cold Fluctuators",
             "On-Demand Sizzlers"])
def again_comfort(case):
    n = 2000
    one = np.ones(n, dtype=int)
    sim = VariableThermostatTemperatureSimulator(
        n, one, one, dt.datetime(2014, 1, 1, 5),
        pattern_attribution_method=case["label"])
    got = []
    for k in range(201):
        sim.step(one, one)
        if k % 100 == 0 and k:
            got.append(np.array(sim.get_thermostat_temperatures()))
    return ["changed"] if unrelated(
        got[0], got[1], "two comfort temperatures of a household") else None


def markov(states, what):
    """states: (steps, cases), the next depends on the present one only."""
    from scipy.stats import chi2, chi2_contingency
    stat, df = 0., 0
    for t in range(1, len(states) - 1):
        for s in np.unique(states[t]):
            m = states[t] == s
            _, a = np.unique(states[t - 1][m], return_inverse=True)
            _, b = np.unique(states[t + 1][m], return_inverse=True)
            table = np.zeros((a.max() + 1, b.max() + 1))
            np.add.at(table, (a, b), 1)
            if min(table.shape) < 2:
                continue
            x2, _, d, want = chi2_contingency(table, correction=False)
            if want.min() >= 8:
                stat, df = stat + x2, df + d
    if df < 4:
        return False
    p = chi2.sf(stat, df)
    req(p > P_REJECT, "%s: the next state depends on the one before the "
        "present state (p=%.2g)", what, p)
    return True


class OneTPM:
    refresh_time = dt.time(4)

    def __init__(self, tpm, start):
        self.tpm, self.start = tpm, start

    def load_sparse_tpm(self, subgroup):
        t, i, j = np.where(self.tpm > 0)
        sparse = SparseTPM(t, i, j, self.tpm[t, i, j],
                           n_states=self.tpm.shape[1],
                           n_times=self.tpm.shape[0])
        return (sparse, np.arange(self.tpm.shape[1]), np.array(["HOH"]),
                self.start.copy())


@sub("C35", "again_chain", st.fixed_dictionaries({
    "ns": st.integers(2, 3), "nt": st.integers(1, 3), "seed": SEED}),
     12, 120, budget=60, rule="states with several previous ones")
@each(kind=["markov", "sparse", "matrix"])
def again_chain(case):
    rng = np.random.RandomState(case["seed"])
    ns, n, steps = case["ns"], 2500, 12
    tpm = random_rows(rng, case["nt"], ns, ns)
    pdf = np.full(ns, 1. / ns)
    data = OneTPM(tpm, pdf)
    if case["kind"] == "markov":
        sim = MarkovChain1rstOrder(n, ns, tpm)
        sim.initialize_starting_state(pdf)
    elif case["kind"] == "sparse":
        sim = SparseTransitStatesSimulator(n, {"n_residents": 1}, data=data)
    got = []
    if case["kind"] == "matrix":
        sparse = data.load_sparse_tpm({})[0]
        now = rng.randint(ns, size=n)
        for k in range(steps):
            now = sparse.sparse_monte_carlo(k % case["nt"], now)
            got.append(now)
    else:
        for k in range(steps):
            got.append(np.array(sim.current_states))
            sim.step()
    return ["several"] if markov(np.array(got), case["kind"]) else None
