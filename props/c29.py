"""C29: the complete load simulation combines its parts consistently."""
import datetime
import inspect
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import raises, req, req_close, req_equal, sub

from props.c25 import BulbData
from props.lib import StubClimate
from props.lib_app import AppData
from props.lib_heat import HeatData

from demod.datasets.CREST.loader import Crest
from demod.datasets.Germany.loader import GermanDataHerus
from demod.simulators.base_simulators import SimLogger
from demod.simulators.load_simulators import LoadSimulator
from demod.utils.sparse import SparseTPM

DATA = {}


def data(kind="germany"):
    if kind not in DATA:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            DATA[kind] = Crest() if kind == "crest" else GermanDataHerus()
    return DATA[kind]


class Recorder:
    """Counts the steps of a part and keeps the inputs of the last one."""

    def __init__(self, part):
        self.part, self.calls = part, []
        self.sig = inspect.signature(part.step)
        self.step = part.step
        part.step = self

    def __call__(self, *a, **kw):
        b = self.sig.bind(*a, **kw)
        b.apply_defaults()
        self.calls.append({k: (np.array(v) if isinstance(v, np.ndarray)
                               else v) for k, v in b.arguments.items()})
        return self.step(*a, **kw)


opt = lambda s: st.one_of(st.none(), st.none(), s)      # noqa: E731

step_st = st.fixed_dictionaries({
    "out": opt(st.sampled_from([0., -7.5, 18.])),
    "irr": opt(st.sampled_from([0., 0., 350.])),
    "target": opt(st.sampled_from([0., 17., 23.])),
    "ho": opt(st.lists(st.sampled_from([None, 0., 900.]), min_size=4,
                       max_size=4)),
    "dhw": opt(st.lists(st.sampled_from([None, 0., 900.]), min_size=4,
                        max_size=4)),
    "sh": opt(st.lists(st.sampled_from([None, 0., 900.]), min_size=4,
                       max_size=4)),
    "cyl": opt(st.lists(st.sampled_from([None, 45., 60.]), min_size=4,
                        max_size=4))})


def arr(x, n):
    return None if x is None else np.array(
        [np.nan if v is None else v for v in x[:n]], float)


def make(n, case, **kw):
    start = datetime.datetime(2014, 1, 1) + datetime.timedelta(
        days=case["day"], minutes=10 * case["slot"] + case.get("minute", 0))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return start, LoadSimulator(
            n, start_datetime=start, include_heating=case["heating"],
            include_climate=case["climate"],
            data=data(case.get("data", "germany")), **kw)


GETTERS = ["get_power_demand", "get_total_heat_demand",
           "get_dhw_heat_demand", "get_sh_heat_demand"]


@sub("C29", "composition", st.fixed_dictionaries({
    "n": st.integers(1, 4), "day": st.integers(0, 700),
    "slot": st.integers(0, 143), "minute": st.sampled_from([0, 0, 5, 9]),
    "data": st.sampled_from(["germany", "crest"]),
    "heating": st.sampled_from([True, True,
                                                             False]),
    "climate": st.sampled_from([True, True, False]),
    "log": st.booleans(), "read": st.booleans(),
    "steps": st.lists(step_st, min_size=1, max_size=40)}), 250, 2500,
     budget=250, rule="external inputs given or all parts have a demand")
def composition(case):
    n = case["n"]
    getters = GETTERS if case["heating"] else GETTERS[:1]
    kw = {}
    if case["log"]:
        kw["logger"] = SimLogger(*getters, "current_time", aggregated=False)
    start, sim = make(n, case, **kw)
    act, app, light = (sim.activity_simulator, sim.appliance_simulator,
                       sim.light_sim)
    rec = {"act": Recorder(act), "app": Recorder(app),
           "light": Recorder(light)}
    if case["climate"]:
        rec["climate"] = Recorder(sim.climate)
    if case["heating"]:
        rec["heat"] = Recorder(sim.heating)
    hist = {g: [] for g in getters}
    times = []
    act_steps = []
    tags = set()
    for i, x in enumerate(case["steps"]):
        for g in getters:
            hist[g].append(np.array(getattr(sim, g)()) if case["read"]
                           else None)
        times.append(sim.current_time)
        args = {"external_outside_temperature": x["out"],
                "external_irradiance": x["irr"],
                "external_target_temperature":
                    None if x["target"] is None
                    else np.full(n, x["target"]),
                "external_heat_outputs": arr(x["ho"], n),
                "external_dhw_outputs": arr(x["dhw"], n),
                "external_sh_outputs": arr(x["sh"], n),
                "external_cylinder_temperature": arr(x["cyl"], n)}
        if not case["climate"]:
            if args["external_outside_temperature"] is None or \
                    args["external_irradiance"] is None:
                req(raises(ValueError, sim.step, **args),
                    "a step without any climate is accepted")
                return sorted(tags)
        given = {k: v for k, v in args.items() if v is not None}
        keep = {k: np.array(v) for k, v in given.items()}
        calls = {k: len(r.calls) for k, r in rec.items()}
        sim.step(**given)
        for k, v in keep.items():
            req_equal(given[k], v, "%s given" % k)
        at = " at step %d" % i
        req(sim.current_time == start + datetime.timedelta(minutes=i + 1),
            "clock shows %s%s of a simulation from %s", sim.current_time, at,
            start)
        # every part moves once, activities every ten minutes
        for k, r in rec.items():
            d = len(r.calls) - calls[k]
            if k == "act":
                req(d <= 1, "activities moved %d times%s", d, at)
                act_steps.append(d)
            else:
                req(d == 1, "%s moved %d times%s", k, d, at)
        if len(act_steps) >= 10:
            req(sum(act_steps[-10:]) == 1, "activities moved %d times in "
                "ten minutes%s", sum(act_steps[-10:]), at)
        if case["climate"]:
            req(sim.climate.current_time == sim.current_time,
                "climate at %s, simulation at %s", sim.climate.current_time,
                sim.current_time)
        req(app.current_time == sim.current_time, "appliances at %s, "
            "simulation at %s", app.current_time, sim.current_time)
        for part in getattr(act, "simulators", []):
            for name in ("current_time", "time"):
                t = getattr(part, name, None)
                if t is not None:
                    break
            else:
                t = act.current_time
            req(abs(t - sim.current_time)
                <= datetime.timedelta(minutes=10), "activities at %s, "
                "simulation at %s", t, sim.current_time)
        out = x["out"] if x["out"] is not None else \
            sim.climate.get_outside_temperature()
        irr = x["irr"] if x["irr"] is not None else \
            sim.climate.get_irradiance()
        occ = np.asarray(act.get_active_occupancy())
        req(occ.shape == (n,), "active occupancy of %s households",
            occ.shape)
        # what the parts were given
        a = rec["app"].calls[-1]
        a = [v for v in a.values() if isinstance(v, np.ndarray)] + [
            v for w in a.values() if isinstance(w, tuple) for v in w]
        req(len(a) == 1, "inputs of the appliances: %s", a)
        req_equal(a[0], occ, "occupancy of appliances" + at)
        lt = rec["light"].calls[-1]
        req_equal(lt["active_occupancy"], occ, "occupancy of lighting" + at)
        req_close(lt["irradiance"], irr, "irradiance of lighting" + at)
        if case["heating"]:
            h = rec["heat"].calls[-1]
            for k, want in (
                    ("outside_temperature", out), ("irradiance", irr),
                    ("dhw_heating_demand", app.get_dhw_heating_demand()),
                    ("occupancy_thermal_gains", act.get_thermal_gains()),
                    ("lighting_thermal_gains", light.get_thermal_gains()),
                    ("appliances_thermal_gains", app.get_thermal_gains())):
                req_close(h[k], want, k + at)
            for k in list(args)[2:]:
                if args[k] is None:
                    req(h[k] is None, "%s was not given%s", k, at)
                else:
                    req(h[k] is not None, "%s was lost%s", k, at)
                    req_equal(h[k], args[k], k + at)
                    tags.add("external")
        # the results
        parts = [app.get_power_demand(), light.get_power_demand()]
        if case["heating"]:
            parts.append(sim.heating.get_power_demand())
        total = np.asarray(sim.get_power_demand())
        req(total.shape == (n,), "power of %s households", total.shape)
        req_close(total, sum(parts), "power demand" + at)
        if all(np.any(p) for p in parts):
            tags.add("demand")
        for g in getters:
            v = getattr(sim, g)()
            for j in range(n):
                req_equal(getattr(sim, g)(j), v[j],
                          "%s of household %d%s" % (g, j, at))
            if g != "get_power_demand":
                req_equal(v, getattr(sim.heating, g)(), g + at)
        if case["heating"]:
            for k, v in sim.heating.get_temperatures().items():
                req_equal(sim.get_temperatures()[k], v, k + " temperature")
            req(np.all(np.isfinite(total)), "power %s%s", total, at)
    if case["log"]:
        got = sim.logger.get("current_time")
        req(list(got) == times, "logged times %s, expected %s", list(got)[:3],
            times[:3])
        for g in getters:
            v = np.asarray(sim.logger.get(g))
            req(v.shape == (len(case["steps"]), n), "logged %s has shape %s",
                g, v.shape)
            if case["read"]:
                req_equal(v, hist[g], "logged " + g)
    return sorted(tags)


@sub("C29", "population", st.fixed_dictionaries({
    "n": st.integers(1, 60), "day": st.integers(0, 300),
    "data": st.sampled_from(["germany", "crest"]),
    "slot": st.integers(0, 143), "heating": st.booleans(),
    "climate": st.booleans(),
    "out": st.sampled_from([None, -12., 19., 30.])}), 60, 600,
     rule="several subgroups have households")
def population(case):
    """Households of the population are the same ones in all parts."""
    n = case["n"]
    kw = {}
    if case.get("out") is not None:
        kw["initial_outside_temperature"] = case["out"]
    start, sim = make(n, case, **kw)
    if case["heating"] and (case["climate"] or kw):
        # houses start between the outside and the inside
        out = (sim.climate.get_outside_temperature() if case["climate"]
               else case["out"])
        t = {k: np.asarray(v, float)
             for k, v in sim.get_temperatures().items()}
        if "building" in t and "interior" in t:
            low = np.minimum(t["interior"], out) - 1.
            high = np.maximum(t["interior"], out) + 1.
            req(np.all((low <= t["building"]) & (t["building"] <= high)),
                "walls start at %s with %s outside and %s inside",
                t["building"], out, t["interior"])
    req(sim.n_households == n, "%s households, expected %d",
        sim.n_households, n)
    for p in (sim.activity_simulator, sim.appliance_simulator,
              sim.light_sim) + ((sim.heating,) if case["heating"] else ()):
        req(p.n_households == n, "%s simulates %s households, expected %d",
            type(p).__name__, p.n_households, n)
    req(sim.current_time == start, "starts at %s instead of %s",
        sim.current_time, start)
    occ = np.asarray(sim.activity_simulator.get_active_occupancy())
    subgroups, pdf, _ = data(case.get("data", "germany")).load_population_subgroups()
    size = [s.get("n_residents", 9) for s in subgroups]
    # no more active persons than the largest household
    req(occ.max() <= max(size), "%s active persons", occ.max())
    req(raises(Exception, LoadSimulator, 0, data=data()),
        "no household is accepted")
    kw = {} if case["climate"] else {"external_outside_temperature": 4.,
                                     "external_irradiance": 0.}
    sim.step(**kw)
    p = np.asarray(sim.get_power_demand())
    req(p.shape == (n,) and np.all(np.isfinite(p)) and np.all(p >= 0),
        "power demand %s", p)
    if n > 5:
        return ["several"]


# ------------------------------------------------- any data set, made up
class Whole:
    """All that the load simulator asks for, and what was asked."""

    refresh_time = datetime.time(4)
    step_size = datetime.timedelta(minutes=10)

    def __init__(self, case, parts):
        self.case, self.parts, self.asked = case, parts, set()

    def __getattr__(self, name):
        for p in self.__dict__.get("parts", ()):
            if hasattr(p, name):
                self.asked.add(name)
                return getattr(p, name)
        raise AttributeError(name)

    def load_historical_climate_data(self, *args, **kw):
        if self.case["climate"] != "recorded":
            raise NotImplementedError()
        self.asked.add("load_historical_climate_data")
        return self.parts[-1].load_historical_climate_data(*args, **kw)

    def load_clearness_tpms(self):
        # overcast after a minute
        return (np.array([[0., 1.], [0., 1.]]), np.array([0.99, 0.]),
                datetime.timedelta(minutes=1))

    def load_population_subgroups(self, *args, **kw):
        c = self.case
        p = np.array(c["counts"], float)
        return ([{"n_residents": i + 1} for i in range(len(p))],
                p / p.sum(), 1000)

    def active(self, n_res):
        return min(n_res, self.case["active"][n_res - 1])

    def load_sparse_tpm(self, subgroup):
        if self.case["model"] == "four":
            raise NotImplementedError()
        self.asked.add("activities")
        i = np.arange(144)
        n_res = subgroup["n_residents"]
        return (SparseTPM(i, 0 * i, 0 * i, np.ones(144), n_states=1,
                          n_times=144),
                np.array([49 * self.active(n_res)]),
                np.array(["HWH", "HOH", "active"]), np.array([1.]))

    def load_tpm(self, subgroup):
        self.asked.add("activities")
        n_res = subgroup["n_residents"]
        labels = np.array([10 * i + j for i in range(n_res + 1)
                           for j in range(n_res + 1)])
        return (np.tile(np.eye(len(labels)), (144, 1, 1)), labels,
                (labels == 10 * n_res + self.active(n_res)).astype(float))

    def load_appliance_ownership_dict(self, subgroup):
        return {"tv": 1.}


@sub("C29", "datasets", st.fixed_dictionaries({
    "counts": st.lists(st.integers(0, 4), min_size=1, max_size=5).filter(
        lambda c: sum(c) > 0),
    "active": st.lists(st.integers(0, 3), min_size=5, max_size=5),
    "model": st.sampled_from(["sparse", "four"]),
    "climate": st.sampled_from([None, "recorded", "recorded", "drawn"]),
    "heating": st.booleans(), "hour": st.integers(0, 23),
    "day": st.integers(0, 400), "bulbs": st.integers(1, 9),
    "watts": st.sampled_from([3., 41.5]), "standby": st.integers(0, 7),
    "mean": st.sampled_from([17., 1300.]), "home": st.integers(5, 28),
    "steps": st.integers(1, 14)}), 150, 2000, budget=120,
     rule="households of several sizes")
def datasets(case):
    """Every part uses the data set given to the simulator."""
    from props.c21 import Data as Sky
    counts = case["counts"]
    n = sum(counts)
    start = datetime.datetime(2014, 1, 2, case["hour"]) + datetime.timedelta(
        days=case["day"])
    hour = datetime.timedelta(hours=1)
    first = start - 5 * hour
    table = np.ones((144, 8))
    table[:, 0] = 0.
    apps = AppData([
        {"type": "tv", "act": "a", "iso": False, "mean": case["mean"],
         "standby": case["standby"], "dur": 10 ** 6, "delay": 0,
         "water": False, "flow": 0., "lam": 0., "on": 1.}],
        acts=lambda g: {"a": table.copy()})
    k = case["bulbs"]
    light = BulbData(bulbs=([case["watts"]], [1.]), stats=(float(k), 0.),
                     effective=(0.,) + (1.,) * 8, low=(9999,), high=(9999,),
                     mean=1e6)
    heat = HeatData(
        [{"fuel_type": "Electricity", "is_combi": False, "pump_power": 20.,
          "standby_power": 5., "fuel_flow_rate": 1., "flow_rate_to_W": 9e3,
          "heat_output_sh": 7e3, "heat_output_dhw": 9e3, "cyl_loss": 1.,
          "cyl_volume": 50.}],
        [{"emitters_target_temperature": 45., "emitters_capacitance": 2e5,
          "emitters_transfer_coef": 100., "ext_capacitance": 2e7,
          "int_capacitance": 1e6, "build_int_transfer_coef": 300.,
          "out_build_transfer_coef": 200., "ventilation_transfer_coef": 20.,
          "floor_area": 100., "irradiance_multiplier": 2.}],
        {"home": [case["home"]], "water": [50], "emitter": 50.,
         "db": (1., 5., 5.)})
    if case["climate"] == "recorded":
        sky = StubClimate([first + i * hour for i in range(20)],
                          {"outside_temperature": np.arange(20) * 2. - 9.,
                           "irradiance": np.arange(20) * 10.}, hour)
    else:
        sky = Sky({"lon": 0., "lat": 0., "meridian": 0, "dst": False,
                   "values": [0, 0], "chain": "stay",
                   "arma": {"T_mean": 200., "T_std": 100., "T_shift": 0.,
                            "AR": 0.5, "MA": 0.1, "SD": 0.1}})
    data = Whole(case, [apps, light, heat, sky])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = LoadSimulator(
            n, start_datetime=start, include_heating=case["heating"],
            include_climate=case["climate"] is not None, data=data)
    sizes = np.repeat(np.arange(1, len(counts) + 1), counts)
    act = np.array([data.active(s) for s in sizes])
    for i in range(case["steps"]):
        if case["climate"] is None:
            sim.step(external_outside_temperature=4.,
                     external_irradiance=10.)
        else:
            sim.step()
        req_equal(sim.activity_simulator.get_occupancy(), sizes,
                  "persons at home, households of 1, 2... as in the "
                  "population %s" % counts)
        req_equal(sim.activity_simulator.get_active_occupancy(), act,
                  "active persons of households with %s residents" % sizes)
        # one appliance, used as soon as somebody is active
        want = np.where(act > 0, case["mean"], case["standby"])
        req_close(sim.appliance_simulator.get_power_demand(), want,
                  "power of the appliance")
        lights = np.where(act > 0, k * case["watts"], 0.)
        req_close(sim.light_sim.get_power_demand(), lights,
                  "power of the %d bulbs" % k)
        want = want + lights
        if case["heating"]:
            want = want + sim.heating.get_power_demand()
        req_close(sim.get_power_demand(), want, "power demand")
    now = start + case["steps"] * datetime.timedelta(minutes=1)
    if case["climate"] == "recorded":
        f = (now - first) / hour
        req_close(sim.climate.get_outside_temperature(), 2 * f - 9.,
                  "outside temperature at %s" % now, atol=0.05)
        req_close(sim.climate.get_irradiance(), 10 * f,
                  "irradiance at %s" % now, atol=0.25)
    elif case["climate"] == "drawn":
        req(sim.climate.get_irradiance() == 0., "irradiance %s although no "
            "light comes through the clouds", sim.climate.get_irradiance())
        mean = 200. + 100. * np.sin(
            2 * np.pi * now.timetuple().tm_yday / 365.)
        req(abs(sim.climate.get_outside_temperature() - mean) < 15.,
            "%s degrees, where the mean of the day is %s",
            sim.climate.get_outside_temperature(), mean)
    if case["heating"]:
        got = sim.heating.get_target_temperatures()
        req_equal(np.asarray(got["space_heating"], float),
                  np.full(n, float(case["home"])), "target temperatures")
        req({"load_heating_system_dict", "load_buildings_dict"}
            <= data.asked, "heating does not use the data set")
    if sum(c > 0 for c in counts) > 1:
        return ["sizes"]
