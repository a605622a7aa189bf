"""C26: building temperatures follow the heat balance."""
import datetime
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, req, req_close, req_equal, sub)
from props.lib_heat import (HeatData, WATER, building_st,
                            next_temperatures, system_st)

from demod.simulators.base_simulators import SimLogger
from demod.simulators.heating_simulators import (BuildingThermalDynamics,
                                                 HeatingSystem)

NODES = ["building", "interior", "emitter", "cylinder"]
STEPS = [1, 10, 30, 60, 60, 60, 120, 300, 600]

step_st = st.fixed_dictionaries({
    "out": st.integers(-20, 35), "irr": st.sampled_from([0., 0., 120., 800.]),
    "dhw": st.lists(st.sampled_from([0., 0., 50., 300.]), min_size=3,
                    max_size=3),
    "occ": st.integers(0, 300), "light": st.integers(0, 300),
    "app": st.integers(0, 2000),
    "sh": st.lists(st.integers(0, 9000), min_size=3, max_size=3),
    "hw": st.lists(st.integers(0, 9000), min_size=3, max_size=3)})


def build(case, n, target, **kw):
    data = HeatData(case["systems"], case["buildings"], system=0,
                    building=case["pick"] % len(case["buildings"])
                    if case["pick"] is not None else None)
    system = HeatingSystem(n, data=data)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return BuildingThermalDynamics(
            n, system, case["out0"], data=data, target_temperatures=target,
            step_size=datetime.timedelta(seconds=case["dt"]), **kw)


base = {
    "systems": st.lists(system_st, min_size=1, max_size=1),
    "buildings": st.lists(building_st, min_size=1, max_size=3),
    "pick": st.sampled_from([None, 0, 1, 2]),
    "out0": st.integers(-20, 35), "dt": st.sampled_from(STEPS)}


def copy_T(sim):
    return {k: np.array(v, float) for k, v in sim.get_temperatures().items()}


@sub("C26", "balance", st.fixed_dictionaries({
    **base, "n": st.integers(1, 3), "log": st.booleans(),
    "steps": st.lists(step_st, min_size=1, max_size=15)}), 1500, 20000,
     budget=200, rule="several steps, several building types or hot water "
     "drawn")
def balance(case):
    n = case["n"]
    target = 20. + np.arange(n)
    keep = target.copy()
    kw = {}
    if case["log"]:
        kw["logger"] = SimLogger("get_temperatures", aggregated=False)
    sim = build(case, n, target, **kw)
    req_equal(target, keep, "target temperatures given")
    T = copy_T(sim)
    # the starting temperatures
    req(np.all(np.abs(T["interior"] - target) <= 1), "interior starts at %s, "
        "target %s", T["interior"], target)
    req_close(T["building"], (case["out0"] + target) / 2., "walls at start")
    req(np.all((T["cylinder"] >= 50) & (T["cylinder"] <= 52)),
        "cylinder starts at %s", T["cylinder"])
    req_close(T["cold_water"], 10. + 0 * T["cold_water"], "cold water")
    bs = case["buildings"]
    pick = None if case["pick"] is None else case["pick"] % len(bs)
    allowed = [[pick] if pick is not None else list(range(len(bs)))
               for _ in range(n)]
    for h in range(n):
        allowed[h] = [k for k in allowed[h] if np.isclose(
            T["emitter"][h],
            T["interior"][h] if T["interior"][h] >= target[h]
            else bs[k]["emitters_target_temperature"])]
        req(allowed[h], "emitter starts at %s (interior %s, target %s)",
            T["emitter"][h], T["interior"][h], target[h])
    s = case["systems"][0]
    hist = [T]
    held = []
    for i, x in enumerate(case["steps"]):
        h_dhw = np.array(x["dhw"][:n])
        ho = {"space_heating": np.array(x["sh"][:n], float),
              "dhw": np.array(x["hw"][:n], float)}
        gains = [np.full(n, float(x[k])) for k in ("occ", "light", "app")]
        args = [h_dhw, *gains, *ho.values()]
        before = [a.copy() for a in args]
        for v in sim.get_temperatures().values():
            held.append((v, np.array(v)))
        sim.step(outside_temperature=x["out"], irradiance=x["irr"],
                 dhw_heating_demand=h_dhw, occupancy_thermal_gains=gains[0],
                 lighting_thermal_gains=gains[1],
                 appliances_thermal_gains=gains[2], heat_outputs=ho)
        for a, b in zip(args, before):
            req_equal(a, b, "an input of the step")
        got = copy_T(sim)
        for h in range(n):
            old = {k: (v[h] if np.ndim(v) else float(v))
                   for k, v in T.items()}
            ok = []
            for k in allowed[h]:
                want = next_temperatures(
                    old, bs[k], s, case["dt"], x["out"], x["irr"], h_dhw[h],
                    x["occ"] + x["light"] + x["app"], x["sh"][h],
                    x["hw"][h])
                if all(np.isclose(got[m][h], want[m], rtol=1e-9, atol=1e-7)
                       for m in NODES):
                    ok.append(k)
            req(ok, "step %d of household %d: temperatures %s, expected %s "
                "from %s", i, h, {m: got[m][h] for m in NODES}, want, old)
            allowed[h] = ok
        T = got
        hist.append(T)
    for v, was in held:
        req_equal(v, was, "temperatures read at an earlier step")
    if case["log"]:
        log = sim.logger.get("get_temperatures")
        for m in NODES:
            req_close(log[m], [t[m] for t in hist[:-1]], "logged " + m)
    tags = []
    if len(case["steps"]) > 2 and any(any(x["dhw"][:n])
                                      for x in case["steps"]):
        tags.append("drawn")
    if len(bs) > 1 and pick is None:
        tags.append("types")
    return tags


@sub("C26", "energy", st.fixed_dictionaries({
    **base, "steps": st.lists(step_st, min_size=2, max_size=10)}), 500, 5000,
     rule="all")
def energy(case):
    """Nothing is lost: stored heat changes by what enters and leaves."""
    case = {**case, "pick": case["pick"] or 0}
    sim = build(case, 3, np.full(3, 20.))
    b = case["buildings"][case["pick"] % len(case["buildings"])]
    s = case["systems"][0]
    caps = {"building": b["ext_capacitance"], "interior": b["int_capacitance"],
            "emitter": b["emitters_capacitance"],
            "cylinder": s["cyl_volume"] * WATER}
    T = first = copy_T(sim)
    flow, scale = 0., 1.
    for x in case["steps"]:
        h = np.array(x["dhw"])
        gains = [np.full(3, float(x[k])) for k in ("occ", "light", "app")]
        ho = {"space_heating": np.array(x["sh"], float),
              "dhw": np.array(x["hw"], float)}
        sim.step(x["out"], x["irr"], h, *gains, ho)
        flow = flow + case["dt"] * (
            b["out_build_transfer_coef"] * (x["out"] - T["building"])
            + b["ventilation_transfer_coef"] * (x["out"] - T["interior"])
            + x["irr"] * b["irradiance_multiplier"] + sum(gains)
            + ho["space_heating"] + ho["dhw"]
            - h * (T["cylinder"] - T["cold_water"]))
        T = copy_T(sim)
    stored = sum(c * (T[m] - first[m]) for m, c in caps.items())
    scale = sum(c * (np.abs(T[m]) + np.abs(first[m]))
                for m, c in caps.items())
    req(np.all(np.abs(stored - flow) <= 1e-9 * scale + 1e-6),
        "stored heat changed by %s J, %s J flowed in", stored, flow)
    return ["all"]


@sub("C26", "rest", st.fixed_dictionaries({
    **base, "k": st.integers(1, 5), "t": st.integers(-10, 30)}), 200, 1000,
     rule="all")
def rest(case):
    """Everything at one temperature and no heat: nothing changes."""
    sim = build(case, 2, np.full(2, 20.))
    T = sim.get_temperatures()
    for m in NODES:
        T[m][:] = case["t"]
    if not all(np.all(np.asarray(sim.get_temperatures()[m]) == case["t"])
               for m in NODES):
        return None     # the getter gives a copy: no way to set them
    z = np.zeros(2)
    for _ in range(case["k"]):
        sim.step(case["t"], 0., z, z, z, z,
                 {"space_heating": z, "dhw": z})
    for m in NODES:
        req_close(sim.get_temperatures()[m], np.full(2, case["t"]),
                  "temperature of %s in a uniform building" % m)
    return ["all"]


@sub("C26", "start", st.fixed_dictionaries({
    "systems": st.lists(system_st, min_size=1, max_size=1),
    "buildings": st.lists(building_st, min_size=2, max_size=3),
    "w": st.lists(st.integers(0, 4), min_size=3, max_size=3),
    "bad": st.booleans(), "seed": st.integers(0, 9999)}), 120, 800,
     rule="valid shares, several building types")
def start(case):
    """Shares of the building types and temperatures without targets."""
    bs = [{**b, "emitters_target_temperature": 40. + 5 * i}
          for i, b in enumerate(case["buildings"])]
    w = np.array(case["w"][:len(bs)], float)
    if w.sum() == 0:
        w[-1] = 1
    w /= w.sum()

    class D(HeatData):
        def load_buildings_dict(self, subgroup={}):
            d = super().load_buildings_dict()
            d["equipped_prob"] = w * (0.7 if case["bad"] else 1.)
            return d

    data = D(case["systems"], bs, system=0)
    n = 3000
    system = HeatingSystem(n, data=data)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sim = BuildingThermalDynamics(n, system, 0., data=data)
    except Exception as e:
        if case["bad"]:
            return None
        raise
    req(not case["bad"], "building shares adding up to 0.7 are accepted")
    T = sim.get_temperatures()
    em, inn = np.asarray(T["emitter"]), np.asarray(T["interior"])
    wall = np.asarray(T["building"])
    # walls tell the target, emitters the type where the room is cold
    target = 2 * wall
    from scipy.stats import kstest
    p = kstest(target, "norm", (20, 2)).pvalue
    req(p > P_REJECT, "targets are not normal (20, 2): p=%.2g", p)
    d = inn - target
    req(np.all(np.abs(d) <= 1 + 1e-9), "interior starts away from target")
    p = kstest(d, "uniform", (-1, 2)).pvalue
    req(p > P_REJECT, "starting interiors are not uniform: p=%.2g", p)
    cold = d < 0
    cnt = [int(np.isclose(em[cold], b["emitters_target_temperature"]).sum())
           for b in bs]
    req(sum(cnt) == cold.sum(), "emitters of cold rooms start at %s",
        np.unique(em[cold]))
    for c, x in zip(cnt, w):
        req(x > 0 or c == 0, "type without dwellings is used")
    p = gtest_pvalue(cnt, w)
    req(p > P_REJECT, "building types %s, shares %s (p=%.2g)", cnt, w, p)
    return ["shares"]
