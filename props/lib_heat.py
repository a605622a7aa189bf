"""Stub data and reference model of the heating components."""
import numpy as np
from hypothesis import strategies as st

SYSTEM_KEYS = ["pump_power", "standby_power", "fuel_flow_rate",
               "flow_rate_to_W", "heat_output_sh", "heat_output_dhw",
               "cyl_loss", "cyl_volume"]
BUILD_KEYS = ["emitters_target_temperature", "emitters_capacitance",
              "emitters_transfer_coef", "ext_capacitance", "int_capacitance",
              "build_int_transfer_coef", "out_build_transfer_coef",
              "ventilation_transfer_coef", "floor_area",
              "irradiance_multiplier"]

WATER = 4200.


def _p(lo, hi):
    return st.floats(lo, hi).map(lambda x: round(x, 3))


system_st = st.fixed_dictionaries({
    "fuel_type": st.sampled_from(["Mainsgas", "Electricity"]),
    "is_combi": st.booleans(),
    "pump_power": _p(5, 60), "standby_power": _p(0, 12),
    "fuel_flow_rate": _p(0.5, 4), "flow_rate_to_W": _p(500, 30000),
    "heat_output_sh": _p(500, 25000), "heat_output_dhw": _p(500, 25000),
    "cyl_loss": _p(0, 4), "cyl_volume": _p(5, 200)})

building_st = st.fixed_dictionaries({
    "emitters_target_temperature": _p(40, 60),
    "emitters_capacitance": _p(1e5, 4e5),
    "emitters_transfer_coef": _p(60, 300),
    "ext_capacitance": _p(1e7, 4e7),
    "int_capacitance": _p(4e5, 2e6),
    "build_int_transfer_coef": _p(150, 600),
    "out_build_transfer_coef": _p(100, 600),
    "ventilation_transfer_coef": _p(10, 80),
    "floor_area": _p(30, 150),
    "irradiance_multiplier": _p(0.5, 6)})

thermostat_st = st.fixed_dictionaries({
    "home": st.lists(st.integers(13, 27), min_size=1, max_size=3,
                     unique=True),
    "water": st.lists(st.integers(40, 62), min_size=1, max_size=3,
                      unique=True),
    "emitter": st.sampled_from([45., 50., 55.]),
    "db": st.tuples(st.sampled_from([0.5, 1., 2.]),
                    st.sampled_from([2., 5.]), st.sampled_from([3., 5.]))})


class HeatData:
    """Systems and buildings: the one used has all the probability, or all
    of them have the same probability."""

    def __init__(self, systems=None, buildings=None, thermostat=None,
                 system=None, building=None):
        self.systems, self.buildings = systems, buildings
        self.thermostat = thermostat
        self.pick_s, self.pick_b = system, building

    @staticmethod
    def _prob(n, pick):
        if pick is None:
            p = np.full(n, 1. / n)
        else:
            p = np.zeros(n)
            p[pick] = 1.
        return p

    def load_heating_system_dict(self, subgroup={}):
        s = self.systems
        d = {k: np.array([x[k] for x in s], float) for k in SYSTEM_KEYS}
        d["equipped_prob"] = self._prob(len(s), self.pick_s)
        d["name"] = np.array(["sys%d" % i for i in range(len(s))])
        d["fuel_type"] = np.array([x["fuel_type"] for x in s])
        d["is_combi"] = np.array([x["is_combi"] for x in s], bool)
        d["number"] = len(s)
        return d

    def load_buildings_dict(self, subgroup={}):
        b = self.buildings
        d = {k: np.array([x[k] for x in b], float) for k in BUILD_KEYS}
        d["equipped_prob"] = self._prob(len(b), self.pick_b)
        d["name"] = np.array(["b%d" % i for i in range(len(b))])
        d["height"] = np.full(len(b), 2.5)
        d["number"] = len(b)
        return d

    def load_thermostat_dict(self, subgroup={}):
        t = self.thermostat

        def cdf(v):
            c = np.cumsum(np.full(len(v), 1. / len(v)))
            c[-1] = 1.
            return c

        return {"home_temperatures_cdf": cdf(t["home"]),
                "home_temperatures_values": np.array(t["home"], float),
                "water_temperatures_cdf": cdf(t["water"]),
                "water_temperatures_values": np.array(t["water"], float),
                "emitter_setpoints": t["emitter"],
                "deadband": {"space_heating": t["db"][0],
                             "hot_water": t["db"][1],
                             "emitter": t["db"][2]}}


# ---------------------------------------------------------------- the model
def next_temperatures(T, b, s, dt, out, irr, h_dhw, gains, phi_sh, phi_dhw):
    """Temperatures one step later, from the heat balance of each node.

    b, s: parameters of building and system, scalars or per household."""
    c_cyl = np.asarray(s["cyl_volume"]) * WATER
    wall_in = b["build_int_transfer_coef"] * (T["building"] - T["interior"])
    out_wall = b["out_build_transfer_coef"] * (out - T["building"])
    vent = b["ventilation_transfer_coef"] * (out - T["interior"])
    emit = b["emitters_transfer_coef"] * (T["emitter"] - T["interior"])
    loss = s["cyl_loss"] * (T["cylinder"] - T["interior"])
    draw = h_dhw * (T["cylinder"] - T["cold_water"])
    sun = irr * b["irradiance_multiplier"]
    return {
        "building": T["building"] + dt * (out_wall - wall_in)
        / b["ext_capacitance"],
        "interior": T["interior"] + dt * (wall_in + vent + emit + loss + sun
                                          + gains) / b["int_capacitance"],
        "emitter": T["emitter"] + dt * (phi_sh - emit)
        / b["emitters_capacitance"],
        "cylinder": T["cylinder"] + dt * (phi_dhw - loss - draw) / c_cyl,
        "cold_water": T["cold_water"]}


def next_thermostat(on, temp, target, band):
    """Hysteresis: on until target + band, off until target - band."""
    return np.where(on, temp < target + band, temp <= target - band)


def demand(T, target, db, b, s, dt, out, h_dhw, algo):
    c_cyl = s["cyl_volume"] * WATER
    dhw = (c_cyl * (target["dhw"] + db["hot_water"] - T["cylinder"]) / dt
           + h_dhw * (T["cylinder"] - T["cold_water"])
           + s["cyl_loss"] * (T["cylinder"] - T["interior"]))
    emit = b["emitters_transfer_coef"] * (T["emitter"] - T["interior"])
    if algo == "heat_max_emmiters":
        sh = (b["emitters_capacitance"]
              * (target["emitter"] + db["emitter"] - T["emitter"]) / dt
              + emit)
    else:
        wall = 1 / (1 / b["build_int_transfer_coef"]
                    + 1 / b["out_build_transfer_coef"])
        sh = (b["int_capacitance"] * (target["space_heating"]
                                      + db["space_heating"]
                                      - T["interior"]) / dt - emit
              + (b["ventilation_transfer_coef"] + wall)
              * (T["interior"] - out))
    return {"dhw": dhw, "space_heating": sh}


def outputs(dem, water, space, s):
    """Heat delivered; hot water has the priority."""
    dhw = np.where(water, np.clip(dem["dhw"], 0, s["heat_output_dhw"]), 0.)
    room = np.maximum(s["heat_output_sh"] - dhw, 0.)
    sh = np.where(space, np.clip(dem["space_heating"], 0, room), 0.)
    return {"dhw": dhw, "space_heating": sh, "total": dhw + sh}


def take(params, kinds, keys):
    """Parameters of the kinds of each household as arrays."""
    return {k: np.array([params[i][k] for i in kinds]) for k in keys}
