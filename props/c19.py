"""C19: datasets keep what they parsed: later loads return the same values."""
import builtins
import copy
import datetime as dt
import itertools
import json
import os
import shutil
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Violation, req, req_equal, sub

import demod.datasets.base_loader as base_loader
from demod.datasets.base_loader import (
    ApplianceLoader, ClimateLoader, HeatingLoader, LightingLoader,
    PopulationLoader)
from demod.datasets.CREST.loader import Crest
from demod.datasets.tou_loader import LoaderTOU
from demod.utils.sparse import SparseTPM
from demod.utils.subgroup_handling import Subgroup

DS = os.path.dirname(os.path.abspath(base_loader.__file__))
COUNT = itertools.count()


class ParserFailure(Exception):
    pass


class scratch_dataset:
    """A dataset folder of its own; deletions are confined to it."""

    def __enter__(self):
        self.name = "PBT_%d_%d" % (os.getpid(), next(COUNT))
        self.path = os.path.join(DS, self.name)
        os.mkdir(self.path)
        self.rmtree, self.remove = shutil.rmtree, os.remove

        def inside(path):
            p = os.path.realpath(path)
            if not p.startswith(os.path.realpath(self.path) + os.sep):
                raise Violation(
                    "deletes %s, which is outside the folder of the dataset",
                    path)

        def rmtree(path, *a, **kw):
            inside(path)
            return self.rmtree(path, *a, **kw)

        def remove(path, *a, **kw):
            inside(path)
            return self.remove(path, *a, **kw)
        shutil.rmtree, os.remove = rmtree, remove
        return self

    def __exit__(self, *exc):
        shutil.rmtree, os.remove = self.rmtree, self.remove
        shutil.rmtree(self.path)


# ------------------------------------------------------------ parsed values
names = st.text(
    alphabet="abcdefgh_AZ019é", min_size=1, max_size=8).filter(
        lambda s: s not in ("file", "args", "kwds"))
fl = st.floats(-1e6, 1e6) | st.sampled_from([0.1, 1 / 3, 1e-12, 0.0])


@st.composite
def arrays(draw, dims=1, kinds="fisb"):
    shape = [draw(st.integers(1, 3)) for _ in range(dims)]
    kind = draw(st.sampled_from(kinds))
    elem = {"f": fl, "i": st.integers(-5, 2000), "b": st.booleans(),
            "s": names}[kind]
    n = int(np.prod(shape))
    return {"shape": shape, "kind": kind,
            "v": draw(st.lists(elem, min_size=n, max_size=n))}


def build(a):
    dtype = {"f": float, "i": int, "b": bool, "s": str}[a["kind"]]
    return np.array(a["v"], dtype=dtype).reshape(a["shape"])


def dict_of(values, min_size=1):
    return st.dictionaries(names, values, min_size=min_size, max_size=4)


arr_dict = dict_of(arrays())
num_dict = dict_of(fl | st.integers(0, 400))
GEO = dict_of(fl | names | st.booleans())

SGS = [{}, {"n_residents": 1}, {"n_residents": 2},
       {"n_residents": 2, "weekday": [1, 2, 3, 4, 5]},
       {"n_residents": 2, "weekday": [6, 7]},
       {"n_residents": 2, "weekday": 6},
       {"n_residents": 1, "weekday": [6, 7], "quarter": 2},
       {"n_residents": 1, "weekday": [6, 7], "quarter": 3},
       {"household_type": 2, "n_residents": 2},
       {"household_type": 3, "n_residents": 2},
       {"age": [20, 30]}, {"age": [20, 40]}, {"gender": 1, "age": 20}]

SPARSE = st.fixed_dictionaries({
    "n_times": st.integers(1, 4), "n_states": st.integers(1, 4),
    "rows": st.lists(st.tuples(
        st.integers(0, 3), st.integers(0, 3), st.integers(0, 3),
        st.floats(0.01, 1)), min_size=1, max_size=8)})


def build_sparse(a):
    cells = {}
    for t, i, j, v in a["rows"]:
        cells[(t % a["n_times"], i % a["n_states"], j % a["n_states"])] = v
    keys = sorted(cells)
    return SparseTPM(
        np.array([k[0] for k in keys]), np.array([k[1] for k in keys]),
        np.array([k[2] for k in keys]), np.array([cells[k] for k in keys]),
        n_states=a["n_states"], n_times=a["n_times"])


def dense(s):
    out = np.zeros((s.n_times, s.n_states, s.n_states))
    out[s.times, s.inds_from, s.inds_to] = s.values
    return out


def arrs(d):
    return {k: build(v) if isinstance(v, dict) else v for k, v in d.items()}


def same(got, want, what):
    """Equality of nested dicts, tuples, arrays, sparse matrices, scalars."""
    if isinstance(want, dict):
        req(isinstance(got, dict) and set(got) == set(want),
            "%s: keys %s, expected %s", what,
            sorted(got) if isinstance(got, dict) else got, sorted(want))
        for k in want:
            same(got[k], want[k], "%s[%r]" % (what, k))
    elif isinstance(want, tuple):
        req(len(got) == len(want), "%s: %d values, expected %d", what,
            len(got), len(want))
        for i, w in enumerate(want):
            same(got[i], w, "%s[%d]" % (what, i))
    elif isinstance(want, SparseTPM):
        req_equal([got.n_times, got.n_states], [want.n_times, want.n_states],
                  what + " size")
        req_equal(dense(got), dense(want), what)
    elif isinstance(want, list) and want and isinstance(want[0], dict):
        req(len(got) == len(want), "%s: %d elements, expected %d", what,
            len(got), len(want))
        for i, w in enumerate(want):
            same(dict(got[i]), w, "%s[%d]" % (what, i))
    elif isinstance(want, dt.timedelta):
        req(got == want, "%s: %s, expected %s", what, got, want)
    else:
        req_equal(got, want, what)


def scribble(x):
    """What a user may do with what was loaded."""
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
        for k in list(x)[:1]:
            del x[k]
        x["__mine__"] = 1
    elif isinstance(x, (tuple, list)):
        for v in x:
            scribble(v)
        if isinstance(x, list):
            x.append(None)
    elif isinstance(x, SparseTPM):
        x.values = x.values * 0 + 7
    elif isinstance(x, np.ndarray) and x.dtype.kind in "fi" \
            and x.flags.writeable:
        x[...] = -99


# names that are part of one another
related = st.sampled_from(["tv", "box_tv", "tv_box", "tv2", "box", "TV_2"])

# kind -> (base class, load, parser, argument kind, values, build)
# the strategy gives JSON, build gives what the parser returns
KINDS = {
    "population": (PopulationLoader, "load_population_subgroups",
                   "_parse_population_subgroups", "ptype",
                   st.fixed_dictionaries({
                       "sgs": st.lists(st.sampled_from(SGS), min_size=1,
                                       max_size=4),
                       "p": st.lists(st.floats(0, 1), min_size=4,
                                     max_size=4),
                       "n": st.integers(1, 10 ** 8)}),
                   lambda v: ([dict(s) for s in v["sgs"]],
                              np.array(v["p"][:len(v["sgs"])]), v["n"])),
    "appliances": (ApplianceLoader, "load_appliance_dict",
                   "_parse_appliance_dict", None, arr_dict,
                   lambda v: dict(arrs(v), type=np.array(["a", "b"]),
                                  number=2)),
    "profiles": (ApplianceLoader, "load_real_profiles_dict",
                 "_parse_real_profiles_dict", "profile",
                 st.dictionaries(related | names,
                                 st.dictionaries(related | names,
                                                 arrays(kinds="f"),
                                                 min_size=1, max_size=3),
                                 min_size=1, max_size=4),
                 lambda v: {k: arrs(d) for k, d in v.items()}),
    "ownership": (ApplianceLoader, "load_appliance_ownership_dict",
                  "_parse_appliance_ownership_dict", "sg_notime", num_dict,
                  dict),
    "switchons": (ApplianceLoader, "load_yearly_target_switchons",
                  "_parse_yearly_target_switchons", "sg_notime", num_dict,
                  dict),
    "consumption": (ApplianceLoader, "load_yearly_target_consumption",
                    "_parse_yearly_target_consumption", "sg_notime",
                    num_dict, dict),
    "duration": (ApplianceLoader, "load_yearly_target_duration",
                 "_parse_yearly_target_duration", "sg_notime", num_dict,
                 dict),
    "clearness": (ClimateLoader, "load_clearness_tpms",
                  "_parse_clearness_tpms", None,
                  st.tuples(arrays(2, "f"), arrays(1, "fs"),
                            st.integers(1, 3 * 10 ** 9)),
                  lambda v: (build(v[0]), build(v[1]),
                             dt.timedelta(milliseconds=v[2]))),
    "arma": (ClimateLoader, "load_temperatures_arma",
             "_parse_temperatures_arma", None, num_dict, dict),
    "geographic": (ClimateLoader, "load_geographic_data",
                   "_parse_geographic_data", None, GEO, dict),
    "fisher": (LightingLoader, "load_fisher_lighting",
               "_parse_fisher_lighting", None, num_dict, dict),
    "crest_lighting": (LightingLoader, "load_crest_lighting",
                       "_parse_crest_lighting", None, arr_dict, arrs),
    "bulbs": (LightingLoader, "load_bulbs", "_parse_bulbs", None,
              st.tuples(arrays(1, "fi"), arrays(1, "f")),
              lambda v: (build(v[0]), build(v[1]))),
    "bulbs_config": (LightingLoader, "load_bulbs_config",
                     "_parse_bulbs_config", "sg", arrays(2, "f"), build),
    "bulbs_stats": (LightingLoader, "load_installed_bulbs_stats",
                    "_parse_installed_bulbs_stats", "sg",
                    st.tuples(fl, fl), tuple),
    "buildings": (HeatingLoader, "load_buildings_dict",
                  "_parse_buildings_dict", "sg", arr_dict, arrs),
    "heating": (HeatingLoader, "load_heating_system_dict",
                "_parse_heating_system_dict", "sg", arr_dict, arrs),
    "thermostat": (HeatingLoader, "load_thermostat_dict",
                   "_parse_thermostat_dict", "sg", arr_dict,
                   lambda v: dict(arrs(v), deadband={"x": 1, "y": 2.5},
                                  setpoint=50.0)),
    "tpm": (LoaderTOU, "load_tpm", "_parse_tpm", "sg",
            st.tuples(arrays(3, "f"), arrays(1, "si"), arrays(1, "f")),
            lambda v: tuple(build(a) for a in v) + ({"n": 1},)),
    "tpm_duration": (LoaderTOU, "load_tpm_with_duration",
                     "_parse_tpm_with_duration", "sg",
                     st.tuples(arrays(3, "f"), arrays(3, "f"),
                               arrays(1, "s"), arrays(1, "f"),
                               arrays(2, "f")),
                     lambda v: tuple(build(a) for a in v) + ({"n": 1},)),
    "sparse": (LoaderTOU, "load_sparse_tpm", "_parse_sparse_tpm", "sg",
               st.tuples(SPARSE, arrays(2, "i"), arrays(1, "s"),
                         arrays(1, "f")),
               lambda v: (build_sparse(v[0]),) + tuple(
                   build(a) for a in v[1:]) + ({"n": 1},)),
    "act_profiles": (LoaderTOU, "load_activity_probability_profiles",
                     "_parse_activity_profiles", "sg",
                     dict_of(arrays(2, "f")), arrs),
    "act_starts": (LoaderTOU, "load_daily_activity_starts",
                   "_parse_daily_activity_starts", "sg",
                   dict_of(arrays(1, "f")), arrs),
    "act_durations": (LoaderTOU, "load_activity_duration",
                      "_parse_activity_duration", "sg",
                      dict_of(arrays(1, "f")), arrs),
    "act_probs": (LoaderTOU, "load_activity_probabilities",
                  "_parse_activity_probabilities", "sg",
                  dict_of(arrays(1, "f")), arrs),
    "crest_tpm": (Crest, "load_tpm", "_parse_tpm", "crest_sg",
                  st.tuples(arrays(3, "f"), arrays(1, "i"), arrays(1, "f")),
                  lambda v: tuple(build(a) for a in v)),
    "climate": (ClimateLoader, "load_historical_climate_data",
                "_parse_historical_climate_data", "start",
                dict_of(st.lists(fl, min_size=3, max_size=3)),
                lambda v: dict({k: np.array(a) for k, a in v.items()},
                               datetime=np.array(
                                   ["2014-01-01T00", "2014-01-01T01",
                                    "2014-01-01T02"], dtype="datetime64"))),
}
# the tpm of an activity type is either dense or sparse
GROUPS = [[k for k in KINDS if k != "sparse"],
          [k for k in KINDS if k not in ("tpm",)]]

ARGS = {
    None: [None],
    "ptype": ["resident_number", "household_types", "crest"],
    "profile": ["full", "switchedON", "switchedOFF"],
    "sg": SGS, "sg_notime": SGS,
    "crest_sg": [{"n_residents": n, "weekday": w} for n in (1, 2, 6)
                 for w in ([1, 2, 3, 4, 5], [6, 7])],
    "start": [None],
}


def argument(kind, i):
    pool = ARGS[KINDS[kind][3]]
    return pool[i % len(pool)]


def arg_key(kind, arg):
    if KINDS[kind][3] == "sg_notime":
        arg = {k: v for k, v in arg.items() if k not in (
            "weekday", "quarter")}
    return json.dumps(arg, sort_keys=True)


@st.composite
def cases(draw):
    group = draw(st.sampled_from(GROUPS))
    kinds = draw(st.lists(st.sampled_from(group), min_size=1, max_size=3,
                          unique=True))
    load = st.tuples(
        st.just("load"), st.integers(0, len(kinds) - 1), st.integers(0, 20),
        st.integers(0, 3), st.booleans(), st.booleans(),
        st.sampled_from([0, 0, 0, 0, 1]))
    clear = st.tuples(st.just("clear"), st.integers(0, 3),
                      st.sampled_from(["yes", "no"]))
    ops = draw(st.lists(st.one_of(load, load, load, load, clear),
                        min_size=2, max_size=12))
    n_loads = sum(o[0] == "load" for o in ops)
    # the values the parsers will return, in order
    values = [draw(KINDS[kinds[o[1]]][4]) for o in ops if o[0] == "load"]
    return {"kinds": kinds, "ops": ops, "values": values, "n": n_loads,
            "types": draw(st.booleans())}


VERSIONS = [None, "v1", "v2", "v1"]
TYPES = ["4_States", "4_States", "4_States", "Other"]


def make_loader(name, kind, slot, parse, with_types, clear=None):
    base, _, parser, _, _, _ = KINDS[kind]
    cls = type("Stub", (base,), {
        "DATASET_NAME": name, "step_size": dt.timedelta(hours=1),
        parser: parse})
    kw = {} if clear is None else {"clear_parsed_data": True}
    version = VERSIONS[slot]
    if base is Crest:
        v = {None: "0", "v1": "1", "v2": "2"}[version]
        raw = os.path.join(DS, name, "raw_data")
        os.makedirs(raw, exist_ok=True)
        open(os.path.join(
            raw, "CREST_Demand_Model_v%s.xlsm" % v), "ab").close()
        return cls(v, **kw)
    args = ()
    if base is LoaderTOU:
        args = (TYPES[slot],) if with_types else ()
    return cls(*args, version=version, **kw)


def cache_place(kind, slot, with_types):
    version = VERSIONS[slot]
    if KINDS[kind][0] is Crest:
        version = "v_" + {None: "0", "v1": "1", "v2": "2"}[version]
    typ = None
    if KINDS[kind][0] is LoaderTOU:
        typ = TYPES[slot] if with_types else "4_States"
    return version, typ


@sub("C19", "histories", cases(), quick=450, thorough=12000, budget=140,
     rule="a value is loaded again from what was saved")
def histories(case):
    return run_history(case)


@st.composite
def every_argument(draw, kind):
    n = len(ARGS[KINDS[kind][3]])
    order = draw(st.permutations(range(n)))
    slots = draw(st.lists(st.integers(0, 3), min_size=1, max_size=3))
    spoil = draw(st.booleans())
    ops = [("load", 0, i, slots[k % len(slots)], False, spoil, 0)
           for k, i in enumerate(order)]
    # the same again, from other loaders
    ops += [("load", 0, i, s, True, False, 0)
            for i in range(n) for s in slots[:1]]
    pool = draw(st.lists(KINDS[kind][4], min_size=4, max_size=4))
    values = [pool[k % 4] for k in range(len(ops))]
    return {"kinds": [kind], "ops": ops, "values": values,
            "n": len(ops), "types": draw(st.booleans())}


def arguments(case):
    """All the subgroups (or types) one after the other."""
    return run_history(case)


for k_ in [k for k in KINDS if len(ARGS[KINDS[k][3]]) > 1]:
    sub("C19", "arguments-" + k_, every_argument(k_), quick=10,
        thorough=200, budget=20,
        rule="a value is loaded again from what was saved")(arguments)


BASES = {}
for k_ in KINDS:
    if k_ != "sparse":
        BASES.setdefault(KINDS[k_][0].__name__, []).append(k_)


@st.composite
def whole_loader(draw, kinds):
    """Everything that a loader gives, for some subgroups, then again."""
    kinds = draw(st.permutations(kinds))
    args = draw(st.lists(st.integers(0, 20), min_size=1, max_size=2,
                         unique=True))
    slots = draw(st.lists(st.integers(0, 2), min_size=1, max_size=2,
                          unique=True))
    loads = [("load", k, a, s, False, False, 0)
             for s in slots for a in args for k in range(len(kinds))]
    ops = loads + [("load", k, a, s, True, False, 0)
                   for _, k, a, s, *_ in loads]
    values = [draw(KINDS[kinds[o[1]]][4]) for o in loads] * 2
    return {"kinds": list(kinds), "ops": ops, "values": values,
            "n": len(ops), "types": draw(st.booleans())}


for base_, kinds_ in BASES.items():
    if len(kinds_) > 1:
        sub("C19", "together-" + base_, whole_loader(kinds_), quick=12,
            thorough=300, budget=20,
            rule="a value is loaded again from what was saved")(arguments)


def run_history(case):
    tags = set()
    model = {}                 # (kind, version, type, arg) -> value
    values = iter(case["values"])
    calls = []
    state = {"next": None, "fail": False}

    def parse(self, *args):
        calls.append(copy.deepcopy(args))
        if state["fail"]:
            raise ParserFailure("raw data")
        return KINDS[state["kind"]][5](copy.deepcopy(state["next"]))

    loaders = {}
    with scratch_dataset() as ds, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for step, op in enumerate(case["ops"]):
            op = list(op)
            if op[0] == "load":
                _, k, a, slot, fresh, spoil, fail = op
                kind = case["kinds"][k]
                arg = argument(kind, a)
                state.update(kind=kind, next=next(values), fail=bool(fail))
                if fresh or (kind, slot) not in loaders:
                    loaders[kind, slot] = make_loader(
                        ds.name, kind, slot, parse, case["types"])
                loader = loaders[kind, slot]
                load = getattr(loader, KINDS[kind][1])
                key = (kind,) + cache_place(kind, slot, case["types"]) + (
                    arg_key(kind, arg),)
                what = "step %d, %s(%s)" % (step, KINDS[kind][1], arg)
                calls.clear()
                given = copy.deepcopy(arg)
                if isinstance(given, dict) and step % 3:
                    # the same group spelled otherwise
                    given = dict(list(given.items())[::-1])
                    if step % 3 == 2:
                        given = Subgroup(given)
                if KINDS[kind][3] == "start":
                    args = (dt.datetime(2014, 1, 1),)
                elif arg is None:
                    args = ()
                else:
                    args = (given,)
                try:
                    got = load(*args)
                except ParserFailure:
                    req(fail and key not in model,
                        "%s: parses again what was already saved", what)
                    tags.add("failing-parser")
                    continue
                if key in model:
                    req(not calls, "%s: parses again what was already saved",
                        what)
                    want = model[key]
                    tags.add("reloaded:" + kind)
                else:
                    req(calls, "%s: returns %s although nothing was parsed",
                        what, str(got)[:200])
                    req(not fail, "%s: the failure of the parser is hidden",
                        what)
                    req(len(calls) == 1, "%s: parses %d times", what,
                        len(calls))
                    if isinstance(arg, (dict, str)):
                        req(calls[0] and calls[0][0] == arg,
                            "%s: parser asked for %s", what, calls[0])
                    want = KINDS[kind][5](copy.deepcopy(state["next"]))
                    if isinstance(want, tuple) and isinstance(
                            want[-1], dict):
                        want = want[:-1]        # the legend
                    model[key] = want
                    tags.add("parsed")
                req(given == arg, "%s: changes the subgroup given to %s",
                    what, given)
                same(got, want, what)
                if spoil:
                    scribble(got)
            else:
                _, slot, answer = op
                kind = case["kinds"][0]
                version = cache_place(kind, slot, case["types"])[0]
                asked = []
                real_input = builtins.input
                builtins.input = lambda *a: (asked.append(a), answer)[1]
                try:
                    loaders.clear()
                    state.update(kind=kind, fail=False)
                    make_loader(ds.name, kind, slot, parse, case["types"],
                                clear=True)
                finally:
                    builtins.input = real_input
                if version is None:
                    req(asked, "erases all the versions without asking")
                    if answer == "yes":
                        model.clear()
                        tags.add("cleared-all")
                else:
                    for key in [m for m in model if m[1] == version]:
                        del model[key]
                    tags.add("cleared-version")
    return [t for t in tags if t.startswith("reloaded")
            or t in ("failing-parser",)] and sorted(tags)


# ----------------------------------------------- countries and weightings
from demod.datasets.RenewablesNinja.loader import (  # noqa: E402
    NinjaRenewablesClimate)

COLS = ["precipitation", "temperature", "irradiance_surface",
        "irradiance_toa", "snowfall", "snow_mass", "cloud_cover",
        "air_density"]
CODES = {"germany": "DE", "switzerland": "CH", "england": "GB", "DE": "DE",
         "CH": "CH", "FR": "FR"}


def ninja_csv(rows, start="2014-01-01"):
    t0 = dt.datetime.fromisoformat(start)
    out = ["# renewables ninja", "# units", "time," + ",".join(COLS)]
    for i, r in enumerate(rows):
        out.append((t0 + dt.timedelta(hours=i)).strftime("%Y-%m-%d %H:%M")
                   + "," + ",".join(repr(float(x)) for x in r))
    return "\n".join(out) + "\n"


@sub("C19", "climates", st.fixed_dictionaries({
    "ops": st.lists(st.tuples(
        st.sampled_from(sorted(CODES)),
        st.sampled_from(["population", "land_area"]),
        st.sampled_from([None, None, "v1", "v2"])), min_size=2, max_size=8),
    "seed": st.integers(0, 10 ** 6)}), 80, 2500, budget=60,
     rule="two weightings of a country or two countries are loaded")
def climates(case):
    rng = np.random.RandomState(case["seed"])
    raw = {}
    with scratch_dataset() as ds, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        os.mkdir(os.path.join(ds.path, "raw_data"))
        for code in sorted(set(CODES.values())):
            for w in ("population", "land_area"):
                raw[code, w] = rng.randint(0, 10 ** 6, (4, len(COLS))) / 64.
                with open(os.path.join(ds.path, "raw_data", "%s_%s.csv" % (
                        code, w)), "w") as f:
                    f.write(ninja_csv(raw[code, w]))
        cls = type("Stub", (NinjaRenewablesClimate,),
                   {"DATASET_NAME": ds.name})
        for i, (country, w, version) in enumerate(case["ops"]):
            loader = cls(country, weighted_type=w, version=version)
            got = loader.load_historical_climate_data(
                dt.datetime(2014, 1, 1))
            want = raw[CODES[country], w]
            for key, col in (("outside_temperature", "temperature"),
                             ("precipitation", "precipitation"),
                             ("air_density", "air_density")):
                req_equal(got[key], want[:, COLS.index(col)],
                          "load %d of %s weighted by %s: %s" % (
                              i, country, w, key))
    used = {(CODES[c], w) for c, w, _ in case["ops"]}
    return ["%d-sources" % min(len(used), 4)] if len(used) > 1 else []
