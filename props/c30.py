"""C30: datasets return what is written in their raw files."""
import datetime as dt
import io
import json
import os
import shutil
import warnings

import numpy as np
import openpyxl
import pandas as pd
from hypothesis import strategies as st

from pbt.core import raises, req, req_close, req_equal, sub
from props.c19 import CODES, COLS, DS, ninja_csv, scratch_dataset

from demod.datasets.DESTATIS.loader import Destatis
from demod.datasets.ExcellInputFile.loader import InputFileLoader
from demod.datasets.FfE_Open_Data import FfE_DataLoader
from demod.datasets.Germany.loader import GermanDataHerus
from demod.datasets.OpenPowerSystems.loader import OpenPowerSystemClimate
from demod.datasets.RenewablesNinja.loader import NinjaRenewablesClimate
from demod.datasets.tracebase.loader import Tracebase


def stub(cls, ds):
    os.makedirs(os.path.join(ds.path, "raw_data"), exist_ok=True)
    return type("Stub", (cls,), {"DATASET_NAME": ds.name})


# ---------------------------------------------------------------- tracebase
# folders of the dataset and the type of appliance they hold
FOLDERS = {"Dishwasher": "dishwasher", "Washingmachine": "washingmachine",
           "Iron": "iron", "MicrowaveOven": "microwave", "Lamp": "lamp",
           "Projector": "projector", "VideoProjector": "projector",
           "LaundryDryer": "dryer", "TV-LCD": "lcd_tv",
           "WaterFountain": None, "Charger-PSP": None}
# complete cycles of washing machines and others, see the documentation
CYCLES = {"Dishwasher": ["dev_995BAC_2012.06.11.csv",
                         "dev_B7E6F4_2012.02.03.csv"],
          "Washingmachine": ["Washingmachine_2011.11.30.csv",
                             "dev_D338C9_2012.05.16.csv"],
          "LaundryDryer": ["dev_B7E43D_2012.01.24.csv"],
          "Iron": ["dev_D337C2_2011.12.26.csv"],
          "MicrowaveOven": ["Microwave_2012.01.02.csv"]}

measures = st.fixed_dictionaries({
    "folder": st.sampled_from(sorted(FOLDERS)),
    "cycle": st.sampled_from([0, 0, 1, 2]),
    "day": st.integers(1, 28), "start": st.integers(0, 86000),
    # delays between measures [s]
    "gaps": st.lists(st.sampled_from([1, 1, 1, 2, 3, 8, 60, 299]),
                     min_size=1, max_size=60),
    "end": st.sampled_from([None, None, 1, 2, 3]),  # in numbers of steps
    "idle": st.tuples(st.integers(0, 20), st.integers(0, 20)),
    "seed": st.integers(0, 10 ** 6)})


def write_measures(case, name, folder, step):
    """Write a file, return the load of each second."""
    rng = np.random.RandomState(case["seed"])
    secs = np.cumsum([case["start"]] + case["gaps"])
    secs = secs[secs < 86400]
    if len(secs) < 2:
        secs = np.array([86390, 86399])
    loads = rng.choice([0, 0, 3, 5, 7, 60, 100, 2000], len(secs))
    a, b = case["idle"]
    if a + b < len(secs):
        loads[:a], loads[len(secs) - b:] = 0, 5
    if case["end"]:
        # an exact number of steps
        last = secs[0] + case["end"] * step
        if last < 86400:
            keep = secs < last
            secs = np.append(secs[keep], last)
            loads = np.append(loads[keep], 50)
    if not (loads > 6).any():
        loads[len(loads) // 2] = 500
    with open(os.path.join(folder, name), "w") as f:
        for s, x in zip(secs, loads):
            t = dt.datetime(2012, 1, case["day"]) + dt.timedelta(
                seconds=int(s))
            f.write("%s;%d;%d\n" % (t.strftime("%d/%m/%Y %H:%M:%S"), x,
                                    rng.randint(0, 99)))
    return [np.interp(s, secs, loads) for s in range(secs[0], secs[-1])]


def in_steps(second, step):
    n = len(second) // step
    out = [np.mean(second[i * step:(i + 1) * step]) for i in range(n)]
    return out, second[n * step:]


@sub("C30", "measurements", st.fixed_dictionaries({
    "files": st.lists(measures, min_size=1, max_size=6),
    "steps": st.lists(st.sampled_from([1, 2, 7, 10, 60, 60, 300, 1800]),
                      min_size=1, max_size=3, unique=True)}), 80, 1500,
     budget=60, rule="measures of a known type last over more than a step")
def measurements(case):
    steps_s, tags = case["steps"], set()
    with scratch_dataset() as ds, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cls = stub(Tracebase, ds)
        raw = os.path.join(ds.path, "raw_data")
        open(os.path.join(raw, "raw_github.zip"), "w").close()
        want, cycles = {}, {}
        for i, c in enumerate(case["files"]):
            folder = os.path.join(raw, "tracebase-master", "complete",
                                  c["folder"])
            os.makedirs(folder, exist_ok=True)
            name = "dev_%d.csv" % i
            cyc = CYCLES.get(c["folder"], [])
            if c["cycle"] and c["cycle"] <= len(cyc):
                name = cyc[c["cycle"] - 1]
            got = write_measures(c, name, folder, steps_s[0])
            kind = FOLDERS[c["folder"]]
            if kind is None:
                tags.add("unknown-type")
                continue
            want.setdefault(kind, {})[name] = got
            if name in cyc:
                cycles.setdefault(kind, {})[name] = got
        for step in steps_s + steps_s:
            data = cls(step_size=dt.timedelta(seconds=step))
            for kind in ("full", "switchedON"):
                found = data.load_real_profiles_dict(kind)
                model = {a: {k: in_steps(x, step) for k, x in v.items()}
                         for a, v in want.items()}
                if kind == "switchedON":
                    all_ = {a: {k: in_steps(x, step) for k, x in v.items()}
                            for a, v in cycles.items()}
                    model, unclear = cycles_of(all_, step)
                    if unclear:
                        continue
                    if model != all_:
                        tags.add("never-on")
                req(set(found) == set(model), "%s profiles of %s, expected "
                    "%s", kind, set(found), set(model))
                for app, v in model.items():
                    req(set(found[app]) == set(v), "%s profiles of %s: %s, "
                        "expected %s", kind, app, set(found[app]), set(v))
                    for name, (steps, rest) in v.items():
                        tags |= check_profile(
                            found[app][name], steps, rest, step, kind,
                            "%s profile %s of %s" % (kind, name, app))
            req(raises(NotImplementedError, data.load_real_profiles_dict,
                       "other"), "profiles of an unknown kind")
    return sorted(tags) if tags & {"steps", "cycle"} else []


def cycles_of(cycles, step):
    """Cycles which are on at some step; whether that is unclear."""
    out = {}
    for app, v in cycles.items():
        for name, (steps, rest) in v.items():
            full = np.array(steps)
            last = [np.sum(rest) / step, np.mean(rest)] if rest else []
            every = np.concatenate((full, last))
            if np.any(np.abs(every - 6) < 1e-6) or (
                    (every > 6).any() and not (full > 6).any()):
                return None, True
            if (full > 6).any():
                out.setdefault(app, {})[name] = (steps, rest)
    return out, False


def check_profile(got, steps, rest, step, kind, what):
    got = np.asarray(got, float)
    tags = set()
    # the last, incomplete, step: mean over the rest or over a whole step
    ends = [[]] if not rest else [[np.sum(rest) / step], [np.mean(rest)],
                                  []]
    options = [np.array(steps + e) for e in ends]
    if kind == "switchedON":
        options = [o[np.flatnonzero(o > 6)[0]:np.flatnonzero(o > 6)[-1] + 1]
                   for o in options]
        tags.add("cycle")
    elif len(steps) > 1:
        tags.add("steps")
        if not rest:
            tags.add("whole-steps")
    if not any(o.shape == got.shape and np.allclose(o, got, rtol=1e-9,
                                                    atol=1e-9)
               for o in options):
        req_close(got, options[0], what)
    return tags


# ----------------------------------------------------------------- climates
@sub("C30", "exports", st.fixed_dictionaries({
    "kind": st.sampled_from(["ninja", "ninja", "ops"]),
    "country": st.sampled_from(["germany", "switzerland"]),
    "start": st.sampled_from(["1980-01-01", "2014-12-31", "2016-02-28"]),
    "n": st.integers(1, 60), "seed": st.integers(0, 10 ** 6)}), 80, 1500,
     budget=60, rule="any")
def exports(case):
    rng = np.random.RandomState(case["seed"])
    n, code = case["n"], CODES[case["country"]]
    start = dt.datetime.fromisoformat(case["start"])
    with scratch_dataset() as ds, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        raw = os.path.join(ds.path, "raw_data")
        if case["kind"] == "ninja":
            cls = stub(NinjaRenewablesClimate, ds)
            rows = rng.randint(-2000, 10 ** 5, (n, len(COLS))) / 64.
            with open(os.path.join(raw, code + "_population.csv"), "w") as f:
                f.write(ninja_csv(rows, case["start"]))
            col = dict(zip(COLS, rows.T))
            want = {"outside_temperature": col["temperature"],
                    "irradiance": col["irradiance_surface"]}
            for k in ("precipitation", "snowfall", "snow_mass",
                      "air_density"):
                want[k] = col[k]
        else:
            cls = stub(OpenPowerSystemClimate, ds)
            cols = [c + q for c in ("AT", "DE", "CH", "FR") for q in (
                "_temperature", "_radiation_direct_horizontal",
                "_radiation_diffuse_horizontal")]
            rows = rng.randint(-2000, 10 ** 5, (n, len(cols))) / 64.
            order = rng.permutation(len(cols))
            with open(os.path.join(raw, "weather_data.csv"), "w") as f:
                f.write("utc_timestamp," + ",".join(
                    cols[i] for i in order) + "\n")
                for i in range(n):
                    t = start + i * dt.timedelta(hours=1)
                    f.write(t.strftime("%Y-%m-%dT%H:%M:%SZ") + "," + ",".join(
                        repr(float(rows[i, j])) for j in order) + "\n")
            col = dict(zip(cols, rows.T))
            want = {"outside_temperature": col[code + "_temperature"],
                    "irradiance": col[code + "_radiation_direct_horizontal"]
                    + col[code + "_radiation_diffuse_horizontal"]}
        got = cls(case["country"]).load_historical_climate_data(start)
        req_equal(got["datetime"].astype("datetime64[s]").astype(str),
                  np.array([start + i * dt.timedelta(hours=1) for i in
                            range(n)], "datetime64[s]").astype(str), "times")
        for k, v in want.items():
            req_close(got[k], v, k)
    return [case["kind"]]


# ------------------------------------------------------------ load profiles
@sub("C30", "households", st.fixed_dictionaries({
    "types": st.lists(st.integers(1, 11), min_size=1, max_size=5),
    "n": st.integers(1, 6), "labels": st.lists(
        st.booleans(), min_size=1, max_size=3),
    "seed": st.integers(0, 10 ** 6)}), 60, 1000, budget=60, rule="any")
def households(case):
    rng = np.random.RandomState(case["seed"])
    elec, heat, e_want, h_want = [], [], [], []
    for i, t in enumerate(case["types"]):
        phases = rng.randint(1, 4000, (3, case["n"])) / 1024.
        loads = [phases.sum(axis=0)] + list(phases)
        for phase in rng.permutation(4):
            elec.append({"values": list(loads[phase]), "internal_id_1": t,
                         "internal_id_2": int(phase)})
        e_want.append(loads[0])
        h_want.append(rng.randint(1, 4000, case["n"]) / 8.)
        heat.append({"values": list(h_want[-1]), "internal_id_1": t})
    with scratch_dataset() as ds, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cls = stub(FfE_DataLoader, ds)
        for name, d in (("electric", elec), ("thermal", heat)):
            with open(os.path.join(ds.path, "raw_data",
                                   "v_opendata_%s_load.htm" % name),
                      "w") as f:
                json.dump({"data": [d]}, f)
        data = cls(allow_pickle=True)
        for lab in case["labels"]:
            for load, want in (
                    (data.load_electric_load_profiles,
                     1000 * np.array(e_want)),
                    (lambda **kw: data.load_electric_load_profiles(
                        convert_to_watts=False, **kw), np.array(e_want)),
                    (data.load_thermal_load_profiles, np.array(h_want))):
                got = load(return_labels=lab)
                labels = None
                if lab:
                    got, labels = got
                    req([d["hh_type"] for d in labels] == case["types"],
                        "profiles of %s, expected %s", labels, case["types"])
                req_close(got, want, "loads")
    return ["labels"] if True in case["labels"] else ["loads"]


# ------------------------------------------------------------- spreadsheets
BOOKS = {"inputs": os.path.join(DS, "ExcellInputFile", "inputs.xlsx"),
         "v0.1": os.path.join(DS, "Germany", "raw_data", "data_v0.1.xlsx"),
         "vBottaccioli": os.path.join(DS, "Germany", "raw_data",
                                      "data_vBottaccioli.xlsx")}
TABLES = {"Appliances": 15, "Buildings": 5, "Heating Systems": 5}
CELLS = {"irradiance_threshold_mean": "F4", "irradiance_threshold_std": "G4",
         "calibration_scalar": "F24"}
# name: cells of a column of the sheet
COLUMNS = {"effective_occupancy": ("E", 37, 6),
           "durations_minutes_low": ("C", 55, 9),
           "durations_minutes_high": ("D", 55, 9),
           "durations_cdf": ("E", 55, 9)}
NAMES = ["X 1", "a_b", "fridge ", " two words", "NONE", "TV", "Level 3"]
FLAGS = ("inactive_switch_off", "uses_water", "probabilistic", "is_combi")


def headers(ws, row):
    return {str(c.value).replace(" ", ""): c.column for c in ws[row]
            if c.value is not None}


def last_row(ws, row):
    """Last row with something written."""
    return max(r for r in range(row, ws.max_row + 1)
               if any(c.value is not None for c in ws[r]))


def cell(value):
    if isinstance(value, str) and value.startswith("#"):
        value = None                  # an error of the spreadsheet
    return value.replace(" ", "") if isinstance(value, str) else (
        np.nan if value is None else value)


def edit(wb, case):
    rng = np.random.RandomState(case["seed"])
    done = set()
    for sheet, at, number in case["edits"]:
        ws = wb[sheet]
        if sheet == "Lighting" and at % 11 == 0:
            ws["G4"].value = ws["F4"].value
            done.add("equal")
            continue
        if sheet == "Lighting":
            spots = list(CELLS.values()) + [
                "%s%d" % (c, r + i) for c, r, n in COLUMNS.values()
                for i in range(n)] + ["D70", "D71"]
            spots += ["%s%d" % (c, r) for c in "DE" for r in range(77, 80)]
            ws[spots[at % len(spots)]].value = number
            done.add("lighting")
            continue
        head = headers(ws, TABLES[sheet])
        last = last_row(ws, TABLES[sheet])
        name = sorted(head)[at % len(head)]
        c = ws.cell(TABLES[sheet] + 1 + (at // 7) % (last - TABLES[sheet]),
                    head[name])
        if name in FLAGS:
            c.value = bool(number > 0)
        elif any(isinstance(cell(ws.cell(r, head[name]).value), str)
                 for r in range(TABLES[sheet] + 1, last + 1)):
            c.value = NAMES[rng.randint(len(NAMES))]
        else:
            c.value = number
        done.add(sheet)
    if case["more"]:
        # another line in a table
        sheet = sorted(TABLES)[case["more"] % 3]
        ws = wb[sheet]
        last = last_row(ws, TABLES[sheet])
        for name, col in headers(ws, TABLES[sheet]).items():
            old = ws.cell(last, col).value
            ws.cell(last + 1, col).value = (
                "new one" if isinstance(old, str) else
                old if name in FLAGS else float(rng.randint(1, 99)))
        done.add("added:" + sheet)
    return done


def german(version, raw, ds):
    class Stub(GermanDataHerus):
        DATASET_NAME = ds.name

        def __init__(self):
            super(GermanDataHerus, self).__init__(version=version)
            self.raw_file_path = raw
    return Stub()


def check_table(got, ws, row, what):
    head, last = headers(ws, row), last_row(ws, row)
    n = last - row
    req(set(got) == set(head) | {"number"}, "%s: quantities %s, expected %s",
        what, set(got), set(head))
    req(got["number"] == n, "%s: %s lines, expected %d", what,
        got["number"], n)
    for name, col in head.items():
        vals = [cell(ws.cell(r, col).value) for r in range(row + 1, last + 1)]
        out = list(got[name])
        req(len(out) == n, "%s: %d values of %s, expected %d", what,
            len(out), name, n)
        for i, (a, b) in enumerate(zip(out, vals)):
            if name in FLAGS:
                b = bool(b)
            req(a == b or (b != b and str(a) == "nan"), "%s: %s of line %d is %r, "
                "written %r", what, name, i, a, b)


@sub("C30", "sheets", st.fixed_dictionaries({
    "book": st.sampled_from(sorted(BOOKS)),
    "edits": st.lists(st.tuples(
        st.sampled_from(sorted(TABLES) + ["Appliances", "Lighting",
                                          "Lighting"]),
        st.integers(0, 5000),
        st.one_of(st.integers(1, 500), st.integers(0, 4000).map(
            lambda i: i / 64.))), min_size=1, max_size=12),
    "more": st.sampled_from([0, 0, 1, 2, 3]),
    "seed": st.integers(0, 10 ** 6)}), 40, 700, budget=120,
     rule="some read cells are changed")
def sheets(case):
    wb = openpyxl.load_workbook(BOOKS[case["book"]], data_only=True)
    tags = edit(wb, case)
    book = io.BytesIO()
    wb.save(book)
    with scratch_dataset() as ds, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        raw = os.path.join(ds.path, "book.xlsx")
        with open(raw, "wb") as f:
            f.write(book.getvalue())
        if case["book"] == "inputs":
            data = InputFileLoader(raw)
        else:
            data = german(case["book"], raw, ds)
        check_table(data.load_appliance_dict(), wb["Appliances"], 15,
                    "appliances")
        check_table(data.load_buildings_dict({}), wb["Buildings"], 5,
                    "buildings")
        check_table(data.load_heating_system_dict({}),
                    wb["Heating Systems"], 5, "heating systems")
        ws = wb["Lighting"]
        got = data.load_crest_lighting()
        req(set(got) == set(CELLS) | set(COLUMNS), "lighting: %s", set(got))
        for name, at in CELLS.items():
            req_close(got[name], float(ws[at].value), name)
        for name, (c, r, n) in COLUMNS.items():
            req_close(got[name], [float(ws["%s%d" % (c, r + i)].value)
                                  for i in range(n)], name)
        watts, parts = data.load_bulbs()
        rows = range(77, last_row(ws, 76) + 1)
        req_close(watts, [float(ws["E%d" % r].value) for r in rows],
                  "power of bulbs")
        req_close(parts, [float(ws["D%d" % r].value) for r in rows],
                  "parts of bulbs")
        if case["book"] == "inputs":
            stats = data.load_installed_bulbs_stats()
        else:
            stats = data.load_installed_bulbs_stats({})
        req_close(list(stats), [float(ws["D70"].value),
                                float(ws["D71"].value)], "number of bulbs")
        ws = wb["Appliances"]
        head = headers(ws, 15)
        if "target_cycle_year" in head:
            want = {}
            for r in range(16, last_row(ws, 15) + 1):
                want.setdefault(cell(ws.cell(r, head["type"]).value),
                                []).append(cell(ws.cell(
                                    r, head["target_cycle_year"]).value))
            got = data.load_yearly_target_switchons({})
            req(set(got) == set(want), "targets of %s, expected %s",
                set(got), set(want))
            for k, v in want.items():
                req(any(got[k] == x or (x != x and got[k] != got[k])
                        for x in v), "target of %s is %s, written %s", k,
                    got[k], v)
            tags.add("targets")
    return sorted(tags)


# ---------------------------------------------------------------- ownership
SURVEY = os.path.join(DS, "DESTATIS", "raw_data", "appliances_penetration.ods")


def survey_column(h, sub_):
    """Column of the survey, found by its titles (rows 0 to 2)."""
    def after(title, start=0):
        for c in range(start, h.shape[1]):
            for r in range(3):
                t = str(h.iloc[r, c]).replace("- ", "").replace(" ", "")
                if t.startswith(title.replace(" ", "")):
                    return c
        raise KeyError(title)

    def level(row, value, start):
        for c in range(start, h.shape[1]):
            if str(h.iloc[row, c]).replace(" ", "").startswith(
                    str(value).replace(" ", "")):
                return c
        raise KeyError(value)
    kind, n = sub_.get("household_type"), sub_.get("n_residents")
    if kind == 1:
        if sub_.get("gender"):
            return level(2, {1: "Männer", 2: "Frauen"}[sub_["gender"]],
                         after("Davon nach dem Haushaltstyp"))
        return after("Alleinlebende")
    if kind == 2:
        return level(2, "ohne Kind", after("davon Paare"))
    last = after("Darunter nach Alleinerziehenden")
    if kind == 3 and n in (2, 3, 4):
        return level(2, {2: "1"}.get(n, "2 und mehr"), last)
    if kind == 4 and n in (3, 4, 5):
        return level(2, {3: "1", 4: "2", 5: "3 und mehr"}[n],
                     after("Paare mit Kind", last))
    if n:
        return level(1, {5: "5 und mehr"}.get(n, n),
                     after("Davon mit ... Person"))
    if sub_.get("household_revenue"):
        x = sub_["household_revenue"]
        start = after("Darunter nach dem monatlichen")
        bounds = [0, 900, 1300, 1500, 2000, 2600, 3600, 5000]
        return start + max(i for i, b in enumerate(bounds) if x >= b)
    return level(1, sub_["year"], after("Deutschland"))


SUBS = ([{"n_residents": n} for n in range(1, 6)]
        + [{"household_type": 1}, {"household_type": 1, "n_residents": 1},
           {"household_type": 1, "gender": 1},
           {"household_type": 1, "gender": 2},
           {"household_type": 2, "n_residents": 2}, {"household_type": 2},
           {"household_type": 5, "n_residents": 4}]
        + [{"household_type": 3, "n_residents": n} for n in (2, 3, 4)]
        + [{"household_type": 4, "n_residents": n} for n in (3, 4, 5)]
        + [{"household_revenue": x} for x in (
            1, 899, 900, 1299, 1300, 1400, 1500, 1999, 2000, 2600, 3599,
            3600, 4999, 5000, 9000)]
        + [{"year": y} for y in (2008, 2013, 2018)])
TIMES = [{}, {"weekday": [6, 7]}, {"quarter": 2}, {"weekday": [1], "quarter":
                                                   1}]


class read_once:
    """Reads every sheet of a file only once, as it takes long."""

    def __enter__(self):
        self.read, known = pd.read_excel, {}

        def read(*args, **kw):
            key = repr((args, sorted(kw.items())))
            if key not in known:
                known[key] = self.read(*args, **kw)
            return known[key].copy()
        pd.read_excel = read

    def __exit__(self, *exc):
        pd.read_excel = self.read


def ownership_of(name, prob, number, out):
    """Probabilities of owning one, two.. appliances."""
    if prob != prob:
        out[name] = 0.
        return
    out[name] = prob
    more = 0. if number != number else max(number - prob, 0.)
    i = 2
    while more > 1e-9:
        out["%s_%d" % (name, i)] = min(more, 1.)
        more -= 1.
        i += 1


@sub("C30", "ownership", st.fixed_dictionaries({
    "subs": st.lists(st.integers(0, len(TIMES) - 1), min_size=len(SUBS),
                     max_size=len(SUBS)).map(lambda x: list(enumerate(x))),
    "edits": st.lists(st.tuples(st.integers(0, 39), st.integers(0, 1000),
                                st.integers(0, 3000), st.sampled_from(
                                    [0, 0, 0, 1, 2])), max_size=30)}),
     12, 200, budget=120, rule="any")
def ownership(case):
    h = pd.read_excel(SURVEY, header=None).iloc[:107, :64].astype(object)
    cols = [survey_column(h, SUBS[i]) for i, _ in case["subs"]]
    # line of the first appliance, and of its percentage
    names = [r for r in range(5, 57) if isinstance(h.iloc[r, 0], str)]
    for at, p, extra, dash in case["edits"]:
        r = names[at % len(names)]
        c = cols[at % len(cols)]
        h.iloc[r, c] = "-" if dash == 1 else round((p + extra) / 10., 1)
        h.iloc[r + 51, c] = "-" if dash == 2 else p / 10.
    with scratch_dataset() as ds, warnings.catch_warnings(), read_once():
        warnings.simplefilter("ignore")
        cls = stub(Destatis, ds)
        raw = os.path.join(ds.path, "raw_data", "appliances_penetration.ods")
        if case["edits"]:
            h.to_excel(raw, header=False, index=False, engine="odf")
        else:
            shutil.copy(SURVEY, raw)
        data = cls()
        for (i, t), c in zip(case["subs"], cols):
            want, several = {}, set()
            for r in names:
                number, prob = (
                    np.nan if x == "-" else float(x) / 100.
                    for x in (h.iloc[r, c], h.iloc[r + 51, c]))
                name = h.iloc[r, 0].replace(" ", "")
                for k in [k for k in want if k == name or (
                        k.startswith(name + "_") and k[len(name) + 1:]
                        .isdigit())]:
                    # the last, more precise, line counts for this type
                    del want[k]
                    several.add(name)
                ownership_of(name, prob, number, want)
            sub_ = dict(SUBS[i], **TIMES[t])
            given = dict(sub_)
            got = data.load_appliance_ownership_dict(given)
            req(given == sub_, "changes the subgroup to %s", given)
            got = {k: float(v) for k, v in got.items()}
            for k in set(got) | set(want):
                if k not in want and k.rsplit("_", 1)[0] in several:
                    continue
                req(abs(got.get(k, 0.) - want.get(k, 0.)) < 1e-9,
                    "households %s own %s with probability %s, written %s",
                    sub_, k, got.get(k), want.get(k))
    return ["edited" if case["edits"] else "shipped"]


# ------------------------------------------------------- the CREST workbook
ACTS = {"Act_TV": "watching_tv", "Act_Cooking": "cooking",
        "Act_Laundry": "laundry", "Act_WashDress": "self_washing",
        "Act_Iron": "ironing", "Act_HouseClean": "cleaning"}
DEVICES = {"CHEST_FREEZER": "chest_freezer", "IRON": "iron", "TV1": "tv",
           "TV2": "tv", "DISH_WASHER": "dishwasher", "KETTLE": "kettle",
           "WASHING_MACHINE": "washingmachine", "HOB": "hob",
           "ELEC_SHOWER": "electric_shower", "PC": "fixed_computer"}
PROFILES = {"LEVEL": "level", "ACTIVE_OCC": "active_occupancy",
            "ACT_TV": "watching_tv", "ACT_WASHDRESS": "self_washing",
            "ACT_COOKING": "cooking", "ACT_LAUNDRY": "laundry"}
HEATING = {"equipped_prob": "Proportion of dwellings with this heating "
           "system", "name": "Type of heating unit",
           "fuel_flow_rate": "Fuel flow rate (nominal)",
           "flow_rate_to_W": "Calorific value of fuel flow rate",
           "heat_output_sh": "Heat output of unit",
           "heat_output_dhw": "Heat output of unit",
           "standby_power": "Standby power", "pump_power": "Pump power",
           "cyl_volume": "DHW cylinder volume",
           "cyl_loss": "DHW Tank Heat Loss"}
HOUSES = {
    "equipped_prob": "Proportion of dwellings of this building type",
    "name": "Description",
    "out_build_transfer_coef": "Thermal transfer coefficient between outside "
    "air and external building thermal capacitance",
    "build_int_transfer_coef": "Thermal transfer coefficient between external"
    " building thermal capacitance and internal building thermal capacitance",
    "ventilation_transfer_coef": "Thermal transfer coefficient representing "
    "ventilation heat loss between outside air and internal building thermal "
    "capacitance",
    "ext_capacitance": "External building thermal capacitance",
    "int_capacitance": "Internal building thermal capacitance",
    "irradiance_multiplier": "Global irradiance multiplier",
    "floor_area": "Floor area, living space",
    "height": "Height, living space",
    "emitters_target_temperature": "Nominal temperature of emitters ",
    "emitters_transfer_coef": "Heat transfer coefficient of emitters",
    "emitters_capacitance": "Thermal capacitance of emitters"}


class Book:
    """Workbook filled with numbers, by 1-based row and 0-based column."""

    def __init__(self, rng):
        self.wb = openpyxl.Workbook()
        self.wb.remove(self.wb.active)
        self.rng = rng

    def sheet(self, name, rows, cols):
        ws = self.wb.create_sheet(name)
        # the first and last cells fix the size of the sheet
        ws.cell(1, 1).value = "."
        ws.cell(rows, cols).value = None
        return ws

    def put(self, ws, row, col, values):
        for i, line in enumerate(values):
            for j, x in enumerate(line):
                if x is not None:
                    ws.cell(row + i, col + j + 1).value = (
                        x.item() if hasattr(x, "item") else x)

    def numbers(self, *shape):
        return self.rng.randint(0, 2000, shape) / 16.


def probs(rng, rows, n):
    """Rows adding up to about 1, or empty."""
    out = rng.randint(0, 8, (rows, n)) * 1.
    out[rng.rand(rows) < .2] = 0
    total = out.sum(axis=1)
    scale = np.where(rng.rand(rows) < .5, 1., rng.uniform(.92, 1.08, rows))
    return out / np.where(total > 0, total, 1)[:, None] * scale[:, None]


def table(book, name, row, titles, n, extra):
    """A table with its titles in random order; returns the values."""
    names = sorted(set(titles)) + extra
    names = [names[i] for i in book.rng.permutation(len(names))]
    ws = book.sheet(name, row + 4 + n, len(names) + 2)
    book.put(ws, row, 1, [names])
    book.put(ws, row + 1, 1, [["unit"] * len(names)] * 2)
    values = {t: list(book.numbers(n)) for t in names}
    return ws, names, values


@sub("C30", "workbook", st.fixed_dictionaries({
    "n": st.sampled_from([1, 1, 1, 2, 2, 2, 3, 3, 4, 6]), "version": st.sampled_from(
        ["2.2", "2.2", "2.3.3"]), "weekend": st.booleans(),
    "seed": st.integers(0, 10 ** 6)}), 10, 150, budget=100, rule="any")
def workbook(case):
    from demod.datasets.CREST.loader import Crest
    rng = np.random.RandomState(case["seed"])
    book, n, old = Book(rng), case["n"], case["version"] == "2.2"
    states = (n + 1) ** 2
    tpms = {}
    for day in "de":
        ws = book.sheet("tpm%d_w%s" % (n, day), 10, 3)
        tpms[day] = probs(rng, 144 * states, states)
        book.put(ws, 10, 0, [[0, 1] + ["c%d" % i for i in range(states)]
                             + ["more"]])
        book.put(ws, 11, 2, tpms[day])
        book.put(ws, 11, 2 + states, [[7]] * 10)
    # starting states: all the (occupants, active) of up to 6 residents
    ws = book.sheet("Starting states", 5, 2)
    starts = {"d": book.numbers(49, 6), "e": book.numbers(49, 6)}
    for day, row in (("d", 5), ("e", 59)):
        book.put(ws, row, 1, [["Number of residents in the house", 1, 2, 3, 4,
                               5, 6]])
        book.put(ws, row + 1, 1, [["State"] + ["pdf"] * 6])
        book.put(ws, row + 2, 1, [[i // 7 * 10 + i % 7] for i in range(49)])
        book.put(ws, row + 2, 2, starts[day])
    # activities
    ws = book.sheet("ActivityStats", 110, 150)
    acts = [sorted(ACTS)[i] for i in rng.permutation(6)]
    profiles = {False: book.numbers(36, 144), True: book.numbers(36, 144)}
    for weekend, row in ((False, 29), (True, 65)):
        if not weekend:
            book.put(ws, row, 0, [["day", "occupants", "z"]])
            book.put(ws, row, 4, [list(range(144))])
        else:
            row += 0
        book.put(ws, row + 1, 3, [[acts[i % 6]] for i in range(36)])
        book.put(ws, row + 1, 4, profiles[weekend])
    people = book.numbers(5, 1)
    book.put(ws, 12, 1, [["Number of residents", "Probability of dwelling "
                          "having this number of residents" + (
                              "" if old else ", in the UK")]])
    book.put(ws, 13, 1, [[i + 1, people[i, 0]] for i in range(5)])
    # clearness
    ws = book.sheet("ClearnessIndexTPM", 9, 2)
    clear = [i / 100. for i in range(100)] + ["Clear"]
    clearness = probs(rng, 101, 101)
    clearness[clearness.sum(axis=1) == 0, rng.randint(101)] = 1.
    clearness[0] = 0
    book.put(ws, 9, 2, [clear])
    book.put(ws, 10, 2, clearness)
    # heating and buildings
    k = 3 if old else 5
    ws, names, heat = table(book, "PrimaryHeatingSystems", 2,
                            HEATING.values(), k,
                            ["Type of system", "Type of fuel", "Other"])
    heat["Type of system"] = [int(i) for i in rng.randint(1, 4, k)]
    heat["Type of fuel"] = ["fuel %d" % i for i in rng.randint(0, 3, k)]
    heat[HEATING["name"]] = ["unit %d" % i for i in range(k)]
    book.put(ws, 5, 1, [[heat[t][i] for t in names] for i in range(k)])
    b = int(rng.randint(1, 8))
    ws, names, house = table(book, "Buildings", 2, HOUSES.values(), b,
                             ["Other", "More"])
    house["Description"] = ["house %d" % i for i in range(b)]
    book.put(ws, 5, 1, [[house[t][i] for t in names] for i in range(b)])
    ws = book.sheet("HeatingControls", 40, 6)
    home, water = book.numbers(15, 2), book.numbers(12, 2)
    book.put(ws, 4, 1, [["Demand temperature", "Percentage of homes"]])
    book.put(ws, 5, 1, home)
    book.put(ws, 23, 1, [["Hot water delivery temperature",
                          "Percentage of homes"]])
    book.put(ws, 24, 1, water)
    # light
    ws = book.sheet("light_config", 70, 20)
    scalar, mean, dev = book.numbers(3)
    if rng.rand() < .3:
        dev = mean
    book.put(ws, 4, 5, [[mean, dev]])
    book.put(ws, 24, 5 if old else 6, [[scalar]])
    occupancy, low, high, cdf = (list(book.numbers(m)) for m in (6, 9, 9, 9))
    book.put(ws, 36, 3, [["active occupants", "occupancy"]])
    book.put(ws, 37, 3, [[i, x] for i, x in enumerate(occupancy)])
    book.put(ws, 54, 1, [["number", "(minutes)", "(minutes)",
                          "probability"]])
    book.put(ws, 55, 1, [list(x) for x in zip(range(9), low, high, cdf)])
    ws = book.sheet("bulbs", 115, 45)
    bulbs = [[float(x) if j < m else None for j, x in enumerate(
        rng.choice([7, 12, 60], 40))] for m in rng.randint(1, 38, 103)]
    book.put(ws, 10, 0, [["House"]])
    book.put(ws, 11, 0, [[i, i] + line for i, line in enumerate(bulbs)])
    # appliances
    ws = book.sheet("AppliancesAndWaterFixtures", 50, 32)
    rows = list(range(9, 40)) + list(range(46, 50))
    head = {7: "(min)", 9: "(W)", 12: "(min)", 13: "(min)", 20: "(W)"}
    for col, t in head.items():
        ws.cell(8, col + 1).value = t
    devices = [str(x) for x in rng.choice(sorted(DEVICES), 31)] + [
        "BASIN", "SINK", "SHOWER", "BATH"]
    uses = [str(x) for x in rng.choice(sorted(PROFILES), 35)]
    cells = {c: list(book.numbers(35)) for c in (4, 9, 12, 13, 20, 28, 30)}
    cells[30] = [None if i % 5 == 4 else x for i, x in enumerate(cells[30])]
    for i, r in enumerate(rows):
        book.put(ws, r, 3, [[devices[i], cells[4][i], uses[i]]])
        for c, v in cells.items():
            book.put(ws, r, c, [[v[i]]])
    for r in range(40, 46):
        book.put(ws, r, 3, [["not an appliance", 1, 2]])
    content = io.BytesIO()
    book.wb.save(content)

    weekday = [6, 7] if case["weekend"] else [1, 2, 3, 4, 5]
    day = "e" if case["weekend"] else "d"
    group = {"n_residents": n, "weekday": weekday}
    with scratch_dataset() as ds, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cls = stub(Crest, ds)
        with open(os.path.join(ds.path, "raw_data", "CREST_Demand_Model_v%s"
                               ".xlsm" % case["version"]), "wb") as f:
            f.write(content.getvalue())
        data = cls(case["version"])
        got, labels, pdf = data.load_tpm(group)
        want = tpms[day].reshape(144, states, states).copy()
        t, i = np.nonzero(want.sum(axis=2) == 0)
        want[t, i, i] = 1
        req_close(got, want / want.sum(axis=2)[:, :, None], "matrices")
        pairs = [(i, j) for i in range(n + 1) for j in range(n + 1)]
        req_equal(labels, [10 * i + j for i, j in pairs], "states")
        req_close(pdf, [starts[day][7 * i + j, n - 1] for i, j in pairs],
                  "starting states")
        got = data.load_activity_probability_profiles(group)
        raw = profiles[case["weekend"]]
        req(set(got) == set(ACTS.values()) | {"level", "active_occupancy"},
            "profiles of %s", set(got))
        for i, a in enumerate(acts):
            req_close(got[ACTS[a]], raw[i::6].T, "profile of " + a)
        req_close(got["level"], np.ones((144, 6)), "level")
        req_close(got["active_occupancy"], [[0] + 5 * [1]] * 144,
                  "active occupancy")
        groups, pdf, _ = data.load_population_subgroups()
        req([dict(g) for g in groups] == [
            {"n_residents": i + 1} for i in range(5)], "groups %s", groups)
        req_close(pdf, people[:, 0], "population")
        got, labels, step = data.load_clearness_tpms()
        want = clearness.copy()
        want[0, 1] = 1
        req_close(got, want / want.sum(axis=1)[:, None], "clearness")
        req_close(labels, [i / 100. for i in range(101)], "clearness values")
        req(step == dt.timedelta(minutes=1), "step of the clearness %s", step)
        got = data.load_heating_system_dict({})
        for key, t in HEATING.items():
            req(list(got[key]) == heat[t], "%s of heating: %s, written %s",
                key, got[key], heat[t])
        req_equal(got["is_combi"], [x == 2 for x in heat["Type of system"]],
                  "combi systems")
        req(list(got["fuel_type"]) == [x.replace(" ", "") for x in heat[
            "Type of fuel"]], "fuels %s", got["fuel_type"])
        got = data.load_buildings_dict({})
        for key, t in HOUSES.items():
            req(list(got[key]) == house[t], "%s of buildings: %s, written %s",
                key, got[key], house[t])
        got = data.load_thermostat_dict({})
        for key, v in (("home", home), ("water", water)):
            req_close(got[key + "_temperatures_values"], v[:, 0],
                      key + " temperatures")
            req_close(got[key + "_temperatures_cdf"], np.cumsum(v[:, 1]),
                      key + " temperatures")
        got = data.load_crest_lighting()
        for key, v in (("calibration_scalar", scalar),
                       ("irradiance_threshold_mean", mean),
                       ("irradiance_threshold_std", dev),
                       ("effective_occupancy", occupancy),
                       ("durations_minutes_low", low),
                       ("durations_minutes_high", high),
                       ("durations_cdf", cdf)):
            req_close(got[key], v, key)
        want = np.array([[np.nan if x is None else x for x in line[:38]]
                         for line in bulbs[:100]])
        got = np.asarray(data.load_bulbs_config({}), float)
        m = min(got.shape[1], 38)
        req_close(got[:, :m], want[:, :m], "bulbs")
        req(np.isnan(want[:, m:]).all(), "bulbs are left out")
        # bulbs of all houses: powers with how often they occur
        watts = [x for line in want for x in line if not np.isnan(x)]
        kinds, share = data.load_bulbs()
        req_close(kinds, sorted(set(watts)), "kinds of bulbs")
        req_close(share, [watts.count(w) / len(watts) for w in sorted(
            set(watts))], "shares of the bulbs")
        count = np.sum(~np.isnan(want), axis=1)
        req_close(data.load_installed_bulbs_stats({}),
                  [count.mean(), count.std()], "bulbs in the houses")
        check_place(data, old)
        if old:
            got = data.load_appliance_dict()
            check_devices(got, devices, uses, cells)
            types, nth = list(got["type"]), {}
            model = {}
            for t, p in zip(types, cells[4]):
                nth[t] = nth.get(t, 0) + 1
                model[t if nth[t] == 1 else "%s_%d" % (t, nth[t])] = p
            got = data.load_appliance_ownership_dict({})
            req(set(got) == set(model), "ownership of %s, written %s",
                sorted(got), sorted(model))
            for t, p in model.items():
                req_close(got[t], p, "ownership of " + t)
        else:
            req(raises(NotImplementedError, data.load_appliance_dict),
                "appliances of a version without parser")
    return [case["version"], "weekend" if case["weekend"] else "weekday"]


def check_place(data, old):
    """What the model of a version says about its country and machines."""
    got = data.load_geographic_data()
    want = dict(latitude=52.8, longitude=-1.2, meridian=0.) if old else dict(
        latitude=13.1, longitude=80.3, meridian=82.5)
    for k, v in want.items():
        req_close(got[k], v, k)
    req(bool(got["use_daylight_saving_time"]) == old, "summer time")
    if old:
        got = data.load_temperatures_arma()
        for k, v in dict(T_mean=9.3, T_std=6.5, T_shift=-115, AR=.81, MA=.62,
                         SD=.5).items():
            req_close(got[k], v, k)
    else:
        req(raises(NotImplementedError, data.load_temperatures_arma),
            "temperatures of a version without parser")
    got = data.load_real_profiles_dict("switchedON")
    wash = [73.] * 9 + [2056.] * 21 + [73.] * 63
    for spin in (11, 11, 11):
        wash += [250.] * 2 + [73.] * spin
    wash += [250.] * 2 + [568.] * 5 + [2500.] * 60
    for app, n in (("washingmachine", 138), ("washer_dryer", 198)):
        cycles = list(got[app].values())
        req(len(cycles) == 1, "cycles of %s: %s", app, got[app])
        req_close(cycles[0], wash[:n], "cycle of " + app)
    # only kinds of days, and households, of the workbook
    for wrong in ([6], [7], [1, 2, 3, 4], [1, 2, 3, 4, 5, 6, 7]):
        req(raises(ValueError, data.load_activity_probability_profiles,
                   {"weekday": wrong}), "activities of days %s", wrong)
        req(raises(ValueError, data.load_tpm, {
            "weekday": wrong, "n_residents": 1}), "matrices of days %s",
            wrong)
    req(raises(ValueError, data.load_tpm, {
        "weekday": [6, 7], "n_residents": 7}), "matrices of 7 residents")
    req(raises(NotImplementedError, data.load_real_profiles_dict, "full"),
        "full profiles of a model without them")


def check_devices(got, devices, uses, cells):
    n = len(devices)
    req(got["number"] == n and list(got["name"]) == devices,
        "appliances %s, written %s", got["name"], devices)
    water = ["basin", "sink", "shower", "bath"]
    req(list(got["type"]) == [DEVICES[d] for d in devices[:31]] + water,
        "types %s", got["type"])
    req(list(got["related_activity"]) == [PROFILES[u] for u in uses],
        "activities %s, written %s", got["related_activity"], uses)
    for key, c in (("equipped_prob", 4), ("mean_duration", 12),
                   ("after_cycle_delay", 13), ("switch_on_prob_crest", 28),
                   ("standby_consumption", 20)):
        req_close(got[key], cells[c], key)
    req_close(got["mean_power_factor"], [1 if x is None else x for x in
                                         cells[30]], "power factor")
    req_close(got["mean_elec_consumption"], cells[9][:31] + [0] * 4, "power")
    req_close(got["mean_water_consumption"], [0] * 31 + cells[9][31:],
              "water")
    req_equal(got["uses_water"], [False] * 31 + [True] * 4, "uses water")
    req_equal(got["inactive_switch_off"], [
        not (u in ("LEVEL", "ACT_WASHDRESS") or d == "DISH_WASHER")
        for u, d in zip(uses, devices)], "switched off when inactive")
