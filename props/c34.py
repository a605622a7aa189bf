"""C34: the tables of a time-use survey are statistics of its diaries.

Raw survey files (households, persons, diaries) are generated in the layout of
the German survey, put where the loader looks for them, and every table the
loader returns is compared with counts made here from the generated diaries.
"""
import math
import os
import random
import shutil
import sys
import warnings
from collections import Counter, defaultdict

import numpy as np
from hypothesis import strategies as st

from pbt.core import req, req_close, req_equal, sub

import demod.datasets.GermanTOU as gtou_pkg
from demod.datasets.GermanTOU.loader import GTOU
from demod.utils import parse_helpers as ph

NAME = "demod.datasets.GermanTOU.parser"
RAW = os.path.join(os.path.dirname(gtou_pkg.__file__), "raw_data")
T = 144
HOME = [411, 412, 413, 421, 431, 432, 820, 841, 612, 830, 131, 353, 445, 461]
SLEEP = [110, 110, 110, 132]
TRIP = [921, 931, 939, 946, 961, 980, 991, 992]
OUT = [210, 210, 220, 311, 362, 464, 510, 531, 611, 642, 997]
# what no one would name otherwise
BOTH = {110: "sleeping", 131: "self_washing", 820: "watching_tv",
        411: "cooking", 412: "cooking", 421: "cleaning", 422: "cleaning",
        431: "laundry", 830: "music"}
BOTTA = dict(BOTH) | {413: "dishwashing", 432: "ironing", 353: "studying",
                      354: "studying"}
PROFILE = {411: "cooking", 412: "cooking", 413: "dishwashing",
           820: "watching_tv", 431: "laundry", 432: "ironing",
           131: "self_washing", 421: "cleaning", 422: "cleaning"}

person = st.fixed_dictionaries({
    "age": st.integers(0, 80), "pb3": st.sampled_from([8, 8, 2, 6, 1, 11]),
    "salary": st.integers(1, 5), "position": st.integers(1, 4),
    "born": st.integers(1, 2), "gender": st.integers(1, 2),
    "seed": st.integers(0, 2 ** 20)})
household = st.fixed_dictionaries({
    "persons": st.one_of(st.lists(person, min_size=1, max_size=4),
                         st.lists(person, min_size=1, max_size=4),
                         st.lists(person, min_size=5, max_size=6)),
    "unrecorded": st.sampled_from([0, 0, 0, 0, 1]),
    "missing": st.sampled_from([None, None, None, None, 1, 2, 3]),
    "who": st.integers(0, 3),
    "same": st.sampled_from([1, 1, 1, 1, 2]),
    "quarter": st.integers(1, 4),
    "days": st.lists(st.sampled_from([1, 2, 3, 5, 6, 7, 7, 1]), min_size=3,
                     max_size=3),
    "type": st.integers(1, 5), "work": st.integers(1, 7),
    "revenue": st.integers(1, 5)})
surveys = st.lists(household, min_size=1, max_size=7)


def diary(rng, codes):
    """(primary, secondary, start place, end place)."""
    prim, home = [], rng.random() < 0.8
    style = rng.random()
    while len(prim) < T:
        if style < 0.15:
            pool, n = codes, rng.randint(1, 20)
        elif not prim or (home and rng.random() < 0.25):
            pool, n = SLEEP, rng.randint(1, 45)
        elif rng.random() < 0.3:
            pool, n = TRIP, rng.choice([1, 1, 2, 3, 6])
            home = not home
        elif home:
            pool, n = HOME, rng.randint(1, 15)
        else:
            pool, n = OUT, rng.randint(1, 40)
        code = rng.choice(pool)
        if code == 0:
            continue
        prim += [code] * n
    prim = prim[:T]
    sec = []
    while len(sec) < T:
        x = rng.random()
        code = (0 if x < 0.55 else rng.choice(HOME) if x < 0.8 else
                rng.choice(codes) if x < 0.95 else rng.choice(TRIP))
        sec += [code] * rng.randint(1, 40)
    return (prim, sec[:T], rng.choice([1, 1, 1, 2, -1]),
            rng.choice([1, 1, 1, 2, 2, -1, -2]))


def build(hhs, codes, full=True):
    """Rows of the three files, as dicts."""
    out_h, out_p, out_a = [], [], []
    for h, hh in enumerate(hhs, 1):
        n = len(hh["persons"])
        recorded = n - hh["unrecorded"] if n > 1 else n
        ages = [p["age"] for p in hh["persons"]]
        out_h.append(dict(id_hhx=h, ha1x=n, anz_erw=hh["work"],
                          hhtyp=hh["type"], hd15x=hh["revenue"],
                          mean_age=sum(ages) / n, recorded=recorded))
        for i, p in enumerate(hh["persons"], 1):
            pid = 10 * h + i
            row = dict(id_persx=pid, id_hhx=h, alterx=p["age"], pb3=p["pb3"],
                       pe23x=p["salary"], ha6x=p["position"], ha8x=p["born"],
                       ha3=p["gender"])
            out_p.append(row)
            if i > recorded:
                continue
            missing = 0
            if hh["missing"] and hh["who"] % recorded + 1 == i:
                missing = hh["missing"]
            days = [d for d in (1, 2, 3) if d != missing]
            rng = random.Random(p["seed"])
            for d in days:
                wd = hh["days"][d - 1]
                if hh["same"] == 2 and n > 1:
                    wd = (wd + i) % 7 + 1
                if full:
                    prim, sec, first, last = diary(rng, codes)
                else:
                    prim, sec, first, last = [110] * T, [0] * T, 1, 1
                if last == -2 and d == days[-1]:
                    last = 1
                out_a.append(dict(
                    id_hhx=h, id_persx=pid, persx=i, tagnr=d,
                    fehl_tag=missing, selbtag=hh["same"], wtagfei=wd,
                    quartal=hh["quarter"], prim=prim, sec=sec, first=first,
                    last=last, person=row, hh=out_h[-1]))
    for a, b in zip(out_a, out_a[1:] + [None]):
        a["end"] = b["first"] if a["last"] == -2 else a["last"]
    return out_h, out_p, out_a


class Survey:
    """The raw files are there and the parser is fresh for some time."""

    def __init__(self, rows):
        self.rows = rows

    def __enter__(self):
        hh, pers, akt = self.rows

        def write(name, cols, lines):
            with open(os.path.join(RAW, "zve13_puf_%s.csv" % name), "w") as f:
                f.write(";".join(cols) + "\n")
                for line in lines:
                    f.write(";".join(map(str, line)) + "\n")
        cols = ["id_hhx", "ha1x", "anz_erw", "hhtyp", "hd15x"]
        write("hh", cols, [[r[c] for c in cols] for r in hh])
        cols = ["id_persx", "id_hhx", "alterx", "pb3", "pe23x", "ha6x",
                "ha8x", "ha3"]
        write("pers", cols, [[r[c] for c in cols] for r in pers])
        cols = ["id_hhx", "id_persx", "persx", "tagnr", "fehl_tag", "selbtag",
                "wtagfei", "quartal"]
        names = ["tb%d_%d" % (k, i) for k in (1, 2, 3, 4, 5)
                 for i in range(1, T + 1)]
        rest = [0] * (3 * T)
        write("takt", cols + names + ["tc5", "tc7", "tc8"], [
            [r[c] for c in cols] + r["prim"] + r["sec"] + rest
            + [1, r["first"], r["last"]] for r in akt])
        sys.modules.pop(NAME, None)
        if hasattr(gtou_pkg, "parser"):
            del gtou_pkg.parser
        return self

    def __exit__(self, *args):
        for name in ("hh", "pers", "takt"):
            os.remove(os.path.join(RAW, "zve13_puf_%s.csv" % name))
        sys.modules.pop(NAME, None)


def the_codes():
    """The activity codes and label tables (kept by the parser itself)."""
    if not CACHE:
        with Survey(build([{"persons": [{"age": 1, "pb3": 1, "salary": 1,
                                         "position": 1, "born": 1,
                                         "gender": 1, "seed": 1}],
                            "unrecorded": 0, "missing": None, "who": 0,
                            "same": 1, "quarter": 1, "days": [1, 1, 1],
                            "type": 1, "work": 1, "revenue": 1}], [],
                          False)):
            import importlib
            p = importlib.import_module(NAME)
            CACHE["home"] = dict(p.dic_home)
            CACHE["DemodActivities_0"] = dict(p.GTOU_label_to_activity) | BOTH
            CACHE["Bottaccioli2018"] = dict(p.GTOU_label_to_Bottaccioli_act) | BOTTA
            CACHE["energy"] = dict(p.GTOU_label_to_energy_activity)
            names = {"Act_TV": "watching_tv", "Act_Cooking": "cooking",
                     "Act_Laundry": "laundry", "Act_WashDress": "self_washing",
                     "Act_Iron": "ironing", "Act_HouseClean": "cleaning",
                     "Act_Dishwashing": "dishwashing",
                     "Act_Elec": "electronics"}
            CACHE["profile"] = {c: names.get(v) for c, v in
                                p.GTOU_label_to_CREST_act_v2.items()}
            CACHE["profile"].update(PROFILE)
            CACHE["codes"] = sorted(CACHE["home"])
    return CACHE


CACHE = {}


# -- selection of diaries ------------------------------------------------
def value(v, x):
    return x in v if isinstance(v, list) else x == v


WORK = {"1_fulltime": 2, "1_halftime": 3, "2_fulltime": 4,
        "1_fulltime_1_halftime": 5, "3_fulltime": 6, "other": 7}


def selected(rows, sg):
    hhs, pers, akt = rows
    lost = {(a["id_hhx"], a["fehl_tag"]) for a in akt if a["fehl_tag"]}
    retired = {}
    for h in hhs:
        jobs = [p["pb3"] for p in pers if p["id_hhx"] == h["id_hhx"]]
        retired[h["id_hhx"]] = h["ha1x"] == 2 and jobs == [8, 8]
    out = []
    for a in akt:
        h, p = a["hh"], a["person"]
        ok = True
        if sg.get("only_fully_recorded_household", True):
            ok &= h["recorded"] == h["ha1x"]
        if sg.get("remove_missing_days", True):
            ok &= (a["id_hhx"], a["tagnr"]) not in lost
        if sg.get("only_household_identical_days", True):
            ok &= a["selbtag"] == 1 or h["ha1x"] == 1
        for key, x in (("quarter", a["quartal"]), ("weekday", a["wtagfei"]),
                       ("n_residents", h["ha1x"]),
                       ("household_type", h["hhtyp"]),
                       ("life_situation", p["pb3"]), ("salary", p["pe23x"]),
                       ("hh_revenue", h["hd15x"]),
                       ("household_position", p["ha6x"]),
                       ("geburtsland", p["ha8x"]), ("gender", p["ha3"])):
            if key in sg:
                ok &= value(sg[key], x)
        if "age" in sg:
            ok &= sg["age"][0] <= p["alterx"] < sg["age"][1]
        if "hh_mean_age" in sg:
            ok &= sg["hh_mean_age"][0] <= h["mean_age"] < sg["hh_mean_age"][1]
        w = sg.get("hh_work_type")
        if w == "1_retired":
            ok &= h["ha1x"] == 1 and p["pb3"] == 8
        elif w == "2_retired":
            ok &= retired[a["id_hhx"]]
        elif w:
            ok &= h["anz_erw"] == WORK[w]
        out.append(bool(ok))
    return out


KEYS = ["quarter", "weekday", "n_residents", "household_type",
        "life_situation", "salary", "hh_revenue", "household_position",
        "age", "hh_mean_age", "geburtsland", "gender", "hh_work_type"]


def subgroup(rows, keys, at, extra, flags=None, edges=False):
    """A subgroup which fits the diary number `at` (modulo), with lists."""
    akt = rows[2]
    a = akt[at % len(akt)]
    h, p = a["hh"], a["person"]
    sg = {}
    for k in keys:
        x = {"quarter": a["quartal"], "weekday": a["wtagfei"],
             "n_residents": h["ha1x"], "household_type": h["hhtyp"],
             "life_situation": p["pb3"], "salary": p["pe23x"],
             "hh_revenue": h["hd15x"], "household_position": p["ha6x"],
             "age": p["alterx"], "hh_mean_age": h["mean_age"],
             "geburtsland": p["ha8x"], "gender": p["ha3"],
             "hh_work_type": None}[k]
        if k in ("age", "hh_mean_age"):
            # limits around, above, at the end, and at the start
            x = [(int(x) - extra % 9, int(x) + 1 + extra % 7),
                 (math.ceil(x + extra % 2), math.ceil(x) + 2 + extra % 7),
                 (x - 1 - extra % 9, x), (x, x + extra % 8),
                 (int(x) - extra % 9, int(x) + 1 + extra % 7)][
                     extra // 9 % 5 if edges else 0]
        elif k == "hh_work_type":
            if h["ha1x"] == 1 and p["pb3"] == 8:
                x = "1_retired"
            elif h["ha1x"] == 2 and extra % 2:
                x = "2_retired"
            elif h["anz_erw"] == 1:
                continue
            else:
                x = {v: k for k, v in WORK.items()}[h["anz_erw"]]
        elif k in ("weekday", "n_residents", "life_situation") and extra % 3:
            top = {"weekday": 7, "n_residents": 6, "life_situation": 11}[k]
            x = sorted({x, extra % top + 1, (extra // 7) % top + 1})
        sg[k] = x
    sg.update(flags or {})
    return sg


@sub("C34", "selection", st.fixed_dictionaries({
    "hh": surveys,
    "asked": st.lists(st.fixed_dictionaries({
        "keys": st.lists(st.sampled_from(KEYS), max_size=3, unique=True),
        "at": st.integers(0, 60), "extra": st.integers(0, 300),
        "flags": st.dictionaries(st.sampled_from([
            "only_fully_recorded_household", "remove_missing_days",
            "only_household_identical_days"]), st.booleans())}),
        min_size=4, max_size=12)}), 250, 5000, budget=100,
     rule="some subgroup takes a part of the diaries; tagged by the keys")
def selection(case):
    rows = build(case["hh"], [], False)
    tags = set()
    with Survey(rows), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import importlib
        parser = importlib.import_module(NAME)
        first = case["asked"][0]
        alone = [dict(first, keys=[k], at=first["at"] + i,
                      extra=first["extra"] + 9 * i)
                 for k in KEYS
                 for i in range(3 if k in ("age", "hh_mean_age") else 1)]
        for q in case["asked"] + alone:
            sg = subgroup(rows, q["keys"], q["at"], q["extra"], q["flags"],
                          True)
            want = selected(rows, sg)
            req_equal(np.asarray(parser.get_mask_subgroup(**sg)).tolist(),
                      want, "diaries selected by %s" % sg)
            if any(want) and not all(want):
                tags |= set(sg) | {"list" for v in sg.values()
                                   if isinstance(v, list)}
    return sorted(tags)


# -- tables --------------------------------------------------------------
def is_trip(code):
    return code >= 900 and code not in (997, 998, 999)


def occupancy(a, rating):
    """At home or not, at every step of the diary."""
    r = [rating[x] + rating[y] for x, y in zip(a["prim"], a["sec"])]
    trips = [is_trip(x) or is_trip(y) for x, y in zip(a["prim"], a["sec"])]
    last = max([t for t in range(T) if trips[t]], default=None)
    home = {1: True, 2: False, -1: r[0] >= 0}[a["first"]]
    before, out = home, []
    for t in range(T):
        started = trips[t] and not (t and trips[t - 1])
        ended = t and trips[t - 1] and not trips[t]
        if started:
            before, home = home, False
        elif ended and t - 1 == last:
            home = {1: True, 2: False, -1: r[-1] >= 0}[a["end"]]
        elif ended:
            home = r[t] + (-1 if before else 1) >= 0
        out.append(home)
    return out


def matrices(states, labels, first):
    """{t: {from: Counter(to)}} counted in the diaries."""
    out = [defaultdict(Counter) for _ in range(T)]
    for row in states:
        for t in range(T):
            out[t][row[t - 1]][row[t]] += 1
    if first == "last":
        out[0] = out[-1]
    return out


def check_tpm(tpm, labels, pdf, states, first, what):
    """Dense matrices and initial distribution by label."""
    labels = np.asarray(labels).tolist()
    seen = sorted({x for row in states for x in row})
    at = {}
    for s in seen:
        req(labels.count(s) == 1, "%s: label %r is %d times in %s", what, s,
            labels.count(s), labels)
        at[s] = labels.index(s)
    n = len(labels)
    req_equal(np.shape(tpm), (T, n, n), what + ": shape")
    want = np.zeros(n)
    for row in states:
        want[at[row[0]]] += 1 / len(states)
    req_close(pdf, want, what + ": initial distribution", rtol=1e-12,
              atol=1e-12)
    req_close(np.sum(tpm, axis=2), np.ones((T, n)), what + ": sums of rows",
              rtol=1e-9)
    model = np.zeros((T, n, n))
    counted = matrices(states, labels, first)
    for t in range(T):
        for i in range(n):
            c = counted[t].get(labels[i])
            if not c or labels[i] not in at:
                model[t, i, i] = 1.
            else:
                for to, k in c.items():
                    model[t, i, at[to]] = k / sum(c.values())
    bad = np.argwhere(np.abs(np.asarray(tpm) - model).max((1, 2)) > 1e-12)
    if len(bad):
        t = int(bad[0, 0])
        req_close(tpm[t], model[t], "%s: matrix %d of %s" % (what, t, labels),
                  rtol=1e-12, atol=1e-12)
    return at


def households(diaries, values, merge=sum):
    """Households states by (day, household), in this order."""
    groups = defaultdict(list)
    for a, row in zip(diaries, values):
        groups[a["tagnr"], a["id_hhx"]].append(row)
    return [[merge(x) for x in zip(*groups[k])] for k in sorted(groups)]


def check_durations(out, states, first, ignore_labels, what):
    tpm, dur, labels, pdf, dur0 = out
    labels = np.asarray(labels).tolist()
    seen = sorted({x for row in states for x in row})
    for s in seen:
        req(labels.count(s) == 1, "%s: label %r in %s", what, s, labels)
    at = [labels.index(s) for s in seen]
    # counting of these is decided by C15
    ints = np.array([[seen.index(x) for x in row] for row in states])
    t2, d2, _ = ph.states_to_tpms_with_durations(
        ints, first_tpm_modification_algo=first)
    d0 = ph.get_initial_durations_pdfs(ints)
    req_close(np.asarray(tpm)[np.ix_(range(T), at, at)], t2,
              what + ": matrices", rtol=1e-12, atol=1e-12)
    req_close(np.asarray(dur)[:, at], d2, what + ": durations", rtol=1e-12,
              atol=1e-12)
    req_close(np.asarray(dur0)[at], d0, what + ": initial durations",
              rtol=1e-12, atol=1e-12)
    want = np.bincount(ints[:, 0], minlength=len(seen)) / len(ints)
    req_close(np.asarray(pdf)[at], want, what + ": initial distribution",
              rtol=1e-12, atol=1e-12)
    req_close(np.sum(pdf), 1., what + ": initial distribution")


def runs(row):
    """(value, length) of the runs of a cyclic day."""
    if len(set(row)) == 1:
        return [(row[0], len(row))]
    k = next(i for i in range(len(row)) if row[i] != row[i - 1])
    row = row[k:] + row[:k]
    out = []
    for x in row:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return [tuple(r) for r in out]


@sub("C34", "tables", st.fixed_dictionaries({
    "hh": surveys,
    "kind": st.sampled_from(["4_States", "Bottaccioli2018",
                             "DemodActivities_0", "Sparse9States"]),
    "profile": st.sampled_from([False, True]),
    "duration": st.sampled_from([True, False, False]),
    "keys": st.lists(st.sampled_from([
        "weekday", "n_residents", "household_type", "household_position",
        "quarter", "hh_work_type"]), max_size=2, unique=True),
    "at": st.integers(0, 60), "extra": st.integers(0, 300)}),
     220, 6000, budget=150,
     rule="several diaries are selected; tagged by the table and with several "
          "residents, trips, secondary activities")
def tables(case):
    info = the_codes()
    rows = build(case["hh"], info["codes"])
    akt = rows[2]
    sg = subgroup(rows, case["keys"], case["at"], case["extra"])
    take = selected(rows, sg)
    if not any(take):
        return []
    diaries = [a for a, k in zip(akt, take) if k]
    occ = [occupancy(a, info["home"]) for a in diaries]
    kind = case["kind"]
    tags = {kind}
    with Survey(rows), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        data = GTOU(kind, clear_parsed_data=True)
        if kind == "4_States":
            active = [[c not in (110, 132) for c in a["prim"]]
                      for a in diaries]
            single = [[10 * h + x for h, x in zip(o, ac)]
                      for o, ac in zip(occ, active)]
            states = households(diaries, single)
            tpm, labels, pdf = data.load_tpm(sg)
            check_tpm(tpm, labels, pdf, states, "last", "4 states")
            if case["duration"]:
                tags.add("durations")
                check_durations(data.load_tpm_with_duration(sg), states,
                                "last", False, "4 states with durations")
        elif kind == "Sparse9States":
            check_sparse(data, sg, diaries, occ, info)
        else:
            check_activities(data, sg, diaries, occ, info[kind], kind, case,
                             tags)
        if case["profile"]:
            tags.add("profiles")
            check_profiles(data, sg, diaries, occ, info)
    if len(diaries) < 2:
        return []
    if any(a["hh"]["ha1x"] > 1 for a in diaries):
        tags.add("residents")
    if any(not o[0] and any(o) for o in occ):
        tags.add("trips")
    return sorted(tags)


def work_or_school(c):
    return 200 <= c < 400 or 900 <= c <= 940


def check_sparse(data, sg, diaries, occ, info):
    e = info["energy"]
    vec = []
    for a, o in zip(diaries, occ):
        row = []
        for h, x, y in zip(o, a["prim"], a["sec"]):
            if h:
                on = e[x] != "not active" and e[y] != "not active"
                row.append((int(on), 0, 0))
            elif work_or_school(x) or work_or_school(y):
                row.append((0, 1, 0))
            else:
                row.append((0, 0, 1))
        vec.append(row)
    hh = households(diaries, vec, lambda xs: tuple(map(sum, zip(*xs))))
    states = [[x + 7 * y + 49 * z for x, y, z in row] for row in hh]
    tpm, labels, acts, pdf = data.load_sparse_tpm(sg)
    req_equal(np.asarray(acts).tolist(), ["active", "HWH", "HOH"],
              "activities of the sparse model")
    labels = [int(x) for x in np.asarray(labels)]
    req_equal(labels, sorted({x for r in states for x in r}),
              "states of the sparse model")
    at = {s: i for i, s in enumerate(labels)}
    want = np.zeros(len(labels))
    for r in states:
        want[at[r[0]]] += 1 / len(states)
    got = np.zeros(len(labels))
    pdf = np.asarray(pdf, float)
    got[:len(pdf)] = pdf[:len(labels)]
    req_close(got, want, "initial distribution of the sparse model",
              rtol=1e-12, atol=1e-12)
    req_close(pdf.sum(), 1., "initial distribution of the sparse model")
    model = {}
    for r in states:
        for t in range(T):
            model.setdefault((t, at[r[t]]), Counter())[
                at[r[(t + 1) % T]]] += 1
    found = defaultdict(dict)
    for t, i, j, v in zip(tpm.times, tpm.inds_from, tpm.inds_to, tpm.values):
        req(int(j) not in found[int(t), int(i)], "entry %s twice", (t, i, j))
        found[int(t), int(i)][int(j)] = float(v)
    for k in set(model) | set(found):
        c = model.get(k, {})
        want = {j: n / sum(c.values()) for j, n in c.items()}
        f = {j: v for j, v in found.get(k, {}).items() if v}
        req(set(f) == set(want) and all(abs(f[j] - want[j]) < 1e-12
                                        for j in f),
            "sparse transitions at %s: %s, counted %s", k, f, want)


def check_activities(data, sg, diaries, occ, table, kind, case, tags):
    states = []
    for a, o in zip(diaries, occ):
        row = []
        for h, x, y in zip(o, a["prim"], a["sec"]):
            s = table[x] if h else "away"
            if s == "other" and table[y] != "other":
                s = table[y]
                tags.add("secondary")
            row.append(s)
        states.append(row)
    got, hh, day = data.get_states(sg, return_hh=True, return_day=True)
    req_equal(np.asarray(got).tolist(), states, "activities of the diaries")
    req_equal(np.asarray(hh).tolist(), [a["id_hhx"] for a in diaries],
              "households of the diaries")
    req_equal(np.asarray(day).tolist(), [a["tagnr"] for a in diaries],
              "days of the diaries")
    tpm, labels, pdf = data.load_tpm(sg)
    check_tpm(tpm, labels, pdf, states, "last", kind)
    seen = sorted({x for r in states for x in r})
    if case["duration"]:
        tags.add("durations")
        check_durations(data.load_tpm_with_duration(sg), states, "nothing",
                        True, kind + " with durations")
    n = len(states)
    if "away" in seen and "sleeping" in seen:
        tags.add("probabilities")
        probs = data.load_activity_probabilities(sg)
        req(set(probs) == set(seen) | {"active_occupancy"},
            "probabilities of %s, diaries have %s", set(probs), set(seen))
        for s in seen:
            req_close(probs[s], [sum(r[t] == s for r in states) / n
                                 for t in range(T)], "probability of " + s,
                      rtol=1e-12, atol=1e-12)
        req_close(probs["active_occupancy"],
                  [sum(r[t] not in ("away", "sleeping") for r in states) / n
                   for t in range(T)], "probability of active occupancy",
                  rtol=1e-9, atol=1e-9)
    pieces = [runs(r) for r in states]
    starts = data.load_daily_activity_starts(sg)
    for s in seen:
        counts = [sum(x == s for x, d in p) if len(set(r)) > 1 else 0
                  for p, r in zip(pieces, states)]
        if not any(counts):
            continue
        req(s in starts, "no daily starts of %s", s)
        check_pdf(starts[s], counts, "daily starts of " + s)
    got = np.asarray(starts["active_occupancy"], float)
    req_close(np.sum(got), 1., "daily starts of active occupancy")
    # changes between sleeping and being away may count or not
    off = [[x in ("sleeping", "away") for x in r] for r in states]
    strict = [sum(r[t - 1] and not r[t] for t in range(T)) for r in off]
    direct = [sum(o[t - 1] and o[t] and r[t - 1] != r[t] for t in range(T))
              for o, r in zip(off, states)]
    mean = np.sum(got * np.arange(len(got)))
    req(np.mean(strict) - 1e-9 <= mean
        <= np.mean(strict) + np.mean(direct) + 1e-9, "active occupancy "
        "starts %s times a day, in the diaries %s (and %s changes between "
        "sleeping and away)", mean, np.mean(strict), np.mean(direct))
    if not any(direct):
        check_pdf(got, strict, "daily starts of active occupancy")
        tags.add("active-starts")
    durs = data.load_activity_duration(sg)
    for s in seen:
        lens = [d for p, r in zip(pieces, states) for x, d in p if x == s]
        req(s in durs, "no durations of %s", s)
        check_pdf(durs[s], lens, "durations of " + s)


def check_pdf(got, samples, what):
    got = np.asarray(got, float)
    want = np.bincount(samples) / len(samples)
    m = max(len(got), len(want))
    req_close(np.pad(got, (0, m - len(got))),
              np.pad(want, (0, m - len(want))), what, rtol=1e-12, atol=1e-12)


def check_profiles(data, sg, diaries, occ, info):
    table = info["profile"]
    got = data.load_activity_probability_profiles(sg)
    acts = sorted({v for v in table.values() if v})
    req(set(acts) | {"level", "active_occupancy"} == set(got),
        "profiles of %s", set(got))
    home = households(diaries, occ)
    active = households(diaries, [[c not in (110, 132) for c in a["prim"]]
                                  for a in diaries])
    n_active = np.minimum(home, active)
    req_close(got["level"], np.ones((T, 6)), "profile of level")
    want = np.ones((T, 6))
    want[:, 0] = 0
    req_close(got["active_occupancy"], want, "profile of active occupancy")
    for act in acts:
        doing = np.array(households(diaries, [
            [table[x] == act or table[y] == act
             for x, y in zip(a["prim"], a["sec"])] for a in diaries])) > 0
        want = np.zeros((T, 6))
        for k in range(1, 6):
            mask = n_active == k
            n = mask.sum(0)
            want[:, k] = np.where(n, (doing & mask).sum(0)
                                  / np.maximum(n, 1), 0.)
        req_close(got[act], want, "profile of " + act, rtol=1e-12,
                  atol=1e-12)
