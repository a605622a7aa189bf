"""C17: subgroups: order, keys, persons and time."""
import calendar
import copy
import datetime as dt
import functools
import json
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import raises, req, req_equal, sub

from demod.utils import subgroup_handling as sh

AGES = [[0, 18], [25, 40], [25, 41], [40, 67]]
VALUES = {
    "n_residents": st.integers(1, 12),
    "household_type": st.integers(1, 5),
    "life_situation": st.integers(1, 11),
    "household_position": st.integers(1, 3),
    "gender": st.integers(1, 3),
    "age": st.sampled_from(AGES),
    "hh_mean_age": st.sampled_from(AGES),
    "weekday": st.one_of(st.sampled_from([[1, 2, 3, 4, 5], [6, 7]]),
                         st.sampled_from([[1, 2, 3, 4, 5], [6, 7]]),
                         st.sampled_from([[7, 6], [1, 2], [2, 1], [12]])),
    "quarter": st.integers(1, 4),
    "geographical_region": st.sampled_from(["north", "south", "east"]),
    "country": st.sampled_from(["germany", "england"]),
}
TUPLES = ("age", "hh_mean_age")


@st.composite
def subgroups(draw, keys=tuple(sorted(VALUES)), max_keys=4, **fixed):
    out = dict(fixed)
    for k in draw(st.lists(st.sampled_from(keys), max_size=max_keys,
                           unique=True)):
        if k not in out:
            out[k] = draw(VALUES[k])
    if draw(st.booleans()):
        items = list(out.items())
        out = dict(items[::-1])
    return out


def decode(d):
    return {k: tuple(v) if k in TUPLES else copy.copy(v)
            for k, v in d.items()}


@st.composite
def lists(draw):
    pool = [draw(subgroups(keys=("age", "gender", "weekday",
                                 "household_position",
                                 "life_situation"), max_keys=3))
            for _ in range(draw(st.integers(1, 4)))]
    for d in list(pool):
        e = dict(d)
        if e and draw(st.booleans()):
            k = draw(st.sampled_from(sorted(e)))
            e[k] = draw(VALUES[k])
            pool.append(e)
    picks = draw(st.lists(st.integers(0, len(pool) - 1), min_size=2,
                          max_size=9))
    return [pool[i] for i in picks]


def compare(a, b):
    """The documented order: number of keys, keys, values."""
    if len(a) != len(b):
        return 1 if len(a) > len(b) else -1
    for k in sorted(set(a) | set(b)):
        if k not in b:
            return 1
        if k not in a:
            return -1
        if a[k] != b[k]:
            return 1 if a[k] > b[k] else -1
    return 0


@sub("C17", "order", st.fixed_dictionaries({
    "l": lists(), "rev": st.booleans()}), 2500, 40000,
     rule="several different subgroups, some repeated")
def order(case):
    objs = []
    for d in case["l"]:
        d = decode(d)
        if case["rev"] and len(objs) % 2:
            d = dict(list(d.items())[::-1])
        objs.append(sh.Subgroup(d))
    want = sorted(objs, key=functools.cmp_to_key(compare))
    for a in objs:
        for b in objs:
            c = compare(a, b)
            req((a > b) is (c > 0), "%s > %s gives %s", a, b, a > b)
            req((a < b) is (c < 0), "%s < %s gives %s", a, b, a < b)
            req((a == b) is (c == 0), "%s == %s gives %s", a, b, a == b)
    req(sorted(objs) == want, "sorted %s", sorted(objs))
    arr = np.empty(len(objs), dtype=object)
    arr[:] = objs
    u, counts = np.unique(arr, return_counts=True)
    distinct = []
    for w in want:
        if not distinct or distinct[-1] != w:
            distinct.append(w)
    req(list(u) == distinct, "unique %s, expected %s", list(u), distinct)
    req([int(c) for c in counts] == [sum(o == d for o in objs)
                                     for d in distinct], "counts %s", counts)
    for o in objs:
        c = o.copy()
        req(isinstance(c, sh.Subgroup) and c == o and c is not o,
            "copy of a subgroup")
        c["new"] = 1
        req("new" not in o, "the copy shares its keys")
        req(raises(TypeError, o.__gt__, 3), "compared with a number")
    if len(distinct) < 2:
        return None
    return ["repeated" if len(distinct) < len(objs) else "different"]


@st.composite
def pairs(draw):
    a, b = draw(subgroups()), draw(subgroups())
    if a and draw(st.booleans()):       # differing in one value, often
        b = dict(a)
        k = draw(st.sampled_from(sorted(a)))
        if isinstance(b[k], list) and draw(st.booleans()):
            b[k] = b[k][::-1]
        else:
            b[k] = draw(VALUES[k])
    return {"a": a, "b": b, "seed": draw(st.integers(0, 100))}


@sub("C17", "keys", pairs(),
     2500, 40000, rule="a subgroup of several keys, given in another order")
def keys(case):
    a, b = decode(case["a"]), decode(case["b"])
    ka, kb = json.dumps(case["a"], sort_keys=True), json.dumps(
        case["b"], sort_keys=True)
    items = list(a.items())
    perm = np.random.RandomState(case["seed"]).permutation(len(items))
    a2 = {items[i][0]: copy.copy(items[i][1]) for i in perm}
    keep = copy.deepcopy(a)
    sa = sh.subgroup_string(a)
    req(isinstance(sa, str), "%s is not a string", sa)
    req(sh.subgroup_string(a2) == sa, "strings %s and %s of the same "
        "subgroup", sa, sh.subgroup_string(a2))
    req(sh.subgroup_string(sh.Subgroup(a2)) == sa, "string of a Subgroup")
    req((sh.subgroup_string(b) == sa) == (ka == kb),
        "strings %s and %s of %s and %s", sa, sh.subgroup_string(b), ka, kb)
    srt = sh.sort_subgroup(a2)
    req(srt == a and list(srt) == sorted(a), "sorted subgroup %s", srt)
    req(list(a2) == [items[i][0] for i in perm], "the given subgroup was "
        "sorted")
    out = sh.remove_time_attributues(a)
    req(dict(out) == {k: v for k, v in a.items()
                      if k not in ("weekday", "quarter")},
        "without time: %s", out)
    out["x"] = 1
    req(a == keep, "the given subgroup was changed: %s", a)
    for k, v in (("weekday", [1, 2, 3, 4, 5]), ("weekday", [6, 7])):
        c = dict(a, **{k: list(v)})
        req(sh.check_weekend_day_format(c) is None, "day format")
        req(sh.is_weekend(c) == (v == [6, 7]), "is_weekend of %s", v)
        req(sh.is_weekday(c) == (v != [6, 7]), "is_weekday of %s", v)
    return ["several"] if len(a) > 1 else None


@sub("C17", "day_format", st.fixed_dictionaries({
    "d": st.one_of(st.integers(0, 8), st.none(), st.text(max_size=3),
                   st.lists(st.integers(1, 7), max_size=7))}), 600, 8000,
     rule="not one of the two formats")
def day_format(case):
    g = {"weekday": case["d"]}
    ok = case["d"] in ([1, 2, 3, 4, 5], [6, 7])
    if ok:
        sh.check_weekend_day_format(g)
        return None
    req(raises(ValueError, sh.check_weekend_day_format, g),
        "weekday %r is accepted", case["d"])
    req(not sh.is_weekend(g) and not sh.is_weekday(g), "day %r", case["d"])
    return ["refused"]


# ------------------------------------------------------------------- persons
@st.composite
def households(draw):
    t = draw(st.sampled_from([None, 1, 2, 3, 4, 5]))
    n = {1: 1, 2: 2}.get(t) or draw(st.integers(
        {None: 1, 3: 2, 4: 2, 5: 2}[t], 7))
    d = {"n_residents": n}
    if t is not None:
        d["household_type"] = t
        if t in (1, 2) and draw(st.integers(0, 3)) == 0 and t == 1:
            del d["n_residents"]
    if draw(st.booleans()):
        d["hh_mean_age"] = draw(st.sampled_from(AGES))
    if draw(st.integers(0, 3)) == 0:
        d["age"] = draw(st.sampled_from(AGES))
    for k in ("weekday", "quarter", "geographical_region", "life_situation"):
        if draw(st.integers(0, 3)) == 0:
            d[k] = draw(VALUES[k])
    items = list(d.items())
    if draw(st.booleans()):
        items = items[::-1]
    return dict(items)


def persons(d):
    t, n = d.get("household_type"), d.get("n_residents")
    base = {k: v for k, v in d.items()
            if k not in ("n_residents", "household_type")}
    if t == 1 or n == 1:
        if "age" not in base and "hh_mean_age" in base:
            base["age"] = base.pop("hh_mean_age")
        return [base]
    pos = {2: [1, 2], 3: [1] + [3] * (n - 1), 4: [1, 2] + [3] * (n - 2)}.get(t)
    if pos is None:
        return [dict(base) for _ in range(n)]
    return [dict(base, household_position=p) for p in pos]


@sub("C17", "persons", st.fixed_dictionaries({
    "hh": st.lists(households(), min_size=1, max_size=5),
    "one": st.booleans(), "sub": st.booleans()}), 2500, 40000,
     rule="households of several residents")
def check_persons(case):
    hh = [decode(d) for d in case["hh"]]
    if case["sub"]:
        hh = [sh.Subgroup(d) for d in hh]
    keep = copy.deepcopy(hh)
    want = [persons(d) for d in hh]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["one"]:
            got = [sh.subgroup_households_to_persons(d) for d in hh]
        else:
            got = sh.subgroup_households_to_persons(hh)
    req(hh == keep, "the given subgroups were changed: %s", hh)
    req(len(got) == len(hh), "%s households", len(got))
    for d, g, w in zip(hh, got, want):
        g_ = [dict(p) for p in g]
        req(len(g_) == len(w), "%s persons in %s", len(g_), d)
        req(sorted(map(repr, map(sh.sort_subgroup, g_)))
            == sorted(map(repr, map(sh.sort_subgroup, w))),
            "persons %s of %s, expected %s", g_, d, w)
        req(all(isinstance(p, sh.Subgroup) for p in g), "persons are %s",
            [type(p) for p in g])
    return ["several"] if any(len(w) > 1 for w in want) else None


# ---------------------------------------------------------------------- time
KINDS = ["default", "ends", "sat_sun", "7days", "none", "two"]


@sub("C17", "time", st.fixed_dictionaries({
    "day": st.integers(0, 40000), "second": st.integers(0, 86399),
    "kind": st.sampled_from(KINDS), "quarters": st.sampled_from([None, True,
                                                                 False]),
    "zone": st.sampled_from([None, None, 0, 120, -600]),
    "g": subgroups(), "again": st.integers(0, 400)}), 4000, 80000,
     rule="every kind of day but none")
def time(case):
    when = dt.datetime(1990, 1, 1) + dt.timedelta(
        days=case["day"], seconds=case["second"])
    if case["zone"] is not None:
        when = when.replace(tzinfo=dt.timezone(
            dt.timedelta(minutes=case["zone"])))
    kind = case["kind"]
    kw = {"default": {}, "ends": {"use_week_ends_days": True},
          "sat_sun": {"use_week_ends_days": False, "use_week_sat_sun": True},
          "7days": {"use_week_ends_days": False, "use_7days": True},
          "none": {"use_week_ends_days": False},
          "two": {"use_7days": True}}[kind]
    if case["quarters"] is not None:
        kw["use_quarters"] = case["quarters"]
    g = sh.Subgroup(decode(case["g"]))
    base = {k: v for k, v in g.items() if k not in ("weekday", "quarter")}
    if kind == "two":
        req(raises(ValueError, sh.add_time, g, when, **kw),
            "two kinds of days accepted")
        return ["refused"]

    def want(w):
        d = dict(base)
        iso = calendar.weekday(w.year, w.month, w.day) + 1
        if kind in ("default", "ends"):
            d["weekday"] = [1, 2, 3, 4, 5] if iso <= 5 else [6, 7]
        elif kind == "sat_sun":
            d["weekday"] = [1, 2, 3, 4, 5] if iso <= 5 else iso
        elif kind == "7days":
            d["weekday"] = iso
        if case["quarters"]:
            d["quarter"] = {1: 1, 2: 1, 3: 1, 4: 2, 5: 2, 6: 2, 7: 3, 8: 3,
                            9: 3, 10: 4, 11: 4, 12: 4}[w.month]
        return d
    got = sh.add_time(g, when, **kw)
    req(dict(got) == want(when), "subgroup at %s: %s, expected %s", when,
        dict(got), want(when))
    first = copy.deepcopy(dict(got))
    later = when + dt.timedelta(days=case["again"])
    other = sh.add_time(sh.Subgroup(got), later, **kw)
    req(dict(other) == want(later), "subgroup updated to %s: %s, expected %s",
        later, dict(other), want(later))
    req(dict(got) == first, "subgroup of another day was changed: %s, %s",
        got, first)
    return [kind] if kind != "none" else None
