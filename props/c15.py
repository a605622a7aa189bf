"""C15: transitions and Markov models estimated from diaries."""
import json
from collections import Counter, defaultdict

import numpy as np
import pandas
from hypothesis import strategies as st

from pbt.core import raises, req, req_close, req_equal, sub

from demod.utils import parse_helpers as ph
from props.c14 import NAMES, patterns, to_array


def item(x):
    return np.asarray(x).item()


def tuples(d, *keys):
    cols = [np.asarray(d[k]).tolist() for k in keys]
    req(len({len(c) for c in cols}) == 1, "columns of different lengths")
    return list(zip(*cols))


def transitions(rows, ignore, same):
    """{(t, person, old, new): duration until the next change or None}."""
    out = {}
    for p, row in enumerate(rows):
        n = len(row)
        ts = [t for t in range(n)
              if (same or row[t] != (row[t - 1] if t or not ignore
                                     else row[0]))]
        for j, t in enumerate(ts):
            old = row[0] if (t == 0 and ignore) else row[t - 1]
            out[(t, p, old, row[t])] = None
            if same:
                continue
            if j + 1 < len(ts):
                d = ts[j + 1] - t
            else:
                t0 = ts[0]
                first_old = row[0] if (t0 == 0 and ignore) else row[t0 - 1]
                if first_old == row[t]:
                    d = t0 + n - t
                elif ignore:
                    d = None                      # not specified
                else:
                    d = n - t
            out[(t, p, old, row[t])] = d
    return out


@sub("C15", "transitions", st.fixed_dictionaries({
    "rows": patterns(), "kind": st.sampled_from(["int", "str", "offset"]),
    "ignore": st.booleans(), "same": st.booleans(),
    "durations": st.booleans(), "list": st.booleans(),
    # each state lasts that many times longer
    "stretch": st.sampled_from([1] * 7 + [40, 150])}), 3000, 50000,
     rule="some transition, tagged by the options")
def check_transitions(case):
    same = case["same"] and case["kind"] != "str"
    a = to_array(case["rows"], case["kind"])
    a = np.repeat(a, case.get("stretch", 1), axis=1)
    keep = a.copy()
    with_d = case["durations"] and not same
    rows = a.tolist()
    got = ph.states_to_transitions(
        rows if case["list"] else a, return_duration=with_d,
        include_same_state=same,
        ignore_end_start_transitions=case["ignore"])
    req_equal(a, keep, "the given states")
    want = transitions(rows, case["ignore"], same)
    tr = tuples(got, "times", "persons", "old_states", "new_states")
    req(Counter(tr) == Counter(want.keys()), "transitions %s of %s, expected "
        "%s", tr, rows, sorted(want))
    if with_d:
        dur = np.asarray(got["durations"]).tolist()
        req(len(dur) == len(tr), "%s durations", len(dur))
        for k, d in zip(tr, dur):
            req(want[k] is None or d == want[k],
                "transition %s of %s has duration %s, expected %s", k, rows,
                d, want[k])
    else:
        req("durations" not in got, "durations were not asked for")
    if not want:
        return None
    return [("ignore" if case["ignore"] else "cyclic")
            + (" durations" if with_d else "") + (" same" if same else "")]


# -------------------------------------------------------- households, others
@st.composite
def households(draw):
    rows = draw(patterns(max_rows=8, max_times=8, values=3))
    n = len(rows)
    return {"rows": rows,
            "second": draw(patterns(rows=n, times=len(rows[0]), values=4)),
            "hh": draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)),
            "day": draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)),
            "use": draw(st.booleans())}


def secondary(prim, sec):
    out = []
    for p in range(len(prim)):
        for t in range(1, len(prim[p])):
            op, os_ = prim[p][t - 1], sec[p][t - 1]
            np_, ns = prim[p][t], sec[p][t]
            if op not in (np_, ns):
                out.append((t, p, op, np_))
            if os_ not in (np_, ns):
                out.append((t, p, os_, ns))
    return out


@sub("C15", "secondary", households(), 2000, 30000,
     rule="some activity goes away")
def check_secondary(case):
    a, b = np.array(case["rows"]), np.array(case["second"])
    got = ph.states_to_transitions_secondary(a, b)
    req_equal(a, case["rows"], "primary states")
    req_equal(b, case["second"], "secondary states")
    want = secondary(case["rows"], case["second"])
    tr = tuples(got, "times", "persons", "old_states", "new_states")
    req(Counter(tr) == Counter(want), "transitions %s, expected %s (of %s "
        "and %s)", sorted(tr), sorted(want), case["rows"], case["second"])
    return ["some"] if want else None


@sub("C15", "households", households(), 2000, 30000,
     rule="some household transition; tagged when several residents share it")
def check_households(case):
    a = np.array(case["rows"])
    hh, day = np.array(case["hh"]) * 7 + 100, np.array(case["day"])
    sec = np.array(case["second"]) if case["use"] else None
    if case["use"]:
        tr = secondary(case["rows"], case["second"])
    else:
        tr = list(transitions(case["rows"], False, False))
    if not tr:
        return None
    want = Counter((t, o, n, item(hh[p]), item(day[p])) for t, p, o, n in tr)
    got = ph.group_hh_transitions(a, hh, day, sec)
    keys = tuples(got, "times", "old_states", "new_states", "households",
                  "day_nrs")
    counts = np.asarray(got["counts"]).tolist()
    req(len(keys) == len(set(keys)) == len(counts), "repeated transitions")
    req(dict(zip(keys, counts)) == dict(want),
        "household transitions %s, expected %s", dict(zip(keys, counts)),
        dict(want))
    req_equal(a, case["rows"], "primary states")
    return ["shared" if max(want.values()) > 1 else "single"]


# ------------------------------------------------------------------ matrices
def first(tables, algo):
    if algo == "last":
        tables[0] = tables[-1].copy()
    return tables


@sub("C15", "matrices", st.fixed_dictionaries({
    "rows": patterns(max_rows=9, max_times=9),
    "algo": st.sampled_from(["last", "nothing", "default"]),
    "repeat": st.sampled_from([1, 1, 1, 1, 300]),
    "extra": st.sampled_from([None, 0, 2])}), 2000, 40000,
     rule="some row has several possible next states")
def matrices(case):
    # repeating all the diaries does not change the frequencies
    a = np.tile(np.array(case["rows"]), (case["repeat"], 1))
    keep = a.copy()
    n_t = a.shape[1]
    n = int(a.max()) + 1
    kw = {} if case["algo"] == "default" else {
        "first_tpm_modification_algo": case["algo"]}
    if case["extra"] is not None:
        n += case["extra"]
        kw["labels"] = [str(i) for i in range(n)]
    got = np.asarray(ph.states_to_tpms(a, **kw))
    req_equal(a, keep, "the given states")
    counts = np.zeros((n_t, n, n))
    for row in case["rows"]:
        for t in range(n_t):
            counts[t, row[t - 1], row[t]] += 1
    counts = first(counts, "nothing" if case["algo"] == "nothing" else "last")
    want = np.zeros_like(counts)
    for t in range(n_t):
        for i in range(n):
            s = counts[t, i].sum()
            want[t, i] = counts[t, i] / s if s else np.eye(n)[i]
    req_close(got, want, "matrices", rtol=1e-12, atol=1e-12)
    req_close(got.sum(axis=-1), np.ones((n_t, n)), "sum of each row",
              rtol=1e-12)
    return ["several"] if np.any((counts > 0).sum(-1) > 1) else None


@sub("C15", "semi_markov", st.fixed_dictionaries({
    "rows": patterns(max_rows=9, max_times=8),
    "algo": st.sampled_from(["last", "nothing"]),
    "ignore": st.sampled_from([True, False, None]),
    "extra": st.sampled_from([None, 0, 1])}), 2000, 40000,
     rule="some entry has several durations or next states; tagged with "
          "constant diaries")
def semi_markov(case):
    if case["extra"] is None:          # every state up to the largest occurs
        u = sorted({x for r in case["rows"] for x in r})
        rows = [[u.index(x) for x in r] for r in case["rows"]]
    else:
        rows = case["rows"]
    repeat = case.get("repeat", 1)
    if case.get("stretch", 1) > 1:            # long diaries
        rows = [[x for x in r for _ in range(case["stretch"])]
                for r in rows[:3]]
        u = sorted({x for r in rows for x in r})
        rows = [[u.index(x) for x in r] for r in rows]
        repeat = 1
    # repeating all the diaries does not change the frequencies
    a = np.tile(np.array(rows), (repeat, 1))
    keep = a.copy()
    n_t = a.shape[1]
    n = int(a.max()) + 1
    kw = {"first_tpm_modification_algo": case["algo"]}
    if case["extra"] is not None:
        n += case["extra"]
        kw["labels"] = NAMES[:n]
    if case["ignore"] is not None:
        kw["ignore_end_start_transitions"] = case["ignore"]
    ignore = case["ignore"] in (None, True)
    tpm, dur, dur_prev = ph.states_to_tpms_with_durations(a, **kw)
    req_equal(a, keep, "the given states")
    req_equal(np.shape(tpm), (n_t, n, n), "shape of the matrices")
    req_equal(np.shape(dur), (n_t, n, n_t + 1), "shape of the durations")
    req_equal(np.shape(dur_prev), (n_t, n, n, n_t + 1),
              "shape of the durations with previous")
    tr = transitions(rows, ignore, False)
    c_t = np.zeros((n_t, n, n))
    c_d = np.zeros((n_t, n, n_t + 1))
    c_p = np.zeros((n_t, n, n, n_t + 1))
    unknown = np.zeros((n_t, n), bool)
    unknown_p = np.zeros((n_t, n, n), bool)
    for (t, p, old, new), d in tr.items():
        c_t[t, old, new] += 1
        if d is None:
            unknown[t, new] = True
            unknown_p[t, old, new] = True
        else:
            c_d[t, new, d] += 1
            c_p[t, old, new, d] += 1
    first(c_t, case["algo"])
    first(c_d, case["algo"])
    first(c_p, case["algo"])
    first(unknown, case["algo"])
    first(unknown_p, case["algo"])
    for i in range(n):
        full = sum(all(x == i for x in row) for row in rows)
        c_t[0, i, i], c_d[0, i, -1], c_p[0, i, i, -1] = full, full, full
    want = np.zeros_like(c_t)
    for t in range(n_t):
        for i in range(n):
            s = c_t[t, i].sum()
            want[t, i] = c_t[t, i] / s if s else np.eye(n)[i]
    req_close(tpm, want, "matrices", rtol=1e-12, atol=1e-12)

    def compare(got, c, unk, what):
        req_close(got.sum(axis=-1), np.ones(got.shape[:-1]),
                  "sums of the " + what, rtol=1e-12)
        for idx in np.ndindex(*c.shape[:-1]):
            if unk[idx]:
                continue
            s = c[idx].sum()
            w = c[idx] / s if s else np.eye(c.shape[-1])[0]
            req_close(got[idx], w, "%s %s" % (what, idx), rtol=1e-12,
                      atol=1e-12)
    compare(dur, c_d, unknown, "durations")
    compare(dur_prev, c_p, unknown_p, "durations with previous")
    tags = []
    if np.any((c_d > 0).sum(-1) > 1) or np.any((c_t > 0).sum(-1) > 1):
        tags.append("several")
        if any(len(set(r)) == 1 for r in rows):
            tags.append("constant")
        if unknown.any():
            tags.append("open end")
        if repeat > 1:
            tags.append("repeated")
        if n_t > 8:
            tags.append("long")
    return tags


@sub("C15", "semi_markov_large", st.fixed_dictionaries({
    "rows": patterns(rows=6, times=7, values=3),
    "algo": st.sampled_from(["last", "nothing"]),
    "ignore": st.sampled_from([True, False, None]),
    "extra": st.sampled_from([None, 0]),
    "size": st.sampled_from([(300, 1), (300, 1), (1, 40)])}), 100, 2000,
     rule="some entry has several durations or next states")
def semi_markov_large(case):
    """Many diaries, or diaries of hundreds of steps."""
    return semi_markov({**case, "repeat": case["size"][0],
                        "stretch": case["size"][1]})


@sub("C15", "initial_durations", st.fixed_dictionaries({
    "rows": patterns(max_rows=9, max_times=9),
    "repeat": st.sampled_from([1, 1, 1, 300])}), 1500, 20000,
     rule="several durations")
def initial_durations(case):
    u = sorted({x for r in case["rows"] for x in r})
    rows = [[u.index(x) for x in r] for r in case["rows"]]
    a = np.tile(np.array(rows), (case["repeat"], 1))
    keep = a.copy()
    n_t, n = a.shape[1], len(u)
    got = np.asarray(ph.get_initial_durations_pdfs(a))
    req_equal(a, keep, "the given states")
    counts = np.zeros((n, n_t + 1))
    for row in rows:
        t = next((t for t in range(n_t) if row[t] != row[0]), n_t)
        counts[row[0], t] += 1
    req_equal(got.shape, counts.shape, "shape")
    for i in range(n):
        s = counts[i].sum()
        req_close(got[i], counts[i] / s if s else np.eye(n_t + 1)[0],
                  "initial durations of state %s" % i, rtol=1e-12)
    return ["several"] if np.any((counts > 0).sum(-1) > 1) else None


@sub("C15", "counts", st.fixed_dictionaries({
    "shape": st.sampled_from([(1,), (4,), (3, 4), (2, 3, 3), (2, 2, 2, 3)]),
    "seed": st.integers(0, 10**6), "p": st.sampled_from([0, .3, .8]),
    "valid": st.sampled_from([None, True, False]),
    "kind": st.sampled_from(["int", "float"])}), 1500, 20000,
     rule="empty and other rows")
def counts_to_pdf(case):
    rng = np.random.RandomState(case["seed"])
    shape = tuple(case["shape"])
    c = np.where(rng.uniform(size=shape) < case["p"], 0,
                 rng.randint(1, 9, size=shape))
    if case["kind"] == "float":
        c = c * 1.5
    keep = c.copy()
    kw = {} if case["valid"] is None else {"ensure_valid_pdf": case["valid"]}
    got = np.asarray(ph.counts_to_pdf(c, **kw))
    req_equal(c, keep, "the given counts")
    req_equal(got.shape, shape, "shape")
    empty = 0
    for idx in np.ndindex(*shape[:-1]):
        s = keep[idx].sum()
        if s:
            req_close(got[idx], keep[idx] / s, "pdf of the counts",
                      rtol=1e-12)
        elif case["valid"] is not False:
            empty += 1
            req_close(got[idx], np.eye(shape[-1])[0], "pdf without counts")
        else:
            empty += 1
            req(bool(np.all(np.isnan(got[idx]))), "pdf without counts: %s",
                got[idx])
    return ["mixed"] if 0 < empty < np.prod(shape[:-1]) else None


@sub("C15", "first_matrix", st.fixed_dictionaries({
    "n": st.integers(1, 5), "seed": st.integers(0, 10**6),
    "algo": st.sampled_from(["last", "nothing", "bad", ""])}), 300, 3000,
     rule="several matrices")
def first_matrix(case):
    a = np.random.RandomState(case["seed"]).randint(9, size=(case["n"], 2, 2))
    want = a.copy()
    if case["algo"] not in ("last", "nothing"):
        req(raises(TypeError, ph.first_tpm_change, a, algo=case["algo"]),
            "algorithm %r is accepted", case["algo"])
        return None
    if case["algo"] == "last":
        want[0] = want[-1]
    req_equal(ph.first_tpm_change(a, algo=case["algo"]), want, "matrices")
    return ["several"] if case["n"] > 1 else None


# ------------------------------------------------------------- small helpers
@sub("C15", "merged_states", st.fixed_dictionaries({
    "rows": patterns(values=6), "kind": st.sampled_from(["int", "str", "offset"]),
    "to": st.lists(st.integers(0, 3), min_size=6, max_size=6),
    "names": st.booleans(), "merge": st.booleans()}), 1500, 20000,
     rule="several labels merged into one")
def merged_states(case):
    a = to_array(case["rows"], case["kind"])
    values = sorted(set(a.ravel().tolist()))
    base = np.array(case["rows"])
    label = {}
    for x, b in zip(a.ravel().tolist(), base.ravel().tolist()):
        v = case["to"][b]
        label[x] = ("L%d" % (9 - v) if case["names"] else v * 10)
    merge = dict(label) if case["merge"] else None
    if not case["merge"]:
        label = {x: x for x in values}
    keep = a.copy()
    states, labels = (ph.convert_states(a, merge) if case["merge"]
                      else ph.convert_states(a))
    req_equal(a, keep, "the given states")
    req_equal(list(labels), sorted(set(label.values())), "labels")
    req_equal(np.shape(states), a.shape, "shape")
    req(np.asarray(states).dtype.kind in "iu", "states are not integers")
    req_equal(np.asarray(labels)[states],
              [[label[x] for x in r] for r in a.tolist()], "merged states")
    if case["merge"]:
        req(merge == label, "the given dictionary was changed")
    return (["merged"] if len(set(label.values())) < len(values)
            else ["renamed"])


LEAF = st.one_of(st.integers(-5, 5), st.floats(-2, 2), st.text(max_size=4),
                 st.sampled_from(["@a3", "@f", "@s", "@n", "@i", "@none"]))
TREE = st.recursive(LEAF, lambda c: st.one_of(
    st.lists(c, max_size=4),
    st.dictionaries(st.sampled_from(["a", "b b", "c"]), c, max_size=3)),
    max_leaves=10)

SPECIAL = {"@a3": np.arange(6).reshape(2, 3), "@f": np.float64(2.5),
           "@s": pandas.Series([1, 2]), "@n": np.array(["x", "y"]),
           "@i": np.int64(7), "@none": None}
PLAIN = {"@a3": [[0, 1, 2], [3, 4, 5]], "@f": 2.5, "@s": [1, 2],
         "@n": ["x", "y"], "@i": 7, "@none": None}


def build(x, table):
    if isinstance(x, dict):
        return {k: build(v, table) for k, v in x.items()}
    if isinstance(x, list):
        return [build(v, table) for v in x]
    if isinstance(x, str) and x in table:
        return table[x]
    return x


def special(x):
    if isinstance(x, dict):
        return any(special(v) for v in x.values())
    if isinstance(x, list):
        return any(special(v) for v in x)
    return isinstance(x, str) and x in SPECIAL


@sub("C15", "json", st.fixed_dictionaries({"x": TREE}), 1500, 20000,
     rule="arrays or numpy scalars inside")
def jsonable(case):
    got = ph.make_jsonable(build(case["x"], SPECIAL))
    want = build(case["x"], PLAIN)
    req(json.loads(json.dumps(got)) == want, "%s instead of %s", got, want)
    return ["special"] if special(case["x"]) else None


@sub("C15", "bulbs", st.fixed_dictionaries({
    "n": st.integers(1, 6), "m": st.integers(1, 6),
    "seed": st.integers(0, 10**6), "nan": st.booleans()}), 600, 8000,
     rule="missing bulbs")
def bulbs(case):
    rng = np.random.RandomState(case["seed"])
    a = rng.choice([0., 0., 11., 40., 60.], size=(case["n"], case["m"]))
    a[0, 0] = 60.
    if case["nan"]:
        a[(rng.uniform(size=a.shape) < 0.3) & (a != 60)] = np.nan
    keep = a.copy()
    (mean, std), (cons, pen) = ph.bulbs_stats_from_config(a)
    req_equal(a, keep, "the given configuration")
    per = [sum(x > 0 for x in r) for r in a.tolist()]
    req_close(mean, np.mean(per), "mean number of bulbs")
    req_close(std, np.std(per), "deviation of the number of bulbs")
    c = Counter(x for r in a.tolist() for x in r if x > 0)
    req_equal(cons, sorted(c), "consumptions")
    req_close(pen, [c[x] / sum(c.values()) for x in sorted(c)], "penetration")
    return ["missing"] if sum(per) < a.size else None


@sub("C15", "translate", st.fixed_dictionaries({
    "x": st.lists(st.integers(0, 4), max_size=8), "array": st.booleans(),
    "to": st.lists(st.text(max_size=3), min_size=5, max_size=5)}), 300, 3000,
     rule="several elements")
def translate(case):
    d = dict(enumerate(case["to"]))
    x = np.array(case["x"], int) if case["array"] else list(case["x"])
    req_equal(list(ph.translate_1d(x, d)), [d[i] for i in case["x"]],
              "translated")
    return ["several"] if len(case["x"]) > 1 else None
