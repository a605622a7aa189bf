"""C12: households simulated as a whole (sparse transit and 4-states)."""
import datetime as dt
import json
import warnings
import zlib

import numpy as np
from hypothesis import strategies as st

from pbt.core import (P_REJECT, gtest_pvalue, raises, req, req_close,
                      req_equal, sub)

from demod.simulators.base_simulators import SimLogger
from demod.simulators.crest_simulators import (
    Crest4StatesModel, CrestOccupancySimulator)
from demod.simulators.sparse_simulators import (
    SparseTransitStatesSimulator, SubgroupsActivitySimulator)
from demod.utils.sparse import SparseTPM
from props.c09 import one_hot

TEN = dt.timedelta(minutes=10)


def rng_of(*key):
    return np.random.RandomState(
        zlib.crc32(json.dumps(
        key, sort_keys=True, default=int).encode()))


# ------------------------------------------------------------ sparse transit
class SparseData:
    """One-hot sparse matrices depending on the subgroup asked for."""

    def __init__(self, acts, n_states, n_times, n_start, dead, seed):
        self.acts, self.ns, self.nt = acts, n_states, n_times
        self.n_start, self.dead, self.seed = n_start, dead, seed
        self.asked = []

    def tables(self, sg):
        sg = dict(sg)
        n_res = sg["n_residents"]
        rng = rng_of(self.seed, sg)
        # labels: some of the codes shared by all tables of this household
        # size, in any order (so that some labels can get lost)
        pool_rng = rng_of(self.seed, n_res)
        pool = sorted({self.code(pool_rng, n_res)
                       for _ in range(2 * self.ns)})
        labels = rng.permutation(pool)[:self.ns]
        ns = len(labels)
        nxt = rng.randint(ns, size=(self.nt, ns))
        alive = np.ones((self.nt, ns), bool)
        if self.dead:
            alive[:, 1:] = rng.uniform(size=(self.nt, ns - 1)) < 0.8
        start = rng.permutation(ns)[:max(1, min(self.n_start, ns))]
        return labels, nxt, alive, start

    def code(self, rng, n_res):
        i_h, i_o = self.acts.index("HWH"), self.acts.index("HOH")
        counts = rng.randint(n_res + 1, size=len(self.acts))
        counts[i_h] = rng.randint(n_res + 1)
        counts[i_o] = rng.randint(n_res + 1 - counts[i_h])
        return int(sum(c * 7 ** i for i, c in enumerate(counts)))

    def load_sparse_tpm(self, sg):
        self.asked.append(dict(sg))
        labels, nxt, alive, start = self.tables(sg)
        t, i = np.where(alive)
        pdf = np.zeros(len(labels))
        pdf[start] = 1. / len(start)
        tpm = SparseTPM(t, i, nxt[t, i], np.ones(len(t)),
                        n_states=len(labels), n_times=self.nt)
        if self.dead:
            tpm.dead_state_value = 0
        return tpm, labels, np.array(self.acts), pdf


def day_keys(date, flags):
    d = date.isoweekday()
    if flags["week"] == 0:
        w = 0
    elif flags["week"] == 2:
        w = [1, 2, 3, 4, 5] if d <= 5 else [6, 7]
    else:
        w = d
    return {"weekday": w,
            "quarter": (date.month - 1) // 3 + 1 if flags["quarters"]
            else None}


class SparsePath:
    """Successor of a household label, step after step."""

    def __init__(self, data, sg, start, flags):
        self.data, self.sg, self.flags = data, dict(sg), flags
        self.cur = data.tables(self.sg)
        self.k = 0
        if start is not None:
            sod = start.hour * 60 + start.minute
            self.time = start - ((sod - 240) % 1440 // 10) * TEN
        else:
            self.time = None
        self.maps = []            # label -> label for the pending day change

    def initial(self):
        labels, _, _, start = self.cur
        out = {int(labels[i]) for i in start}
        if self.time is not None:
            out = {self.change_day()(lab) for lab in out}
        return out

    def change_day(self):
        self.cur = self.data.tables(
            {**self.sg, **day_keys(self.time, self.flags)})
        labels = self.cur[0]
        known = {int(x) for x in labels}
        return lambda lab: lab if lab in known else int(labels[0])

    def advance(self):
        """Function label -> label of the next step."""
        move = None
        if self.time is not None and self.k and self.k % 144 == 0:
            move = self.change_day()
        labels, nxt, alive, _ = self.cur
        pos = {int(x): i for i, x in enumerate(labels)}
        t = self.k % self.data.nt

        def f(lab):
            i = pos[move(lab) if move else lab]
            if not alive[t, i]:
                i = 0
            return int(labels[nxt[t, i]])
        self.k += 1
        if self.time is not None:
            self.time += TEN
        return f


ACTS = [["HWH", "HOH", "active"], ["active", "HWH", "x", "HOH"],
        ["HOH", "active", "HWH"]]


@st.composite
def sparse_cases(draw):
    aware = draw(st.sampled_from([True, True, True, False]))
    return {
        "groups": draw(st.lists(st.tuples(
            st.integers(1, 5), st.sampled_from([None, 1, 4]),
            st.integers(0, 5)), min_size=1, max_size=4)),
        "acts": draw(st.sampled_from(ACTS)), "ns": draw(st.integers(1, 8)),
        "aware": aware,
        "nt": 144 if aware else draw(st.integers(1, 9)),
        "n_start": draw(st.integers(1, 4)), "dead": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
        "week": draw(st.sampled_from([0, 2, 2, 7])),
        "quarters": draw(st.booleans()),
        "day": draw(st.one_of(st.integers(0, 900),
                              st.sampled_from([89, 90, 180, 272, 364, 365]))),
        "minute": draw(st.one_of(
            st.integers(0, 1439),
            st.sampled_from([230, 235, 239, 240, 241, 250, 0]))),
        "run": draw(st.sampled_from([0, 1, 4, 30, 160])),
        "single": draw(st.booleans()),
    }


def read_labels(sim, n_acts):
    """Household label codes rebuilt from the counts per activity."""
    return sum(np.asarray(sim.get_n_doing_state(i)) * 7 ** i
               for i in range(n_acts))


def check_sparse_readings(sim, labs, res, acts, where):
    counts = {a: labs // 7 ** i % 7 for i, a in enumerate(acts)}
    for i, a in enumerate(acts):
        req_equal(sim.get_n_doing_activity(a), counts[a],
                  "%s: doing %s" % (where, a))
    got = sim.get_n_doing_activity(list(acts[:2]))
    req_equal(got[0], counts[acts[0]], "%s: list of activities" % where)
    req_equal(got[1], counts[acts[1]], "%s: list of activities" % where)
    occ = res - counts["HWH"] - counts["HOH"]
    act = np.minimum(occ, counts["active"])
    req_equal(sim.get_occupancy(), occ, "%s: occupancy" % where)
    req_equal(sim.get_active_occupancy(), act, "%s: active" % where)
    req_close(sim.get_thermal_gains(), 147. * act + 84. * (occ - act),
              "%s: gains" % where)


@sub("C12", "sparse_transit", sparse_cases(), 260, 5000, budget=200,
     rule="several states, at least four steps; tagged when a day change "
          "falls into the run")
def sparse_transit(case):
    start = (dt.datetime(2014, 1, 1) + dt.timedelta(
        days=case["day"], minutes=case["minute"])) if case["aware"] else None
    flags = {"week": case["week"], "quarters": case["quarters"]}
    kw = {}
    if case["aware"]:
        kw = {"start_datetime": start,
              "use_7days": case["week"] == 7,
              "use_week_ends_days": case["week"] == 2,
              "use_quarters": case["quarters"]}
    data = SparseData(case["acts"], case["ns"], case["nt"], case["n_start"],
                      case["dead"], case["seed"])
    groups = [({"n_residents": r, **({"household_type": t} if t else {})}, n)
              for r, t, n in case["groups"]]
    if case["single"]:
        groups = [(sg, n) for sg, n in groups if n][:1]
    if not any(n for _, n in groups):
        return None
    given = [dict(sg) for sg, _ in groups]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["single"]:
            sim = SparseTransitStatesSimulator(
                groups[0][1], given[0], data=data, **kw)
            parts = [sim]
        else:
            sim = SubgroupsActivitySimulator(
                given, [n for _, n in groups], data=data, **kw)
            parts = sim.simulators
        req(given == [sg for sg, _ in groups], "given subgroups changed")
        groups = [(sg, n) for sg, n in groups if n]
        req_equal(sim.n_households, sum(n for _, n in groups), "households")
        res = np.concatenate([[sg["n_residents"]] * n for sg, n in groups])
        paths = [SparsePath(data, sg, start, flags) for sg, _ in groups]
        allowed = [p.initial() for p in paths]
        init = 0
        if start is not None:
            init = ((start.hour * 60 + start.minute - 240) % 1440) // 10
        for _ in range(init):
            fs = [p.advance() for p in paths]
            allowed = [{f(x) for x in a} for f, a in zip(fs, allowed)]
        for k in range(case["run"] + 1):
            labs = read_labels(sim, len(case["acts"]))
            if k == 0:
                off = 0
                for a, (sg, n) in zip(allowed, groups):
                    req(set(labs[off:off + n].tolist()) <= a,
                        "states %s at the start, possible: %s",
                        labs[off:off + n], sorted(a))
                    off += n
            else:
                req_equal(labs, want, "households' states, step %d" % k)
            check_sparse_readings(sim, labs, res, case["acts"],
                                  "step %d" % k)
            if k == case["run"]:
                break
            want, off = [], 0
            for p, (sg, n) in zip(paths, groups):
                f = p.advance()
                want += [f(x) for x in labs[off:off + n].tolist()]
                off += n
            sim.step()
        if start is not None:
            for s in parts:
                req(s.time == start + case["run"] * TEN, "clock: %s", s.time)
    tags = []
    if case["run"] >= 4 and case["ns"] > 1:
        tags = ["run"]
        if case["aware"] and init % 144 + case["run"] > 144:
            tags.append("day change")
    return tags


# ------------------------------------------------------------------ 4 states
class CrestData:
    step_size = TEN

    def __init__(self, sizes, pdf, seed, refresh=dt.time(0), n_start=3):
        self.sizes, self.pdf, self.seed = sizes, pdf, seed
        self.refresh_time, self.n_start = refresh, n_start

    def tables(self, n_res, weekend):
        rng = rng_of(self.seed, int(n_res), bool(weekend))
        labels = np.array([10 * o + a for o in range(n_res + 1)
                           for a in range(n_res + 1)])
        labels = rng.permutation(labels)
        n = len(labels)
        if weekend and self.seed % 3 == 0:
            # one state that only exists at weekends, instead of another
            labels[rng.randint(n)] = 10 * n_res + n_res + 1
        return (labels, rng.randint(n, size=(144, n)),
                rng.permutation(n)[:self.n_start])

    def load_tpm(self, sg):
        labels, nxt, start = self.tables(
            sg["n_residents"], 6 in sg["weekday"])
        pdf = np.zeros(len(labels))
        pdf[start] = 1. / len(start)
        return one_hot(nxt, len(labels)), labels, pdf

    def load_population_subgroups(self, population_type, **kw):
        if population_type != "resident_number":
            raise NotImplementedError(population_type)
        return ([{"n_residents": n} for n in self.sizes],
                np.array(self.pdf), 1000)


def check_crest_readings(sim, labs, where):
    occ, act = labs // 10, np.minimum(labs // 10, labs % 10)
    req_equal(sim.get_occupancy(), occ, "%s: occupancy" % where)
    req_equal(sim.get_active_occupancy(), act, "%s: active" % where)
    req_close(sim.get_thermal_gains(),
              147. * act + 84. * np.maximum(labs // 10 - labs % 10, 0),
              "%s: gains" % where)


@sub("C12", "four_states_population", st.fixed_dictionaries({
    "sizes": st.lists(st.integers(1, 5), min_size=1, max_size=5,
                      unique=True),
    "w": st.lists(st.sampled_from([0, 1, 1, 3]), min_size=5, max_size=5),
    "n": st.integers(1, 12), "seed": st.integers(0, 10**6),
    "day": st.integers(0, 900),
    "minute": st.one_of(st.integers(0, 1439),
                        st.sampled_from([1430, 1435, 1400, 0, 5])),
    "run": st.sampled_from([0, 1, 9, 20, 150]),
    "algo": st.sampled_from(["default", "real_population", "monte_carlo"])}),
     260, 5000, budget=200,
     rule="at least one step; tagged when the day type changes in the run")
def four_states(case):
    w = np.array(case["w"][:len(case["sizes"])], float)
    if w.sum() == 0:
        return None
    data = CrestData(case["sizes"], w / w.sum(), case["seed"])
    start = dt.datetime(2014, 1, 1) + dt.timedelta(
        days=case["day"], minutes=case["minute"])
    kw = ({} if case["algo"] == "default"
          else {"population_sampling_algo": case["algo"]})
    sim = Crest4StatesModel(case["n"], data=data, start_datetime=start, **kw)
    res = np.asarray(sim.n_residents)
    req_equal(sim.n_households, case["n"], "households")
    req_equal(res.shape, (case["n"],), "residents")
    possible = [s for s, x in zip(case["sizes"], w) if x > 0]
    req(set(res.tolist()) <= set(possible), "residents %s, population %s",
        res, possible)
    for n_res in case["sizes"]:
        req_equal(sim.get_mask_subgroup({"n_residents": n_res}),
                  res == n_res, "mask of %d residents" % n_res)
    init = (start.hour * 60 + start.minute) // 10
    t = start - init * TEN
    tabs = {(n, we): data.tables(n, we) for n in case["sizes"]
            for we in (False, True)}
    cur, allowed = {}, {}

    def reload():
        we = t.isoweekday() > 5
        for n in case["sizes"]:
            cur[n] = tabs[n, we]

    def advance(k):
        """label -> label per number of residents"""
        i = (k % 144 + 1) % 144
        out = {}
        for n in case["sizes"]:
            labels, nxt, _ = cur[n]
            out[n] = {int(a): int(labels[b])
                      for a, b in zip(labels, nxt[i])}
        return out
    reload()
    for n in case["sizes"]:
        allowed[n] = {int(cur[n][0][i]) for i in cur[n][2]}
    for k in range(init):
        f = advance(k)
        allowed = {n: {f[n][x] for x in allowed[n]} for n in allowed}
        t += TEN
    changes = set()
    for k in range(case["run"] + 1):
        labs = np.asarray(sim.get_states_labeled())
        if k == 0:
            for n, lab in zip(res.tolist(), labs.tolist()):
                req(lab in allowed[n], "state %d of %d residents at the "
                    "start, possible: %s", lab, n, sorted(allowed[n]))
        else:
            req_equal(labs, want, "households' states, step %d" % k)
        req(sim.current_time == t, "clock: %s, not %s", sim.current_time, t)
        check_crest_readings(sim, labs, "step %d" % k)
        if k == case["run"]:
            break
        if (t - start.replace(hour=0, minute=0)) % dt.timedelta(
                days=1) < TEN:
            reload()
            changes.add(t.isoweekday() > 5)
        f = advance(init + k)
        # a state unknown to the new kind of day becomes the first one
        want = [f[n].get(x, f[n][int(cur[n][0][0])])
                for n, x in zip(res.tolist(), labs.tolist())]
        t += TEN
        sim.step()
    if case["run"]:
        changes.add(start.isoweekday() > 5)
        return ["day type change"] if len(changes) > 1 else ["run"]


@sub("C12", "four_states_weeks", st.fixed_dictionaries({
    "sizes": st.lists(st.integers(1, 3), min_size=1, max_size=2,
                      unique=True),
    "w": st.just([1, 1, 1, 1, 1]), "n": st.integers(1, 6),
    "seed": st.integers(0, 10**6), "day": st.integers(0, 900),
    "minute": st.integers(0, 1439),
    "run": st.sampled_from([900, 1300, 2200]),
    "algo": st.just("default")}),
     24, 400, budget=200,
     rule="over a week; tagged when the day type changes in the run")
def four_states_weeks(case):
    return four_states(case)


@sub("C12", "sparse_weeks", sparse_cases().map(lambda c: dict(
    c, aware=True, nt=144, groups=c["groups"][:2], ns=max(c["ns"], 3),
    run=[900, 1300, 2200][c["seed"] % 3])), 12, 200, budget=200,
     rule="over a week of several days' models")
def sparse_weeks(case):
    return sparse_transit(case)


@sub("C12", "sparse_many", st.builds(
    lambda c, ns, n, res, extra: dict(
        c, ns=ns, n_start=ns, groups=[(res, None, n)] + extra, aware=True,
        nt=144, week=2, dead=False, run=max(4, min(c["run"], 30)),
        day=c["day"] // 7 * 7 + 3, minute=c["minute"] % 20 + 220),
    sparse_cases(), st.sampled_from([130, 200, 300]), st.integers(20, 60),
    st.integers(4, 5), st.sampled_from([[], [(3, 1, 5)]])),
     20, 400, budget=150,
     rule="several states, at least four steps; tagged when a day change "
          "falls into the run")
def sparse_many(case):
    """Hundreds of states of the households."""
    return sparse_transit(case)


@sub("C12", "four_states_single", st.fixed_dictionaries({
    "n_res": st.integers(1, 6), "day": st.sampled_from(["d", "e"]),
    "bad": st.sampled_from([None, None, None, "x", "weekday", 1]),
    "n": st.integers(1, 6), "seed": st.integers(0, 10**6),
    "run": st.integers(0, 20)}), 200, 3000, rule="at least one step, or "
     "a refused day type")
def four_states_single(case):
    data = CrestData([case["n_res"]], [1.], case["seed"])
    if case["bad"] is not None:
        req(raises(TypeError, CrestOccupancySimulator, case["n"],
                   case["n_res"], case["bad"], data=data), "day type %r "
            "accepted", case["bad"])
        return ["refused"]
    sim = CrestOccupancySimulator(case["n"], case["n_res"], case["day"],
                                  data=data)
    labels, nxt, start = data.tables(case["n_res"], case["day"] == "e")
    f = [{int(a): int(labels[b]) for a, b in zip(labels, m)} for m in nxt]
    for k in range(case["run"] + 1):
        occ = np.asarray(sim.get_occupancy())
        labs = np.asarray(sim.state_labels)[sim.current_states]
        if k == 0:
            req(set(labs.tolist()) <= {int(labels[i]) for i in start},
                "start states %s", labs)
        else:
            req_equal(labs, want, "states at step %d" % k)
        req_equal(occ, labs // 10, "occupancy")
        check_crest_readings(sim, labs, "step %d" % k)
        for lab in set(labs.tolist()):
            req_equal(sim.get_n_doing_activity(lab), labs == lab,
                      "in state %d" % lab)
        want = [f[(k + 1) % 144][x] for x in labs.tolist()]
        sim.step()
    if case["run"]:
        return ["run"]


# -------------------------------------------------------------- shipped data
@sub("C12", "shipped_data", st.fixed_dictionaries({
    "kind": st.sampled_from(["sparse", "crest"]),
    "sizes": st.lists(st.integers(0, 8), min_size=4, max_size=4),
    "day": st.integers(0, 365), "minute": st.integers(0, 1439),
    "run": st.integers(1, 20)}), 16, 300, budget=240,
     rule="several households simulated")
def shipped(case):
    from props.lib_gtou import SPARSE_SUBGROUPS, sparse_multi
    start = dt.datetime(2014, 1, 1) + dt.timedelta(
        days=case["day"], minutes=case["minute"])
    log = SimLogger("get_occupancy", "get_active_occupancy",
                    "get_thermal_gains", aggregated=False)
    if case["kind"] == "sparse":
        sim, used = sparse_multi(case["sizes"], start, logger=log)
        if sim is None:
            return None
        res = np.concatenate([[s["n_residents"]] * n for s, n in zip(
            SPARSE_SUBGROUPS, case["sizes"])])
    else:
        n = sum(case["sizes"])
        if not n:
            return None
        sim = Crest4StatesModel(n, start_datetime=start, logger=log)
        res = sim.n_residents
    for _ in range(case["run"]):
        sim.step()
    occ = sim.logger.get("get_occupancy")
    act = sim.logger.get("get_active_occupancy")
    req_equal(occ.shape, (case["run"], sim.n_households), "logged occupancy")
    req(bool(np.all((0 <= act) & (act <= occ) & (occ <= res))),
        "0 <= active <= occupants <= residents")
    req_close(sim.logger.get("get_thermal_gains"),
              147. * act + 84. * (occ - act), "thermal gains")
    if sim.n_households > 1:
        return [case["kind"]]


@sub("C12", "four_states_frequencies", st.fixed_dictionaries({
    "n_res": st.integers(1, 2), "day": st.sampled_from(["d", "e"]),
    "run": st.sampled_from([1, 3, 12])}), 10, 100, budget=200,
     rule="every case")
def frequencies(case):
    from demod.datasets.CREST.loader import Crest
    sg = {"n_residents": case["n_res"],
          "weekday": [1, 2, 3, 4, 5] if case["day"] == "d" else [6, 7]}
    tpm, labels, pdf = Crest().load_tpm(sg)
    n = 6000
    sim = CrestOccupancySimulator(n, case["n_res"], case["day"])
    p = np.array(pdf)
    for k in range(case["run"]):
        sim.step()
        p = p @ tpm[(k + 1) % 144]
    labs = np.asarray(labels)
    occ = np.bincount(labs // 10, weights=p, minlength=8)
    pv = gtest_pvalue(np.bincount(sim.get_occupancy(), minlength=8), occ)
    req(pv > P_REJECT, "occupancy %s, expected %s (p=%g)",
        np.bincount(sim.get_occupancy(), minlength=8) / n, occ, pv)
    return ["frequencies"]
