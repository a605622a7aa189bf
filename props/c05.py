"""C05: simulators composed of sub-simulators."""
import copy
import datetime as dt

import numpy as np
from hypothesis import strategies as st

from pbt.core import req, req_equal, sub

from demod.simulators.base_simulators import (
    MultiSimulator, Simulator, TimeAwareSimulator, cached_getter)


class Leaf(Simulator):
    def __init__(self, n, seed, residents=None, subgroup=None):
        super().__init__(n)
        if residents is not None:
            self.n_residents = residents
        if subgroup is not None:
            self.subgroup = subgroup
        self.state = np.arange(n) * 7 + seed
        self.initialize_starting_state()

    def step(self, add=None, mul=None, keep=None):
        if add is not None:
            self.state = self.state + add
        if mul is not None:
            self.state = self.state * mul
        if keep is not None:
            self.state = np.where(keep, self.state, 0)
        super().step()

    def get_state(self):
        return self.state

    @cached_getter
    def get_cached(self):
        """Documented getter."""
        return self.state * 3

    def get_table(self):
        return np.stack([self.state, -self.state], axis=1)

    def get_time_step(self):
        return np.full(self.n_households, self.current_time_step)


class Other(Leaf):
    def get_state(self):
        return self.state + 0.5


class TimedMulti(TimeAwareSimulator, MultiSimulator):
    def __init__(self, sims, **kw):
        super().__init__(sims, **kw)
        self.initialize_starting_state()

    def step(self, *a, **kw):
        # as the package's own composed simulators: no step arguments
        return super().step()


@st.composite
def cases(draw):
    subs = draw(st.lists(st.fixed_dictionaries({
        "n": st.integers(1, 5), "seed": st.integers(0, 50),
        "res": st.integers(1, 6), "other": st.booleans(),
        "gtype": st.sampled_from(["x", "y"]),
        "weekday": st.sampled_from([0, [1, 2, 3, 4, 5], [6, 7]])}),
        min_size=1, max_size=6))
    n = sum(s["n"] for s in subs)
    arr = st.lists(st.integers(-4, 4), min_size=n, max_size=n)
    steps = draw(st.lists(st.fixed_dictionaries({
        "add": st.none() | arr, "mul": st.none() | arr,
        "keep": st.none() | st.lists(st.booleans(), min_size=n, max_size=n),
        "style": st.sampled_from(["kw", "pos", "mixed"]),
        "read": st.integers(0, 4)}), max_size=8))
    return {"subs": subs, "steps": steps, "timed": draw(st.booleans()),
            "nested": draw(st.booleans())}


GETTERS = ["get_state", "get_cached", "get_table", "get_time_step"]


def build(case):
    return [(Other if s["other"] else Leaf)(
        s["n"], s["seed"], s["res"],
        {"n_residents": s["res"], "type": s["gtype"],
         "weekday": s["weekday"]}) for s in case["subs"]]


def check(multi, parts, what, getters):
    for g in getters:
        want = np.concatenate([getattr(p, g)() for p in parts])
        req_equal(getattr(multi, g)(), want, "%s: %s" % (what, g))
        for i in range(len(want)):
            req_equal(getattr(multi, g)(i), want[i],
                      "%s: %s of household %d" % (what, g, i))
        req_equal(getattr(multi, g)(n_ieth_hh=len(want) - 1), want[-1],
                  "%s: %s of the last household" % (what, g))


@sub("C05", "composed_equals_parts", cases(), 900, 20000,
     rule="at least two sub-simulators of different size are stepped with "
          "arguments")
def composed(case):
    parts = build(case)
    subsims = build(case)
    n = sum(p.n_households for p in parts)
    nested = case["nested"] and len(subsims) > 2
    if case["timed"]:
        multi = TimedMulti(subsims, start_datetime=dt.datetime(2014, 1, 1))
    elif nested:
        inner = MultiSimulator(subsims[1:])
        inner.initialize_starting_state()
        subsims = [subsims[0], inner]
        multi = MultiSimulator(subsims)
        multi.initialize_starting_state()
    else:
        multi = MultiSimulator(subsims)
        multi.initialize_starting_state()
    req_equal(multi.n_households, n, "number of households")
    req_equal(multi.n_residents,
              np.concatenate([[s["res"]] * s["n"] for s in case["subs"]]),
              "residents per household")
    req(multi.simulators is not None and len(multi.simulators) == len(
        subsims), "sub-simulators")
    check(multi, parts, "start", GETTERS)
    for k, stp in enumerate(case["steps"]):
        args = {key: (None if stp[key] is None else np.array(stp[key]))
                for key in ("add", "mul", "keep")}
        if case["timed"]:
            args = {key: None for key in args}
        off = 0
        for p in parts:
            p.step(**{key: (v if v is None else v[off:off + p.n_households])
                      for key, v in args.items()})
            off += p.n_households
        given_ = {key: v for key, v in args.items() if v is not None}
        pos = []
        if stp["style"] != "kw":
            for key in ("add", "mul", "keep"):
                if key not in given_ or (stp["style"] == "mixed" and pos):
                    break
                pos.append(given_.pop(key))
        multi.step(*pos, **given_)
        req_equal(multi.current_time_step, k + 1, "step counter")
        if stp["read"] == 0:
            continue
        check(multi, parts, "after step %d" % (k + 1),
              GETTERS[:stp["read"]])
    check(multi, parts, "end", GETTERS)
    if len(parts) > 1 and len({p.n_households for p in parts}) > 1 and any(
            s["add"] or s["mul"] or s["keep"] for s in case["steps"]):
        tags = ["args"]
        if nested:
            tags.append("nested")
        return tags


@sub("C05", "subgroup_masks", st.tuples(cases(), st.fixed_dictionaries({
    "n_residents": st.none() | st.integers(1, 6),
    "type": st.none() | st.sampled_from(["x", "y"]),
    "weekday": st.none() | st.sampled_from([0, [1, 2, 3, 4, 5], [6, 7]]),
    "missing": st.none() | st.just(3), "pick": st.none() | st.integers(0, 5),
})), 500, 6000, rule="the mask selects some but not all households")
def masks(case):
    case, sg = case
    sims = build(case)
    multi = MultiSimulator(sims)
    pick = sg.pop("pick")
    query = {k: v for k, v in sg.items() if v is not None}
    if pick is not None:
        # ask for an existing subgroup (possibly a part of its keys)
        s = sims[pick % len(sims)].subgroup
        keep = set(query) & set(s)
        query = {k: v for k, v in s.items() if k in keep or not keep}
    before = copy.deepcopy(query)
    want = np.concatenate([
        np.full(s.n_households, all(
            k in s.subgroup and s.subgroup[k] == v
            for k, v in query.items())) for s in sims])
    got = multi.get_mask_subgroup(query)
    req_equal(got, want, "mask of %r" % (query,))
    req(np.asarray(got).dtype == bool, "mask is not boolean")
    req(query == before, "the query was modified")
    if want.any() and not want.all():
        return ["mask"]


@sub("C05", "package_composed_simulators", st.fixed_dictionaries({
    "kind": st.sampled_from(["crest", "sparse"]), "n": st.integers(1, 25),
    "sizes": st.lists(st.integers(0, 4), min_size=2, max_size=4),
    "day": st.integers(0, 400), "slot": st.integers(0, 143),
    "run": st.integers(0, 8), "dup": st.booleans()}), 40, 600, budget=200,
     rule="at least two sub-simulators")
def package(case):
    start = dt.datetime(2014, 1, 1) + dt.timedelta(
        days=case["day"], minutes=10 * case["slot"])
    if case["kind"] == "crest":
        from demod.simulators.crest_simulators import Crest4StatesModel
        multi = Crest4StatesModel(case["n"], start_datetime=start)
        getters = ["get_occupancy", "get_active_occupancy",
                   "get_thermal_gains"]
        n = case["n"]
    else:
        from props import lib_gtou
        multi, sizes = lib_gtou.sparse_multi(case["sizes"], start)
        if multi is None:
            return None
        getters = ["get_occupancy", "get_active_occupancy",
                   "get_thermal_gains"]
        n = sum(sizes)
    req_equal(multi.n_households, n, "number of households")
    for k in range(case["run"] + 1):
        if k:
            multi.step()
        check(multi, multi.simulators, "step %d" % k, getters)
        if case["kind"] == "sparse":
            for act in ("HWH", "HOH", "active"):
                want = np.concatenate([s.get_n_doing_activity(act)
                                       for s in multi.simulators])
                req_equal(multi.get_n_doing_activity(act), want, act)
                req_equal(multi.get_n_doing_state([act])[0], want, act)
        else:
            req_equal(multi.get_states_labeled(), np.concatenate([
                s.state_labels[s.current_states] for s in multi.simulators]),
                "state labels")
            want = np.concatenate([np.full(s.n_households, s.n_residents)
                                   for s in multi.simulators])
            req_equal(multi.n_residents, want, "residents")
            for r in range(1, 6):
                req_equal(multi.get_mask_subgroup({"n_residents": r}),
                          want == r, "mask")
    if len(multi.simulators) > 1:
        return [case["kind"]]
