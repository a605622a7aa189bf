"""C36: plots show exactly the data they are given."""
import contextlib
import datetime as dt

import matplotlib
matplotlib.use("Agg")
import matplotlib.dates as mdates           # noqa: E402
import matplotlib.pyplot as plt             # noqa: E402
import numpy as np                          # noqa: E402
from hypothesis import strategies as st     # noqa: E402
from matplotlib.colors import to_rgba       # noqa: E402

from pbt.core import req, req_close, req_equal, sub  # noqa: E402

from demod.simulators.base_simulators import (  # noqa: E402
    SimLogger, TimeAwareSimulator)
from demod.utils.plotters import (          # noqa: E402
    plot_appliance_consumptions, plot_household_activities,
    plot_stack_states, plot_stacked_activities)

START = dt.datetime(2014, 3, 29, 22, 30)


@contextlib.contextmanager
def shown():
    """The figures shown, closed as a window would be."""
    figures, real = [], plt.show

    def show(*args, **kwargs):
        for k in plt.get_fignums():
            fig = plt.figure(k)
            figures.append(fig)
        plt.close("all")

    plt.close("all")
    plt.show = show
    try:
        yield figures
    finally:
        plt.show = real
        plt.close("all")


def xs(values):
    """Numbers on the x axis."""
    values = np.asarray(values)
    if values.dtype == object or values.dtype.kind == "M":
        return mdates.date2num(values)
    return values.astype(float)


def lines_of(ax):
    return [(l.get_label(), xs(l.get_xdata()),
             np.asarray(l.get_ydata(), float), l.get_drawstyle())
            for l in ax.lines]


# ---------------------------------------------------------------- logger
class Recorded(TimeAwareSimulator):
    """Getters return given values at each step."""

    def __init__(self, n, values, **kw):
        self.values = values
        super().__init__(n, start_datetime=START,
                         step_size=dt.timedelta(minutes=7), **kw)
        self.initialize_starting_state()

    def now(self, name):
        v = self.values[name]
        if isinstance(v, dict):
            return {k: x[self.current_time_step].copy()
                    for k, x in v.items()}
        return v[self.current_time_step].copy()

    def get_power(self):
        return self.now("get_power")

    def get_heat(self):
        return self.now("get_heat")

    def get_count(self):
        return self.now("get_count")

    def get_temps(self):
        return self.now("get_temps")


NAMES = ["get_power", "get_heat", "get_count", "get_temps", "current_time"]


@sub("C36", "logger", st.fixed_dictionaries({
    "names": st.lists(st.sampled_from(NAMES), min_size=1, max_size=5,
                      unique=True).filter(lambda l: l != ["current_time"]),
    "aggregated": st.one_of(st.booleans(), st.lists(
        st.booleans(), min_size=5, max_size=5)),
    "n": st.integers(1, 12), "steps": st.integers(2, 9),
    "column": st.booleans(), "aggregate": st.sampled_from(
        [None, False, True]),
    "seed": st.integers(0, 10 ** 6)}), 200, 3000, budget=200,
     rule="several series were plotted")
def logger(case):
    n, steps, names = case["n"], case["steps"], case["names"]
    rng = np.random.RandomState(case["seed"])

    def series():
        return np.round(rng.uniform(-9, 99, size=(steps + 1, n)), 3)

    values = {"get_power": series(), "get_heat": series(),
              "get_count": np.round(rng.uniform(0, 9, size=steps + 1), 3),
              "get_temps": {k: series() for k in ("in", "out", "wall")}}
    agg = case["aggregated"]
    if isinstance(agg, list):
        agg = agg[:len(names)]
    sim = Recorded(n, values, logger=SimLogger(list(names), aggregated=agg))
    for _ in range(steps):
        TimeAwareSimulator.step(sim)
    times = [START + k * dt.timedelta(minutes=7) for k in range(steps)]
    log = sim.logger
    kw = {} if case["aggregate"] is None else {"aggregate": case["aggregate"]}
    with shown() as figures:
        (log.plot_column if case["column"] else log.plot)(**kw)
        parts = [a for f in figures for a in f.axes]
    wanted = [x for x in names if x != "current_time"]
    req(len(parts) == len(wanted), "%d axes for the attributes %s",
        len(parts), wanted)
    if case["column"]:
        req(len(figures) == 1, "%d figures for a column", len(figures))
        x = (mdates.date2num(times) if "current_time" in names
             else np.arange(steps))
    else:
        x = np.arange(steps)
    tags = []
    for ax, name in zip(parts, wanted):
        i = names.index(name)
        one = agg if isinstance(agg, bool) else agg[i]
        v = values[name]
        want = []           # (parts of the label, values)
        for key, s in (v.items() if isinstance(v, dict) else [("", v)]):
            s = s[:-1]
            if s.ndim == 1:
                want.append(([name, key], "", s))
            elif one or case["aggregate"]:
                want.append(([name, key], "", s.sum(axis=1)))
            else:
                want += [([name, key], "_%d" % h, s[:, h])
                         for h in range(n)]
        got = lines_of(ax)
        req(len(got) == len(want), "%s: %d lines, expected %d", name,
            len(got), len(want))
        req(len({g[0] for g in got}) == len(got), "%s: labels %s are not "
            "unique", name, [g[0] for g in got])
        for label, end, y in want:
            match = [g for g in got if all(p in g[0] for p in label)
                     and g[0].endswith(end)]
            if label[1]:
                match = [g for g in match if not any(
                    o in g[0].replace(name, "") for o in values[name]
                    if o != label[1])]
            req(match, "%s: no line for %s%s: %s", name, label, end,
                [g[0] for g in got])
            g = min(match, key=lambda g: len(g[0]))
            req_close(g[1], x, "%s: x values of %s" % (name, g[0]))
            req_close(g[2], y, "%s: values of %s" % (name, g[0]))
            if case["column"]:
                req(g[3] == "steps-post", "%s drawn as %s", g[0], g[3])
        if len(want) > 1:
            tags.append("several")
        texts = [t.get_text() for t in ax.get_legend().get_texts()]
        req(texts == [g[0] for g in got], "legend %s for the lines %s",
            texts, [g[0] for g in got])
    # the logger is as before
    for name in wanted:
        v, i = values[name], names.index(name)
        one = agg if isinstance(agg, bool) else agg[i]
        for key, s in (v.items() if isinstance(v, dict) else [("", v)]):
            s = s[:-1]
            got = log.get(name)
            req_close(got[key] if key else got,
                      s.sum(axis=1) if one and s.ndim > 1 else s,
                      name + " in the logger after the plot")
    return tags


# ------------------------------------------------------------- household
COLORS = np.array(["#d7191c", "#fdae61", "#ffffbf", "#abdda4", "#2b83ba"])
MAIN = ["active_occupancy", "away", "sleeping"]


def axis(case, steps):
    if not case["time"]:
        return None, np.arange(steps, dtype=float)
    if case["time"] == "numbers":
        x = np.cumsum(np.random.RandomState(steps).randint(1, 5, size=steps))
        return x, x.astype(float)
    t = np.array([START + dt.timedelta(minutes=10) * k
                  for k in range(steps)])
    return t, mdates.date2num(t)


def draw(case, fn, *args, **kw):
    """Calls the function, on an ax or alone; the ax it drew on."""
    with shown() as figures:
        if case["ax"]:
            fig, (other, ax) = plt.subplots(2)
            before = plt.get_fignums()
            fn(*args, ax=ax, **kw)
            req(not figures and plt.get_fignums() == before,
                "a figure was shown although an ax was given")
            req(not (other.lines or other.collections),
                "drawn on another ax")
        else:
            out = fn(*args, **kw)
            if out is not None:
                req(not figures, "shown and returned")
                req(out[0].axes == [out[1]], "figure and ax returned")
                ax = out[1]
            else:
                req(len(figures) == 1, "%d figures shown", len(figures))
                req(len(figures[0].axes) == 1, "one ax expected")
                ax = figures[0].axes[0]
        return ax


TIME = st.sampled_from([None, "numbers", "dates"])


@sub("C36", "household", st.fixed_dictionaries({
    "keys": st.lists(st.sampled_from(MAIN + ["cooking", "tv", "ironing"]),
                     min_size=1, max_size=6, unique=True),
    "steps": st.integers(1, 12), "max": st.integers(0, 5), "time": TIME,
    "ax": st.booleans(), "top": st.sampled_from([None, True, False]),
    "colors": st.sampled_from(["default", "own", None]),
    "marker": st.sampled_from([None, "o"]),
    "seed": st.integers(0, 10 ** 6)}), 250, 4000, budget=200,
     rule="residents were plotted")
def household(case):
    rng = np.random.RandomState(case["seed"])
    steps = case["steps"]
    data = {k: rng.randint(0, rng.randint(case["max"] + 1) + 1, size=steps)
            for k in case["keys"]}
    keep = {k: v.copy() for k, v in data.items()}
    t, x = axis(case, steps)
    kw = {} if t is None else {"time_axis": t}
    colors = COLORS
    if case["colors"] == "own":
        colors = np.array(["#000001", "#000002", "#000003", "#000004",
                           "#000005"])
        kw["colors"] = colors.copy()
    elif case["colors"] is None:
        kw["colors"] = colors = None
    top = case["top"] is not False
    if case["top"] is not None:
        kw["main_states_on_top"] = case["top"]
    if case["marker"]:
        kw["marker"] = case["marker"]
    ax = draw(case, plot_household_activities, data, **kw)
    for k in data:
        req_equal(data[k], keep[k], "states given")
    order = list(data)
    if top:
        order = ([k for k in order if k not in MAIN]
                 + [k for k in order if k in MAIN])
    req([l.get_text() for l in ax.get_yticklabels()] == order,
        "rows %s, expected %s", [l.get_text() for l in ax.get_yticklabels()],
        order)
    req_equal(ax.get_yticks(), np.arange(len(order)), "rows")
    got = []
    for c in ax.collections:
        xy = np.asarray(c.get_offsets(), float).reshape(-1, 2)
        face = c.get_facecolors()
        values = c.get_array()
        for i, (a, b) in enumerate(xy):
            if values is not None:
                got.append((round(b), float(a), int(values[i])))
            else:
                f = face[i if len(face) > 1 else 0]
                got.append((round(b), float(a), tuple(np.round(f, 6))))
    want = []
    for row, k in enumerate(order):
        for j in range(steps):
            v = int(data[k][j])
            if v > 0:
                want.append((row, float(x[j]), v if colors is None else
                             tuple(np.round(to_rgba(colors[v - 1]), 6))))
    req(sorted(got) == sorted(want), "points (row, time, colour) %s, "
        "expected %s", sorted(got)[:8], sorted(want)[:8])
    if colors is not None:
        leg = ax.get_legend()
        top_n = max(1, max(int(v.max()) for v in data.values()))
        texts = [s.get_text() for s in leg.get_texts()]
        req(texts == [str(i) for i in range(1, top_n + 1)],
            "legend %s for up to %d residents", texts, top_n)
        for i, p in enumerate(leg.get_patches()):
            req_close(p.get_facecolor(), to_rgba(colors[i]),
                      "colour of %d residents" % (i + 1))
    return ["residents"] if want else None


# ---------------------------------------------------------------- stacks
def span(collection, x):
    """Lower and upper end of a polygon at x (not at a vertex)."""
    ys = []
    for path in collection.get_paths():
        v = path.vertices
        for (x0, y0), (x1, y1) in zip(v[:-1], v[1:]):
            if min(x0, x1) < x < max(x0, x1):
                ys.append(y0 + (y1 - y0) * (x - x0) / (x1 - x0))
    return (min(ys), max(ys)) if ys else None


def at(kind, y, x, j, f):
    """Value at the fraction f of the interval j."""
    if kind == "post":
        return y[j]
    if kind == "pre":
        return y[j + 1]
    if kind == "mid":
        return y[j] if f < 0.5 else y[j + 1]
    return (1 - f) * y[j] + f * y[j + 1]


def check_stack(ax, layers, names, x, kind):
    layers = np.asarray(layers, float)
    req(len(ax.collections) == len(layers), "%d layers, expected %d",
        len(ax.collections), len(layers))
    for i, c in enumerate(ax.collections):
        if i < len(names):
            req(c.get_label() == str(names[i]), "layer %d is called %s, "
                "expected %s", i, c.get_label(), names[i])
        for j in range(len(x) - 1):
            for f in (0.25, 0.75):
                low = sum(at(kind, y, x, j, f) for y in layers[:i])
                high = low + at(kind, layers[i], x, j, f)
                got = span(c, x[j] + f * (x[j + 1] - x[j]))
                req(got is not None, "layer %d is not drawn after %s", i,
                    x[j])
                req_close(got, (low, high), "layer %s between the times %d "
                          "and %d" % (c.get_label(), j, j + 1),
                          rtol=1e-6, atol=1e-6)
    texts = [t.get_text() for t in ax.get_legend().get_texts()]
    want = [str(k) for k in names[:len(layers)]][::-1]
    req(texts == want, "legend %s, expected %s (as stacked)", texts, want)


@sub("C36", "activities", st.fixed_dictionaries({
    "keys": st.lists(st.sampled_from(MAIN + ["cooking", "tv", "ironing"]),
                     min_size=1, max_size=6, unique=True),
    "steps": st.integers(2, 9), "time": TIME, "ax": st.booleans(),
    "step": st.sampled_from([None, "pre", "mid", "post"]),
    "color": st.booleans(), "seed": st.integers(0, 10 ** 6)}),
     150, 2000, budget=100, rule="several activities took place")
def activities(case):
    rng = np.random.RandomState(case["seed"])
    data = {k: rng.randint(0, 5, size=case["steps"]) for k in case["keys"]}
    t, x = axis(case, case["steps"])
    kw = {} if t is None else {"time_axis": t}
    if case["step"]:
        kw["step"] = case["step"]
    if case["color"]:
        kw["colors"] = list(COLORS[:2])
    ax = draw(case, plot_stacked_activities, data, **kw)
    check_stack(ax, list(data.values()), list(data), x,
                case["step"] or "post")
    if case["color"]:
        for i, c in enumerate(ax.collections):
            req_close(c.get_facecolor()[0], to_rgba(COLORS[i % 2]),
                      "colour of layer %d" % i)
    if sum(v.any() for v in data.values()) > 1:
        return ["several"]


@sub("C36", "states", st.fixed_dictionaries({
    "ns": st.integers(1, 5), "n": st.integers(1, 8),
    "steps": st.integers(2, 9), "ax": st.booleans(), "more": st.booleans(),
    "step": st.sampled_from([None, "post"]),
    "seed": st.integers(0, 10 ** 6)}), 150, 2000, budget=100,
     rule="several states occur")
def states(case):
    rng = np.random.RandomState(case["seed"])
    s = rng.randint(0, case["ns"], size=(case["n"], case["steps"]))
    keep = s.copy()
    labels = ["state %d" % i for i in range(s.max() + 1 + case["more"])]
    kw = {"step": case["step"]} if case["step"] else {}
    ax = draw(case, plot_stack_states, s, labels, **kw)
    req_equal(s, keep, "states given")
    check_stack(ax, [(s == i).sum(axis=0) for i in range(s.max() + 1)],
                labels, np.arange(case["steps"], dtype=float),
                case["step"])
    if len(np.unique(s)) > 1:
        return ["several"]


@sub("C36", "appliances", st.fixed_dictionaries({
    "na": st.integers(1, 7), "steps": st.integers(2, 7), "time": TIME,
    "ax": st.booleans(), "by": st.sampled_from([None, "type", "name",
                                                "related_activity"]),
    "list": st.sampled_from([None, "some", "order"]),
    "seed": st.integers(0, 10 ** 6)}), 150, 2000, budget=100,
     rule="several layers")
def appliances(case):
    rng = np.random.RandomState(case["seed"])
    na = case["na"]
    apps = {"number": na, "type": rng.choice(["tv", "hob", "kettle"], na),
            "name": np.array(["app%d" % i for i in range(na)]),
            "related_activity": rng.choice(["level", "cook"], na)}
    use = np.round(rng.uniform(0, 999, size=(case["steps"], na)), 2)
    by = case["by"] or "type"
    names = sorted(set(apps[by]))
    kw = {} if case["by"] is None else {"differentiative_factor": by}
    if case["list"]:
        names = list(rng.permutation(names))
        if case["list"] == "some":
            names = names[:max(1, len(names) - 1)]
        kw["labels_list"] = names
    t, x = axis(case, case["steps"])
    if t is not None:
        kw["time_axis"] = t
    keep = use.copy()
    ax = draw(case, plot_appliance_consumptions, use, apps, **kw)
    req_equal(use, keep, "consumptions given")
    layers = [use[:, apps[by] == k].sum(axis=1) for k in names]
    check_stack(ax, layers, names, x, "post")
    return ["several"] if len(layers) > 1 else None
