#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         observe=(), technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  observe=list(observe), technique=technique, note=note,
                  na=na))


S = "demod/simulators/"
U = "demod/utils/"
D = "demod/datasets/"
M = "demod/metrics/"

prop("C01", "Simulated clock and step counter are exact from start on",
     "A simulator accepts exactly the documented household counts, start "
     "dates, step sizes and initialization times and rejects the others. "
     "Whatever the initialization time, it performs the initialization steps "
     "that fit between that time and the requested start, ends initialization "
     "exactly at the requested start date, and from then on every step moves "
     "the clock by exactly one step size and the step counter by exactly one.",
     ["inputs", "histories", "configurations"],
     "all start datetimes (incl. month/year ends, leap days, time zones), "
     "step sizes, initialization times/datetimes and numbers of steps, for "
     "the base simulators and the concrete time-aware ones",
     "Tests use one 4 am start with one step size; the clock must be right "
     "for every start, step size and initialization time.",
     [S + "base_simulators.py", S + "sparse_simulators.py"],
     [("initialize_starting_state / step", S + "base_simulators.py")],
     ["current_time", "current_time_step"],
     "Hypothesis PBT against a datetime-arithmetic reference model")

prop("C02", "A logger holds exactly one faithful record per simulated step",
     "For any mix of attributes, getters, dictionary-valued getters and "
     "aggregation settings, the values read from a logger after n steps are "
     "exactly the n snapshots the simulator showed at the start of each step, "
     "in order, aggregated over households only where requested. Snapshots "
     "never change afterwards, initialization steps leave no record, the "
     "logger given by the user is never written to, and two loggers of equal "
     "length can be merged without loss while others are refused.",
     ["inputs", "histories", "configurations"],
     "all attribute lists, aggregation settings and step histories, incl. "
     "clearing, copying and merging loggers",
     "Tests log one or two attributes for a few steps of one simulator and "
     "never compare against what the getters returned at that step.",
     [S + "base_simulators.py"],
     [("SimLogger", S + "base_simulators.py")],
     ["SimLogger.get"],
     "model-based Hypothesis PBT against an independent recorder")

prop("C03", "Getters always show the current step, logged or not",
     "After every step each getter returns the values of the state reached by "
     "that step, never values remembered from an earlier step, whole or for a "
     "single household. Attaching a logger, or reading any getters in any "
     "order between steps, changes nothing in the simulated trajectory. Arrays "
     "read at one step keep their values during the next ones.",
     ["histories", "configurations"],
     "all simulators that can run offline, all histories of steps and "
     "getter reads, with and without an attached logger",
     "Tests read getters once on un-logged simulators; stale values only show "
     "when a read or a logger visit happens between two particular steps.",
     [S + "base_simulators.py", S + "sparse_simulators.py",
      S + "activity_simulators.py", S + "crest_simulators.py",
      S + "heating_simulators.py"],
     [("cached_getter and cache clearing in step", S + "base_simulators.py")],
     ["get_* methods", "SimLogger.get"],
     "metamorphic Hypothesis PBT (same run with / without logger and reads)")

prop("C04", "Day, 4 am and refresh-time callbacks fire once per crossing",
     "Every day-change callback fires exactly once for each midnight the "
     "clock passes, every 4 am callback exactly once for each 4 am passed, "
     "and every refresh callback exactly once for each passing of the data "
     "set's refresh time, before or after the step that passes it as its name "
     "says, and never otherwise. This holds for any start, any step size up "
     "to one day, and across month and year ends.",
     ["histories", "configurations"],
     "all start datetimes, step sizes up to 24 h, refresh times and run "
     "lengths",
     "Tests run a few hours from one start; month ends, unaligned clocks and "
     "long steps are never reached.",
     [S + "base_simulators.py"],
     [("Callbacks decorators", S + "base_simulators.py")],
     ["calls of the on_* methods"],
     "Hypothesis PBT against an interval-crossing reference model")

prop("C05", "A composed simulator equals its parts side by side",
     "A simulator composed of several sub-simulators counts, steps and "
     "reports their households as the concatenation of the sub-simulators in "
     "order: arguments reach exactly the households they were given for, "
     "every getter returns the concatenated values for all or for one "
     "household, and subgroup masks mark exactly the households of that "
     "subgroup.",
     ["histories", "inputs", "configurations"],
     "all lists of sub-simulators (sizes, kinds), arguments and step "
     "histories",
     "Tests check two or three fixed sub-simulators without arguments.",
     [S + "base_simulators.py"],
     [("MultiSimulator", S + "base_simulators.py")],
     ["get_* methods", "get_mask_subgroup"],
     "differential Hypothesis PBT against the sub-simulators run separately")

prop("C06", "Random sampling follows the given distributions",
     "Sampling from cumulative or plain probability distributions, one per "
     "element or one shared by all samples, returns for every element an "
     "in-range index whose probability is strictly positive. Over many draws "
     "each index appears with its given probability, independently between "
     "elements and between samples, and the given arrays are not modified.",
     ["inputs"],
     "all distributions (incl. leading/trailing/inner zeros, degenerate "
     "ones), shapes and sample counts",
     "Tests draw from one or two easy distributions; zeros and degenerate "
     "distributions and the frequencies are not covered.",
     [U + "monte_carlo.py"],
     [("monte_carlo_* functions", U + "monte_carlo.py")],
     ["returned indices"],
     "Hypothesis PBT: support invariants plus G-test of frequencies")

prop("C07", "Distributions are rescaled and validated correctly",
     "Rescaling (cumulative) probability distributions of any number of "
     "dimensions divides each distribution by its own total, so that it sums "
     "to (ends at) one with its proportions kept, when every total is within "
     "the allowed error of one, and raises a value error otherwise. A set of "
     "cumulative distributions is accepted exactly when each of them is "
     "non-decreasing, non-negative, never above one and ends at one within "
     "the tolerance; otherwise a value error is raised.",
     ["inputs"],
     "all distributions, dimensions, tolerances and single defects in one "
     "of many distributions",
     "Tests use a couple of hand-written distributions.",
     [U + "distribution_functions.py"],
     [("rescale_pdf, rescale_cdf, check_valid_cdf",
       U + "distribution_functions.py")],
     ["return values", "ValueError"],
     "Hypothesis PBT: known scaling factors and planted defects")

json_dump = None


def load_more():
    import importlib.util
    path = os.path.join(HERE, "tools", "gen_more.py")
    if os.path.exists(path):
        src = open(path).read()
        exec(compile(src, path, "exec"), globals())


load_more()


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w}
                                  for n, w in p["mechanism"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                }}) + "\n")
    checks, na = [], []
    for p in P:
        mod = os.path.join(HERE, "props", p["id"].lower() + ".py")
        if p["na"] or not os.path.exists(mod):
            na.append({"property": p["id"],
                       "reason": p["na"] or "check not built yet"})
            continue
        cmd = "/opt/venv/bin/python run.py %s --tier %s"
        checks.append({
            "property": p["id"],
            "quick_cmd": cmd % (p["id"], "quick"),
            "thorough_cmd": cmd % (p["id"], "thorough"),
            "technique": p["technique"] or "property-based testing "
                                           "(Hypothesis)",
            "level": "exploration",
            "level_note": p["note"] or (
                "Generated-input search over the stated domain against an "
                "explicit oracle; never establishes absence beyond the "
                "generated cases. Random generators are seeded from the case, "
                "statistical oracles reject below p=1e-11 only."),
        })
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup_check.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "Checks run on a scratch copy of /repo/demod made per run; "
                 "no hooks in /repo are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
