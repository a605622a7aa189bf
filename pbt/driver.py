"""Worker driver (runs inside the fixed environment made by run.py)."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import zlib

T0 = time.monotonic()
HOME = os.environ["PBT_HOME"]
SCRATCH = os.environ["PBT_SCRATCH"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
SCALE = float(os.environ.get("PBT_SCALE", "1"))
sys.path.insert(0, HOME)

from pbt import tree  # noqa: E402


def load_known():
    """Entries of known_findings.jsonl -> {(property, key): text}."""
    out = {}
    path = os.path.join(HOME, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                fields = line[len("known: "):].split(None, 2)
                prop = fields[0].split("=", 1)[1]
                key = fields[1].split("=", 1)[1]
                out[(prop, key)] = fields[2]
    return out


def setup(worker):
    dest = os.path.join(SCRATCH, "w%d" % worker)
    os.makedirs(dest)
    tree.make_tree(dest)
    sys.path.insert(0, dest)
    os.environ["PBT_TREE"] = dest
    os.chdir(dest)


def start_cover():
    """Record the executed lines of the tree (tools/mutate.py)."""
    lines = set()
    mon, home = sys.monitoring, os.environ["PBT_TREE"]
    mon.use_tool_id(3, "pbt")

    def on_line(code, line):
        if code.co_filename.startswith(home):
            lines.add((os.path.relpath(code.co_filename, home), line))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.LINE)
    return lines


def worker_main(prop, worker, n_workers, only, out_path):
    res = {"subs": [], "violation": None, "error": None, "known": []}
    sys.stdout = open(os.devnull, "w")     # the code under test prints a lot
    try:
        setup(worker)
        cover = start_cover() if os.environ.get("PBT_COVER") else None
        from pbt import core
        importlib.import_module("props." + prop.lower())
        if cover is not None:
            cover.clear()       # not what importing executes
            sys.monitoring.restart_events()
        subs = core.SUBS.get(prop, [])
        if worker == 0 and not only:
            known = load_known()
            for key, text, probe in core.KNOWN.get(prop, []):
                if (prop, key) in known and probe():
                    res["known"].append([key, known[(prop, key)]])
        jobs = []
        if TIER == "thorough":
            # every worker runs every sub-check on its own seed
            for s in subs:
                jobs.append((s, max(1, int(s.thorough * SCALE / n_workers)),
                             s.budget * 10))
        else:
            for i, s in enumerate(subs):
                if i % n_workers == worker:
                    jobs.append((s, max(1, int(s.quick * SCALE)), s.budget))
        for s, n, budget in jobs:
            if only and s.name != only:
                continue
            t = time.monotonic()
            seed = (SEED * 1000003 + zlib.crc32(s.name.encode())
                    + (worker * 7919 if TIER == "thorough" else 0))
            # regression tier: saved cases first
            reg, bad = 0, None
            cdir = os.path.join(HOME, "corpus", prop)
            if os.path.isdir(cdir):
                for name in sorted(os.listdir(cdir)):
                    rec = json.load(open(os.path.join(cdir, name)))
                    if rec["check"] != s.name:
                        continue
                    reg += 1
                    try:
                        core.run_case(s, rec["case"])
                    except core.Violation as v:
                        bad = (rec["case"], str(v))
                        break
            if bad is None:
                stats, case, msg = core.explore(s, n, seed, budget)
            else:
                stats, (case, msg) = core.Stats(), bad
            res["subs"].append({
                "name": s.name, "rule": s.rule,
                "evaluations": stats.evaluations + reg,
                "skipped_over_budget": stats.skipped,
                "regression_cases": reg,
                "nontrivial": sorted(stats.nontrivial),
                "tags": stats.tags, "samples": stats.samples,
                "seconds": round(time.monotonic() - t, 2),
            })
            if case is not None:
                res["violation"] = {"check": s.name, "case": case,
                                    "message": msg}
                break
    except BaseException:
        res["error"] = traceback.format_exc()
    with open(out_path, "w") as f:
        json.dump(res, f)
    if os.environ.get("PBT_COVER"):
        with open(os.path.join(os.environ["PBT_COVER"], "%s-%d.json" % (
                prop, worker)), "w") as f:
            json.dump(sorted(cover), f)


def replay(prop, path):
    setup(0)
    from pbt import core
    importlib.import_module("props." + prop.lower())
    rec = json.load(open(path))
    for s in core.SUBS[prop]:
        if s.name == rec["check"]:
            try:
                core.run_case(s, rec["case"])
            except core.Violation as v:
                print(v)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            print("held on the replayed case")
            return 0
    print("HARNESS-ERROR: no sub-check named", rec["check"])
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    prop = a.property
    sys.path.insert(0, tree.find_hypothesis(SCRATCH))
    if a.replay:
        return replay(prop, a.replay)

    n_workers = int(os.environ.get("PBT_WORKERS") or
                    ("8" if TIER == "thorough" else "4"))
    if a.only:
        n_workers = 1
    pids, outs = [], []
    for w in range(n_workers):
        out = os.path.join(SCRATCH, "res%d.json" % w)
        outs.append(out)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker_main(prop, w, n_workers, a.only, out)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    results = []
    for out in outs:
        if not os.path.exists(out):
            print("HARNESS-ERROR: a worker died")
            return 2
        results.append(json.load(open(out)))

    subs = {}
    nontrivial = set()
    samples = []
    for r in results:
        for s in r["subs"]:
            d = subs.setdefault(s["name"], {
                "evaluations": 0, "distinct_nontrivial": 0, "tags": {},
                "rule": s["rule"], "seconds": 0.0, "regression_cases": 0,
                "skipped_over_budget": 0, "_nt": set()})
            d["evaluations"] += s["evaluations"]
            d["skipped_over_budget"] += s["skipped_over_budget"]
            d["regression_cases"] += s["regression_cases"]
            d["seconds"] = round(d["seconds"] + s["seconds"], 2)
            d["_nt"] |= set(s["nontrivial"])
            for k, v in s["tags"].items():
                d["tags"][k] = d["tags"].get(k, 0) + v
            samples += s["samples"][:1]
    for name, d in subs.items():
        nt = d.pop("_nt")
        d["distinct_nontrivial"] = len(nt)
        nontrivial |= {(name, x) for x in nt}

    errors = [r["error"] for r in results if r["error"]]
    violations = [r["violation"] for r in results if r["violation"]]
    for r in results:
        for key, text in r["known"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))

    os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in subs.values()),
            "distinct_nontrivial": len(nontrivial),
            "rule": ("Cases are drawn by Hypothesis from the strategies of "
                     "the sub-checks listed below. A case counts as "
                     "non-trivial when its sub-check classified it with at "
                     "least one tag (see each sub-check's rule); distinct = "
                     "different JSON encoding of the case. "
                     + " | ".join("%s: %s" % (k, d["rule"])
                                  for k, d in sorted(subs.items())
                                  if d["rule"])),
            "samples": samples[:12],
            "sub_checks": subs,
        },
        "assumptions": [
            "global numpy/random generators are seeded from the case",
            "raw files that must be downloaded are replaced by stand-ins "
            "(pbt/tree.py)",
        ],
        "wall_s": round(time.monotonic() - T0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(HOME, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for name, d in sorted(subs.items()):
        print("%s %-34s %6d cases %6d non-trivial %7.1fs %s" % (
            prop, name, d["evaluations"], d["distinct_nontrivial"],
            d["seconds"],
            "SKIPPED %d" % d["skipped_over_budget"]
            if d["skipped_over_budget"] else ""))
    if violations:
        rdir = os.path.join(HOME, "replays")
        os.makedirs(rdir, exist_ok=True)
        for v in violations:
            name = "%s-%s-%08x.json" % (
                prop, v["check"],
                zlib.crc32(json.dumps(v["case"], sort_keys=True).encode()))
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                json.dump({"property": prop, "check": v["check"],
                           "case": v["case"], "message": v["message"]},
                          f, indent=1)
            print("--- %s / %s\n%s" % (prop, v["check"], v["message"][:3000]))
            print("case:", json.dumps(v["case"])[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("HARNESS-ERROR:")
        print(errors[0])
        return 2
    if not subs:
        print("HARNESS-ERROR: nothing was run")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
