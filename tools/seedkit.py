"""Development tool: make, confirm and try planted bugs (never used by checks).

make(id, prop, edits, needs, breaks, demo)
    edits: list of (file below /repo, old text (unique), new text)
    demo : python source; must pass on /repo and fail with the patch.
python3 tools/seedkit.py matrix [ids...]   tries the check of its property
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HOME, "seeded")

DEMO_SH = r'''#!/bin/bash
# cwd: /repo. Runs demo.py against a scratch copy of the package.
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/home"
tar -C "$PWD" --exclude=__pycache__ -cf - demod | tar -C "$work" -xf - || exit 3
ds="$work/demod/datasets"
mkdir -p "$ds/GermanTOU/raw_data" "$ds/CREST/raw_data"
for t in 4_States Bottaccioli2018 DemodActivities_0 Sparse9States; do
    [ -e "$ds/GermanTOU/raw_data/$t.zip" ] || : > "$ds/GermanTOU/raw_data/$t.zip"
done
for v in 2.2 2.3.3; do
    [ -e "$ds/CREST/raw_data/CREST_Demand_Model_v$v.xlsm" ] || : > "$ds/CREST/raw_data/CREST_Demand_Model_v$v.xlsm"
    p="$ds/CREST/parsed_data/v_$v"
    [ -d "$p/4_states" ] && [ ! -d "$p/4_States" ] && cp -r "$p/4_states" "$p/4_States"
done
mkdir -p "$ds/RenewablesNinja/raw_data"
for c in DE CH; do
    f="$ds/RenewablesNinja/raw_data/${c}_population.csv"
    [ -e "$f" ] || /opt/venv/bin/python - "$f" <<'PY'
import datetime, math, sys
rows = ["# synthetic", "# synthetic", "time,precipitation,temperature,irradiance_surface,irradiance_toa,snowfall,snow_mass,cloud_cover,air_density"]
for i in range(24 * 900):
    t = datetime.datetime(2014, 1, 1) + datetime.timedelta(hours=i)
    sun = max(0.0, math.sin((t.hour - 6) / 12.0 * math.pi))
    rows.append("%s,%g,%g,%g,%g,0,0,%g,1.2" % (t.strftime("%Y-%m-%d %H:%M"), (i % 7) * 0.01, 10 + 4 * sun, 400 * sun, 200 * sun, (i % 11) / 11.0))
open(sys.argv[1], "w").write("\n".join(rows) + "\n")
PY
done
export HOME="$work/home" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC MPLBACKEND=Agg PYTHONPATH="$work"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$work" || exit 3
timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def copy_repo(dest):
    os.makedirs(dest)
    p = subprocess.run(
        "tar -C /repo --exclude=__pycache__ -cf - . | tar -C %s -xf -" % dest,
        shell=True)
    assert p.returncode == 0


def run_tests(copy, work):
    sh = open("/opt/vp/test.sh").read().replace("tar -C /repo ",
                                                "tar -C %s " % copy)
    p = os.path.join(work, "test.sh")
    open(p, "w").write(sh)
    out = os.path.join(work, "o.json")
    subprocess.run(["bash", p, out], stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    res = json.load(open(out))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(res.get("passed", []))
    return [t for t in stable if t not in passed]


def make(id, prop, edits, needs, breaks, demo, tests=True):
    work = tempfile.mkdtemp(prefix="seedwork.")
    try:
        copy = os.path.join(work, "repo")
        copy_repo(copy)
        dest = os.path.join(work, id)
        os.makedirs(dest)
        open(os.path.join(dest, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(dest, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(dest, "demo.sh"), 0o755)
        r = subprocess.run(["bash", os.path.join(dest, "demo.sh")], cwd=copy,
                           capture_output=True, text=True)
        if r.returncode != 0:
            return "%s: demo fails on the unchanged tree\n%s" % (
                id, (r.stdout + r.stderr)[-1500:])
        for f, old, new in edits:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (id, s.count(old), old[:80])
            open(p, "w").write(s.replace(old, new))
        r = subprocess.run(["bash", os.path.join(dest, "demo.sh")], cwd=copy,
                           capture_output=True, text=True)
        if r.returncode == 0:
            return "%s: demo passes with the patch" % id
        tail = (r.stdout + r.stderr).strip().splitlines()[-1:]
        d = subprocess.run(["git", "diff"], cwd=copy, capture_output=True,
                           text=True).stdout
        open(os.path.join(dest, "patch.diff"), "w").write(d)
        if tests:
            bad = run_tests(copy, work)
            if bad:
                return "%s: tests fail: %s" % (id, bad[:5])
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(dest, "meta.json"), "w"), indent=1)
        final = os.path.join(SEEDED, id)
        if os.path.isdir(final):
            shutil.rmtree(final)
        shutil.copytree(dest, final)
        return "%s: ok   (%s)" % (id, tail)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def make_all(specs, jobs=6):
    from concurrent.futures import ThreadPoolExecutor
    if len(sys.argv) > 1:
        specs = [s for s in specs if s["id"] in sys.argv[1:]]
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda s: make(**s), specs):
            print(r, flush=True)


def try_one(id):
    meta = json.load(open(os.path.join(SEEDED, id, "meta.json")))
    work = tempfile.mkdtemp(prefix="seedwork.")
    try:
        copy = os.path.join(work, "repo")
        copy_repo(copy)
        r = subprocess.run(["git", "apply",
                            os.path.join(SEEDED, id, "patch.diff")], cwd=copy)
        if r.returncode:
            return id, meta["property"], "DOES NOT APPLY", ""
        r = subprocess.run(
            [sys.executable, os.path.join(HOME, "run.py"), meta["property"]],
            env=dict(os.environ, VERIF_REPO=copy), capture_output=True,
            text=True)
        subs = [ln.split("/ ")[1] for ln in r.stdout.splitlines()
                if ln.startswith("--- ")]
        caught = (r.returncode == 1 and
                  "VIOLATION property=%s " % meta["property"] in r.stdout)
        return (id, meta["property"], "caught" if caught
                else "MISSED rc=%d" % r.returncode, ",".join(subs))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def matrix(ids, jobs=4):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(try_one, ids):
            print("%-10s %-5s %-12s %s" % r, flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "matrix":
        matrix(sys.argv[2:] or sorted(os.listdir(SEEDED)))
