#!/usr/bin/env python3
"""Entry point of every check:  python run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Parent: makes a scratch copy of /repo's working tree (so that nothing the
loaders write ever lands in /repo), prepares the offline stand-ins the package
needs to import, starts the worker driver in a clean, fixed environment, relays
its exit code and removes the scratch directory.

Exit codes: 0 held on everything explored, 1 VIOLATION, 2 error of the check.
"""
import argparse
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
HARD_LIMIT_S = {"quick": 780, "thorough": 4 * 3600}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run a single sub-check")
    ap.add_argument("--scale", default="1", help="multiply the case counts")
    ap.add_argument("--workers", default="")
    args = ap.parse_args()

    scratch = tempfile.mkdtemp(prefix="demodpbt.")
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": scratch,
        "LANG": "C.UTF-8",
        "TZ": "UTC",
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONWARNINGS": "ignore",
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": args.tier,
        "PBT_SCRATCH": scratch,
        "PBT_HOME": HERE,
        "PBT_REPO": REPO,
        "PBT_SCALE": args.scale,
        "PBT_WORKERS": args.workers,
        "TMPDIR": scratch,
    }
    if os.environ.get("PBT_COVER"):
        env["PBT_COVER"] = os.environ["PBT_COVER"]
    rc = 2
    proc = None
    try:
        cmd = [PYTHON, "-W", "ignore", os.path.join(HERE, "pbt", "driver.py"),
               args.property]
        if args.replay:
            cmd += ["--replay", os.path.abspath(args.replay)]
        if args.only:
            cmd += ["--only", args.only]
        proc = subprocess.Popen(cmd, env=env, cwd=scratch,
                                start_new_session=True)
        rc = proc.wait(timeout=HARD_LIMIT_S[args.tier])
        if rc not in (0, 1):
            rc = 2
    except subprocess.TimeoutExpired:
        print("HARNESS-ERROR: hard time limit reached, inconclusive")
        rc = 2
    finally:
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            proc.wait()
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
