#!/usr/bin/env python3
"""setup_cmd: nothing to build; verifies that what the checks need is there."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pbt import tree  # noqa: E402

with tempfile.TemporaryDirectory() as tmp:
    hyp = tree.find_hypothesis(tmp)
    out = subprocess.run(
        ["/opt/venv/bin/python", "-c",
         "import hypothesis, numpy, scipy, pandas; print(hypothesis.__version__)"],
        env={"PYTHONPATH": hyp, "PATH": os.environ.get("PATH", "")},
        capture_output=True, text=True)
print(out.stdout, out.stderr)
sys.exit(out.returncode)
