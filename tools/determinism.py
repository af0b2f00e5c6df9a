"""Runs a sample of seeds of each property several times and compares digests.

tools/determinism.py [C01 C02 ...] [--runs N]
"""
import argparse
import glob
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--runs", type=int, default=60)
a = ap.parse_args()
ids = a.ids or sorted(os.path.basename(f)[:-3].upper() for f in
                      glob.glob(os.path.join(HERE, "dst/props/c*.py")))
bad = 0
for p in ids:
    seen = []
    for workers, hs in ((8, "0"), (3, "0"), (5, "7")):
        with tempfile.NamedTemporaryFile("r", suffix=".dig") as f:
            r = subprocess.run(
                [sys.executable, "-m", "dst.run", "--property", p, "--tier",
                 "quick", "--runs", str(a.runs), "--no-evidence", "--workers",
                 str(workers), "--digests", f.name], cwd=HERE,
                env=dict(os.environ, PYTHONHASHSEED=hs),
                capture_output=True, text=True)
            seen.append(f.read())
    same = len(set(seen)) == 1 and seen[0].count("\n") == a.runs
    bad += not same
    print(p, "same" if same else "DIFFERENT", seen[0].count("\n"), "runs x 3",
          flush=True)
sys.exit(bool(bad))
