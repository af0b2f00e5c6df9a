"""Confirm a planted bug: tools/plant.py ID [--checks C01,C02] [--tests]

Works on a scratch copy of /repo.  The demonstration must exit 0 on the
unchanged tree and non-zero with seeded/ID/patch.diff; with --tests the stable
tests must pass with it; the checks named (default: the property in meta.json)
are then run against the copy and their verdict printed.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile

ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="+")
ap.add_argument("--checks")
ap.add_argument("--tests", action="store_true")
ap.add_argument("--no-demo", action="store_true")
ap.add_argument("--no-check", action="store_true")
ap.add_argument("--tier", default="quick")
a = ap.parse_args()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for bid in a.ids:
    sd = os.path.join(HERE, "seeded", bid)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        wt = os.path.join(tmp, "repo")
        subprocess.check_call(["cp", "-a", os.environ.get("PLANT_BASE", "/repo"), wt])
        subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
        lay = os.path.join(tmp, "laid")
        shutil.copytree(sd, lay, ignore=shutil.ignore_patterns(
            "*.diff", "*.patch", "meta.json"))

        def demo():
            # The demos import neural_network_lyapunov from the cwd.
            p = subprocess.run(["bash", os.path.join(lay, "demo.sh")], cwd=wt,
                               capture_output=True, text=True, timeout=300)
            return p.returncode, (p.stdout + p.stderr)[-600:]
        if not a.no_demo:
            rc, out = demo()
            print(f"{bid}: demo on the unchanged tree: {rc}", "" if rc == 0 else out)
        subprocess.check_call(["git", "-C", wt, "apply",
                               os.path.join(sd, "patch.diff")])
        if not a.no_demo:
            rc, out = demo()
            print(f"{bid}: demo with the patch: {rc}", out if rc == 0 else out[-200:])
        if a.tests:
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            mods = sorted({".".join(t.split(".")[:-1]).rsplit("::")[0]
                           for t in base})
            files = sorted({"/".join(t.split("::")[0].split(".")[:-1]) + ".py"
                            for t in base})
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q",
                                "-x", "--no-header"] + [f + "" for f in files] +
                               ["-k", " or ".join(sorted({t.split("::")[1] for t in base}))],
                               cwd=wt, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH=wt))
            print(f"{bid}: tests: {p.stdout.strip().splitlines()[-1:]}")
        if not a.no_check:
            for c in (a.checks or meta["property"]).split(","):
                p = subprocess.run(
                    ["/opt/venv/bin/python", "-m", "dst.run", "--property", c,
                     "--tier", a.tier, "--no-evidence"], cwd=HERE,
                    capture_output=True, text=True,
                    env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1"))
                lines = [l for l in p.stdout.splitlines()
                         if "VIOLATION" in l or "violation" in l]
                print(f"{bid}: check {c}: exit {p.returncode}", *lines[:3],
                      p.stderr[-300:] if p.returncode not in (0, 1) else "")
        sys.stdout.flush()
    finally:
        shutil.rmtree(tmp)
