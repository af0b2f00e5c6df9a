"""Writes MANIFEST.json from the property modules that exist."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = {}
exec(open(os.path.join(HERE, "tools", "level_notes.py")).read())

NA = {
    "C18": "Rotation conversions, the integrator and the encoders are pure "
           "functions of their inputs: no schedule, clock, I/O, solver answer "
           "or fault can change what they return, so simulation has nothing "
           "to decide there.",
    "C19": "The example robot models are pure functions of state and control; "
           "no schedule, clock, I/O, solver answer or fault can change what "
           "they return, so simulation has nothing to decide there.",
}
TECH = "deterministic simulation with fault injection (seeded search)"

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
have = {os.path.basename(f)[:-3].upper()
        for f in glob.glob(os.path.join(HERE, "dst", "props", "c*.py"))}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in NOTE:
        src = open(os.path.join(HERE, "dst", "props",
                                i.lower() + ".py")).read()
        level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
        checks.append(dict(
            property=i,
            quick_cmd=f"python3 dst/run.py --property {i} --tier quick",
            thorough_cmd=f"python3 dst/run.py --property {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=TECH, level=level, level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, "No check is registered for it yet (work in progress).")))
m = dict(
    version=1,
    setup_cmd="python3 dst/selftest.py",
    hooks=dict(
        guard="none",
        enable="No hook was added to /repo.  The simulator supplies the "
               "optional gurobipy module (dst/sim, put on PYTHONPATH by "
               "dst/run.py) and replaces clocks, files, loggers and closures "
               "from outside, at run time.",
        source_commits=[]),
    checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", [c["property"] for c in checks])
