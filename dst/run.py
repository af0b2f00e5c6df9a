"""CLI: decide one property by seeded simulation, or replay a failure."""
import os
import sys

ENV = dict(LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
           MPLBACKEND="Agg", WANDB_MODE="disabled", WANDB_SILENT="true",
           CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def reexec(script=None):
    if os.environ.get("DST_READY") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env.setdefault("PYTHONHASHSEED", "0")
    env["DST_READY"] = "1"
    env["PYTHONPATH"] = os.pathsep.join(
        [os.path.join(HERE, "sim"), REPO, VERIF])
    py = "/opt/venv/bin/python"
    os.execve(py, [py, script or os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    reexec()
    import argparse
    import importlib
    import json
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--only", help="comma separated run indexes")
    ap.add_argument("--workers", type=int,
                    default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--wall", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-minimise", action="store_true")
    ap.add_argument("--digests", help="write per-run digests to this file")
    ap.add_argument("--all", action="store_true",
                    help="report every distinct violation key")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    torch.set_num_interop_threads(1)
    import torch._dynamo  # noqa: F401  (lazily imported by every optimizer)
    from dst import core
    mod = importlib.import_module("dst.props." + a.property.lower())
    if hasattr(mod, "preload"):
        mod.preload()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        res = core.run_one(mod, rep["seed"], rep.get("tier", tier),
                           rep["choices"])
        if res["kind"] == "violation":
            print(res["msg"])
            print("key:", res["key"], "(recorded:", rep["key"] + ")")
            print(f"VIOLATION property={mod.ID} replay={a.replay}")
            return 1
        print("replay outcome:", res["kind"], res.get("msg"))
        return 0 if res["kind"] in ("ok", "discard") else 2

    runs = a.runs or mod.RUNS[tier]
    # the runs are a fixed number; the cap only guards against a slow machine
    wall_cap = a.wall or (420. if tier == "quick" else
                          getattr(mod, "THOROUGH_WALL", 5400.))
    only = [int(x) for x in a.only.split(",")] if a.only else None
    if a.all:
        seen = {}
        agg = {}
        rest = list(range(runs)) if only is None else only
        while rest:
            r = core.search(mod, tier, a.seed, runs, wall_cap, a.workers, rest)
            bad = r["violations"] + r["harness"]
            for d in bad:
                k = d.get("key") or "HARNESS"
                seen.setdefault(k, [])
                seen[k].append(d)
            last = min((d["index"] for d in bad), default=None)
            agg["ran"] = agg.get("ran", 0) + r["agg"]["ran"]
            if last is None:
                break
            gone = set(d["index"] for d in bad)
            rest = [i for i in rest if i not in gone and
                    i not in r["digests"]]
        print(agg)
        for k, v in seen.items():
            print("==", k, len(v), "first index", v[0]["index"])
            print("   ", (v[0]["msg"] or "")[-1500:])
        return 1 if seen else 0
    r = core.search(mod, tier, a.seed, runs, wall_cap, a.workers, only)
    agg = r["agg"]
    if a.digests:
        with open(a.digests, "w") as f:
            for i in sorted(r["digests"]):
                f.write(f"{i} {r['digests'][i]}\n")
    code = 0
    nviol = len(r["violations"])
    if r["harness"]:
        d = min(r["harness"], key=lambda d: d["index"])
        print("HARNESS-ERROR in run", d["index"], "seed", d["seed"])
        print(d["msg"])
        code = 2
    for key, d in sorted(r["known_hits"].items()):
        known = {e["key"]: e for e in core.load_known(mod.ID)}
        print(f"KNOWN-FINDING: property={mod.ID} {known[key]['what']}")
    if r["violations"]:
        d = r["violations"][0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{mod.ID}_{d['index']}.json")
        tried = 0
        n0 = None
        if d["choices"] is None:
            # native crash: the seed alone is the replay
            rr = core.run_one(mod, d["seed"], tier, None)
            choices, cur = None, d
        elif a.no_minimise:
            choices, cur = d["choices"], d
        else:
            n0 = len(d["choices"])
            choices, cur, tried = core.minimise(
                mod, tier, d, budget_s=60. if tier == "quick" else 240.,
                workers=a.workers)
            again = core.run_one(mod, d["seed"], tier, choices)
            if again["kind"] != "violation":
                choices, cur = d["choices"], d
        with open(path, "w") as f:
            json.dump(dict(
                property=mod.ID, seed=d["seed"], index=d["index"], tier=tier,
                base_seed=a.seed, key=cur["key"], message=cur["msg"],
                choices=choices, labels=cur.get("labels"),
                scenario=cur["scenario"],
                trace=core.jsonable(cur["events"]),
                original_choices=n0, minimiser_runs=tried,
                faults=core.jsonable(cur["counts"])), f, indent=1)
        print(f"violation in run {d['index']} (seed {d['seed']}), scenario "
              f"{cur['scenario']}: {cur['key']}")
        print(cur["msg"])
        print(f"minimised {n0} choices to "
              f"{len(choices) if choices else 0} in {tried} runs")
        print(f"VIOLATION property={mod.ID} replay={path}")
        code = 1
    wall = r["wall"]
    faults = {k: v for k, v in sorted(agg["counts"].items())
              if k.startswith(("fault:", "freedom:", "event:"))}
    probes = {k: v for k, v in sorted(agg["counts"].items())
              if not k.startswith(("fault:", "freedom:", "event:"))}
    ev = dict(
        property=mod.ID, tier=tier, seed=a.seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=agg["ran"], distinct_nontrivial=len(agg["sigs"]),
            rule=mod.RULE,
            samples=core.jsonable(r["samples"]) or [{"note": "no sample"}],
            runs_per_hour=round(agg["ran"] / max(wall, 1e-9) * 3600),
            seeds_per_hour=round(agg["ran"] / max(wall, 1e-9) * 3600),
            simulated_seconds=round(agg["sim_time"], 3),
            faults_injected=faults, probes=probes,
            scenarios=core.jsonable(agg["scen"]),
            discarded_runs=agg["discards"],
            runs_planned=runs, capped_by_wall_clock=r["capped"],
            event_log_digest=agg["digest"].hexdigest(),
            code_under_test=core.repo_fingerprint(),
            real_components=mod.REAL, stub_components=mod.STUBS),
        assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 2), violations=nviol)
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", mod.ID + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{mod.ID} {tier}: {agg['ran']} runs, {len(agg['sigs'])} distinct, "
          f"{sum(agg['discards'].values())} discarded, {wall:.1f}s, "
          f"violations {nviol}")
    nd = sum(agg["discards"].values())
    if code == 0 and agg["ran"] and nd > max(3, 0.2 * agg["ran"]):
        print("HARNESS-ERROR: too many runs could not be judged:",
              agg["discards"])
        code = 2
    return code


if __name__ == "__main__":
    sys.exit(main())
