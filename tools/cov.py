"""Which lines of /repo the simulations execute: tools/cov.py C01,C02 RUNS.

Not a check; shows what no scenario reaches.  Prints, per file, the functions
with lines nobody executed.
"""
import os, sys, pickle, glob, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst import run as drun
drun.reexec(os.path.abspath(__file__))
import importlib, ast
import logging; logging.disable(logging.CRITICAL)
import torch; torch.set_num_threads(1)
import torch._dynamo  # noqa
from dst import core
import dis, types

props = sys.argv[1].split(",")
runs = int(sys.argv[2])
workers = int(os.environ.get("DST_WORKERS", "2"))
tmp = tempfile.mkdtemp(prefix="cov_")
ROOT = os.path.realpath(core.REPO) + "/neural_network_lyapunov/"
mon = sys.monitoring
orig = core.execute


def execute(*a, **k):
    lines = set()
    mon.use_tool_id(3, "cov")

    def on_line(code, line):
        if code.co_filename.startswith(ROOT):
            lines.add((code.co_filename[len(ROOT):], line))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.LINE)
    mon.restart_events()
    try:
        return orig(*a, **k)
    finally:
        mon.free_tool_id(3)
        with open(f"{tmp}/{os.getpid()}.pkl", "wb") as f:
            pickle.dump(lines, f)


core.execute = execute
hit = set()
for p in props:
    mod = importlib.import_module("dst.props." + p.lower())
    if hasattr(mod, "preload"):
        mod.preload()
    core.search(mod, "quick", 1, min(runs, mod.RUNS["quick"]), 900., workers, None)
    for f in glob.glob(tmp + "/*.pkl"):
        try:
            hit |= pickle.load(open(f, "rb"))
        except Exception:
            pass
    for f in glob.glob(tmp + "/*.pkl"):
        os.unlink(f)
shutil.rmtree(tmp)


def walk(code, name, out):
    ls = {l for _, _, l in code.co_lines() if l} - {code.co_firstlineno}
    out.append((name, code.co_firstlineno, ls))
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            walk(c, name + "." + c.co_name if name else c.co_name, out)


for f in sorted(os.listdir(ROOT)):
    if not f.endswith(".py"):
        continue
    out = []
    walk(compile(open(ROOT + f).read(), f, "exec"), "", out)
    tot = got = 0
    miss = []
    for name, first, ls in out:
        if not name:
            continue
        h = {l for l in ls if (f, l) in hit}
        tot += len(ls); got += len(h)
        if len(h) == 0 and ls:
            miss.append(f"{name}: NEVER ({len(ls)})")
        elif len(h) < len(ls):
            miss.append(f"{name}: {sorted(ls - h)}")
    print(f"== {f}: {got}/{tot}")
    for m in miss:
        print("   ", m[:300])
