"""Deterministic simulation core: choices, runs, search, minimisation, replay.

One run = one (property, seed).  Every choice of a run -- generated system,
operation, schedule, solver answer, fault and fault instant -- is drawn from
one PRNG seeded by that integer and recorded.  A replay file holds the recorded
choices; replaying it re-executes exactly that run.  Each run executes in its
own forked child, so nothing leaks between runs and a crash of native code is
just another outcome.
"""
import hashlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import sys
import time as _time
import traceback
import warnings

real_time = _time.time
real_monotonic = _time.monotonic

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f"[{key}] {msg}")
        self.key = key
        self.msg = msg


class Discard(Exception):
    """The run could not be judged (a harness limit, not a finding)."""


class Chooser:
    """All the choices of a run.  Value 0 is always the benign default."""
    def __init__(self, seed, replay=None):
        self.rng = random.Random(seed)
        self.replay = replay
        self.log = []
        self.limit = 200000

    def _draw(self, label, n, p=None):
        pos = len(self.log)
        if pos >= self.limit:
            raise Discard("too many choices")
        if self.replay is not None:
            v = self.replay[pos] if pos < len(self.replay) else 0
            v = int(v) % n if n > 0 else 0
        elif p is not None:
            v = 1 if self.rng.random() < p else 0
        else:
            v = self.rng.randrange(n)
        self.log.append((label, v))
        return v

    def choose(self, label, n):
        return self._draw(label, int(n)) if n > 1 else 0

    def flip(self, label, p):
        if p <= 0:
            return False
        return bool(self._draw(label, 2, p))

    def real(self, label):
        return self._draw(label, 1 << 16) / float((1 << 16) - 1)

    def rngstate(self, label):
        import numpy as np
        return np.random.RandomState(self._draw(label, 1 << 30))

    def pick(self, label, seq):
        return seq[self.choose(label, len(seq))]

    def int(self, label, lo, hi):
        return lo + self.choose(label, hi - lo + 1)


class Run:
    """What a scenario sees."""
    def __init__(self, prop, seed, ch, tier, index):
        self.prop = prop
        self.seed = seed
        self.ch = ch
        self.tier = tier
        self.index = index
        self.counts = {}
        self.events = []
        self.sig = []
        self.sim_time = 0.
        self.scenario = None
        self.sample = {}
        self.nontrivial = True
        self.scratch = None
        self.cleanup = []

    def note(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def event(self, *what):
        self.events.append(what)

    def mark(self, *what):
        """Part of the run's signature (the distinctness measure)."""
        self.sig.append(what)

    def check(self, cond, key, msg=""):
        self.note("assertions")
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)

    def signature(self):
        return hashlib.sha1(repr((self.scenario, self.sig)).encode()).hexdigest()


def h64(*a):
    return int.from_bytes(
        hashlib.sha256(repr(a).encode()).digest()[:8], "big")


# ---------------------------------------------------------------------------
def _reset_world():
    import numpy as np
    import torch
    torch.manual_seed(0)
    np.random.seed(0)
    random.seed(0)
    torch.set_default_dtype(torch.float32)
    from gurobipy import hooks
    hooks.reset()
    hooks.double_check = False


def in_repo(tb):
    for f in traceback.extract_tb(tb):
        fn = os.path.realpath(f.filename)
        if fn.startswith(os.path.realpath(REPO) + os.sep):
            return True
    return False


def last_repo_frame(tb):
    out = None
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(
                os.path.realpath(REPO) + os.sep):
            out = f.name
    return out


class HardTimeout(BaseException):
    pass


def execute(mod, index, seed, tier, replay=None, hard_timeout=240,
            double=False):
    """Runs one simulation in this process; returns a result dict."""
    warnings.simplefilter("ignore")
    ch = Chooser(seed, replay)
    run = Run(mod.ID, seed, ch, tier, index)
    _reset_world()
    if double:
        from gurobipy import hooks
        hooks.double_check = True
    out = dict(index=index, seed=seed, kind="ok", key=None, msg=None)
    t0 = real_monotonic()

    def on_alarm(*_):
        raise HardTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(hard_timeout)
    try:
        try:
            mod.scenario(run)
        finally:
            signal.alarm(0)
            for c in reversed(run.cleanup):
                c()
    except Violation as e:
        out.update(kind="violation", key=e.key, msg=e.msg)
    except Discard as e:
        out.update(kind="discard", msg=str(e))
    except HardTimeout:
        out.update(kind="discard", msg="hard wall-clock limit of a run")
        run.note("hard-timeouts")
    except BaseException as e:
        tb = e.__traceback__
        text = "".join(traceback.format_exception(type(e), e, tb))[-6000:]
        name = type(e).__name__
        if name == "SimSolverError":
            out.update(kind="discard", msg="simulated solver limit: " + str(e))
        elif in_repo(tb) and not isinstance(e, MemoryError):
            out.update(kind="violation",
                       key=f"exception:{run.scenario}:{name}",
                       msg="the code under test raised\n" + text)
        elif isinstance(e, (AttributeError, TypeError, ValueError, IndexError,
                            KeyError, RuntimeError, ArithmeticError,
                            AssertionError)):
            # the judge could not even evaluate what the code returned
            out.update(kind="violation",
                       key=f"malformed:{run.scenario}:{name}",
                       msg="the result cannot be evaluated\n" + text)
        else:
            out.update(kind="harness", msg=text)
    out["wall"] = real_monotonic() - t0
    out["choices"] = [v for _, v in ch.log]
    out["labels"] = [l for l, _ in ch.log]
    out["counts"] = run.counts
    out["sim_time"] = run.sim_time
    out["scenario"] = run.scenario
    out["sig"] = run.signature()
    out["nontrivial"] = run.nontrivial
    out["sample"] = run.sample
    out["events"] = run.events[-200:]
    out["digest"] = hashlib.sha1(
        repr((run.events, out["choices"], run.sig)).encode()).hexdigest()
    return out


def spawn(mod, index, seed, tier, replay=None, double=False):
    """Forks a child which executes the run; returns (pid, fd, flag).

    With double set, every linear program is given to HiGHS three times;
    replays always run that way.
    """
    double = double or replay is not None
    from gurobipy import hooks
    r, w = os.pipe()
    flag = mmap.mmap(-1, 1)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            hooks.in_solver = flag
            devnull = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get("DST_SHOW"):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            if os.environ.get("DST_SHOW"):
                import faulthandler
                faulthandler.enable()
            res = execute(mod, index, seed, tier, replay,
                          400 if double else 240, double)
            if res["kind"] == "ok":
                res["choices"] = res["choices"][:0] if not os.environ.get(
                    "DST_FULL") else res["choices"]
                res["labels"] = []
                res["events"] = res["events"][-40:] if index < 3 else []
            data = pickle.dumps(res)
        except BaseException as e:  # pragma: no cover
            data = pickle.dumps(
                dict(index=index, seed=seed, kind="harness",
                     msg="worker: " + repr(e) + traceback.format_exc()))
        try:
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r, flag


class Pool:
    """Runs simulations in forked children, a bounded number at a time.

    A run that shows a violation is repeated in a fresh child with every
    linear program given to HiGHS three times; only what it shows then counts.
    """
    def __init__(self, mod, tier, workers):
        self.mod, self.tier, self.workers = mod, tier, workers
        self.live = {}

    def start(self, index, seed, replay=None, double=False, first=None):
        pid, fd, flag = spawn(self.mod, index, seed, self.tier, replay, double)
        self.live[fd] = [pid, index, seed, bytearray(), replay, double, first,
                         flag]

    def settle(self, rec, res):
        """None if the run is to be repeated first."""
        _, index, seed, _, replay, double, first, _ = rec
        if res["kind"] == "violation" and replay is None and not double:
            self.start(index, seed, None, True, res["key"])
            return None
        if first is not None and res["kind"] != "violation":
            res["kind"] = "discard"
            res["msg"] = "not repeated (HiGHS contradicted itself?): " + \
                str(first)
        return res

    def poll(self, timeout):
        done = []
        if not self.live:
            return done
        rd, _, _ = select.select(list(self.live), [], [], timeout)
        for fd in rd:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                self.live[fd][3] += chunk
                continue
            rec = self.live.pop(fd)
            pid, index, seed, buf = rec[:4]
            os.close(fd)
            _, st = os.waitpid(pid, 0)
            if buf:
                res = pickle.loads(bytes(buf))
            else:
                sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
                if sig == signal.SIGKILL or rec[7][0]:
                    # the sandbox's memory guard or HiGHS, not the code under
                    # test
                    res = dict(index=index, seed=seed, kind="discard",
                                     msg="HiGHS crashed" if rec[7][0] else
                                     "child killed", counts={}, sim_time=0,
                                     scenario=None, sig="", nontrivial=False,
                                     choices=[], labels=[], wall=0,
                                     sample={}, events=[], digest="")
                else:
                    res = dict(
                        index=index, seed=seed, kind="violation",
                        key="process-died",
                        msg=f"the process died with status {st}", counts={},
                        sim_time=0, scenario=None, sig="", nontrivial=True,
                        choices=None, labels=[], wall=0, sample={}, events=[],
                        digest="")
            res = self.settle(rec, res)
            if res is not None:
                done.append(res)
        return done

    def kill(self):
        for fd, rec in list(self.live.items()):
            try:
                os.kill(rec[0], signal.SIGKILL)
                os.waitpid(rec[0], 0)
            except OSError:
                pass
            os.close(fd)
        self.live.clear()


def run_one(mod, seed, tier, replay, index=0, double=False):
    p = Pool(mod, tier, 1)
    p.start(index, seed, replay, double)
    while True:
        d = p.poll(1.)
        if d:
            return d[0]


# ---------------------------------------------------------------------------
def minimise(mod, tier, res, budget_s=40., workers=8):
    """Delta-debugs the choice list: truncate, delete blocks, zero, halve."""
    best = list(res["choices"])
    key = res["key"]
    t_end = real_monotonic() + budget_s
    tried = 0
    cur = res

    def batch(cands):
        """First candidate (in order) which still shows the violation."""
        nonlocal tried
        pool = Pool(mod, tier, workers)
        out = {}
        nxt = 0
        hit = None
        while True:
            while nxt < len(cands) and len(pool.live) < workers and \
                    hit is None and real_monotonic() < t_end:
                pool.start(nxt, res["seed"], cands[nxt])
                nxt += 1
            if not pool.live:
                break
            for d in pool.poll(1.):
                tried += 1
                out[d["index"]] = d
                if d["kind"] == "violation" and d["key"] == key and \
                        d.get("choices") is not None:
                    hit = d["index"] if hit is None else min(hit, d["index"])
            if real_monotonic() > t_end + 30:
                pool.kill()
                break
            if hit is not None and all(
                    r[1] > hit for r in pool.live.values()):
                pool.kill()
                break
        return out.get(hit) if hit is not None else None

    def strip(c):
        c = list(c)
        while c and c[-1] == 0:
            c.pop()
        return c

    improved = True
    best = strip(best)
    while improved and real_monotonic() < t_end:
        improved = False
        n = len(best)
        cands = []
        size = max(1, n // 2)
        while size >= 1:
            for s in range(0, n, size):
                z = best[:s] + [0] * min(size, n - s) + best[s + size:]
                if any(best[s:s + size]):
                    cands.append(strip(z))
                cands.append(strip(best[:s] + best[s + size:]))
            if len(cands) > 400:
                break
            size //= 2
        for i in range(n):
            if best[i] > 1 and len(cands) < 900:
                cands.append(best[:i] + [best[i] // 2] + best[i + 1:])
                cands.append(best[:i] + [1] + best[i + 1:])
        seen, uniq = set(), []
        for c in cands:
            k = tuple(c)
            if k not in seen and c != best and _smaller(c, best):
                seen.add(k)
                uniq.append(c)
        hit = batch(uniq)
        if hit is not None:
            new = strip(hit["choices"])
            if _smaller(new, best):
                best, cur, improved = new, hit, True
            else:
                break
    return best, cur, tried


def _smaller(a, b):
    return (sum(1 for v in a if v), len(a), sum(a)) < \
        (sum(1 for v in b if v), len(b), sum(b))


# ---------------------------------------------------------------------------
def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("findings", []) if e["property"] == prop]


def repo_fingerprint():
    """A hash of the code under test, for the evidence."""
    h = hashlib.sha1()
    base = os.path.join(REPO, "neural_network_lyapunov")
    for root, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(root, f), "rb") as fh:
                    h.update(f.encode() + fh.read())
    return h.hexdigest()


def search(mod, tier, base_seed, runs, wall_cap, workers, only=None):
    """Runs seeds 0..runs-1 of the property; stops at the first violation."""
    pool = Pool(mod, tier, workers)
    t0 = real_monotonic()
    nxt = 0
    results = []
    agg = dict(counts={}, sim_time=0., sigs=set(), discards={}, scen={},
               nontrivial=0, ran=0, digest=hashlib.sha1())
    digests = {}
    viol = []
    harness = []
    capped = False
    stop_at = None
    known = {e["key"]: e for e in load_known(mod.ID)}
    known_hits = {}
    samples = []
    idxs = only if only is not None else range(runs)
    order = list(idxs)
    while True:
        while nxt < len(order) and len(pool.live) < workers and \
                stop_at is None and not capped:
            if real_monotonic() - t0 > wall_cap:
                capped = True
                break
            i = order[nxt]
            pool.start(i, h64(mod.ID, base_seed, i))
            nxt += 1
        if not pool.live:
            break
        for d in pool.poll(1.):
            agg["ran"] += 1
            if d["kind"] == "harness":
                harness.append(d)
                stop_at = d["index"] if stop_at is None else min(
                    stop_at, d["index"])
                continue
            for k, v in d["counts"].items():
                agg["counts"][k] = agg["counts"].get(k, 0) + v
            agg["sim_time"] += d["sim_time"]
            digests[d["index"]] = d["digest"]
            agg["scen"][d["scenario"]] = agg["scen"].get(d["scenario"], 0) + 1
            if d["kind"] == "discard":
                agg["discards"][d["msg"]] = agg["discards"].get(d["msg"],
                                                                0) + 1
                continue
            if d["nontrivial"]:
                agg["sigs"].add(d["sig"])
            if d["kind"] == "violation":
                if d["key"] in known:
                    known_hits.setdefault(d["key"], d)
                    continue
                viol.append(d)
                stop_at = d["index"] if stop_at is None else min(
                    stop_at, d["index"])
            elif d["index"] < 40 and len(samples) < 6 and d["sample"]:
                samples.append(dict(seed_index=d["index"], seed=d["seed"],
                                    scenario=d["scenario"], **d["sample"]))
        if stop_at is not None and all(r[1] > stop_at
                                       for r in pool.live.values()):
            pool.kill()
            break
    for i in sorted(digests):
        agg["digest"].update(digests[i].encode())
    viol.sort(key=lambda d: d["index"])
    wall = real_monotonic() - t0
    return dict(agg=agg, violations=viol, harness=harness, capped=capped,
                wall=wall, known_hits=known_hits, samples=samples,
                digests=digests)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)
