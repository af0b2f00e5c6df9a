"""C05: counterexample sets are genuine, bounded and consistent.

Verifier calls and whole training histories with a solver that fills its
solution pool as it likes (any size, ties, suboptimal members, early stops);
a small reference model follows the pools.
"""
import numpy as np
import torch

from dst import build as B
from dst import session as SS

ID = "C05"
LEVEL = "exploration"
RUNS = dict(quick=500, thorough=30000)
RULE = ("one case = one verifier call or one training history (up to 5 "
        "verify-and-descend rounds) with the pools the solver returned; "
        "non-trivial when at least one pool extraction was compared with the "
        "reference; distinct by system, options, pool sizes and statuses")
REAL = ["train_lyapunov_barrier.py", "lyapunov.py", "hybrid_linear_system.py",
        "feedback_system.py", "relu_system.py", "gurobi_torch_mip.py",
        "torch DataLoader and optimizers"]
STUBS = ["gurobipy (simulated solver on HiGHS)", "wandb (disabled stub)"]
ASSUMPTIONS = [
    "the solver's pool is sorted from best to worst, as Gurobi documents",
    "an exception raised after the solver failed to deliver is no "
    "counterexample set",
    "clustering compares each state with the one just before it in the "
    "solver's order"]


def preload():
    import neural_network_lyapunov.train_lyapunov_barrier  # noqa


def faulty(run):
    return sum(v for k, v in run.counts.items() if k.startswith("fault:"))


def rows(t):
    return [tuple(np.round(v, 12)) for v in np.asarray(
        t.detach().numpy(), dtype=float)]


def same(a, b, tol=1e-9):
    a, b = a.detach().numpy(), b.detach().numpy()
    return a.shape == b.shape and (a.size == 0 or
                                   float(np.max(np.abs(a - b))) <= tol)


def reported(milp, xv):
    """What the solver reported, read from the solver itself."""
    pool = milp.gurobi_model._result.pool
    return [np.array([y[v._col] for v in xv]) for y, _ in pool], \
        [o for _, o in pool]


def judge_call(run, S, name, w, adv, nxt, limit):
    """One verifier call: adv (and nxt) against the solver's pool."""
    tr = S.t
    milp, fz, xv = w.last[name]
    xs, objs = reported(milp, xv)
    want = [k for k in range(min(limit, len(xs)))
            if not tr.add_adversarial_state_only or objs[k] > 0]
    run.note("probe:pool-size-%d" % min(len(xs), 6))
    run.mark(name, len(xs), len(want))
    run.check(adv.shape == (len(want), S.p.dim), name + ":count",
              lambda: f"{tuple(adv.shape)} counterexamples, the solver's pool "
              f"{objs} calls for {len(want)} (limit {limit})")
    run.check(len(want) <= limit, name + ":limit", "too many")
    a = adv.detach().numpy()
    for i, k in enumerate(want):
        run.check(float(np.max(np.abs(a[i] - xs[k]))) <= 1e-9,
                  name + ":position",
                  lambda: f"entry {i} is {a[i]}, the solver's pool member {k} "
                  f"is {xs[k]}")
        run.check(bool(np.all(a[i] >= S.p.x_lo - 1e-6)
                       and np.all(a[i] <= S.p.x_up + 1e-6)),
                  name + ":region", lambda: f"{a[i]} is outside the region")
    reg = SS.positivity_region(S) if name == "positivity" else \
        SS.derivative_region(S)
    prev = np.inf
    for i, k in enumerate(want):
        got = [v for v, _ in reg.attained(
            np.clip(a[i], S.p.x_lo, S.p.x_up), 2e-6)]
        if not got:
            continue
        v = min(got, key=lambda z: abs(z - objs[k]))
        tol = 1e-5 * (1 + abs(objs[k]))
        if tr.add_adversarial_state_only:
            run.check(max(got) > -tol, name + ":genuine",
                      lambda: f"{a[i]} does not violate the condition: {got}")
        run.check(abs(v - objs[k]) <= tol, name + ":value",
                  lambda: f"{a[i]} evaluates to {got}, the solver says "
                  f"{objs[k]}")
        run.check(v <= prev + tol, name + ":order",
                  "not from the most violating to the least")
        prev = v
    if nxt is not None:
        run.check(nxt.shape == adv.shape, name + ":successor-count",
                  f"{tuple(nxt.shape)} successors")
        for i in range(len(want)):
            run.check(succ_ok(S.p, a[i], nxt[i].detach().numpy()),
                      name + ":successor",
                      lambda: f"{nxt[i]} is not the successor of {a[i]}")


def succ_ok(p, x, xn, tolx=1e-5):
    for ops, v in B.all_pieces(p.f, np.clip(x, p.x_lo, p.x_up), 2e-6):
        if np.all(np.abs(v[0] @ x + v[1] - xn) <= tolx * (1 + np.abs(xn))):
            return True
    return False


def cluster_model(states, radius):
    s = states.detach().numpy()
    keep = [i for i in range(len(s))
            if i == 0 or float(np.sum((s[i] - s[i - 1])**2)) > radius**2]
    return states[keep]


class FakeModel:
    """A solver in the middle of optimize(), telling what the history says.

    Like Gurobi it answers cbGet only with the codes of the current event."""

    def __init__(self):
        self.where, self.data, self.stopped = None, {}, 0

    def cbGet(self, what):
        import gurobipy
        if what not in self.data:
            raise gurobipy.GurobiError(10010, "not available here")
        return self.data[what]

    def terminate(self):
        self.stopped += 1


def termination(run):
    """The early-stop callback over a random history of solver events."""
    import gurobipy
    from neural_network_lyapunov import utils
    ch = run.ch
    run.scenario = "termination"
    CB, St = gurobipy.GRB.Callback, gurobipy.GRB.Status
    if ch.flip("default threshold", 0.4):
        thr, cb = 0., utils.get_gurobi_terminate_if_callback()
    else:
        thr = [0., 1e-6, 0.3, -0.2, 5.][ch.choose("threshold", 5)]
        cb = utils.get_gurobi_terminate_if_callback(threshold=thr)
    m = FakeModel()
    best, cnt, wanted = -1e100, 0, 0
    for k in range(4 + ch.choose("events", 12)):
        if ch.flip("improve", 0.35):
            base = ch.real("objective") * 2 - 1
            best = max(best, [thr, thr + 1e-9, thr - 1e-9, base, thr + base][
                ch.choose("incumbent", 5)])
            cnt += 1
        bnd = max(best, thr + 2 * ch.real("bound"))
        stat = [St.OPTIMAL, St.CUTOFF, St.INFEASIBLE, St.UNBOUNDED][
            ch.choose("node status", 4) if ch.flip("bad node", 0.3) else 0]
        ev = ch.choose("event", 6)
        m.where, m.data = [
            (CB.MIPNODE, {CB.MIPNODE_STATUS: stat, CB.MIPNODE_OBJBST: best,
                          CB.MIPNODE_OBJBND: bnd, CB.MIPNODE_SOLCNT: cnt,
                          CB.MIPNODE_NODCNT: float(k), CB.RUNTIME: 0.1}),
            (CB.MIPSOL, {CB.MIPSOL_OBJ: best, CB.MIPSOL_OBJBST: best,
                         CB.MIPSOL_OBJBND: bnd, CB.MIPSOL_SOLCNT: cnt}),
            (CB.MIP, {CB.MIP_OBJBST: best, CB.MIP_OBJBND: bnd,
                      CB.MIP_SOLCNT: cnt}),
            (CB.POLLING, {}), (CB.PRESOLVE, {}), (CB.MESSAGE, {})][
                0 if ev == 0 or ch.flip("node", 0.4) else ev]
        before = m.stopped
        cb(m, m.where)
        found = cnt > 0 and best > thr
        run.check(m.stopped == before or found, "termination:without",
                  lambda: f"stopped the solver at threshold {thr} although "
                  f"its best solution is {best if cnt else None}")
        if m.where == CB.MIPNODE and stat == St.OPTIMAL and found:
            wanted += 1
            run.check(m.stopped > before, "termination:missed",
                      lambda: f"the solver has a solution of {best} > {thr} "
                      "and is not stopped")
            run.note("probe:terminated")
    run.mark(k, thr, wanted, cnt)


def scenario(run):
    from gurobipy import hooks
    ch = run.ch
    if ch.flip("termination", 0.06):
        return termination(run)
    faults = ch.flip("faults", 0.35)
    kind = ch.choose("shape", 4)
    adversarial = kind >= 2
    S = SS.make(run, faults=faults, pools=True, methods="ia",
                easy=ch.flip("easy", 0.25), adversarial=adversarial)
    hooks.chooser = ch
    hooks.note_counts = run.counts
    pol = dict(tie_break=0.3, callback_incumbents=True, inf_or_unbd=0.)
    if faults:
        pol.update(interrupt=0.2, limit=0.3, suboptimal=0.1)
    hooks.policy = pol
    w = SS.Watch(S)
    tr = S.t
    try:
        if kind == 0:
            run.scenario = "call"
            for _ in range(1 + ch.choose("calls", 2)):
                call(run, S, w)
        elif kind == 1:
            run.scenario = "plain"
            plain(run, S, w)
        else:
            run.scenario = "adversarial"
            adversarial_history(run, S, w)
    except Exception as e:
        from dst.core import Violation
        if isinstance(e, Violation):
            raise
        from dst.props.c01 import SS_infeasible, faulty as f1
        if f1(run) or SS.membership_roundoff(S, e) or SS_infeasible(w):
            run.note("probe:error-after-fault")
            run.mark("error", type(e).__name__)
            return
        raise
    assert tr


def call(run, S, w):
    tr = S.t
    _, obj, adv = tr.solve_positivity_mip()
    judge_call(run, S, "positivity", w, adv, None,
               tr.lyapunov_positivity_mip_pool_solutions)
    _, obj, adv, nxt = tr.solve_lyap_derivative_mip()
    judge_call(run, S, "derivative", w, adv, nxt,
               tr.lyapunov_derivative_mip_pool_solutions)
    if tr.lyapunov_positivity_mip_warmstart:
        run.check(tr.lyapunov_positivity_last_x_adv is not None, "warm:lost")


def plain(run, S, w):
    """train(): pools through total_loss."""
    tr = S.t
    orig_total, orig_sample = tr.total_loss, tr.lyapunov_sample_loss
    orig_p, orig_d = tr.solve_positivity_mip, tr.solve_lyap_derivative_mip
    calls = []
    it = [0]
    state = dict(p=S.samples.clone(), d=S.samples.clone())

    def solve_p():
        r = orig_p()
        judge_call(run, S, "positivity", w, r[2], None,
                   tr.lyapunov_positivity_mip_pool_solutions)
        state["adv_p"] = r[2]
        return r

    def solve_d():
        r = orig_d()
        judge_call(run, S, "derivative", w, r[2], r[3],
                   tr.lyapunov_derivative_mip_pool_solutions)
        state["adv_d"], state["adv_n"] = r[2], r[3]
        return r

    def sample_loss(ps, ds, ns, *a, **k):
        calls.append((ps, ds, ns))
        return orig_sample(ps, ds, ns, *a, **k)

    def total(ps, ds, ns, *a, **k):
        it[0] += 1
        run.check(same(ps, state["p"]), "plain:positivity-pool",
                  lambda: f"iteration {it[0]}: pool {rows(ps)} expected "
                  f"{rows(state['p'])}")
        run.check(same(ds, state["d"]), "plain:derivative-pool",
                  lambda: f"iteration {it[0]}: pool {rows(ds)} expected "
                  f"{rows(state['d'])}")
        run.check(ns.shape == ds.shape, "plain:next-shape", "shape")
        for i in range(ds.shape[0]):
            x = ds[i].detach().numpy()
            run.check(succ_ok(S.p, x, ns[i].detach().numpy()),
                      "plain:successor",
                      lambda: f"iteration {it[0]}: stored successor of {x} is "
                      f"{ns[i]}")
        del calls[:]
        out = orig_total(ps, ds, ns, *a, **k)
        p2, d2, n2 = state["p"], state["d"], ns
        if tr.add_positivity_adversarial_state:
            p2 = torch.cat((p2, state["adv_p"]))
        if tr.add_derivative_adversarial_state:
            d2 = torch.cat((d2, state["adv_d"]))
            n2 = torch.cat((n2, state["adv_n"]))
        L = out.lyap_loss
        run.check(same(L.positivity_state_samples, p2), "plain:grow-p",
                  lambda: f"{rows(L.positivity_state_samples)} expected "
                  f"{rows(p2)}")
        run.check(same(L.derivative_state_samples, d2), "plain:grow-d",
                  lambda: f"{rows(L.derivative_state_samples)} expected "
                  f"{rows(d2)}")
        run.check(same(L.derivative_state_samples_next, n2), "plain:grow-n",
                  "successor pool")
        N = tr.max_sample_pool_size
        for got, full, nm in zip(calls[-1] if calls else (), (p2, d2, n2),
                                 "pdn"):
            run.check(same(got, full[max(0, len(full) - N):]),
                      "plain:recent-" + nm,
                      lambda: f"the loss uses {rows(got)}, the most recent "
                      f"{N} of {rows(full)} were expected")
        if len(p2) > N or len(d2) > N:
            run.note("probe:pool-truncated")
        state["p"], state["d"] = p2.detach(), d2.detach()
        return out
    tr.total_loss, tr.lyapunov_sample_loss = total, sample_loss
    tr.solve_positivity_mip, tr.solve_lyap_derivative_mip = solve_p, solve_d
    tr.train(S.samples)
    run.mark("iterations", it[0])
    run.check(it[0] >= 1, "plain:no-iteration", "train() never verified")


def adversarial_history(run, S, w):
    tr, ch = S.t, run.ch
    o = SS.options(run)
    if S.p.kind not in ("hybrid", "fb_hybrid") and ch.flip("perturb", 0.3):
        o.perturb_derivative_sample_count = 1 + ch.choose("perturb.n", 2)
        o.perturb_derivative_sample_std = [1e-3, 1e-2][ch.choose(
            "perturb.std", 2)]
    r = ch.rngstate("init")
    k = 1 + ch.choose("n_init", 6)
    ps = B.t(r.uniform(S.p.x_lo, S.p.x_up, size=(k, S.p.dim)))
    ds = B.t(r.uniform(S.p.x_lo, S.p.x_up,
                       size=(1 + ch.choose("n_init_d", 6), S.p.dim)))
    st = dict(p=ps.clone(), d=ds.clone(), fresh=False, it=0)
    orig_sample = tr.lyapunov_sample_loss
    orig_p, orig_d = tr.solve_positivity_mip, tr.solve_lyap_derivative_mip

    def solve_p():
        r_ = orig_p()
        judge_call(run, S, "positivity", w, r_[2], None,
                   tr.lyapunov_positivity_mip_pool_solutions)
        a = r_[2]
        if not np.isinf(o.adversarial_cluster_radius):
            a2 = cluster_model(a, o.adversarial_cluster_radius)
            if len(a2) < len(a):
                run.note("probe:clustered")
            a = a2
        st["p"] = torch.cat((st["p"], a))[-o.positivity_samples_pool_size:]
        return r_

    def solve_d():
        st["it"] += 1
        r_ = orig_d()
        judge_call(run, S, "derivative", w, r_[2], r_[3],
                   tr.lyapunov_derivative_mip_pool_solutions)
        a = r_[2]
        if not np.isinf(o.adversarial_cluster_radius):
            a = cluster_model(a, o.adversarial_cluster_radius)
        st["adv"] = a
        st["fresh"] = True
        return r_

    def expect_d(got, where):
        """The derivative pool, allowing for the random perturbations."""
        n, m = len(st["adv"]), o.perturb_derivative_sample_count
        full = torch.cat((st["d"], st["adv"]) + (st["adv"], ) * m)
        N = o.derivative_samples_pool_size
        exp = full[-N:] if len(full) > N else full
        run.check(got.shape == exp.shape, "adv:derivative-pool",
                  lambda: f"{where}: {rows(got)} expected {rows(exp)}")
        exact = max(0, len(exp) - n * m)
        run.check(same(got[:exact], exp[:exact]), "adv:derivative-pool",
                  lambda: f"{where}: {rows(got)} expected {rows(exp)}")
        if n * m:
            run.note("probe:perturbed")
            d = (got[exact:] - exp[exact:]).detach().abs().max().item() \
                if len(exp) > exact else 0.
            run.check(d <= 10 * o.perturb_derivative_sample_std,
                      "adv:perturbation", f"perturbed by {d}")
        st["d"] = got.detach().clone()

    def sample_loss(p_, d_, n_, *a, **k_):
        if st["fresh"]:
            # the first evaluation after verification sees the whole pools
            st["fresh"] = False
            run.check(same(p_, st["p"]), "adv:positivity-pool",
                      lambda: f"iteration {st['it']}: {rows(p_)} expected "
                      f"{rows(st['p'])}")
            expect_d(d_, f"iteration {st['it']}")
            if len(st["p"]) == o.positivity_samples_pool_size:
                run.note("probe:pool-full")
        known_p, known_d = set(rows(st["p"])), set(rows(st["d"]))
        run.check(set(rows(p_)) <= known_p, "adv:batch-p",
                  "a batch contains a state that is not in the pool")
        run.check(set(rows(d_)) <= known_d, "adv:batch-d",
                  "a batch contains a state that is not in the pool")
        for i in range(d_.shape[0]):
            run.check(in_modes(S, d_[i]) or succ_ok(
                S.p, d_[i].detach().numpy(), n_[i].detach().numpy()),
                "adv:successor", lambda: f"successor of {d_[i]} is {n_[i]}")
        return orig_sample(p_, d_, n_, *a, **k_)
    tr.lyapunov_sample_loss = sample_loss
    tr.solve_positivity_mip, tr.solve_lyap_derivative_mip = solve_p, solve_d
    ret = tr.train_adversarial(ps, ds, o)
    run.mark("iterations", st["it"], bool(ret[0]))
    run.note("probe:histories")
    run.check(same(ret[1], st["p"]), "adv:returned-p",
              lambda: f"{rows(ret[1])} expected {rows(st['p'])}")
    if st["fresh"]:
        expect_d(ret[2], "returned")
    else:
        run.check(same(ret[2], st["d"]), "adv:returned-d",
                  lambda: f"{rows(ret[2])} expected {rows(st['d'])}")
    if not ret[0]:
        for k_, n in ((3, len(ret[1])), (4, len(ret[2]))):
            run.check(ret[k_].shape == (n, ), "adv:repetition",
                      f"{tuple(ret[k_].shape)} for {n} samples")


def in_modes(S, x):
    """Perturbed states may lie outside the modelled box."""
    x = x.detach().numpy()
    return bool(np.any(x < S.p.x_lo - 1e-6) or np.any(x > S.p.x_up + 1e-6))
