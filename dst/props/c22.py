"""C22: a simulated hopper obeys its model at every event.

The spring-loaded inverted pendulum is a hybrid system: ballistic flight, spring
stance, events that switch between them.  Random robots, terrains and gaits are
hopped through SLIP.simulate, apex_map, the gradient chain and the stepping
stone linearisation, with the integrator behind a seam: it may take any step
pattern or method, or give up in the middle.  A second model (a point mass in
Cartesian coordinates, integrated tightly) says where each event happens.
"""
import math

import numpy as np

ID = "C22"
LEVEL = "exploration"
RUNS = dict(quick=2500, thorough=100000)
RULE = ("one case = one robot (mass, leg, spring, gravity) with a gait of one "
        "to four leg angles, or one apex state with its gradients, or one set "
        "of stepping stones; non-trivial when at least one event was judged; "
        "distinct by scenario, outcome of each phase, integrator behaviour")
REAL = ["spring_loaded_inverted_pendulum.py", "slip_hybrid_linear_system.py",
        "scipy's integrators"]
STUBS = ["the choice of steps and method, and failures, of the integrator"]
ASSUMPTIONS = [
    "the integrator keeps to its stated tolerance (rtol 1e-8, atol 1e-6)",
    "the spring is stiff enough that the leg is never fully compressed"]


def preload():
    import neural_network_lyapunov.slip_hybrid_linear_system  # noqa
    import scipy.integrate  # noqa


# ---------------------------------------------------------------------------
# the integrator behind its seam
def install(run, fail):
    import scipy.integrate as si
    import neural_network_lyapunov.spring_loaded_inverted_pendulum as mod
    real = si.solve_ivp
    ch = run.ch
    state = dict(failed=False, calls=0)

    def solve_ivp(fun, t_span, y0, *a, **kw):
        state["calls"] += 1
        how = ch.choose("ode.steps", 4)
        if how and not a and "method" not in kw:
            kw = dict(kw)
            if how == 1:
                kw["max_step"] = ch.pick("ode.max", [0.02, 0.005])
            elif how == 2:
                kw["method"] = "DOP853"
            else:
                kw["first_step"] = 1e-4
            run.note(f"integrator-{['', 'small-steps', 'method', 'first-step'][how]}")
        sol = real(fun, t_span, y0, *a, **kw)
        if ch.flip("ode.fail", fail):
            n = len(sol.t)
            k = max(1, n // 2)
            sol.t, sol.y = sol.t[:k], sol.y[:, :k]
            if sol.t_events is not None:
                sol.t_events = [np.array([]) for _ in sol.t_events]
                sol.y_events = [np.array([]) for _ in sol.t_events]
            sol.status, sol.success = -1, False
            sol.message = "Required step size is less than spacing between numbers."
            state["failed"] = True
            run.note("integrator-gave-up")
        return sol

    mod.solve_ivp = solve_ivp
    return state


# ---------------------------------------------------------------------------
# the second model
class Ref:
    """point mass, massless springy leg, Cartesian coordinates"""
    def __init__(self, m, l0, k, g):
        self.m, self.l0, self.k, self.g = m, l0, k, g

    def energy(self, x, y, vx, vy, comp=0.):
        return .5 * self.m * (vx * vx + vy * vy) + self.m * self.g * y \
            + .5 * self.k * comp ** 2

    def fall(self, y, vy, h):
        """time until height h is crossed from above, None if never"""
        d = vy * vy + 2 * self.g * (y - h)
        if d < 0:
            return None
        t = (vy + math.sqrt(d)) / self.g
        return t if t >= 0 else None

    def stance(self, x, y, vx, vy, theta):
        """from touchdown to liftoff: ("lift", t, x, y, vx, vy), ("ground", t)
        or None when it cannot be said"""
        from scipy.integrate import solve_ivp
        fx, fy = x + self.l0 * math.sin(theta), y - self.l0 * math.cos(theta)
        w = self.k / self.m

        def f(t, s):
            dx, dy = s[0] - fx, s[1] - fy
            r = math.hypot(dx, dy)
            a = w * (self.l0 - r) / r
            return [s[2], s[3], a * dx, a * dy - self.g]

        def lift(t, s):
            return math.hypot(s[0] - fx, s[1] - fy) - self.l0
        lift.terminal, lift.direction = True, 1

        def ground(t, s):
            return s[1] - fy
        ground.terminal, ground.direction = True, -1
        if ((x - fx) * vx + (y - fy) * vy) / self.l0 \
                > -.2 * math.sqrt(self.g * self.l0):
            # hardly compressing: one step of the integrator may pass over
            # the whole contact
            return None
        sol = solve_ivp(f, (0, 60.), [x, y, vx, vy], events=[lift, ground],
                        method="DOP853", rtol=1e-11, atol=1e-12)
        if sol.status != 1:
            return None
        s = sol.y[:, -1]
        if len(sol.t_events[0]):
            if s[1] - fy < 1e-2 * self.l0:
                return None
            out = ((s[0] - fx) * s[2] + (s[1] - fy) * s[3]) / self.l0
            if out < 1e-2:
                return None  # grazing: the event is ill conditioned
            return ("lift", float(sol.t[-1]), *[float(v) for v in s])
        return ("ground", float(sol.t[-1]))

    def apex(self, px, h, vx, theta):
        """("apex", px', h', vx', t, pre-touchdown state, post-liftoff state),
        ("none", why) or None"""
        d = h - self.l0 * math.cos(theta)
        if abs(d) < 1e-6:
            return None
        if d < 0:
            return ("none", "foot below the ground")
        t0 = math.sqrt(2 * d / self.g)
        td = (px + vx * t0, self.l0 * math.cos(theta), vx, -self.g * t0)
        s = self.stance(*td, theta)
        if s is None:
            return None
        if s[0] == "ground":
            return ("none", "fell")
        _, t1, x, y, vx1, vy1 = s
        if abs(vy1) < 1e-2:
            return None
        if vy1 < 0:
            return ("none", "descending at liftoff")
        t2 = vy1 / self.g
        return ("apex", x + vx1 * t2, y + vy1 * t2 / 2, vx1, t0 + t1 + t2, td,
                (x, y, vx1, vy1))


def robot(run):
    ch = run.ch
    import neural_network_lyapunov.spring_loaded_inverted_pendulum as mod
    m = ch.pick("mass", [80., 1., 3.])
    l0 = ch.pick("l0", [1., .5, 1.7])
    g = ch.pick("g", [9.81, 1.62, 15.])
    k = (10.7 + 25. * ch.real("k")) * m * g / l0
    return (m, l0, k, g), mod.SLIP(m, l0, k, g), Ref(m, l0, k, g)


def gait(run, r, n):
    """leg angles, apex state; most of them hop"""
    ch = run.ch
    back = ch.flip("backwards", .3)
    sg = -1. if back else 1.
    th = [sg * (.05 + .75 * ch.real("theta")) for _ in range(n)]
    if ch.flip("vertical", .1):
        th = [0.] * n
    if ch.flip("leaning", .2):
        # close to the ground, with or against the motion: most of these fall
        lean = ch.pick("lean", [1., -1.])
        th[0] = lean * sg * (.8 + .7 * ch.real("theta"))
    fr = math.sqrt(r.g * r.l0)
    vx = sg * fr * ch.pick("vmin", [.1, 0.]) + 2. * sg * fr * ch.real("vx") ** 2
    vx = 0. if th[0] == 0 else vx
    h = r.l0 * (math.cos(th[0]) + .02 + .8 * ch.real("h") ** 2)
    px = 4. * ch.real("px") - 2.
    return th, px, h, vx


def near(run, key, got, want, scale, what, tol=1e-4):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    run.nontrivial = True
    run.check(got.shape == want.shape and np.all(np.isfinite(got))
              and np.all(np.abs(got - want) <= tol * (scale + np.abs(want))),
              key, lambda: f"{what}: {got.tolist()} instead of {want.tolist()}")


# ---------------------------------------------------------------------------
def hop(run):
    run.scenario = "hop"
    ch = run.ch
    par, dut, ref = robot(run)
    n = ch.int("steps", 1, 4)
    th, px, h, vx = gait(run, ref, n)
    vy = 0.
    if ch.flip("rising", .3):
        vy = 2. * ch.real("vy") * math.sqrt(ref.g * ref.l0)
    st = install(run, ch.pick("fail", [0., 0., .15]))
    run.sample = dict(par=par, angles=th, x0=[px, h, vx, vy])
    run.nontrivial = False
    x0 = np.array([px, h, vx, vy])
    keep = x0.copy(), list(th)
    sols = dut.simulate(x0, th)
    run.check(np.array_equal(x0, keep[0]) and th == keep[1], "hop:arguments",
              "the initial state or the leg angles were changed")
    L, V = ref.l0, math.sqrt(ref.g * ref.l0)
    sc = np.array([L, L, V, V])
    E = ref.energy(px, h, vx, vy)
    run.check(1 <= len(sols) <= 2 * n, "hop:phases", lambda: f"{len(sols)}")
    t, s = 0., (px, h, vx, vy)
    i = 0
    for step in range(n):
        if s[1] <= L * math.cos(th[step]) + 1e-9:
            if abs(s[1] - L * math.cos(th[step])) < 1e-4 * L:
                run.mark("grazing")
                return
            run.check(i == len(sols), "hop:foot-in-ground", lambda: "the "
                      f"hopper goes on at step {step} with the foot below the "
                      f"ground (apex {s[1]}, needs {L * math.cos(th[step])})")
            run.mark("too-low")
            return
        run.check(i < len(sols), "hop:stopped", lambda: f"the simulation ended "
                  f"after {i} phases, step {step} of {n} can still be taken")
        fl = sols[i]
        i += 1
        run.sim_time += float(fl.t[-1] - fl.t[0])
        near(run, "hop:flight-start", fl.y[:, 0], s, sc, f"start of flight {step}", 5e-4)
        near(run, "hop:flight-clock", fl.t[0], t, math.sqrt(L / ref.g), "time", 5e-4)
        run.check(np.all(np.diff(fl.t) > 0), "hop:clock", "flight time not "
                  "increasing")
        for k in range(len(fl.t)):
            dt = fl.t[k] - fl.t[0]
            a = fl.y[:, 0]
            near(run, "hop:ballistic", fl.y[:, k],
                 [a[0] + a[2] * dt, a[1] + a[3] * dt - ref.g / 2 * dt * dt,
                  a[2], a[3] - ref.g * dt], sc, f"flight {step} at {dt}")
        T = ref.fall(s[1], s[3], L * math.cos(th[step]))
        if fl.status != 1 or T > 9.99:
            run.check(i == len(sols), "hop:phantom-touchdown", lambda: "flight "
                      f"{step} never reached the ground (integrator: "
                      f"{fl.message}), yet a stance phase follows")
            run.mark("no-touchdown")
            return
        near(run, "hop:touchdown-time", fl.t[-1] - fl.t[0], T,
             math.sqrt(L / ref.g), f"touchdown of step {step}", 5e-4)
        td = fl.y[:, -1]
        run.check(abs(td[1] - L * math.cos(th[step])) <= 1e-6 * L and td[3] < 0,
                  "hop:touchdown-guard", lambda: f"touchdown at {td} with leg "
                  f"angle {th[step]}")
        run.check(i < len(sols), "hop:no-stance", "no stance after touchdown")
        sa = sols[i]
        i += 1
        run.sim_time += float(sa.t[-1] - sa.t[0])
        near(run, "hop:stance-clock", sa.t[0], fl.t[-1], math.sqrt(L / ref.g),
             "stance starts at touchdown", 1e-9)
        # a leg that is not compressed at touchdown lifts off at once
        run.check(np.all(np.diff(sa.t) >= 0), "hop:clock", "stance time runs "
                  "backwards")
        r, q, rd, qd, foot = sa.y
        # back to Cartesian, for every point the integrator reports
        c = np.array([foot - r * np.sin(q), r * np.cos(q),
                      -rd * np.sin(q) - r * qd * np.cos(q),
                      rd * np.cos(q) - r * qd * np.sin(q)])
        near(run, "hop:impact", c[:, 0], td, sc, f"impact of step {step}", 1e-9)
        near(run, "hop:foot", foot, np.full(len(foot), td[0] + L * math.sin(th[step])),
             L, "the foot moves in stance", 1e-9)
        for k in range(len(sa.t)):
            e = ref.energy(*c[:, k], comp=L - r[k])
            near(run, "hop:energy", e, E, ref.m * ref.g * L, "total energy "
                 f"in stance {step}", 2e-4)
        out = ref.stance(*td, th[step])
        if out is None:
            run.mark("unclear")
            return
        if sa.status != 1:
            run.check(i == len(sols), "hop:phantom-liftoff", lambda: "stance "
                      f"{step} ended without lift-off (integrator: "
                      f"{sa.message}), yet the hopper flies on")
            run.mark("no-liftoff")
            return
        near(run, "hop:stance-time", sa.t[-1] - sa.t[0], out[1],
             math.sqrt(L / ref.g), f"end of stance {step}", 5e-4)
        run.mark(out[0], round(4 * th[step]), round(fl.y[2, 0]), len(sa.t) // 8)
        if out[0] == "ground":
            run.check(i == len(sols), "hop:fell", "the hopper fell, yet the "
                      "simulation goes on")
            return
        near(run, "hop:liftoff", c[:, -1], out[2:], sc, f"liftoff of step {step}", 5e-4)
        run.check(abs(r[-1] - L) <= 1e-6 * L and rd[-1] > 0, "hop:liftoff-guard",
                  lambda: f"liftoff with leg {r[-1]}, rate {rd[-1]}")
        if abs(out[5]) < 1e-2 * V:
            run.mark("level")
            return
        if out[5] < 0:
            run.check(i == len(sols) or step == n - 1, "hop:past-apex",
                      lambda: "at lift-off the hopper descends, there is no "
                      f"next apex, yet flight {step + 1} starts at time "
                      f"{sols[i].t[0]}, lift-off was at {sa.t[-1]}")
            run.mark("descending")
            return
        up = c[3, -1] / ref.g
        t = sa.t[-1] + up
        s = (c[0, -1] + c[2, -1] * up, c[1, -1] + c[3, -1] * up / 2, c[2, -1], 0.)
        if step + 1 < n:
            a = dut.apex_map(fl.y[0, 0], fl.y[1, 0], fl.y[2, 0], th[step]) \
                if abs(fl.y[3, 0]) < 1e-12 else (None,)
            if a[0] is not None:
                near(run, "hop:agrees-with-map", a,
                     [s[0], s[1], s[2], t - fl.t[0]],
                     np.array([L, L, V, math.sqrt(L / ref.g)]),
                     "apex map against the simulation", 5e-4)
    run.check(i == len(sols), "hop:phases", lambda: f"{len(sols)} phases for "
              f"{n} leg angles")


def return_map(run):
    """the apex map repeated along a gait"""
    run.scenario = "apex-map"
    ch = run.ch
    par, dut, ref = robot(run)
    n = ch.int("steps", 1, 3)
    th, px, h, vx = gait(run, ref, n)
    if ch.flip("low", .1):
        h = ref.l0 * math.cos(th[0]) * (.7 + .25 * ch.real("low"))
    st = install(run, ch.pick("fail", [0., 0., .2]))
    run.sample = dict(par=par, angles=th, apex=[px, h, vx])
    run.nontrivial = False
    L, V = ref.l0, math.sqrt(ref.g * ref.l0)
    sc = np.array([L, L, V, math.sqrt(L / ref.g)])
    for q in th:
        want = ref.apex(px, h, vx, q)
        st["failed"] = False
        got = dut.apex_map(px, h, vx, q)
        if want is None:
            run.mark("unclear")
            return
        none = all(v is None for v in got)
        run.check(none or all(v is not None for v in got), "map:partial",
                  lambda: f"{got}")
        mixed = vx * q < 0
        run.mark(want[0], mixed, st["failed"], none, round(4 * q), round(vx))
        if mixed:
            # the leg swings against the motion: the map may decline
            if none:
                return
        run.nontrivial = True
        if want[0] == "none":
            run.check(none, "map:unreachable", lambda: f"the next apex cannot "
                      f"be reached ({want[1]}), the map says {got}")
            return
        if st["failed"]:
            run.check(none, "map:phantom", lambda: "the integrator gave up in "
                      f"stance, the map says {got}")
            return
        run.check(not none, "map:declined", lambda: f"the next apex "
                  f"{want[1:5]} is reached, the map says it is not")
        near(run, "map:value", got, want[1:5], sc, f"apex map from "
             f"{(px, h, vx)} with leg angle {q}", 5e-4)
        run.sim_time += float(got[3])
        e0 = ref.energy(px, h, vx, 0.)
        px, h, vx = float(got[0]), float(got[1]), float(got[2])
        near(run, "map:energy", ref.energy(px, h, vx, 0.), e0,
             ref.m * ref.g * L, "energy over a step", 5e-4)


def differences(f, v, scale):
    """derivative of the reference, or None where it is not settled"""
    v = np.asarray(v, dtype=float)
    cols = []
    for j in range(len(v)):
        ds = []
        for e in (1e-4, 2e-4):
            d = np.zeros(len(v))
            d[j] = e * scale[j]
            a, b = f(v + d), f(v - d)
            if a is None or b is None:
                return None
            ds.append((a - b) / (2 * d[j]))
        cols.append((4 * ds[0] - ds[1]) / 3)
        if np.max(np.abs(ds[0] - ds[1])) > 1e-3 * (1. + np.max(np.abs(ds[0]))):
            return None
    return np.array(cols).T


def n_steps(st):
    return st["calls"]


def out_vector(ref, v):
    a = ref.apex(v[0], v[1], v[2], v[3])
    if a is None or a[0] != "apex":
        return None
    return np.array(list(a[1:5]) + list(a[5]) + list(a[6]))


def gradients(run):
    run.scenario = "gradients"
    ch = run.ch
    par, dut, ref = robot(run)
    th, px, h, vx = gait(run, ref, 1)
    q = th[0]
    if ch.flip("low", .1):
        h = ref.l0 * math.cos(q) * (.7 + .25 * ch.real("low"))
    st = install(run, ch.pick("fail", [0., 0., .2]))
    run.sample = dict(par=par, angle=q, apex=[px, h, vx])
    run.nontrivial = False
    want = ref.apex(px, h, vx, q)
    got = dut.apex_to_apex_gradient(np.array([px, h, vx]), q)
    none = all(v is None for v in got)
    run.check(none or all(v is not None for v in got), "grad:partial",
              lambda: f"{[v is None for v in got]}")
    if want is None:
        run.mark("unclear")
        return
    run.nontrivial = True
    run.mark(want[0], none, st["failed"], round(4 * q), round(vx), n_steps(st))
    gave_up = st["failed"]
    if not gave_up and want[1] != "foot below the ground":
        # the stance phase alone
        t0 = math.sqrt(2 * (h - ref.l0 * math.cos(q)) / ref.g)
        td = (px + vx * t0, ref.l0 * math.cos(q), vx, -ref.g * t0)
        s = ref.stance(*td, q)
        one = dut.touchdown_to_liftoff_gradient(
            dut.touchdown_transition(np.array(td), q))
        up = all(v is not None for v in one)
        if not st["failed"]:
            run.check(up == (s[0] == "lift"), "grad:stance", lambda: "in stance "
                      f"the hopper meets: {s[0]}; lift-off reported: {up}")
    if want[0] == "none":
        run.check(none, "grad:unreachable", lambda: f"no next apex ({want[1]}) "
                  f"but a gradient is returned, next apex {got[2]}")
        return
    if gave_up:
        run.check(none, "grad:phantom", "the integrator gave up in stance, a "
                  "gradient is returned")
        return
    run.check(not none, "grad:declined", "the next apex is reached, no "
              "gradient is returned")
    L, V, T = ref.l0, math.sqrt(ref.g * ref.l0), math.sqrt(ref.l0 / ref.g)
    (A, Bq, xn, ta, tq, tn, pa, pq, xp, la, lq, xl) = [
        np.asarray(v, dtype=float) for v in got]
    osc = np.array([L, L, V, T, L, L, V, V, L, L, V, V])
    val = np.concatenate([xn.reshape(-1), tn.reshape(-1), xp.reshape(-1),
                          xl.reshape(-1)])
    v = np.array([px, h, vx, q])
    near(run, "grad:value", val, out_vector(ref, v), osc,
         "next apex, its time, state before touchdown, state after liftoff", 5e-4)
    run.sim_time += float(tn)
    isc = np.array([L, L, V, 1.])
    J = differences(lambda w: out_vector(ref, w), v, isc)
    if J is None:
        run.mark("stiff")
        return
    G = np.zeros((12, 4))
    G[:3, :3], G[:3, 3] = A, Bq.reshape(-1)
    G[3, :3], G[3, 3] = ta.reshape(-1), tq.reshape(-1)[0]
    G[4:8, :3], G[4:8, 3] = pa, pq.reshape(-1)
    G[8:, :3], G[8:, 3] = la, lq.reshape(-1)
    # in dimensionless units
    Jd, Gd = J * isc / osc[:, None], G * isc / osc[:, None]
    names = ["next x", "next height", "next velocity", "time"] + \
        ["touchdown"] * 4 + ["liftoff"] * 4
    m = 1. + np.max(np.abs(Jd))
    for r in range(12):
        run.check(np.all(np.abs(Jd[r] - Gd[r]) <= 3e-3 * m), "grad:slope",
                  lambda r=r: f"derivative of {names[r]} (row {r}) with respect "
                  f"to apex and leg angle is {G[r].tolist()}, the motion gives "
                  f"{J[r].tolist()}")


def stepping_stones(run):
    run.scenario = "stones"
    ch = run.ch
    import neural_network_lyapunov.slip_hybrid_linear_system as mod
    par, dut, ref = robot(run)
    sysm = mod.SlipHybridLinearSystem(*par)
    th, px, h, vx = gait(run, ref, 1)
    q = th[0]
    L, V, T = ref.l0, math.sqrt(ref.g * ref.l0), math.sqrt(ref.l0 / ref.g)
    n = ch.int("stones", 1, 4)
    want_stones = []
    base = 2. * ch.real("base") - 1.
    z = base + h
    for _ in range(n):
        hh = base + ch.pick("dh", [0., -.3, .2]) * L * ch.real("dh")
        t0 = ref.fall(z, 0., hh + L * math.cos(q))
        mid = px + vx * (t0 or 0.) + L * math.sin(q)
        kind = ch.choose("stone", 5)
        if kind == 0:
            a, b = -np.inf, np.inf
        elif kind == 1:
            a, b = mid - L * (.01 + ch.real("a")), np.inf
        elif kind == 2:
            a, b = -np.inf, mid + L * (.01 + ch.real("b"))
        elif kind == 3:
            a, b = mid - L * (.01 + ch.real("a")), mid + L * (.01 + ch.real("b"))
        else:
            a = mid + L * (.01 + ch.real("a")) * ch.pick("side", [1., -2.])
            b = a + .5 * L * (.02 + ch.real("w"))
        sysm.add_stepping_stone(a, b, hh)
        want_stones.append((a, b, hh))
    run.sample = dict(par=par, angle=q, apex=[px, z, vx], stones=want_stones)
    run.nontrivial = False
    run.check([(s.left, s.right, s.height) for s in sysm.stepping_stones]
              == want_stones, "stones:list", "the terrain is not what was added")
    # time to touchdown, from any flight state
    for s, (a, b, hh) in zip(sysm.stepping_stones, want_stones):
        vy = V * (2. * ch.real("vy") - 1.)
        fs = np.array([px, z, vx, vy])
        got = dut.time_to_touchdown(fs, s, q)
        yes = dut.can_touch_stepping_stone(fs, s, q)
        run.check(bool(yes) == (got is not None), "stones:can-touch",
                  lambda: f"can_touch_stepping_stone says {yes}, the time is {got}")
        foot = z - L * math.cos(q) - hh
        if foot < -1e-9:
            run.check(got is None, "stones:from-below", lambda: "the foot is "
                      f"below the stone, touchdown after {got}")
            continue
        t = ref.fall(z, vy, hh + L * math.cos(q))
        x = px + L * math.sin(q) + vx * t
        if min(abs(x - a), abs(x - b)) < 1e-8 or foot < 1e-9:
            continue
        run.nontrivial = True
        on = a <= x <= b
        run.mark(on, round(4 * q), round(vx))
        run.check((got is not None) == on, "stones:touch", lambda: f"foot lands "
                  f"at {x}, stone is [{a}, {b}], time returned {got}")
        if on:
            near(run, "stones:time", got, t, T, "time to touchdown", 1e-9)
    st = install(run, ch.pick("fail", [0., 0., .2]))
    for s, (a, b, hh) in zip(sysm.stepping_stones, want_stones):
        x = np.array([px, z, vx])
        keep = x.copy()
        st["failed"] = False
        got = sysm.apex_map_linear_approximation(x, s, q)
        run.check(np.array_equal(x, keep), "stones:arguments", "apex changed")
        none = all(v is None for v in got)
        foot = z - L * math.cos(q) - hh
        if foot < 1e-6:
            run.check(none or foot > -1e-6, "stones:foot", "linearised with "
                      "the foot below the stone")
            continue
        t = ref.fall(z, 0., hh + L * math.cos(q))
        fx = px + L * math.sin(q) + vx * t
        if min(abs(fx - a), abs(fx - b)) < 1e-8:
            continue
        want = ref.apex(px, z - hh, vx, q)
        if want is None:
            continue
        ok = a <= fx <= b and want[0] == "apex" and not st["failed"]
        run.nontrivial = True
        run.mark(ok)
        run.check(ok != none, "stones:linearised", lambda: f"lands at {fx} on "
                  f"[{a}, {b}], {want[:2]}, integrator "
                  f"{'failed' if st['failed'] else 'ok'}; linearisation "
                  f"returned: {not none}")
        if not ok:
            continue
        A, Bq, c, at, bt, ct, P, Q = [np.asarray(v, dtype=float) for v in got]
        # exact functions of (apex, angle), heights above the world's zero

        def exact(w):
            r = ref.apex(w[0], w[1] - hh, w[2], w[3])
            if r is None or r[0] != "apex":
                return None
            land = r[5][0] + L * math.sin(w[3])
            o = [r[1], r[2] + hh, r[3], r[4], w[1] - hh - L * math.cos(w[3]),
                 r[6][3]]
            if np.isfinite(a):
                o.append(land - a)
            if np.isfinite(b):
                o.append(b - land)
            return np.array(o)
        v = np.array([px, z, vx, q])
        e = exact(v)
        m = len(e) - 4
        run.check(P.shape == (m, 4) and Q.size == m, "stones:rows", lambda:
                  f"{P.shape}, {Q.shape} for {m} conditions")
        isc = np.array([L, L, V, 1.])
        osc = np.array([L, L, V, T, L, V] + [L] * (m - 2))
        lin = np.vstack([np.hstack([A, Bq.reshape(3, 1)]),
                         np.concatenate([at.reshape(-1), bt.reshape(-1)])[None],
                         -P])
        off = np.concatenate([c.reshape(-1), ct.reshape(-1), Q.reshape(-1)])
        # the offsets add up terms of the size of slope times state
        big = np.max(np.abs(lin) * np.abs(v), axis=1)
        got_v = lin @ v + off
        run.check(np.all(np.abs(got_v - e) <= 5e-4 * (osc + np.abs(e)) + 1e-7 * big),
                  "stones:value", lambda: "at the point of linearisation the "
                  f"model gives {got_v.tolist()}, the motion {e.tolist()}")
        J = differences(exact, v, isc)
        if J is None:
            run.mark("stiff")
            continue
        Jd, Gd = J * isc / osc[:, None], lin * isc / osc[:, None]
        run.check(np.all(np.abs(Jd - Gd) <= 3e-3 * (1. + np.max(np.abs(Jd)))),
                  "stones:slope", lambda: f"slopes {lin.tolist()}, the motion "
                  f"gives {J.tolist()}")


SCENARIOS = [(hop, 4), (return_map, 2), (gradients, 2), (stepping_stones, 2)]


def scenario(run):
    w = [s for s, k in SCENARIOS for _ in range(k)]
    w[run.ch.choose("scenario", len(w))](run)
