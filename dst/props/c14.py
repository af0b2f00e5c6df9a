"""C14: physics data generators under interleaved clients and foreign activity.

Several generators and foreign physics connections share one process.  A seeded
scheduler decides which of them acts next, what foreign connections do to their
own worlds, which are destroyed, and which constructions fail.  Every sample is
compared with an independent simulation in a connection of its own.
"""
import gc
import math
import os
import shutil
import tempfile

import numpy as np
import torch

ID = "C14"
LEVEL = "exploration"
RUNS = dict(quick=900, thorough=40000)
RULE = ("one case = a schedule of operations over 1-3 generators and 0-2 "
        "foreign physics connections; non-trivial when at least one sample "
        "was compared with the reference simulation; distinct by worlds, "
        "operation sequence and image options")
REAL = ["neural_network_lyapunov.pybullet_data_generation",
        "neural_network_lyapunov.worlds", "pybullet (DIRECT, TinyRenderer)"]
STUBS = ["foreign clients (scripted by the scheduler)",
         "reference simulation: plain pybullet calls on a separate connection"]
ASSUMPTIONS = [
    "pybullet is deterministic for equal worlds and call sequences",
    "images are square (the image array layout for other shapes is undefined "
    "in the code: see DESIGN.md)",
    "the other bodies of a world start every transition from the settled "
    "world, as documented by generate_sample"]


def preload():
    import pybullet  # noqa
    import neural_network_lyapunov.pybullet_data_generation  # noqa
    import neural_network_lyapunov.worlds  # noqa


CHAIN = """<?xml version="1.0"?>
<robot name="chain">
<link name="base"><inertial><mass value="0"/><inertia ixx="1" ixy="0" ixz="0"
 iyy="1" iyz="0" izz="1"/></inertial></link>
%s
</robot>
"""
LINK = """<link name="l%d"><inertial><origin xyz="0 0 %g"/><mass value="%g"/>
<inertia ixx="%g" ixy="0" ixz="0" iyy="%g" iyz="0" izz="%g"/></inertial>
<visual><origin xyz="0 0 %g"/><geometry><box size="0.05 0.05 %g"/></geometry>
<material name="m%d"><color rgba="%g %g %g 1"/></material></visual></link>
<joint name="j%d" type="%s"><parent link="%s"/><child link="l%d"/>
<axis xyz="%s"/><origin xyz="%s"/>%s
<dynamics damping="0" friction="0"/></joint>
"""


def chain_urdf(r, n, path):
    parts = []
    for i in range(n):
        length = r.uniform(.2, .5)
        typ = "continuous" if r.rand() < 0.7 else "prismatic"
        axis = ["1 0 0", "0 1 0", "0 0 1"][r.randint(3)]
        if typ == "prismatic":
            lim = '<limit effort="1000" lower="-15" upper="15" velocity="50"/>'
        else:
            lim = ""
        parent = "base" if i == 0 else "l%d" % (i - 1)
        c = r.uniform(0, 1, 3)
        I = r.uniform(.01, .1)
        parts.append(LINK % (i, length / 2, r.uniform(.2, 1.5), I, I, I,
                             length / 2, length, i, c[0], c[1], c[2], i, typ,
                             parent, i, axis, "0 0 %g" %
                             (0 if i == 0 else .3), lim))
    with open(path, "w") as f:
        f.write(CHAIN % "".join(parts))


class Ref:
    """The same physics, simulated independently."""
    def __init__(self, cb, joint, cam, size):
        import pybullet as pb
        from pybullet_utils import bullet_client
        self.c = c = bullet_client.BulletClient(pb.DIRECT)
        c.setGravity(0, 0, -9.8)
        c.setTimeStep(1. / 240.)
        c.setPhysicsEngineParameter(enableFileCaching=0)
        self.view = c.computeViewMatrix(*cam)
        self.proj = c.computeProjectionMatrixFOV(45.0, 1.0, 0.1, 3.1)
        self.size = size
        self.rid = cb(c)
        self.joint = joint
        if joint:
            self.n = c.getNumJoints(self.rid)
            for i in range(self.n):
                c.setJointMotorControl2(self.rid, i, pb.VELOCITY_CONTROL,
                                        force=0)
        for _ in range(120):
            c.stepSimulation()
        self.sid = c.saveState()

    def image(self):
        img = self.c.getCameraImage(width=self.size, height=self.size,
                                    viewMatrix=self.view,
                                    projectionMatrix=self.proj)[2]
        img = np.asarray(img).reshape(self.size, self.size, 4)
        return img[:, :, :3].astype(float).transpose(2, 0, 1)

    def sample(self, x0, k, images=True):
        """k time steps per half; -> next state, 3 images."""
        c = self.c
        c.restoreState(self.sid)
        x0 = [float(v) for v in x0]
        if self.joint:
            for i in range(self.n):
                c.resetJointState(self.rid, i, x0[i], x0[self.n + i])
        else:
            c.resetBasePositionAndOrientation(
                self.rid, x0[:3], c.getQuaternionFromEuler(x0[3:6]))
            c.resetBaseVelocity(self.rid, x0[6:9], x0[9:12])
        ims = [self.image()] if images else []
        for h in range(2):
            for _ in range(k):
                c.stepSimulation()
            if images:
                ims.append(self.image())
        if self.joint:
            q, v = [], []
            for i in range(self.n):
                s = c.getJointState(self.rid, i)
                q.append(s[0])
                v.append(s[1])
            x1 = q + v
        else:
            p, o = c.getBasePositionAndOrientation(self.rid)
            lv, w = c.getBaseVelocity(self.rid)
            x1 = list(p) + list(c.getEulerFromQuaternion(o)) + list(lv) + \
                list(w)
        return np.array(x1), ims

    def close(self):
        self.c.disconnect()


GRAY = np.array([.2989, .5870, .1140])


class World:
    def __init__(self, run, scratch, tag):
        from neural_network_lyapunov import worlds
        ch = run.ch
        kind = ch.pick("world", ["pendulum", "cubes", "chain", "cartpole",
                                 "chain", "table", "box"])
        self.kind = kind
        self.joint = kind in ("pendulum", "chain", "cartpole")
        r = ch.rngstate("world_rng")
        if kind == "pendulum":
            self.cb = worlds.get_load_urdf_callback(
                worlds.urdf_path("pendulum.urdf"))
        elif kind == "cartpole":
            self.cb = worlds.get_load_urdf_callback(
                worlds.urdf_path("cartpole.urdf"))
        elif kind == "cubes":
            self.cb = worlds.get_load_falling_cubes_callback()
        elif kind == "table":
            self.cb = worlds.get_load_cluttered_table_callback()
        elif kind == "box":
            path = worlds.urdf_path("cube_red.urdf")

            def cb(p):
                return p.loadURDF(path, [0, 0, 1])

            self.cb = cb
        else:
            path = os.path.join(scratch, f"chain{tag}.urdf")
            chain_urdf(r, 1 + ch.choose("joints", 4), path)

            def cb(p):
                return p.loadURDF(path, useFixedBase=True)

            self.cb = cb
        self.r = r

    def x0(self, ch, xdim, r):
        s = ch.pick("state_scale", [1., 0.1, 3.])
        if self.joint:
            return r.uniform(-s, s, xdim)
        x = np.zeros(xdim)
        x[:3] = r.uniform(-.3, .3, 3) + np.array([0, 0, .8])
        x[3:6] = r.uniform(-1., 1., 3) * min(1., s)
        x[6:12] = r.uniform(-s, s, 6)
        return x


def scenario(run):
    import pybullet as pb
    from neural_network_lyapunov import pybullet_data_generation as pdg
    ch = run.ch
    run.scenario = "generators"
    scratch = tempfile.mkdtemp(prefix="dst_c14_")
    run.cleanup.append(lambda: shutil.rmtree(scratch, ignore_errors=True))
    gens, foreign = [], []
    run.nontrivial = False
    opsdone = []

    def new_generator():
        w = World(run, scratch, len(gens))
        size = ch.pick("image_size", [8, 12, 16])
        gray = ch.flip("grayscale", 0.4)
        dt_ = torch.float64 if not ch.flip("float32", 0.2) else torch.float32
        cam = [[0, -3, 0], [0, 0, 0], [0, 0, 1]]
        if ch.flip("camera", 0.4):
            cam = [[0.5, -2, .5], [0, 0, .4], [0, 0, 1]]
        nested = ch.flip("callback_opens_connection", 0.1)
        fails = ch.flip("world_callback_fails", 0.1)

        def cb(p):
            if fails:
                run.note("fault:world-callback-failure")
                raise RuntimeError("simulated: world file unreadable")
            if nested:
                run.note("freedom:connection-opened-in-callback")
                foreign.append(pb.connect(pb.DIRECT))
            return w.cb(p)

        try:
            g = pdg.PybulletSampleGenerator(
                cb, w.joint, image_width=size, image_height=size,
                grayscale=gray, camera_eye_position=cam[0],
                camera_target_position=cam[1], camera_up_vector=cam[2],
                dtype=dt_)
        except RuntimeError as e:
            if fails and "simulated" in str(e):
                opsdone.append("fail-new")
                return
            raise
        ref = Ref(w.cb, w.joint, cam, size)
        run.check(g.x_dim == (2 * ref.n if w.joint else 12), "x-dim",
                  f"{g.x_dim}")
        gens.append(dict(g=g, w=w, ref=ref, size=size, gray=gray, dt=dt_,
                         nc=1 if gray else 3))
        opsdone.append("new-" + w.kind)

    def pick_dt():
        k = ch.pick("halfsteps", [1, 2, 6, 12, 3, 123])
        if k == 123 and ch.flip("short", 0.7):
            k = 7
        form = ch.choose("dt_form", 2)
        dt = k / 120. if form == 0 else 2 * k * (1. / 240.)
        return k, dt

    def img(d, a):
        """reference image in the generator's documented form"""
        a = a / 255.
        if d["gray"]:
            a = np.tensordot(GRAY, a, axes=1)[None]
        return np.clip(a, 0, 1)

    def same_state(d, got, want, what, x0, k):
        got = got.detach().numpy().astype(float)
        tol = 1e-7 if d["dt"] == torch.float64 else 2e-4
        contact = d["w"].kind in ("cubes", "table", "box")
        if contact:
            # contact caches are not restored bit for bit by pybullet
            tol = max(tol, 1e-4)
        err = np.abs(got - want)
        scale = 1. + np.abs(want)
        d["chaotic"] = False
        if contact and got.shape == want.shape and np.any(err > tol * scale):
            # how far do equal worlds with nearly equal starts diverge?
            run.note("contact-sensitivity-measured")
            x0 = np.asarray([float(v) for v in x0])
            spread = np.zeros_like(want)
            f = Ref(d["w"].cb, d["w"].joint, [[0, -3, 0], [0, 0, 0],
                                              [0, 0, 1]], d["size"])
            outs = [want]
            for e in (0., 1e-6, -1e-6, 1e-5, -1e-5, 1e-4, -1e-4):
                outs.append(f.sample(x0 + e, k, images=False)[0])
                outs.append(d["ref"].sample(x0 + e, k, images=False)[0])
            f.close()
            spread = np.max(outs, axis=0) - np.min(outs, axis=0)
            if np.max(spread) > 0.02:
                run.note("contact-chaotic-sample-skipped")
                d["chaotic"] = True
                return
            tol = tol + 20 * np.max(spread)
            d["chaotic"] = True
        run.check(got.shape == want.shape and bool(np.all(err <= tol * scale)),
                  what, f"world {d['w'].kind}: {got.tolist()} but the physics "
                  f"gives {want.tolist()}")
        run.nontrivial = True

    def same_img(d, got, want, what):
        if d.get("chaotic"):
            return
        got = got.detach().numpy().astype(float)
        w = img(d, want)
        run.check(got.shape == w.shape and np.mean(
            np.abs(got - w) > 2.5e-2) <= 0.01, what,
            f"world {d['w'].kind} {got.shape} {w.shape} max diff "
            f"{np.abs(got - w).max() if got.shape == w.shape else None}")

    def fresh(d):
        if ch.flip("fresh_reference", 0.2):
            # a world which has no history at all
            d["ref"].close()
            cam = [[0, -3, 0], [0, 0, 0], [0, 0, 1]]
            view, proj = d["ref"].view, d["ref"].proj
            d["ref"] = Ref(d["w"].cb, d["w"].joint, cam, d["size"])
            d["ref"].view, d["ref"].proj = view, proj

    def t64(x, d):
        return torch.tensor(x, dtype=d["dt"])

    def op_sample(d):
        k, dt = pick_dt()
        x0 = d["w"].x0(ch, d["g"].x_dim, d["w"].r)
        x0t = t64(x0, d)
        keep = x0t.clone()
        x1, X, Xn = d["g"].generate_sample(x0t, dt)
        run.check(torch.equal(keep, x0t), "input-modified", "")
        run.sim_time += dt
        fresh(d)
        w1, ims = d["ref"].sample(keep, k)
        same_state(d, x1, w1, "next-state", keep, k)
        run.check(X.shape == (2 * d["nc"], d["size"], d["size"])
                  and x1.dtype == d["dt"] and X.dtype == d["dt"], "layout",
                  f"{X.shape} {x1.dtype}")
        same_img(d, X[:d["nc"]], ims[0], "first-image")
        same_img(d, X[d["nc"]:], ims[1], "half-way-image")
        same_img(d, Xn, ims[2], "next-image")

    def check_rollout(d, xs, Xs, x0, k, dt, N, n_check):
        run.check(xs.shape == (N + 1, d["g"].x_dim) and Xs.shape ==
                  (N + 2, d["nc"], d["size"], d["size"]), "rollout-layout",
                  f"{xs.shape} {Xs.shape}")
        run.check(np.allclose(xs[0].numpy(), np.asarray(x0, dtype=float),
                              atol=1e-6), "rollout-start", "")
        for n in range(N):
            w1, ims = d["ref"].sample(xs[n].double(), k, images=n < n_check)
            same_state(d, xs[n + 1], w1, "rollout-step", xs[n], k)
            if n < n_check:
                if n == 0:
                    same_img(d, Xs[0], ims[0], "rollout-image-0")
                    same_img(d, Xs[1], ims[1], "rollout-image-1")
                same_img(d, Xs[n + 2], ims[2], "rollout-image-next")
            run.sim_time += dt

    def op_rollout(d):
        k, dt = pick_dt()
        N = ch.int("N", 1, 4)
        x0 = t64(d["w"].x0(ch, d["g"].x_dim, d["w"].r), d)
        xs, Xs = d["g"].generate_rollout(x0, dt, N)
        fresh(d)
        check_rollout(d, xs, Xs, x0.numpy(), k, dt, N, 2)

    def op_data_to_rollouts(d):
        k, dt = pick_dt()
        N = ch.int("N", 1, 3)
        m = ch.int("n_start", 1, 3)
        x0 = t64(np.stack([d["w"].x0(ch, d["g"].x_dim, d["w"].r)
                           for _ in range(m)]), d)
        xr, Xr = d["g"].data_to_rollouts(x0, dt, N)
        run.check(len(xr) == m and len(Xr) == m, "rollout-count", "")
        for i in range(m):
            check_rollout(d, xr[i], Xr[i], x0[i].numpy(), k, dt, N, 1)

    def op_dataset(d):
        k, dt = pick_dt()
        N, R = ch.int("N", 1, 3), ch.int("rollouts", 1, 3)
        xd = d["g"].x_dim
        mid = d["w"].x0(ch, xd, d["w"].r)
        wid = d["w"].r.uniform(0, .2, xd)
        lo, up = t64(mid - wid, d), t64(mid + wid, d)
        mean = std = None
        if ch.flip("normal", 0.4):
            mean, std = t64(mid, d), t64(wid * 2., d)
        seed = ch.choose("torch_seed", 1 << 20)
        torch.manual_seed(seed)
        out = d["g"].generate_dataset(lo, up, dt, N, R, mean, std)
        x, xn, X, Xn = out
        nc, s = d["nc"], d["size"]
        run.check(
            x.shape == (N * R, xd) and xn.shape == (N * R, xd)
            and X.shape == (N * R, 2 * nc, s, s) and Xn.shape ==
            (N * R, nc, s, s), "dataset-layout", "")
        starts = []
        for i in range(R):
            for n in range(N):
                j = i * N + n
                if n == 0:
                    run.check(
                        bool(torch.all(x[j] >= lo - 1e-9)
                             & torch.all(x[j] <= up + 1e-9)), "dataset-range",
                        f"{x[j].tolist()}")
                    starts.append(x[j])
                else:
                    run.check(torch.equal(x[j], xn[j - 1]), "dataset-chain",
                              "")
                    run.check(torch.equal(X[j, :nc], X[j - 1, nc:])
                              and torch.equal(X[j, nc:], Xn[j - 1]),
                              "dataset-image-chain", "")
                w1, ims = d["ref"].sample(x[j].double(), k, images=j < 2)
                same_state(d, xn[j], w1, "dataset-next-state", x[j],
                           k)
                if j < 2:
                    same_img(d, Xn[j], ims[2], "dataset-next-image")
                    if n == 0:
                        same_img(d, X[j, :nc], ims[0], "dataset-image-0")
                        same_img(d, X[j, nc:], ims[1], "dataset-image-1")
                run.sim_time += dt
        if R > 1 and np.all(wid > 1e-3) and mean is None:
            run.check(not all(torch.equal(starts[0], b) for b in starts[1:]),
                      "dataset-starts-identical", "")
        # the same seed gives the same data set, whatever happened before
        if ch.flip("repeat_dataset", 0.5):
            foreign_activity()
            torch.manual_seed(seed)
            again = d["g"].generate_dataset(lo, up, dt, N, R, mean, std)
            if d["w"].kind in ("cubes", "table", "box"):
                out, again = [x[::N]], [again[0][::N]]
            for a, b in zip(out, again):
                run.check(torch.allclose(a, b, atol=2e-7 if d["dt"] ==
                                         torch.float64 else 2e-4)
                          if a.dim() == 2 else bool(
                              ((a - b).abs() > 2.5e-2).double().mean() <=
                              0.01), "dataset-not-reproducible",
                          f"max diff {(a-b).abs().max()}")

    def op_postprocess(d):
        # what a user does with the data set: noise and batches
        m = ch.int("rows", 1, 9)
        r = ch.rngstate("rows_rng")
        x = torch.tensor(r.uniform(-2, 2, (m, 3)))
        xn = torch.stack([x[:, 0] * 2, x[:, 1] - 7, x[:, 2] + 11], dim=1)
        bs = ch.int("batch", 1, 4)
        torch.manual_seed(ch.choose("torch_seed", 1 << 20))
        seen = []
        for xb, xnb in pdg.get_dataloader(x, xn, bs):
            run.check(len(xb) <= bs and len(xb) == len(xnb), "batch-size", "")
            seen += [tuple(a.tolist()) + tuple(b.tolist())
                     for a, b in zip(xb, xnb)]
        want = [tuple(a.tolist()) + tuple(b.tolist()) for a, b in zip(x, xn)]
        run.check(sorted(seen) == sorted(want), "loader-pairs",
                  "the loader lost, repeated or re-paired transitions")
        big = torch.tensor(r.uniform(-2, 2, (1500, 3)))
        pct = torch.tensor([0., .1, .5], dtype=torch.float64)
        keep = big.clone()
        noisy = pdg.add_noise(big, pct)
        run.check(torch.equal(big, keep), "noise-modified-input", "")
        run.check(torch.equal(noisy[:, 0], big[:, 0]), "noise-where-none", "")
        rel = (noisy - big).std(dim=0) / big.abs().mean(dim=0)
        run.check(bool(torch.all((rel[1:] / pct[1:] - 1).abs() < .2)),
                  "noise-magnitude", f"{rel} wanted {pct}")

    def foreign_activity():
        if not foreign:
            return
        c = foreign[ch.choose("foreign", len(foreign))]
        a = ch.choose("foreign_action", 6)
        run.note("fault:foreign-" + ["step", "gravity", "reset", "load",
                                     "timestep", "disconnect"][a])
        if a == 0:
            pb.stepSimulation(physicsClientId=c)
        elif a == 1:
            pb.setGravity(1, 2, 3, physicsClientId=c)
        elif a == 2:
            pb.resetSimulation(physicsClientId=c)
        elif a == 3:
            from neural_network_lyapunov import worlds
            pb.loadURDF(worlds.urdf_path("cube_red.urdf"), physicsClientId=c)
        elif a == 4:
            pb.setTimeStep(.01, physicsClientId=c)
        else:
            pb.disconnect(physicsClientId=c)
            foreign.remove(c)

    if ch.flip("foreign_first", 0.4):
        foreign.append(pb.connect(pb.DIRECT))
    new_generator()
    ops = [op_sample, op_rollout, op_dataset, op_data_to_rollouts]
    for step in range(ch.int("n_ops", 2, 7)):
        a = ch.choose("op", 11)
        if a == 10:
            op_postprocess(None)
            opsdone.append("postprocess")
            continue
        if a < 6 and gens:
            d = gens[ch.choose("which", len(gens))]
            f = ops[[0, 1, 2, 0, 3, 2][a]]
            f(d)
            opsdone.append(f.__name__ + "-" + d["w"].kind + str(d["gray"]))
        elif a == 6 and len(gens) < 3:
            new_generator()
        elif a == 7 and len(foreign) < 2:
            foreign.append(pb.connect(pb.DIRECT))
            run.note("freedom:foreign-connection")
        elif a == 8 and len(gens) > 1:
            d = gens.pop(ch.choose("destroy", len(gens)))
            d["ref"].close()
            d["g"] = None
            d.clear()
            gc.collect()
            run.note("fault:generator-destroyed")
            opsdone.append("destroy")
        else:
            foreign_activity()
            opsdone.append("foreign")
        run.event(opsdone[-1])
    run.mark(tuple(opsdone))
    run.sample = dict(ops=list(opsdone))
    for c in foreign:
        try:
            pb.disconnect(physicsClientId=c)
        except pb.error:
            run.check(False, "foreign-connection-closed",
                      "a connection of somebody else was disconnected")
