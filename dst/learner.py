"""Dynamics-learning sessions around a random plant and candidate."""
import numpy as np
import torch

from dst import build as B

D = torch.float64


class Writer:
    """Stands in for tensorboard's SummaryWriter."""
    instances = []
    monitor = None

    def __init__(self, *a, **k):
        self.scalars = []
        Writer.instances.append(self)

    def add_scalar(self, name, value, step=None, *a, **k):
        v = float(value)
        self.scalars.append((name, v, step))
        if Writer.monitor is not None:
            Writer.monitor(self, name, v, step)

    def add_scalars(self, name, values, step=None, *a, **k):
        for key, v in values.items():
            self.add_scalar(name + "/" + key, v, step)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def install_writer():
    """before the repository is imported"""
    import torch.utils.tensorboard as tb
    tb.SummaryWriter = Writer


class Enc(torch.nn.Module):
    def __init__(self, r, z, shape):
        super().__init__()
        n = int(np.prod(shape))
        self.mu = torch.nn.Linear(n, z, dtype=D)
        self.lv = torch.nn.Linear(n, z, dtype=D)
        with torch.no_grad():
            for m in (self.mu, self.lv):
                m.weight.copy_(torch.from_numpy(r.randn(z, n) * 0.3))
                m.bias.copy_(torch.from_numpy(r.randn(z) * 0.2))

    def forward(self, x):
        v = x.reshape((x.shape[0], -1))
        return self.mu(v), self.lv(v)


class Dec(torch.nn.Module):
    def __init__(self, r, z, shape):
        super().__init__()
        self.shape = tuple(shape)
        n = int(np.prod(shape))
        self.l = torch.nn.Linear(z, n, dtype=D)
        with torch.no_grad():
            self.l.weight.copy_(torch.from_numpy(r.randn(n, z) * 0.5))
            self.l.bias.copy_(torch.from_numpy(r.randn(n) * 0.2))

    def forward(self, z):
        return torch.sigmoid(self.l(z)).reshape((z.shape[0], ) + self.shape)


class Order(torch.utils.data.Sampler):
    """The order of each pass over the data, decided by the chooser."""
    def __init__(self, ch, name, n):
        self.ch, self.name, self.n, self.given = ch, name, n, []

    def __len__(self):
        return self.n

    def __iter__(self):
        order = np.arange(self.n)
        self.ch.rngstate(self.name + ".order").shuffle(order)
        self.given.append(order)
        return iter(order.tolist())


class OwnLoader(torch.utils.data.DataLoader):
    """torch's data loader, in an order the chooser decides, recording which
    samples were really handed out."""
    def __init__(self, ch, name, x, xn, batch):
        self.order = Order(ch, name, len(x))
        self.name, self.x, self.xn = name, x, xn
        super().__init__(torch.utils.data.TensorDataset(x, xn),
                         batch_size=batch, sampler=self.order,
                         generator=torch.Generator())
        self.given = []

    def __iter__(self):
        it = super().__iter__()
        self.given.append([])
        return self._passing(it, self.given[-1])

    def _passing(self, it, given):
        done = 0
        for x, xn in it:
            given.append(self.order.given[-1][done:done + len(x)])
            done += len(x)
            yield x, xn


class L:
    pass


OPTS = dict(
    dtype=D, kl_weight_lo=0.1, kl_weight_up=1., kl_weight_center_step=2,
    kl_weight_steps_lo_to_up=4, decoded_equilibrium_loss_weight=0.1)


def make(run, latent=None, max_width=3, freq=None, n_max=6):
    import neural_network_lyapunov.dynamics_learning as dl
    ch = run.ch
    S = L()
    S.latent = ch.flip("latent", 0.3) if latent is None else latent
    S.p = p = B.plant(run, ["relu_eq", "residual_eq"], max_width=max_width)
    S.c = c = B.candidate(run, p, max_width=max_width, max_hidden=1)
    S.s = s = B.lyap_system(p, c, run=run)
    r = ch.rngstate("learner.rng")
    w = [1., 0., 0.5, 3.]
    o = dict(OPTS)
    o.update(
        V_lambda=float(c.lam), R=c.R_t,
        V_eps_pos=float([0.01, 0.1, 0.4][ch.choose("eps2", 3)]),
        V_eps_der_lo=float([0.1, 0.01, 0.4][ch.choose("eps_lo", 3)]),
        V_eps_der_up=float([0.9, 0.1, 1.5][ch.choose("eps_up", 3)]),
        lyap_loss_optimal=not ch.flip("early", 0.35),
        lyap_loss_warmstart=ch.flip("warmstart", 0.4),
        lyap_loss_freq=ch.choose("freq", 3) if freq is None else freq,
        lyap_pos_loss_at_samples_weight=w[ch.choose("w.ps", 4)],
        lyap_der_lo_loss_at_samples_weight=w[ch.choose("w.dls", 4)],
        lyap_der_up_loss_at_samples_weight=w[ch.choose("w.dus", 4)],
        lyap_pos_loss_weight=w[ch.choose("w.p", 4)],
        lyap_der_lo_loss_weight=w[ch.choose("w.dl", 4)],
        lyap_der_up_loss_weight=w[ch.choose("w.du", 4)],
        x_dim=p.dim, x_equilibrium=p.x_eq_t)
    mid, rad = (p.x_lo + p.x_up) / 2, (p.x_up - p.x_lo) / 2
    k = [1., 0.6, 0.1][ch.choose("stable", 3)]
    lo, up = B.t(mid - k * rad), B.t(mid + k * rad)
    n = 1 + ch.choose("n_train", n_max)
    nv = 1 + ch.choose("n_val", n_max)
    batch = 1 + ch.choose("batch", n_max)
    if S.latent:
        S.shape = shape = (2, 2, 3)
        o.update(z_lo_stable=lo, z_up_stable=up, z_dim=p.dim, image_width=2,
                 image_height=3, use_bce=ch.flip("bce", 0.5),
                 use_variational=ch.flip("variational", 0.4))
        S.enc, S.dec = Enc(r, p.dim, shape), Dec(r, p.dim, shape)
        S.X = torch.from_numpy(r.rand(n + nv, *shape))
        ch_next = 1 if ch.flip("next_channels", 0.5) else 2
        S.Xn = torch.from_numpy(r.rand(n + nv, ch_next, 2, 3))
        S.dec_eq = torch.from_numpy(r.rand(*shape)) if ch.flip(
            "dec_eq", 0.5) else None
    else:
        o.update(x_lo_stable=lo, x_up_stable=up)
        S.enc = S.dec = S.dec_eq = None
        S.X = B.t(r.uniform(p.x_lo, p.x_up, size=(n + nv, p.dim)))
        S.Xn = B.t(r.uniform(p.x_lo, p.x_up, size=(n + nv, p.dim)))
    S.n, S.nv, S.batch = n, nv, batch
    S.train = OwnLoader(ch, "train", S.X[:n], S.Xn[:n], batch)
    S.val = OwnLoader(ch, "val", S.X[n:], S.Xn[n:],
                      1 + ch.choose("val_batch", n_max))
    S.opts = o
    S.opt = dl.DynamicsLearningOptions(o)
    S.lo, S.up = lo, up
    S.new = lambda lyap=None: new(S, lyap)
    S.learner = new(S)
    S.cls = type(S.learner)
    run.mark("learner", S.latent, n, nv, batch, o["lyap_loss_freq"],
             o["lyap_loss_optimal"], o["lyap_loss_warmstart"])
    return S


def new(S, lyap=None):
    import neural_network_lyapunov.dynamics_learning as dl
    if S.latent:
        return dl.LatentSpaceDynamicsLearning(
            S.train, S.val, lyap or S.s, S.opt, S.enc, S.dec,
            decoded_equilibrium=S.dec_eq)
    return dl.StateSpaceDynamicsLearning(S.train, S.val, lyap or S.s, S.opt)


def modules_of(learner):
    m = [learner.lyap.lyapunov_relu, learner.lyap.system.dynamics_relu]
    if hasattr(learner, "encoder"):
        m += [learner.encoder, learner.decoder]
    return m


def params_of(learner):
    """A flat snapshot of everything learned."""
    return [q.detach().clone() for m in modules_of(learner)
            for q in m.state_dict().values()]


def same(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and torch.equal(
            torch.nan_to_num(x, nan=1e300), torch.nan_to_num(y, nan=1e300))
        for x, y in zip(a, b))
