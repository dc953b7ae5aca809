"""Benches for the particle kernels: one patch (or a patch grid) whose fields and slots are set by hand."""
import itertools

import numpy as np

from vlib import lp

EB = ("ex", "ey", "ez", "bx", "by", "bz")
# offset (in cells) of each component's sample points, per axis: the Yee cell
STAG = {"ex": (0.5, 0, 0), "ey": (0, 0.5, 0), "ez": (0, 0, 0.5), "bx": (0, 0.5, 0.5), "by": (0.5, 0, 0.5), "bz": (0.5, 0.5, 0),
        "jx": (0.5, 0, 0), "jy": (0, 0.5, 0), "jz": (0, 0, 0.5), "rho": (0, 0, 0)}
FR = (0.0, 1e-9, 0.125, 0.25, 0.49999999999, 0.5, -0.5, -0.49999999999, -0.3, -0.125, -1e-9)
DIRS = list(itertools.product((-1, 0, 1), repeat=3))


class Bench:
    def __init__(self, dim, species=None, nslot=1, n=8, npatch=None, d=None):
        self.dim = dim
        self.d = (d or (0.1e-6, 0.07e-6, 0.13e-6))[:dim]
        self.sp = species or lp.Electron()
        self.sim = lp.make_sim(dim, (n,) * dim, npatch or (1,) * dim, "p" * dim, d=self.d, ng=3, cpml=3, species=[self.sp])
        self.sim.initialize()
        self.dt = self.sim.dt
        self.resize(nslot)

    def resize(self, nslot):
        for p in self.sim.patches:
            p.particles[0].initialize(nslot)
            p.particles[0].extended = True
        self.sim.update_lists()
        self.p = self.sim.patches[0]
        self.q = self.p.particles[0]
        self.f = self.p.fields
        self.shape = self.f.jx.shape

    def pos(self, X, p=None):
        """positions from cell coordinates (arrays of shape (n, dim)) relative to the patch"""
        f = (p or self.p).fields
        return [getattr(f, a + "0") + np.asarray(X)[:, i] * h for i, (a, h) in enumerate(zip("xyz", self.d))]

    def fill(self, X, U, w=1.0, dead=(), p=None):
        q = (p or self.p).particles[0]
        for a, v in zip("xyz", self.pos(X, p)):
            getattr(q, a)[:] = v
        U = np.asarray(U, float)
        q.ux[:], q.uy[:], q.uz[:] = U.T
        with np.errstate(divide="ignore"):
            q.inv_gamma[:] = 1 / np.sqrt((1 if self.sp.pusher != "photon" else 0) + (U ** 2).sum(1))
        q.w[:] = w
        q.is_dead[:] = False
        for i in dead:
            q.is_dead[i] = True
        for a in EB:
            getattr(q, a + "_part")[:] = 0

    def clear(self):
        for p in self.sim.patches:
            for a in ("jx", "jy", "jz", "rho"):
                getattr(p.fields, a).fill(0)

    def fused(self, dt=None):
        self.sim.pusher[0](dt or self.dt, unified=True)

    def staged(self, dt=None):
        s = self.sim
        dt = dt or self.dt
        s.pusher[0].push_position(0.5 * dt)
        s.interpolator(0)
        s.pusher[0](dt)
        s.pusher[0].push_position(0.5 * dt)
        s.current_depositor(0, dt)

    def step(self, fused, dt=None):
        self.fused(dt) if fused else self.staged(dt)

    def state(self, p=None):
        q = (p or self.p).particles[0]
        return {a: getattr(q, a).copy() for a in "xyz"[:self.dim]} | {a: getattr(q, a).copy() for a in ("ux", "uy", "uz", "inv_gamma", "w")} | {a: getattr(q, a + "_part").copy() for a in EB} | {"dead": q.is_dead.copy()}

    def grids(self, p=None):
        f = (p or self.p).fields
        return {a: getattr(f, a).copy() for a in ("jx", "jy", "jz", "rho")}


def pseudo(shape, seed, amp):
    r = lp.lcg(seed)
    return amp * np.array([next(r) - 0.5 for _ in range(int(np.prod(shape)))]).reshape(shape)
