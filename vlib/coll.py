"""Driving the collision module: scripted generators, pairs seen through the momenta they change."""
import numpy as np

from vlib import lp

_real_rng = np.random.default_rng
TWO_PI = 2 * np.pi


class Script:
    """What the scripted generators answer while a collision step is watched."""

    def __init__(self):
        self.active = False
        self.u = 0.37
        self.phi = 0.9
        self.perm = lambda n, k: np.arange(n)
        self.nshuffle = 0
        self.hook = None
        self.draws = 0

    def draw(self, low, high, size):
        self.draws += 1
        if self.hook is not None:
            self.hook()
        u = self.phi / TWO_PI if abs(high - TWO_PI) < 1e-9 and low == 0 else self.u
        v = low + (high - low) * u
        return v if size is None else np.full(size, v)

    def order(self, n):
        self.nshuffle += 1
        return np.asarray(self.perm(n, self.nshuffle - 1), dtype=np.int64)


script = Script()


class FakeGen:
    """A generator that answers from the script while one is active and from a real generator otherwise."""

    def __init__(self, seed=None):
        self._g = _real_rng(seed) if not isinstance(seed, np.random.Generator) else seed

    def spawn(self, n):
        return [FakeGen(g) for g in self._g.spawn(n)]

    def uniform(self, low=0.0, high=1.0, size=None):
        return script.draw(low, high, size) if script.active else self._g.uniform(low, high, size)

    def random(self, size=None, *a, **k):
        return script.draw(0.0, 1.0, size) if script.active else self._g.random(size, *a, **k)

    def shuffle(self, x, axis=0):
        if not script.active:
            return self._g.shuffle(x, axis)
        if script.hook is not None:
            script.hook()
        x[...] = x[script.order(len(x))]

    def permutation(self, x, axis=0):
        if not script.active:
            return self._g.permutation(x, axis)
        if script.hook is not None:
            script.hook()
        x = np.arange(x) if np.isscalar(x) else np.array(x)
        return x[script.order(len(x))]

    def permuted(self, x, *a, **k):
        return self.permutation(x) if script.active else self._g.permuted(x, *a, **k)

    def __getattr__(self, name):
        if name == "_g":
            raise AttributeError(name)
        return getattr(self._g, name)


class scripted_rng:
    """while active, generators made by numpy.random.default_rng are scripted ones"""

    def __enter__(self):
        np.random.default_rng = FakeGen

    def __exit__(self, *a):
        np.random.default_rng = _real_rng


def make(dim, n, npatch, species, groups, when="before", per=None, nslot=None, d=None, **kw):
    """a simulation with collisions registered before or after initialize(); per-patch slot numbers by `nslot`"""
    sim = lp.make_sim(dim, n, npatch, per or "p" * dim, d=d, species=species, **kw)
    if when == "before":
        sim.add_collision(groups)
    with scripted_rng():
        sim.initialize()
    if nslot is not None:
        resize(sim, nslot)
    if when == "after":
        sim.add_collision(groups)
    return sim


def resize(sim, nslot):
    for p in sim.patches:
        for s in sim.species:
            q = p.particles[s.ispec]
            k = nslot[s.ispec] if isinstance(nslot, (list, tuple)) else nslot
            q.initialize(k)
            for a in "xyz"[:sim.dimension]:
                getattr(q, a)[:] = getattr(p, a + "min")
            q.is_dead[:] = True
            q.extended = True
    sim.update_lists()


def cell_of(sim, q):
    """global cell numbers of the slots of one particle storage"""
    d = (sim.dx, sim.dy) if sim.dimension == 2 else (sim.dx, sim.dy, sim.dz)
    f = np.zeros(q.npart, dtype=np.int64)
    with np.errstate(invalid="ignore"):
        for a, h in zip("xyz", d):
            f = f * 100003 + np.floor(np.nan_to_num(getattr(q, a)) / h + 0.5).astype(np.int64)
    return f


class Watch:
    """During a collision step: which particles change between two draws."""

    def __init__(self, sim):
        self.sim = sim
        self.events = []

    def snap(self):
        return [[np.array([q.ux, q.uy, q.uz]).view(np.int64).copy() for q in p.particles] for p in self.sim.patches]

    def look(self):
        ch = []
        for ip, p in enumerate(self.sim.patches):
            for isp, q in enumerate(p.particles):
                v = np.array([q.ux, q.uy, q.uz]).view(np.int64)
                o = self.last[ip][isp]
                m = (v != o).any(0)
                if m.any():
                    ch += [(ip, isp, int(i)) for i in np.flatnonzero(m)]
                    self.last[ip][isp] = v.copy()
        if ch:
            self.events.append(ch)

    def run(self, fn):
        self.last = self.snap()
        self.events = []
        script.hook = self.look
        script.active = True
        script.nshuffle = 0
        script.draws = 0
        try:
            fn()
        finally:
            script.active = False
            script.hook = None
        self.look()
        return self.events


def gamma(u, massless=False):
    return np.sqrt((0.0 if massless else 1.0) + (np.asarray(u, float) ** 2).sum(-1))
