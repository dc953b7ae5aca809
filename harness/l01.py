"""L01: a run resumed from a checkpoint is the uninterrupted run."""
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np

from vlib import jitjob

NEEDS = {"mode": "shim", "tables": True}
TECHNIQUE = "exhaustive enumeration of stop points: every step of a run of every feature set is checkpointed, every checkpoint (and every chain of two) is loaded into fresh simulated processes and run to the end on the real code; the complete state after every step is compared bitwise with the run that never stopped"
NOTE = "10 feature sets (species, modules and collision pairs switched off and on, absorbing layers, collisions, photon emission and pair creation, laser, masked domain, moving window, rebalancing, output stages) in 2D and 3D on 1-3 processes, every step of runs of 6 steps, all chains of two checkpoints, dumps by interval and by signal; compiled replay."
ASSUMPTIONS = ["MPI is simulated", "the global generator behind the quantum events, which no seed of the simulation controls, is scripted per process and step", "callbacks are created anew for the resumed run, as in the documentation"]
EMJ = ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho")
N = 6


def boot():
    global lp, simmpi, m09
    from vlib import simmpi as M
    M.install()
    from vlib import lp as L
    from harness import m09 as m
    m.boot()
    lp, simmpi, m09 = L, M, m


def state_of(sim):
    out = {}
    for p in sim.patches:
        d = {}
        for a in EMJ:
            d["fields." + a] = getattr(p.fields, a).copy()
        for q in p.pml_boundary:
            for k, v in vars(q).items():
                if isinstance(v, np.ndarray):
                    d[f"{type(q).__name__}.{k}"] = v.copy()
            if q.fields is not p.fields:
                d[f"{type(q).__name__}.linked"] = np.zeros(1)
        for s, q in enumerate(p.particles):
            al = ~q.is_dead
            names = list(q.attrs) + [a for a in ("chi", "tau", "delta", "event", "sx", "sy", "sz") if hasattr(q, a) and a not in q.attrs]
            for a in names:
                d[f"particles{s}.{a}"] = getattr(q, a)[al].copy()
            d[f"particles{s}.dead"] = q.is_dead.copy()
        d["position"] = np.array([getattr(p, a) for a in ("xmin", "ymin")] + [getattr(p, "zmin", 0.0) or 0.0])
        d["neighbours"] = np.array(p.neighbor_index)
        d["number"] = np.array([p.index])
        out[lp.ipatch_of(sim, p)] = d
    return out


def random_of(sim):
    g = sim.rand_gen
    b = g.bit_generator
    return repr((b.state, getattr(getattr(b, "seed_seq", None), "n_children_spawned", None)))


def species(feat, dim):
    dens = lp.uniform_density(dim, 1e24)
    if feat in ("qed", "bw", "offqed"):
        e, ph, e2, po = lp.Electron(density=dens, ppc=2, radiation="photons"), lp.Photon(), lp.Electron(name="e2"), lp.Positron()
        e.set_photon(ph)
        ph.set_bw_pair(electron=e2, positron=po)
        return [e, ph, e2, po]
    if feat == "ll":
        return [lp.Electron(density=dens, ppc=2, radiation="ll"), lp.Proton(density=dens, ppc=1)]
    if feat == "spin":
        return [lp.Electron(density=dens, ppc=2, pusher="boris+tbmt"), lp.Proton(density=dens, ppc=1)]
    return [lp.Electron(density=dens, ppc=2), lp.Proton(density=dens, ppc=1)]


def create(feat, dim, npatch):
    per = "pp" if feat in ("collide", "off") and dim == 2 else "opo"[:dim] if feat != "window" else "opp"[:dim]
    nper = (6, 5, 4)[:dim]
    n = tuple(a * b for a, b in zip(npatch, nper))
    d = (0.1e-6, 0.07e-6, 0.08e-6)[:dim]
    sp = species(feat, dim)
    if feat == "mask":
        from lambdapic.simulation._mask_simulation import _MaskSimulation
        Lx, Ly = n[0] * d[0], n[1] * d[1]
        sim = _MaskSimulation(nx=n[0], ny=n[1], dx=d[0], dy=d[1], npatch_x=npatch[0], npatch_y=npatch[1], n_guard=2, cpml_thickness=2, random_seed=7,
                              mask=lambda x, y: not (x < Lx / npatch[0] and y > Ly - Ly / npatch[1]))
        sim.add_species(sp)
    else:
        sim = lp.make_sim(dim, n, npatch, per, d=d, ng=2, cpml=2, species=sp)
    if feat in ("collide", "off"):
        sim.add_collision([[sp[0], sp[0], sp[1]] + [sp[1]] * (feat == "off")])
    sim.initialize()
    big = {"qed": 500, "offqed": 500, "bw": 2000}.get(feat, 1)
    for p in sim.patches:
        k = int(np.ravel_multi_index(lp.ipatch_of(sim, p), npatch))
        g = lp.lcg(31 + k)
        for a in ("ex", "ey", "ez", "bx", "by", "bz"):
            f = getattr(p.fields, a)
            f[...] = 0
            lp.interior(sim, p, f)[...] = np.reshape([next(g) - 0.5 for _ in range(lp.interior(sim, p, f).size)], lp.interior(sim, p, f).shape) * (1e11 if a[0] == "e" else 300)
        if feat in ("qed", "bw", "offqed"):
            p.fields.bz[...] = 3e5
            p.fields.ey[...] = 1e16 if feat == "bw" else 3e13
        if feat == "ll":
            p.fields.bz[...] = 1e5
        for q in p.particles:
            for i in range(q.npart):
                u = np.array([(next(g) - 0.5) * 8 * big, (next(g) - 0.5) * 2, next(g) - 0.5])
                q.ux[i], q.uy[i], q.uz[i] = u
                q.inv_gamma[i] = 1 / np.sqrt(1 + u @ u)
                if hasattr(q, "sx"):
                    s = np.array([next(g), next(g), next(g) - 0.5])
                    q.sx[i], q.sy[i], q.sz[i] = s / np.sqrt(s @ s)
    return sim


def callbacks(feat, sim):
    from lambdapic import MovingWindow, callback as cbk
    C = lp.C
    if feat == "window":
        return [MovingWindow(velocity=0.9 * C, start_time=0.0)]
    if feat == "laser":
        from lambdapic.callback.laser import SimpleLaser2D, SimpleLaser3D
        return [(SimpleLaser2D if sim.dimension == 2 else SimpleLaser3D)(a0=1.0, w0=0.4e-6, ctau=0.5e-6)]
    if feat in ("off", "offqed"):
        def turn(s):
            on = s.itime == 4
            if s.itime in (1, 4):
                (s.species[0].enable if on else s.species[0].disable)()
            if s.itime in (2, 4):
                if feat == "off":
                    c, pair = s.collision, (s.species[1], s.species[1])
                    (c.enable if on else c.disable)(pair)
                (s.current_depositor.enable if on else s.current_depositor.disable)()
                (s.pusher[1].enable if on else s.pusher[1].disable)()
            if s.itime in (0, 3) and feat == "offqed":
                (s.radiation[0].enable if s.itime else s.radiation[0].disable)()
            if s.itime in (0, 3):
                (s.interpolator.enable if s.itime else s.interpolator.disable)()
        return [cbk("start")(turn)]
    if feat == "stages":
        return [cbk("_interpolator")(lambda s: None), cbk("maxwell_1")(lambda s: None)]
    return []


DICE = {}


def roll(*a):
    return DICE[simmpi.cur_rank()](*a)


class Track:
    """state, time and random streams of one process after every step"""

    def __init__(self):
        self.steps = {}

    def dice(self):
        """the global generator answers the same in the same step of the same process"""
        from lambdapic import callback as cbk

        def throw(sim):
            g = np.random.Generator(np.random.PCG64(1000 * sim.itime + sim.mpi.rank))
            DICE[simmpi.cur_rank()] = g.random
        return cbk("start")(throw)

    def cb(self):
        from lambdapic import callback as cbk

        def rec(sim):
            self.steps[sim.itime] = (state_of(sim), sim.time, random_of(sim))
        return cbk("end")(rec)


def difference(a, b):
    """first difference between two step records (one process)"""
    if a[1] != b[1]:
        return f"time {b[1]!r} instead of {a[1]!r}", "time"
    if set(a[0]) != set(b[0]):
        return f"patches {sorted(b[0])} instead of {sorted(a[0])}", "patches"
    for c in a[0]:
        x, y = a[0][c], b[0][c]
        if set(x) != set(y):
            return f"patch {c}: items {sorted(set(x) ^ set(y))[:4]} on one side only", "items"
        for k in x:
            u, v = np.ascontiguousarray(x[k]), np.ascontiguousarray(y[k])
            if u.shape != v.shape or u.tobytes() != v.tobytes():
                return f"patch {c}: {k} differs", k.split(".")[0].rstrip("0123456789")
    if a[2] != b[2]:
        return "the random stream differs", "random"
    return None


def go(feat, dim, npatch, size, ranks, chain=None, dump=None, load=None, upto=N, signal_at=None, mode="eager"):
    """one run in a world of its own; returns (world, tracks, [(itime, time) at the end])"""
    from lambdapic.callback.restart import RestartDump
    T = [Track() for _ in range(size)]
    end = [None] * size
    P = lp.partition()
    P.queue = [] if load else [list(ranks)] if size > 1 else []
    sg = m09.Signals()

    def build(r):
        DICE[r] = np.random.Generator(np.random.PCG64(99)).random
        if load is None:
            sim = create(feat, dim, npatch)
        else:
            sim = RestartDump.load(load)
        cbs = callbacks(feat, sim) + [T[r].cb(), T[r].dice()]
        rd = None
        if dump is not None:
            rd = RestartDump(dump, interval=1 if signal_at is None else 10 ** 6, dump_signals=signal_at is not None)
            cbs.append(rd)
        if signal_at is not None:
            def hit(s):
                if s.itime == signal_at and r == size - 1:
                    sg.deliver(r)
            from lambdapic import callback as cbk
            cbs.insert(0, cbk("maxwell_1")(hit))
        if chain:
            for i in range(sim.itime, upto):
                c = chain[i % len(chain)]
                sim.load_balancer.threshold = np.inf if c is None else -1.0
                if c is not None and r == 0:
                    P.queue = [list(c)]
                sim.mpi.comm.Barrier()
                sim.run(nsteps=1, callbacks=cbs)
        else:
            sim.run(nsteps=upto - sim.itime, callbacks=cbs)
        end[r] = (sim.itime, sim.time)
        return sim
    with sg if hasattr(sg, "__enter__") else _null():
        w = simmpi.World(size, simmpi.MODES[mode], None)
        w.run(build)
    return w, T, end


class _null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def feature(ctx, feat, dim, npatch, size, ranks, chain=None, chains=True, signals=True):
    boot()
    np.random.rand = roll
    tmp = tempfile.mkdtemp(prefix="l01")
    base = dict(feat=feat, dim=dim, npatch=npatch, size=size, ranks=ranks, rebalance=chain)
    key = f"{feat}:{dim}d"
    try:
        ctx.case(dict(base, kind="reference"))
        w, ref, rend = go(feat, dim, npatch, size, ranks, chain)
        if not w.ok():
            raise RuntimeError(w.report())
        if ref[0].steps.keys() != set(range(N)):
            raise RuntimeError(f"reference steps {sorted(ref[0].steps)}")
        if all(difference((ref[r].steps[N - 1][0], 0, 0), (ref[r].steps[0][0], 0, 0)) is None for r in range(size)):
            raise RuntimeError("nothing happens in this run")

        def compare(case, w, got, end, lo, hi):
            ctx.case(case)
            ctx.state(case)
            ctx.add("traces")
            if not w.ok():
                ctx.violation(f"run:{key}", f"{case}: {w.report()}", case)
                return False
            for r in range(size):
                if sorted(got[r].steps) != list(range(lo, hi)):
                    ctx.violation(f"steps:{key}", f"{case}: process {r} ran steps {sorted(got[r].steps)} instead of {lo}..{hi - 1}", case)
                    return False
                for i in range(lo, hi):
                    ctx.add("transitions")
                    e = difference(ref[r].steps[i], got[r].steps[i])
                    if e:
                        ctx.violation(f"{e[1]}:{key}", f"{case}: process {r}, after step {i}: {e[0]}", case)
                        return False
                want = rend[r] if hi == N else (hi, ref[r].steps[hi][1])
                if end[r] != want:
                    ctx.violation(f"clock:{key}", f"{case}: process {r} ends at (step, time) {end[r]} instead of {want}", case)
                    return False
            return True
        if feat in ("qed", "bw"):
            for s in (1, 3):
                k = sum(int((~v).sum()) for r in range(size) for d in ref[r].steps[N - 1][0].values() for a, v in d.items() if a == f"particles{s}.dead")
                ctx.info[f"created_{feat}{dim}_{s}"] = k
        d1 = os.path.join(tmp, "a")
        w, T, end = go(feat, dim, npatch, size, ranks, chain, dump=d1)
        if not compare(dict(base, kind="dumping"), w, T, end, 0, N):
            return
        first = {}
        for k in range(N - 1):
            c = os.path.join(d1, f"ckpt_{k:06d}")
            if not os.path.isdir(c):
                ctx.violation(f"absent:{key}", f"{base}: no checkpoint for step {k}: {sorted(os.listdir(d1))}", base)
                return
            d2 = os.path.join(tmp, f"b{k}")
            w, T, end = go(feat, dim, npatch, size, ranks, chain, load=c, dump=d2 if chains else None)
            if not compare(dict(base, kind="resumed", at=k), w, T, end, k + 1, N):
                return
            if chains:
                for j in range(k + 1, N - 1):
                    w, T, end = go(feat, dim, npatch, size, ranks, chain, load=os.path.join(d2, f"ckpt_{j:06d}"))
                    if not compare(dict(base, kind="chain", at=(k, j)), w, T, end, j + 1, N):
                        return
                shutil.rmtree(d2)
        if signals and chain is None:
            for k in range(N - 1):
                d3 = os.path.join(tmp, f"s{k}")
                w, T, end = go(feat, dim, npatch, size, ranks, dump=d3, signal_at=k)
                if not compare(dict(base, kind="stopped by signal", at=k), w, T, end, 0, k + 1):
                    return
                w, T, end = go(feat, dim, npatch, size, ranks, load=os.path.join(d3, f"ckpt_{k:06d}"))
                if not compare(dict(base, kind="resumed after signal", at=k), w, T, end, k + 1, N):
                    return
                shutil.rmtree(d3)
        ctx.sample(base)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def jobs(tier, seed):
    th = tier == "thorough"
    J = []

    def add(feat, dim, npatch, size, ranks, **k):
        J.append((f"{feat}{dim}-{size}-{'x'.join(map(str, npatch))}", feature, dict(feat=feat, dim=dim, npatch=npatch, size=size, ranks=ranks, **k)))
    for f in ("plain", "collide", "qed", "bw", "laser", "stages", "window", "mask", "off", "offqed"):
        np2 = (3, 3) if f == "mask" else (3, 2) if f == "window" else (2, 2)
        add(f, 2, np2, 1, None, chains=th or f in ("plain", "collide", "qed"), signals=th or f in ("plain", "collide"))
        if f not in ("mask",):
            add(f, 2, np2, 2, (0, 1, 1, 0) if f != "window" else (0, 1, 0, 1, 0, 1), chains=th or f == "collide", signals=th or f == "plain")
            if th or f in ("plain", "collide", "qed"):
                add(f, 3, (2, 1, 2), 2, (0, 1, 1, 0), chains=th, signals=th) if f != "window" else None
    add("mask", 2, (3, 3), 2, (0, 1, 1, 0, 1, 1, 0, 0), chains=th, signals=th)
    add("plain", 2, (2, 2), 3, (0, 1, 2, 0), chains=True, signals=True)
    add("window", 3, (3, 1, 1), 1, None, chains=th, signals=th)
    J.append(("rebalance2-3", feature, dict(feat="plain", dim=2, npatch=(2, 2), size=3, ranks=(0, 1, 2, 0), chain=[(1, 2, 0, 0), None, (2, 2, 1, 0)], chains=True)))
    J.append(("rebalance2-collide", feature, dict(feat="collide", dim=2, npatch=(2, 2), size=2, ranks=(0, 1, 1, 0), chain=[(1, 1, 0, 0), (0, 1, 0, 1), None], chains=True)))
    J.append(("rebalance2-qed", feature, dict(feat="qed", dim=2, npatch=(2, 2), size=2, ranks=(0, 1, 1, 0), chain=[(1, 1, 0, 0), None], chains=False)))
    for f in ("plain", "collide", "laser"):
        J.append((f"jit:{f}", jitjob.jit, dict(target="harness.l01:feature", args=dict(feat=f, dim=2, npatch=(2, 2), size=1, ranks=None, chains=False, signals=False), compiled=True)))
    return J


COVERAGE = "see NOTE"
