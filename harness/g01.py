"""G01: resources stay bounded however long a run is."""
import ctypes
import gc
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np

NEEDS = {"mode": "shim", "env": {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}}
TECHNIQUE = "exhaustive enumeration of cycles of operations (words over the alphabet of everything a step, a callback or a rebalancing can do) that return the system to the same logical state; the exact resource state (bytes held by malloc, python memory blocks, arrays reachable, descriptors, MPI objects) is followed over repetitions of the cycle and has to recur"
NOTE = "All words (up to rotation) of length 1 and 2 (3D: 1; thorough: 3 and 2) over ten to twelve operations in 2D and 3D on one process, also with collisions, QED and the moving window, and over the operations with messages on 2 and 3 processes (all ownership round trips of 4 patches on 2 processes); after warming up, no resource may grow in every one of the following four intervals of at least 16 cycles."
ASSUMPTIONS = ["memory the interpreter or numpy caches for later use is bounded and filled while warming up", "growth below one and a half objects or 128 bytes per cycle of operations is not seen, nor a few scalars per migrated patch"]


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def boot():
    global lp, cbk, simmpi, hdf5, utils, restart, libc
    from vlib import simmpi as M
    M.install()
    from vlib import lp as L
    from lambdapic import callback as c
    from lambdapic.callback import hdf5 as h, utils as u, restart as r
    lp, cbk, simmpi, hdf5, utils, restart = L, c, M, h, u, r
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = Info


def fds():
    return len(os.listdir("/proc/self/fd"))


def arrays(roots):
    """bytes of all arrays reachable from the simulation (what a checkpoint would have to hold)"""
    seen, todo, tot = set(), list(roots), 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (str, bytes, int, float, type, np.dtype, np.random.Generator)) or o is None:
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            if o.base is None:
                tot += o.nbytes + 128
            else:
                todo.append(o.base)
        elif isinstance(o, dict):
            todo += o.values()
        elif isinstance(o, (list, tuple, set)):
            tot += 8 * len(o)
            todo += o
        elif type(o).__module__.startswith(("lambdapic", "numba")) or hasattr(o, "__dict__") and type(o).__module__.split(".")[0] == "lambdapic":
            todo += getattr(o, "__dict__", {}).values()
            if hasattr(o, "__iter__") and hasattr(o, "__len__") and not isinstance(o, type):
                try:
                    todo += list(o)
                except Exception:       # noqa: not a container after all
                    pass
    return tot


def snap(sims):
    gc.collect()
    sys._clear_type_cache()
    m = libc.mallinfo2()
    return dict(malloc=m.uordblks + m.hblkhd, blocks=sys.getallocatedblocks(), arrays=arrays(sims), descriptors=fds())


PERIOD = 16     # steps after which the drifting plasma is back where it was


def plant(sim, dim, ispecs, tag=0):
    """a plasma drifting by half a cell per step along each axis: crosses every face, periodic in time"""
    h = (sim.dx, sim.dy) + ((sim.dz,) if dim == 3 else ())
    v = [0.5 * k / sim.dt / lp.C * s for k, s in zip(h, (0.9, -0.9, 0.9))]
    for i in ispecs:
        for p in sim.patches:
            q = p.particles[i]
            n = 3 + (p.index + i) % 3
            q.initialize(n)
            for k in range(n):
                for a, d in zip("xyz", h):
                    getattr(q, a)[k] = getattr(p, a + "0") + d * ((1.37 * k + 0.21 * i) % 5)
                q.w[k] = 1.0
            b2 = sum(x * x for x in v)
            if b2 > 0.9:
                v = [x * (0.9 / b2) ** 0.5 for x in v]
                b2 = 0.9
            g = 1 / np.sqrt(1 - b2)
            q.ux[:], q.uy[:], q.uz[:] = v[0] * g, v[1] * g, (v[2] * g if dim == 3 else 0.0)
            q.inv_gamma[:] = 1 / g
            q.extended = True
    sim.update_lists()


class Rig:
    def __init__(self, dim, kind, rank=0, size=1, npatch=None, tmp=None):
        self.dim, self.rank, self.size, self.tmp, self.kind = dim, rank, size, tmp, kind
        npatch = npatch or ((2, 2) if dim == 2 else (2, 2, 1))
        self.n = tuple(5 * k for k in npatch)
        d = (0.1e-6, 0.07e-6, 0.09e-6)[:dim]
        kw = dict(d=d, ng=3, cpml=4)
        per = "p" * dim
        if kind == "qed":
            e, g, p = lp.Electron(radiation="photons"), lp.Photon(), lp.Positron(radiation="photons")
            e.set_photon(g)
            p.set_photon(g)
            g.set_bw_pair(electron=e, positron=p)
            sp = [e, g, p]
        elif kind == "window":
            per = "o" + per[1:]
            dens = eval("lambda x, y: 1e10" if dim == 2 else "lambda x, y, z: 1e10")
            sp = [lp.Electron(density=dens, ppc=1), lp.Proton(density=dens, ppc=1)]
            npatch = (3,) + npatch[1:]
            self.n = tuple(5 * k for k in npatch)
        else:
            sp = [lp.Electron(), lp.Proton()]
        self.sp = sp
        self.sim = lp.make_sim(dim, self.n, npatch, per, species=sp, **kw)
        if kind == "collide":
            self.sim.add_collision([(sp[0], sp[0]), (sp[0], sp[1])])
        self.sim.initialize()
        if kind != "window":
            plant(self.sim, dim, range(2) if kind != "qed" else (0,))
        self.cb = {}
        t = tmp
        s = self.sim
        self.dump = restart.RestartDump(f"{t}/ck", interval=1, keep=1)
        self.sf = hdf5.SaveFieldsToHDF5(f"{t}/f", interval=1, components=["ex", "rho"])
        self.sfs = hdf5.SaveFieldsToHDF5(f"{t}/fs", interval=1, components=["by"], slice=(slice(1, None, 2),) * dim)
        self.sd = hdf5.SaveSpeciesDensityToHDF5(sp[-1], f"{t}/d", interval=1)
        self.sq = hdf5.SaveParticlesToHDF5(sp[0], f"{t}/p", interval=1, attrs=["x", "w"])
        self.ex = utils.ExtractSpeciesDensity(s, sp[-1], interval=1)
        self.win = utils.MovingWindow(velocity=5 * s.dx / s.dt, start_time=0.0) if kind == "window" else None
        P = range(self.size)

        def gather(sim):
            (utils.get_fields if dim == 2 else utils.get_fields_3d)(sim, ["ex", "bz"])
        self.gather = cbk("end")(gather)
        self.inner = cbk("_push_momentum")(lambda sim: None)
        self.hot = utils.SetTemperature(sp[0], 10.0, interval=1)

        def events(sim):
            for p in sim.patches:
                q = p.particles[sim.ispec]
                q.event[:] = ~q.is_dead
                q.delta[:] = np.where(q.event, 0.25, 0.0)
        self.events = cbk("_qed")(events)

        def cull(sim):
            # back to the electrons there were
            for p in sim.patches:
                for k in (1, 2):
                    p.particles[k].is_dead[:] = True
                q = p.particles[0]
                a = np.flatnonzero(~q.is_dead)
                keep = 3 + p.index % 3
                q.is_dead[a[keep:]] = True
                q.ux[:] = 0.5
        self.cull = cbk("end")(cull)

        def prune(sim):
            for p in sim.patches:
                for q in p.particles:
                    q.prune()
                    q.extended = True
            sim.update_lists()
        self.prune = cbk("end")(prune)

    def clean(self):
        for sub in ("f", "fs", "d", "p"):
            for f in os.listdir(f"{self.tmp}/{sub}"):
                try:
                    os.remove(f"{self.tmp}/{sub}/{f}")
                except FileNotFoundError:
                    pass

    def do(self, op):
        s = self.sim
        if op == "step":
            s.run(nsteps=1)
        elif op == "pair":
            s.run(nsteps=2)
        elif op == "staged":
            s.run(nsteps=1, callbacks=[self.inner])
        elif op == "dump":
            s.run(nsteps=1, callbacks=[self.dump])
        elif op == "fields":
            s.run(nsteps=1, callbacks=[self.sf, self.sfs])
        elif op == "density":
            s.run(nsteps=1, callbacks=[self.sd])
        elif op == "extract":
            s.run(nsteps=1, callbacks=[self.ex])
        elif op == "particles":
            s.run(nsteps=1, callbacks=[self.sq])
        elif op == "gather":
            s.run(nsteps=1, callbacks=[self.gather])
        elif op == "hot":
            s.run(nsteps=1, callbacks=[self.hot])
        elif op == "events":
            s.run(nsteps=1, callbacks=[self.events, self.cull])
        elif op == "prune":
            s.run(nsteps=1, callbacks=[self.prune])
        elif op == "shift":
            s.run(nsteps=1, callbacks=[self.win])
        elif op == "relist":
            s.update_patches()
            s.run(nsteps=1)
        elif op == "toggle":
            self.sp[0].disable() if hasattr(self.sp[0], "disable") else None
            s.run(nsteps=1)
            self.sp[0].enable() if hasattr(self.sp[0], "enable") else None
        elif op.startswith("to:"):
            # one step, patches move to the owners given
            if self.rank == 0:
                lp.partition().calls.clear()
            lp.partition().queue = [[int(c) for c in op[3:]]]
            s.load_balancer.threshold = -1.0
            s.run(nsteps=1)
            s.load_balancer.threshold = 1e9
        else:
            raise ValueError(op)


# names of files written, kept by the interpreter
NAMES = dict(dump=6, fields=4, density=2, particles=2, gather=0)


def repeats(word):
    return int(cycles(len(word))) if len(word) > 1 else 2 * PERIOD


def judge(ctx, name, word, steps, snaps, case):
    """grew in every interval, by about an object per cycle?"""
    names = sum(NAMES.get(op, 0) for op in word)
    moves = 8 * sum(op.startswith("to:") for op in word)       # scalars of migrated patches are not what is looked for
    slack = dict(malloc=128 * steps + 80 * (names + moves) * steps, blocks=(3 * steps) // 2 + (names + moves) * steps)
    for what in snaps[0]:
        v = [s[what] for s in snaps]
        inc = [b - a for a, b in zip(v, v[1:])]
        least = slack.get(what, 1)
        if min(inc) >= least:
            ctx.violation(f"grows:{what}:{name}", f"{case}: {what} grows in every interval of {steps} cycles: {v}", case)
            return True
    return False


def cycles(L):
    """cycles per interval: whole periods of the plasma"""
    return max(PERIOD // np.gcd(PERIOD, L), 16)


INTERVALS = 4


def follow(ctx, name, run, word, case):
    per = repeats(word)
    for _ in range(max(32, per)):
        run()
    snaps = [run.snap()]
    for k in range(INTERVALS):
        for _ in range(per):
            run()
        snaps.append(run.snap())
        ctx.add("transitions", per * len(word))
    ctx.add("traces")
    return judge(ctx, name, word, per, snaps, case)


def necklaces(ops, length):
    """cycles up to the given length; a rotated word is the same cycle"""
    out = []
    for n in range(1, length + 1):
        for w in itertools.product(range(len(ops)), repeat=n):
            if all(w <= w[k:] + w[:k] for k in range(n)) and (n == 1 or len(set(w)) > 1):
                out.append(tuple(ops[i] for i in w))
    return out


def single(ctx, dim, kind, ops, length, part):
    boot()
    words = necklaces(ops, length)
    for word in words[part[0]::part[1]]:
        case = dict(dim=dim, kind=kind, word=word)
        ctx.case(case)
        ctx.state(case)
        tmp = tempfile.mkdtemp(prefix="g01-")
        try:
            rig = Rig(dim, kind, tmp=tmp)

            class Run:
                def __call__(self):
                    for op in word:
                        rig.do(op)
                    rig.clean()

                def snap(self):
                    return snap([rig.sim])
            if follow(ctx, f"{kind}:{dim}d", Run(), word, case):
                return
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    ctx.sample(case)


def world(ctx, dim, kind, size, words, npatch):
    boot()

    class NoTrace(simmpi.Chooser):
        def pick(self, noptions, preemptive):
            return 0
    for word in words:
        case = dict(dim=dim, kind=kind, size=size, npatch=npatch, word=word)
        ctx.case(case)
        ctx.state(case)
        tmp = tempfile.mkdtemp(prefix="g01-")
        sims = [None] * size
        out = {}

        def build(r):
            rig = Rig(dim, kind, rank=r, size=size, npatch=npatch, tmp=tmp)
            sims[r] = rig
            rig.sim.load_balancer.threshold = 1e9
            comm = rig.sim.mpi.comm

            class Run:
                def __call__(self):
                    for op in word:
                        rig.do(op)
                    comm.Barrier()
                    if r == 0:
                        rig.clean()
                    comm.Barrier()

                def snap(self):
                    comm.Barrier()
                    v = snap([g.sim for g in sims]) if r == 0 else {}
                    if r == 0:
                        w = simmpi._world
                        v["requests"] = len(w.reqs)
                    comm.Barrier()
                    return v
            run = Run()
            per = repeats(word)
            for _ in range(max(32, per)):
                run()
            snaps = [run.snap()]
            for k in range(INTERVALS):
                for _ in range(per):
                    run()
                snaps.append(run.snap())
            if r == 0:
                out["snaps"], out["per"] = snaps, per
            return rig.sim
        lp.partition().queue = []
        _, w = lp.world_sims(simmpi, size, build, chooser=NoTrace())
        shutil.rmtree(tmp, ignore_errors=True)
        if not w.ok():
            return ctx.violation(f"mpi:{kind}:{dim}d", w.report(), case)
        ctx.add("traces")
        ctx.add("transitions", out["per"] * INTERVALS * len(word) * size)
        per = out["per"]
        if judge(ctx, f"{kind}:{dim}d:world", word, per, out["snaps"], case):
            return
    ctx.sample(case)


def jobs(tier, seed):
    th = tier == "thorough"
    J = []
    plain = ["step", "staged", "dump", "fields", "density", "extract", "particles", "gather", "hot", "prune", "relist", "toggle"]
    for dim in (2, 3):
        ln = 3 if th and dim == 2 else 2 if (th or dim == 2) else 1
        K = 8 if th else 4 if dim == 2 else 2
        for k in range(K):
            J.append((f"plain-{dim}d-{k}", single, dict(dim=dim, kind="plain", ops=plain, length=ln, part=(k, K))))
        J.append((f"collide-{dim}d", single, dict(dim=dim, kind="collide", ops=["step", "relist", "dump", "prune"], length=2 if th else 1, part=(0, 1))))
        J.append((f"qed-{dim}d", single, dict(dim=dim, kind="qed", ops=["step", "events", "prune", "dump"], length=2 if th else 1, part=(0, 1))))
        J.append((f"window-{dim}d", single, dict(dim=dim, kind="window", ops=["shift", "step", "dump", "density"], length=2 if th else 1, part=(0, 1))))
        np4 = (2, 2) if dim == 2 else (2, 2, 1)
        # there and back: every pair of ways to spread 4 patches over the processes
        own = {2: ["0011", "0101", "0001", "0111"], 3: ["0012", "0112", "0122"]}
        for size in (2, 3) if dim == 2 or th else (2,):
            base, rest = own[size][0], own[size][1:]
            W = [("to:" + base, "to:" + o) for o in (rest if th or dim == 2 else rest[:1])]
            W += [(o,) for o in (("step", "dump", "fields", "gather", "particles", "density", "extract") if dim == 2 or th else ("step", "dump"))]
            if th:
                W += [("to:" + a, "to:" + b, "to:" + c) for a, b, c in itertools.permutations(own[size], 3)]
            K = len(W) if th else 3 if dim == 2 else 1
            for k in range(K):
                J.append((f"world-{dim}d-{size}-{k}", world, dict(dim=dim, kind="plain", size=size, words=W[k::K], npatch=np4)))
    J.sort(key=lambda j: ("world-3d" not in j[0], "3d" not in j[0]))     # longest first
    return J


COVERAGE = "see NOTE"
