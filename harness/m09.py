"""M09: every process stays in step."""
import itertools
import os
import signal

import numpy as np

from harness import m07

NEEDS = {"mode": "shim"}
TECHNIQUE = "stateless model checking of the real main loop under a simulated MPI: all rank orders and all one-preemption schedules, five buffer semantics, a request or failure injected at every (process, step, stage)"
NOTE = "15 feature mixes (rebalancing, moving window, outputs, gathers, laser, collisions, QED, species switched off, checkpoints, 2D/3D), 2-3 processes; stop requests, signals and exceptions injected on one process at every step and stage; monitors: deadlock, mismatched collectives, message size, buffers in flight, leftovers."
ASSUMPTIONS = ["MPI is simulated; a process only loses control inside MPI calls", "signals are delivered at callback boundaries"]
STAGES = ("start", "maxwell_1", "_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2", "current_deposition",
          "qed_create_particles", "_laser", "maxwell_2", "end")


def boot():
    global lp, simmpi
    m07.boot()
    lp, simmpi = m07.lp, m07.simmpi


class Signals:
    """collects the handlers a run installs per rank instead of touching the process"""

    def __init__(self):
        self.h = {}
        self.real = signal.signal
        signal.signal = self.sig

    def sig(self, num, handler):
        old = self.h.get((simmpi.cur_rank(), num), signal.SIG_DFL)
        self.h[(simmpi.cur_rank(), num)] = handler
        return old

    def deliver(self, rank, num=signal.SIGTERM):
        f = self.h.get((rank, num))
        if not callable(f):
            raise RuntimeError("no handler installed")
        f(num, None)


def features():
    from lambdapic.callback import utils as cu, hdf5 as ch
    from lambdapic import callback as cbk
    from lambdapic.callback.restart import RestartDump
    from lambdapic.callback.laser import SimpleLaser2D, SimpleLaser3D

    def plain(sim, sp, r, tmp):
        return []

    def window(sim, sp, r, tmp):
        L = sim.nx_per_patch * sim.dx
        v = (0.6 * L / sim.dt, -2.1 * L / sim.dt, 0.9 * L / sim.dt, 0.0)
        return [cu.MovingWindow(velocity=lambda t: v[min(sim.itime, 3) % 4], start_time=0.0)]

    def output(sim, sp, r, tmp):
        S = [ch.SaveFieldsToHDF5(tmp, interval=1, components=["ex", "bz", "rho"]), ch.SaveSpeciesDensityToHDF5(sp[1], tmp, interval=1),
             ch.SaveParticlesToHDF5(sp[0], tmp, interval=2, attrs=["x", "w"])]
        if sim.dimension == 2:
            S.append(ch.SaveFieldsToHDF5(os.path.join(tmp, "s"), interval=1, components=["jx"], slice=np.s_[3:, ::2]))
        return S

    def gathers(sim, sp, r, tmp):
        d = cu.ExtractSpeciesDensity(sim, sp[1], interval=1)
        d0 = cu.ExtractSpeciesDensity(sim, sp[0], interval=1, slice=(np.s_[1:7, 2:9] if sim.dimension == 2 else np.s_[1:5, :, 3]))

        def g(s):
            cu.get_fields(s, ["ex", "jz"])
        return [d, d0] + [cbk(st)(g) for st in ("maxwell_1", "end")]

    def currents(sim, sp, r, tmp):
        def sy(s):
            s.sync_currents()
        return [cbk("current_deposition")(sy)]

    def staged(sim, sp, r, tmp):
        return [cbk("_interpolator")(lambda s: None)]

    def switched(sim, sp, r, tmp):
        def sw(sim):
            (sp[0].disable if sim.itime % 2 else sp[0].enable)()
        return [cbk("start")(sw)]

    def checkpoint(sim, sp, r, tmp):
        return [RestartDump(tmp, interval=1, keep=1)]

    def laser(sim, sp, r, tmp):
        k = (SimpleLaser2D if sim.dimension == 2 else SimpleLaser3D)
        return [k(a0=1.0, w0=0.4e-6, ctau=0.5e-6)]

    def setters(sim, sp, r, tmp):
        return [cu.SetMomentum(sp[0], [0.1, 0, 0]), cu.SetTemperature(sp[1], 1000.0)]
    return dict(plain=plain, window=window, output=output, gathers=gathers, currents=currents, staged=staged, switched=switched, checkpoint=checkpoint, laser=laser, setters=setters)


def execute(dim, npatch, nper, per, size, ranks, mode, chooser, feats, steps, chain=None, inject=None, density=True, tmp="."):
    """inject: (kind, rank, step, stage).  Returns world, per-rank (itime, time, result of run)"""
    from lambdapic import callback as cbk
    n = tuple(a * b for a, b in zip(npatch, nper))
    d = (0.1e-6, 0.07e-6, 0.08e-6)[:dim]
    F = features()
    sg = Signals()
    P = lp.partition()
    P.queue = [list(ranks)] + [list(c) for c in (chain or [])]
    out = [None] * size
    kind, irank, istep, istage = inject or (None, None, None, None)

    def dens(dim):      # skewed to one corner so that processes differ in load; none in most patches
        lim = (n[0] // 2) * d[0]
        if dim == 2:
            return lambda x, y: 1e24 if x < lim else 0.0
        return lambda x, y, z: 1e24 if x < lim else 0.0

    def build(r):
        qed = "qed" in feats
        sp = [lp.Electron(density=dens(dim) if density else None, ppc=2 if density else 0, radiation="photons" if qed else None), lp.Proton(density=dens(dim) if density else None, ppc=1 if density else 0)]
        if qed:
            ph, e2, po = lp.Photon(), lp.Electron(name="e2"), lp.Positron()
            sp[0].set_photon(ph)
            ph.set_bw_pair(electron=e2, positron=po)
            sp += [ph, e2, po]
        s = lp.make_sim(dim, n, npatch, per, d=d, ng=2, cpml=2, species=sp)
        if "collide" in feats:
            s.add_collision([[sp[0], sp[0], sp[1]]])
        s.initialize()
        if qed:
            for p in s.patches:
                p.fields.bz[...] = 3e5
                p.fields.ey[...] = 3e13
        for p in s.patches:
            q = p.particles[0]
            if q.npart:
                q.ux[:] = np.linspace(-6, 6, q.npart) * (500 if qed else 1)
                q.inv_gamma[:] = 1 / np.sqrt(1 + q.ux ** 2)
        cbs = []
        for f in feats:
            cbs += F[f](s, sp, r, tmp) if f in F else []
        if chain:
            s.load_balancer.threshold = -1.0
        kw = {}
        if kind == "signal":
            from lambdapic.callback.restart import RestartDump
            cbs.append(RestartDump(tmp, interval=100000, dump_signals=True))
        if kind == "stop":
            kw["stop_callback"] = lambda: r == irank and s.itime >= istep + 1
        if kind in ("signal", "raise") and r == irank:
            def hit(sim):
                if sim.itime == istep and not done:
                    done.append(1)
                    if kind == "signal":
                        sg.deliver(r)
                    else:
                        raise ValueError("injected")
            done = []
            cbs.append(cbk(istage)(hit))
        elif kind in ("signal", "raise"):
            cbs.append(cbk(istage)(lambda sim: None))
        res = s.run(nsteps=steps, callbacks=cbs, **kw)
        a = (s.itime, s.time)
        if kind in ("stop", "signal"):      # and everyone can carry on together
            s.run(nsteps=1)
        out[r] = (a, s.itime, s.time, res)
        return None
    w = simmpi.World(size, simmpi.MODES[mode], chooser)
    w.run(build)
    signal.signal = sg.real
    return w, out


def scenario(ctx, dim, npatch, nper, per, size, rankl, modes, perms, feats, steps, chain=None, density=True, bound=None, part=(0, 1), injects=(None,)):
    boot()
    import tempfile
    for inject in injects:
        for ranks in rankl:
            for mode in modes:
                for perm in perms:
                    case = dict(feats=feats, dim=dim, npatch=npatch, per=per, size=size, ranks=ranks, mode=mode, perm=perm, inject=inject, chain=chain, density=density)
                    ctx.case(case)
                    ctx.state(case)

                    def one(ch):
                        ctx.case(dict(case, prefix=ch.prefix[-40:]))
                        with tempfile.TemporaryDirectory() as tmp:
                            w, out = execute(dim, npatch, nper, per, size, ranks, mode, ch, feats, steps, chain, inject, density, tmp)
                        ctx.add("traces")
                        ctx.add("transitions", steps)
                        ctx.add("mpi_ops", w.nops)
                        ctx.add("schedule_choices", len(ch.trace))
                        key = f"{'+'.join(feats)}:{inject[0] if inject else 'run'}"
                        c2 = dict(case, prefix=[t[1] for t in ch.trace][:400])
                        if inject and inject[0] == "raise":
                            if w.problems or (w.aborted is None and any(o is not None for o in out)):
                                ctx.violation(f"{key}:{w.problems[0].split(':')[0] if w.problems else 'ignored'}", f"{c2}: " + (w.report() or "a process carried on after another failed"), c2)
                                return True
                            return False
                        if not w.ok():
                            ctx.violation(f"{key}:{w.problems[0].split(':')[0] if w.problems else 'exception'}", f"{case}: {w.report()}", c2)
                            return True
                        if len({o[:3] for o in out}) != 1:
                            ctx.violation(f"{key}:step", f"{case}: the processes left the loop at different steps {out}", c2)
                            return True
                        exp = steps if not inject else inject[2] + 1
                        if out[0][0][0] != exp:
                            ctx.violation(f"{key}:when", f"{case}: the loop was left after {out[0][0][0]} steps, {exp} expected", c2)
                            return True
                        return False
                    if bound is None:
                        if one(simmpi.Chooser(order=perm, rr=perm is None)):
                            return
                    else:
                        k, complete = simmpi.enumerate_schedules(one, bound, order=perm, part=part)
                        ctx.add("schedules", k)
                        if ctx.violations:
                            return
    ctx.sample(case)


MODES = ("eager", "late", "latecap", "latewrite", "rendezvous")


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    p2, p3 = [None, (0, 1), (1, 0)], [None] + list(itertools.permutations(range(3)))
    R22 = [(0, 0, 1, 1), (0, 1, 1, 0), (1, 0, 0, 0)]
    mixes = [(("plain",), True), (("plain",), False), (("window",), True), (("output",), True), (("gathers",), True), (("currents", "staged"), True), (("switched",), True),
             (("checkpoint",), True), (("laser", "setters"), True), (("window", "output"), True), (("checkpoint", "window"), True), (("qed", "output"), True), (("collide",), True)]
    for feats, dens in mixes:
        J.append((f"mix2d-{'+'.join(feats)}-{dens}", scenario, dict(dim=2, npatch=(2, 2), nper=(6, 6), per="oo" if "laser" not in feats else "op", size=2, rankl=R22 if big else R22[1:2], modes=MODES, perms=p2, feats=feats, steps=3, density=dens)))
        J.append((f"reb2d-{'+'.join(feats)}-{dens}", scenario, dict(dim=2, npatch=(3, 2), nper=(6, 6), per="op", size=3, rankl=[(0, 0, 1, 1, 2, 2)], modes=MODES if big else ("late",), perms=p3 if big else [None, (2, 0, 1)],
                                                                    feats=feats, steps=3, chain=[(0, 1, 2, 0, 1, 2), (2, 2, 1, 1, 1, 0), (0, 0, 0, 0, 1, 2)], density=dens)))
    for feats in (("plain",), ("gathers",), ("output",), ("window",), ("checkpoint",), ("laser",)):
        J.append((f"mix3d-{feats[0]}", scenario, dict(dim=3, npatch=(2, 1, 2), nper=(4, 4, 4), per="opp", size=2, rankl=[(0, 1, 1, 0)], modes=("late", "rendezvous"), perms=[None, (1, 0)], feats=feats, steps=2, chain=[(1, 1, 1, 0), (0, 0, 1, 1)])))
    K = 4
    for feats in (("plain",),) if not big else (("plain",), ("gathers",), ("window",), ("output",), ("checkpoint",)):
        for k in range(K):
            J.append((f"sched-{feats[0]}-{k}", scenario, dict(dim=2, npatch=(2, 1), nper=(6, 6), per="pp", size=2, rankl=[(0, 1)], modes=MODES if big else ("late",), perms=[(0, 1), (1, 0)] if big else [(0, 1)], feats=feats, steps=1, bound=1, part=(k, K))))
    if big:
        for k in range(8):
            J.append((f"sched-reb-{k}", scenario, dict(dim=2, npatch=(2, 2), nper=(6, 6), per="pp", size=3, rankl=[(0, 1, 2, 0)], modes=("late",), perms=[(0, 1, 2)], feats=("plain",), steps=1, chain=[(1, 2, 0, 0)], bound=1, part=(k, 8))))
    for kind in ("stop", "signal", "raise"):
        stages = STAGES if kind != "stop" else (None,)
        inj = [(kind, r, i, st) for st in stages for r in range(2) for i in (0, 1)]
        J.append((f"inject-{kind}", scenario, dict(dim=2, npatch=(2, 1), nper=(6, 6), per="pp", size=2, rankl=[(0, 1)], modes=("late", "rendezvous") if big else ("rendezvous",), perms=p2 if big else [None, (1, 0)], feats=("plain",), steps=3, injects=inj)))
        inj3 = [(kind, r, i, st) for st in (stages if big else stages[::5]) for r in range(3) for i in (0, 1)]
        J.append((f"inject3-{kind}", scenario, dict(dim=2, npatch=(3, 1), nper=(6, 6), per="pp", size=3, rankl=[(0, 1, 2)], modes=("eager",), perms=[None, (2, 0, 1)], feats=("output",) if kind != "raise" else ("plain",), steps=3, injects=inj3)))
    return J


COVERAGE = "22 feature mixes in 2D and 6 in 3D on 2-3 processes, 5 buffer semantics, all rank orders (2 processes) and round robin; all schedules with one preemption on 2-process runs; every (process, step<2, stage) injection"
