"""L04: splitting a run into several calls changes nothing."""
import itertools

import numpy as np

from harness import l01

NEEDS = {"mode": "shim", "tables": True}
TECHNIQUE = "exhaustive enumeration of histories: every division of a run into calls, each call ended in every way (step count, simulated time, stop request), executed on the real main loop and compared bitwise with the undivided run after every step"
NOTE = "runs of 4 (thorough 5) steps of 8 feature sets (absorbing layers, collisions, quantum events and pairs, laser, masked domain, moving window, output stages) in 2D/3D on 1-3 processes, with the same and with newly made callbacks; lengths given as time for every multiple k dt, k <= 300, of 20 time steps; compiled replay (thorough)."
ASSUMPTIONS = ["MPI is simulated", "the global generator behind the quantum events is scripted per process and step"]
WAYS = ("n", "t", "s")          # number of steps, simulated time, stop request


def boot():
    global lp, simmpi
    l01.boot()
    lp, simmpi = l01.lp, l01.simmpi


def go(feat, dim, npatch, size, ranks, pieces, anew, chain=None, mode="eager"):
    T = [l01.Track() for _ in range(size)]
    end = [[] for _ in range(size)]
    P = lp.partition()
    P.queue = [list(ranks)] if size > 1 else []

    def body(r):
        l01.DICE[r] = np.random.Generator(np.random.PCG64(99)).random
        sim = l01.create(feat, dim, npatch)
        cbs = l01.callbacks(feat, sim) + [T[r].cb(), T[r].dice()]
        first = True
        for n, way in pieces:
            if anew and not first:
                cbs = l01.callbacks(feat, sim) + [T[r].cb(), T[r].dice()]
            first = False
            to = sim.itime + n
            if way == "n":
                sim.run(nsteps=n, callbacks=cbs)
            elif way == "t":
                sim.run(sim_time=to * sim.dt, callbacks=cbs)
            elif way == "h":
                sim.run(sim_time=(to + 0.5) * sim.dt, callbacks=cbs)
            else:
                # one process asks, in the last step of this piece
                sim.run(nsteps=n + 3, callbacks=cbs, stop_callback=lambda: r == size - 1 and sim.itime >= to)
            end[r].append((sim.itime, sim.time))
        return sim
    w = simmpi.World(size, simmpi.MODES[mode], None)
    w.run(body)
    return w, T, end


def compositions(n):
    for m in range(2 ** (n - 1)):
        c, out = 1, []
        for i in range(n - 1):
            if m >> i & 1:
                out.append(c)
                c = 1
            else:
                c += 1
        yield tuple(out + [c])


def feature(ctx, feat, dim, npatch, size, ranks, ways, anew=(False,), mode="eager", few=False, N=4):
    boot()
    np.random.rand = l01.roll
    base = dict(feat=feat, dim=dim, npatch=npatch, size=size, ranks=ranks)
    key = f"{feat}:{dim}d"
    ctx.case(dict(base, kind="undivided"))
    w, ref, rend = go(feat, dim, npatch, size, ranks, [(N, "n")], False, mode=mode)
    if not w.ok():
        raise RuntimeError(w.report())
    for comp in compositions(N):
        for how in itertools.product(ways, repeat=len(comp)):
            if few and len(set(how)) > 1:
                continue
            for an in anew:
                pieces = list(zip(comp, how))
                if pieces == [(N, "n")]:
                    continue
                case = dict(base, pieces=pieces, callbacks="new" if an else "same")
                ctx.case(case)
                ctx.state(case)
                ctx.add("traces")
                w, T, end = go(feat, dim, npatch, size, ranks, pieces, an, mode=mode)
                if not w.ok():
                    ctx.violation(f"run:{key}", f"{case}: {w.report()}", case)
                    return
                want = [sum(comp[:i + 1]) for i in range(len(comp))]
                for r in range(size):
                    got = [e[0] for e in end[r]]
                    if got != want or sorted(T[r].steps) != list(range(N)):
                        ctx.violation(f"steps:{key}", f"{case}: process {r} is at steps {got} after the calls instead of {want}; ran {sorted(T[r].steps)}", case)
                        return
                    for i in range(N):
                        ctx.add("transitions")
                        e = l01.difference(ref[r].steps[i], T[r].steps[i])
                        if e:
                            ctx.violation(f"{e[1]}:{key}", f"{case}: process {r}, after step {i}: {e[0]}", case)
                            return
                    for k, e in zip(want, end[r]):
                        t = ref[r].steps[k][1] if k < N else rend[r][0][1]
                        if e != (k, t):
                            ctx.violation(f"clock:{key}", f"{case}: process {r} at (step, time) {e} instead of {(k, t)}", case)
                            return
    ctx.sample(case)


def lengths(ctx, dim, shrink, upto):
    """the number of steps of a simulated time"""
    boot()
    for s in shrink:
        sp = [lp.Electron(density=None, ppc=0)]
        n = (8, 4, 4)[:dim]
        d = tuple(x * (1 + s / 7) for x in (0.1e-6, 0.07e-6, 0.08e-6)[:dim])
        sim = lp.make_sim(dim, n, (2, 1, 1)[:dim], "p" * dim, d=d, ng=2, cpml=2, species=sp)
        sim.initialize()
        dt = sim.dt
        n = [0]
        from lambdapic import callback as cbk

        @cbk("end")
        def count(q):
            n[0] += 1
        for k in list(range(1, upto)) + [10 ** 4, 10 ** 5 + 3, 10 ** 6 - 1]:
            for what, T in (("k dt", k * dt), ("k dt summed", None if k > 400 else float(np.sum(np.full(k, dt)))), ("(k + 0.5) dt", (k + 0.5) * dt), ("(k + 0.999) dt", (k + 0.999) * dt), ("(k - 0.001) dt + 0.001 dt", (k - 0.001) * dt + 0.001 * dt)):
                if T is None:
                    continue
                for at in (k - 1, k):
                    if at == k and what != "k dt":
                        continue
                    case = dict(dim=dim, dt=dt, time=what, k=k, at=at)
                    ctx.case(case)
                    ctx.state(case)
                    ctx.add("transitions")
                    n[0] = 0
                    sim.itime, sim.time = at, at * dt
                    sim.run(sim_time=T, callbacks=[count])
                    if n[0] != k - at or sim.itime != k:
                        ctx.violation("length:" + what, f"{case}: {n[0]} steps from step {at}, {k - at} are due; sim_time / dt = {T / dt!r}", case)
                        return
    ctx.sample(case)


def constructor(ctx):
    """lengths given to the constructor; impossible requests"""
    boot()
    from lambdapic import Simulation, Simulation3D
    base = dict(nx=8, ny=4, dx=0.1e-6, dy=0.07e-6, npatch_x=2, npatch_y=1, n_guard=2, cpml_thickness=2, boundary_conditions={a + b: "periodic" for a in "xy" for b in ("min", "max")})
    d0 = Simulation(**base)
    d0.add_species([lp.Electron(density=None, ppc=0)])
    d0.initialize()
    dt = d0.dt
    for k in range(1, 8):
        for kw in (dict(nsteps=k), dict(sim_time=k * dt), dict(sim_time=(k + 0.4) * dt)):
            for first in (0, 1, k):
                case = dict(constructor={a: (b if a == "nsteps" else b / dt) for a, b in kw.items()}, first=first, k=k)
                ctx.case(case)
                ctx.state(case)
                ctx.add("transitions")
                s = Simulation(**base, **kw)
                s.add_species([lp.Electron(density=None, ppc=0)])
                if first:
                    s.run(nsteps=first)
                s.run()
                if s.itime != k:
                    ctx.violation("constructor", f"{case}: {s.itime} steps instead of {k}", case)
                    return
                s.run(nsteps=0)
                if s.itime != k:
                    ctx.violation("constructor", f"{case}: a run of 0 steps did {s.itime - k}", case)
                    return
    s = Simulation(**base)
    s.add_species([lp.Electron(density=None, ppc=0)])
    for kw in (dict(), dict(nsteps=2, sim_time=dt)):
        case = dict(run=kw)
        ctx.case(case)
        try:
            s.run(**kw)
        except (ValueError, SystemExit):
            continue
        except BaseException as e:
            if "nsteps" in str(e):
                continue
            raise
        ctx.violation("contradiction", f"{case}: accepted, {s.itime} steps", case)
        return
    ctx.sample(case)


def jobs(tier, seed):
    from vlib import jitjob
    th = tier == "thorough"
    J = []

    def add(feat, dim, npatch, size, ranks, ways, **k):
        J.append((f"{feat}{dim}-{size}-{''.join(ways)}", feature, dict(feat=feat, dim=dim, npatch=npatch, size=size, ranks=ranks, ways=ways, **k)))
    for f in ("plain", "collide", "qed", "bw", "laser", "stages", "window", "mask"):
        np2 = (3, 3) if f == "mask" else (3, 2) if f == "window" else (2, 2)
        full = th or f in ("plain", "collide", "window")
        add(f, 2, np2, 1, None, WAYS, few=not full, N=5 if th or f == 'plain' else 4, anew=(False, True) if f in ("window", "laser", "stages") else (False,))
        if f == "mask":
            add(f, 2, np2, 2, (0, 1, 1, 0, 1, 1, 0, 0), WAYS if th else ('n', 's'), few=not th)
            continue
        add(f, 2, np2, 2, (0, 1, 1, 0) if f != "window" else (0, 1, 0, 1, 0, 1), ("n", "s") if not th else WAYS, few=not th)
        if f != "window" and (th or f in ("plain", "collide", "qed")):
            add(f, 3, (2, 1, 2), 2, (0, 1, 1, 0), ("n", "s"), few=True)
    add("window", 3, (3, 1, 1), 1, None, WAYS, few=True, anew=(False, True))
    add("plain", 2, (2, 2), 3, (0, 1, 2, 0), WAYS, few=not th)
    for k in range(4 if not th else 12):
        J.append((f"lengths{k}", lengths, dict(dim=2 + k % 2, shrink=range(5 * k, 5 * k + 5), upto=120 if not th else 400)))
    J.append(("constructor", constructor, {}))
    for f in ("plain", "collide") if th else ():
        J.append((f"jit:{f}", jitjob.jit, dict(target="harness.l04:feature", args=dict(feat=f, dim=2, npatch=(2, 2), size=1, ranks=None, ways=WAYS, few=True), compiled=True)))
    return J
