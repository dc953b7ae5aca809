"""M04: particle migration between processes."""
import itertools

import numpy as np

from harness import m03

NEEDS = {"mode": "shim"}
TECHNIQUE = "explicit-state exploration of the real MPI exchange: all ownerships, rank orders, buffer modes and (bounded-preemption) schedules under a simulated MPI"
NOTE = "Every ownership of small patch grids, all rank priority orders and round robin, 5 buffering modes, plus all schedules up to a preemption bound; oracle is geometric, independent of the code."
ASSUMPTIONS = m03.ASSUMPTIONS + ["MPI is a simulated library whose delivery/buffer behaviour spans what the standard allows"]
MODES = ("eager", "late", "latecap", "latewrite", "rendezvous")


def boot():
    global lp, simmpi
    m03.boot()
    lp = m03.lp
    from vlib import simmpi as sm
    simmpi = sm


def world(dim, npatch, per, nper, size, ranks, thick, d=None, nspec=1):
    n = tuple(a * b for a, b in zip(npatch, nper))

    def build(r):
        if nspec == 1:
            sp = [lp.Electron()]
        else:
            ph, el = lp.Photon(), lp.Electron(radiation="photons")
            el.set_photon(ph)
            sp = [el, ph]
        s = lp.make_sim(dim, n, npatch, per, cpml=thick, ng=1, d=d, species=sp)
        s.initialize()
        return s
    return lp.world_sims(simmpi, size, build, ranks)


def exchange(w0, sims, mode, chooser, nspec):
    w = simmpi.World(len(sims), simmpi.MODES[mode], chooser)
    w.ncomm = w0.ncomm

    def body(r):
        s = sims[r]
        hs = [s.mpi.sync_particles_start(i) for i in range(nspec)]
        for h in hs:
            s.mpi.sync_particles_wait(h)
        s.patches.sync_particles()
        s.update_lists()
    return w.run(body)


def check(ctx, w, sims, per, thick, before, nspec, key, case):
    ctx.add("transitions", w.nops)
    ctx.add("messages", w.messages)
    ctx.add("traces")
    if not w.ok():
        ctx.violation(f"mpi:{w.problems[0].split(':')[0] if w.problems else 'exception'}:{key}", w.report(), case)
        return False
    for i in range(nspec):
        r = m03.judge(sims[0], per, thick, before[i], m03.snapshot(sims, i))
        if r:
            ctx.violation(f"{r[1]}:{key}", f"{case}: species {i}: {r[0]}", case)
            return False
    return True


def fill_positions(sims, dead):
    tag = 1.0
    for sim in sims:
        nper = lp.cells(sim)[2]
        dim = sim.dimension
        d = (sim.dx, sim.dy) + ((sim.dz,) if dim == 3 else ())
        for k, p in enumerate(sim.patches):
            c = lp.ipatch_of(sim, p)
            al = []
            for a in range(dim):
                x0 = getattr(p, "xyz"[a] + "0")
                lo, hi = (c[a] * nper[a] - 0.5) * d[a], ((c[a] + 1) * nper[a] - 0.5) * d[a]
                b2 = x0 + (nper[a] - 1) * d[a] + 0.5 * d[a]
                v = {x0 - 0.5 * d[a], b2, np.nextafter(b2, 1), np.nextafter(x0 - 0.5 * d[a], -1), lo - 0.9 * d[a], hi + 0.9 * d[a], 0.5 * (lo + hi),
                     lo, hi, np.nextafter(hi, 1), np.nextafter(lo, -1)}
                al.append(sorted(v))
            if dim == 3:
                plain = [[v[0], 0.5 * (v[0] + v[-1]), v[-1]] for v in al]
                pts = set()
                for a in range(3):
                    pts |= set(itertools.product(*[plain[b] if b != a else al[b] for b in range(3)]))
                pos = np.array(sorted(pts))
            else:
                pos = np.array(list(itertools.product(*al)))
            tags = tag + np.arange(len(pos))
            tag += len(pos)
            m03.put_bulk(sim, 0, k, pos, tags, dead)
        sim.update_lists()


def schedules(size, few):
    out = [((tuple(p)), False) for p in itertools.permutations(range(size))]
    if few:
        out = [out[0], out[-1]]
    return out + [(tuple(range(size)), True)]


def positions(ctx, dim, npatch, pers, nper, size, ranklist, modes, few=False, thick=1, d=None, part=0, nparts=1):
    boot()
    for per in pers:
        if not lp.pml_ok(dim, npatch, per):
            continue
        for ranks in ranklist[part::nparts]:
            case = dict(kind="positions", npatch=npatch, per=per, ranks=ranks)
            ctx.case(case)
            sims, w0 = world(dim, npatch, per, nper, size, ranks, thick, d)
            if not w0.ok():
                ctx.violation(f"init:{dim}d", w0.report(), case)
                return
            k = 0
            for mode in modes:
                for perm, rr in schedules(size, few):
                    c = dict(case, mode=mode, perm=perm, roundrobin=rr)
                    ctx.case(c)
                    fill_positions(sims, (0, 3, 1000)[k % 3])
                    k += 1
                    before = [m03.snapshot(sims, 0)]
                    ctx.add("particles", len(before[0]))
                    w = exchange(w0, sims, mode, simmpi.Chooser(order=perm, rr=rr), 1)
                    if not check(ctx, w, sims, per, thick, before, 1, f"positions{dim}d", c):
                        return
                    ctx.state(c)
    ctx.sample(c)


def histories(ctx, dim, npatch, per, nper, size, ranks, depth, moves, mode="late", thick=1):
    """every sequence of collective moves, two species (streams crossing), exchange after each"""
    boot()
    sims, w0 = world(dim, npatch, per, nper, size, ranks, thick, nspec=2)
    case = dict(kind="history", npatch=npatch, per=per, ranks=ranks)
    if not w0.ok():
        ctx.violation(f"init:{dim}d", w0.report(), case)
        return
    s0 = sims[0]
    d = [s0.dx, s0.dy] + ([s0.dz] if dim == 3 else [])
    perms = [p for p, _ in schedules(size, False)]
    nth = 0
    for seq in itertools.product(range(len(moves)), repeat=depth):
        case = dict(case, moves=[moves[i] for i in seq])
        ctx.case(case)
        for sim in sims:
            C = [lp.ipatch_of(sim, p) for p in sim.patches]
            for s in range(2):
                lay = []
                for c in C:
                    k = int(np.ravel_multi_index(c, npatch))
                    lay.append([((i + k + s) % 3 != 2, m03.centre(sim, c, [0] * dim), 1.0 + 10 * k + i + 1000 * s) for i in range(3 + 2 * s)])
                m03.put(sim, s, lay)
            sim.update_lists()
        ctx.state(seq)
        for i in seq:
            for sim in sims:
                for p in sim.patches:
                    for s in range(2):
                        q = p.particles[s]
                        sg = np.where((np.nan_to_num(q.w).astype(int) + s) % 2 == 0, 1.0, -1.0)
                        for a, ax in enumerate("xyz"[:dim]):
                            getattr(q, ax)[...] += sg * moves[i][a] * 0.45 * nper[a] * d[a]
            before = [m03.snapshot(sims, s) for s in range(2)]
            nth += 1
            w = exchange(w0, sims, mode, simmpi.Chooser(order=perms[nth % len(perms)]), 2)
            if not check(ctx, w, sims, per, thick, before, 2, f"history{dim}d", case):
                return
    ctx.sample(case)


def dfs(ctx, dim, npatch, per, nper, size, ranks, mode, bound, cap, nspec=1, thick=1):
    """every schedule of one exchange with at most `bound` preemptions"""
    boot()
    case = dict(kind="dfs", npatch=npatch, per=per, ranks=ranks, mode=mode, preemptions=bound)
    sims, w0 = world(dim, npatch, per, nper, size, ranks, thick, nspec=nspec)
    if not w0.ok():
        ctx.violation(f"init:{dim}d", w0.report(), case)
        return

    def execute(ch):
        c = dict(case, schedule=ch.prefix)
        ctx.case(c)
        for sim in sims:
            for s in range(nspec):
                lay = []
                for cc in [lp.ipatch_of(sim, p) for p in sim.patches]:
                    k = int(np.ravel_multi_index(cc, npatch))
                    D = list(itertools.product((-1, 0, 1), repeat=dim))
                    lay.append([(True, m03.centre(sim, cc, o), 1.0 + 100 * k + i + 10000 * s) for i, o in enumerate(D)] + [(False, None, 0)] * k)
                m03.put(sim, s, lay)
            sim.update_lists()
        before = [m03.snapshot(sims, s) for s in range(nspec)]
        w = exchange(w0, sims, mode, ch, nspec)
        ctx.state(case, [t[1] for t in ch.trace])
        return not check(ctx, w, sims, per, thick, before, nspec, f"dfs{dim}d", c)
    k, complete = simmpi.enumerate_schedules(execute, bound, max_execs=cap)
    ctx.add("schedules", k)
    if not complete:
        ctx.info["exhaustive"] = False
    ctx.sample(case)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    from vlib import lp as L
    A2 = ["pp", "po", "op", "oo"]
    A3 = ["ppp", "ooo", "pop", "opp"] if not big else ["".join(t) for t in itertools.product("po", repeat=3)]
    for npatch in ((2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)) + (((3, 3), (4, 2)) if big else ()):
        np_ = npatch[0] * npatch[1]
        for size in (2, 3) + ((4,) if big else ()):
            rl = L.partitions_upto(np_, size)
            if not rl:
                continue
            small = np_ <= 4 or big
            J.append((f"pos2d-{npatch}-{size}", positions, dict(dim=2, npatch=npatch, pers=A2, nper=(4, 5), size=size, ranklist=rl if small else rl[::4],
                      modes=MODES if np_ <= 3 or big else ("late", "eager"), few=not small, d=(0.04e-6, 0.8e-6 / 15))))
    for npatch in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 2), (3, 1, 1)):
        np_ = int(np.prod(npatch))
        for size in (2, 3):
            rl = L.partitions_upto(np_, size)
            if rl:
                J.append((f"pos3d-{npatch}-{size}", positions, dict(dim=3, npatch=npatch, pers=A3, nper=(4, 3, 4), size=size, ranklist=rl if big else rl[:4],
                          modes=MODES if np_ <= 2 else ("late",), few=np_ > 2, d=(0.04e-6, 0.7e-7, 0.8e-6 / 15))))
    J.append(("pos3d-222-2", positions, dict(dim=3, npatch=(2, 2, 2), pers=["ppp", "opo"], nper=(3, 3, 3), size=2, ranklist=L.partitions_upto(8, 2) if big else
              [(0, 1, 1, 0, 1, 0, 0, 1), (0, 0, 0, 0, 1, 1, 1, 1), (0, 1, 0, 1, 0, 1, 0, 1), (0, 0, 1, 1, 0, 0, 1, 1)], modes=("late",), few=True)))
    J.append(("pos3d-222-3", positions, dict(dim=3, npatch=(2, 2, 2), pers=["ppp", "oop"], nper=(3, 3, 3), size=3, ranklist=L.partitions_upto(8, 3)[::(1 if big else 400)], modes=("late",), few=True)))
    M2 = [(1, 0), (0, 1), (1, 1), (1, -1)]
    M3 = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, -1, 1)]
    for npatch, per, size, ranks in (((2, 2), "pp", 2, (0, 1, 1, 0)), ((3, 2), "po", 3, (0, 1, 2, 2, 0, 1)), ((2, 2), "oo", 2, (0, 0, 1, 1)), ((1, 3), "pp", 3, (0, 1, 2))):
        J.append((f"hist2d-{npatch}-{per}", histories, dict(dim=2, npatch=npatch, per=per, nper=(4, 4), size=size, ranks=ranks, depth=5 if big else 3, moves=M2)))
    for npatch, per, size, ranks in (((2, 2, 2), "ppp", 2, (0, 1, 1, 0, 1, 0, 0, 1)), ((2, 2, 1), "opp", 3, (0, 1, 2, 0))):
        J.append((f"hist3d-{npatch}-{per}", histories, dict(dim=3, npatch=npatch, per=per, nper=(4, 4, 4), size=size, ranks=ranks, depth=3 if big else 2, moves=M3)))
    for mode in MODES:
        J.append((f"dfs2d-21-{mode}", dfs, dict(dim=2, npatch=(2, 1), per="op", nper=(3, 3), size=2, ranks=(0, 1), mode=mode, bound=3 if big else 2, cap=80000 if big else 3000)))
    J.append(("dfs2d-22-3", dfs, dict(dim=2, npatch=(2, 2), per="oo", nper=(3, 3), size=3, ranks=(0, 1, 2, 0), mode="late", bound=2 if big else 1, cap=80000 if big else 3000)))
    J.append(("dfs2d-21-2spec", dfs, dict(dim=2, npatch=(2, 1), per="op", nper=(3, 3), size=2, ranks=(0, 1), mode="late", bound=2 if big else 1, cap=80000 if big else 3000, nspec=2)))
    J.append(("dfs3d-211", dfs, dict(dim=3, npatch=(2, 1, 1), per="opp", nper=(3, 3, 3), size=2, ranks=(0, 1), mode="late", bound=2 if big else 1, cap=80000 if big else 3000)))
    return J


COVERAGE = "all ownerships of up to 4 (quick; 6 sampled at stride) patches on 2-3 ranks, all rank priority orders + round robin, 5 buffering modes, boundary position alphabet, all 3-step histories, all schedules with up to 2 preemptions on 2 patches"
