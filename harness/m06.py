"""M06: current / charge accumulation."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "explicit-state exploration of the real accumulation: every layout and ownership, rank orders, buffer modes, (bounded-preemption) schedules, and every subset of callback stages that synchronise again"
NOTE = "Integer-valued deposits so sums are exact; the oracle adds by physical cell.  Layouts to 3x3 / 3x3x3 locally, all ownerships of up to 4-6 patches, callbacks at every subset of stages in 1- and 2-rank runs."
ASSUMPTIONS = ["MPI is a simulated library whose delivery/buffer behaviour spans what the standard allows"]
MODES = ("eager", "late", "latecap", "latewrite", "rendezvous")
J4 = ("jx", "jy", "jz", "rho")
STAGES = ["start", "maxwell_1", "_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2", "current_deposition",
          "qed_create_particles", "_laser", "maxwell_2", "end"]


def boot():
    global lp, simmpi
    from vlib import lp as lp_, simmpi as sm
    lp, simmpi = lp_, sm


def deposit(sims, salt=0):
    """distinct integers everywhere (guards too); returns the expected global sums per attribute"""
    n = lp.cells(sims[0])[0]
    tot = {a: np.zeros(int(np.prod(n))) for a in J4}
    for s in sims:
        for p in s.patches:
            f = lp.flat_index(s, p)
            k = int(np.ravel_multi_index(lp.ipatch_of(s, p), lp.cells(s)[1]))
            for j, a in enumerate(J4):
                arr = getattr(p.fields, a)
                v = (np.arange(arr.size).reshape(arr.shape) * 7919 + k * 104729 + j * 1299709 + salt * 31) % 1000003 + 1
                arr[...] = v
                m = f >= 0
                np.add.at(tot[a], f[m], v[m].astype(float))
    return {a: t.reshape(n) for a, t in tot.items()}


def compare(ctx, sims, exp, key, case):
    for a in J4:
        g = lp.gather_field(sims, a)
        if not np.array_equal(g, exp[a]):
            w = tuple(int(x) for x in np.argwhere(g != exp[a])[0])
            ctx.violation(f"sum:{key}", f"{case}: {a}{w} = {g[w]}, deposits at that cell add up to {exp[a][w]} ({int((g != exp[a]).sum())} cells wrong)", case)
            return False
    return True


def local(ctx, dim, npatches, pers, nper, ng):
    boot()
    for npatch in npatches:
        for per in pers:
            if not lp.pml_ok(dim, npatch, per):
                continue
            case = dict(kind="local", npatch=npatch, per=per, nper=nper, ng=ng)
            ctx.case(case)
            sim = lp.make_sim(dim, tuple(a * b for a, b in zip(npatch, nper)), npatch, per, ng=ng, cpml=1)
            sim.initialize()
            exp = deposit([sim])
            sim.current_synced = False
            ctx.state(case)
            ctx.add("traces")
            for rep in range(3):
                sim.sync_currents()
                ctx.add("transitions")
                if not compare(ctx, [sim], exp, f"local{dim}d" + ("-again" if rep else ""), case):
                    return
    ctx.sample(case)


def build_world(dim, npatch, per, nper, ng, size, ranks):
    n = tuple(a * b for a, b in zip(npatch, nper))

    def build(r):
        s = lp.make_sim(dim, n, npatch, per, ng=ng, cpml=1)
        s.initialize()
        return s
    return lp.world_sims(simmpi, size, build, ranks)


def once(ctx, sims, w0, mode, chooser, split, key, case):
    exp = deposit(sims)
    w = simmpi.World(len(sims), simmpi.MODES[mode], chooser)
    w.ncomm = w0.ncomm

    def body(r):
        s = sims[r]
        s.current_synced = False
        if split:
            s.sync_currents_start()
            s.sync_currents_start()
            # other communication happens while the exchange is in flight
            s.mpi.sync_guard_fields(["ex"])
            s.sync_currents_wait()
            s.sync_currents_wait()
        else:
            s.sync_currents()
        s.sync_currents()
    w.run(body)
    ctx.add("transitions", w.nops)
    ctx.add("messages", w.messages)
    ctx.add("traces")
    if not w.ok():
        ctx.violation(f"mpi:{w.problems[0].split(':')[0] if w.problems else 'exception'}:{key}", w.report(), case)
        return False
    return compare(ctx, sims, exp, key, case)


def mpi(ctx, dim, npatch, pers, nper, ng, size, ranklist, modes, few=False):
    boot()
    for per in pers:
        if not lp.pml_ok(dim, npatch, per):
            continue
        for ranks in ranklist:
            case = dict(kind="mpi", npatch=npatch, per=per, nper=nper, ng=ng, ranks=ranks)
            ctx.case(case)
            sims, w0 = build_world(dim, npatch, per, nper, ng, size, ranks)
            if not w0.ok():
                ctx.violation(f"init:{dim}d", w0.report(), case)
                return
            perms = list(itertools.permutations(range(size)))
            if few:
                perms = [perms[0], perms[-1]]
            for mode in modes:
                for perm, rr in [(p, False) for p in perms] + [(perms[0], True)]:
                    for split in ((True,) if few else (True, False)):
                        c = dict(case, mode=mode, perm=perm, roundrobin=rr, split=split)
                        ctx.case(c)
                        ctx.state(c)
                        if not once(ctx, sims, w0, mode, simmpi.Chooser(order=perm, rr=rr), split, f"mpi{dim}d", c):
                            return
    ctx.sample(c)


def dfs(ctx, dim, npatch, per, nper, ng, size, ranks, mode, bound, cap):
    boot()
    case = dict(kind="dfs", npatch=npatch, per=per, ranks=ranks, mode=mode, preemptions=bound)
    sims, w0 = build_world(dim, npatch, per, nper, ng, size, ranks)
    if not w0.ok():
        ctx.violation(f"init:{dim}d", w0.report(), case)
        return

    def execute(ch):
        c = dict(case, schedule=ch.prefix)
        ctx.case(c)
        r = once(ctx, sims, w0, mode, ch, True, f"dfs{dim}d", c)
        ctx.state(case, [t[1] for t in ch.trace])
        return not r
    k, complete = simmpi.enumerate_schedules(execute, bound, max_execs=cap)
    ctx.add("schedules", k)
    if not complete:
        ctx.info["exhaustive"] = False
    ctx.sample(case)


def stages(ctx, dim, size, ranks, subsets, per, nsteps=2):
    """runs in which callbacks synchronise at every stage of a subset; the result must not change"""
    boot()
    from lambdapic import callback as callback_
    npatch = (2, 2) if dim == 2 else (2, 1, 2)
    nper = (6, 6) if dim == 2 else (4, 4, 4)
    n = tuple(a * b for a, b in zip(npatch, nper))
    el0 = None

    def run(sub, times=1):
        recs = [[] for _ in range(size)]

        def build(r):
            sp = [lp.Electron(density=lp.uniform_density(dim), ppc=1), lp.Proton(density=lp.uniform_density(dim), ppc=1)]
            s = lp.make_sim(dim, n, npatch, per, ng=3, cpml=1, species=sp)
            s.initialize()
            parts = [lp.plasma(dim, n, (s.dx, s.dy, getattr(s, "dz", 0))[:dim], 20, seed=k + 2, margin=1.2, umax=2.0) for k in range(2)]
            mine = [[q for q in pp if any(lp.home_patch(s, [q[a] for a in "xyz"[:dim]]) == lp.ipatch_of(s, p) for p in s.patches)] for pp in parts]
            for k in range(2):
                lp.load_particles(s, k, mine[k])
            cbs = []
            for st in sub:
                def f(sim):
                    for _ in range(times):
                        sim.sync_currents()
                cbs.append(callback_(st)(f))

            def rec(sim):
                recs[r].append({(lp.ipatch_of(sim, p), a): lp.interior(sim, p, getattr(p.fields, a)).copy() for p in sim.patches for a in J4 + ("ex", "ey", "ez", "bx", "by", "bz")})
            cbs.append(callback_("end")(rec))
            # force the staged pusher everywhere, so that the reference takes the same path
            cbs.append(callback_("_qed")(lambda sim: None))
            s.run(nsteps=nsteps, callbacks=cbs)
            return s
        sims, w = lp.world_sims(simmpi, size, build, ranks)
        ctx.add("transitions", w.nops)
        out = []
        if w.ok():
            for i in range(nsteps):
                m = {}
                for r in recs:
                    m.update(r[i])
                out.append(m)
        return w, out
    w, ref = run(())
    if not w.ok():
        ctx.violation("stages-run", w.report(), dict(kind="stages", stages=()))
        return
    if not any(np.abs(v).max() > 0 for k, v in ref[0].items() if k[1] == "jx"):
        raise RuntimeError("no current in the reference run")
    for sub in subsets:
        for times in (1, 2):
            case = dict(kind="stages", dim=dim, size=size, stages=sub, times=times)
            ctx.case(case)
            w, got = run(sub, times)
            ctx.add("traces")
            ctx.state(case)
            if not w.ok():
                ctx.violation("stages-run", w.report(), case)
                return
            for i in range(nsteps):
                for (c, a), v in ref[i].items():
                    sc = max(np.abs(x).max() for (cc, aa), x in ref[i].items() if aa[0] == a[0])
                    e = np.abs(got[i][(c, a)] - v).max() / sc if sc else 0.0
                    if e > 1e-12:
                        ctx.violation(f"stages:{a}", f"{case}: step {i}, patch {c}: {a} differs by {e:.2e} (relative) from the run without extra synchronisation", case)
                        return
    ctx.sample(case)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    from vlib import lp as L
    A2 = ["pp", "po", "op", "oo"]
    A3 = ["".join(t) for t in itertools.product("po", repeat=3)]
    for ng, nper in ((3, (6, 7)), (2, (4, 5)), (1, (3, 2)), (3, (3, 4)), (4, (8, 9))):
        J.append((f"local2d-{ng}-{nper}", local, dict(dim=2, npatches=list(itertools.product((1, 2, 3), (1, 2, 3))), pers=A2, nper=nper, ng=ng)))
    for ng, nper in ((3, (6, 7, 6)), (1, (2, 3, 2)), (2, (4, 4, 5))):
        J.append((f"local3d-{ng}", local, dict(dim=3, npatches=list(itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3))), pers=A3, nper=nper, ng=ng)))
    for npatch in ((2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)) + (((3, 3), (4, 2)) if big else ()):
        np_ = npatch[0] * npatch[1]
        for size in (2, 3) + ((4,) if big else ()):
            rl = L.partitions_upto(np_, size)
            if rl:
                small = np_ <= 4 or big
                J.append((f"mpi2d-{npatch}-{size}", mpi, dict(dim=2, npatch=npatch, pers=A2, nper=(4, 5), ng=2, size=size, ranklist=rl if small else rl[::2],
                          modes=MODES if small else ("late",), few=not small)))
    for npatch in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 2), (3, 1, 1), (1, 3, 1), (1, 1, 3)):
        np_ = int(np.prod(npatch))
        for size in (2, 3):
            rl = L.partitions_upto(np_, size)
            if rl:
                J.append((f"mpi3d-{npatch}-{size}", mpi, dict(dim=3, npatch=npatch, pers=["ppp", "ooo"] if not big else A3, nper=(2, 3, 2), ng=1, size=size, ranklist=rl,
                          modes=MODES if np_ <= 2 else ("late", "eager"), few=np_ > 2)))
    J.append(("mpi3d-222-2", mpi, dict(dim=3, npatch=(2, 2, 2), pers=["ppp", "opo"], nper=(2, 2, 3), ng=1, size=2, ranklist=L.partitions_upto(8, 2) if big else
              [(0, 1, 1, 0, 1, 0, 0, 1), (0, 0, 0, 0, 1, 1, 1, 1), (0, 1, 0, 1, 0, 1, 0, 1), (0, 0, 1, 1, 0, 0, 1, 1)], modes=("late",), few=True)))
    J.append(("mpi3d-222-3", mpi, dict(dim=3, npatch=(2, 2, 2), pers=["ppp", "oop"], nper=(3, 2, 2), ng=2, size=3, ranklist=L.partitions_upto(8, 3)[::(1 if big else 300)], modes=("late",), few=True)))
    for mode in MODES:
        J.append((f"dfs2d-21-{mode}", dfs, dict(dim=2, npatch=(2, 1), per="op", nper=(3, 3), ng=1, size=2, ranks=(0, 1), mode=mode, bound=3 if big else 2, cap=60000 if big else 2000)))
    J.append(("dfs2d-22-3", dfs, dict(dim=2, npatch=(2, 2), per="oo", nper=(3, 3), ng=1, size=3, ranks=(0, 1, 2, 0), mode="late", bound=2 if big else 1, cap=60000 if big else 2000)))
    J.append(("dfs3d-211", dfs, dict(dim=3, npatch=(2, 1, 1), per="opp", nper=(2, 2, 2), ng=1, size=2, ranks=(0, 1), mode="late", bound=2 if big else 1, cap=60000 if big else 2000)))
    singles = [(s,) for s in STAGES]
    pairs = list(itertools.combinations(STAGES, 2))
    allsub = [tuple(STAGES)] + singles + pairs
    if big:
        allsub += list(itertools.combinations(STAGES, 3))
    for dim in (2, 3):
        subs = allsub if dim == 2 or big else [tuple(STAGES)] + singles
        for k in range(4):
            J.append((f"stages{dim}d-1rank-{k}", stages, dict(dim=dim, size=1, ranks=None, subsets=subs[k::4], per="op" if dim == 2 else "opp")))
        sub2 = [tuple(STAGES)] + singles + (pairs if big else pairs[::5])
        for k in range(4):
            J.append((f"stages{dim}d-2ranks-{k}", stages, dict(dim=dim, size=2, ranks=(0, 1, 1, 0), subsets=sub2[k::4], per="pp" if dim == 2 else "ppp")))
    return J


COVERAGE = "as NOTE; 2-step plasma runs with 2 species for every stage, every pair of stages and all stages at once, synchronising once or twice per call"
