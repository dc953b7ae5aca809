"""M05: after a guard-cell synchronisation every guard cell equals its owner cell."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
EM = ["ex", "ey", "ez", "bx", "by", "bz"]


def fill(sim, attrs):
    for p in sim.patches:
        f = lp.flat_index(sim, p)
        for a in attrs:
            k = EM.index(a)
            arr = getattr(p.fields, a)
            m = lp.interior_mask(sim, p, arr.shape)
            arr[...] = -1.0 - k
            arr[m] = f[m] + 1000003.0 * (k + 1)


def verify(ctx, sim, attrs, label, case):
    for p in sim.patches:
        f = lp.flat_index(sim, p)
        for a in attrs:
            k = EM.index(a)
            arr = getattr(p.fields, a)
            exp = np.where(f >= 0, f + 1000003.0 * (k + 1), -1.0 - k)
            bad = ~(arr == exp)
            if bad.any():
                w = tuple(int(i[0]) for i in np.nonzero(bad))
                ctx.violation(f"guard:{label}", f"{case}: patch {lp.ipatch_of(sim, p)} {a}{w}: got {arr[w]!r}, owner has {exp[w]!r} "
                              f"({int(bad.sum())} cells wrong)", case)
                return False
    return True


def boot():
    global lp, simmpi
    from vlib import lp as lp_, simmpi as sm
    lp, simmpi = lp_, sm


def local(ctx, dim, npatches, pers, nper, ng):
    boot()
    for npatch in npatches:
        for per in pers:
            n = tuple(a * b for a, b in zip(npatch, nper))
            case = dict(dim=dim, npatch=npatch, per=per, nper=nper, ng=ng, ranks=1)
            ctx.case(case)
            try:
                sim = lp.make_sim(dim, n, npatch, per, ng=ng, cpml=1)
                sim.initialize()
            except AssertionError as e:
                if "PML" in str(e) or (dim == 2 and any(k == "o" and m == 1 for k, m in zip(per, npatch))):
                    ctx.add("rejected_layouts")
                    continue
                raise
            for attrs in (EM[:3], EM[3:], EM):
                fill(sim, EM)
                sim.patches.sync_guard_fields(attrs)
                sim.mpi.sync_guard_fields(attrs)
                ctx.add("transitions", 1)
                ctx.add("traces", 1)
                ctx.state(case, attrs)
                rest = [a for a in EM if a not in attrs]
                if not verify(ctx, sim, EM if not rest else attrs, f"local{dim}d", case):
                    return
    ctx.sample(case)


def init_world(dim, npatch, per, nper, ng, size, ranks):
    n = tuple(a * b for a, b in zip(npatch, nper))
    sims = [None] * size
    lp.partition().queue = [ranks]
    w0 = simmpi.World(size, simmpi.MODES["eager"])

    def init(r):
        sims[r] = lp.make_sim(dim, n, npatch, per, ng=ng, cpml=1)
        sims[r].initialize()
    w0.run(init)
    if not w0.ok():
        return None, w0
    return sims, w0


def exchange(w0, sims, mode, chooser, attrs, order):
    w = simmpi.World(len(sims), simmpi.MODES[mode], chooser)
    w.ncomm = w0.ncomm

    def body(r):
        sim = sims[r]
        fill(sim, EM)
        if order == "split":        # as the time step does it
            h = sim.mpi.sync_guard_fields_start(attrs)
            sim.patches.sync_guard_fields(attrs)
            sim.mpi.sync_guard_fields_wait(h)
        elif order == "local-first":
            sim.patches.sync_guard_fields(attrs)
            sim.mpi.sync_guard_fields(attrs)
        else:
            sim.mpi.sync_guard_fields(attrs)
            sim.patches.sync_guard_fields(attrs)
    return w.run(body)


def check(ctx, w, sims, attrs, label, case):
    ctx.add("transitions", w.nops)
    ctx.add("messages", w.messages)
    ctx.add("traces")
    if not w.ok():
        ctx.violation(f"mpi:{w.problems[0].split(':')[0] if w.problems else 'exception'}:{label}", w.report(), case)
        return False
    return all(verify(ctx, s, attrs, label, case) for s in sims)


def mpi(ctx, dim, npatch, pers, nper, ng, size, ranklist, modes, orders, perms=None):
    boot()
    for per in pers:
        for ranks in ranklist:
            case = dict(dim=dim, npatch=npatch, per=per, nper=nper, ng=ng, ranks=ranks)
            ctx.case(case)
            sims, w0 = init_world(dim, npatch, per, nper, ng, size, ranks)
            if sims is None:
                ctx.violation(f"mpi-init:{dim}d", w0.report(), case)
                return
            for mode in modes:
                for order in orders:
                    attrs = EM[:3] if order == "split" else EM
                    scheds = [(p, False) for p in (perms or simmpi.rank_orders(size))] + [(tuple(range(size)), True)]
                    for perm, rr in scheds:
                        c = dict(case, mode=mode, order=order, perm=perm, roundrobin=rr)
                        ctx.case(c)
                        w = exchange(w0, sims, mode, simmpi.Chooser(order=perm, rr=rr), attrs, order)
                        if not check(ctx, w, sims, attrs, f"{order}{dim}d", c):
                            return
                        ctx.state(c)
    ctx.sample(c)


def dfs(ctx, dim, npatch, per, nper, ng, size, ranks, mode, bound, attrs, cap):
    """every schedule of one exchange with at most `bound` preemptions"""
    boot()
    case = dict(dim=dim, npatch=npatch, per=per, nper=nper, ng=ng, ranks=ranks, mode=mode, preemptions=bound)
    ctx.case(case)
    sims, w0 = init_world(dim, npatch, per, nper, ng, size, ranks)
    if sims is None:
        ctx.violation(f"mpi-init:{dim}d", w0.report(), case)
        return

    def execute(ch):
        c = dict(case, schedule=ch.prefix)
        ctx.case(c)
        w = exchange(w0, sims, mode, ch, attrs, "split")
        ctx.state(case, [t[1] for t in ch.trace])
        return not check(ctx, w, sims, attrs, f"dfs{dim}d", c)
    k, complete = simmpi.enumerate_schedules(execute, bound, max_execs=cap)
    ctx.add("schedules", k)
    if not complete:
        ctx.info["exhaustive"] = False


def wrong(sims, snaps, attrs):
    """snaps: per rank, per patch {attr: array}; every guard cell inside the domain against the owner's cell"""
    s0 = sims[0]
    n, npatch, nper = lp.cells(s0)
    for a in attrs:
        own = np.full(int(np.prod(n)) + 1, np.nan)
        for s, sn in zip(sims, snaps):
            for f, d in sn:
                sl = tuple(slice(0, k) for k in nper)
                own[f[sl].ravel()] = d[a][sl].ravel()
        own[-1] = np.nan
        for r, sn in enumerate(snaps):
            for k, (f, d) in enumerate(sn):
                bad = (f >= 0) & ~(d[a] == own[f])
                if bad.any():
                    w = tuple(int(i[0]) for i in np.nonzero(bad))
                    return a, f"rank {r} patch {k} {a}{w}: {d[a][w]!r}, its owner has {own[f[w]]!r} ({int(bad.sum())} cells differ)"
    return None


def steps(ctx, dim, npatch, per, nper, ng, size, chain, laser, perms):
    """whole time steps with particles: the fields agree with their owners wherever user code can look"""
    boot()
    from lambdapic import callback as cbk
    n = tuple(a * b for a, b in zip(npatch, nper))
    for perm in perms:
        case = dict(dim=dim, npatch=npatch, per=per, nper=nper, ranks=chain, laser=laser, perm=perm)
        ctx.case(case)

        def build(r):
            sp = [lp.Electron(density=lp.uniform_density(dim, 1e24), ppc=2)]
            s = lp.make_sim(dim, n, npatch, per, d=(1e-7, 1.1e-7, 1.3e-7)[:dim], ng=ng, cpml=2, species=sp)
            s.initialize()
            for p in s.patches:
                g = lp.lcg(11 + p.index)
                for q in p.particles:
                    for i in range(q.npart):
                        q.ux[i], q.uy[i], q.uz[i] = (2 * next(g) - 1 for _ in range(3))
                        q.inv_gamma[i] = 1 / np.sqrt(1 + q.ux[i] ** 2 + q.uy[i] ** 2 + q.uz[i] ** 2)
            return s
        sims, w = lp.world_sims(simmpi, size, build, ranks=chain[0])
        if not w.ok():
            return ctx.violation(f"mpi-init:{dim}d", w.report(), case)
        for k, ranks in enumerate(chain):
            shots = {}

            def snap(s, r, key, attrs):
                shots.setdefault(key, [None] * size)[r] = [(lp.flat_index(s, p), {a: getattr(p.fields, a).copy() for a in attrs}) for p in s.patches]

            def cbs(r):
                L = []
                for st, attrs in (("maxwell_1", EM), ("_laser", EM[3:]), ("maxwell_2", EM), ("end", EM)):
                    if st == "_laser" and not laser:
                        continue

                    def f(s, st=st, attrs=attrs):
                        snap(s, r, (s.itime, st), attrs)
                    L.append(cbk(stage=st)(f))
                return L
            if k:
                lp.partition().queue = [list(ranks)]
            w2 = simmpi.World(size, simmpi.MODES["late"], simmpi.Chooser(order=perm))
            w2.ncomm = w.ncomm

            def body(r):
                s = sims[r]
                s.load_balancer.threshold = -1.0 if k and size > 1 else 1e9
                s.run(nsteps=2 if not k else 1, callbacks=cbs(r))
            w2.run(body)
            w.ncomm = w2.ncomm
            ctx.add("transitions", w2.nops)
            ctx.add("traces")
            if not w2.ok():
                return ctx.violation(f"mpi:{w2.problems[0].split(':')[0] if w2.problems else 'exception'}:steps{dim}d", w2.report(), case)
            if not shots:
                return ctx.violation(f"steps-unseen:{dim}d", f"{case}: no stage was reached", case)
            for (it, st), sn in shots.items():
                attrs = EM[3:] if st == "_laser" else EM
                ctx.state(case, k, it, st)
                if any(x is None for x in sn):
                    continue
                if not any(np.any(d[a]) for x in sn for _, d in x for a in attrs):
                    if not (it == 0 and st == "maxwell_1") and not (it <= 1 and st == "_laser"):
                        ctx.violation(f"steps-empty:{dim}d", f"{case}: all fields vanish at {st} of step {it}", case)
                    continue
                e = wrong(sims, sn, attrs)
                if e:
                    return ctx.violation(f"guard:step:{st}:{e[0][0]}:{dim}d", f"{case} (partition {ranks}) stage {st} of step {it}: {e[1]}", case)
        ctx.sample(case)


def sizes(ctx, dim, list_, size):
    """one process, subdomains of different sizes one after the other: every ordered pair"""
    boot()
    npatch = (2, 2) if dim == 2 else (2, 2, 2)
    per = "p" * dim
    ranks = [(0, 1, 1, 0), (0, 1, 1, 0, 1, 0, 0, 1)][dim - 2]
    made = {}
    for x in list_:
        made[x] = init_world(dim, npatch, per, x[0], x[1], size, ranks)
        if made[x][0] is None:
            return ctx.violation(f"mpi-init:{dim}d", made[x][1].report(), x)
    for a, b in itertools.product(list_, list_):
        for x in (a, b):
            case = dict(dim=dim, before=a, nper=x[0], ng=x[1])
            ctx.case(case)
            w = exchange(made[x][1], made[x][0], "late", simmpi.Chooser(order=tuple(range(size))), EM, "mpi-first")
            if not check(ctx, w, made[x][0], EM, f"sizes{dim}d", case):
                return
            ctx.state(case)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    for ng, nper in ((3, (6, 7)), (2, (5, 4)), (1, (3, 2)), (4, (8, 8))):
        J.append((f"local2d-ng{ng}", local, dict(dim=2, npatches=list(itertools.product((1, 2, 3), (1, 2, 3))), pers=["pp", "po", "op", "oo"], nper=nper, ng=ng)))
    for ng, nper in ((3, (6, 7, 6)), (1, (2, 3, 2)), (2, (4, 4, 5))):
        J.append((f"local3d-ng{ng}", local, dict(dim=3, npatches=list(itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3))), pers=["".join(t) for t in itertools.product("po", repeat=3)], nper=nper, ng=ng)))
    ALL2, ALL3 = ["pp", "po", "op", "oo"], ["".join(t) for t in itertools.product("po", repeat=3)]
    from vlib import lp as L
    for npatch in ((2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)) + (((3, 3), (4, 2)) if big else ()):
        np_ = npatch[0] * npatch[1]
        pers = [x for x in ALL2 if not any(k == "o" and m == 1 for k, m in zip(x, npatch))]
        for size in (2, 3) + ((4,) if big else ()):
            r_ = L.partitions_upto(np_, size)
            if r_:
                small = np_ <= 4
                J.append((f"mpi2d-{npatch}-{size}", mpi, dict(dim=2, npatch=npatch, pers=pers, nper=(4, 5), ng=2, size=size, ranklist=r_,
                          modes=list(MODES) if small or big else ["late"], orders=ORDERS if small or big else ["split"],
                          perms=None if small or big else [tuple(range(size)), tuple(range(size))[::-1]])))
    for npatch in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 2), (3, 1, 1), (1, 3, 1), (1, 1, 3)) + (((2, 2, 2),) if big else ()):
        np_ = int(np.prod(npatch))
        pers = ["ppp", "ooo"] if big else ["ppp"]
        for size in (2, 3):
            r_ = L.partitions_upto(np_, size)
            if r_:
                J.append((f"mpi3d-{npatch}-{size}", mpi, dict(dim=3, npatch=npatch, pers=pers, nper=(2, 3, 2), ng=1, size=size, ranklist=r_,
                          modes=list(MODES) if np_ <= 2 else ["late", "eager"], orders=ORDERS if np_ <= 2 else ["split"],
                          perms=None if np_ <= 2 else [tuple(range(size)), tuple(range(size))[::-1]])))
    if not big:
        J.append(("mpi3d-222", mpi, dict(dim=3, npatch=(2, 2, 2), pers=["ppp", "ooo", "pop"], nper=(2, 2, 2), ng=1, size=2,
                  ranklist=[(0, 1, 1, 0, 1, 0, 0, 1), (0, 0, 0, 0, 1, 1, 1, 1), (0, 1, 0, 1, 0, 1, 0, 1), (0, 0, 1, 1, 0, 0, 1, 1)], modes=["late"], orders=["split"], perms=[(0, 1)])))
        J.append(("mpi3d-222-3", mpi, dict(dim=3, npatch=(2, 2, 2), pers=["ppp", "oop"], nper=(2, 2, 2), ng=1, size=3,
                  ranklist=[(0, 1, 2, 0, 1, 2, 0, 1), (0, 0, 1, 2, 1, 1, 2, 2)], modes=["late"], orders=["split"], perms=[(0, 1, 2)])))
    for per, npatch in (("pp", (2, 2)), ("op", (2, 2)), ("po", (3, 2)), ("oo", (2, 3))):
        k = npatch[0] * npatch[1]
        A, B = [i % 2 for i in range(k)], [int(2 * i >= k) for i in range(k)]
        for laser in (False, True):
            J.append((f"steps2d-{per}-{laser}-1", steps, dict(dim=2, npatch=npatch, per=per, nper=(6, 5), ng=3, size=1, chain=[[0] * k], laser=laser, perms=[(0,)])))
            J.append((f"steps2d-{per}-{laser}-2", steps, dict(dim=2, npatch=npatch, per=per, nper=(6, 5), ng=3, size=2, chain=[A, B, A] + ([B, [1 - x for x in A]] if big else []), laser=laser, perms=[(0, 1), (1, 0)])))
            if big or laser:
                J.append((f"steps2d-{per}-{laser}-3", steps, dict(dim=2, npatch=npatch, per=per, nper=(6, 5), ng=3, size=3, chain=[[i % 3 for i in range(k)], sorted(i % 3 for i in range(k))], laser=laser, perms=[(0, 1, 2), (2, 1, 0)])))
    for per, npatch in (("ppp", (2, 1, 2)), ("opo", (2, 2, 2)), ("ooo", (2, 2, 2))):
        k = int(np.prod(npatch))
        A, B = [i % 2 for i in range(k)], [int(2 * i >= k) for i in range(k)]
        for laser in (False, True):
            J.append((f"steps3d-{per}-{laser}-1", steps, dict(dim=3, npatch=npatch, per=per, nper=(5, 4, 6), ng=3, size=1, chain=[[0] * k], laser=laser, perms=[(0,)])))
            J.append((f"steps3d-{per}-{laser}-2", steps, dict(dim=3, npatch=npatch, per=per, nper=(5, 4, 6), ng=3, size=2, chain=[A, B], laser=laser, perms=[(0, 1)] + ([(1, 0)] if big else []))))
    J.append(("sizes2d", sizes, dict(dim=2, size=2, list_=[((4, 5), 2), ((5, 5), 2), ((4, 4), 2), ((4, 5), 3)])))
    J.append(("sizes3d", sizes, dict(dim=3, size=2, list_=[((3, 4, 5), 2), ((4, 4, 5), 2), ((3, 3, 5), 2), ((3, 4, 4), 2), ((3, 4, 5), 1)])))
    for mode in MODES:
        J.append((f"dfs2d-21-{mode}", dfs, dict(dim=2, npatch=(2, 1), per="op", nper=(3, 3), ng=1, size=2, ranks=(0, 1), mode=mode,
                  bound=3 if big else 2, attrs=EM[:1], cap=60000 if big else 4000)))
    J.append(("dfs2d-22-3ranks", dfs, dict(dim=2, npatch=(2, 2), per="oo", nper=(3, 3), ng=1, size=3, ranks=(0, 1, 2, 0), mode="late",
              bound=2 if big else 1, attrs=EM[:1], cap=60000 if big else 4000)))
    return J


MODES = ("eager", "late", "latecap", "latewrite", "rendezvous")
ORDERS = ["split", "local-first", "mpi-first"]
COVERAGE = ("2D: all patch grids up to 3x3, all periodic/open combinations, guard widths 1-4, on one rank; all assignments of up to 6 patches "
            "(quick) to 2-3 ranks, 5 MPI buffer/completion modes, all rank priority orders and round-robin, plus every schedule with a bounded "
            "number of preemptions at MPI operations for one exchange. 3D: all grids up to 3x3x3 on one rank; up to 4 patches over all 2-3 rank assignments, 2x2x2 over selected ones.")
ASSUMPTIONS = ["MPI is a simulated library whose delivery/buffer behaviour spans what the standard allows; check M00-conformance replays scenarios under the installed MPI",
               "python-level kernels run with NUMBA_DISABLE_JIT=1; C extensions are compiled from the tree"]
