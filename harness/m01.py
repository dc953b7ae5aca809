"""M01: neighbour topology."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of layouts, masks, ownerships and window/rebalance histories on the real code"
NOTE = "All patch grids, boundary kinds, ownerships, masks and short shift/rebalance histories within the bounds of the evidence file; real code, simulated MPI."
VEL = {"R": 1, "L": -1, "0": 0}


def boot():
    global lp, simmpi
    from vlib import lp as lp_, simmpi as sm
    lp, simmpi = lp_, sm


def report(ctx, key, errs, case):
    if errs:
        ctx.violation(key, f"{case}: " + "; ".join(errs[:6]) + (f" (+{len(errs) - 6} more)" if len(errs) > 6 else ""), case)
        return True
    return False


def grids(ctx, dim, npatches, pers, nper):
    boot()
    for npatch in npatches:
        for per in pers:
            if not lp.pml_ok(dim, npatch, per):
                ctx.add("rejected_layouts")
                continue
            case = dict(kind="grid", npatch=npatch, per=per)
            ctx.case(case)
            sim = lp.make_sim(dim, tuple(a * b for a, b in zip(npatch, nper)), npatch, per, cpml=1, ng=1)
            sim.initialize()
            ctx.state(case)
            ctx.add("transitions", len(sim.patches) * (3 ** dim - 1))
            ctx.add("traces")
            if report(ctx, f"grid{dim}d", lp.topology_errors([sim], per, npatch) + lp.geometry_errors([sim], npatch), case):
                return
    ctx.sample(case)


def owners(ctx, dim, npatch, pers, nper, size, ranklist):
    boot()
    n = tuple(a * b for a, b in zip(npatch, nper))
    for per in pers:
        if not lp.pml_ok(dim, npatch, per):
            continue
        for ranks in ranklist:
            case = dict(kind="owners", npatch=npatch, per=per, ranks=ranks)
            ctx.case(case)

            def build(r):
                s = lp.make_sim(dim, n, npatch, per, cpml=1, ng=1)
                s.initialize()
                return s
            sims, w = lp.world_sims(simmpi, size, build, ranks)
            if not w.ok():
                ctx.violation(f"init:{dim}d", w.report(), case)
                return
            ctx.state(case)
            ctx.add("transitions", w.nops)
            ctx.add("traces")
            if report(ctx, f"owners{dim}d", lp.topology_errors(sims, per, npatch) + lp.geometry_errors(sims, npatch), case):
                return
    ctx.sample(case)


def masks(ctx, npatch, part, nparts, size):
    boot()
    from lambdapic.simulation._mask_simulation import _MaskSimulation
    nper = (3, 4)
    cells = list(itertools.product(range(npatch[0]), range(npatch[1])))
    d = (1e-7, 1e-7)
    done = 0
    for bits in range(1, 1 << len(cells)):
        keep = {c for k, c in enumerate(cells) if bits >> k & 1}
        if len(keep) < size:
            continue
        # a patch cannot carry two absorbing layers on one axis: such masks are rejected by the package
        if any(((i - 1, j) not in keep and (i + 1, j) not in keep) or ((i, j - 1) not in keep and (i, j + 1) not in keep) for i, j in keep):
            continue
        done += 1
        if done % nparts != part:
            continue
        case = dict(kind="mask", npatch=npatch, keep=sorted(keep), size=size)
        ctx.case(case)
        Lp = (nper[0] * d[0], nper[1] * d[1])

        def build(r):
            s = _MaskSimulation(nx=npatch[0] * nper[0], ny=npatch[1] * nper[1], dx=d[0], dy=d[1], npatch_x=npatch[0], npatch_y=npatch[1],
                                n_guard=2, cpml_thickness=1, mask=lambda x, y: (int(x / Lp[0]), int(y / Lp[1])) in keep)
            s.initialize()
            return s
        rl = [None] if size == 1 else [tuple(k % size for k in range(len(keep))), tuple((k * size) // len(keep) for k in range(len(keep)))]
        for ranks in rl:
            sims, w = lp.world_sims(simmpi, size, build, ranks)
            if not w.ok():
                ctx.violation("mask-init", w.report(), case)
                return
            ctx.state(case, ranks)
            ctx.add("transitions", len(keep) * 8)
            ctx.add("traces")
            errs = lp.topology_errors(sims, "oo", npatch, missing=True) + lp.geometry_errors(sims, npatch)
            have = {lp.ipatch_of(s, p) for s in sims for p in s.patches}
            if have != keep:
                errs.append(f"patches {sorted(have)} for mask {sorted(keep)}")
            for s in sims:
                for p in s.patches:
                    i, j = lp.ipatch_of(s, p)
                    exp = sorted(n for n, o in (("xmin", (i - 1, j)), ("xmax", (i + 1, j)), ("ymin", (i, j - 1)), ("ymax", (i, j + 1))) if o not in keep)
                    got = sorted(type(q).__name__[3:].lower() for q in p.pml_boundary)
                    if got != exp:
                        errs.append(f"absorbing layers of {(i, j)}: {got}, expected {exp}")
            if report(ctx, "mask", errs, case):
                return
    ctx.add("masks", done if part == 0 else 0)
    ctx.sample(case)


def window(ctx, dim, npatch, per, nper, size, ranks, depth, seqs=None):
    """all velocity histories of the given depth: one patch right / left / standing still per step"""
    boot()
    from lambdapic.callback.utils import MovingWindow
    n = tuple(a * b for a, b in zip(npatch, nper))
    for seq in (seqs or itertools.product("R0L", repeat=depth)):
        case = dict(kind="window", npatch=npatch, per=per, ranks=ranks, velocities="".join(seq))
        ctx.case(case)
        log = []
        holder = {}

        def build(r):
            s = lp.make_sim(dim, n, npatch, per, cpml=1, ng=1)
            holder[r] = s
            s.initialize()
            k = [0]

            def vel(t):
                v = VEL[seq[min(k[0], len(seq) - 1)]] * s.nx_per_patch * s.dx / s.dt * (1 + 1e-9)
                k[0] += 1
                return v
            win = MovingWindow(vel, start_time=0.0)
            for i in range(len(seq)):
                win(s)
                s.mpi.comm.Barrier()
                if r == 0:
                    ctx.add("transitions")
                    shift = round(min(p.x0 for q in holder.values() for p in q.patches) / (s.nx_per_patch * s.dx))
                    log.append(shift)
                    S = [holder[q] for q in range(size)]
                    report(ctx, f"window{dim}d", lp.topology_errors(S, per, npatch) + lp.geometry_errors(S, npatch, shift), dict(case, step=i))
                s.mpi.comm.Barrier()
            return s
        sims, w = lp.world_sims(simmpi, size, build, ranks)
        ctx.add("traces")
        if not w.ok():
            ctx.violation(f"window-run:{dim}d", w.report(), case)
        if ctx.violations:
            return
        ctx.state(case, log)
        ctx.add("shifts", sum(a != b for a, b in zip([0] + log, log)))
    ctx.sample(dict(case, positions=log))


def rebalance(ctx, dim, npatch, per, nper, size, ranks0, targets):
    """chain of forced rebalances; tables checked against actual ownership after each"""
    boot()
    n = tuple(a * b for a, b in zip(npatch, nper))
    case = dict(kind="rebalance", npatch=npatch, per=per, ranks=ranks0)
    ctx.case(case)
    P = lp.partition()
    P.queue = [list(ranks0)]
    sims = [None] * size
    w0 = simmpi.World(size, simmpi.MODES["eager"])

    def init(r):
        sims[r] = lp.make_sim(dim, n, npatch, per, cpml=1, ng=1)
        sims[r].initialize()
        sims[r].load_balancer.threshold = -1.0
    w0.run(init)
    if not w0.ok():
        ctx.violation(f"init:{dim}d", w0.report(), case)
        return
    nc = w0.ncomm
    for t in targets:
        c = dict(case, target=t)
        ctx.case(c)
        P.queue = [list(t)]
        w = simmpi.World(size, simmpi.MODES["eager"])
        w.ncomm = nc

        def body(r):
            sims[r].load_balancer.threshold = -1.0
            sims[r].run(nsteps=1)
        w.run(body)
        nc = w.ncomm
        ctx.add("transitions", w.nops)
        ctx.add("traces")
        if not w.ok():
            ctx.violation(f"rebalance-run:{dim}d", w.report(), c)
            return
        if P.queue:
            raise RuntimeError("the forced rebalance did not take place")
        ctx.state(c)
        if report(ctx, f"rebalance{dim}d", lp.topology_errors(sims, per, npatch) + lp.geometry_errors(sims, npatch), c):
            return
    ctx.sample(case)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    A2 = ["pp", "po", "op", "oo"]
    A3 = ["".join(t) for t in itertools.product("po", repeat=3)]
    m = 6 if big else 5
    for a in range(1, m + 1):
        J.append((f"grid2d-{a}", grids, dict(dim=2, npatches=[(a, b) for b in range(1, m + 1)], pers=A2, nper=(2, 3))))
    m = 4 if big else 3
    for a in range(1, m + 1):
        for b in range(1, m + 1):
            J.append((f"grid3d-{a}{b}", grids, dict(dim=3, npatches=[(a, b, c) for c in range(1, m + 1)], pers=A3, nper=(2, 3, 2))))
    from vlib import lp as L
    for npatch in ((2, 1), (2, 2), (1, 3), (3, 2), (2, 3)) + (((4, 2), (3, 3)) if big else ()):
        for size in (2, 3):
            rl = L.partitions_upto(npatch[0] * npatch[1], size)
            if rl:
                J.append((f"own2d-{npatch}-{size}", owners, dict(dim=2, npatch=npatch, pers=A2, nper=(2, 2), size=size, ranklist=rl)))
    for npatch in ((2, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (1, 1, 3)) + (((2, 2, 2),) if big else ()):
        for size in (2, 3):
            rl = L.partitions_upto(int(np.prod(npatch)), size)
            if rl:
                J.append((f"own3d-{npatch}-{size}", owners, dict(dim=3, npatch=npatch, pers=["ppp", "ooo", "pop"], nper=(2, 2, 2), size=size, ranklist=rl)))
    if not big:
        J.append(("own3d-222", owners, dict(dim=3, npatch=(2, 2, 2), pers=A3, nper=(2, 2, 2), size=3, ranklist=[(0, 1, 2, 0, 1, 2, 0, 1), (0, 0, 1, 1, 2, 2, 2, 0)])))
    np_, parts = ((4, 4), 16) if big else ((3, 4), 4)
    for k in range(parts):
        J.append((f"mask-{k}", masks, dict(npatch=np_, part=k, nparts=parts, size=1)))
    J.append(("mask-2ranks", masks, dict(npatch=(3, 4), part=0, nparts=1 if big else 4, size=2)))
    J.append(("mask-3ranks", masks, dict(npatch=(3, 4), part=1, nparts=2 if big else 8, size=3)))
    d = 5 if big else 4
    for npatch, per, size, ranks in [((3, 2), "oo", 1, None), ((3, 2), "op", 1, None), ((2, 2), "oo", 2, (0, 1, 1, 0)), ((3, 2), "oo", 2, (0, 1, 1, 1, 0, 0)),
                                     ((3, 2), "oo", 3, (0, 1, 2, 2, 0, 1)), ((4, 2), "op", 2, (0, 0, 1, 1, 0, 0, 1, 1)), ((3, 2), "pp", 2, (0, 0, 1, 1, 0, 1))]:
        J.append((f"window2d-{npatch}-{per}-{size}", window, dict(dim=2, npatch=npatch, per=per, nper=(3, 2), size=size, ranks=ranks, depth=d)))
    for npatch, per, size, ranks in [((2, 2, 1), "opp", 1, None), ((2, 2, 2), "ooo", 1, None), ((2, 2, 1), "opp", 2, (0, 1, 1, 0)), ((3, 1, 2), "opp", 2, (0, 1, 1, 0, 0, 1)),
                                     ((2, 2, 2), "ooo", 3, (0, 1, 2, 0, 1, 2, 0, 1))]:
        J.append((f"window3d-{npatch}-{per}-{size}", window, dict(dim=3, npatch=npatch, per=per, nper=(2, 2, 2), size=size, ranks=ranks, depth=d - 1)))
    for npatch, per, size in (((2, 2), "oo", 2), ((2, 2), "pp", 3), ((3, 2), "op", 2), ((3, 2), "oo", 3)):
        rl = L.partitions_upto(npatch[0] * npatch[1], size)
        step = 1 if big or len(rl) < 40 else 3
        J.append((f"reb2d-{npatch}-{size}", rebalance, dict(dim=2, npatch=npatch, per=per, nper=(4, 4), size=size, ranks0=rl[0], targets=(rl[1:] + rl[::-1])[::step])))
    for npatch, per, size in (((2, 2, 1), "ppp", 2), ((1, 2, 2), "pop", 3), ((2, 1, 2), "ppp", 2)):
        rl = L.partitions_upto(4, size)
        J.append((f"reb3d-{npatch}-{size}", rebalance, dict(dim=3, npatch=npatch, per=per, nper=(4, 4, 4), size=size, ranks0=rl[0], targets=rl[1:] + rl[::-1])))
    return J


COVERAGE = ("grids up to 5x5 and 3x3x3 with all boundary kinds; every ownership of up to 6 patches on 2-3 ranks; every accepted mask of a 3x4 grid; "
            "all right/still/left window histories of depth 4 (3 in 3D); chains over all ownerships by rebalancing")
ASSUMPTIONS = ["the partitioner (external library) is replaced by the driver's choice of ownership", "boundary kinds are chosen per axis"]
