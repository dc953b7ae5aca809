"""M02: ownership of patches, with the real partitioner."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of layouts, process counts and load tables through initialisation and rebalancing of the real code"
NOTE = "Real partitioner; every load table over a small alphabet, also in chains of rebalances; simulated MPI."


def boot():
    global lp, simmpi
    from vlib import lp as lp_, simmpi as sm
    lp, simmpi = lp_, sm


def owner_errors(sims, npatch, per):
    err = list(lp.topology_errors(sims, per, npatch))
    for r, s in enumerate(sims):
        if len(s.patches) == 0:
            err.append(f"rank {r} owns no patch")
    idx = sorted(p.index for s in sims for p in s.patches)
    if idx != list(range(int(np.prod(npatch)))):
        err.append(f"patches owned: {idx}")
    return err


def start(ctx, dim, npatch, per, nper, size, alphabet, mask_every=1, masked=None):
    """initial distribution for every table of macro-particles per patch"""
    boot()
    n = tuple(a * b for a, b in zip(npatch, nper))
    N = int(np.prod(npatch))
    d = 1e-7
    for k, table in enumerate(itertools.product(alphabet, repeat=N)):
        if k % mask_every:
            continue
        case = dict(kind="start", npatch=npatch, per=per, size=size, ppc=table)
        ctx.case(case)
        T = np.array(table).reshape(npatch)

        def cell(x, a):
            return min(int(x / d + 0.5) // nper[a], npatch[a] - 1)
        if dim == 2:
            def ppc(x, y):
                return int(T[cell(x, 0), cell(y, 1)])
        else:
            def ppc(x, y, z):
                return int(T[cell(x, 0), cell(y, 1), cell(z, 2)])

        def build(r):
            e = lp.Electron(density=lp.uniform_density(dim), ppc=ppc)
            s = lp.make_sim(dim, n, npatch, per, cpml=1, ng=1, species=[e])
            s.initialize()
            return s
        sims, w = lp.world_sims(simmpi, size, build)
        ctx.add("transitions", w.nops)
        ctx.add("traces")
        if not w.ok():
            ctx.violation(f"start:{dim}d:{size}", w.report(), case)
            return
        ctx.state(case, [[p.index for p in s.patches] for s in sims])
        e = owner_errors(sims, npatch, per)
        if e:
            ctx.violation(f"start:{dim}d:{size}", f"{case}: " + "; ".join(e[:5]), case)
            return
    ctx.sample(case)


def chain(ctx, dim, npatch, per, nper, size, alphabet, part=0, nparts=1):
    """a chain of rebalances driven through every load table"""
    boot()
    n = tuple(a * b for a, b in zip(npatch, nper))
    N = int(np.prod(npatch))
    sims = [None] * size
    case = dict(kind="chain", npatch=npatch, per=per, size=size)
    ctx.case(case)

    def init(r):
        sims[r] = lp.make_sim(dim, n, npatch, per, cpml=1, ng=1)
        sims[r].initialize()
    w = simmpi.World(size, simmpi.MODES["eager"])
    w.run(init)
    if not w.ok():
        ctx.violation(f"init:{dim}d:{size}", w.report(), case)
        return
    nc = w.ncomm
    for k, table in enumerate(itertools.product(alphabet, repeat=N)):
        if k % nparts != part:
            continue
        c = dict(case, loads=table)
        ctx.case(c)
        w = simmpi.World(size, simmpi.MODES["eager"])
        w.ncomm = nc

        def body(r):
            s = sims[r]
            s.load_balancer.load_function = lambda p: float(table[p.index])
            s.load_balancer.threshold = -1.0
            s.run(nsteps=1)
        w.run(body)
        nc = w.ncomm
        ctx.add("transitions", w.nops)
        ctx.add("traces")
        if not w.ok():
            ctx.violation(f"chain:{dim}d:{size}", w.report(), c)
            return
        ctx.state(case, table, [[p.index for p in s.patches] for s in sims])
        e = owner_errors(sims, npatch, per)
        if e:
            ctx.violation(f"chain:{dim}d:{size}", f"{c}: " + "; ".join(e[:5]), c)
            return
    ctx.sample(c)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    for npatch, per in (((2, 1), "pp"), ((1, 2), "op"), ((3, 1), "pp"), ((2, 2), "oo"), ((2, 2), "pp")):
        N = int(np.prod(npatch))
        if not all(k == "p" or m > 1 for k, m in zip(per, npatch)):
            per = "pp"
        for size in range(2, N + 1):
            J.append((f"start{npatch}-{per}-{size}", start, dict(dim=2, npatch=npatch, per=per, nper=(2, 2), size=size, alphabet=(0, 1, 40))))
            J.append((f"chain{npatch}-{per}-{size}", chain, dict(dim=2, npatch=npatch, per=per, nper=(4, 4), size=size, alphabet=(1, 8, 5000))))
    for npatch, per in (((3, 2), "oo"), ((3, 2), "pp"), ((2, 3), "op")):
        for size in (2, 3, 4, 6) if big else (2, 3, 4):
            J.append((f"chain{npatch}-{per}-{size}", chain, dict(dim=2, npatch=npatch, per=per, nper=(3, 3), size=size, alphabet=(1, 8, 5000), part=0, nparts=1 if big else 5)))
            J.append((f"start{npatch}-{per}-{size}", start, dict(dim=2, npatch=npatch, per=per, nper=(2, 2), size=size, alphabet=(0, 1, 40), mask_every=3 if big else 23)))
    for npatch, per in (((2, 2, 1), "ppp"), ((1, 2, 2), "pop"), ((2, 2, 2), "ooo")):
        N = int(np.prod(npatch))
        for size in (2, 3, 4):
            J.append((f"start{npatch}-{per}-{size}", start, dict(dim=3, npatch=npatch, per=per, nper=(2, 2, 2), size=size, alphabet=(0, 30), mask_every=1 if N == 4 or big else 11)))
            J.append((f"chain{npatch}-{per}-{size}", chain, dict(dim=3, npatch=npatch, per=per, nper=(3, 3, 3), size=size, alphabet=(1, 5000), part=0, nparts=1 if N == 4 or big else 6)))
    return J


COVERAGE = "grids up to 2x2 (all), 3x2 and 2x2x2 (strided) on 2-6 processes; every table of loads over {0/1, small, dominating} per patch at start-up and in chains of rebalances"
ASSUMPTIONS = ["the installed METIS is deterministic for its fixed seed"]
