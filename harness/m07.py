"""M07: decomposition independence."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of patch grids, process assignments and rank schedules; every step of every run compared with the reference decomposition"
NOTE = "Deterministic physics (Maxwell, pusher, deposition, migration, absorbing layers); every patch grid dividing the domain, all assignments of small grids to 2-3 processes, rank orders and buffer modes; tolerance 1e-9 relative."
ASSUMPTIONS = ["random processes (collisions, QED, random loading) are excluded: their streams are per patch by design", "MPI is simulated",
               "cells of absorbing boundaries: particles stay away from the outermost patches' layers"]
FIELDS = ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho")
TOL = 1e-9


def boot():
    global lp, simmpi
    from vlib import lp as lp_, simmpi as sm
    lp, simmpi = lp_, sm


def problem(dim, n, d, per, count, variant):
    """fields and particles of the problem, independent of the decomposition"""
    amp = 3e12

    def f(k):
        def g(*i):
            v = 0
            for a, (ii, nn) in enumerate(zip(i, n)):
                if per[a] == "p":
                    v = v + np.sin(2 * np.pi * (ii * (1 + (k + a) % 2) + 0.3 * k) / nn)
                else:
                    v = v + np.exp(-((ii - nn / 2 + 0.5) / (nn / 6)) ** 2) * np.cos(k + ii)
            return amp * v * (1 if k < 3 else 1 / lp.C)
        return g
    funcs = {a: f(k) for k, a in enumerate(FIELDS[:6])}
    parts = []
    for k in range(2):
        pp = lp.plasma(dim, n, d, count, seed=k + 5 + 100 * variant, umax=3.0 if k == 0 else 0.05, wbase=(1e11 if dim == 2 else 5e3) * (1 + k))
        q = []
        for j, m in enumerate(pp):
            for a, ax in enumerate("xyz"[:dim]):
                if per[a] == "o":      # stay clear of the absorbing layers
                    lo, hi = 3.6, n[a] - 4.6
                    u = m[ax] / d[a]
                    m[ax] = (lo + (u + 0.5) / n[a] * (hi - lo)) * d[a]
            q.append(m)
        parts.append(q)
    pp0 = 1e11 if dim == 2 else 5e3
    # a few particles exactly on patch faces (half-integer cells) of many decompositions
    for j in range(3):
        m = dict(parts[0][j], w=pp0 * (1.7 + j / 64.0))
        for a, ax in enumerate("xyz"[:dim]):
            m[ax] = (n[a] // 2 - (1 if j == 2 else 0) + (0 if a == j else 0.2)) * d[a] - 0.5 * d[a]
        parts[0].append(m)
    return funcs, parts


def simulate(dim, n, d, npatch, per, size, ranks, steps, count, variant, mode="eager", chooser=None, split=None, staged=False):
    """returns (world, [per step: fields dict, particle arrays])"""
    from lambdapic import callback as cbk
    funcs, parts = problem(dim, n, d, per, count, variant)
    snaps = [[] for _ in range(size)]
    W = {}

    def build(r):
        sp = [lp.Electron(), lp.Proton()]
        s = lp.make_sim(dim, n, npatch, per, d=d, ng=3, cpml=3, species=sp)
        s.initialize()
        lp.set_fields_from(s, funcs)
        ax = "xyz"[:dim]
        for k in range(2):
            for p in s.patches:
                mine = [q for q in parts[k] if lp.home_patch(s, [q[a] for a in ax]) == lp.ipatch_of(s, p)]
                q = p.particles[k]
                q.initialize(len(mine))
                for a in ax:
                    getattr(q, a)[:] = [m[a] for m in mine]
                for a in ("ux", "uy", "uz", "w"):
                    getattr(q, a)[:] = [m[a] for m in mine]
                q.inv_gamma[:] = 1 / np.sqrt(1 + q.ux ** 2 + q.uy ** 2 + q.uz ** 2)
                q.extended = True
        s.update_lists()

        def rec(sim):
            F = {(lp.ipatch_of(sim, p), a): lp.interior(sim, p, getattr(p.fields, a)).copy() for p in sim.patches for a in FIELDS}
            P = []
            for k in range(2):
                rows = [np.column_stack([getattr(p.particles[k], a)[~p.particles[k].is_dead] for a in ("w",) + tuple(ax) + ("ux", "uy", "uz", "inv_gamma")]) for p in sim.patches]
                P.append(np.concatenate(rows))
            snaps[r].append((F, P))
        cbs = [cbk("end")(rec)]
        for st in (["_qed"] if staged is True else staged or []):
            cbs.append(cbk(st)(lambda sim: None))
        for k in (split or [steps]):
            s.run(nsteps=k, callbacks=cbs)
        return s
    sims, w = lp.world_sims(simmpi, size, build, ranks, mode, chooser)
    out = []
    if w.ok():
        nper = lp.cells(sims[0])[2]
        for i in range(steps):
            G = {}
            for a in FIELDS:
                g = np.full(n, np.nan)
                for r in range(size):
                    for (c, aa), v in snaps[r][i][0].items():
                        if aa == a:
                            g[tuple(slice(x * m, (x + 1) * m) for x, m in zip(c, nper))] = v
                G[a] = g
            P = []
            for k in range(2):
                t = np.concatenate([snaps[r][i][1][k] for r in range(size)])
                P.append(t[np.argsort(t[:, 0], kind="stable")])
            out.append((G, P))
    return w, out


def differ(n, d, per, ref, got, tol=TOL):
    """first difference of two trajectories, or None"""
    dim = len(n)
    for i, ((G0, P0), (G1, P1)) in enumerate(zip(ref, got)):
        for grp in (FIELDS[:3], FIELDS[3:6], FIELDS[6:9], FIELDS[9:]):
            sc = max(np.abs(G0[a]).max() for a in grp)
            for a in grp:
                if np.isnan(G1[a]).any():
                    return f"step {i}: {a} has NaN or missing cells", a
                e = np.abs(G0[a] - G1[a])
                if sc and e.max() > tol * sc:
                    c = tuple(int(x) for x in np.unravel_index(e.argmax(), e.shape))
                    return f"step {i}: {a}{c} = {G1[a][c]!r}, reference {G0[a][c]!r} (scale {sc:.3e})", a
        for k, (a, b) in enumerate(zip(P0, P1)):
            if a.shape != b.shape or not np.array_equal(a[:, 0], b[:, 0]):
                return f"step {i}: species {k}: {len(b)} particles, reference {len(a)}", "count"
            for j in range(dim):
                L = n[j] * d[j]
                x = b[:, 1 + j] - a[:, 1 + j]
                if per[j] == "p":
                    x = x - np.round(x / L) * L
                if np.abs(x).max(initial=0) > tol * L:
                    m = np.abs(x).argmax()
                    return f"step {i}: species {k}: {'xyz'[j]} of a particle is {b[m, 1 + j]!r}, reference {a[m, 1 + j]!r}", "position"
            e = np.abs(a[:, 1 + dim:] - b[:, 1 + dim:])
            if e.size and e.max() > tol * 10:
                m, j = np.unravel_index(e.argmax(), e.shape)
                return f"step {i}: species {k}: {('ux', 'uy', 'uz', 'inv_gamma')[j]} is {b[m, 1 + dim + j]!r}, reference {a[m, 1 + dim + j]!r}", "momentum"
    if len(ref) != len(got):
        return "different number of steps", "steps"
    return None


def grids(ctx, dim, n, d, pers, ref_grid, grid_list, steps, count, variants, size=1, ranklists=None, modes=("eager",), perms=None, staged=False):
    boot()
    for per in pers:
        rg = tuple(1 if k == "p" else m for k, m in zip(per, ref_grid)) if dim == 2 else ref_grid
        for variant in variants:
            w, ref = simulate(dim, n, d, rg, per, 1, None, steps, count, variant, staged=staged)
            if not w.ok():
                ctx.violation(f"run:{dim}d", w.report(), dict(npatch=rg, per=per))
                return
            moved = sum(np.abs(ref[0][0][a]).max() > 0 for a in ("jx", "jy", "jz", "rho"))
            if moved < 4:
                raise RuntimeError("reference run deposits nothing")
            for npatch in grid_list:
                nper = tuple(a // b for a, b in zip(n, npatch))
                if not lp.pml_ok(dim, npatch, per) or ("o" in per and min(nper) <= 3):
                    continue
                for ranks in (ranklists(npatch) if callable(ranklists) else [None]):
                    for mode in modes:
                        for perm in (perms or [None]):
                            case = dict(kind="grid", n=n, npatch=npatch, per=per, ranks=ranks, mode=mode, perm=perm, variant=variant, staged=staged)
                            ctx.case(case)
                            ch = simmpi.Chooser(order=perm, rr=perm is None) if size > 1 else None
                            w, got = simulate(dim, n, d, npatch, per, size, ranks, steps, count, variant, mode, ch, staged=staged)
                            ctx.add("transitions", steps)
                            ctx.add("traces")
                            ctx.add("mpi_ops", w.nops)
                            ctx.state(case)
                            if not w.ok():
                                ctx.violation(f"run:{dim}d", w.report(), case)
                                return
                            r = differ(n, d, per, ref, got)
                            if r:
                                ctx.violation(f"{r[1]}:{dim}d", f"{case}: {r[0]}", case)
                                return
    ctx.sample(case)


class Ranks:
    """assignments of the patches of a grid to processes"""

    def __init__(self, size, limit=None):
        self.size, self.limit = size, limit

    def __call__(self, npatch):
        n = int(np.prod(npatch))
        if n < self.size:
            return []
        rl = lp.partitions_upto(n, self.size) if n <= 8 else [tuple((k * self.size) // n for k in range(n)), tuple(k % self.size for k in range(n)),
                                                              tuple((k * k + k // 3) % self.size for k in range(n))]
        if self.limit and len(rl) > self.limit:
            step = len(rl) / self.limit
            rl = [rl[int(i * step)] for i in range(self.limit)]
        return rl


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    d2, d3 = (0.1e-6, 0.07e-6), (0.1e-6, 0.07e-6, 0.08e-6)
    n = (12, 12)
    div = [1, 2, 3, 4]
    allg = list(itertools.product(div, div))
    for per in ("pp", "po", "op", "oo"):
        for st in (False, True):
            J.append((f"grids2d-{per}-{st}", grids, dict(dim=2, n=n, d=d2, pers=[per], ref_grid=(2, 2), grid_list=allg, steps=12 if big else 5, count=25, variants=(0, 1, 2) if big else (0,), staged=st)))
    n2 = (24, 16)
    J.append(("grids2d-24x16", grids, dict(dim=2, n=n2, d=d2, pers=["pp", "oo"], ref_grid=(2, 2), grid_list=[(1, 4), (8, 4), (3, 1), (4, 2), (6, 4), (3, 2)], steps=20 if big else 6, count=80, variants=(0,))))
    n3 = (8, 8, 8)
    g3 = list(itertools.product((1, 2), (1, 2), (1, 2)))
    for per in ("ppp", "opp", "pop", "ppo", "oop", "ooo"):
        J.append((f"grids3d-{per}", grids, dict(dim=3, n=n3, d=d3, pers=[per], ref_grid=(2, 2, 2) if per == "ooo" else (1, 2, 1) if per == "oop" else (1, 1, 1),
                                                grid_list=g3, steps=6 if big else 3, count=25, variants=(0, 1) if big else (0,))))
    J.append(("grids3d-12", grids, dict(dim=3, n=(12, 6, 9), d=d3, pers=["ppp"], ref_grid=(1, 1, 1), grid_list=[(4, 2, 3), (3, 2, 1), (2, 1, 3)], steps=3, count=40, variants=(0,))))
    J.append(("grids3d-staged", grids, dict(dim=3, n=n3, d=d3, pers=["ppp"], ref_grid=(1, 1, 1), grid_list=g3, steps=2, count=25, variants=(0,), staged=True)))
    for size in (2, 3) + ((4,) if big else ()):
        perms = [None] + list(itertools.permutations(range(size)))
        for npatch in ((2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 1)):
            if npatch[0] * npatch[1] >= size:
                J.append((f"mpi2d-{size}-{npatch}", grids, dict(dim=2, n=n, d=d2, pers=["pp", "oo"], ref_grid=(2, 2), grid_list=[npatch], steps=3, count=25, variants=(0,),
                                                                size=size, ranklists=Ranks(size, None if big else 6), modes=("late", "rendezvous", "eager") if big else ("late",), perms=perms if big else [None, perms[1], perms[-1]])))
        J.append((f"mpi2d-{size}-44", grids, dict(dim=2, n=n, d=d2, pers=["pp"], ref_grid=(2, 2), grid_list=[(4, 4), (4, 3)], steps=5, count=25, variants=(0,), size=size, ranklists=Ranks(size), modes=("late",), perms=[None])))
        J.append((f"mpi3d-{size}", grids, dict(dim=3, n=n3, d=d3, pers=["ppp", "ooo"] if big else ["ppp"], ref_grid=(2, 2, 2) if big else (1, 1, 1), grid_list=[(2, 1, 2), (2, 2, 2), (1, 2, 2)] if big else [(2, 1, 2), (2, 2, 2)], steps=2, count=25, variants=(0,),
                                               size=size, ranklists=Ranks(size, 40 if big else 3), modes=("late",), perms=[None])))
        J.append((f"mpi2d-{size}-staged", grids, dict(dim=2, n=n, d=d2, pers=["pp", "oo"], ref_grid=(2, 2), grid_list=[(2, 2), (3, 2), (4, 3)], steps=4, count=40, variants=(0, 1) if big else (1,), size=size, ranklists=Ranks(size, None if big else 3), modes=("late",), perms=[None], staged=True)))
        J.append((f"mpi3d-{size}-staged", grids, dict(dim=3, n=n3, d=d3, pers=["ppp"], ref_grid=(1, 1, 1), grid_list=[(2, 1, 2), (1, 2, 2), (2, 2, 1)], steps=3, count=40, variants=(0, 1) if big else (1,), size=size, ranklists=Ranks(size, None if big else 2), modes=("late",), perms=[None], staged=True)))
    return J


COVERAGE = "all 16 patch grids of a 12x12 domain for all boundary kinds, fused and staged pusher; all 8 grids of an 8x8x8 domain; assignments of up to 6 patches (quick: up to 6 of them per grid) to 2-3 processes, 3 schedules"
