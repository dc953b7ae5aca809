"""M08: rebalancing is transparent."""
import itertools

import numpy as np

from harness import m07

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of ownership transitions (old, new) and chains of them on the real rebalancing code under a simulated MPI, state compared bitwise with the same step without rebalancing"
NOTE = "Every (old, new) ownership pair of 4 patches on 2-3 processes, chains with a rebalance every step, 5 buffer modes and all rank orders on selected ones; whole patch state (guards, absorbing-layer memory, all particle attributes) compared bitwise right after migration, trajectories to 1e-9."
ASSUMPTIONS = ["the partitioner (external library) is replaced by the driver's choice of ownership", "MPI is simulated"]
MODES = ("eager", "late", "latecap", "latewrite", "rendezvous")
EMJ = ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho")


def boot():
    global lp, simmpi
    m07.boot()
    lp, simmpi = m07.lp, m07.simmpi


def state_of(sim):
    """everything a patch owns, keyed by its grid position"""
    out = {}
    for p in sim.patches:
        d = {}
        for a in EMJ:
            d["fields." + a] = getattr(p.fields, a).copy()
        for q in p.pml_boundary:
            for k, v in vars(q).items():
                if isinstance(v, np.ndarray):
                    d[f"{type(q).__name__}.{k}"] = v.copy()
                elif isinstance(v, (int, float, tuple)):
                    d[f"{type(q).__name__}.{k}"] = np.asarray(v)
            d[f"{type(q).__name__}.linked"] = np.asarray(q.fields is p.fields)
        for s, q in enumerate(p.particles):
            al = ~q.is_dead
            for a in q.attrs:
                d[f"particles{s}.{a}"] = getattr(q, a)[al].copy()
            d[f"particles{s}.npart"] = np.asarray(q.npart)
            d[f"particles{s}.dead"] = q.is_dead.copy()
        for k in ("index", "nx", "ny", "nz", "dx", "dy", "dz", "x0", "y0", "z0", "n_guard", "xmin", "xmax", "ymin", "ymax", "zmin", "zmax", "dimension"):
            if hasattr(p, k):
                d[k] = np.asarray(getattr(p, k))
        for k in ("x0", "y0", "z0", "nx", "ny", "nz"):
            if hasattr(p.fields, k):
                d["fields." + k] = np.asarray(getattr(p.fields, k))
        d["neighbor_index"] = np.array(p.neighbor_index)
        out[lp.ipatch_of(sim, p)] = d
    return out


def same(a, b):
    """text of the first difference between two patch states"""
    if set(a) != set(b):
        return f"items {sorted(set(a) ^ set(b))[:4]} exist on one side only", "items"
    for k in a:
        if a[k].shape != b[k].shape or not np.array_equal(a[k].view(np.int64) if a[k].dtype == float and a[k].ndim else a[k], b[k].view(np.int64) if b[k].dtype == float and b[k].ndim else b[k]):
            return f"{k} differs", k.split(".")[0]
    return None


def run(dim, npatch, nper, per, size, ranks, chain, mode, chooser, d, count=18, steps=None, staged=False):
    """steps steps; before step i the owner table chain[i] is forced (None: no rebalance).
    Returns world, per-step list of (patch states right after rebalancing, topology errors, fields, particles)"""
    from lambdapic import callback as cbk
    n = tuple(a * b for a, b in zip(npatch, nper))
    funcs, parts = m07.problem(dim, n, d, per, count, 0)
    ax = "xyz"[:dim]
    steps = steps or len(chain)
    after = [[None] * steps for _ in range(size)]
    ends = [[None] * steps for _ in range(size)]
    topo = [[] for _ in range(steps)]
    holder = [None] * size
    P = lp.partition()
    P.queue = [list(ranks)] + [list(c) for c in chain if c is not None]

    def build(r):
        el, ph, io = lp.Electron(), lp.Photon(), lp.Proton()
        s = lp.make_sim(dim, n, npatch, per, d=d, ng=2, cpml=2, species=[el, io, ph])
        holder[r] = s
        s.initialize()
        lp.set_fields_from(s, funcs)
        for p in s.patches:
            k = int(np.ravel_multi_index(lp.ipatch_of(s, p), npatch))
            for j, z in enumerate(p.pml_boundary):
                for nm, v in sorted(vars(z).items()):
                    if nm.startswith("psi") and isinstance(v, np.ndarray):
                        v[...] = 0     # layers start empty; the run fills them
            for i in range(2):
                mine = [q for q in parts[i] if lp.home_patch(s, [q[a] for a in ax]) == lp.ipatch_of(s, p)]
                q = p.particles[i]
                q.initialize(len(mine) + k % 3)
                for a in list(ax) + ["ux", "uy", "uz", "w"]:
                    getattr(q, a)[:len(mine)] = [m[a] for m in mine]
                q.inv_gamma[:] = 1 / np.sqrt(1 + q.ux ** 2 + q.uy ** 2 + q.uz ** 2)
                q.is_dead[len(mine):] = True
                q.extended = True
        s.update_lists()
        it = [0]

        def aft(sim):
            after[r][it[0]] = state_of(sim)
            sim.mpi.comm.Barrier()
            if r == 0:
                topo[it[0]] += lp.topology_errors(holder, per, npatch) + lp.geometry_errors(holder, npatch)
            sim.mpi.comm.Barrier()

        def end(sim):
            rows = []
            for i in range(2):
                t = [np.column_stack([getattr(p.particles[i], a)[~p.particles[i].is_dead] for a in ("w",) + tuple(ax) + ("ux", "uy", "uz", "inv_gamma")]) for p in sim.patches]
                rows.append(np.concatenate(t) if t else np.zeros((0, 5 + dim)))
            ends[r][it[0]] = ({(lp.ipatch_of(sim, p), a): lp.interior(sim, p, getattr(p.fields, a)).copy() for p in sim.patches for a in EMJ}, rows)
        for i in range(steps):
            it[0] = i
            s.load_balancer.threshold = np.inf if chain[i] is None else -1.0
            s.run(nsteps=1, callbacks=[cbk("qed_create_particles")(aft), cbk("end")(end)] + ([cbk("_qed")(lambda sim: None)] if staged else []))
        return s
    w = simmpi.World(size, simmpi.MODES[mode], chooser)
    w.run(build)
    out = []
    if w.ok():
        if P.queue:
            raise RuntimeError("a forced rebalance did not take place")
        for i in range(steps):
            st = {}
            for r in range(size):
                for c, v in after[r][i].items():
                    st[c] = (v, r)
            G = {}
            for a in EMJ:
                g = np.full(n, np.nan)
                for r in range(size):
                    for (c, aa), v in ends[r][i][0].items():
                        if aa == a:
                            g[tuple(slice(x * m, (x + 1) * m) for x, m in zip(c, nper))] = v
                G[a] = g
            Q = []
            for k in range(2):
                t = np.concatenate([ends[r][i][1][k] for r in range(size)])
                Q.append(t[np.argsort(t[:, 0], kind="stable")])
            out.append((st, topo[i], (G, Q)))
    return w, out


def transitions(ctx, dim, npatch, nper, per, size, olds, chains, modes, perms, d, staged=False):
    boot()
    n = tuple(a * b for a, b in zip(npatch, nper))
    for old in olds:
        steps = len(chains[0])
        w, ref = run(dim, npatch, nper, per, size, old, [None] * steps, "eager", None, d, staged=staged)
        if not w.ok():
            ctx.violation(f"run:{dim}d", w.report(), dict(ranks=old))
            return
        for chain in chains:
            for mode in modes:
                for perm in perms:
                    case = dict(kind="rebalance", npatch=npatch, per=per, old=old, chain=chain, mode=mode, perm=perm, staged=staged)
                    ctx.case(case)
                    ctx.state(case)
                    w, got = run(dim, npatch, nper, per, size, old, list(chain), mode, simmpi.Chooser(order=perm, rr=perm is None), d, staged=staged)
                    ctx.add("transitions", steps)
                    ctx.add("traces")
                    ctx.add("mpi_ops", w.nops)
                    if not w.ok():
                        ctx.violation(f"mpi:{w.problems[0].split(':')[0] if w.problems else 'exception'}:{dim}d", w.report(), case)
                        return
                    first = next((i for i, c in enumerate(chain) if c is not None), None)
                    for i in range(steps):
                        if got[i][1]:
                            ctx.violation(f"topology:{dim}d", f"{case}: step {i}: " + "; ".join(got[i][1][:4]), case)
                            return
                        if first is not None and i <= first:
                            if set(got[i][0]) != set(ref[i][0]):
                                ctx.violation(f"patches:{dim}d", f"{case}: step {i}: patches {sorted(got[i][0])}", case)
                                return
                            for c in ref[i][0]:
                                r = same(ref[i][0][c][0], got[i][0][c][0])
                                if r:
                                    ctx.violation(f"state:{r[1]}:{dim}d", f"{case}: step {i}: patch {c} moved from process {ref[i][0][c][1]} to {got[i][0][c][1]}: {r[0]}", case)
                                    return
                        else:       # structure stays intact even when rounding differs
                            for c in ref[i][0]:
                                if set(ref[i][0][c][0]) != set(got[i][0][c][0]):
                                    ctx.violation(f"items:{dim}d", f"{case}: step {i}: patch {c}: {sorted(set(ref[i][0][c][0]) ^ set(got[i][0][c][0]))[:4]}", case)
                                    return
                                for z in ref[i][0][c][0]:
                                    if z.startswith("PML") and "psi" in z:
                                        a, b = ref[i][0][c][0][z], got[i][0][c][0][z]
                                        if np.abs(a - b).max() > 1e-9 * max(np.abs(a).max(), 1e-3):
                                            ctx.violation(f"psi:{dim}d", f"{case}: step {i}: patch {c}: {z} differs from the unbalanced run", case)
                                            return
                    r = m07.differ(n, d, per, [x[2] for x in ref], [x[2] for x in got])
                    if r:
                        ctx.violation(f"run:{r[1]}:{dim}d", f"{case}: {r[0]}", case)
                        return
    ctx.sample(case)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    from vlib import lp as L
    d2, d3 = (0.1e-6, 0.07e-6), (0.1e-6, 0.07e-6, 0.08e-6)

    def full(np_, size):
        return [t for t in itertools.product(range(size), repeat=np_) if len(set(t)) == size]
    for per in ("oo", "pp") if not big else ("oo", "pp", "po", "op"):
        A = full(4, 2)
        for k, old in enumerate(A):
            if not big and k % 2:
                continue
            J.append((f"pairs2d-22-2-{per}-{k}", transitions, dict(dim=2, npatch=(2, 2), nper=(5, 5), per=per, size=2, olds=[old], chains=[(t,) for t in A], modes=("late",), perms=[(0, 1)], d=d2)))
    A3 = full(4, 3)
    for k, old in enumerate(A3[::1 if big else 9]):
        J.append((f"pairs2d-22-3-{k}", transitions, dict(dim=2, npatch=(2, 2), nper=(5, 5), per="oo", size=3, olds=[old], chains=[(t,) for t in A3[::1 if big else 2]], modes=("late",), perms=[(0, 1, 2)], d=d2)))
    # chains: a rebalance at every step
    ch2 = [c for c in itertools.product([(0, 0, 1, 1), (1, 1, 0, 0), (0, 1, 0, 1), (1, 1, 1, 0), None], repeat=3) if any(c)]
    for k in range(4):
        J.append((f"chain2d-{k}", transitions, dict(dim=2, npatch=(2, 2), nper=(5, 5), per="oo", size=2, olds=[(0, 1, 1, 0)], chains=(ch2 if big else ch2[::2])[k::4], modes=("late",), perms=[None], d=d2)))
    J.append(("staged2d", transitions, dict(dim=2, npatch=(2, 2), nper=(5, 5), per="oo", size=2, olds=[(0, 1, 1, 0)], chains=ch2[1:: 3 if big else 9], modes=("late",), perms=[None], d=d2, staged=True)))
    J.append(("staged3d", transitions, dict(dim=3, npatch=(2, 1, 2), nper=(4, 4, 4), per="opo", size=2, olds=[(0, 1, 1, 0)], chains=ch2[1:: 3 if big else 12], modes=("late",), perms=[None], d=d3, staged=True)))
    J.append(("modes2d", transitions, dict(dim=2, npatch=(2, 2), nper=(5, 5), per="op", size=3, olds=[(0, 1, 2, 0)], chains=[((1, 2, 0, 0), (2, 2, 1, 0))], modes=MODES, perms=[None] + list(itertools.permutations(range(3))), d=d2)))
    J.append(("grid2d-32", transitions, dict(dim=2, npatch=(3, 2), nper=(5, 5), per="oo", size=3, olds=[(0, 0, 1, 1, 2, 2)], chains=[((2, 1, 0, 2, 1, 0), t) for t in L.partitions_upto(6, 3)[::(1 if big else 9)]], modes=("late",), perms=[(0, 1, 2)], d=d2)))
    B = full(4, 2)
    for npatch, per in (((2, 1, 2), "opo"), ((1, 2, 2), "ppp"), ((2, 2, 1), "oop")):
        J.append((f"pairs3d-{npatch}", transitions, dict(dim=3, npatch=npatch, nper=(4, 4, 4), per=per, size=2, olds=[(0, 0, 1, 1), (0, 1, 1, 0)] if big else [(0, 1, 1, 0)], chains=[(t,) for t in (B if big else B[::3])], modes=("late",), perms=[(1, 0)], d=d3)))
    J.append(("pairs3d-222", transitions, dict(dim=3, npatch=(2, 2, 2), nper=(4, 4, 4), per="ooo", size=3, olds=[(0, 1, 2, 0, 1, 2, 0, 1)], chains=[((1, 2, 0, 2, 1, 0, 0, 1), (2, 2, 2, 0, 0, 1, 1, 1)), ((0, 0, 0, 1, 1, 1, 2, 2), None)], modes=("late",), perms=[None], d=d3)))
    return J


COVERAGE = "see NOTE; 2x2, 3x2 patch grids in 2D, 4 and 8 patches in 3D"
