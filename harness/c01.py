"""C01: pairing of particles in collisions."""
import itertools
import math

import numpy as np

from vlib import jitjob

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of cell populations (every live/dead pattern of both groups), of every outcome of the shuffle, and of registration histories, on the real collision step under scripted generators; the pairs are read off the momenta that change between two draws"
NOTE = "Same-species buckets to 5 slots (all patterns, all 120 orders; 6 slots/720 orders thorough), two-species buckets to 4x4 slots (all patterns, all 24 orders; 5x5 thorough), larger counts to 12 with all rotations; running simulations 2D/3D with moving plasma, registration before/after initialisation, several groups, switched pairs, moving window, rebalancing."
ASSUMPTIONS = ["the two members of a pair are updated between consecutive uses of the generator (otherwise only the per-cell counts are judged)"]


def boot():
    global lp, coll, cbk
    from vlib import lp as L, coll as K
    from lambdapic import MovingWindow as cbk_
    lp, coll, cbk = L, K, cbk_


def rng(k):
    g = lp.lcg(k)
    return lambda: next(g)


def place(sim, p, ispec, cells, counts, r, w):
    """fill the slots so that cell i of the patch holds counts[i] particles"""
    q = p.particles[ispec]
    d = (sim.dx, sim.dy) if sim.dimension == 2 else (sim.dx, sim.dy, sim.dz)
    k = 0
    for c, m in zip(cells, counts):
        for _ in range(m):
            for a, i, h in zip("xyz", c, d):
                getattr(q, a)[k] = getattr(p, a + "min") + (i - 0.4 + 0.8 * r()) * h
            u = np.array([2 * r() - 1 for _ in range(3)]) * 0.3
            q.ux[k], q.uy[k], q.uz[k] = u
            q.inv_gamma[k] = 1 / math.sqrt(1 + u @ u)
            q.w[k] = w
            q.is_dead[k] = False
            k += 1


def judge(ctx, sim, events, pairs, case, key, live=None):
    """events: changed slots, one list per collision; pairs: enabled (ispec, ispec) pairs in any order"""
    pairs = {tuple(sorted(p)) for p in pairs}
    cells = [[coll.cell_of(sim, q) for q in p.particles] for p in sim.patches]
    live = live or [[~q.is_dead for q in p.particles] for p in sim.patches]
    met = {}
    fine = all(len(e) <= 2 for e in events)
    for e in events:
        for ip, isp, i in e:
            if not live[ip][isp][i]:
                return ctx.violation(f"dead:{key}", f"{case}: slot {i} of species {isp} holds no live particle but collided", case)
            if fine is False:
                met.setdefault((ip, isp, i), []).append(None)
        if not fine:
            continue
        if len(e) == 1:
            return ctx.violation(f"single:{key}", f"{case}: a collision changed one particle only (paired with itself?): {e}", case)
        (p1, s1, i1), (p2, s2, i2) = e
        if p1 != p2 or cells[p1][s1][i1] != cells[p2][s2][i2]:
            return ctx.violation(f"cell:{key}", f"{case}: particles of different cells collided: {e}", case)
        pr = tuple(sorted((s1, s2)))
        if pr not in pairs:
            return ctx.violation(f"group:{key}", f"{case}: species {pr} collided, registered and enabled are {sorted(pairs)}", case)
        met.setdefault((p1, s1, i1, pr), []).append(i2)
        met.setdefault((p2, s2, i2, pr), []).append(i1)
        ctx.add("transitions")
    # due numbers
    for ip in range(len(cells)):
        for (a, b) in pairs:
            ca, cb = cells[ip][a], cells[ip][b]
            for c in sorted(set(ca[live[ip][a]]) | set(cb[live[ip][b]])):
                A = np.flatnonzero(live[ip][a] & (ca == c))
                B = np.flatnonzero(live[ip][b] & (cb == c))
                if not fine:
                    continue
                na = sorted(len(met.get((ip, a, int(i), (a, b)), ())) for i in A)
                if a == b:
                    n = len(A)
                    want = [0] * n if n < 2 else [1] * n if n % 2 == 0 else [1] * (n - 1) + [2]
                    if na != want:
                        return ctx.violation(f"count:same:{key}", f"{case}: {n} particles of species {a} in one cell collided {na} times each, due is {want}", case)
                    if n == 3 or n % 2:
                        for i in A:
                            m = met.get((ip, a, int(i), (a, b)), [])
                            if len(m) == 2 and m[0] == m[1] and n > 2:
                                return ctx.violation(f"twice:same:{key}", f"{case}: particle paired twice with the same partner among {n}", case)
                else:
                    nb = sorted(len(met.get((ip, b, int(i), (a, b)), ())) for i in B)
                    if not len(A) or not len(B):
                        want = None
                        if sum(na) + sum(nb):
                            return ctx.violation(f"count:inter:{key}", f"{case}: collisions with an empty group", case)
                        continue
                    big, small = (na, nb) if len(A) >= len(B) else (nb, na)
                    if any(x != 1 for x in big) or sum(small) != len(big) or max(small) - min(small) > 1:
                        return ctx.violation(f"count:inter:{key}", f"{case}: {len(A)} with {len(B)} particles: partners of the larger group {big}, of the smaller {small}", case)
    return True


def step(sim):
    for s in sim.sorter:
        s()


def kill(sim, ispec, ip, patterns):
    """patterns: per cell number a tuple of live flags in slot order after sorting"""
    q = sim.patches[ip].particles[ispec]
    c = coll.cell_of(sim, q)
    for cell, pat in patterns.items():
        idx = np.flatnonzero((c == cell) & ~q.is_dead)
        assert len(idx) == len(pat), (len(idx), pat)
        for i, alive in zip(idx, pat):
            q.is_dead[i] = not alive


def cellno(sim, p, c):
    d = (sim.dx, sim.dy) if sim.dimension == 2 else (sim.dx, sim.dy, sim.dz)
    f = 0
    for a, i, h in zip("xyz", c, d):
        f = f * 100003 + int(round(getattr(p, a + "min") / h)) + i
    return f


def patterns(ctx, kind, dim, nmax, part=(0, 1)):
    """every live/dead pattern of buckets up to nmax slots x every outcome of the shuffle"""
    boot()
    pats = [p for n in range(nmax + 1) for p in itertools.product((True, False), repeat=n)]
    if kind == "same":
        combos = [(a, ()) for a in pats]
    else:
        combos = list(itertools.product(pats, pats))
    combos = [c for i, c in enumerate(combos) if i % part[1] == part[0]]
    side = 12 if dim == 2 else 6
    per = side ** dim
    F = math.factorial(nmax)
    perms = {n: list(itertools.permutations(range(n))) for n in range(nmax + 1)}
    perms[0] = [()]
    el, io = lp.Electron(density=lp.uniform_density(dim, 1e20), ppc=1), lp.Proton(density=lp.uniform_density(dim, 1e20), ppc=1)
    groups = [[el, el]] if kind == "same" else [[el, io]]
    sim = coll.make(dim, (side,) * dim, (1,) * dim, [el, io], groups, nslot=per * nmax + 8, cpml=3)
    sim.collision.lnLambda = 8.0
    p = sim.patches[0]
    allcells = list(itertools.product(range(side), repeat=dim))
    for lo in range(0, len(combos), per):
        chunk = combos[lo:lo + per]
        coll.resize(sim, per * nmax + 8)
        r = rng(lo + 17)
        place(sim, p, 0, allcells, [len(a) for a, _ in chunk], r, 1e13)
        place(sim, p, 1, allcells, [len(b) for _, b in chunk], r, 1e13)
        step(sim)
        kill(sim, 0, 0, {cellno(sim, p, c): a for c, (a, _) in zip(allcells, chunk)})
        kill(sim, 1, 0, {cellno(sim, p, c): b for c, (_, b) in zip(allcells, chunk)})
        base = [[getattr(q, a).copy() for a in ("ux", "uy", "uz", "inv_gamma")] for q in p.particles]
        sim.collision.calculate_debye_length()
        for run in range(F):
            for q, o in zip(p.particles, base):
                for a, v in zip(("ux", "uy", "uz", "inv_gamma"), o):
                    getattr(q, a)[:] = v
            case = dict(kind=kind, dim=dim, chunk=lo, order=run)
            ctx.case(case)
            coll.script.perm = lambda n, k: perms[n][run % len(perms[n])] if n <= nmax else np.roll(np.arange(n), run)
            w = coll.Watch(sim)
            ev = w.run(lambda: sim.collision(1e-16))
            ctx.state((kind, dim, lo, run))
            if not judge(ctx, sim, ev, [(0, 0)] if kind == "same" else [(0, 1)], case, f"{dim}d"):
                return
            if not ev and any(sum(a) > 1 for a, _ in chunk):
                return ctx.violation(f"none:{dim}d", f"{case}: no collision at all", case)
    ctx.info.setdefault("bounds", {})[f"{kind}:{dim}d:{part[0]}"] = dict(patterns=len(combos), orders=F, slots=nmax)


def counts(ctx, dim, nmax, nrot):
    """larger populations: every pair of counts, rotations and reversals of the order"""
    boot()
    combos = list(itertools.product(range(nmax + 1), repeat=2))
    side = int(math.ceil(len(combos) ** (1 / dim)))
    side += side % 2
    side = max(side, 6)
    el, io = lp.Electron(density=lp.uniform_density(dim, 1e20), ppc=1), lp.Proton(density=lp.uniform_density(dim, 1e20), ppc=1)
    sim = coll.make(dim, (side,) * dim, (1,) * dim, [el, io], [[el, el, io, io]], nslot=8, cpml=3)
    tot = [sum(c[k] for c in combos) for k in (0, 1)]
    coll.resize(sim, max(tot) + 10)
    sim.collision.lnLambda = 8.0
    p = sim.patches[0]
    allcells = list(itertools.product(range(side), repeat=dim))
    r = rng(3)
    place(sim, p, 0, allcells, [a for a, _ in combos], r, 1e12)
    place(sim, p, 1, allcells, [b for _, b in combos], r, 1e12)
    step(sim)
    sim.collision.calculate_debye_length()
    for run in range(nrot):
        for rev in (False, True):
            case = dict(kind="counts", dim=dim, nmax=nmax, rotation=run, reverse=rev)
            ctx.case(case)
            ctx.state(case)
            coll.script.perm = lambda n, k: np.roll(np.arange(n), run + (k % 3))[::-1 if rev else 1]
            ev = coll.Watch(sim).run(lambda: sim.collision(1e-17))
            if not judge(ctx, sim, ev, [(0, 0), (0, 1), (1, 1)], case, f"counts:{dim}d"):
                return


def groups_job(ctx, dim, nsteps, hist):
    """running simulations: the pairs of every step are the due ones among the particles as they are then"""
    boot()
    C = lp.C
    for when, grp, npatch, sw in hist:
        n = (12, 12) if dim == 2 else (8, 8, 8)
        sp = [lp.Electron(density=lp.uniform_density(dim, 1e18), ppc=3), lp.Proton(density=lp.uniform_density(dim, 1e18), ppc=2), lp.Positron(density=lp.uniform_density(dim, 1e18), ppc=1)]
        G = [[sp[i] for i in g] for g in grp]
        pairs = {tuple(sorted((a, b))) for g in grp for a, b in itertools.combinations(g, 2)}
        case = dict(dim=dim, when=when, groups=grp, npatch=npatch, switch=sw)
        ctx.case(case)
        ctx.state(case)
        per = "op" if sw == "window" and dim == 2 else "opp" if sw == "window" else "p" * dim
        sim = coll.make(dim, (24,) + n[1:] if sw == "window" else n, npatch, sp, G, when="before" if when == "before" else "never", cpml=3, per=per)
        for p in sim.patches:
            r = rng(5 + p.index)
            for s, drift in zip(sp, (-0.6, -0.3, 0.8)):
                q = p.particles[s.ispec]
                for i in range(q.npart):
                    u = [drift + 0.3 * r(), 0.5 * r() - 0.2, 0.4 * r() - 0.1]
                    q.ux[i], q.uy[i], q.uz[i] = u
                    q.inv_gamma[i] = 1 / math.sqrt(1 + sum(x * x for x in u))
                    q.w[i] = 1e6      # one weight: every collision changes both
        bad = []
        enabled = set(pairs)
        watched = [0]
        rest = rng(99)

        def watch_collision():
            orig = type(sim.collision).__call__
            w = coll.Watch(sim)
            cls = type(sim.collision)

            class Seen(cls):
                def __call__(self, dt):
                    live = [[~q.is_dead for q in p.particles] for p in sim.patches]
                    for p in sim.patches:      # plasma the window brought in is at rest: nothing would be seen
                        for q in p.particles:
                            for i in np.flatnonzero(~q.is_dead & (q.ux == 0) & (q.uy == 0) & (q.uz == 0)):
                                q.ux[i], q.uy[i], q.uz[i] = u = np.array([0.3 * rest() - 0.1, 0.3 * rest(), 0.2 * rest()])
                                q.inv_gamma[i] = 1 / math.sqrt(1 + u @ u)
                                q.w[i] = 1e6
                    coll.script.perm = lambda n, k: np.roll(np.arange(n), k + watched[0])
                    self.lnLambda = 0.0
                    ev = w.run(lambda: orig(self, dt * 1e18))
                    watched[0] += 1
                    k = f"run:{dim}d:{when}:{sw}"
                    if not bad and not judge(ctx, sim, ev, enabled, dict(case, step=sim.itime), k, live):
                        bad.append(1)
            sim.collision.__class__ = Seen

        if when == "before":
            watch_collision()
        elif when == "after":
            coll.script.active = False
            sim.add_collision(G)
            watch_collision()
        cbs = []
        if sw == "window":
            cbs = [cbk(velocity=0.93 * C, start_time=0.0)]
        if when == "late":
            sim.run(nsteps=2, callbacks=cbs)
            sim.add_collision(G)
            watch_collision()
        for k in range(nsteps):
            if sw == "toggle":
                pr = sorted(pairs)[k % len(pairs)]
                if pr in enabled:
                    sim.collision.disable((sp[pr[0]], sp[pr[1]]))
                    enabled.discard(pr)
                else:
                    sim.collision.enable((sp[pr[1]], sp[pr[0]]))
                    enabled.add(pr)
            sim.run(nsteps=1, callbacks=cbs)
            ctx.case(case)
            if bad:
                break
        if watched[0] < nsteps and not bad:
            ctx.violation(f"idle:{dim}d", f"{case}: the collision step ran {watched[0]} times in {nsteps} steps", case)


def moved(ctx, dim, chains):
    """the same after patches changed their owner"""
    boot()
    from vlib import simmpi
    n, npatch = ((12, 12), (2, 2)) if dim == 2 else ((8, 8, 8), (2, 1, 2))
    grp = [[0, 0, 1]]
    for start, chain in chains:
        case = dict(dim=dim, start=start, chain=chain, kind="rebalance")
        ctx.case(case)
        ctx.state(case)
        bad, seen = [], [0]

        def build(r):
            sp = [lp.Electron(density=lp.uniform_density(dim, 1e18), ppc=3), lp.Proton(density=lp.uniform_density(dim, 1e18), ppc=2)]
            sim = lp.make_sim(dim, n, npatch, "p" * dim, species=sp, cpml=3)
            sim.add_collision([[sp[i] for i in g] for g in grp])
            sim.initialize()
            for p in sim.patches:
                g = rng(5 + p.index)
                for q in p.particles:
                    for i in range(q.npart):
                        q.ux[i], q.uy[i], q.uz[i] = u = np.array([0.5 * g(), 0.5 * g() - 0.2, 0.4 * g() - 0.1])
                        q.inv_gamma[i] = 1 / math.sqrt(1 + u @ u)
                        q.w[i] = 1e6
            cls = type(sim.collision)
            w = coll.Watch(sim)

            class Seen(cls):
                def __call__(self, dt):
                    live = [[~q.is_dead for q in p.particles] for p in sim.patches]
                    coll.script.perm = lambda n, k: np.roll(np.arange(n), k + seen[0])
                    ev = w.run(lambda: cls.__call__(self, dt * 1e18))
                    seen[0] += 1
                    if not bad and not judge(ctx, sim, ev, {(0, 0), (0, 1)}, dict(case, step=sim.itime, rank=r), f"rebalance:{dim}d", live):
                        bad.append(1)
            sim.collision.__class__ = Seen
            for own in chain:
                if r == 0:
                    lp.partition().queue = [list(own)]
                sim.load_balancer.threshold = -1.0
                sim.run(nsteps=1)
            sim.load_balancer.threshold = np.inf
            sim.run(nsteps=2)
            return sim
        with coll.scripted_rng():
            lp.world_sims(simmpi, 2, build, ranks=start)
        if seen[0] < 2 * (len(chain) + 2) and not bad:
            ctx.violation(f"idle:rebalance:{dim}d", f"{case}: the collision step ran {seen[0]} times", case)
        if bad:
            return


def compiled(ctx, dim, when):
    """compiled step: every due particle changes, each cell keeps its momentum, energy and live particles"""
    boot()
    sp = [lp.Electron(density=lp.uniform_density(dim, 1e18), ppc=3), lp.Proton(density=lp.uniform_density(dim, 1e18), ppc=2)]
    n = (12, 12) if dim == 2 else (8, 8, 8)
    sim = lp.make_sim(dim, n, (2,) * dim, "p" * dim, species=sp, cpml=3)
    if when == "before":
        sim.add_collision([[sp[0], sp[0], sp[1]]])
    sim.initialize()
    if when == "after":
        sim.add_collision([[sp[0], sp[0], sp[1]]])
    for p in sim.patches:
        r = rng(5 + p.index)
        for q in p.particles:
            for i in range(q.npart):
                u = [0.3 * r() - 0.5, 0.5 * r() - 0.2, 0.4 * r() - 0.1]
                q.ux[i], q.uy[i], q.uz[i] = u
                q.inv_gamma[i] = 1 / math.sqrt(1 + sum(x * x for x in u))
                q.w[i] = 1e6
    grown = 0
    for k in range(4):
        if k == 2:      # a burst from every second patch into the next one: storage grows
            for p in sim.patches:
                for q in p.particles:
                    q.ux[:] = 4.0 if p.index % 2 == 0 else 0.01
                    q.inv_gamma[:] = 1 / np.sqrt(1 + q.ux ** 2 + q.uy ** 2 + q.uz ** 2)
        size = [[q.npart for q in p.particles] for p in sim.patches]
        sim.run(nsteps=1)
        grown += sum(q.npart > n for p, m in zip(sim.patches, size) for q, n in zip(p.particles, m))
        step(sim)
        before = [[np.array([q.ux, q.uy, q.uz]) for q in p.particles] for p in sim.patches]
        sim.collision.lnLambda = 10.0
        sim.collision.calculate_debye_length()
        sim.collision(1e2)
        case = dict(dim=dim, when=when, step=k)
        ctx.case(case)
        ctx.state(case)
        for p, b in zip(sim.patches, before):
            cell = {}
            for s, (q, o) in zip(sp, zip(p.particles, b)):
                a = np.array([q.ux, q.uy, q.uz])
                c = coll.cell_of(sim, q)
                for i in np.flatnonzero(~q.is_dead):
                    m = s.m / 9.1e-31
                    D = cell.setdefault(int(c[i]), [np.zeros(3), 0.0, 0.0])
                    D[0] += m * (a[:, i] - o[:, i])
                    D[1] += m * (math.sqrt(1 + a[:, i] @ a[:, i]) - math.sqrt(1 + o[:, i] @ o[:, i]))
                    D[2] += m
                    ctx.add("transitions")
                dead = q.is_dead
                if not np.array_equal(a[:, dead], o[:, dead], equal_nan=True):
                    return ctx.violation(f"dead:{dim}d", f"{case}: a dead slot was changed", case)
            for c, (dp, de, m) in cell.items():
                if np.abs(dp).max() > 1e-9 * m or abs(de) > 1e-9 * m:
                    return ctx.violation(f"conserve:{dim}d", f"{case}: a cell changed momentum by {dp} and energy by {de} (units of m c)", case)
            for isp in (0, 1):
                q = p.particles[isp]
                a = np.array([q.ux, q.uy, q.uz])
                same = (a == b[isp]).all(0) & ~q.is_dead
                # an electron alone in a cell without ions has no partner; everybody else has one
                cE, cI = coll.cell_of(sim, p.particles[0]), coll.cell_of(sim, p.particles[1])
                lE, lI = ~p.particles[0].is_dead, ~p.particles[1].is_dead
                for i in np.flatnonzero(same):
                    c = coll.cell_of(sim, q)[i]
                    nE, nI = int((lE & (cE == c)).sum()), int((lI & (cI == c)).sum())
                    due = (nE > 1 or nI > 0) if isp == 0 else nE > 0
                    if due:
                        return ctx.violation(f"unpaired:{dim}d", f"{case}: a particle of species {isp} in a cell with {nE}+{nI} particles did not collide", case)
    ctx.info[f"compiled {dim}d {when}: storages grown"] = grown


def jobs(tier, seed):
    th = tier == "thorough"
    J = [("same2", patterns, dict(kind="same", dim=2, nmax=6 if th else 5)),
         ("same3", patterns, dict(kind="same", dim=3, nmax=5 if th else 4)),
         ("inter3", patterns, dict(kind="inter", dim=3, nmax=3))]
    K = 12 if th else 3
    for k in range(K):
        J.append((f"inter2-{k}", patterns, dict(kind="inter", dim=2, nmax=5 if th else 4, part=(k, K))))
    J.append(("counts2", counts, dict(dim=2, nmax=12 if th else 9, nrot=12 if th else 5)))
    J.append(("counts3", counts, dict(dim=3, nmax=7, nrot=8 if th else 3)))
    for dim in (2, 3):
        np_ = (2, 2) if dim == 2 else (2, 1, 2)
        W = (3, 1) if dim == 2 else (3, 1, 1)
        one = (1,) * dim
        H = [("before", [[0, 0, 1]], np_, ""), ("after", [[0, 0, 1]], np_, ""), ("late", [[0, 0, 1]], np_, ""),
             ("before", [[0, 0, 1, 1, 2]], np_, "toggle"), ("after", [[0, 1], [1, 2], [2, 2]], one, "toggle"),
             ("before", [[0, 0, 1]], W, "window"), ("after", [[0, 0, 1]], W, "window"), ("before", [[0, 1], [1, 0], [0, 1]], one, "")]
        n = 12 if th else 5
        T = [t for t in itertools.product((0, 1), repeat=4) if len(set(t)) == 2]
        ch = [(a, (b, a)) for a in T for b in T if a != b] if th else [(a, (tuple(1 - x for x in a), b)) for a, b in zip(T[:7], T[3:])]
        J.append((f"rebalance{dim}", moved, dict(dim=dim, chains=ch)))
        for i, h in enumerate(H):
            J.append((f"run{dim}-{i}", groups_job, dict(dim=dim, nsteps=n + (8 if h[3] == "window" else 0), hist=[h])))
        for when in ("before", "after"):
            J.append((f"jit{dim}{when}", jitjob.jit, dict(target="harness.c01:compiled", args=dict(dim=dim, when=when), compiled=True)))
    return J


COVERAGE = "see NOTE"
