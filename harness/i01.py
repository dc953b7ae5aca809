"""I01: initial plasma follows the requested density on any layout."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of layouts and profiles: every patch grid and every distribution of the patches over processes of small domains, every assignment of density classes and particle counts to cells, initialised by the real code on simulated processes and compared cell by cell with the profile; moved and compiled replays"
NOTE = "2D/3D domains of up to 24 cells, all patch grids dividing them, all ownerships by 1-3 processes, densities zero / negative / nan / at, below and just above the minimum / large in every combination over 4 cells, counts 0-4, fractional, by function, several species with and without density, the same seed twice; compiled replay."
ASSUMPTIONS = ["MPI is simulated", "particles do not live in absorbing layers", "a process owns at least one patch (the package cannot run otherwise)"]


def boot():
    global lp, simmpi
    from vlib import simmpi as M
    M.install()
    from vlib import lp as L
    lp, simmpi = L, M


D = (0.1e-6, 0.07e-6, 0.08e-6)


def cell(x, h):
    return int(np.floor(x / h + 0.5))


def build_world(size, ranks, make, mode="eager"):
    P = lp.partition()
    P.queue = [list(ranks)] if size > 1 else []
    w = simmpi.World(size, simmpi.MODES[mode], None)
    w.run(make)
    return w


def check(ctx, case, key, sims, dim, n, want):
    """want: per species {cell: (count, density)}; cells not in it are empty"""
    d = D[:dim]
    vol = float(np.prod(d))
    ids = {}
    for s in range(len(want)):
        got = {}
        for sim in sims:
            for p in sim.patches:
                q = p.particles[s]
                lo = [i * k for i, k in zip(lp.ipatch_of(sim, p), lp.cells(sim)[2])]
                hi = [a + k for a, k in zip(lo, lp.cells(sim)[2])]
                for i in np.flatnonzero(~q.is_dead):
                    pos = [getattr(q, a)[i] for a in "xyz"[:dim]]
                    # on the face of two cells within rounding it belongs to either
                    c = tuple(cell(x, h) for x, h in zip(pos, d))
                    if not all(a <= k < b for a, k, b in zip(lo, c, hi)):
                        ctx.violation(f"place:{key}", f"{case}: species {s}: a particle at cell {c} is kept by the patch of cells {lo} to {hi}", case)
                        return None
                    got.setdefault(c, []).append(float(q.w[i]))
                    u = [getattr(q, a)[i] for a in ("ux", "uy", "uz")]
                    if any(u) or q.inv_gamma[i] != 1:
                        ctx.violation(f"rest:{key}", f"{case}: species {s}: a new particle has momentum {u}, inverse gamma {q.inv_gamma[i]}", case)
                        return None
                    k = (s, int(q.id[i]))
                    if k in ids:
                        ctx.violation(f"id:{key}", f"{case}: species {s}: two particles with the same id", case)
                        return None
                    ids[k] = True
        ctx.add("transitions", len(got) + 1)
        for c in sorted(set(got) | set(want[s])):
            k, dens = want[s].get(c, (0, 0.0))
            g = got.get(c, [])
            if len(g) != k:
                ctx.violation(f"count:{key}", f"{case}: species {s}: cell {c} holds {len(g)} particles instead of {k}", case)
                return None
            if k and abs(sum(g) - dens * vol) > 1e-12 * abs(dens * vol) or len(g) and max(g) - min(g) > 1e-12 * abs(max(g)):
                ctx.violation(f"weight:{key}", f"{case}: species {s}: cell {c} weighs {sum(g)!r} instead of {dens * vol!r} ({len(g)} particles, {min(g)!r} to {max(g)!r})", case)
                return None
    return True


def profile(dim, f):
    """a plain python function of the coordinates with the right number of arguments"""
    if dim == 2:
        return lambda x, y: f((cell(x, D[0]), cell(y, D[1])))
    return lambda x, y, z: f((cell(x, D[0]), cell(y, D[1]), cell(z, D[2])))


def wanted(dim, n, dens, dmin, ppc, per="ppp"):
    out = {}
    for c in itertools.product(*map(range, n)):
        if any(q == "o" and not 2 <= i < m - 2 for i, m, q in zip(c, n, per)):
            continue            # inside an absorbing layer (2 cells)
        v = dens(c)
        k = int(ppc(c))
        if v > dmin and k:
            out[c] = (k, v)
    return out


def layouts(dim, n, grids, maxranks):
    for g in grids:
        k = int(np.prod(g))
        for size in range(1, min(maxranks, k) + 1):
            parts = lp.partitions_upto(k, size)
            if len(parts) > 60:
                parts = parts[::len(parts) // 60 + 1]
            for r in parts:
                yield g, size, r


def grids_of(dim, n):
    out = []
    for g in itertools.product(*[[k for k in range(1, m + 1) if m % k == 0 and m // k >= 2 or k == 1] for m in n]):
        out.append(g)
    return out


def over_layouts(ctx, dim, n, per, maxranks, part):
    """one rich plasma on every layout"""
    boot()
    L = list(layouts(dim, n, grids_of(dim, n), maxranks))
    for g, size, ranks in L[part[0]::part[1]]:
        case = dict(dim=dim, n=n, per=per, npatch=g, size=size, ranks=ranks)
        nper = [a // b for a, b in zip(n, g)]
        if not lp.pml_ok(dim, g, per) or min(nper) < (3 if "o" in per else 2) or any(b == 1 and q == "o" for b, q in zip(g, per)):
            continue
        ctx.case(case)
        ctx.state(case)
        ctx.add("traces")
        dens = [lambda c: 1e24 * (1 + sum((3 * i + 1) * k for i, k in enumerate(c))), lambda c: 1e23 if sum(c) % 3 else 0.0, None, lambda c: (sum(c) - 2) * 1e22]
        ppc = [lambda c: 2, lambda c: sum(c) % 4, lambda c: 0, lambda c: 1.9]
        dmin = [0, 0, 0, 1.5e22]

        def make(r):
            sp = [(lp.Electron, lp.Proton, lp.Positron, lp.Electron)[i](name=f"s{i}", density=None if dens[i] is None else profile(dim, dens[i]), ppc=2 if i == 0 else profile(dim, ppc[i]), density_min=dmin[i]) for i in range(4)]
            s = lp.make_sim(dim, n, g, per, d=D[:dim], ng=2, cpml=2, species=sp)
            s.initialize()
            return s
        res = []
        for again in range(2):
            w = build_world(size, ranks, make)
            if not w.ok():
                ctx.violation("run", f"{case}: {w.report()}", case)
                return
            want = [{} if dens[i] is None else wanted(dim, n, dens[i], dmin[i], ppc[i], per) for i in range(4)]
            if not check(ctx, case, f"{dim}d", w.results, dim, n, want):
                return
            res.append([[tuple(getattr(q, a).tobytes() for a in ("x", "y", "w")) for p in s.patches for q in p.particles] for s in w.results])
        if res[0] != res[1]:
            ctx.violation(f"seed:{dim}d", f"{case}: the same seed gives another plasma", case)
            return
    ctx.sample(case)


CLASSES = {"zero": 0.0, "negative": -1e24, "nan": float("nan"), "min": 1e20, "below": 1e20 * (1 - 2 ** -52), "above": 1e20 * (1 + 2 ** -51), "large": 3e26, "tiny": 1e-200}


def over_profiles(ctx, dim, classes, dmin, counts, part, size=1):
    """all assignments of density classes and counts to cells"""
    boot()
    n = (4, 4, 2)[:dim]
    g = (2, 1, 1)[:dim]
    spots = [(0, 0), (1, 3), (2, 2), (3, 0)]
    spots = [s + (k % 2,) * (dim - 2) for k, s in enumerate(spots)]
    combos = list(itertools.product(classes, repeat=4))[part[0]::part[1]]
    for combo in combos:
        for cnt in counts:
            case = dict(dim=dim, densities=combo, counts=cnt, minimum=dmin, size=size)
            ctx.case(case)
            ctx.state(case)
            tab = {s: CLASSES[k] for s, k in zip(spots, combo)}
            num = {s: c for s, c in zip(spots, cnt)}
            dens = lambda c: tab.get(c, 0.0)        # noqa
            ppc = lambda c: num.get(c, 1)           # noqa

            def make(r):
                sp = [lp.Electron(density=profile(dim, dens), ppc=profile(dim, ppc), density_min=dmin), lp.Proton(density=profile(dim, dens), ppc=3, density_min=dmin)]
                s = lp.make_sim(dim, n, g, "p" * dim, d=D[:dim], ng=2, cpml=2, species=sp)
                s.initialize()
                return s
            w = build_world(size, (0, 1)[:size] * 1 if size > 1 else None, make)
            if not w.ok():
                ctx.violation("run", f"{case}: {w.report()}", case)
                return
            want = [wanted(dim, n, dens, dmin, ppc), wanted(dim, n, dens, dmin, lambda c: 3)]
            if not check(ctx, case, f"profile:{dim}d", w.results, dim, n, want):
                return
    ctx.sample(case)


def compiled(ctx, dim, kinds=("function", "jitted")):
    """the compiled functions on the same profiles (jitted with closures over plain numbers)"""
    boot()
    n = (8, 6, 4)[:dim]
    for g in [k for k in grids_of(dim, n) if np.prod(k) in (2, 4)][:2 if dim == 2 else 1]:
        for kind in kinds:
            case = dict(dim=dim, npatch=g, kind=kind)
            ctx.case(case)
            ctx.state(case)
            ctx.add("traces")
            if dim == 2:
                f = lambda x, y: 1e24 * (1 + x / 1e-7) if x + y > 2.33e-7 else -1.0     # noqa
                k = lambda x, y: 2.5 if x > 3.2e-7 else 1       # noqa
            else:
                f = lambda x, y, z: 1e24 * (1 + x / 1e-7) if x + y + z > 2.33e-7 else -1.0     # noqa
                k = lambda x, y, z: 2.5 if x > 3.2e-7 else 1       # noqa
            ff = f
            if kind == "jitted":
                from numba import njit
                f = njit(f)
            sp = [lp.Electron(density=f, ppc=2 if kind == "int" else k), lp.Proton(density=f, ppc=1, density_min=2e24)]
            s = lp.make_sim(dim, n, g, "p" * dim, d=D[:dim], ng=2, cpml=2, species=sp)
            s.initialize()
            at = lambda c: [i * h for i, h in zip(c, D)]        # noqa
            kk = (lambda c: 2) if kind == "int" else (lambda c: k(*at(c)))
            want = [wanted(dim, n, lambda c: ff(*at(c)), 0, kk), wanted(dim, n, lambda c: ff(*at(c)), 2e24, lambda c: 1)]
            if not check(ctx, case, f"compiled:{dim}d", [s], dim, n, want):
                return
    ctx.sample(case)


def jobs(tier, seed):
    from vlib import jitjob
    th = tier == "thorough"
    J = []
    K = 4
    for n, per in (((4, 4), "pp"), ((8, 4), "pp"), ((8, 8), "oo"), ((6, 4), "pp")) + ((((12, 8), "po"), ((8, 6), "op")) if th else ()):
        for k in range(K):
            J.append((f"layout2-{'x'.join(map(str, n))}{per}-{k}", over_layouts, dict(dim=2, n=n, per=per, maxranks=3, part=(k, K))))
    for n, per in (((4, 4, 2), "ppp"), ((4, 4, 4), "ppp"), ((8, 6, 3), "opp")) + ((((4, 4, 6), "ppo"), ((8, 4, 4), "ppp")) if th else ()):
        for k in range(K):
            J.append((f"layout3-{'x'.join(map(str, n))}{per}-{k}", over_layouts, dict(dim=3, n=n, per=per, maxranks=3, part=(k, K))))
    cl = tuple(CLASSES)
    for dim in (2, 3):
        for dmin in (0, 1e20):
            use = [c for c in cl if not (dmin == 0 and c in ("below", "above"))] if not th else cl
            use = use if th else use[:6] if dim == 2 else use[:4] + use[-1:]
            for k in range(2):
                J.append((f"density{dim}-{dmin:g}-{k}", over_profiles, dict(dim=dim, classes=use, dmin=dmin, counts=[(1, 2, 0, 3)], part=(k, 2))))
        J.append((f"counts{dim}", over_profiles, dict(dim=dim, classes=("zero", "large"), dmin=0, counts=list(itertools.product((0, 1, 2.7, 4) if th else (0, 1, 2.7), repeat=4)), part=(0, 1 if th else 2))))
        J.append((f"density{dim}-two", over_profiles, dict(dim=dim, classes=("zero", "large", "above", "nan"), dmin=1e20, counts=[(1, 2, 0, 3)], part=(0, 1), size=2)))
        J.append((f"jit{dim}", jitjob.jit, dict(target="harness.i01:compiled", args=dict(dim=dim), compiled=True)))
    return J
