"""K04: fields gathered at particles."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of particle positions (every cell of every patch and the guard cells a particle can reach x a lattice of fractions), grid values and slot states through both gathering kernels against an independent spline oracle"
NOTE = "Uniform, linear, single-node and pseudo-random grid values; fused, staged and main-loop gathers; every patch grid of small periodic domains; dead and untracked slots in strips."
ASSUMPTIONS = ["particles are at most half a cell outside their patch when fields are gathered"]


def boot():
    global lp, pb, shape
    from vlib import lp as l, pbench, shape as sh
    lp, pb, shape = l, pbench, sh


def gather_at(F, comp, X):
    return shape.gather(F, [x - o for x, o in zip(X, pb.STAG[comp])])


def pseudo_global(n, d):
    return {a: pb.pseudo(n, k + 11, 1e12 if k < 3 else 1e12 / lp.C) for k, a in enumerate(pb.EB)}


def run_gather(b, fused):
    if fused:
        b.clear()
        b.fused()
    else:
        b.sim.interpolator(0)


def positions(lo, hi, fracs, dim):
    return [[c + f for c, f in zip(cell, fr)] for cell in itertools.product(range(lo, hi), repeat=dim) for fr in itertools.product(fracs, repeat=dim)]


def match(ctx, b, p, X, F, key, case, U=None, kind="global"):
    """X: global cell coordinates of the slots of patch p; F: global wrapped arrays or callables of position"""
    q = p.particles[0]
    for k, a in enumerate(pb.EB):
        got = getattr(q, a + "_part")
        if callable(F[a]):
            want = np.array([F[a](x) for x in X])
            s = np.abs(want).max() + 1e-300
        else:
            want = np.array([gather_at(F[a], a, x) for x in X])
            s = np.abs(F[a]).max() + 1e-300
        e = np.abs(got - want)
        ctx.add("transitions", len(X))
        if not (e.max() <= 1e-9 * s):
            i = int(np.nanargmax(np.where(np.isnan(e), np.inf, e)))
            ctx.violation(f"{key}:{a}", f"{case}: particle at cell coordinates {list(X[i])} feels {a}={got[i]!r}, the grid gives {want[i]!r}", dict(case, X=list(X[i])))
            return True
    return False


def patches(ctx, dim, n, npatch, fracs, fused):
    """every patch of a grid, particles in all its cells and just outside"""
    boot()
    nper = [n // k for k in npatch]
    Xl = [list(c) for c in itertools.product(*[[c + f for c in range(-1, m + 1) for f in fracs if -1 <= c + f <= m] for m in nper])]
    if dim == 3:      # keep the surface cells and a few inner ones
        Xl = [x for x in Xl if any(v < 1 or v > m - 2 for v, m in zip(x, nper))][::3] + Xl[::17]
    b = pb.Bench(dim, None, nslot=len(Xl), n=n, npatch=npatch)
    F = pseudo_global((n,) * dim, b.d)
    from vlib.lp import set_fields_from
    set_fields_from(b.sim, {a: (lambda A: lambda *i: A[i])(F[a]) for a in pb.EB})
    name = f"{dim}d:{'fused' if fused else 'staged'}"
    for p in b.sim.patches:
        b.fill(Xl, np.zeros((len(Xl), 3)), 1.0, (), p)
    run_gather(b, fused)
    for p in b.sim.patches:
        ip = lp.ipatch_of(b.sim, p)
        case = dict(dim=dim, npatch=npatch, patch=ip, fused=fused)
        ctx.case(case)
        ctx.state(case)
        ctx.add("traces")
        if match(ctx, b, p, [[x + i * m for x, i, m in zip(X, ip, nper)] for X in Xl], F, f"patch:{name}", case):
            return
    ctx.sample(case)


def profiles(ctx, dim, fused, fracs, n=6):
    """uniform and linear profiles are reproduced exactly; a single non-zero node shows the shape itself"""
    boot()
    Xl = [list(c) for c in itertools.product(*[[c + f for c in range(-1, n + 1) for f in fracs if -1 <= c + f <= n]] * dim)]
    if dim == 3:
        Xl = Xl[::5]
    b = pb.Bench(dim, None, nslot=len(Xl), n=n)
    name = f"{dim}d:{'fused' if fused else 'staged'}"
    ng = b.sim.n_guard
    loc = np.arange(n + 2 * ng)
    loc[-ng:] = np.arange(-ng, 0)
    M = np.meshgrid(*[loc] * dim, indexing="ij")
    b.fill(Xl, np.zeros((len(Xl), 3)))
    cases = [("uniform", None)] + [("linear", a) for a in range(dim)] + [("bilinear", None)] + [("only", c) for c in pb.EB]
    for kind, par in cases:
        F = {}
        for k, a in enumerate(pb.EB):
            A = 1e12 * (k + 1) * (1 if k < 3 else 1 / lp.C)
            if kind == "uniform":
                f = lambda X, A=A: A
            elif kind == "linear":
                f = lambda X, A=A, par=par: A * X[par]
            elif kind == "bilinear":
                f = lambda X, A=A: A * X[0] * X[1] if dim == 2 else A * X[0] * X[1] * X[2]
            else:
                f = lambda X, A=A, on=(a == par): A if on else 0.0
            F[a] = f
            grid = [m + o for m, o in zip(M, pb.STAG[a])]
            getattr(b.f, a)[...] = f(grid) if kind != "uniform" else A
        case = dict(dim=dim, fused=fused, profile=kind, par=par)
        ctx.case(case)
        ctx.state(case)
        ctx.add("traces")
        b.fill(Xl, np.zeros((len(Xl), 3)))
        run_gather(b, fused)
        if match(ctx, b, b.p, Xl, F, f"profile:{name}", case):
            return
    # single nodes
    nodes = list(itertools.product(range(0, n, 2 if dim == 2 else 3), repeat=dim))
    if dim == 3:
        nodes = nodes[::2]
    for nd in nodes:
        F = {}
        for k, a in enumerate(pb.EB):
            g = np.zeros((n,) * dim)
            g[nd] = 1e10 * (k + 1)
            F[a] = g
        lp.set_fields_from(b.sim, {a: (lambda A: lambda *i: A[i])(F[a]) for a in pb.EB})
        case = dict(dim=dim, fused=fused, node=nd)
        ctx.case(case)
        ctx.state(case)
        ctx.add("traces")
        b.fill(Xl, np.zeros((len(Xl), 3)))
        run_gather(b, fused)
        if match(ctx, b, b.p, Xl, F, f"node:{name}", case):
            return
    ctx.sample(case)


def moving(ctx, dim, fused, cells, fracs, mags):
    """the position counts, not the momentum: fused gathers half a step ahead"""
    boot()
    n = 8
    U = [tuple(m * k for k in dr) for dr in pb.DIRS for m in mags if any(dr)]
    b = pb.Bench(dim, None, nslot=len(U), n=n)
    F = pseudo_global((n,) * dim, b.d)
    lp.set_fields_from(b.sim, {a: (lambda A: lambda *i: A[i])(F[a]) for a in pb.EB})
    name = f"{dim}d:{'fused' if fused else 'staged'}"
    ig = 1 / np.sqrt(1 + (np.array(U) ** 2).sum(1))
    for cell in itertools.product(cells, repeat=dim):
        for fr in itertools.product(fracs, repeat=dim):
            X = [c + f for c, f in zip(cell, fr)]
            case = dict(dim=dim, fused=fused, X=X, moving=True)
            ctx.case(case)
            ctx.state(case)
            ctx.add("traces")
            b.fill([X] * len(U), U)
            if not fused:
                b.sim.pusher[0].push_position(0.5 * b.dt)
            run_gather(b, fused)
            XX = [[x + 0.5 * lp.C * b.dt * g * u / h for x, u, h in zip(X, uu, b.d)] for uu, g in zip(U, ig)]
            if match(ctx, b, b.p, XX, F, f"moving:{name}", case):
                return
    ctx.sample(case)


def slots(ctx, dim, fused, sizes):
    """dead or untracked neighbours in a strip do not disturb the others"""
    boot()
    n = 8
    r = lp.lcg(3)
    for npart in sizes:
        b = pb.Bench(dim, None, nslot=npart, n=n)
        F = pseudo_global((n,) * dim, b.d)
        lp.set_fields_from(b.sim, {a: (lambda A: lambda *i: A[i])(F[a]) for a in pb.EB})
        X = [[(n - 1) * next(r) for _ in range(dim)] for _ in range(npart)]
        edge = sorted({0, 1, 254, 255, 256, 257, 511, 512, npart - 1} & set(range(npart)))
        want = {a: np.array([gather_at(F[a], a, x) for x in X]) for a in pb.EB}
        for bad in [(i,) for i in edge] + [tuple(range(k, npart, 2)) for k in (0, 1)] + [tuple(edge)]:
            for kind in ("dead", "nanx", "nany"):
                case = dict(dim=dim, fused=fused, npart=npart, kind=kind, bad=bad[:6], nbad=len(bad))
                ctx.case(case)
                ctx.state(case)
                ctx.add("traces")
                b.fill(X, np.zeros((npart, 3)), 1.0, bad if kind == "dead" else ())
                for i in bad:
                    if kind != "dead":
                        getattr(b.q, kind[-1])[i] = np.nan
                run_gather(b, fused)
                live = np.setdiff1d(np.arange(npart), bad)
                for a in pb.EB:
                    got = getattr(b.q, a + "_part")
                    e = np.abs(got - want[a])[live]
                    ctx.add("transitions", len(live))
                    if len(live) and not (e.max() <= 1e-9 * np.abs(F[a]).max()):
                        i = int(live[np.nanargmax(np.where(np.isnan(e), np.inf, e))])
                        ctx.violation(f"slots:{dim}d:{'fused' if fused else 'staged'}:{a}", f"{case}: slot {i} feels {a}={got[i]!r}, the grid gives {want[a][i]!r}", case)
                        return
    ctx.sample(case)


def loop(ctx, dim, n, npatch, staged):
    """in the main loop: the field a particle felt in a step is the grid field of that step at its half-step position"""
    boot()
    from lambdapic import callback as cbk
    nper = [n // k for k in npatch]
    d = (0.1e-6, 0.07e-6, 0.13e-6)[:dim]
    s = lp.make_sim(dim, (n,) * dim, npatch, "p" * dim, d=d, ng=3, cpml=3, species=[lp.Electron(), lp.Proton()])
    s.initialize()
    pp = lp.plasma(dim, (n,) * dim, d, 60, seed=3, umax=4.0, wbase=1e10 if dim == 2 else 1e3)
    for p in s.patches:
        for i in range(2):
            mine = [m for m in pp if lp.home_patch(s, [m[a] for a in "xyz"[:dim]]) == lp.ipatch_of(s, p)]
            q = p.particles[i]
            q.initialize(len(mine))
            q.extended = True
            for a in "xyz"[:dim] + "w":
                getattr(q, a)[:] = [m[a] for m in mine]
            for a in ("ux", "uy", "uz"):
                getattr(q, a)[:] = [m[a] * (1 if i == 0 else 0.01) for m in mine]
            q.inv_gamma[:] = 1 / np.sqrt(1 + q.ux ** 2 + q.uy ** 2 + q.uz ** 2)
    s.update_lists()
    F0 = pseudo_global((n,) * dim, d)
    lp.set_fields_from(s, {a: (lambda A: lambda *i: A[i])(F0[a]) for a in pb.EB})
    snap = {}

    def m1(sim):
        snap["F"] = {a: lp.gather_field([sim], a) for a in pb.EB}
        snap["P"] = {}
        for i in range(2):
            for p in sim.patches:
                q = p.particles[i]
                for j in np.flatnonzero(~q.is_dead):
                    g = q.inv_gamma[j]
                    snap["P"][(i, q.w[j])] = [(getattr(q, a)[j] + 0.5 * sim.dt * lp.C * g * getattr(q, "u" + a)[j]) / h for a, h in zip("xyz", d)]
    bad = []

    def after(sim):
        i = sim.ispec
        for p in sim.patches:
            q = p.particles[i]
            for j in np.flatnonzero(~q.is_dead):
                X = snap["P"][(i, q.w[j])]
                for a in pb.EB:
                    want = gather_at(snap["F"][a], a, X)
                    got = getattr(q, a + "_part")[j]
                    ctx.add("transitions")
                    if not abs(got - want) <= 1e-9 * np.abs(snap["F"][a]).max() and not bad:
                        bad.append((a, f"step {sim.itime}: species {i} at {X} feels {a}={got!r}, grid gives {want!r}"))
    cbs = [cbk("maxwell_1")(m1), cbk("current_deposition")(after)]
    if staged:
        cbs.append(cbk("_push_momentum")(lambda sim: None))
    case = dict(dim=dim, npatch=npatch, staged=staged, loop=True)
    ctx.case(case)
    ctx.state(case)
    ctx.add("traces")
    s.run(nsteps=4, callbacks=cbs)
    if bad:
        ctx.violation(f"loop:{dim}d:{'staged' if staged else 'fused'}:{bad[0][0]}", f"{case}: {bad[0][1]}", case)
    ctx.sample(case)


FR = (0.0, 1e-9, 0.125, 0.3, 0.49999999999, 0.5, -0.5, -0.49999999999, -0.25, -1e-9)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    for fused in (True, False):
        t = "fused" if fused else "staged"
        g2 = [(1, 1), (2, 3), (3, 2), (4, 4), (1, 4), (2, 1), (4, 1), (3, 3)] if big else [(1, 1), (2, 3), (4, 2)]
        g3 = [(1, 1, 1), (2, 2, 2), (2, 1, 3), (3, 2, 1)] if big else [(1, 1, 1), (2, 1, 2)]
        for g in g2:
            J.append((f"patches2d-{t}-{g}", patches, dict(dim=2, n=12, npatch=g, fracs=FR if big else (0.0, 0.3, 0.49999999999, 0.5, -0.49999999999), fused=fused)))
        for g in g3:
            J.append((f"patches3d-{t}-{g}", patches, dict(dim=3, n=6 if not big else 12, npatch=g, fracs=(0.0, 0.3, 0.5) if not big else (0.0, 0.3, 0.5, -0.25), fused=fused)))
        for dim in (2, 3):
            J.append((f"profiles{dim}d-{t}", profiles, dict(dim=dim, fused=fused, fracs=FR if dim == 2 else (0.0, 0.3, -0.5))))
            J.append((f"moving{dim}d-{t}", moving, dict(dim=dim, fused=fused, cells=(0, 4, 7) if big or dim == 2 else (0, 7), fracs=(0.0, 0.3, -0.5), mags=(0.3, 20.0))))
            J.append((f"slots{dim}d-{t}", slots, dict(dim=dim, fused=fused, sizes=(1, 255, 256, 257, 600) if big else (257,))))
    for st in (False, True):
        for g in ((2, 2), (3, 1)):
            J.append((f"loop2d-{st}-{g}", loop, dict(dim=2, n=12, npatch=g, staged=st)))
        J.append((f"loop3d-{st}", loop, dict(dim=3, n=8, npatch=(2, 1, 2), staged=st)))
    return J


COVERAGE = "see NOTE"
