"""K05: field solver: curl, div B, Gauss, stability, absorbing layers."""
import itertools

import numpy as np

from harness import m07

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive basis enumeration: the update is run from every unit field state (every component, every cell, every patch, layer memory included), which determines the linear map for all fields; the map is compared with the discrete curl and its powers bounded; absorbing layers explored over all sources x sides x axis permutations"
NOTE = "2D/3D, every patch grid of small boxes, time-step factors up to 1; absorbing boxes: full step operator incl. layer memory, thousands of steps by powers; reflection of divergence-free pulses from every side and corner; exact axis-swap symmetry; complete runs for Gauss's law."
ASSUMPTIONS = ["fields start outside the absorbing layers (a static field placed inside a layer is known to drift slowly in any such layer)", "the update is linear in the fields (checked by superposition on every configuration)"]
EB = ("ex", "ey", "ez", "bx", "by", "bz")
EPS0 = 8.8541878128e-12


def boot():
    global lp, simmpi, shape
    m07.boot()
    lp, simmpi = m07.lp, m07.simmpi
    from vlib import shape as sh
    shape = sh


def box(dim, n, npatch, per, cfl=0.95, cpml=3, d=None, ng=1):
    d = d or (0.1e-6, 0.07e-6, 0.13e-6)[:dim]
    s = lp.make_sim(dim, n, npatch, per, d=d, ng=ng, cpml=cpml, dt_cfl=cfl)
    s.initialize()
    return s


def put(s, G):
    lp.set_fields_from(s, {a: (lambda A: lambda *i: A[i])(G[a]) if a in G else (lambda *i: 0.0 * i[0]) for a in EB + ("jx", "jy", "jz")})


def get(s):
    return {a: lp.gather_field([s], a) for a in EB}


def fwd(F, a, h):
    return (np.roll(F, -1, a) - F) / h if a < F.ndim else 0.0


def bwd(F, a, h):
    return (F - np.roll(F, 1, a)) / h if a < F.ndim else 0.0


def curl(V, d, diff):
    """V: 3 arrays; diff(F, axis, h)"""
    h = list(d) + [1.0]
    D = lambda c, a: diff(V[c], a, h[a] if a < len(d) else 1.0)
    return [D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)]


def div(V, d, diff):
    return sum(diff(V[a], a, h) for a, h in enumerate(d))


def operators(ctx, dim, n, grids, cfl):
    """each half update equals the discrete curl on every unit state"""
    boot()
    n = tuple(n)
    for npatch in grids:
        s = box(dim, n, npatch, "p" * dim, cfl)
        d = (s.dx, s.dy, getattr(s, "dz", 1))[:dim]
        dt = 0.5 * s.dt
        k2 = lp.C ** 2
        case = dict(dim=dim, n=n, npatch=npatch, cfl=cfl)
        want_dt = cfl / lp.C / np.sqrt(sum(1 / h ** 2 for h in d))
        if abs(s.dt - want_dt) > 1e-12 * want_dt:
            ctx.violation(f"dt:{dim}d", f"{case}: time step {s.dt!r}, the stated condition gives {want_dt!r}", case)
            return
        for comp in EB + ("jx", "jy", "jz"):
            ctx.case(dict(case, comp=comp))
            ctx.state(dict(case, comp=comp))
            for cell in itertools.product(*[range(k) for k in n]):
                G = {comp: np.zeros(n)}
                G[comp][cell] = 1.0
                for half in ("e", "b"):
                    put(s, G)
                    (s.maxwell.update_efield if half == "e" else s.maxwell.update_bfield)(dt)
                    ctx.add("transitions")
                    got = get(s)
                    Z = np.zeros(n)
                    E = [G.get(a, Z) for a in EB[:3]]
                    B = [G.get(a, Z) for a in EB[3:]]
                    J = [G.get(a, Z) for a in ("jx", "jy", "jz")]
                    if half == "e":
                        want = [e + dt * k2 * c - dt / EPS0 * j for e, c, j in zip(E, curl(B, d, bwd), J)] + B
                    else:
                        want = E + [b - dt * c for b, c in zip(B, curl(E, d, fwd))]
                    sc = max(np.abs(np.array(w) - np.array(e)).max() for w, e in zip(want, E + B))
                    for a, w, e0 in zip(EB, want, E + B):
                        e = np.abs(got[a] - w)
                        if e.max() > 1e-9 * sc + 1e-12 * np.abs(w).max():
                            c = tuple(int(x) for x in np.unravel_index(e.argmax(), e.shape))
                            ctx.violation(f"curl:{half}:{a}:{dim}d", f"{case}: unit {comp} at {cell}: {half} update gives {a}{c} = {got[a][c]!r}, the discrete curl gives {w[c]!r}", dict(case, comp=comp, cell=cell))
                            return
        ctx.add("traces")
    ctx.sample(dict(case, comp=comp, cell=cell))


def memory(s):
    """the arrays of the absorbing layers that change while the solver runs (found by watching them)"""
    objs = [(p, i) for p in s.patches for i in range(len(p.pml_boundary))]
    arrs = {(k, a): v for k, (p, i) in enumerate(objs) for a, v in vars(p.pml_boundary[i]).items() if isinstance(v, np.ndarray)}
    old = {k: v.copy() for k, v in arrs.items()}
    n = lp.cells(s)[0]
    r = lp.lcg(9)
    put(s, {a: np.array([next(r) - 0.5 for _ in range(int(np.prod(n)))]).reshape(n) * (1 if a[0] == "e" else 1 / lp.C) for a in EB})
    s.run(nsteps=2)
    out = [k for k, v in arrs.items() if not np.array_equal(v, old[k])]
    for k in out:
        arrs[k][...] = old[k]
    return [arrs[k] for k in out]


def power(ctx, dim, n, npatch, per, cfl, cpml, d=None, bound=None, growth=None):
    """the whole step as a matrix (every unit state incl. layer memory), then its powers"""
    boot()
    n = tuple(n)
    s = box(dim, n, npatch, per, cfl, cpml, d=d)
    case = dict(dim=dim, n=n, npatch=npatch, per=per, cfl=cfl, cpml=cpml)
    ctx.case(case)
    nc = int(np.prod(n))
    mem = memory(s) if "o" in per else []
    sizes = [m.size for m in mem]
    N = 6 * nc + sum(sizes)
    M = np.zeros((N, N))

    def load(v):
        G = {}
        for k, a in enumerate(EB):
            x = v[k * nc:(k + 1) * nc].reshape(n)
            G[a] = x if k < 3 else x / lp.C      # energy-balanced units
        put(s, G)
        o = 6 * nc
        for m in mem:
            m[...] = v[o:o + m.size].reshape(m.shape)
            o += m.size

    def read():
        F = get(s)
        return np.concatenate([F[a].ravel() * (1 if k < 3 else lp.C) for k, a in enumerate(EB)] + [m.ravel() for m in mem])
    v = np.zeros(N)
    load(v)
    s.run(nsteps=1)
    if np.abs(read()).max() != 0:
        ctx.violation(f"zero:{dim}d", f"{case}: fields appear from nothing", case)
        return
    for j in range(N):
        if j % 20 == 0:
            ctx.case(dict(case, column=j))
            ctx.state(dict(case, column=j))
        v[:] = 0
        v[j] = 1
        load(v)
        s.run(nsteps=1)
        M[:, j] = read()
        ctx.add("transitions")
    # linearity
    r = lp.lcg(5)
    v = np.array([next(r) - 0.5 for _ in range(N)])
    load(v)
    s.run(nsteps=1)
    ctx.add("traces")
    got = read()
    if np.abs(got - M @ v).max() > 1e-9 * np.abs(got).max():
        ctx.violation(f"linear:{dim}d", f"{case}: the step is not the superposition of its unit responses", case)
        return
    # initial fields: anything outside the absorbing layers, layer memory empty
    free = np.ones(n, bool)
    for a, o in enumerate(per):
        if o == "o":
            free &= (np.arange(n[a]) >= cpml).reshape([-1 if b == a else 1 for b in range(dim)])
            free &= (np.arange(n[a]) < n[a] - cpml).reshape([-1 if b == a else 1 for b in range(dim)])
    cols = np.concatenate([k * nc + np.flatnonzero(free.ravel()) for k in range(6)])
    assert len(cols)
    k = 1
    P = M.copy()
    worst = 0
    amps = {}
    for j in range(13):
        a = np.linalg.norm(P[:6 * nc][:, cols], 2)
        amps[k] = float(a)
        worst = max(worst, a)
        P = P @ P
        k *= 2
    ctx.sample(dict(case, amplitude_of_fields_after_2k_steps=amps))
    ctx.info[f"{dim}d {npatch} {per} cfl {cfl}"] = dict(states=N, worst_amplification=float(worst))
    if bound is not None and worst > bound:
        ctx.violation(f"energy:{dim}d:{per}", f"{case}: some initial field grows {worst:.4g} fold in amplitude (after 2^k steps: {amps}), allowed {bound}", case)


def pulse(n, d, centre, axis, kind, sig=1.5):
    """a divergence-free Gaussian pulse: the discrete curl of a potential along `axis`"""
    dim = len(n)
    m = np.meshgrid(*[np.arange(k) for k in n], indexing="ij")
    g = np.exp(-sum((x - c) ** 2 for x, c in zip(m, centre)) / (2 * sig ** 2))
    V = [np.zeros(n)] * 3
    V[axis] = g * d[0]
    if kind == "e":
        E = curl(V, d, bwd)
        return dict(zip(EB[:3], E))
    return dict(zip(EB[3:], [b / lp.C for b in curl(V, d, fwd)]))


def energy(F, sl=np.s_[...]):
    return float(sum((F[a][sl] ** 2).sum() * (1 if a[0] == "e" else lp.C ** 2) for a in EB))


def scatter(ctx, axis, kind, centres, limit, steps=60, n=28, pad=26):
    """pulses near every side and corner against the same pulse in a box too large to notice its boundary"""
    boot()
    d = (0.1e-6, 0.1e-6)
    mid = n // 2

    def go(nn, npatch, per, centre):
        s = box(2, (nn, nn), npatch, per, 0.95, 6, d=d)
        put(s, pulse((nn, nn), d, centre, axis, kind, 2.0))
        e0 = energy(get(s))
        out = []
        for k in range(steps):
            s.run(nsteps=1)
            if k % 3 == 2:
                out.append(get(s))
            if k % 10 == 0:
                ctx.case(dict(axis=axis, kind=kind, centre=centre, n=nn, step=k))
        return e0, out
    e0, ref = go(n + 2 * pad, (1, 1), "pp", (mid + pad, mid + pad))
    if e0 == 0:
        return
    sl = np.s_[6:-6, 6:-6]
    worst = 0
    for centre, npatch in centres:
        case = dict(axis=axis, kind=kind, centre=centre, npatch=npatch)
        ctx.state(case)
        ctx.add("traces")
        ctx.add("transitions", steps)
        _, got = go(n, npatch, "oo", centre)
        off = [pad + mid - c for c in centre]
        for k, (a, b) in enumerate(zip(ref, got)):
            D = {c: a[c][off[0]:off[0] + n, off[1]:off[1] + n] - b[c] for c in EB}
            r = energy(D, sl) / e0
            worst = max(worst, r if np.isfinite(r) else np.inf)
            if not r <= limit:
                dens = sum(D[c] ** 2 * (1 if c[0] == "e" else lp.C ** 2) for c in EB)[sl]
                c = tuple(int(x) + 6 for x in np.unravel_index(np.nan_to_num(dens, nan=np.inf).argmax(), dens.shape))
                ctx.violation("scatter:2d", f"{case}: the layers send back {r:.3g} of the pulse's energy by step {3 * k + 3} (allowed {limit}), most of it at {c}", case)
                return
    ctx.sample(dict(case, worst=worst))


def reflect(ctx, dim, axis, lams, limits, d=None, tag="", cpml=6, L=64):
    """plane waves into both ends of an axis, both polarisations: the energy sent back"""
    boot()
    d = d or (0.1e-6,) * dim
    w = 9.0 if L < 90 else 12.0
    for lam, lim in zip(lams, limits):
        for pol, side, npx in itertools.product((0, 1), (1, -1), (2, 4)):
            case = dict(dim=dim, axis=axis, wavelength_cells=lam, pol=pol, side=side, npatch=npx, d=d)
            ctx.case(case)
            ctx.state(case)
            ctx.add("traces")
            n = [cpml + 1] * dim
            n[axis] = L
            npatch = [1] * dim
            npatch[axis] = npx
            s = box(dim, tuple(n), tuple(npatch), "".join("o" if a == axis else "p" for a in range(dim)), 0.95, cpml, d=d)
            x = np.arange(L)
            env = lambda x: np.exp(-((x - L / 2) / w) ** 2) * np.cos(2 * np.pi * (x - L / 2) / lam)
            sh = [1] * dim
            sh[axis] = L
            e, b = ((axis + 1) % 3, (axis + 2) % 3) if pol == 0 else ((axis + 2) % 3, (axis + 1) % 3)
            sg = side * (1 if pol == 0 else -1)       # E x B along the axis
            Ea = np.broadcast_to(env(x).reshape(sh), n)
            Ba = np.broadcast_to(env(x + 0.5).reshape(sh), n)
            put(s, {"e" + "xyz"[e]: Ea, "b" + "xyz"[b]: sg * Ba / lp.C})
            e0 = energy(get(s))
            steps = int(0.95 * L * d[axis] / (lp.C * s.dt))
            for k in range(steps):
                s.run(nsteps=1)
                if k % 20 == 0:
                    ctx.case(dict(case, step=k))
            ctx.add("transitions", steps)
            r = energy(get(s)) / e0
            if not r <= lim:
                ctx.violation(f"reflect{tag}:{dim}d:{'xyz'[axis]}", f"{case}: {r:.3g} of the wave's energy is sent back (allowed {lim})", case)
                return
    ctx.sample(dict(case, sent_back=r))


def evolve(dim, n, npatch, per, cpml, d, G, steps, ng=1):
    s = box(dim, n, npatch, per, 0.95, cpml, d=d, ng=ng)
    put(s, G)
    out = []
    for k in range(steps):
        s.run(nsteps=1)
        out.append(get(s))
    return out


def permute(F, perm):
    """fields after the axis permutation new axis i = old axis perm[i] (an improper one mirrors the magnetic field)"""
    dim = len(perm)
    full = list(perm) + list(range(dim, 3))
    sgn = round(np.linalg.det(np.eye(3)[full]))
    out = {}
    for i in range(3):
        out["e" + "xyz"[i]] = np.transpose(F["e" + "xyz"[full[i]]], perm)
        out["b" + "xyz"[i]] = sgn * np.transpose(F["b" + "xyz"[full[i]]], perm)
    return out


def swap(ctx, dim, n, npatch, per, cpml, steps, d=None):
    """every relabelling of the axes of the whole problem relabels the result: all sides behave alike"""
    boot()
    d = d or (0.1e-6,) * dim
    r = lp.lcg(77)
    G = {a: np.array([next(r) - 0.5 for _ in range(int(np.prod(n)))]).reshape(n) * (1 if a[0] == "e" else 1 / lp.C) for a in EB}
    ref = evolve(dim, n, npatch, per, cpml, d, G, steps)
    for perm in itertools.permutations(range(dim)):
        if perm == tuple(range(dim)):
            continue
        P = lambda t: tuple(t[i] for i in perm)
        case = dict(dim=dim, n=n, npatch=npatch, per=per, cpml=cpml, perm=perm)
        ctx.case(case)
        ctx.state(case)
        ctx.add("traces")
        ctx.add("transitions", steps)
        got = evolve(dim, P(n), P(npatch), "".join(P(per)), cpml, P(d), permute(G, perm), steps)
        for k, (a, b) in enumerate(zip(ref, got)):
            w = permute(a, perm)
            for grp in (EB[:3], EB[3:]):
                sc = max(np.abs(w[c]).max() for c in grp)
                for c in grp:
                    e = np.abs(w[c] - b[c])
                    if not e.max() <= 1e-10 * sc:
                        i = tuple(int(x) for x in np.unravel_index(e.argmax(), e.shape))
                        ctx.violation(f"axes:{dim}d:{per}", f"{case}: step {k}: {c}{i} is {b[c][i]!r}, the same problem with the original axes gives {w[c][i]!r}", case)
                        return
    ctx.sample(case)


def flat(ctx, n, npatch, per, cpml, steps):
    """a 3D problem uniform along z (periodic) is the 2D problem"""
    boot()
    d = (0.1e-6, 0.07e-6)
    r = lp.lcg(78)
    G = {a: np.array([next(r) - 0.5 for _ in range(int(np.prod(n)))]).reshape(n) * (1 if a[0] == "e" else 1 / lp.C) for a in EB}
    nz = max(4, cpml + 1)
    case = dict(n=n, npatch=npatch, per=per, cpml=cpml)
    ctx.case(case)
    ctx.state(case)

    def go(three):
        if three:       # same time step: an enormous dz
            s = box(3, tuple(n) + (nz,), tuple(npatch) + (1,), per + "p", 0.95, cpml, d=d + (1.0,))
            put(s, {a: np.repeat(v[:, :, None], nz, 2) for a, v in G.items()})
        else:
            s = box(2, n, npatch, per, 0.95, cpml, d=d)
            put(s, G)
        for k in range(steps):
            s.run(nsteps=1)
            F = get(s)
            yield {a: (v[:, :, 1] if three else v) for a, v in F.items()}
    ctx.add("traces", 2)
    for k, (a, b) in enumerate(zip(go(False), go(True))):
        ctx.add("transitions", 2)
        for grp in (EB[:3], EB[3:]):
            sc = max(np.abs(a[c]).max() for c in grp)
            for c in grp:
                e = np.abs(a[c] - b[c])
                if not e.max() <= 1e-9 * sc:
                    i = tuple(int(x) for x in np.unravel_index(e.argmax(), e.shape))
                    ctx.violation(f"flat:{per}", f"{case}: step {k}: {c}{i} is {b[c][i]!r} in 3D, {a[c][i]!r} in 2D", case)
                    return
    ctx.sample(case)


def gauss(ctx, dim, n, grids, per, steps, count, staged=False, size=1):
    """complete runs: div B stays, div E follows the deposited charge, in every cell outside absorbing layers"""
    boot()
    d = (0.1e-6, 0.07e-6, 0.08e-6)[:dim]
    for npatch in grids:
        case = dict(dim=dim, n=n, npatch=npatch, per=per, staged=staged, size=size)
        ctx.case(case)
        ctx.state(case)
        w, tr = m07.simulate(dim, n, d, npatch, per, size, None, steps, count, 4, staged=staged)
        ctx.add("traces")
        ctx.add("transitions", steps)
        if not w.ok():
            ctx.violation(f"run:{dim}d", w.report(), case)
            return
        sl = tuple(slice(None) if p == "p" else slice(5, k - 5) for p, k in zip(per, n))
        b0 = None
        for k in range(steps):
            G = tr[k][0]
            db = div([G[a] for a in EB[3:]], d, fwd)[sl]
            if b0 is None:
                b0 = db
            sc = max(np.abs(G[a]).max() for a in EB[3:]) / min(d)
            if np.abs(db - b0).max() > 1e-9 * sc:
                c = tuple(int(x) for x in np.unravel_index(np.abs(db - b0).argmax(), db.shape))
                ctx.violation(f"divb:{dim}d", f"{case}: div B at {c} moves by {np.abs(db - b0).max():.3e} (scale {sc:.3e}) by step {k}", case)
                return
            if k >= 2:
                dE = div([G[a] - tr[k - 1][0][a] for a in EB[:3]], d, bwd)[sl]
                dr = (G["rho"] - tr[k - 2][0]["rho"])[sl] / (2 * EPS0)
                sc = max(np.abs(G[a]).max() for a in EB[:3]) / min(d)
                if np.abs(dE - dr).max() > 1e-9 * sc:
                    c = tuple(int(x) for x in np.unravel_index(np.abs(dE - dr).argmax(), dE.shape))
                    ctx.violation(f"gauss:{dim}d", f"{case}: step {k}: div E at {c} changes by {dE[c]!r}, the charge requires {dr[c]!r}", case)
                    return
    ctx.sample(case)


def stable(cfl, steps=4096):
    return 1.001 / np.sqrt(1 - cfl ** 2) if cfl < 1 else 2.5 * steps


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    for cfl in (0.95, 0.5, 1.0) if big else (0.95,):
        for g in [(1, 1), (2, 2), (4, 1), (1, 4), (2, 1), (4, 4)] if big else [(1, 1), (2, 2), (4, 1)]:
            J.append((f"curl2d-{g}-{cfl}", operators, dict(dim=2, n=(4, 8) if g == (1, 4) else (4, 4), grids=[g], cfl=cfl)))
        for g in [(1, 1, 1), (2, 1, 2), (2, 2, 2), (1, 3, 1)] if big else [(1, 1, 1), (2, 2, 1)]:
            n = (4, 3, 4) if g[1] == 3 else (4, 4, 2) if not big else (4, 4, 4)
            J.append((f"curl3d-{g}-{cfl}", operators, dict(dim=3, n=n, grids=[g], cfl=cfl)))
    for cfl in (0.1, 0.5, 0.7, 0.9, 0.95, 0.99, 0.999, 1.0) if big else (0.5, 0.95, 0.99, 1.0):
        J.append((f"periodic2d-{cfl}", power, dict(dim=2, n=(6, 6), npatch=(2, 2), per="pp", cfl=cfl, cpml=2, bound=stable(cfl))))
    for cfl in (0.5, 0.95, 0.99, 1.0) if big else (0.99,):
        J.append((f"periodic3d-{cfl}", power, dict(dim=3, n=(4, 4, 4), npatch=(1, 2, 1), per="ppp", cfl=cfl, cpml=2, bound=stable(cfl))))
    for cfl in (0.1, 0.5, 0.95, 0.99) if big else (0.5, 0.95):
        for per, npatch, n in (("oo", (2, 2), (6, 8)), ("op", (2, 1), (8, 4)), ("po", (1, 2), (4, 8))) + ((("oo", (3, 2), (9, 8)), ("oo", (2, 2), (10, 10)), ("op", (3, 2), (9, 4))) if big else ()):
            J.append((f"open2d-{per}-{npatch}-{cfl}-{n[0]}", power, dict(dim=2, n=n, npatch=npatch, per=per, cfl=cfl, cpml=2, bound=2 * stable(max(cfl, 0.95)))))
    J.append(("open3d", power, dict(dim=3, n=(4, 4, 4), npatch=(2, 2, 2), per="ooo" if big else "oop", cfl=0.95, cpml=1, bound=2 * stable(0.95))))
    spots = [((14, 14), (2, 2)), ((10, 10), (2, 2)), ((17, 10), (2, 2)), ((10, 17), (4, 2)), ((17, 17), (2, 4))] + ([((a, b), (3, 3) if a == b else (2, 2)) for a in (10, 14, 17) for b in (10, 14, 17)] if big else [])
    spots = [(c, g if 28 % g[0] == 0 and 28 % g[1] == 0 and 28 // max(g) > 6 else (2, 2)) for c, g in spots]
    for ax, kd in ((2, "e"), (2, "b")) + (((0, "e"), (1, "b")) if big else ()):
        J.append((f"scatter-{ax}{kd}", scatter, dict(axis=ax, kind=kd, centres=spots, limit=0.2)))
    for ax in range(2):
        J.append((f"reflect2d-{ax}", reflect, dict(dim=2, axis=ax, lams=(16, 32) if not big else (12, 16, 24, 32), limits=(0.11, 0.012) if not big else (0.25, 0.11, 0.03, 0.012))))
        J.append((f"anisotropic-{ax}", reflect, dict(dim=2, axis=ax, lams=(16,), limits=(0.11,), d=(0.2e-6, 0.05e-6), tag=":anisotropic", cpml=6)))
    for ax in range(3):
        J.append((f"reflect3d-{ax}", reflect, dict(dim=3, axis=ax, lams=(16,), limits=(0.11,), L=48)))
    for perm, npatch, n in ((("oo", (2, 2), (8, 10)), ("op", (2, 3), (8, 12))) if not big else (("oo", (2, 2), (8, 10)), ("op", (2, 3), (8, 12)), ("oo", (3, 2), (12, 8)), ("pp", (1, 3), (6, 9)))):
        J.append((f"axes2d-{perm}", swap, dict(dim=2, n=n, npatch=npatch, per=perm, cpml=3, steps=30 if big else 12)))
    for perm, npatch, n in (("ooo", (2, 2, 2), (6, 8, 10)), ("opp", (2, 1, 2), (6, 4, 8)), ("oop", (1, 2, 1), (4, 6, 6))) if big else (("ooo", (2, 2, 2), (6, 8, 6)), ("opp", (1, 1, 1), (4, 3, 4))):
        J.append((f"axes3d-{perm}", swap, dict(dim=3, n=n, npatch=npatch, per=perm, cpml=2, steps=15 if big else 5)))
    for per, g in (("oo", (2, 2)), ("pp", (2, 1)), ("op", (2, 1))):
        J.append((f"flat-{per}", flat, dict(n=(8, 8), npatch=g, per=per, cpml=3, steps=10)))
    J.append(("gauss2d", gauss, dict(dim=2, n=(12, 12), grids=[(1, 1), (2, 2), (3, 4), (4, 1)] if big else [(2, 3)], per="pp", steps=6, count=30)))
    J.append(("gauss2d-open", gauss, dict(dim=2, n=(20, 20), grids=[(2, 2)], per="oo", steps=6, count=30)))
    J.append(("gauss2d-mpi", gauss, dict(dim=2, n=(12, 12), grids=[(2, 2)], per="pp", steps=5, count=30, size=2)))
    J.append(("gauss3d", gauss, dict(dim=3, n=(8, 8, 8), grids=[(2, 1, 2)], per="ppp", steps=4, count=20)))
    J.append(("gauss3d-staged", gauss, dict(dim=3, n=(8, 8, 8), grids=[(1, 2, 1)], per="ppp", steps=4, count=20, staged=True)))
    return J


COVERAGE = "see NOTE"
