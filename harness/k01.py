"""K01: charge conservation of the deposited current."""
import itertools

import numpy as np

from harness import m07

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of single-particle moves on a position/momentum lattice through the real deposition kernels against an independent spline oracle; exhaustive slot-state patterns; continuity at every step of complete runs on every patch grid"
NOTE = "Per axis: 11 fractional positions (ties and their neighbours included) x 4 cells x 27 directions x 3 speeds, moves of up to 0.9 cell along each thin axis, fused and staged kernels, 2D and 3D; strip boundaries with dead/untracked slots; whole runs with 2 species, periodic, all grids, continuity per cell and step."
ASSUMPTIONS = ["moves of less than one cell per step, which the time step limit guarantees", "shape: quadratic spline"]
FR = (0.0, 1e-9, 0.125, 0.25, 0.49999999999, 0.5, -0.5, -0.49999999999, -0.3, -0.125, -1e-9)


def boot():
    global lp, simmpi, shape
    from vlib import shape as sh
    m07.boot()
    lp, simmpi, shape = m07.lp, m07.simmpi, sh


class Bench:
    """one periodic patch with one species whose slots are set by hand"""

    def __init__(self, dim, charge=-1, nslot=1, n=8, species=None, d=None):
        self.dim = dim
        self.d = d or (0.1e-6, 0.07e-6, 0.13e-6)[:dim]
        sp = species or lp.Species(name="s", charge=charge, mass=3)
        self.sim = lp.make_sim(dim, (n,) * dim, (1,) * dim, "p" * dim, d=self.d, ng=3, cpml=3, species=[sp])
        self.sim.initialize()
        self.p = self.sim.patches[0]
        self.q = self.p.particles[0]
        self.q.initialize(nslot)
        self.q.extended = True
        self.sim.update_lists()
        self.sp = sp
        self.f = self.p.fields
        self.shape = self.f.jx.shape
        self.dt = self.sim.dt
        self.x0 = [getattr(self.f, a + "0") for a in "xyz"[:dim]]

    def clear(self):
        for a in ("jx", "jy", "jz", "rho"):
            getattr(self.f, a).fill(0)

    def put(self, i, X, u, w=1.0, dead=False):
        """X: cell coordinates relative to the patch"""
        for a, x, h, o in zip("xyz", X, self.d, self.x0):
            getattr(self.q, a)[i] = o + x * h
        self.q.ux[i], self.q.uy[i], self.q.uz[i] = u
        self.q.inv_gamma[i] = 1 / np.sqrt(1 + u[0] ** 2 + u[1] ** 2 + u[2] ** 2)
        self.q.w[i] = w
        self.q.is_dead[i] = dead

    def deposit(self, fused):
        if fused:
            self.sim.pusher[0](self.dt, unified=True)
        else:
            self.sim.current_depositor(0, self.dt)

    def out(self):
        return [getattr(self.f, a) for a in ("jx", "jy", "jz", "rho")]


def expect(b, X, u, w, fused):
    """(rho after, rho before, velocity in cells per step) ; X as given to put() before deposit"""
    g = 1 / np.sqrt(1 + sum(v * v for v in u))
    v = [lp.C * g * x for x in u]
    c = [b.dt * vv / h for vv, h in zip(v, b.d)]
    if fused:        # the fused step first moves the particle by v dt
        X = [x + k for x, k in zip(X, c)]
    qd = b.sp.q * w / np.prod(b.d)
    r1 = qd * shape.cloud([x + 0.5 * k for x, k in zip(X, c)], b.shape)
    r0 = qd * shape.cloud([x - 0.5 * k for x, k in zip(X, c)], b.shape)
    return r0, r1, v, qd


def check(b, J, rho, r0, r1, vtot, qv):
    """first failed relation or None.  vtot: sum of q w v / dV per component"""
    s = max(np.abs(r1).max(), np.abs(r0).max(), 1e-300)
    e = np.abs(rho - r1).max()
    if e > 1e-10 * s:
        c = tuple(int(x) for x in np.unravel_index(np.abs(rho - r1).argmax(), rho.shape))
        return "rho", f"rho{c}={rho[c]!r}, spline gives {r1[c]!r}"
    res = (r1 - r0) / b.dt + shape.div(J[:b.dim], b.d)
    if np.abs(res).max() > 1e-11 * s / b.dt:
        c = tuple(int(x) for x in np.unravel_index(np.abs(res).argmax(), rho.shape))
        return "continuity", f"d rho/dt + div J at {c} is {res[c]:.3e} (scale {s / b.dt:.3e})"
    for a in range(3):
        t = J[a].sum()
        if abs(t - vtot[a]) > 1e-8 * s * lp.C:
            return "total", f"sum of j{'xyz'[a]} is {t!r}, q w v is {vtot[a]!r}"
    if abs(rho.sum() - qv) > 1e-9 * max(abs(qv), s):
        return "charge", f"total charge {rho.sum()!r}, expected {qv!r}"
    return None


def single(ctx, dim, fused, cells, fracs, mags, charge):
    boot()
    b = Bench(dim, charge)
    dirs = list(itertools.product((-1, 0, 1), repeat=3))
    n = 0
    for cell in itertools.product(cells, repeat=dim):
        ctx.case(dict(dim=dim, fused=fused, cell=cell, charge=charge))
        for fr in itertools.product(fracs, repeat=dim):
            X = [c + f for c, f in zip(cell, fr)]
            for dr in dirs:
                for m in mags:
                    if not any(dr) and m != mags[0]:
                        continue
                    u = tuple(m * k * s for k, s in zip(dr, (1.0, 0.83, 1.21)))
                    b.clear()
                    b.put(0, X, u, 2.5)
                    r0, r1, v, qd = expect(b, X, u, 2.5, fused)
                    b.deposit(fused)
                    jx, jy, jz, rho = b.out()
                    n += 1
                    e = check(b, (jx, jy, jz), rho, r0, r1, [qd * k for k in v], qd)
                    if e:
                        ctx.violation(f"single:{e[0]}:{dim}d:{'fused' if fused else 'staged'}", f"particle at cell coordinates {X}, u={u}, charge {charge}: {e[1]}", dict(dim=dim, fused=fused, X=X, u=u, charge=charge))
                        return
        ctx.state(cell, dim, fused, charge)
    ctx.add("transitions", n)
    ctx.add("traces", n)
    ctx.sample(dict(dim=dim, fused=fused, X=X, u=u))


def long(ctx, dim, axis, fused, K):
    """one thin axis: moves along it reach almost a whole cell; every start position on a fine lattice"""
    boot()
    b = Bench(dim, -2, d=tuple(0.05e-6 if a == axis else 0.2e-6 for a in range(dim)))
    n = 0
    for cell in (0, 4, 7, -1, 8):
        for j in range(-K, K + 1):
            X = [(2.3, 0.2, -0.4)[a] for a in range(dim)]
            X[axis] = cell + 0.5 * j / K
            case = dict(dim=dim, axis=axis, fused=fused, X=X)
            ctx.case(case)
            for sg in (-1, 1):
                for m in (0.3, 2.0, 300.0):
                    u = [0.1, -0.2, 0.15]
                    u[axis] = sg * m
                    b.clear()
                    b.put(0, X, u, 2.5)
                    r0, r1, v, qd = expect(b, X, u, 2.5, fused)
                    b.deposit(fused)
                    jx, jy, jz, rho = b.out()
                    n += 1
                    e = check(b, (jx, jy, jz), rho, r0, r1, [qd * k for k in v], qd)
                    if e:
                        return ctx.violation(f"long:{e[0]}:{dim}d:{'fused' if fused else 'staged'}", f"particle at cell coordinates {X}, u={u}: {e[1]}", dict(case, u=u))
            ctx.state(case)
    ctx.add("transitions", n)
    ctx.add("traces", n)
    ctx.sample(case)


def slots(ctx, dim, fused, sizes):
    """dead and untracked slots deposit nothing, whatever they contain and wherever they sit"""
    boot()
    r = lp.lcg(dim + 11)
    for npart in sizes:
        b = Bench(dim, -1, npart)
        pats = []
        edge = sorted({0, 1, 127, 128, 254, 255, 256, 257, 510, 511, 512, 513, npart // 2, npart - 2, npart - 1} & set(range(npart)))
        for kind in ("dead", "nanpos", "deadnan", "zerow", "nanx", "nany", "nanz"):
            if kind == "nanz" and dim == 2:
                continue
            pats += [(kind, ())] + [(kind, (i,)) for i in edge] + [(kind, tuple(range(k, npart, m))) for m in (2, 3) for k in range(m)] + [(kind, tuple(range(npart)))]
        for kind, bad in pats:
            ctx.case(dict(npart=npart, dim=dim, fused=fused, kind=kind, nbad=len(bad), first=bad[:3]))
            ctx.state(npart, kind, bad, dim, fused)
            bad = set(bad)
            b.clear()
            r0 = np.zeros(b.shape)
            r1 = np.zeros(b.shape)
            vt = [0.0] * 3
            qt = 0.0
            before = []
            for i in range(npart):
                X = [2 + 5 * next(r) for _ in range(dim)]
                u = tuple(2 * (next(r) - 0.5) for _ in range(3))
                b.put(i, X, u, 1 + i / 1024)
                if i in bad:
                    if kind in ("dead", "deadnan"):
                        b.q.is_dead[i] = True
                        b.q.w[i] = 1e6
                    if kind == "zerow":
                        b.q.w[i] = 0
                    if kind in ("nanpos", "deadnan"):
                        for a in "xyz"[:dim]:
                            getattr(b.q, a)[i] = np.nan
                    if kind in ("nanx", "nany", "nanz"):
                        getattr(b.q, kind[-1])[i] = np.nan
                else:
                    e0, e1, v, qd = expect(b, X, u, 1 + i / 1024, fused)
                    r0 += e0
                    r1 += e1
                    vt = [t + qd * k for t, k in zip(vt, v)]
                    qt += qd
                before.append([getattr(b.q, a)[i] for a in ("x", "y", "ux", "uy", "uz", "inv_gamma", "w")])
            b.deposit(fused)
            jx, jy, jz, rho = b.out()
            ctx.add("transitions", npart)
            ctx.add("traces")
            e = check(b, (jx, jy, jz), rho, r0, r1, vt, qt)
            if not e and len(bad) == npart and kind != "zerow" and any(np.any(a != 0) for a in (jx, jy, jz, rho)):
                e = ("dead", "a deposit although no live particle exists")
            if e:
                ctx.violation(f"slots:{e[0]}:{dim}d:{'fused' if fused else 'staged'}", f"{npart} slots, {kind} at {sorted(bad)[:8]}: {e[1]}", dict(npart=npart, kind=kind, bad=sorted(bad)[:50], dim=dim, fused=fused))
                return
    ctx.sample(dict(npart=npart, kind=kind, bad=sorted(bad)[:5]))


def whole(ctx, dim, n, grids, steps, count, staged, size=1):
    """continuity between consecutive steps of complete runs"""
    boot()
    from lambdapic import callback as cbk
    d = (0.1e-6, 0.07e-6, 0.08e-6)[:dim]
    per = "p" * dim
    for npatch in grids:
        for ranks in (m07.Ranks(size, 3)(npatch) if size > 1 else [None]):
            case = dict(dim=dim, n=n, npatch=npatch, staged=staged, ranks=ranks)
            ctx.case(case)
            ctx.state(case)
            w, tr = m07.simulate(dim, n, d, npatch, per, size, ranks, steps, count, 3, mode="late", staged=staged)
            ctx.add("traces")
            ctx.add("transitions", steps)
            if not w.ok():
                ctx.violation(f"run:{dim}d", w.report(), case)
                return
            dt = (1 / sum(1 / h ** 2 for h in d)) ** 0.5 * 0.95 / lp.C
            qtot = None
            for i in range(steps):
                G, P = tr[i]
                qd = sum((-1 if k == 0 else 1) * 1.602176634e-19 * P[k][:, 0].sum() for k in range(2)) / np.prod(d)
                s = max(np.abs(G["rho"]).max(), 1e-300)
                if abs(G["rho"].sum() - qd) > 1e-9 * s * G["rho"].size:
                    ctx.violation(f"whole:charge:{dim}d", f"{case}: step {i}: total charge {G['rho'].sum()!r}, particles carry {qd!r}", case)
                    return
                if i:
                    R = (G["rho"] - tr[i - 1][0]["rho"]) / dt + shape.div([G[a] for a in ("jx", "jy", "jz")[:dim]], d)
                    if np.abs(R).max() > 1e-10 * s / dt:
                        c = tuple(int(x) for x in np.unravel_index(np.abs(R).argmax(), R.shape))
                        ctx.violation(f"whole:continuity:{dim}d", f"{case}: step {i}: d rho/dt + div J at {c} is {R[c]:.3e} (scale {s / dt:.3e})", case)
                        return
    ctx.sample(case)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    for fused in (False, True):
        for k, cell in enumerate(((0,), (4,), (8,), (-1,)) if not big else ((0,), (1,), (4,), (7,), (8,), (-1,))):
            J.append((f"single2d-{fused}-{k}", single, dict(dim=2, fused=fused, cells=cell + (3,), fracs=FR if big else FR[::2] + (0.5,), mags=(0.05, 1.0, 300.0), charge=(-1, 2, 1)[k % 3])))
        J.append((f"single3d-{fused}", single, dict(dim=3, fused=fused, cells=(0, 5, 8) if big else (5,), fracs=FR[::2] if big else (0.0, 0.5, -0.3, -0.49999999999), mags=(0.05, 1.0, 300.0) if big else (1.0, 300.0), charge=-1)))
        J.append((f"single3d-edge-{fused}", single, dict(dim=3, fused=fused, cells=(0, 8, -1), fracs=(0.25, -0.5) if big else (0.3,), mags=(2.0,), charge=3)))
        for dim in (2, 3):
            for ax in range(dim):
                J.append((f"long{dim}d-{ax}-{fused}", long, dict(dim=dim, axis=ax, fused=fused, K=64 if big else 16)))
            J.append((f"slots{dim}d-{fused}", slots, dict(dim=dim, fused=fused, sizes=(0, 1, 2, 255, 256, 257, 513) if big else (1, 3, 256, 257))))
    div = [1, 2, 3, 4]
    for st in (False, True):
        J.append((f"whole2d-{st}", whole, dict(dim=2, n=(12, 12), grids=list(itertools.product(div, div)) if big else [(1, 1), (2, 3), (4, 1), (3, 4)], steps=12 if big else 6, count=40, staged=st)))
        J.append((f"whole3d-{st}", whole, dict(dim=3, n=(8, 8, 8), grids=[(1, 1, 1), (2, 2, 2), (2, 1, 2), (1, 4, 2)] if big else [(1, 1, 1), (2, 1, 2)], steps=5 if big else 3, count=30, staged=st)))
    J.append(("whole2d-mpi", whole, dict(dim=2, n=(12, 12), grids=[(2, 2), (3, 2)], steps=4, count=40, staged=False, size=2)))
    return J


COVERAGE = "see NOTE"
