"""K03: Lorentz-force invariants of the particle pusher."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of a momentum x field lattice (directions, magnitudes from 1e-9 to 1e6) through the fused and staged pushers, every transition judged by the invariants and by an extended-precision reference step"
NOTE = "27 x 27 x 27 directions of u, E, B with several magnitudes each, charges and masses of 4 species, fused and staged, 2D and 3D; photons; reversed step; whole runs of the main loop with uniform fields."
ASSUMPTIONS = ["fields uniform in space, so that gathering cannot matter (K04)"]
LD = np.longdouble


def boot():
    global lp, pb
    from vlib import lp as l, pbench
    lp, pb = l, pbench


def cross(a, b):
    return np.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2], a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], -1)


def reference(u, E, B, q, m, dt):
    """half kick, exact rotation by the Boris angle about B, half kick - in extended precision, by Rodrigues' formula"""
    u, E, B = (np.asarray(v, LD) for v in (u, E, B))
    q, m, dt, c = LD(q), LD(m), LD(dt), LD(lp.C)
    k = q * dt / (2 * m * c) * E
    v = u + k
    g = np.sqrt(1 + (v * v).sum(-1))
    b = np.sqrt((B * B).sum(-1))
    th = 2 * np.arctan(q * dt / (2 * m) * b / g)
    n = B / np.where(b == 0, 1, b)[..., None]
    # the rotation is clockwise for q B > 0:  dv/dt = q v x B
    v2 = v * np.cos(th)[..., None] + cross(v, np.broadcast_to(n, v.shape)) * np.sin(th)[..., None] + n * ((n * v).sum(-1) * (1 - np.cos(th)))[..., None]
    return v2 + k


def uniform(b, E, B):
    for k, a in enumerate(("ex", "ey", "ez")):
        getattr(b.f, a)[...] = E[k]
    for k, a in enumerate(("bx", "by", "bz")):
        getattr(b.f, a)[...] = B[k]


def make(kind):
    return {"e": lambda: lp.Electron(), "p": lambda: lp.Proton(), "x": lambda: lp.Species(name="x", charge=3, mass=0.5), "n": lambda: lp.Species(name="n", charge=0, mass=2)}[kind]()


def judge(ctx, b, dim, fused, kind, U, E, B, tag):
    """one step of all momenta U in uniform E, B"""
    n = len(U)
    X0 = np.full((n, dim), 3.3)
    b.fill(X0, U, 1.0)
    b.clear()
    s0 = b.state()
    b.step(fused)
    s1 = b.state()
    ctx.add("transitions", n)
    case = dict(dim=dim, fused=fused, species=kind, E=[float(v) for v in E], B=[float(v) for v in B])
    u0 = np.asarray(U, float)
    u1 = np.stack([s1["ux"], s1["uy"], s1["uz"]], -1)
    name = f"{dim}d:{'fused' if fused else 'staged'}"

    def bad(key, i, text):
        ctx.violation(f"{key}:{name}", f"{case}: u={tuple(u0[i])}: {text}", dict(case, u=u0[i].tolist()))
        return True
    if not np.isfinite(u1).all():
        return bad("finite", int(np.flatnonzero(~np.isfinite(u1).all(1))[0]), "momentum not finite")
    m0, m1 = (np.sqrt((v.astype(LD) ** 2).sum(1)) for v in (u0, u1))
    sp = b.sp
    kick = np.sqrt((np.asarray(E) ** 2).sum()) * abs(sp.q) * b.dt / (sp.m * lp.C)
    scale = np.maximum(np.maximum(m0, m1), kick) + LD(1e-300)
    if not any(E):
        r = np.abs(m1 - m0) / scale
        if r.max() > 1e-12:
            i = int(r.argmax())
            return bad("magnitude", i, f"|u| changes from {float(m0[i])!r} to {float(m1[i])!r} in a pure magnetic field")
    if not any(B):
        want = u0 + np.asarray(E) * sp.q * b.dt / (sp.m * lp.C)
        r = np.abs(u1 - want).max(1) / scale
        if r.max() > 1e-12:
            i = int(r.argmax())
            return bad("kick", i, f"pure electric field gives {tuple(u1[i])}, q E dt / mc requires {tuple(want[i])}")
    ref = reference(u0, np.broadcast_to(E, u0.shape), np.broadcast_to(B, u0.shape), sp.q, sp.m, b.dt)
    r = np.sqrt(((u1 - ref) ** 2).sum(1)) / scale
    if r.max() > 1e-11:
        i = int(r.argmax())
        return bad("boris", i, f"got {tuple(u1[i])}, the reference step gives {tuple(float(v) for v in ref[i])}")
    ig = 1 / np.sqrt(1 + (u1.astype(LD) ** 2).sum(1))
    r = np.abs(s1["inv_gamma"] - ig) / ig
    if r.max() > 1e-12:
        i = int(r.argmax())
        return bad("gamma", i, f"after the step inv_gamma={s1['inv_gamma'][i]!r}, 1/sqrt(1+u^2)={float(ig[i])!r}")
    # positions: half a step with the old, half a step with the new velocity; never faster than light
    g0 = 1 / np.sqrt(1 + (u0.astype(LD) ** 2).sum(1))
    d2 = 0
    for k, a in enumerate("xyz"[:dim]):
        want = LD(0.5) * LD(lp.C) * b.dt * (u0[:, k] * g0 + u1[:, k] * ig)
        got = s1[a].astype(LD) - s0[a]
        e = np.abs(got - want)
        if e.max() > 1e-12 * b.d[k] * 10:
            i = int(e.argmax())
            return bad("move", i, f"{a} moves by {float(got[i])!r}, velocities give {float(want[i])!r}")
        d2 = d2 + got ** 2
    if (np.sqrt(d2) > lp.C * b.dt * (1 + 1e-9)).any():
        return bad("light", int(np.sqrt(d2).argmax()), "moves faster than light")
    # reversal: mirrored momenta in the opposite magnetic field come back
    uniform(b, E, [-v for v in B])
    b.fill(X0, -u1, 1.0)
    for a in "xyz"[:dim]:
        getattr(b.q, a)[:] = s1[a]
    b.clear()
    b.step(fused)
    s2 = b.state()
    uniform(b, E, B)
    back = np.stack([s2["ux"], s2["uy"], s2["uz"]], -1)
    r = np.abs(back + u0).max(1) / scale
    if r.max() > 1e-11:
        i = int(r.argmax())
        return bad("reverse", i, f"the reversed step ends at {tuple(-back[i])}")
    for k, a in enumerate("xyz"[:dim]):
        e = np.abs(s2[a] - s0[a])
        if e.max() > 1e-9 * b.d[k]:
            return bad("reverse", int(e.argmax()), f"the reversed step does not return to the start along {a}")
    return False


def lattice(ctx, dim, fused, kind, umags, emags, bmags, part):
    boot()
    dirs = pb.DIRS
    U = [tuple(m * k * s for k, s in zip(dr, (1.0, 0.83, 1.21))) for dr in dirs for m in umags if any(dr) or m == umags[0]]
    b = pb.Bench(dim, make(kind), nslot=len(U))
    E = [(0.0,) * 3] + [tuple(m * k * s for k, s in zip(dr, (1.0, 1.13, 0.9))) for dr in dirs if any(dr) for m in emags]
    B = [(0.0,) * 3] + [tuple(m * k * s / lp.C for k, s in zip(dr, (0.95, 1.0, 1.07))) for dr in dirs if any(dr) for m in bmags]
    pairs = list(itertools.product(E, B))[part[0]::part[1]]
    for i, (e, bb) in enumerate(pairs):
        if i % 50 == 0:
            ctx.case(dict(dim=dim, fused=fused, species=kind, pair=i))
        ctx.add("traces")
        uniform(b, e, bb)
        if judge(ctx, b, dim, fused, kind, U, e, bb, i):
            return
    for i in range(0, len(pairs), 97):
        ctx.state(dim, fused, kind, pairs[i])
    ctx.sample(dict(dim=dim, fused=fused, species=kind, E=e, B=bb, u=U[-1]))


def photons(ctx, dim, umags):
    """photons in strong fields: straight lines at light speed, momentum untouched"""
    boot()
    U = [tuple(m * k * s for k, s in zip(dr, (1.0, 0.83, 1.21))) for dr in pb.DIRS for m in umags if any(dr)]
    from lambdapic import callback as cbk
    ph = lp.Photon()
    el = lp.Electron()
    d = (0.1e-6, 0.07e-6, 0.13e-6)[:dim]
    for npatch in ([(1, 1), (2, 2), (4, 1)] if dim == 2 else [(1, 1, 1), (2, 1, 2)]):
        for amp in (0.0, 1e13):
            s = lp.make_sim(dim, (8,) * dim, npatch, "p" * dim, d=d, ng=3, cpml=3, species=[lp.Electron(), lp.Photon()])
            s.initialize()
            k = 0
            tr = {}
            for p in s.patches:
                q = p.particles[1]
                mine = U[k::s.npatches] if hasattr(s, "npatches") else U[k::int(np.prod(npatch))]
                k += 1
                q.initialize(len(mine))
                for j, u in enumerate(mine):
                    q.ux[j], q.uy[j], q.uz[j] = u
                    q.inv_gamma[j] = 1 / np.sqrt(sum(v * v for v in u))
                    for a, h in zip("xyz", d):
                        getattr(q, a)[j] = getattr(p, a + "0") + 1.3 * h
                    q.w[j] = 1 + len(tr) / 1024
                    tr[q.w[j]] = ([getattr(q, a)[j] for a in "xyz"[:dim]], u)
                q.extended = True
                for a in pb.EB:
                    getattr(p.fields, a)[...] = amp if a[0] == "e" else amp / lp.C
            s.update_lists()
            L = [8 * h for h in d]
            steps = 3
            for st in range(1, steps + 1):
                ctx.case(dict(dim=dim, npatch=npatch, amp=amp, step=st))
                ctx.state(dim, npatch, amp, st)
                s.run(nsteps=1)
                seen = 0
                for p in s.patches:
                    q = p.particles[1]
                    for j in np.flatnonzero(~q.is_dead):
                        seen += 1
                        ctx.add("transitions")
                        x0, u = tr[q.w[j]]
                        case = dict(dim=dim, npatch=npatch, amp=amp, step=st, u=u)
                        got = (q.ux[j], q.uy[j], q.uz[j])
                        if got != u:
                            ctx.violation(f"photon:momentum:{dim}d", f"{case}: momentum becomes {got}", case)
                            return
                        g = 1 / np.sqrt(sum(v * v for v in u))
                        if abs(q.inv_gamma[j] - g) > 1e-12 * g:
                            ctx.violation(f"photon:gamma:{dim}d", f"{case}: inv_gamma {q.inv_gamma[j]!r}, 1/|u| {g!r}", case)
                            return
                        for a, x, l, h, uu in zip("xyz", x0, L, d, u):
                            e = getattr(q, a)[j] - (x + lp.C * s.dt * st * uu * g)
                            e -= l * np.round(e / l)
                            if abs(e) > 1e-9 * h:
                                ctx.violation(f"photon:move:{dim}d", f"{case}: {a} off the straight line by {e / h} cells", case)
                                return
                        if any(getattr(p.fields, c).any() for c in ("jx", "jy", "jz", "rho")):
                            ctx.violation(f"photon:current:{dim}d", f"{case}: photons deposit a current", case)
                            return
                if seen != len(tr):
                    ctx.violation(f"photon:lost:{dim}d", f"{seen} of {len(tr)} photons after step {st}", dict(dim=dim, npatch=npatch, step=st))
                    return
            ctx.add("traces")
    ctx.sample(dict(dim=dim, npatch=npatch))


def loop(ctx, dim, npatch, staged):
    """the main loop's own step (whatever stages it chooses) in uniform fields, momenta followed over several steps"""
    boot()
    from lambdapic import callback as cbk
    d = (0.1e-6, 0.07e-6, 0.13e-6)[:dim]
    dirs = [v for v in pb.DIRS if any(v)]
    for e, bb in itertools.product([(0, 0, 0)] + dirs[::3], [(0, 0, 0)] + dirs[1::3]):
        E = np.array(e) * 2e12
        B = np.array(bb) * 1e4
        case = dict(dim=dim, npatch=npatch, staged=staged, E=list(map(float, E)), B=list(map(float, B)))
        ctx.case(case)
        ctx.state(case)
        sp = [lp.Electron(), lp.Proton()]
        s = lp.make_sim(dim, (8,) * dim, npatch, "p" * dim, d=d, ng=3, cpml=3, species=sp)
        s.initialize()
        cur = {}
        k = 0
        for p in s.patches:
            for i in range(2):
                q = p.particles[i]
                q.initialize(3)
                q.extended = True
                for j in range(3):
                    u = [(1.5 if i == 0 else 0.01) * v * (1 + 0.2 * j) for v in dirs[(7 * k) % 26]]
                    k += 1
                    q.ux[j], q.uy[j], q.uz[j] = u
                    q.inv_gamma[j] = 1 / np.sqrt(1 + sum(v * v for v in u))
                    for a, h in zip("xyz", d):
                        getattr(q, a)[j] = getattr(p, a + "0") + 1.3 * h
                    q.w[j] = 1e-3 * (1 + k / 1024)
                    cur[(i, q.w[j])] = u
        s.update_lists()

        def reset(sim):
            for p in sim.patches:
                for k, a in enumerate(("ex", "ey", "ez")):
                    getattr(p.fields, a)[...] = E[k]
                for k, a in enumerate(("bx", "by", "bz")):
                    getattr(p.fields, a)[...] = B[k]
        cbs = [cbk("maxwell_1")(reset)]
        if staged:
            cbs.append(cbk("_qed")(lambda sim: None))
        for st in range(3):
            s.run(nsteps=1, callbacks=cbs)
            seen = 0
            for p in s.patches:
                for i in range(2):
                    q = p.particles[i]
                    for j in np.flatnonzero(~q.is_dead):
                        seen += 1
                        ctx.add("transitions")
                        u = cur[(i, q.w[j])]
                        ref = reference(np.array(u), E, B, sp[i].q, sp[i].m, s.dt)
                        got = np.array([q.ux[j], q.uy[j], q.uz[j]])
                        if np.abs(got - ref).max() > 1e-10 * max(1e-3, float(np.abs(ref).max())):
                            ctx.violation(f"loop:{dim}d:{'staged' if staged else 'default'}", f"{case}: step {st}, species {i}: u={tuple(u)} becomes {tuple(got)}, reference {tuple(float(v) for v in ref)}", case)
                            return
                        g = 1 / np.sqrt(1 + (got ** 2).sum())
                        if abs(q.inv_gamma[j] - g) > 1e-12 * g:
                            ctx.violation(f"loop:gamma:{dim}d", f"{case}: step {st}: inv_gamma {q.inv_gamma[j]!r}, expected {g!r}", case)
                            return
                        cur[(i, q.w[j])] = list(got)
            if seen != len(cur):
                ctx.violation(f"loop:lost:{dim}d", f"{case}: {seen} of {len(cur)} particles after step {st}", case)
                return
        ctx.add("traces")
    ctx.sample(case)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    um = (1e-9, 1e-3, 1.0, 50.0, 1e6) if big else (1e-6, 1.0, 1e4)
    em = (1e6, 1e12, 1e16) if big else (1e12, 1e15)
    for dim in (2, 3):
        for fused in (True, False):
            for kind in ("e", "p", "x", "n"):
                K = 1 if not big else 2
                for k in range(K):
                    J.append((f"lattice{dim}d-{'fused' if fused else 'staged'}-{kind}-{k}", lattice, dict(dim=dim, fused=fused, kind=kind, umags=um, emags=em if big or kind == "e" else em[:1], bmags=em if big or kind == "e" else em[1:], part=(k, K))))
        J.append((f"photons{dim}d", photons, dict(dim=dim, umags=(1e-3, 1.0, 1e5))))
        for st in (False, True):
            J.append((f"loop{dim}d-{st}", loop, dict(dim=dim, npatch=(2, 2) if dim == 2 else (2, 1, 1), staged=st)))
    return J


COVERAGE = "see NOTE"
