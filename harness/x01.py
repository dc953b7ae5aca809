"""X01: a laser enters the same way whatever the layout, and sources superpose."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of layouts, ownerships, rebalancing histories, pulse parameters, on/off histories and combinations of sources through the real main loop, every step's fields compared with the reference layout and with the laws of linear superposition, causality, symmetry and the requested pulse"
NOTE = "All patch grids and ownerships by 1-3 processes of small 2D and 3D domains, simple and Gaussian (and Laguerre-Gaussian) pulses, polarisations, centres inside, on and off the axis, oblique incidence, stop times at every step, disabling at every step, sums of 2-4 sources, rebalancing while the pulse enters, plasma present; compiled replay."
ASSUMPTIONS = ["MPI is simulated", "patches are wide enough to hold the source plane (a clear error otherwise)", "no plasma in the source plane"]
EM = ("ex", "ey", "ez", "bx", "by", "bz")
D = (0.1e-6, 0.07e-6, 0.08e-6)


def boot():
    global lp, simmpi, cbk, S2, S3, G2, G3, M_E, Q_E
    from vlib import simmpi as M
    M.install()
    from vlib import lp as L
    from lambdapic import callback as c
    from lambdapic.callback.laser import GaussianLaser2D, GaussianLaser3D, SimpleLaser2D, SimpleLaser3D
    lp, simmpi, cbk = L, M, c
    S2, S3, G2, G3 = SimpleLaser2D, SimpleLaser3D, GaussianLaser2D, GaussianLaser3D
    from scipy.constants import e, m_e
    M_E, Q_E = m_e, e


def source(dim, kind, **kw):
    if kind == "simple":
        k = dict(a0=1.0, w0=0.3e-6, ctau=0.5e-6, l0=0.8e-6)
        k.update(kw)
        return (S2 if dim == 2 else S3)(**k)
    k = dict(a0=1.0, l0=0.8e-6, w0=0.4e-6, ctau=0.4e-6, x0=0.6e-6)
    if kind == "lg":
        k.update(l=1, p=1)
    k.update(kw)
    return (G2 if dim == 2 else G3)(**k)


def build(dim, n, npatch, per, cpml=3, plasma=False, d=D, seed=3):
    sp = [lp.Electron(), lp.Proton()]
    s = lp.make_sim(dim, n, npatch, per, d=d[:dim], ng=2, cpml=cpml, species=sp, seed=seed)
    s.initialize()
    s.load_balancer.threshold = np.inf
    if plasma:
        parts = [q for q in lp.plasma(dim, n, d, 24, seed=5, umax=2.0, wbase=1e12 if dim == 2 else 1e5) if q["x"] > 9 * d[0]]
        for i in range(2):
            for p in s.patches:
                lo = [i * k for i, k in zip(lp.ipatch_of(s, p), lp.cells(s)[2])]
                mine = [q for q in parts if lp.home_patch(s, [q[a] for a in "xyz"[:dim]]) == lp.ipatch_of(s, p)]
                q = p.particles[i]
                q.initialize(len(mine))
                for a in list("xyz"[:dim]) + ["ux", "uy", "uz", "w"]:
                    getattr(q, a)[:] = [m[a] for m in mine]
                q.inv_gamma[:] = 1 / np.sqrt(1 + q.ux ** 2 + q.uy ** 2 + q.uz ** 2)
        lp.refresh(s)
    return s


def patches_of(sim):
    return {(lp.ipatch_of(sim, p), a): lp.interior(sim, p, getattr(p.fields, a)).copy() for p in sim.patches for a in EM}


def glue(parts, n, nper):
    out = {}
    for a in EM:
        g = np.full(n, np.nan)
        for d in parts:
            for (c, b), v in d.items():
                if a == b:
                    g[tuple(slice(i * k, (i + 1) * k) for i, k in zip(c, nper))] = v
        out[a] = g
    return out


def run(dim, n, npatch, per, steps, lasers, size=1, ranks=None, chain=None, mode="eager", chooser=None, plasma=False, extra=None, d=D, cpml=3):
    """fields after every step: list of {component: global array}; lasers: function making the callbacks of one process"""
    nper = tuple(a // b for a, b in zip(n, npatch))
    P = lp.partition()
    P.queue = [list(ranks)] if size > 1 else []
    snaps = [[] for _ in range(size)]

    def body(r):
        sim = build(dim, n, npatch, per, plasma=plasma, d=d, cpml=cpml)
        cbs = list(lasers()) + [cbk("end")(lambda s: snaps[r].append(patches_of(s)))]
        if extra:
            cbs += extra(cbs)
        if chain:
            for i in range(steps):
                c = chain[i % len(chain)]
                sim.load_balancer.threshold = np.inf if c is None else -1.0
                if c is not None and r == 0:
                    P.queue = [list(c)]
                sim.mpi.comm.Barrier()
                sim.run(nsteps=1, callbacks=cbs)
        else:
            sim.run(nsteps=steps, callbacks=cbs)
    if size == 1:
        body(0)
        w = None
    else:
        w = simmpi.World(size, simmpi.MODES[mode], chooser)
        w.run(body)
        if not w.ok():
            return w, None
    return w, [glue([snaps[r][t] for r in range(size)], n, nper) for t in range(steps)]


def scale(fs):
    """common scale of E and of cB"""
    m = max(np.abs(f[a]).max() * (1 if a[0] == "e" else lp.C) for f in fs for a in EM)
    return {a: m / (1 if a[0] == "e" else lp.C) for a in EM}


def differ(ref, got, tol=1e-11, sc=None):
    sc = sc or scale(ref)
    for t, (x, y) in enumerate(zip(ref, got)):
        for a in EM:
            e = np.abs(x[a] - y[a]) / sc[a]
            if not (e <= tol).all():
                i = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
                return t, a, f"after step {t}: {a} at cell {tuple(map(int, i))} is {y[a][i]!r}, should be {x[a][i]!r} (peak {sc[a]:.3g})"
    return None


PULSES2 = [
    ("simple", dict(pol_angle=0.7, ellipticity=0.4)),
    ("simple", dict(pol_angle=-1.0, ellipticity=-1.0, y0=0.0)),
    ("simple", dict(angle_y=0.4, y0=0.2e-6, cep=0.3)),
    ("gauss", dict(pol_angle=0.5, ellipticity=0.3, focus_position=1e-6)),
    ("lg", dict(pol_angle=0.2, y0=0.55e-6)),
]
PULSES3 = [
    ("simple", dict(pol_angle=0.7, ellipticity=0.4)),
    ("simple", dict(angle_y=-0.3, y0=0.0, z0=0.0)),
    ("gauss", dict(pol_angle=0.5, ellipticity=-0.6, z0=0.1e-6)),
    ("lg", dict(pol_angle=0.2, focus_position=1e-6)),
]


def grids(dim, n, per, cpml=3):
    """every patch grid the package takes; the source plane lies in the patch"""
    out = []
    for np_ in itertools.product(*[[k for k in range(1, m + 1) if m % k == 0 and m // k > cpml] for m in n]):
        if n[0] // np_[0] < cpml + 2 or not lp.pml_ok(dim, np_, per):
            continue
        out.append(np_)
    return out


def layouts(ctx, dim, n, per, pulses, steps, plasma=False):
    boot()
    G = grids(dim, n, per)
    for kind, kw in pulses:
        ref = None
        for np_ in G:
            case = dict(dim=dim, cells=n, boundaries=per, pulse=kind, par=kw, patches=np_, plasma=plasma)
            ctx.case(case)
            ctx.state(case)
            ctx.add("traces")
            ctx.add("transitions", steps)
            _, got = run(dim, n, np_, per, steps, lambda: [source(dim, kind, **kw)], plasma=plasma)
            if ref is None:
                ref = got
                if scale(ref)["ey"] < 1e11:
                    raise RuntimeError("no pulse")
                continue
            e = differ(ref, got, 1e-9 if plasma else 1e-11)
            if e:
                ctx.violation(f"layout:{dim}d:{kind}:{e[1]}", f"{case} against patches {G[0]}: {e[2]}", case)
                return
    ctx.sample(case)


def ownership(ctx, dim, n, npatch, per, size, pulses, steps, modes=("eager", "rendezvous"), plasma=False, part=(0, 1), stride=1, delays=None):
    boot()
    m = int(np.prod(npatch))
    for kind, kw in pulses:
        _, ref = run(dim, n, npatch, per, steps, lambda: [source(dim, kind, **kw)], plasma=plasma)
        for num, ranks in enumerate(lp.partitions_upto(m, size)):
            if num % part[1] != part[0] or (num // part[1]) % stride:
                continue
            for mode in modes:
                case = dict(dim=dim, patches=npatch, boundaries=per, owners=ranks, mode=mode, pulse=kind, par=kw)
                ctx.case(case)
                ctx.state(case)
                ctx.add("traces")
                ctx.add("transitions", steps)
                w, got = run(dim, n, npatch, per, steps, lambda: [source(dim, kind, **kw)], size, ranks, mode=mode, plasma=plasma)
                if got is None:
                    ctx.violation(f"run:{dim}d", f"{case}: {w.report()}", case)
                    return
                e = differ(ref, got, 1e-9 if plasma else 1e-11)
                if e:
                    ctx.violation(f"owner:{dim}d:{kind}:{e[1]}", f"{case}: {e[2]}", case)
                    return
    ctx.sample(case)


def schedules(ctx, dim, n, npatch, per, size, ranks, bound, steps):
    """message schedules while the pulse enters"""
    boot()
    lz = lambda: [source(dim, "gauss", pol_angle=0.7, x0=0.1e-6)]
    _, ref = run(dim, n, npatch, per, steps, lz)

    def execute(ch):
        case = dict(dim=dim, patches=npatch, owners=ranks, decisions=list(ch.prefix))
        ctx.case(case)
        ctx.add("traces")
        ctx.add("transitions", steps)
        w, got = run(dim, n, npatch, per, steps, lz, size, ranks, chooser=ch)
        if got is None:
            ctx.violation(f"schedule:run:{dim}d", f"{case}: {w.report()}", case)
            return True
        e = differ(ref, got)
        if e:
            ctx.violation(f"schedule:{dim}d:{e[1]}", f"{case}: {e[2]}", case)
            return True
    k, full = simmpi.enumerate_schedules(execute, bound, delays=True)
    ctx.info["schedules"] = k
    ctx.info["complete_within_bound"] = bool(full)


def rebalanced(ctx, dim, n, npatch, per, size, start, chains, steps, kind, kw):
    """the patches that emit change owner while the pulse enters"""
    boot()
    lz = lambda: [source(dim, kind, **kw)]
    _, ref = run(dim, n, npatch, per, steps, lz)
    for chain in chains:
        case = dict(dim=dim, patches=npatch, owners=start, rebalance=chain, pulse=kind, par=kw)
        ctx.case(case)
        ctx.state(case)
        ctx.add("traces")
        ctx.add("transitions", steps)
        w, got = run(dim, n, npatch, per, steps, lz, size, start, chain=chain)
        if got is None:
            ctx.violation(f"rebalance:run:{dim}d", f"{case}: {w.report()}", case)
            return
        e = differ(ref, got)
        if e:
            ctx.violation(f"rebalance:{dim}d:{e[1]}", f"{case}: {e[2]}", case)
            return
    ctx.sample(case)


def combos(dim):
    # one window for all: the plane of a source that has stopped no longer absorbs
    out = [("simple", dict(pol_angle=0.7)), ("simple", dict(ellipticity=1.0, y0=0.2e-6)), ("gauss", dict(pol_angle=1.2)), ("lg", dict(cep=0.4)), ("simple", dict(angle_y=0.3, y0=0.0))]
    return [(k, dict(kw, tstop=1e-9)) for k, kw in out]


def add(fs):
    return [{a: sum(f[t][a] for f in fs) for a in EM} for t in range(len(fs[0]))]


def superpose(ctx, dim, n, npatch, per, steps, most=3):
    """sums of sources, in every order and nesting; a disabled summand does not count"""
    boot()
    C = combos(dim)
    single = [run(dim, n, npatch, per, steps, lambda: [source(dim, k, **kw)])[1] for k, kw in C]
    for k in range(2, most + 1):
        for sel in itertools.combinations(range(len(C)), k):
            for variant in range(3 if k > 2 else 2):
                for off in [()] + [(i,) for i in sel][:2 if k > 2 else None]:
                    case = dict(dim=dim, patches=npatch, sources=[C[i] for i in sel], nesting=variant, disabled=[C[i] for i in off])
                    ctx.case(case)
                    ctx.state(dim, sel, variant, off)
                    ctx.add("traces")
                    ctx.add("transitions", steps)

                    def lz():
                        ls = [source(dim, *[C[i][0]], **C[i][1]) for i in sel]
                        for i, z in zip(sel, ls):
                            if i in off:
                                z.disabled = True
                        if variant == 1:
                            ls = ls[::-1]
                        if variant == 2:
                            return [ls[0] + (ls[1] + ls[2])]
                        t = ls[0]
                        for z in ls[1:]:
                            t = t + z
                        return [t]
                    _, got = run(dim, n, npatch, per, steps, lz)
                    want = add([single[i] for i in sel if i not in off])
                    e = differ(want, got, 1e-11, scale(add([single[i] for i in sel])))
                    if e:
                        ctx.violation(f"sum:{dim}d:{e[1]}", f"{case}: {e[2]}", case)
                        return
    # scaling
    for f in (0.5, 3.0):
        for i, (k, kw) in enumerate(C):
            case = dict(dim=dim, pulse=k, par=kw, a0=f)
            ctx.case(case)
            ctx.state(case)
            _, got = run(dim, n, npatch, per, steps, lambda: [source(dim, k, **dict(kw, a0=f))])
            e = differ([{a: f * x[a] for a in EM} for x in single[i]], got)
            ctx.add("transitions", steps)
            if e:
                ctx.violation(f"scale:{dim}d:{e[1]}", f"{case}: {e[2]}", case)
                return
    ctx.sample(case)


def windows(ctx, dim, n, npatch, per, steps):
    """stop times and disabling at every step: the same as taking the source out of the list at that step"""
    boot()
    dt = build(dim, n, npatch, per).dt
    for kind, kw in (("simple", dict(pol_angle=0.7)), ("gauss", dict(pol_angle=0.3))):
        def without(k):
            """the source is called in steps 0..k-1 only"""
            def lz():
                z = source(dim, kind, **dict(kw, tstop=1e9))
                return [cbk("_laser")(lambda s: z(s) if s.itime < k else None)]
            return run(dim, n, npatch, per, steps, lz)[1]
        for k in range(steps + 1):
            want = without(k)
            # the stop time itself does not emit: a hair before the time of step k excludes rounding
            ways = {"tstop": lambda: [source(dim, kind, **dict(kw, tstop=(k - 0.5) * dt if k else 1e-30))]}

            def disable_at():
                z = source(dim, kind, **dict(kw, tstop=1e9))

                def turn(s):
                    if s.itime == k:
                        z.disabled = True
                return [cbk("start")(turn), z]
            ways["disabled"] = disable_at

            def sum_():
                # a sum with a source that has stopped long ago
                z = source(dim, kind, **dict(kw, tstop=(k - 0.5) * dt if k else 1e-30))
                return [z + source(dim, kind, tstop=1e-30, pol_angle=1.0)]
            if k:
                ways["sum"] = sum_
            for name, lz in ways.items():
                if name != "disabled" and k == 0:
                    # time 0 is not after tstop: one sample may be emitted
                    continue
                case = dict(dim=dim, pulse=kind, stops_before_step=k, by=name)
                ctx.case(case)
                ctx.state(case)
                ctx.add("traces")
                ctx.add("transitions", steps)
                _, got = run(dim, n, npatch, per, steps, lz)
                if name == "sum":
                    # the first sample of the second source is zero for a pulse that starts from zero
                    if kind != "simple":
                        continue
                full = without(steps)
                e = differ(want, got, 1e-11, scale(full))
                if e:
                    ctx.violation(f"window:{name}:{dim}d:{e[1]}", f"{case}: {e[2]}", case)
                    return
    ctx.sample(case)


def pulse(ctx, dim, cfg, part=(0, 1)):
    """a plane, normally incident pulse is the requested one: amplitude, phase, polarisation, time profile; nothing
    is ahead of the light cone and nothing enters through other sides"""
    boot()
    n = (60, 8) if dim == 2 else (40, 8, 8)
    npatch = (5, 1) if dim == 2 else (4, 1, 1)
    per = "op" if dim == 2 else "opp"
    steps = 60 if dim == 2 else 40
    l0 = 1.6e-6
    d = (0.04e-6, 0.05e-6, 0.06e-6) if dim == 2 else (0.05e-6, 0.07e-6, 0.06e-6)
    for num, (kind, pol, ell, cep, amp) in enumerate(cfg):
        if num % part[1] != part[0]:
            continue
        case = dict(dim=dim, pulse=kind, pol_angle=pol, ellipticity=ell, cep=cep, a0=amp)
        ctx.case(case)
        ctx.state(case)
        ctx.add("traces")
        ctx.add("transitions", steps)
        kw = dict(a0=amp, w0=1.0, l0=l0, pol_angle=pol, ellipticity=ell, cep=cep)
        if kind == "simple":
            kw.update(ctau=1.1e-6)
        else:
            kw.update(ctau=0.8e-6, x0=0.9e-6, w0=1.0)
        sim = build(dim, n, npatch, per, d=d)
        dt = sim.dt
        c = lp.C
        _, got = run(dim, n, npatch, per, steps, lambda: [source(dim, kind, **kw)], d=d)
        E0 = amp * M_E * c * (2 * np.pi * c / l0) / Q_E
        sx = 3 + 1.5      # the source plane, in cells
        x = (np.arange(n[0]) - sx) * d[0]
        nn = np.sqrt(1 + ell ** 2)
        rows = (slice(None),) + (3,) * (dim - 1)
        # nothing ahead of the cone, nothing from other sides
        for t in range(0, steps, 3):
            front = 5 + t + 2
            for a in EM:
                if front < n[0] and np.any(got[t][a][front:]):
                    ctx.violation(f"cone:{dim}d:{a}", f"{case}: after step {t}: {a} is not zero at cells {front} and beyond", case)
                    return
        T = (steps - 0.5) * dt
        best = None
        # the injected wave is E(t - x/c) up to a sub-cell shift of the plane and of the half step
        for sh in np.linspace(-1.5, 1.5, 61):
            s = c * T - x - sh * d[0]
            tau = s / c
            if kind == "simple":
                prof = np.where((s > 0) & (s < 2 * kw["ctau"]), np.sin(s / (2 * kw["ctau"]) * np.pi) ** 2, 0)
                ph = 2 * np.pi * s / l0 + cep
            else:
                prof = np.exp(-(s - kw["x0"]) ** 2 / kw["ctau"] ** 2)
                ph = 2 * np.pi * (s - 3 * d[0]) / l0 + cep
            A = E0 * prof / nn
            ey = A * (np.cos(pol) * np.sin(ph) - ell * np.sin(pol) * np.cos(ph))
            ez = A * (np.sin(pol) * np.sin(ph) + ell * np.cos(pol) * np.cos(ph))
            m = slice(8, n[0] - 8)
            if kind != "simple":
                # a Gaussian pulse starts with a step, which disperses: leave the front out
                m = slice(8, n[0] // 2)
            e = max(np.abs(got[-1]["ey"][rows] - ey)[m].max(), np.abs(got[-1]["ez"][rows] - ez)[m].max()) / E0
            if best is None or e < best[0]:
                best = (e, sh)
        ctx.info[f"misfit_{kind}_{dim}d"] = max(ctx.info.get(f"misfit_{kind}_{dim}d", 0), round(float(best[0]), 4))
        if not best[0] < 0.05:
            ctx.violation(f"pulse:{dim}d:{kind}", f"{case}: the field differs from the requested pulse by {best[0]:.3f} of its amplitude (best shift {best[1]:.2f} cells)", case)
            return
        # right-going: cB follows E
        m = slice(8, n[0] - 12)
        for e_, b_, sg in (("ey", "bz", 1), ("ez", "by", -1)):
            E_, B_ = got[-1][e_][rows], sg * c * got[-1][b_][rows]
            Bi = 0.5 * (B_ + np.roll(B_, 1))
            if np.abs(E_ - Bi)[m].max() > 0.1 * E0:
                ctx.violation(f"direction:{dim}d:{e_}", f"{case}: {e_} and c{b_} of the pulse differ by {np.abs(E_ - Bi)[m].max() / E0:.3f} of the amplitude", case)
                return
    ctx.sample(case)


def centre(ctx, dim, steps):
    """the beam is centred where it was asked, for centres at and outside the edges"""
    boot()
    n = (20, 24) if dim == 2 else (16, 12, 12)
    npatch = (2, 3) if dim == 2 else (2, 2, 2)
    per = "op" if dim == 2 else "opp"
    ks = list(range(-2, n[1] + 3, 2))
    for kind in ("simple", "gauss"):
        for k in ks:
            for k2 in ([None] if dim == 2 else (0, n[2] // 2, None, n[2] - 1)):
                kw = dict(w0=0.25e-6, y0=k * D[1])
                if dim == 3:
                    kw["z0"] = None if k2 is None else k2 * D[2]
                case = dict(dim=dim, pulse=kind, y0=f"{k} cells", z0=None if dim == 2 else ("default" if k2 is None else f"{k2} cells"))
                ctx.case(case)
                ctx.state(case)
                ctx.add("traces")
                ctx.add("transitions", steps)
                _, got = run(dim, n, npatch, per, steps, lambda: [source(dim, kind, **kw)])
                # the field right behind the plane has the profile of the source: its maximum over the transverse cells
                f = np.max([np.abs(g["ey"][5:8]).max(0) for g in got], 0)
                want = [k] if dim == 2 else [k, n[2] // 2 if k2 is None else k2]
                i = np.unravel_index(int(np.argmax(f)), f.shape)
                for j, (a, b, m) in enumerate(zip(i, want, n[1:])):
                    b = min(max(b, 0), m - 1)
                    if abs(int(a) - b) > 1:
                        ctx.violation(f"centre:{dim}d:{'yz'[j]}", f"{case}: the beam has its maximum at cell {tuple(map(int, i))}, {want} asked for", case)
                        return
    # no centre given: the middle
    for kind in ("simple", "gauss", "lg"):
        mid = [m * h / 2 for m, h in zip(n[1:], D[1:])]
        a = run(dim, n, npatch, per, steps, lambda: [source(dim, kind)])[1]
        b = run(dim, n, npatch, per, steps, lambda: [source(dim, kind, **dict(zip(("y0", "z0"), mid)))])[1]
        ctx.case(dict(dim=dim, pulse=kind, centre="default"))
        e = differ(a, b)
        if e:
            ctx.violation(f"centre:{dim}d:default", f"{kind}: default centre: {e[2]}", {})
            return
    ctx.sample(case)


def swap(ctx, steps):
    """3D: exchanging the roles of y and z exchanges the fields"""
    boot()
    for kind, kw, kw2 in (
            ("simple", dict(pol_angle=0.0, y0=0.2e-6, z0=0.5e-6), dict(pol_angle=np.pi / 2, y0=0.5e-6, z0=0.2e-6)),
            ("simple", dict(pol_angle=0.4), dict(pol_angle=np.pi / 2 - 0.4)),
            ("simple", dict(pol_angle=0.4, ellipticity=0.5), dict(pol_angle=np.pi / 2 - 0.4, ellipticity=-0.5)),
            ("gauss", dict(pol_angle=1.0, y0=0.1e-6, z0=0.3e-6), dict(pol_angle=np.pi / 2 - 1.0, y0=0.3e-6, z0=0.1e-6))):
        for npatch, per in (((2, 2, 1), "opp"), ((2, 2, 2), "oop"), ((2, 2, 2), "ooo")):
            case = dict(pulse=kind, par=kw, patches=npatch, boundaries=per)
            ctx.case(case)
            ctx.state(case)
            ctx.add("traces")
            ctx.add("transitions", 2 * steps)
            n = (12, 10, 12)
            d2 = (D[0], D[2], D[1])
            _, a = run(3, n, npatch, per, steps, lambda: [source(3, kind, **kw)])
            _, b = run(3, (n[0], n[2], n[1]), (npatch[0], npatch[2], npatch[1]), per[0] + per[2] + per[1], steps, lambda: [source(3, kind, **kw2)], d=d2)
            back = [{"ex": f["ex"].swapaxes(1, 2), "ey": f["ez"].swapaxes(1, 2), "ez": f["ey"].swapaxes(1, 2),
                     "bx": -f["bx"].swapaxes(1, 2), "by": -f["bz"].swapaxes(1, 2), "bz": -f["by"].swapaxes(1, 2)} for f in b]
            e = differ(a, back, 1e-10)
            if e:
                ctx.violation(f"swap:{kind}:{e[1]}", f"{case}: not symmetric in y and z: {e[2]}", case)
                return
    ctx.sample(case)


def oblique(ctx, part=(0, 1)):
    """an oblique pulse is outside its own time window before its front arrives"""
    boot()
    dim, n, npatch, per = 2, (16, 40), (2, 4), "op"
    for num, (ang, y0) in enumerate(itertools.product((0.5, -0.5, 1.0, -1.0), (None, 0.0, 1.4e-6))):
        kw = dict(angle_y=ang, w0=5e-6, ctau=0.3e-6, y0=y0, tstop=1.0)
        case = dict(angle=ang, y0=y0)
        ctx.case(case)
        ctx.state(case)
        ctx.add("traces")
        steps = 20
        ctx.add("transitions", steps)
        _, got = run(dim, n, npatch, per, steps, lambda: [source(dim, "simple", **kw)])
        dt = build(dim, n, npatch, per).dt
        yc = n[1] * D[1] / 2 if y0 is None else y0
        y = np.arange(n[1]) * D[1] - yc
        sc = max(np.abs(f["ey"]).max() for f in got)
        for t in range(steps):
            # the edge of the light cone of everything emitted so far
            arrived = lp.C * (t + 1) * dt - (y - 0.5 * D[1]) * np.sin(ang) > 0
            reach = np.array([any(arrived[(j + k) % n[1]] for k in range(-t - 3, t + 4)) for j in range(n[1])])
            dark = ~reach
            if dark.any() and np.abs(got[t]["ey"][:, dark]).max() > 1e-9 * sc:
                j = int(np.flatnonzero(dark)[np.argmax(np.abs(got[t]["ey"][:, dark]).max(0))])
                ctx.violation("oblique:early", f"{case}: after step {t} there is a field at row {j}, which the front of the pulse has not reached", case)
                return
    ctx.sample(case)


def thin(ctx):
    """patches too small for the source: an error, or the right field; never a silently missing pulse"""
    boot()
    for cpml, nx, npx in ((3, 24, 6), (3, 50, 10), (3, 36, 6), (2, 24, 8), (2, 24, 6)):
        case = dict(cpml=cpml, cells=nx, patches=npx)
        ctx.case(case)
        ctx.state(case)
        ctx.add("traces")
        lz = lambda: [source(2, "simple", pol_angle=0.7)]
        ref = run(2, (nx, 12), (2, 1), "op", 16, lz, cpml=cpml)[1]
        try:
            got = run(2, (nx, 12), (npx, 1), "op", 16, lz, cpml=cpml)[1]
        except ValueError as ex:
            if nx // npx >= cpml + 3:
                ctx.violation("thin:refused", f"{case}: {ex}", case)
                return
            ctx.info["refused"] = ctx.info.get("refused", 0) + 1
            continue
        ctx.add("transitions", 32)
        e = differ(ref, got)
        if e:
            ctx.violation(f"thin:{e[1]}", f"{case}: {e[2]}", case)
            return
    ctx.sample(case)


def compiled(ctx):
    layouts(ctx, 2, (24, 16), "oo", PULSES2[:2], 16)
    layouts(ctx, 3, (12, 8, 8), "opo", PULSES3[:1], 10)


def jobs(tier, seed):
    from vlib import jitjob
    th = tier == "thorough"
    J = []
    for i, per in enumerate(("op", "oo")):
        for j, p in enumerate(PULSES2):
            J.append((f"layouts-2d-{per}-{j}", layouts, dict(dim=2, n=(30, 20) if th else (24, 16), per=per, pulses=[p], steps=30 if th else 16)))
    for per in ("opp", "oop", "opo", "ooo") if th else ("opp", "ooo"):
        for j, p in enumerate(PULSES3):
            J.append((f"layouts-3d-{per}-{j}", layouts, dict(dim=3, n=(12, 8, 12) if th else (12, 8, 8), per=per, pulses=[p], steps=16 if th else 10)))
    J.append(("plasma-2d", layouts, dict(dim=2, n=(24, 16), per="oo", pulses=PULSES2[:2], steps=12, plasma=True)))
    J.append(("plasma-3d", layouts, dict(dim=3, n=(24, 8, 8), per="opp", pulses=PULSES3[:1], steps=8, plasma=True)))
    for s in (2, 3):
        J.append((f"owner-2d-{s}", ownership, dict(dim=2, n=(16, 8), npatch=(2, 2), per="oo", size=s, pulses=PULSES2[:1] if not th else PULSES2, steps=8)))
        J.append((f"owner-3d-{s}", ownership, dict(dim=3, n=(12, 8, 8), npatch=(2, 2, 2), per="oop", size=s, pulses=PULSES3[:1], steps=5, modes=("eager",), stride=(1 if s == 2 else 6) if th else (4 if s == 2 else 60))))
    J.append(("owner-2d-33", ownership, dict(dim=2, n=(18, 15), npatch=(3, 3), per="oo", size=2, pulses=PULSES2[2:3], steps=6, modes=("eager",), stride=1 if th else 12)))
    J.append(("schedules", schedules, dict(dim=2, n=(16, 8), npatch=(2, 2), per="oo", size=2, ranks=(0, 1, 1, 0) if th else (0, 0, 1, 1), bound=1, steps=4 if th else 1)))
    ch = [[(1, 1, 0, 0), None], [(0, 1, 0, 1), (1, 0, 0, 1)], [None, (1, 1, 1, 0)], [(1, 0, 1, 1), (0, 0, 0, 1), None]]
    J.append(("rebalance-2d", rebalanced, dict(dim=2, n=(16, 8), npatch=(2, 2), per="oo", size=2, start=(0, 0, 1, 1), chains=ch, steps=12, kind="simple", kw=dict(pol_angle=0.7))))
    J.append(("rebalance-2d-3", rebalanced, dict(dim=2, n=(16, 8), npatch=(2, 2), per="op", size=3, start=(0, 1, 2, 1), chains=[[(1, 2, 0, 0), None], [(2, 2, 1, 0), (0, 1, 1, 2)]], steps=12, kind="gauss", kw=dict(pol_angle=0.7))))
    J.append(("rebalance-3d", rebalanced, dict(dim=3, n=(12, 8, 4), npatch=(2, 2, 1), per="oop", size=2, start=(0, 0, 1, 1), chains=ch[:2], steps=8, kind="simple", kw=dict(pol_angle=0.7))))
    J.append(("superpose-2d", superpose, dict(dim=2, n=(16, 8), npatch=(2, 2), per="op", steps=14, most=4 if th else 3)))
    J.append(("superpose-3d", superpose, dict(dim=3, n=(12, 6, 4), npatch=(2, 1, 1), per="opp", steps=10, most=3 if th else 2)))
    J.append(("windows-2d", windows, dict(dim=2, n=(16, 8), npatch=(2, 2), per="op", steps=20 if th else 12)))
    J.append(("windows-3d", windows, dict(dim=3, n=(12, 8, 4), npatch=(2, 2, 1), per="opp", steps=10 if th else 6)))
    cfg = [(k, p, e, c, a) for k in ("simple", "gauss") for p in (0.0, 0.7, np.pi / 2, -2.0) for e in (0.0, 0.5, 1.0, -1.0) for c in (0.0, 1.0) for a in (1.0,)]
    for dim in (2, 3):
        K = 4
        for k in range(K):
            J.append((f"pulse-{dim}d-{k}", pulse, dict(dim=dim, cfg=cfg if th or dim == 2 else cfg[::5], part=(k, K))))
    J.append(("centre-2d", centre, dict(dim=2, steps=6)))
    J.append(("centre-3d", centre, dict(dim=3, steps=5)))
    J.append(("swap", swap, dict(steps=10)))
    J.append(("oblique", oblique, {}))
    J.append(("thin", thin, {}))
    J.append(("compiled", jitjob.jit, dict(target="harness.x01:compiled", args={}, threads=3, compiled=True)))
    return J


COVERAGE = "see NOTE"
