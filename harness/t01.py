"""T01: momentum and temperature setters reach exactly the intended particles."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of configurations and histories: every dead/live pattern, patch grid, ownership, setter, value kind, interval and division of the run through the real main loop, complete particle state compared with the requested one; the thermal sampler driven through all strata of its random draws"
NOTE = "3 setters, set and add, all dead/live patterns over 3 slots on 4 patches (2D) or 2 (3D), all ownerships by 1-3 processes, default, integer and predicate schedules over divided runs, several setters in every order; temperatures over nine decades, isotropic and every anisotropy over {0, T, 4T}."
ASSUMPTIONS = ["MPI is simulated", "the law of the thermal momenta is compared within 2.5% on 20000 stratified draws"]
D = (0.1e-6, 0.07e-6, 0.08e-6)
ALL = ("x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma")


def boot():
    global lp, simmpi, cu, cbk
    from vlib import simmpi as M
    M.install()
    from vlib import lp as L
    from lambdapic.callback import utils as u
    from lambdapic import callback as c
    lp, simmpi, cu, cbk = L, M, u, c


def problem(dim, npatch, pats, nspecies=2, seed=7, slots=None):
    sp = [lp.Electron(name="e0"), lp.Proton(name="p1"), lp.Photon(name="g2")][:nspecies]
    n = tuple(4 * k for k in npatch)
    s = lp.make_sim(dim, n, npatch, "p" * dim, d=D[:dim], ng=2, cpml=2, species=sp, seed=seed)
    s.initialize()
    for p in s.patches:
        k = int(np.ravel_multi_index(lp.ipatch_of(s, p), npatch))
        g = lp.lcg(5 + k)
        for j, q in enumerate(p.particles):
            pat = pats[(k + j) % len(pats)]
            q.initialize(len(pat))
            for i, live in enumerate(pat):
                for a, h in zip("xyz"[:dim], D):
                    getattr(q, a)[i] = getattr(p, a + "min") + h * (3 * next(g))
                q.w[i] = 1e3 * (1 + 7 * i + 101 * k + 1009 * j)
                u = [next(g) - 0.5, next(g) - 0.5, next(g) - 0.5]
                q.ux[i], q.uy[i], q.uz[i] = u
                q.inv_gamma[i] = 1 / np.sqrt((j != 2) + np.dot(u, u))
                q.is_dead[i] = not live
            q.extended = True
    s.update_lists()
    return s, sp


def snap(sim):
    return {(lp.ipatch_of(sim, p), j): {**{a: getattr(q, a).copy() for a in ALL if hasattr(q, a)}, "dead": q.is_dead.copy(), "id": q.id.copy()} for p in sim.patches for j, q in enumerate(p.particles)}


def setter(kind, sp, mom, temp, interval, add):
    kw = dict(add=add)
    if interval is not None:
        kw["interval"] = interval
    if kind == "m":
        return cu.SetMomentum(sp, mom, **kw)
    if kind == "t":
        return cu.SetTemperature(sp, temp, **kw)
    return cu.SetMomentumAndTemperature(sp, mom, temp, **kw)


def watch(store):
    """state before and after the setters of the init stage"""
    def take(name):
        @cbk("init")
        def f(sim):
            store.append((name, sim.itime, snap(sim)))
        return f
    return take


def verify(ctx, case, key, before, after, target, kind, mom, add, due):
    """one application: before -> after"""
    for k in before:
        b, a = before[k], after[k]
        live = ~b["dead"]
        ctx.add("transitions", int(live.sum()))
        for at in b:
            touched = due and k[1] == target and at in ("ux", "uy", "uz", "inv_gamma")
            same = b[at].tobytes() == a[at].tobytes() if not touched else b[at][~live].tobytes() == a[at][~live].tobytes()
            if b[at].shape != a[at].shape or not same:
                ctx.violation(f"untouched:{key}", f"{case}: patch {k[0]}, species {k[1]}: {at} of {'dead slots' if touched else 'particles that are not meant'} changed", case)
                return False
        if not due or k[1] != target or not live.any():
            continue
        u = np.array([a[c][live] for c in ("ux", "uy", "uz")])
        u0 = np.array([b[c][live] for c in ("ux", "uy", "uz")])
        if not np.isfinite(u).all():
            ctx.violation(f"finite:{key}", f"{case}: patch {k[0]}: momenta {u[:, :3]}", case)
            return False
        if kind == "m":
            want = np.array(mom, float)[:, None] + (u0 if add else 0 * u0)
            if not np.array_equal(u, want):
                ctx.violation(f"value:{key}", f"{case}: patch {k[0]}: momenta {u[:, 0]} instead of {want[:, 0]}", case)
                return False
        g = 1 / np.sqrt((k[1] != 2) + (u * u).sum(0))
        if np.abs(a["inv_gamma"][live] / g - 1).max() > 1e-12:
            ctx.violation(f"gamma:{key}", f"{case}: patch {k[0]}: inverse gamma {a['inv_gamma'][live]} of momenta {u.T.tolist()} should be {g}", case)
            return False
    return True


def distinct(ctx, case, key, snaps, target):
    """no two particles anywhere got the same thermal momentum"""
    seen = {}
    for r, s in enumerate(snaps):
        for k, v in s.items():
            if k[1] != target:
                continue
            for i in np.flatnonzero(~v["dead"]):
                t = (v["ux"][i], v["uy"][i], v["uz"][i])
                if any(t):
                    if t in seen:
                        ctx.violation(f"independent:{key}", f"{case}: particles of {seen[t]} and process {r}, patch {k[0]}, slot {i} got the same momentum {t}", case)
                        return False
                    seen[t] = f"process {r}, patch {k[0]}, slot {i}"
    return True


def apply_once(ctx, case, key, dim, npatch, pats, size, ranks, kind, target, mom, temp, interval, add, due, itime=0, seed=7):
    ctx.case(case)
    ctx.state(case)
    ctx.add("traces")
    P = lp.partition()
    P.queue = [list(ranks)] if size > 1 else []
    log = [[] for _ in range(size)]

    def body(r):
        sim, sp = problem(dim, npatch, pats, seed=seed, nspecies=3 if target == 2 else 2)
        sim.itime = itime
        t = watch(log[r])
        sim.run(nsteps=0, callbacks=[t("before"), setter(kind, sp[target], mom, temp, interval, add), t("after")])
    w = simmpi.World(size, simmpi.MODES["eager"], None)
    w.run(body)
    if not w.ok():
        ctx.violation(f"run:{key}", f"{case}: {w.report()}", case)
        return None
    out = []
    for r in range(size):
        (_, _, b), (_, _, a) = log[r]
        if not verify(ctx, case, key, b, a, target, kind, mom, add, due):
            return None
        out.append((b, a))
    if kind == "t" and not add and due and max(temp if isinstance(temp, (list, tuple)) else [temp]) > 0:
        if not distinct(ctx, case, key, [a for _, a in out], target):
            return None
    return out


MOMS = ([0.5, -2, 3e-3], [0, 0, 0], (1e6, 0.0, -1e6), [1, 2, 3])


def patterns(ctx, dim, kind, part):
    boot()
    npatch = (2, 2) if dim == 2 else (2, 1, 1)
    P3 = list(itertools.product((0, 1), repeat=3))
    pats = [[a, b, (), (1, 0)] for a in P3 for b in P3] if dim == 2 else [[a, b] for a in P3 for b in P3]
    for k, pt in enumerate(pats):
        if k % part[1] != part[0]:
            continue
        for add in (False, True):
            # photons have a momentum but no temperature
            for target in (0, 1, 2) if kind == "m" and MOMS[k % 4] != [0, 0, 0] else (0, 1):
                m, t = MOMS[k % 4], (10.0, 1e3, 5e5, [1e3, 2e3, 0])[k // 4 % 4]
                case = dict(dim=dim, kind=kind, pattern=pt, add=add, target=target, momentum=m, temperature=t)
                if apply_once(ctx, case, f"{kind}:{dim}d", dim, npatch, pt, 1, None, kind, target, m, t, None, add, True) is None:
                    return
    ctx.sample(case)


def layouts(ctx, dim, kind):
    boot()
    grids = ((1, 1), (2, 1), (2, 2), (3, 2)) if dim == 2 else ((1, 1, 1), (1, 2, 1), (2, 1, 2))
    for g in grids:
        k = int(np.prod(g))
        for size in (1, 2, 3):
            for ranks in lp.partitions_upto(k, size):
                if k == 6 and sum(ranks) % 3:
                    continue
                case = dict(dim=dim, kind=kind, npatch=g, size=size, ranks=ranks)
                if apply_once(ctx, case, f"layout:{kind}:{dim}d", dim, g, [(1, 0, 1), (1, 1), (0,), (1,)], size, ranks, kind, k % 2, MOMS[k % 4], 1e4, None, False, True) is None:
                    return
    ctx.sample(case)


def together(ctx, dim, size, ranks):
    """momentum and temperature together are the momentum with the temperature added; set and add draw alike"""
    boot()
    g = (2, 2) if dim == 2 else (2, 1, 2)
    pats = [(1, 1, 0, 1), (1,), (1, 1), (0, 1)]
    for target in (0, 1):
        for add in (False, True):
            for temp in (50.0, 1e4, 2e6, [1e3, 4e3, 0], [0, 10, 20], 0, 0.0):
                m = [3.0, -1.0, 0.25]
                res = {}
                for kind in "mtb":
                    case = dict(dim=dim, size=size, target=target, add=add, temperature=temp, kind=kind)
                    o = apply_once(ctx, case, f"together:{dim}d", dim, g, pats, size, ranks, kind, target, m, temp, None, add, True)
                    if o is None:
                        return
                    res[kind] = o
                for r in range(size):
                    for k in res["m"][r][0]:
                        if k[1] != target:
                            continue
                        for c, u in enumerate(("ux", "uy", "uz")):
                            live = ~res["m"][r][0][k]["dead"]
                            b = res["m"][r][0][k][u][live]
                            th = res["t"][r][1][k][u][live] - (b if add else 0)
                            want = (b if add else 0) + m[c] + th
                            got = res["b"][r][1][k][u][live]
                            if live.any() and np.abs(got - want).max() > 1e-9 * (1 + np.abs(want).max()):
                                ctx.violation(f"sum:{dim}d", f"{case}: patch {k[0]}: {u} {got} instead of momentum + thermal part {want}", case)
                                return
    ctx.sample(case)


def schedule(ctx, kind):
    """default: once at the start; given: as given; over every division of a run"""
    boot()
    divisions = ([3], [1, 2], [2, 1], [1, 1, 1], [0, 3], [0, 0, 3], [3, 0])
    sched = {"default": (None, lambda i: i == 0), "every": (1, lambda i: True), "2": (2, lambda i: i % 2 == 0), "3": (3, lambda i: i % 3 == 0), "at 1": (lambda s: s.itime == 1, lambda i: i == 1), "never": (lambda s: False, lambda i: False)}
    for name, (iv, due) in sched.items():
        for div in divisions:
            for add in (False, True):
                for order in itertools.permutations(range(2)):
                    case = dict(kind=kind, interval=name, calls=div, add=add, order=order)
                    ctx.case(case)
                    ctx.state(case)
                    log = []
                    sim, sp = problem(2, (2, 1), [(1, 0, 1), (1, 1)])
                    t = watch(log)
                    S = [setter(kind, sp[0], [0.5, -0.25, 2], 1e3, iv, add), setter("m", sp[1], [1, 1, 1], None, iv, add)]
                    cbs = [t("0"), S[order[0]], t("1"), S[order[1]], t("2")]
                    at = []
                    for n in div:
                        at.append(sim.itime)
                        sim.run(nsteps=n, callbacks=cbs)
                    if len(log) != 3 * len(div):
                        raise RuntimeError(len(log))
                    for c, i in enumerate(at):
                        for k in (0, 1):
                            tgt = order[k]
                            b, a = log[3 * c + k][2], log[3 * c + k + 1][2]
                            if not verify(ctx, dict(case, call=c, step=i), f"schedule:{kind}", b, a, tgt, kind if tgt == 0 else "m", [0.5, -0.25, 2] if tgt == 0 else [1, 1, 1], add, due(i)):
                                return
                            if due(i) and not add and kind != "m" and tgt == 0:
                                same = all(b[q]["ux"][~b[q]["dead"]].tobytes() == a[q]["ux"][~a[q]["dead"]].tobytes() for q in b if q[1] == 0)
                                if same:
                                    ctx.violation(f"applied:{kind}", f"{case}: call {c} at step {i}: nothing was set", case)
                                    return
    ctx.sample(case)


# ------------------------------------------------------------------ law
class Strata(np.random.Generator):
    """answers every request with a low-discrepancy set covering all strata of the unit interval"""
    ROOTS = [2 ** 0.5, 3 ** 0.5, 5 ** 0.5, 7 ** 0.5, 11 ** 0.5, 13 ** 0.5, 17 ** 0.5, 19 ** 0.5]

    def __init__(self):
        super().__init__(np.random.PCG64(1))
        self.k = 0

    def _u(self, size):
        n = int(np.prod(size)) if size is not None else 1
        a = self.ROOTS[self.k % 8]
        self.k += 1
        v = ((np.arange(n) + 0.5 + self.k // 8) * a) % 1.0
        return v.reshape(size) if size is not None else float(v[0])

    def random(self, size=None, *a, **k):
        return self._u(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._u(size)

    def standard_gamma(self, shape, size=None, *a, **k):
        from scipy.special import gammaincinv
        return gammaincinv(shape, self._u(size))

    def gamma(self, shape, scale=1.0, size=None):
        return scale * self.standard_gamma(shape, size)


def cdf(theta):
    """Maxwell-Juttner distribution of the kinetic energy k = gamma - 1, tabulated"""
    k = theta * np.concatenate([np.linspace(0, 3, 6001), np.linspace(3, 40, 6001)[1:]])
    f = (1 + k) * np.sqrt(k * (2 + k)) * np.exp(-k / theta)
    F = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(k))])
    return k, F / F[-1]


def law(ctx, thetas, n=20000):
    boot()
    for th in thetas:
        case = dict(theta=th, draws=n)
        ctx.case(case)
        ctx.state(case)
        ctx.add("transitions", n)
        u = np.array(cu.SetTemperature.sample_maxwell_juttner(n, th, Strata()))
        if u.shape != (3, n) or not np.isfinite(u).all():
            ctx.violation("law:shape", f"{case}: shape {u.shape} or not finite", case)
            return
        u2 = (u * u).sum(0)
        kin = np.sort(u2 / (1 + np.sqrt(1 + u2)))
        k, F = cdf(th)
        dev = np.abs(np.interp(kin, k, F) - (np.arange(n) + 0.5) / n).max()
        if dev > 0.025:
            ctx.violation("law:energy", f"{case}: the energy distribution is off by {dev:.3f} from Maxwell-Juttner", case)
            return
        d = u / np.sqrt(u2)
        m1, m2 = d.mean(1), (d[:, None] * d[None]).mean(2)
        if np.abs(m1).max() > 0.03 or np.abs(m2 - np.eye(3) / 3).max() > 0.03:
            ctx.violation("law:direction", f"{case}: mean direction {m1}, second moments {m2.tolist()} are not isotropic", case)
            return
        e = np.corrcoef(np.vstack([np.sqrt(u2), d]))[0, 1:]
        if np.abs(e).max() > 0.04:
            ctx.violation("law:correlation", f"{case}: speed and direction are correlated {e}", case)
            return
    ctx.sample(case)


def anisotropy(ctx, temps, species, dim):
    """each direction has the temperature asked for (non-relativistic: <u^2> = T / m c^2)"""
    boot()
    N = 4000
    for T in itertools.product(temps, repeat=3):
        for add in (False, True):
            case = dict(temperature=T, species=species, add=add, dim=dim)
            ctx.case(case)
            ctx.state(case)
            pats = [(1,) * N]
            sim, sp = problem(dim, (2, 1, 1)[:dim], pats)
            for p in sim.patches:
                for q in p.particles:
                    q.ux[:], q.uy[:], q.uz[:] = 0.0, 0.0, 0.0
            sim.run(nsteps=0, callbacks=[cu.SetTemperature(sp[species], list(T), add=add)])
            u = np.concatenate([[p.particles[species].ux, p.particles[species].uy, p.particles[species].uz] for p in sim.patches], axis=1)
            ctx.add("transitions", u.shape[1])
            mc2 = sp[species].m * lp.C ** 2 / 1.602176634e-19
            for a in range(3):
                th = T[a] / mc2
                v = (u[a] ** 2).mean()
                if not np.isfinite(v) or abs(v - th) > 6 * np.sqrt(2 / u.shape[1]) * th + 3 * max(T) / mc2 * th:
                    ctx.violation("anisotropy", f"{case}: direction {'xyz'[a]}: <u^2> is {v:.4g} instead of T / m c^2 = {th:.4g}", case)
                    return
    ctx.sample(case)


def jobs(tier, seed):
    th = tier == "thorough"
    J = []
    for dim in (2, 3):
        for kind in "mtb":
            for k in range(2):
                J.append((f"patterns{dim}-{kind}-{k}", patterns, dict(dim=dim, kind=kind, part=(k, 2))))
            J.append((f"layouts{dim}-{kind}", layouts, dict(dim=dim, kind=kind)))
        for size, ranks in ((1, None), (2, (0, 1, 1, 0)), (3, (0, 1, 2, 0))):
            J.append((f"together{dim}-{size}", together, dict(dim=dim, size=size, ranks=ranks)))
    for kind in "mtb":
        J.append((f"schedule-{kind}", schedule, dict(kind=kind)))
    T = [1e-9, 1e-6, 1e-4, 5e-3, 0.00999, 0.01, 0.0101, 0.02, 0.05, 0.1, 0.2, 0.3, 0.4, 0.499, 0.5, 0.501, 0.6, 0.8, 1.0, 2.0, 5.0, 30.0, 1e3]
    for k in range(4):
        J.append((f"law{k}", law, dict(thetas=T[k::4], n=20000 if not th else 100000)))
    for s in (0, 1):
        J.append((f"anisotropy{s}", anisotropy, dict(temps=(0, 20.0, 80.0), species=s, dim=2 + s)))
    return J
