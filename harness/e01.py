"""E01: disabled components have no effect, enabled ones act, in every on/off history."""
import copy
import itertools

import numpy as np

NEEDS = {"mode": "shim", "tables": True}
TECHNIQUE = "exhaustive enumeration of on/off histories of species, modules and collision pairs (flips before, between and inside the steps) through the real main loop, compared with a reference run from which the particles of every disabled species are taken out and put back"
NOTE = "All on/off histories of 3 species over 3-4 steps (plain, fused and staged pushers, collisions, quantum events, 1 and 2 processes), every flip at every callback stage of a step, all histories of pusher, interpolation, deposition, radiation, pair creation, load balancing and collision pairs."
ASSUMPTIONS = ["a flip made by a callback inside a step may take effect in that step or in the next one, but for the whole step", "quantum events are forced by the driver, as a function of particle weight and step"]
D = (0.1e-6, 0.07e-6, 0.08e-6)
EMJ = ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho")
EM = EMJ[:6]
PAIRS = [(0, 0), (0, 1), (1, 2), (2, 2)]
STAGES = ("start", "maxwell_1", "_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2", "current_deposition", "qed_create_particles", "_laser", "maxwell_2", "end")


def boot():
    global lp, simmpi, cbk, cu
    from vlib import simmpi as M
    M.install()
    from vlib import lp as L
    from lambdapic import callback as c
    from lambdapic.callback import utils as u
    lp, simmpi, cbk, cu = L, M, c, u


def species(kind):
    if kind == "qed":
        e, g, p = lp.Electron(name="a", radiation="photons"), lp.Photon(name="b"), lp.Positron(name="c", radiation="photons")
        e.set_photon(g)
        p.set_photon(g)
        g.set_bw_pair(electron=e, positron=p)
        return [e, g, p]
    return [lp.Electron(name="a"), lp.Proton(name="b"), lp.Electron(name="c")]


def event(w, step):
    """a fixed pseudo-random half of the particles has an event"""
    k = (w * 977.0 + step * 131.0) % 7
    return k < 3.5, 0.2 + 0.1 * k


class Rig:
    def __init__(self, dim, kind, npatch, staged, count=4, seed=3):
        self.dim, self.kind = dim, kind
        self.ax = "xyz"[:dim]
        n = tuple(4 * k for k in npatch)
        self.sp = species(kind)
        self.sim = s = lp.make_sim(dim, n, npatch, "p" * dim, d=D[:dim], ng=2, cpml=2, species=self.sp, seed=seed)
        if kind == "collide":
            s.add_collision([[self.sp[0], self.sp[0], self.sp[1]], [self.sp[1], self.sp[2]], [self.sp[2], self.sp[2]]])
        s.initialize()
        self.L = np.array([k * h for k, h in zip(n, D)])
        for p in s.patches:
            k = int(np.ravel_multi_index(lp.ipatch_of(s, p), npatch))
            g = lp.lcg(17 + k)
            for a in EM:
                getattr(p.fields, a)[...] = (1e12 if a[0] == "e" else 3e3) * (1e-3 if kind == "collide" else 1) * (0.3 + 0.1 * EM.index(a))
            for j, q in enumerate(p.particles):
                m = count + (k + j) % 2
                q.initialize(m + 1)
                for i in range(m):
                    for a, h in zip(self.ax, D):
                        lo = getattr(p, a + "min")
                        getattr(q, a)[i] = lo + h * ((0.75 + 0.5 * next(g)) if kind == "collide" else 3 * next(g))
                    u = [2 * next(g) - 1 for _ in range(3)]
                    if kind == "collide":
                        u = [0.05 * x for x in u]
                    q.ux[i], q.uy[i], q.uz[i] = u
                    q.inv_gamma[i] = 1 / np.sqrt((not isinstance(self.sp[j], lp.Photon)) + np.dot(u, u))
                    q.w[i] = (1e9 if kind == "collide" else 1e3) * (1 + 0.01 * i + 0.0037 * k + 0.00113 * j)
                q.is_dead[m:] = True
        lp.refresh(s)
        s.load_balancer.threshold = np.inf
        self.cbs = []
        if kind == "qed":
            self.cbs.append(cbk("_qed")(self.force))
        if staged:
            self.cbs.append(cbk("_interpolator")(lambda s: None))
        self.hidden = {}

    def force(self, sim):
        for p in sim.patches:
            q = p.particles[sim.ispec]
            ev, de = event(q.w / 1e3, sim.itime)
            q.event[:] = ev & ~q.is_dead
            q.delta[:] = np.where(q.event, de, 0.0)

    # -- the reference: particles of disabled species are not there
    def hide(self, i):
        for p in self.sim.patches:
            q = p.particles[i]
            self.hidden[p.index, i] = q
            e = copy.deepcopy(q)
            e.initialize(0)
            p.particles[i] = e
        lp.refresh(self.sim)

    def restore(self, i):
        for p in self.sim.patches:
            new, q = p.particles[i], self.hidden.pop((p.index, i))
            al = np.flatnonzero(new.is_alive)
            if al.size:
                m = q.npart
                q.extend(al.size)
                for a in list(q.attrs) + ["is_dead"]:
                    getattr(q, a)[m:] = getattr(new, a)[al]
            p.particles[i] = q
        lp.refresh(self.sim)

    def rows(self, i, extra=()):
        at = tuple(self.ax) + ("ux", "uy", "uz", "inv_gamma", "w") + tuple(extra)
        t = np.concatenate([np.column_stack([getattr(p.particles[i], a)[p.particles[i].is_alive] for a in at]) for p in self.sim.patches])
        t[:, :self.dim] = np.mod(t[:, :self.dim] + 0.5 * np.array(D[:self.dim]) + 1e-13, self.L)
        return t[np.lexsort(t.T[:self.dim + 5])]

    def fields(self):
        return {(lp.ipatch_of(self.sim, p), a): lp.interior(self.sim, p, getattr(p.fields, a)).copy() for p in self.sim.patches for a in EMJ}

    def state(self):
        return [self.rows(i) for i in range(len(self.sp))], self.fields()


def differ(a, b, tol=1e-11):
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        if len(x) != len(y):
            return "count", f"species {i}: {len(y)} particles, {len(x)} expected"
        if len(x):
            s = np.abs(x).max(0) + 1e-300
            s[-5:-2] = s[-5:-2].max()
            if not np.allclose(x / s, y / s, rtol=0, atol=tol):
                j = int(np.argmax(np.abs(x / s - y / s).max(1)))
                return "particle", f"species {i}: particle {y[j].tolist()} should be {x[j].tolist()}"
    for a_ in EMJ:
        ks = [k for k in a[1] if k[1] == a_]
        m = max(np.abs(a[1][k]).max() for k in ks)
        r = max(np.abs(a[1][k] - b[1][k]).max() for k in ks)
        if not r <= tol * m * 10:
            return "field", f"{a_} differs by {r:.3g} (largest value {m:.3g})"
    return None


def flip(sim, ispec, on):
    (sim.species[ispec].enable if on else sim.species[ispec].disable)()


def reference(dim, kind, npatch, staged, hist, dens=False):
    """hist: per step the set of species that take part"""
    r = Rig(dim, kind, npatch, staged)
    out = []
    ds = [cu.ExtractSpeciesDensity(r.sim, s, interval=1) for s in r.sp] if dens else []
    for on in hist:
        off = [i for i in range(len(r.sp)) if i not in on]
        for i in off:
            r.hide(i)
        if kind == "collide":
            # pairs with nobody in them draw no random numbers
            for x, y in PAIRS:
                (r.sim.collision.enable if x in on and y in on else r.sim.collision.disable)((r.sp[x], r.sp[y]))
        r.sim.run(nsteps=1, callbacks=r.cbs + ds)
        f = r.fields()
        for i in off:
            r.restore(i)
        out.append(([r.rows(i) for i in range(len(r.sp))], f, [d.density.copy() for d in ds]))
    return out


def histories(ctx, dim, kind, npatch, staged, steps, part, dens=False, stride=1):
    """all on/off histories of all species"""
    boot()
    S = 3
    sets = [tuple(i for i in range(S) if m >> i & 1) for m in range(2 ** S)]
    k, K = part
    refs = {}
    for num, hist in enumerate(itertools.product(sets, repeat=steps)):
        if num % K != k or (num // K) % stride:
            continue
        how = ("before", "start", "maxwell_1", "end", "maxwell_2")[num % 5]
        case = dict(dim=dim, kind=kind, patches=npatch, staged=staged, enabled=[list(h) for h in hist], flips=how)
        ctx.case(case)
        ctx.state(dim, kind, npatch, staged, hist)
        ctx.add("traces")
        r = Rig(dim, kind, npatch, staged)
        sim = r.sim
        for i in range(S):
            flip(sim, i, i in hist[0])
        got = []
        ds = [cu.ExtractSpeciesDensity(sim, s, interval=1) for s in r.sp] if dens else []
        if how == "before":
            for on in hist:
                for i in range(S):
                    flip(sim, i, i in on)
                sim.run(nsteps=1, callbacks=r.cbs + ds)
                got.append(r.state() + ([d.density.copy() for d in ds],))
        else:
            late = how in ("end", "maxwell_2")

            def turn(s):
                t = s.itime + late
                if t < steps:
                    for i in range(S):
                        flip(s, i, i in hist[t])
            snap = cbk("end")(lambda s: got.append(r.state() + ([d.density.copy() for d in ds],)))
            sim.run(nsteps=steps, callbacks=r.cbs + ds + [cbk(how)(turn), snap])
        want = reference(dim, kind, npatch, staged, hist, dens)
        ctx.add("transitions", 2 * steps)
        for t in range(steps):
            e = differ(want[t][:2], got[t][:2])
            if not e and dens:
                for i in hist[t]:
                    a, b = want[t][2][i], got[t][2][i]
                    if not np.allclose(a, b, rtol=0, atol=1e-12 * max(np.abs(a).max(), 1.0)):
                        e = "density", f"density of species {i} differs by {np.abs(a - b).max():.3g} of {np.abs(a).max():.3g}"
                        break
            if e:
                ctx.violation(f"history:{e[0]}:{dim}d:{kind}:{'staged' if staged else 'default'}", f"{case}: step {t}: {e[1]}", case)
                return
    ctx.sample(case)


def inside(ctx, dim, kind, npatch, staged, part=(0, 1)):
    """one flip at every stage of a step: the step is whole or absent, the next one follows the flag"""
    boot()
    S, T = 3, 3
    k, K = part
    combos = list(itertools.product(STAGES, range(S), (True, False), (None, 0, 1, 2)))
    refs = {}

    def ref(h):
        if h not in refs:
            refs[h] = reference(dim, kind, npatch, staged, h)
        return refs[h]
    for num, (stage, i, on, atspec) in enumerate(combos):
        if num % K != k or (atspec is not None and stage not in STAGES[2:8]) or (atspec is None and stage in STAGES[2:8]):
            continue
        # a species that is off never gets to its own stages: the stage of another one turns it on
        if on and atspec == i:
            continue
        case = dict(dim=dim, kind=kind, staged=staged, stage=stage, at_species=atspec, species=i, turned="on" if on else "off")
        ctx.case(case)
        ctx.state(dim, kind, staged, stage, i, on, atspec)
        ctx.add("traces")
        ctx.add("transitions", T)
        r = Rig(dim, kind, npatch, staged)
        got = []

        def turn(s):
            if s.itime == 1 and (atspec is None or s.ispec == atspec):
                flip(s, i, on)
        first = (0, 1, 2)      # everything acts in the first step: its traces must not be taken for new ones
        before = tuple(j for j in range(S) if j != i or not on)
        after = tuple(j for j in range(S) if j != i or on)
        r.sim.run(nsteps=1, callbacks=r.cbs)
        got.append(r.state())
        flip(r.sim, i, not on)
        snap = cbk("end")(lambda s: got.append(r.state()))
        r.sim.run(nsteps=2, callbacks=r.cbs + [cbk(stage)(turn), snap])
        ok, why = False, []
        for mid in {before, after}:
            w = ref((first, mid, after))
            e = next((x for x in (differ(w[t][:2], got[t]) for t in range(T)) if x), None)
            if e is None:
                ok = True
            why.append(f"as if the step were {'whole' if i in mid else 'left out'}: {e[1] if e else ''}")
        if not ok:
            ctx.violation(f"inside:{dim}d:{kind}", f"{case}: the step is neither whole nor left out: " + "; ".join(why), case)
            return
    ctx.sample(case)


def ranks(ctx, dim, kind, npatch, steps, stride):
    """the same histories on two processes"""
    boot()
    S = 3
    sets = [tuple(i for i in range(S) if m >> i & 1) for m in range(2 ** S)]
    P = lp.partition()
    owners = [o for o in lp.weak(int(np.prod(npatch)), 2) if len(set(o)) == 2]
    for num, hist in enumerate(itertools.product(sets, repeat=steps)):
        if num % stride:
            continue
        o = owners[(num // stride) % len(owners)]
        case = dict(dim=dim, kind=kind, patches=npatch, owners=o, enabled=[list(h) for h in hist])
        ctx.case(case)
        ctx.state(dim, kind, npatch, o, hist)
        ctx.add("traces")
        dens = kind != "qed"

        def build(r):
            rig = Rig(dim, kind, npatch, False)
            ds = [cu.ExtractSpeciesDensity(rig.sim, s, interval=1) for s in rig.sp] if dens else []
            out = []
            for on in hist:
                for i in range(S):
                    flip(rig.sim, i, i in on)
                rig.sim.run(nsteps=1, callbacks=rig.cbs + ds)
                out.append(rig.state() + ([d.density.copy() for d in ds],))
            return out
        runs = []
        for fn in (build, lambda r: reference(dim, kind, npatch, False, hist, dens)):
            P.queue = [list(o)]
            w = simmpi.World(2, simmpi.MODES["eager"])
            w.run(fn)
            if not w.ok():
                ctx.violation(f"ranks:run:{dim}d:{kind}", f"{case}: {w.report()}", case)
                return
            runs.append(w.results)
        ctx.add("transitions", 2 * steps)
        for t in range(steps):
            st = []
            for res in runs:
                rows = [np.concatenate([res[r][t][0][i] for r in range(2)]) for i in range(S)]
                st.append(([x[np.lexsort(x.T)] for x in rows], {**res[0][t][1], **res[1][t][1]}))
            e = differ(st[1], st[0])
            if not e and dens:
                for i in hist[t]:
                    a, b = runs[1][0][t][2][i], runs[0][0][t][2][i]
                    if not np.allclose(a, b, rtol=0, atol=1e-12 * max(np.abs(a).max(), 1.0)):
                        e = "density", f"density of species {i} differs by {np.abs(a - b).max():.3g} of {np.abs(a).max():.3g}"
                        break
            if e:
                ctx.violation(f"ranks:{e[0]}:{dim}d:{kind}", f"{case}: step {t}: {e[1]}", case)
                return
    ctx.sample(case)


def modules(ctx, dim, npatch, steps):
    """pusher of one species, interpolation and deposition on and off: fused and staged pushers agree, nothing
    disabled acts"""
    boot()
    opts = [tuple(bool(m >> i & 1) for i in range(3)) for m in range(8)]
    for num, hist in enumerate(itertools.product(opts, repeat=steps)):
        case = dict(dim=dim, pusher_interpolation_deposition=[["off", "on"][x] for h in hist for x in h])
        ctx.case(case)
        ctx.state(dim, hist)
        ctx.add("traces")
        outs = []
        for staged in (False, True):
            r = Rig(dim, "plain", npatch, staged)
            s = r.sim
            out = []
            for h in hist:
                for m, on in zip((s.pusher[0], s.interpolator, s.current_depositor), h):
                    (m.enable if on else m.disable)()
                old = [r.rows(i, ("ex_part", "by_part")) for i in range(3)]
                s.run(nsteps=1, callbacks=r.cbs)
                new = [r.rows(i, ("ex_part", "by_part")) for i in range(3)]
                st = r.state()
                out.append(st)
                e = None
                if not h[0] and not np.array_equal(old[0][:, :-2], new[0][:, :-2]):
                    e = "pusher", "particles moved although their pusher is disabled"
                if not h[2] and any(np.any(st[1][k]) for k in st[1] if k[1] in ("jx", "jy", "jz", "rho")):
                    e = "deposition", "a current was deposited although the deposition is disabled"
                if not h[1] and any(len(a) != len(b) or not np.array_equal(a[:, -2:], b[:, -2:]) for a, b in zip(old, new)):
                    e = "interpolation", "fields were gathered although the interpolation is disabled"
                if all(h):
                    if any(np.array_equal(a[:, :dim], b[:, :dim]) for a, b in zip(old, new)):
                        e = "pusher", "particles did not move although everything is enabled"
                    if not any(np.any(st[1][k]) for k in st[1] if k[1] == "jx"):
                        e = "deposition", "no current although everything is enabled"
                if e:
                    ctx.violation(f"module:{e[0]}:{dim}d", f"{case}, {'staged' if staged else 'fused'}: {e[1]}", case)
                    return
            outs.append(out)
        ctx.add("transitions", 2 * steps)
        for t in range(steps):
            e = differ(outs[1][t], outs[0][t], 1e-9)
            if e:
                ctx.violation(f"module:paths:{e[0]}:{dim}d", f"{case}: step {t}: fused and staged pushers differ: {e[1]}", case)
                return
    ctx.sample(case)


def quantum(ctx, dim, npatch, steps):
    """radiation of two species and pair creation on and off"""
    boot()
    opts = [tuple(bool(m >> i & 1) for i in range(3)) for m in range(8)]
    for num, hist in enumerate(itertools.product(opts, repeat=steps)):
        case = dict(dim=dim, electron_photon_positron=[["off", "on"][x] for h in hist for x in h])
        ctx.case(case)
        ctx.state(dim, hist)
        ctx.add("traces")
        r = Rig(dim, "qed", npatch, False)
        s = r.sim
        mods = (s.radiation[0], s.pairproduction[1], s.radiation[2])
        for t, h in enumerate(hist):
            for m, on in zip(mods, h):
                (m.enable if on else m.disable)()
            ev = [0, 0, 0]
            tau = {}

            def before(sim):
                for i in range(3):
                    for p in sim.patches:
                        q = p.particles[i]
                        tau[p.index, i] = np.sort(q.tau[q.is_alive]) if hasattr(q, "tau") else None

            def count(sim):
                # forced events of what is enabled; what is disabled keeps whatever flags it has
                i = sim.ispec
                if not h[i]:
                    for p in sim.patches:
                        q = p.particles[i]
                        a = tau[p.index, i]
                        if a is not None and not np.array_equal(a, np.sort(q.tau[q.is_alive]), equal_nan=True):
                            ctx.violation(f"quantum:tau:{dim}d", f"{case}: step {t}: optical depths of species {i} changed although the module is disabled", case)
                    return
                r.force(sim)
                ev[i] = sum(int((p.particles[i].event & p.particles[i].is_alive).sum()) for p in sim.patches)
            n0 = [len(r.rows(i)) for i in range(3)]
            mom = {}

            def pushed(sim):
                mom[sim.ispec] = r.rows(sim.ispec)
            s.run(nsteps=1, callbacks=[cbk("maxwell_1")(before), cbk("_qed")(count), cbk("current_deposition")(pushed)])
            n1 = [len(r.rows(i)) for i in range(3)]
            want = [n0[0] + ev[1], n0[1] + ev[0] + ev[2] - ev[1], n0[2] + ev[1]]
            ctx.add("transitions", sum(ev))
            e = None
            if n1 != want:
                e = "count", f"{n1} electrons, photons, positrons with events {ev} from {n0}; {want} expected"
            for i in (0, 2):
                if not h[i] and not e:
                    # no recoil: every particle keeps the momentum it was pushed to
                    a, b = mom[i], r.rows(i)
                    keep = {tuple(x[dim:]) for x in b}
                    if not all(tuple(x[dim:]) in keep for x in a):
                        e = "recoil", f"species {i} recoiled although its radiation is disabled"
            if e:
                ctx.violation(f"quantum:{e[0]}:{dim}d", f"{case}: step {t}: {e[1]}", case)
                return
    ctx.sample(case)


def pairs(ctx, dim, npatch, steps, stride=1):
    """collision pairs on and off"""
    boot()
    names = PAIRS
    opts = list(itertools.product((True, False), repeat=len(names)))
    for num, hist in enumerate(itertools.product(opts, repeat=steps)):
        if num % stride:
            continue
        case = dict(dim=dim, pairs=names, enabled=[list(h) for h in hist])
        ctx.case(case)
        ctx.state(dim, hist)
        ctx.add("traces")
        ctx.add("transitions", steps)
        a, b = Rig(dim, "collide", npatch, True), Rig(dim, "collide", npatch, True)
        # the same pairs, asked for in the other order, are the same pairs
        for t, h in enumerate(hist):
            for (i, j), on in zip(names, h):
                x, y = (i, j) if (t + num) % 2 else (j, i)
                (a.sim.collision.enable if on else a.sim.collision.disable)((a.sp[x], a.sp[y]))
            # b starts the step from the state of a, without any collision
            for p, q in zip(a.sim.patches, b.sim.patches):
                for i in range(3):
                    u, v = p.particles[i], q.particles[i]
                    v.initialize(u.npart)
                    for at in list(u.attrs) + ["is_dead"]:
                        getattr(v, at)[:] = getattr(u, at)
                for f in EMJ:
                    getattr(q.fields, f)[...] = getattr(p.fields, f)
            lp.refresh(b.sim)
            b.sim.collision = None
            mom = [{}, {}]

            def see(k, rig):
                def f(sim):
                    mom[k][sim.ispec] = rig.rows(sim.ispec)
                return cbk("_push_position_1")(f)
            a.sim.run(nsteps=1, callbacks=a.cbs + [see(0, a)])
            b.sim.run(nsteps=1, callbacks=b.cbs + [see(1, b)])
            for i in range(3):
                due = any(on and i in pr for pr, on in zip(names, h))
                same = mom[0][i].shape == mom[1][i].shape and np.array_equal(mom[0][i][:, dim:], mom[1][i][:, dim:])
                if same == due:
                    ctx.violation(f"pairs:{'off' if not due else 'on'}:{dim}d", f"{case}: step {t}: species {i} {'collided although all its pairs are disabled' if not due else 'did not collide'}", case)
                    return
    ctx.sample(case)


def balancer(ctx, dim, npatch, steps):
    """rebalancing on and off"""
    boot()
    P = lp.partition()
    n = int(np.prod(npatch))
    tables = [[i % 2 for i in range(n)], [2 * i // n for i in range(n)]]
    for hist in itertools.product((True, False), repeat=steps):
        case = dict(dim=dim, patches=npatch, balancer=["on" if h else "off" for h in hist])
        ctx.case(case)
        ctx.state(dim, hist)
        ctx.add("traces")
        P.queue = [tables[0]] + [tables[(k + 1) % 2] for k in range(sum(hist))]
        own = [[], []]

        def build(r):
            rig = Rig(dim, "plain", npatch, False)
            own[r].append(sorted(p.index for p in rig.sim.patches))
            for h in hist:
                rig.sim.load_balancer.threshold = -1.0
                (rig.sim.load_balancer.enable if h else rig.sim.load_balancer.disable)()
                rig.sim.run(nsteps=1)
                own[r].append(sorted(p.index for p in rig.sim.patches))
        w = simmpi.World(2, simmpi.MODES["eager"])
        w.run(build)
        ctx.add("transitions", steps)
        if not w.ok():
            ctx.violation(f"balancer:run:{dim}d", f"{case}: {w.report()}", case)
            return
        for r in range(2):
            for t, h in enumerate(hist):
                moved = own[r][t] != own[r][t + 1]
                if moved != h:
                    ctx.violation(f"balancer:{dim}d", f"{case}: step {t}: patches {'moved although the load balancer is disabled' if moved else 'were not rebalanced'}: process {r} owned {own[r][t]}, then {own[r][t + 1]}", case)
                    return
    ctx.sample(case)


def jobs(tier, seed):
    th = tier == "thorough"
    J = []
    P2, P3 = (2, 1), (2, 1, 1)
    for kind, staged in (("plain", False), ("plain", True), ("collide", False), ("qed", False)):
        for dim in (2, 3):
            K = 8 if th else 2
            for k in range(K):
                J.append((f"hist-{dim}d-{kind}-{'staged' if staged else 'default'}-{k}", histories, dict(
                    dim=dim, kind=kind, npatch=P2 if dim == 2 else P3, staged=staged, steps=3, part=(k, K),
                    dens=kind == "plain" and not staged, stride=1 if th else (3 if dim == 2 else 5))))
            if th:
                for k in range(8):
                    J.append((f"hist4-{dim}d-{kind}-{'staged' if staged else 'default'}-{k}", histories, dict(
                        dim=dim, kind=kind, npatch=P2 if dim == 2 else P3, staged=staged, steps=4, part=(k, 8), dens=kind == "plain" and not staged, stride=3)))
    for kind, staged in (("plain", False), ("plain", True), ("collide", False), ("qed", False)):
        for dim in (2, 3) if th or kind == "qed" else (2,):
            J.append((f"inside-{dim}d-{kind}-{'staged' if staged else 'default'}", inside, dict(dim=dim, kind=kind, npatch=P2 if dim == 2 else P3, staged=staged)))
    for kind in ("plain", "collide", "qed"):
        for dim in (2, 3):
            J.append((f"ranks-{dim}d-{kind}", ranks, dict(dim=dim, kind=kind, npatch=(2, 2) if dim == 2 else (2, 1, 2), steps=3 if th else 2, stride=(3 if th else 5) if kind == "plain" else 7)))
    for dim in (2, 3):
        J.append((f"modules-{dim}d", modules, dict(dim=dim, npatch=P2 if dim == 2 else P3, steps=3 if th else 2)))
        J.append((f"quantum-{dim}d", quantum, dict(dim=dim, npatch=P2 if dim == 2 else P3, steps=3 if th else 2)))
        J.append((f"pairs-{dim}d", pairs, dict(dim=dim, npatch=P2 if dim == 2 else P3, steps=2, stride=1 if th else 3)))
        J.append((f"balancer-{dim}d", balancer, dict(dim=dim, npatch=(2, 2) if dim == 2 else (2, 2, 1), steps=4 if th else 3)))
    return J


COVERAGE = "see NOTE"
