"""Q01: photon emission and pair creation balance particles and momentum."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of slot states (dead / live / live with an event) of emitters, photons and pairs and of event histories through the real main loop, compared with a ledger of events; interpreted and compiled"
NOTE = "All dead/live/event patterns over 3 electron, 2 photon and 1-2 positron slots x species orders x 2D/3D in one step, all event histories of 3-4 steps over small patterns with growing storage, events decided by the code itself in strong fields, both numba modes, 2 patches."
ASSUMPTIONS = ["which particle has an event (a random decision) is either forced at the event stage or taken from the code's own decision"]
A = ("ux", "uy", "uz", "inv_gamma", "w")


def boot():
    global lp, cbk
    from vlib import lp as L
    from lambdapic import callback as cbk_
    lp, cbk = L, cbk_


class Rig:
    def __init__(self, dim, order, npatch=(2, 1, 1), n=5):
        self.dim = dim
        e = lp.Electron(radiation="photons")
        ph = lp.Photon()
        po = lp.Positron(radiation="photons")
        e.set_photon(ph)
        po.set_photon(ph)
        ph.set_bw_pair(electron=e, positron=po)
        self.sp = [dict(e=e, g=ph, p=po)[k] for k in order]
        self.order = order
        self.d = (0.1e-6, 0.07e-6, 0.09e-6)[:dim]
        npatch = npatch[:dim]
        self.n = tuple(n * k for k in npatch)
        self.sim = lp.make_sim(dim, self.n, npatch, "p" * dim, d=self.d, ng=2, cpml=2, species=self.sp)
        self.sim.initialize()
        self.ax = "xyz"[:dim]
        self.tag = 0

    def k(self, c):
        return self.order.index(c)

    def fill(self, spec):
        """spec: {species: [per patch list of slot codes]} with codes D, L, E"""
        self.codes = {}
        for c, pats in spec.items():
            for ip, p in enumerate(self.sim.patches):
                codes = pats[ip % len(pats)]
                q = p.particles[self.k(c)]
                q.initialize(len(codes))
                for s, code in enumerate(codes):
                    self.tag += 1
                    for a, h in zip(self.ax, self.d):
                        getattr(q, a)[s] = getattr(p, a + "0") + h * ((0.37 * self.tag) % 4 - 0.2)
                    u = [((self.tag * z) % 7 - 3.1) for z in (3, 5, 2)]
                    q.ux[s], q.uy[s], q.uz[s] = u
                    q.inv_gamma[s] = 1 / np.sqrt((c != "g") + sum(x * x for x in u))
                    q.w[s] = 1e3 * (1 + self.tag)
                    q.is_dead[s] = code == "D"
                q.extended = True
        self.sim.update_lists()
        self.force = spec

    def rows(self, c, mask=None):
        out = []
        for p in self.sim.patches:
            q = p.particles[self.k(c)]
            al = ~q.is_dead if mask is None else mask(q)
            out.append(np.column_stack([getattr(q, a)[al] for a in tuple(self.ax) + A]))
        return np.concatenate(out)

    def step(self, choose, natural=False):
        """one step; choose(species letter, patch number, particles) -> bool array over slots and shares (forced events).
        returns (expected rows per species, found rows per species)"""
        sim, order = self.sim, self.order
        led = {c: [] for c in order}
        self.nev = 0

        def at_qed(s):
            if natural:
                return
            c = order[s.ispec]
            for ip, p in enumerate(s.patches):
                q = p.particles[s.ispec]
                ev, de = choose(c, ip, q)
                q.event[:] = ev & ~q.is_dead
                q.delta[:] = np.where(q.event, de, 0.0)

        def at_push(s):
            c = order[s.ispec]
            for p in s.patches:
                q = p.particles[s.ispec]
                al = np.flatnonzero(~q.is_dead)
                for i in al:
                    r = [getattr(q, a)[i] for a in self.ax]
                    led[c].append((r, np.array([q.ux[i], q.uy[i], q.uz[i]]), q.w[i], q.inv_gamma[i], bool(q.event[i]), q.delta[i]))
        got = {}

        def after(s):
            for c in order:
                got[c] = self.rows(c)
        sim.run(nsteps=1, callbacks=[cbk("_qed")(at_qed), cbk("_push_position_2")(at_push), cbk("qed_create_particles")(after)])
        want = {c: [] for c in order}
        for c in order:
            for r, u, w, ig, ev, de in led[c]:
                self.nev += ev
                if c in "ep":
                    v = u * (1 - de) if ev else u
                    want[c].append([*r, *v, 1 / np.sqrt(1 + (v ** 2).sum()), w])
                    if ev:
                        v = u * de
                        want["g"].append([*r, *v, 1 / np.sqrt((v ** 2).sum()), w])
                else:
                    if not ev:
                        want[c].append([*r, *u, ig, w])
                    else:
                        for t, f in (("e", de), ("p", 1 - de)):
                            v = u * f
                            want[t].append([*r, *v, 1 / np.sqrt(1 + (v ** 2).sum()), w])
        return {c: np.array(want[c]).reshape(-1, self.dim + 5) for c in order}, got

    def differ(self, want, got):
        L = np.array([n * h for n, h in zip(self.n, self.d)])
        h = np.array(self.d)
        for c in self.order:
            a, b = want[c].copy(), got[c].copy()
            if len(a) != len(b):
                return "count", f"{dict(e='electrons', g='photons', p='positrons')[c]}: {len(b)} live after the step, {len(a)} expected"
            if not len(a):
                continue
            for t in (a, b):
                # position modulo the periodic box, on a circle start just below the domain
                t[:, :self.dim] = np.mod(t[:, :self.dim] + h / 2 + 1e-7 * h, L)
            order = [np.lexsort([t[:, j] for j in (self.dim + 2, self.dim + 1, self.dim, self.dim + 4)]) for t in (a, b)]
            a, b = a[order[0]], b[order[1]]
            s = np.concatenate([L, np.full(3, np.abs(a[:, self.dim:self.dim + 3]).max()), np.abs(a[:, -2:]).max(0)])
            bad = ~(np.abs(a - b) <= 1e-11 * s)
            if bad.any():
                i, j = map(int, np.argwhere(bad)[0])
                return "row", f"{dict(e='electrons', g='photons', p='positrons')[c]}: {(list(self.ax) + list(A))[j]} = {b[i, j]!r}, expected {a[i, j]!r} (weight {a[i, -1]:.6g})"
        return None


SH = np.array([0.5, 1e-3, 0.999, 0.25, 0.75, 1.0 - 1e-12, 0.125])


def shares(q, off=0):
    return SH[(np.arange(q.npart) + off) % len(SH)]


def single(ctx, dim, order, ne, ng, np_, part, stride=1):
    """every pattern of slot codes, one step"""
    boot()
    rig = Rig(dim, order)
    k, K = part
    allp = list(itertools.product(itertools.product("DLE", repeat=ne), itertools.product("DLE", repeat=ng), itertools.product("DLE", repeat=np_)))[::stride]
    for i in range(k, len(allp), K):
        # the second patch carries another pattern of the same family
        a, b = allp[i], allp[(i * 7 + 3) % len(allp)]
        spec = {c: [a[j], b[j]] for j, c in enumerate("egp")}
        case = dict(dim=dim, order=order, patch0=["".join(x) for x in a], patch1=["".join(x) for x in b])
        ctx.case(case)
        ctx.state(dim, order, a, b)
        rig.fill(spec)

        def choose(c, ip, q):
            codes = spec[c][ip % 2]
            return np.array([x == "E" for x in codes] + [False] * (q.npart - len(codes)), bool), shares(q)
        w, g = rig.step(choose)
        ctx.add("transitions", rig.nev)
        ctx.add("traces")
        e = rig.differ(w, g)
        if e:
            ctx.violation(f"single:{e[0]}:{dim}d:{order}", f"{case}: {e[1]}", case)
            return
    ctx.sample(case)


def histories(ctx, dim, order, depth, start, part, masks=4, stride=1):
    """every history of event masks over several steps: storage fills up, is reused and grows"""
    boot()
    rig = Rig(dim, order)
    opt = {"e": range(masks), "g": range(3), "p": range(2)}
    moves = list(itertools.product(opt["e"], opt["g"], opt["p"]))
    k, K = part
    for i, seq in enumerate(itertools.product(moves, repeat=depth)):
        if i % K != k or (i // K) % stride:
            continue
        rig.fill({c: [s, s[::-1]] for c, s in zip("egp", start)})
        case = dict(dim=dim, order=order, start=start, masks=seq)
        ctx.case(case)
        ctx.state(dim, order, seq, start)
        ctx.add("traces")
        for step, mv in enumerate(seq):
            m = dict(zip("egp", mv))

            def choose(c, ip, q):
                # 0: none, 1: all, 2: every other live one, 3: the last live one
                ev = np.zeros(q.npart, bool)
                al = np.flatnonzero(~q.is_dead)
                if m[c] == 1:
                    ev[al] = True
                elif m[c] == 2:
                    ev[al[ip::2]] = True
                elif m[c] == 3:
                    ev[al[-1:]] = True
                return ev, shares(q, step)
            w, g = rig.step(choose)
            ctx.add("transitions", rig.nev)
            e = rig.differ(w, g)
            if e:
                ctx.violation(f"history:{e[0]}:{dim}d:{order}", f"{case}: step {step}: {e[1]}", case)
                return
    ctx.sample(case)


def strong(rig, amp, count):
    rig.fill({c: ["LDL" * k + "L", "L" * k + "D"] for c, k in (("e", count), ("g", 1 + count // 3), ("p", 1 + count // 2))})
    for p in rig.sim.patches:
        for c in "egp":
            q = p.particles[rig.k(c)]
            for a in ("ux", "uy", "uz"):
                getattr(q, a)[:] *= 300
            q.inv_gamma[:] = 1 / np.sqrt((c != "g") + q.ux ** 2 + q.uy ** 2 + q.uz ** 2)
            q.tau[:] = np.where(np.arange(q.npart) % 3 == 0, 1e-9, np.nan)
        for j, a in enumerate(("ex", "ey", "ez", "bx", "by", "bz")):
            getattr(p.fields, a)[...] = (amp if j < 3 else amp / lp.C) * (0.3, -0.5, 0.7, 0.2, 0.9, -0.4)[j]


def natural(ctx, dim, order, steps, count):
    """strong fields, high energies: the code decides the events itself"""
    boot()
    rig = Rig(dim, order)
    total = 0
    for amp in (1e15, 5e15, 3e16):
        strong(rig, amp, count)
        for step in range(steps):
            case = dict(dim=dim, order=order, amp=amp, step=step)
            ctx.case(case)
            ctx.state(case)
            w, g = rig.step(None, natural=True)
            total += rig.nev
            ctx.add("transitions", rig.nev)
            e = rig.differ(w, g)
            if e:
                ctx.violation(f"natural:{e[0]}:{dim}d:{order}", f"{case}: {e[1]}", case)
                return
    ctx.add("traces")
    if total < 20:
        raise RuntimeError(f"only {total} events happened")
    ctx.sample(dict(case, events=total))


def ranks(ctx, dim, order, npatch, size, chains, count=3):
    """several processes, patches change hands in every step (photon and pair production included)"""
    boot()
    from vlib import simmpi
    P = lp.partition()
    for how in ("forced", "natural"):
        total = 0
        for chain in chains:
            case = dict(dim=dim, order=order, npatch=npatch, chain=chain, events=how)
            ctx.case(case)
            ctx.state(case)
            P.queue = [list(c) for c in chain]
            out = [[] for _ in range(size)]
            rigs = [None] * size

            def build(r):
                # each process plants its own particles; weights tell them apart
                rig = rigs[r] = Rig(dim, order, npatch, 4)
                rig.tag = 1000 * r
                if how == "natural":
                    strong(rig, 3e16, count)
                else:
                    rig.fill({c: [x, x[::-1]] for c, x in zip("egp", ("LDL", "LL", "L"))})
                rig.sim.load_balancer.threshold = -1.0
                for k in range(len(chain) - 1):
                    def choose(c, ip, q):
                        al = np.flatnonzero(~q.is_dead)
                        ev = np.zeros(q.npart, bool)
                        ev[al[(k + ip) % 2::2]] = True
                        return ev, shares(q, k)
                    w, g = rig.step(choose, natural=how == "natural")
                    out[r].append((w, g, rig.nev))
                return rig.sim
            sims, w = lp.world_sims(simmpi, size, build)
            ctx.add("traces")
            if not w.ok():
                return ctx.violation(f"ranks:mpi:{dim}d:{order}", w.report(), case)
            if P.queue:
                raise RuntimeError("a forced rebalance did not take place")
            for k in range(len(chain) - 1):
                A_ = {c: np.concatenate([o[k][0][c] for o in out]) for c in order}
                B_ = {c: np.concatenate([o[k][1][c] for o in out]) for c in order}
                n = sum(o[k][2] for o in out)
                total += n
                ctx.add("transitions", n)
                e = rigs[0].differ(A_, B_)
                if e:
                    return ctx.violation(f"ranks:{e[0]}:{dim}d:{order}", f"{case}: step {k}: {e[1]}", case)
        if total < 20:
            return ctx.violation(f"ranks:quiet:{dim}d:{order}", f"{case}: only {total} events happened", case)
    ctx.sample(case)


def compiled(ctx, dim):
    for order in ("egp", "gpe"):
        single(ctx, dim, order, 3, 2, 2, (0, 1), 13)
        histories(ctx, dim, order, 3, ("LL", "LD", "L"), (0, 1), stride=97)
        natural(ctx, dim, order, 6, 6)


def jobs(tier, seed):
    from vlib import jitjob
    th = tier == "thorough"
    J = [(f"compiled-{dim}d", jitjob.jit, dict(target="harness.q01:compiled", args=dict(dim=dim), threads=3)) for dim in (2, 3)]
    orders = ["".join(t) for t in itertools.permutations("egp")]
    for dim in (2, 3):
        for o in orders if (th or dim == 2) else ("egp", "gep"):
            st = 1 if th else (3 if dim == 2 else 5)
            K = 4 if th else 1
            for k in range(K):
                J.append((f"single-{dim}d-{o}-{k}", single, dict(dim=dim, order=o, ne=3, ng=2, np_=2 if th else 1, part=(k, K), stride=st)))
        for o in ("egp", "gpe") if not th else ("egp", "gpe", "pge", "peg"):
            for s, start in enumerate([("L", "", ""), ("LL", "DL", "D")]):
                for k in range(4 if th else 1):
                    J.append((f"hist-{dim}d-{o}-{s}-{k}", histories, dict(dim=dim, order=o, depth=3 if th else 2, start=start, part=(k, 4 if th else 1), stride=1 if not th else 3)))
                J.append((f"hist4-{dim}d-{o}-{s}", histories, dict(dim=dim, order=o, depth=4, start=start, part=(s, 2003 if not th else 401), stride=1)))
        np_ = (2, 2) if dim == 2 else (2, 1, 2)
        T = [t for t in itertools.product((0, 1), repeat=4) if len(set(t)) == 2]
        ch = [(x, y, x, tuple(1 - v for v in y)) for x in T for y in T if x != y]
        for o in ("egp", "gpe"):
            J.append((f"ranks-{dim}d-{o}", ranks, dict(dim=dim, order=o, npatch=np_, size=2, chains=ch if th else ch[::23 if dim == 2 else 31])))
        J.append((f"ranks3-{dim}d", ranks, dict(dim=dim, order="egp", npatch=np_, size=3, chains=[((0, 1, 2, 0), (2, 2, 1, 0), (1, 0, 0, 2), (1, 1, 0, 2))])))
        for o in ("egp", "gpe"):
            J.append((f"natural-{dim}d-{o}", natural, dict(dim=dim, order=o, steps=25 if th else 8, count=12)))
    return J


COVERAGE = "see NOTE"
