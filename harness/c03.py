"""C03: the screening used in collisions depends on the present plasma only."""
import itertools
import math

import numpy as np

from harness import c01
from vlib import jitjob

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive histories of operations (recomputation, collisions, steps, sorting, storage growth, list rebuilding, density/temperature excursions) up to a depth, of storage layouts, patch decompositions and accompanying species, on the real screening and collision steps; the Coulomb logarithm is read off the scattering of a probe pair per cell and compared with that of a fresh simulation and with the definition"
NOTE = "120 cell populations (4 pair kinds x 5 densities x 6 baths) in 2D and 3D; every history of 9 operations to depth 2 (3 in the thorough tier); 6 layouts x 4 decompositions x 6 accompanying species sets; running simulations with rebalancing and a moving window compared step by step with fresh ones; compiled replay."
ASSUMPTIONS = ["lnLambda == 0 means computed from the plasma", "definition: 1/lambda^2 = sum over charged species of n q^2/(eps0 kT), kT = <u^2/sqrt(1+u^2)> m c^2/3 about the mean momentum, never below the interparticle distance; Perez et al. 2012 for the rest"]
C, EPS0, HP, QE, ME, MP = 299792458.0, 8.8541878128e-12, 6.62607015e-34, 1.602176634e-19, 9.1093837015e-31, 1.67262192369e-27


def boot():
    global lp, coll
    c01.boot()
    lp, coll = c01.lp, c01.coll


KINDS = {"hot": ((0.5, 0.1, -0.2), (-0.3, 0.2, 0.4)), "warm": ((0.02, 0.0, 0.01), (-0.01, 0.015, 0.0)), "slow": ((0.1, 0.1, 0.1), (0.1, 0.1, 0.101)), "fast": ((30.0, 1.0, 2.0), (28.0, -1.0, 0.5))}
WS = (1e4, 1e8, 1e10, 1e12, 1e14)
BATHS = {"none": [], "hot": [((1e-3, 0, 0), 1.0), ((-1e-3, 5e-4, 0), 2.0)], "warm": [((1e-5, 0, 2e-5), 0.5), ((0, 1e-5, 0), 0.25), ((0, 0, -1e-5), 1.0)],
         "one": [((1e-3, 2e-3, 0), 1.0)], "cold": [((1e-3, 0, 0), 1.0), ((1e-3, 0, 0), 3.0)], "thin": [((2e-2, 0, 0), 1e-6), ((-1e-2, 0, 1e-2), 1e-6)]}
POPS = list(itertools.product(KINDS, WS, BATHS))
# what accompanies them: (name, charge in e, mass in me, contents per cell)
EXTRA = {"photon": "photon", "atom": (0, 3000.0), "heavy": (3, 9000.0)}


class Rig:
    def __init__(self, dim=2, npatch=None, order=("e", "b"), extra=(), nslot=None, groups=None):
        self.dim = dim
        self.n = (16, 16) if dim == 2 else (8, 6, 6)
        npatch = npatch or (1,) * dim
        dens = lp.uniform_density(dim, 1e18)
        by = {"e": lp.Electron(density=dens, ppc=1), "b": lp.Proton(density=dens, ppc=1)}
        lead = "first" in extra      # what does not screen comes first
        extra = tuple(x for x in extra if x != "first")
        for x in extra:
            if x == "photon":
                by[x] = lp.Photon()
            else:
                by[x] = lp.Species(name=x, charge=EXTRA[x][0], mass=EXTRA[x][1], density=dens, ppc=1)
        names = [x for x in extra if x.startswith("heavy")] + list(order) + [x for x in extra if not x.startswith("heavy")]
        if lead:
            names = list(extra) + list(order)
        self.names = names
        sp = [by[x] for x in names]
        self.e, self.b = by["e"], by["b"]
        self.by = by
        self.ncell = int(np.prod(self.n))
        self.nslot = nslot or 7 * self.ncell // int(np.prod(npatch)) + 40
        self.sim = coll.make(dim, self.n, npatch, sp, groups and [[by[x] for x in g] for g in groups] or [[self.e, self.e]], nslot=self.nslot, cpml=3)
        self.vol = self.sim.dx * self.sim.dy * (self.sim.dz if dim == 3 else 1)
        self.cells = list(itertools.product(*[range(1, k - 1) for k in self.n]))
        if dim == 2:
            self.cells = [c for c in self.cells if (c[0] + c[1]) % 5]      # leave empty cells in between
        assert len(self.cells) >= len(POPS) or dim == 3
        self.pops = POPS if len(self.cells) >= len(POPS) else POPS[::2]
        self.pops = self.pops[:len(self.cells)]

    def contents(self, split=1, extra=True, wf=1.0, uf=1.0):
        """name -> list of (cell, tag, u, w)"""
        out = {k: [] for k in self.names}
        for c, (k, w, b) in zip(self.cells, self.pops):
            for t, u in enumerate(KINDS[k]):
                out["e"].append((c, t, tuple(uf * x for x in u), w * wf))
            t = 0
            for u, f in BATHS[b]:
                for _ in range(split):
                    out["b"].append((c, t, tuple(uf * x for x in u), w * f * wf / split))
                    t += 1
            if extra:
                for x in self.names:
                    if x in ("photon", "atom"):
                        out[x].append((c, 0, (3.0, 1.0, 2.0), 1e15))
                        out[x].append((c, 1, (-3.0, 0.1, 2.0), 1e12))
                    elif x == "heavy" and b == "none":
                        out[x].append((c, 0, (1e-4, 0.0, 0.0), w))
                        out[x].append((c, 1, (-1e-4, 2e-4, 0.0), w))
        return out

    def load(self, contents, layout="id"):
        sim = self.sim
        h = [sim.dx, sim.dy] + ([sim.dz] if self.dim == 3 else [])
        for name in self.names:
            sp = self.by[name]
            per = {}
            for c, t, u, w in contents.get(name, ()):
                x = [(ci + (-0.35 + 0.06 * t if a == 0 else 0.1)) * hh for a, (ci, hh) in enumerate(zip(c, h))]
                per.setdefault(lp.home_patch(sim, x), []).append((x, u, w))
            for p in sim.patches:
                q = p.particles[sp.ispec]
                P = per.get(lp.ipatch_of(sim, p), [])
                n = len(P)
                q.is_dead[:] = True
                stale = layout in ("stale", "back")
                q.w[:] = 1e20 if stale else 0.0
                q.ux[:] = 1e3 if stale else 0.0
                if stale:
                    for a, hh in zip("xyz", h):
                        getattr(q, a)[:] = getattr(p, a + "min") + 2 * hh
                if layout == "id":
                    idx = np.arange(n)
                elif layout == "back":
                    idx = np.arange(q.npart - 1, q.npart - 1 - n, -1)
                elif layout == "gaps":
                    idx = np.arange(n) * (q.npart // max(n, 1))
                elif layout == "mix":
                    idx = (np.arange(n) * 7919) % q.npart
                    idx = np.unique(idx) if len(set(idx)) < n else idx
                    if len(idx) < n:
                        idx = np.concatenate([idx, np.setdiff1d(np.arange(q.npart), idx)[:n - len(idx)]])
                else:
                    idx = np.arange(n)[::-1]
                for i, (x, u, w) in zip(idx, P):
                    for a, v in zip("xyz", x):
                        getattr(q, a)[i] = v
                    q.ux[i], q.uy[i], q.uz[i] = u
                    q.inv_gamma[i] = 1 / math.sqrt(1 + sum(v * v for v in u))
                    q.w[i] = w
                    q.is_dead[i] = False
        for s in sim.sorter:
            s()

    def pairs(self):
        """cell number in self.cells -> [(patch, slot)] of its electrons in the order of their tags"""
        sim = self.sim
        num = {}
        for k, c in enumerate(self.cells):
            f = 0
            for i in c:
                f = f * 100003 + i
            num[f] = k
        out = {}
        for p in sim.patches:
            q = p.particles[self.e.ispec]
            f = coll.cell_of(sim, q)
            for i in np.flatnonzero(~q.is_dead):
                out.setdefault(num[int(f[i])], []).append((q.x[i], q, int(i)))
        return {k: [(q, i) for _, q, i in sorted(v, key=lambda z: z[0])] for k, v in out.items()}

    def snapshot(self):
        P = self.pairs()
        self.order = sorted(P)
        self.slots = [P[k] for k in self.order]
        assert all(len(s) == 2 for s in self.slots), [len(s) for s in self.slots]
        self.u0 = np.array([[[getattr(q, a)[i] for a in ("ux", "uy", "uz", "inv_gamma")] for q, i in s] for s in self.slots])

    def put(self, U):
        for s, v in zip(self.slots, U):
            for (q, i), x in zip(s, v):
                q.ux[i], q.uy[i], q.uz[i], q.inv_gamma[i] = x

    def deflect(self, dt, lnl=0.0):
        """1 - cosine of every probe pair's deflection in its centre-of-mass frame"""
        c = self.sim.collision
        c.lnLambda = lnl
        S = coll.script
        S.u, S.phi, S.hook = 0.37, 1.1, None
        S.perm = lambda n, k: np.arange(n)
        self.put(self.u0)
        S.active = True
        try:
            with np.errstate(all="ignore"):
                c(dt)
        finally:
            S.active = False
        U = np.array([[[getattr(q, a)[i] for a in ("ux", "uy", "uz")] for q, i in s] for s in self.slots])
        self.put(self.u0)
        return turn(self.u0[:, :, :3], U)


def turn(A, B):
    """equal masses: 1 - cos from the relative momentum in the centre-of-mass frame"""
    A, B = A.astype(np.longdouble), B.astype(np.longdouble)

    def com(v):
        g = np.sqrt(1 + (v * v).sum(-1))
        E, P = g.sum(1), v.sum(1)
        M = np.sqrt(E * E - (P * P).sum(-1))
        a = v[:, 0]
        return a + P * (((a * P).sum(-1) / (E + M) - g[:, 0]) / M)[:, None]
    p, q = com(A), com(B)
    d = p - q
    return ((d * d).sum(-1) / (2 * (p * p).sum(-1))).astype(float)


DTS = [10.0 ** k for k in range(-30, 3)]


def choose(rig, lnl=10.0):
    """per cell a step length at which the deflection tells lnLambda apart"""
    pick = np.full(len(rig.slots), -1)
    for j, dt in enumerate(DTS):
        d = rig.deflect(dt, lnl)
        ok = (d > 3e-5) & (d < 3e-2)
        pick[ok & (pick < 0)] = j
    return pick


def expected(rig, contents):
    """lnLambda of every probe pair from the definition"""
    out = []
    qm = {"e": (-QE, ME), "b": (QE, MP), "heavy": (3 * QE, 9000 * ME)}
    for k in rig.order:
        c = rig.cells[k]
        inv, ntot = 0.0, 0.0
        for name, (q, m) in qm.items():
            L = [(u, w) for cc, _, u, w in contents.get(name, ()) if cc == c]
            if not L:
                continue
            W = sum(w for _, w in L)
            mean = [sum(w * u[i] for u, w in L) / W for i in range(3)]
            kT = sum(w * (s := sum((u[i] - mean[i]) ** 2 for i in range(3))) / math.sqrt(1 + s) / 3 for u, w in L) / W * m * C * C
            n = W / rig.vol
            ntot += n
            inv = inv + n * q * q / (EPS0 * kT) if kT > 0 else math.inf
        rmin2 = (4 * math.pi * ntot / 3) ** (-2 / 3)
        lam2 = max(1 / inv if inv > 0 and math.isfinite(inv) else (0.0 if inv else math.inf), rmin2)
        (a, _), (b, _) = [(u, w) for cc, _, u, w in contents["e"] if cc == c]
        a, b = np.array(a, np.longdouble), np.array(b, np.longdouble)
        ga, gb = np.sqrt(1 + a @ a), np.sqrt(1 + b @ b)
        P, E = a + b, ga + gb
        M = np.sqrt(E * E - P @ P)
        gc = E / M
        p = a + P * ((a @ P) / (E + M) - ga) / M
        ps2 = float(p @ p)
        gs = float(M) / 2
        b0 = QE * QE / (4 * math.pi * EPS0 * C * C) * float(gc) / (ME * float(ga + gb)) * ((gs * gs) / ps2 + 1)
        # b0 uses the centre-of-mass factors of the pair (Perez 2012, eq. 22)
        b0c = QE * QE / (4 * math.pi * EPS0 * C * C) * float(gc) / (ME * 2 * gs) * ((gs * gs) / ps2 + 1)
        bm = max(HP / 2 / (math.sqrt(ps2) * ME * C), b0c)
        out.append(max(2.0, 0.5 * math.log(1 + lam2 / bm ** 2)))
    return np.array(out)


def value(ctx, dim, extra):
    """lnLambda follows the definition in every population"""
    boot()
    rig = Rig(dim, extra=extra)
    cont = rig.contents()
    rig.load(cont)
    rig.snapshot()
    case = dict(dim=dim, extra=extra)
    ctx.case(case)
    exp = expected(rig, cont)
    pick = choose(rig)
    if (pick < 0).any():
        raise RuntimeError("no step length for some pair")
    rig.sim.collision.calculate_debye_length()
    got = {j: rig.deflect(DTS[j]) for j in sorted(set(pick))}
    ctx.info["floor_" + str(dim)] = int((exp == 2).sum())
    for i, k in enumerate(rig.order):
        j = pick[i]
        cs = dict(case, population=rig.pops[k])
        ctx.case(cs)
        ctx.state(cs)
        ref = rig.deflect(DTS[j], exp[i])[i]
        g = got[j][i]
        ctx.add("transitions")
        if not abs(g - ref) <= 3e-6 * ref:
            r = g / ref
            ctx.violation(f"value:{dim}d", f"{cs}: deflection {g} instead of {ref}: Coulomb logarithm about {exp[i] * r:.4f} instead of {exp[i]:.4f}", cs)
            return


class Ref:
    """what a fresh simulation gives"""

    def __init__(self, dim, split=1, extra=()):
        rig = Rig(dim, extra=extra)
        rig.load(rig.contents(split))
        rig.snapshot()
        self.pick = choose(rig)
        rig.sim.collision.calculate_debye_length()
        self.key = [rig.cells[k] for k in rig.order]
        self.dts = sorted({DTS[j] for j in self.pick})
        self.val = self.read(rig)

    def read(self, rig):
        assert [rig.cells[k] for k in rig.order] == self.key
        o = {dt: rig.deflect(dt) for dt in self.dts}
        return np.array([o[DTS[j]][i] for i, j in enumerate(self.pick)])

    def check(self, ctx, rig, case, key):
        v = self.read(rig)
        e = np.abs(v - self.val) / self.val
        if not (e <= 1e-7).all():
            i = int(np.argmax(~(e <= 1e-7)))
            ctx.violation(key, f"{case}: in {int((~(e <= 1e-7)).sum())} cells the pair scatters otherwise than in a fresh simulation with the same particles, e.g. population {rig.pops[rig.order[i]]}: deflection {v[i]} instead of {self.val[i]}", case)
            return False
        return True


LAYOUTS = ("id", "back", "gaps", "mix", "rev", "stale")


def layouts(ctx, dim, npatch, extra, layout_list=LAYOUTS):
    boot()
    ref = Ref(dim, extra=("heavy",) if "heavy" in extra else ())
    for order in (("e", "b"), ("b", "e")):
        rig = Rig(dim, npatch, order, extra)
        for lay in layout_list:
            for split in (1, 3):
                case = dict(dim=dim, npatch=npatch, order=order, extra=extra, layout=lay, split=split)
                ctx.case(case)
                ctx.state(case)
                ctx.add("transitions")
                rig.load(rig.contents(split), lay)
                rig.snapshot()
                rig.sim.collision.calculate_debye_length()
                if not ref.check(ctx, rig, case, f"layout:{dim}d:{'+'.join(extra) or 'plain'}"):
                    return


OPS = "DCNTXSGUR"


def apply(rig, op):
    sim = rig.sim
    c = sim.collision
    if op == "D":
        c.calculate_debye_length()
    elif op == "C":            # a collision that changes everybody
        S = coll.script
        S.active, S.u = True, 0.2
        try:
            with np.errstate(all="ignore"):
                c(1e-12)
        finally:
            S.active = False
    elif op == "N":            # denser for a while
        rig.load(rig.contents(wf=1e3))
        c.calculate_debye_length()
    elif op == "T":            # hotter and thinner for a while
        rig.load(rig.contents(wf=0.3, uf=40.0))
        c.calculate_debye_length()
    elif op == "X":            # everything gone for a while
        rig.load({})
        c.calculate_debye_length()
    elif op == "S":
        for s in sim.sorter:
            s()
    elif op == "G":            # storage grows
        for p in sim.patches:
            for q in p.particles:
                q.extend(13)
        sim.update_lists()
    elif op == "U":            # everything is looked at anew
        for p in sim.patches:
            for q in p.particles:
                q.extended = True
        sim.update_lists()
    elif op == "R":
        with np.errstate(all="ignore"):
            sim.run(nsteps=1)


def histories(ctx, dim, npatch, depth, part=(0, 1), extra=()):
    boot()
    ref = Ref(dim, extra=extra)
    seqs = [s for d in range(1, depth + 1) for s in itertools.product(OPS, repeat=d)]
    seqs = seqs[part[0]::part[1]]
    for s in seqs:
        case = dict(dim=dim, npatch=npatch, history="".join(s), extra=extra)
        ctx.case(case)
        ctx.state(case)
        rig = Rig(dim, npatch, extra=extra)
        rig.load(rig.contents())
        for op in s:
            apply(rig, op)
            ctx.add("transitions")
        rig.load(rig.contents())
        rig.snapshot()
        rig.sim.collision.calculate_debye_length()
        if not ref.check(ctx, rig, case, f"history:{dim}d"):
            return


def running(ctx, dim, how):
    """in a running simulation, every step's screening is that of the particles as they are then"""
    boot()
    from lambdapic import MovingWindow
    from vlib import simmpi
    ranks = 2 if how == "rebalance" else 1
    n, npatch = ((12, 12), (2, 2)) if dim == 2 else ((8, 8, 8), (2, 1, 2))
    if how == "window":
        n = (24,) + n[1:]
        npatch = (4,) + npatch[1:]
    per = "o" + "p" * (dim - 1) if how == "window" else "p" * dim
    rec = {}

    def spec():
        return [lp.Electron(density=lp.uniform_density(dim, 1e20), ppc=3), lp.Proton(density=lp.uniform_density(dim, 1e20), ppc=2)]

    def fill(sim, zero=False):
        for p in sim.patches:
            g = c01.rng(5 + p.index)
            for q, t in zip(p.particles, (0.05, 1e-3)):
                for i in range(q.npart):
                    q.ux[i], q.uy[i], q.uz[i] = u = np.array([0.5 * t * g() + 0.4, 0.5 * t * g() - 0.2, 0.4 * t * g()])
                    q.inv_gamma[i] = 1 / math.sqrt(1 + u @ u)
                    q.w[i] = 10 ** (2 + 8 * g())

    def watch(sim, rank):
        cls = type(sim.collision)

        class Seen(cls):
            def __call__(self, dt):
                S = coll.script
                S.u, S.phi, S.hook = 0.37, 1.1, None
                S.perm = lambda n, k: np.arange(n)
                self.lnLambda = 0.0
                pre = {p.index: [state(sim, q) for q in p.particles] for p in sim.patches}
                S.active = True
                try:
                    cls.__call__(self, dt * 1e3)
                finally:
                    S.active = False
                post = {p.index: [mom(q) for q in p.particles] for p in sim.patches}
                shift = {p.index: tuple(getattr(p, a + "min") for a in "xyz"[:dim]) for p in sim.patches}
                r = rec.setdefault(sim.itime, dict(pre={}, post={}, pos={}, dt=dt * 1e3))
                for k in pre:
                    r["pre"][k], r["post"][k], r["pos"][k] = pre[k], post[k], shift[k]
        sim.collision.__class__ = Seen

    def build(r):
        sp = spec()
        sim = lp.make_sim(dim, n, npatch, per, species=sp, cpml=3)
        sim.add_collision([[sp[0], sp[0], sp[1]]])
        sim.initialize()
        fill(sim)
        watch(sim, r)
        cb = [MovingWindow(velocity=0.93 * C, start_time=0.0)] if how == "window" else []
        np_ = int(np.prod(npatch))
        for k in range(5):
            if how == "rebalance":
                if r == 0:
                    lp.partition().queue = [[(i >> (k % 2)) % 2 if k != 3 else int(i > 0) for i in range(np_)]]
                sim.load_balancer.threshold = -1.0
            sim.run(nsteps=1, callbacks=cb)
        return sim

    case = dict(dim=dim, how=how)
    ctx.case(case)
    with coll.scripted_rng():
        if ranks == 1:
            build(0)
        else:
            lp.world_sims(simmpi, 2, build)
    if len(rec) < 5:
        ctx.violation(f"idle:{how}", f"{case}: collisions ran in {len(rec)} of 5 steps", case)
        return
    moved = 0
    for it, r in sorted(rec.items()):
        cs = dict(case, step=it)
        ctx.case(cs)
        ctx.state(cs)
        if len(r["pre"]) != int(np.prod(npatch)):
            raise RuntimeError("patches missing in the record")
        sp = spec()
        sim = coll.make(dim, n, npatch, sp, [[sp[0], sp[0], sp[1]]], cpml=3, per=per)
        keys = {p.index: p for p in sim.patches}
        for k, p in keys.items():
            src = k
            for q, st in zip(p.particles, r["pre"][src]):
                q.initialize(len(st["w"]))
                q.extended = True
                for a, v in st.items():
                    if a in "xyz":
                        # cells are counted from the patch: put the particles where the patch is now
                        v = v - r["pos"][src]["xyz".index(a)] + getattr(p, a + "min")
                    getattr(q, a)[:] = v
        sim.update_lists()
        for s in sim.sorter:
            s()
        before = {k: [state(sim, q) for q in p.particles] for k, p in keys.items()}
        sim.collision.calculate_debye_length()
        S = coll.script
        S.u, S.phi, S.hook = 0.37, 1.1, None
        S.perm = lambda n, k: np.arange(n)
        S.active = True
        sim.collision.lnLambda = 0.0
        try:
            sim.collision(r["dt"])
        finally:
            S.active = False
        for k, p in keys.items():
            for isp, q in enumerate(p.particles):
                a, b = r["pre"][k][isp], before[k][isp]
                if not (np.array_equal(a["w"], b["w"]) and np.array_equal(a["is_dead"], b["is_dead"])):
                    ctx.add("reordered")
                    continue
                got, want = r["post"][k][isp], mom(q)
                live = ~b["is_dead"]
                ctx.add("transitions", int(live.sum()))
                moved += int((want[:3] != np.array([b[x] for x in ("ux", "uy", "uz")]))[:, live].any(0).sum())
                e = np.abs(got - want)[:, live]
                if e.size and not e.max() <= 1e-8:
                    ctx.violation(f"running:{dim}d:{how}", f"{cs}: patch {k}, species {isp}: {int((~(e <= 1e-8)).any(0).sum())} of {int(live.sum())} particles scatter otherwise than in a fresh simulation holding the same particles (largest difference {e.max():.3g})", cs)
                    return
    if not moved:
        raise RuntimeError("nothing collided")
    ctx.add("scattered", moved)


def state(sim, q):
    return {a: np.array(getattr(q, a)) for a in ("x", "y", "z")[:sim.dimension] + ("ux", "uy", "uz", "inv_gamma", "w", "is_dead")}


def mom(q):
    return np.array([q.ux, q.uy, q.uz, q.inv_gamma])


def compiled(ctx, dim):
    """compiled: deflections in the cells, averaged over nothing - the arrays are compared with the interpreted definition through repeated runs"""
    boot()
    coll.FakeGen = lambda seed=None: coll._real_rng(seed)
    res = []
    for hist in ("", "D", "DCD", "ND", "TXD"):
        rig = Rig(dim)
        rig.load(rig.contents())
        for op in hist:
            apply(rig, op)
        rig.load(rig.contents())
        rig.snapshot()
        c = rig.sim.collision
        c.calculate_debye_length()
        c.lnLambda = 0.0
        case = dict(dim=dim, history=hist, compiled=True)
        ctx.case(case)
        ctx.state(case)
        # the same generator state everywhere: rebuild the streams
        outs = []
        for dt in (1e-14, 1e-10, 1e-6):
            rig.put(rig.u0)
            for g in c.gen_list:
                g.bit_generator.state = np.random.PCG64(5).state
            c(dt)
            outs.append(np.array([[[getattr(q, a)[i] for a in ("ux", "uy", "uz")] for q, i in s] for s in rig.slots]))
        res.append(np.array(outs))
        ctx.add("transitions", 3)
        if not np.array_equal(res[0], res[-1], equal_nan=True):
            ctx.violation(f"compiled:{dim}d", f"{case}: scattering with the same random numbers differs from that without history", case)
            return


def jobs(tier, seed):
    th = tier == "thorough"
    J = []
    for dim in (2, 3):
        J.append((f"value{dim}", value, dict(dim=dim, extra=())))
        J.append((f"value{dim}:x", value, dict(dim=dim, extra=("heavy", "atom", "photon"))))
    for npatch in ((1, 1), (2, 2), (4, 1), (1, 4)):
        J.append((f"layout2:{npatch}", layouts, dict(dim=2, npatch=npatch, extra=())))
    for x in (("photon",), ("atom",), ("atom", "photon"), ("heavy",), ("photon", "heavy", "atom"), ("first", "photon", "atom")):
        J.append((f"layout2:{'+'.join(x)}", layouts, dict(dim=2, npatch=(2, 2), extra=x, layout_list=("id", "mix") if not th else LAYOUTS)))
    J.append(("layout3", layouts, dict(dim=3, npatch=(2, 1, 1), extra=())))
    K = 3 if not th else 24
    for k in range(K):
        J.append((f"history2:{k}", histories, dict(dim=2, npatch=(2, 1), depth=3 if th else 2, part=(k, K))))
    J.append(("history2:x", histories, dict(dim=2, npatch=(1, 1), depth=1, extra=("atom",))))
    J.append(("history2:first", histories, dict(dim=2, npatch=(1, 1), depth=1, extra=("first", "photon"))))
    J.append(("history3", histories, dict(dim=3, npatch=(2, 1, 1), depth=2 if th else 1)))
    for dim in (2, 3):
        for how in ("plain", "rebalance", "window"):
            J.append((f"run{dim}:{how}", running, dict(dim=dim, how=how)))
    J.append(("jit", jitjob.jit, dict(target="harness.c03:compiled", args=dict(dim=2), compiled=True)))
    return J


COVERAGE = "see NOTE"
