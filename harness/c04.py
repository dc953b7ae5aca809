"""C04: the collision frequency in a cell is the physical one, whatever the macro-particles."""
import itertools
import math

import numpy as np

from harness import c01, c03
from vlib import jitjob

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of the numbers of macro-particles of both groups in a cell, of dead slots, weights, shuffles and cell sizes on the real collision step under scripted generators; the strength of every single collision is read off its deflection and the sums are compared with the frequency of the densities"
NOTE = "Same-species counts 2..14, two-species counts (1..9)x(1..9), 3 weight ratios, 3 dead-slot patterns, 4 orders, cell volumes and steps over 4 decades, lnLambda 0.3..10, 2D and 3D, absolute rate in SI units against Perez et al. (10%), several particles split into lighter ones; strength per step of a running simulation."
ASSUMPTIONS = ["small deflections: 1 - cos proportional to the strength", "both members of a pair change when the rejection draw is below the weight ratio"]


def boot():
    global lp, coll
    c01.boot()
    lp, coll = c01.lp, c01.coll


U = 0.37
DRAW = None


def com(m, a, b):
    """momentum of the first in the centre-of-mass frame (units m0 c)"""
    a, b = np.asarray(a, np.longdouble), np.asarray(b, np.longdouble)
    pa, pb = m[0] * a, m[1] * b
    ea, eb = m[0] * np.sqrt(1 + a @ a), m[1] * np.sqrt(1 + b @ b)
    P, E = pa + pb, ea + eb
    M = np.sqrt(E * E - P @ P)
    return pa + P * ((pa @ P) / (E + M) - ea) / M


class Rig:
    def __init__(self, dim, which, side=None, scale=1.0):
        self.dim, self.which = dim, which
        dens = lp.uniform_density(dim, 1e18)
        e = lp.Electron(density=dens, ppc=1)
        if which == "same":
            sp, grp, self.pr = [e], [[e, e]], (0, 0)
        elif which == "positron":
            p = lp.Positron(density=dens, ppc=1)
            sp, grp, self.pr = [p, e], [[e, p]], (0, 1)
        else:
            p = lp.Proton(density=dens, ppc=1)
            sp, grp, self.pr = [e, p], [[e, p]], (0, 1)
        self.n = (side or (16 if dim == 2 else 6),) * dim
        d = tuple(lp_d * scale for lp_d in (1.0e-6, 1.3e-6, 0.8e-6)[:dim])
        self.sim = coll.make(dim, self.n, (1,) * dim, sp, grp, nslot=3000, cpml=3, d=d)
        self.sp = sp
        self.m = [np.longdouble(s.m) / np.longdouble(sp[0].m) for s in (sp[self.pr[0]], sp[self.pr[1]])]
        self.p = self.sim.patches[0]
        self.cells = list(itertools.product(*[range(k) for k in self.n]))
        self.vol = float(np.prod(d))

    def load(self, cases, layout):
        """cases: one (U1, U2, w1, w2) per cell"""
        sim, p = self.sim, self.p
        h = [sim.dx, sim.dy] + ([sim.dz] if self.dim == 3 else [])
        for q in p.particles:
            q.is_dead[:] = True
        k = [0, 0]
        for c, (U1, U2, w1, w2) in zip(self.cells, cases):
            for g, (Us, w) in enumerate(((U1, w1), (U2, w2))):
                if g == 1 and self.which == "same":
                    continue
                q = p.particles[self.pr[g]]
                for j, u in enumerate(Us):
                    dead = layout == "gaps" and j % 2 == 0 or layout == "first" and j == 0
                    for rep in range(2 if dead else 1):
                        i = k[g]
                        k[g] += 1
                        for a, ci, hh in zip("xyz", c, h):
                            getattr(q, a)[i] = getattr(p, a + "min") + (ci - 0.4 + 0.8 * ((i * 0.37) % 1)) * hh
                        q.ux[i], q.uy[i], q.uz[i] = u
                        q.inv_gamma[i] = 1 / math.sqrt(1 + sum(x * x for x in u))
                        q.w[i] = w
                        q.is_dead[i] = False
        for s in sim.sorter:
            s()
        # every second slot of a doubled particle dies in place
        if layout != "full":
            for g in set(self.pr):
                q = p.particles[g]
                f = coll.cell_of(sim, q)
                seen = {}
                for i in np.flatnonzero(~q.is_dead):
                    key = (int(f[i]), q.ux[i], q.uy[i], q.uz[i])
                    if key in seen:
                        q.is_dead[i] = True
                        q.w[i] = 1e30
                        q.ux[i] = 77.0
                    seen[key] = i

    def strengths(self, call, perm):
        """[(cell, patch slots (g, i), (g, j), strength)] of one collision step"""
        sim = self.sim
        S = coll.script
        S.u, S.phi = U, 0.9
        S.perm = perm
        w = coll.Watch(sim)
        before = [np.array([q.ux, q.uy, q.uz]).copy() for q in self.p.particles]
        out = []
        cur = [b.copy() for b in before]

        def look():
            w0(False)

        orig = w.look

        def w0(final):
            n = len(w.events)
            orig()
            for ev in w.events[n:]:
                if len(ev) != 2:
                    out.append((None, ev, None, 0.0))
                else:
                    out.append(self.one(ev, cur))
                for _, g, i in ev:
                    q = self.p.particles[g]
                    cur[g][:, i] = q.ux[i], q.uy[i], q.uz[i]
        w.look = lambda: w0(False)
        w.run(call)
        return out

    def one(self, ev, cur):
        (_, g1, i1), (_, g2, i2) = ev
        if self.which != "same" and g1 == g2:
            return (None, ev, None, 0.0)
        if g1 != self.pr[0]:
            (g1, i1), (g2, i2) = (g2, i2), (g1, i1)
        m = self.m
        q1, q2 = self.p.particles[g1], self.p.particles[g2]
        a, b = cur[g1][:, i1], cur[g2][:, i2]
        a2, b2 = [np.array([q.ux[i], q.uy[i], q.uz[i]]) for q, i in ((q1, i1), (q2, i2))]
        p, r = com(m, a, b), com(m, a2, b2)
        d = p - r
        return ((g1, i1), (g2, i2), (a.copy(), b.copy()), float((d @ d) / (2 * (p @ p))))

    def reference(self, pairs, dt, w):
        """deflection of every pair alone in a cell, both with weight w"""
        res = []
        n = len(self.cells)
        for lo in range(0, len(pairs), n):
            P = pairs[lo:lo + n]
            if self.which == "same":
                self.load([([a, b], [], w, w) for a, b in P], "full")
            else:
                self.load([([a], [b], w, w) for a, b in P], "full")
            self.sim.collision.lnLambda = 10.0
            got = {}
            for s1, s2, ab, v in self.strengths(lambda: self.sim.collision(dt), lambda n, k: np.arange(n)):
                if s1 is None:
                    raise RuntimeError("reference pair")
                f = coll.cell_of(self.sim, self.p.particles[s1[0]])[s1[1]]
                got[int(f)] = v
            c0 = coll_cells(self)
            res += [got[c0[k]] for k in range(len(P))]
        return res


def coll_cells(rig):
    sim, p = rig.sim, rig.p
    h = [sim.dx, sim.dy] + ([sim.dz] if rig.dim == 3 else [])
    out = []
    for c in rig.cells:
        f = 0
        for a, ci, hh in zip("xyz", c, h):
            f = f * 100003 + int(round(getattr(p, a + "min") / hh)) + ci
        out.append(f)
    return out


def us(k, n, t):
    """n different momenta"""
    g = lp.lcg(100 * k + n)
    return [(0.3 * t + 0.2 * next(g), 0.4 * next(g) - 0.2, 0.4 * next(g) - 0.2) for _ in range(n)]


PERMS = {"id": lambda n, k: np.arange(n), "rev": lambda n, k: np.arange(n)[::-1], "roll": lambda n, k: np.roll(np.arange(n), 1 + k % 3), "mix": lambda n, k: np.argsort((np.arange(n) * 7 + 3 * k) % 11, kind="stable")}


def pick_dt(rig, w):
    """a step length with small, well visible deflections for a pair of weight w alone"""
    pr = [(us(1, 3, 1)[0], us(2, 3, -1)[1])]
    for e in range(-32, 6):
        v = rig.reference(pr, 10.0 ** e, w)[0]
        if v > 1e-11:
            return 10.0 ** e * 1e-11 / v
    raise RuntimeError("no step length")


TOL = 2e-5


def table(ctx, dim, which, counts, wr, layouts, perms, scale=1.0):
    boot()
    rig = Rig(dim, which, scale=scale)
    w1 = 1e8
    w2 = w1 * wr
    dt = pick_dt(rig, max(w1, w2))
    for layout in layouts:
        for pn in perms:
            todo = list(counts)
            while todo:
                batch, todo = todo[:len(rig.cells)], todo[len(rig.cells):]
                case = dict(dim=dim, which=which, wr=wr, layout=layout, order=pn, scale=scale, counts=batch if len(batch) < 3 else f"{batch[0]}..{batch[-1]}")
                ctx.case(case)
                cs = [(us(1, a, 1), us(2, b, -1), w1, w2) for a, b in batch]
                rig.load(cs, layout)
                rig.sim.collision.lnLambda = 10.0
                cells = coll_cells(rig)
                loc = [coll.cell_of(rig.sim, q) for q in rig.p.particles]
                ev = rig.strengths(lambda: rig.sim.collision(dt), PERMS[pn])
                bad = [e for e in ev if e[0] is None]
                if bad:
                    raise RuntimeError(f"cannot tell the collisions apart: {bad[0]}")
                ref = rig.reference([e[2] for e in ev], dt, max(w1, w2))
                ctx.add("transitions", len(ev))
                tot, share = {}, {}
                for e, r in zip(ev, ref):
                    f = int(loc[e[0][0]][e[0][1]])
                    g = e[3] / r
                    tot[f] = tot.get(f, 0.0) + g
                    for s in (e[0], e[1]):
                        share[(f,) + s] = share.get((f,) + s, 0.0) + g
                for (a, b), f in zip(batch, cells):
                    cc = dict(case, counts=(a, b))
                    ctx.case(cc)
                    ctx.state(cc)
                    due = a * b if which != "same" else a * (a - 1) / 2
                    got = tot.get(f, 0.0)
                    if abs(got - due) > TOL * max(due, 1):
                        ctx.violation(f"rate:{which}:{dim}d", f"{cc}: total strength {got:.6f} of a pair's instead of {due}", cc)
                        return
                    if which != "same" and a and b:
                        small = 0 if a <= b else 1
                        S = [v for (ff, g, i), v in share.items() if ff == f and g == rig.pr[small]]
                        n = max(a, b)
                        if len(S) != min(a, b) or max(abs(x - n) for x in S) > TOL * n:
                            ctx.violation(f"share:{which}:{dim}d", f"{cc}: strengths seen by the members of the smaller group: {S} instead of {n} each", cc)
                            return


def scaling(ctx, dim, which):
    """strength per step: proportional to density (weights and volume), to the step and to lnLambda"""
    boot()
    base = None
    for scale, wf, tf, lnl in itertools.product((1.0, 0.1), (1.0, 7.0), (1.0, 3.0), (10.0, 5.0, 1.5, 0.3)):
        rig = Rig(dim, which, side=6, scale=scale)
        w = 1e8
        if base is None:
            base = pick_dt(rig, w)
            vol0 = rig.vol
        case = dict(dim=dim, which=which, scale=scale, weights=wf, step=tf, lnLambda=lnl)
        ctx.case(case)
        ctx.state(case)
        f = wf * vol0 / rig.vol * tf * lnl / 10.0
        rig.load([(us(1, 4, 1), us(2, 3, -1), w * wf, w * wf)], "full")
        rig.sim.collision.lnLambda = lnl
        # keep deflections small: divide the step by the volume ratio, multiply the expectation
        dt = base * tf * (rig.vol / vol0)
        ev = rig.strengths(lambda: rig.sim.collision(dt), PERMS["id"])
        # reference: weight 1x in the base cell for the base step
        b = Rig(dim, which, side=6, scale=1.0)
        ref = b.reference([e[2] for e in ev], base, w)
        got = sum(e[3] / r for e, r in zip(ev, ref))
        due = (12 if which != "same" else 6) * f * (rig.vol / vol0)
        ctx.add("transitions", len(ev))
        if abs(got - due) > TOL * due * 50:
            ctx.violation(f"scaling:{which}:{dim}d", f"{case}: strength {got} of a pair's instead of {due}", case)
            return


def perez(rig, a, b, w, dt, lnl):
    """Perez et al. 2012: the parameter s of a pair alone in a cell, both of weight w, from the densities w / V"""
    from scipy.constants import c, e, epsilon_0
    s1, s2 = rig.sp[rig.pr[0]], rig.sp[rig.pr[1]]
    m1, m2 = (float(s.m) for s in (s1, s2))
    if not 1e-32 < m1 < 1e-20:
        raise RuntimeError("masses are not in kg")
    q1, q2 = s1.q, s2.q
    a, b = np.asarray(a, np.longdouble), np.asarray(b, np.longdouble)
    g1, g2 = np.sqrt(1 + a @ a), np.sqrt(1 + b @ b)
    p = com((m1, m2), a, b) * c
    pc2 = p @ p
    e1, e2 = np.sqrt(m1 ** 2 + pc2 / c ** 2), np.sqrt(m2 ** 2 + pc2 / c ** 2)
    gc = (m1 * g1 + m2 * g2) / (e1 + e2)
    return float(w / rig.vol * dt * lnl * (q1 * q2) ** 2 / (4 * math.pi * epsilon_0 ** 2 * c ** 4 * m1 * g1 * m2 * g2)
                 * gc * np.sqrt(pc2) / (m1 * g1 + m2 * g2) * (e1 * e2 * c ** 2 / pc2 + 1) ** 2)


def absolute(ctx, dim, which):
    """one pair per cell: the mean of sin^2(X/2) over the angle draw is s/2 for small s (theory: <sin^2(X/2)> = (1 - exp(-s))/2), s from the densities in SI units"""
    global U
    boot()
    w, lnl = 1e8, 10.0
    rig = Rig(dim, which, side=6)
    dt = pick_dt(rig, w)
    # a grid of draws with weights: U = 1 - t^2, mean over t in (0, 1) of 2 t f
    K = 40
    ts = [(k + 0.5) / K for k in range(K)]
    pairs = [(us(k, 3, 1 + 0.7 * k)[k % 3], us(k + 3, 3, -1 + 0.3 * k)[(k + 1) % 3]) for k in range(6)]
    mean = np.zeros(len(pairs))
    U0 = U
    try:
        for t in ts:
            U = 1 - t * t
            ctx.case(dict(dim=dim, which=which, kind="absolute", draw=U))
            mean += np.array(rig.reference(pairs, dt, w)) / 2 * 2 * t / K
    finally:
        U = U0
    for (a, b), got in zip(pairs, mean):
        s = perez(rig, a, b, w, dt, lnl)
        case = dict(dim=dim, which=which, u1=a, u2=b, s=s, kind="absolute")
        ctx.case(case)
        ctx.state(case)
        ctx.add("transitions", K)
        ctx.info[f"<sin^2(X/2)>/(s/2) {dim}d {which}"] = got / (s / 2)
        if not 0.9 < got / (s / 2) < 1.1:
            ctx.violation(f"absolute:{which}:{dim}d", f"{case}: the mean of sin^2(X/2) is {got}, theory says {s / 2}", case)
            return


def running(ctx, dim, which):
    """every step of a run collides once, for its full length"""
    boot()
    rig = Rig(dim, which, side=8 if dim == 2 else 6, scale=1.0)
    sim = rig.sim
    w = 1.0
    calls = []
    cls = type(sim.collision)
    res = []

    class Seen(cls):
        def __call__(self, dt):
            calls.append(sim.itime)
            self.lnLambda = lnl
            ev = rig.strengths(lambda: cls.__call__(self, dt), PERMS["id"])
            res.append(ev)
    rig.load([(us(1, 3, 1), us(2, 2, -1), w, w)], "full")
    # a lnLambda that makes one real step visible
    lnl = 1.0
    b = Rig(dim, which, side=6, scale=1.0)
    for e in range(-10, 25):
        lnl = 10.0 ** e
        b.sim.collision.lnLambda = lnl
        b.load([([us(1, 3, 1)[0], us(1, 3, 1)[1]], [us(2, 2, -1)[0]], w, w)], "full")
        v = b.strengths(lambda: b.sim.collision(sim.dt), PERMS["id"])[0][3]
        if v > 1e-9:
            lnl *= 1e-11 / v
            break
    sim.collision.__class__ = Seen
    sim.run(nsteps=3)
    case = dict(dim=dim, which=which, kind="running")
    ctx.case(case)
    ctx.state(case)
    if len(res) != 3:
        ctx.violation(f"steps:{which}:{dim}d", f"{case}: {len(res)} collision steps in 3 time steps", case)
        return
    for k, ev in enumerate(res):
        if not ev:
            raise RuntimeError("no collisions in the run")
        def refs():
            out = []
            for e in ev:
                a, bb = e[2]
                b.load([([a, bb], [], w, w)] if which == "same" else [([a], [bb], w, w)], "full")
                b.sim.collision.lnLambda = lnl
                out.append(b.strengths(lambda: b.sim.collision(sim.dt), PERMS["id"])[0][3])
            return out
        f = {}
        tot = sum(e[3] / r for e, r in zip(ev, refs()))
        ctx.add("transitions", len(ev))
        # the particles may have drifted into different cells; in the first step they are together
        due = (6 if which != "same" else 3) if k == 0 else None
        if due is not None and abs(tot - due) > 1e-3 * due:
            ctx.violation(f"running:{which}:{dim}d", f"{case}: step {k} has strength {tot} of a pair's per time step instead of {due}", case)
            return


def jobs(tier, seed):
    th = tier == "thorough"
    J = []
    N = 14 if not th else 30
    M = 9 if not th else 15
    same = [(n, 0) for n in range(0, N + 1)]
    inter = [(a, b) for a in range(0, M + 1) for b in range(0, M + 1)]
    lays = ("full", "gaps", "first")
    perms = list(PERMS)
    J.append(("same2", table, dict(dim=2, which="same", counts=same, wr=1.0, layouts=lays, perms=perms)))
    J.append(("same3", table, dict(dim=3, which="same", counts=same, wr=1.0, layouts=lays[:2], perms=perms[:2])))
    for w in ("proton", "positron"):
        for wr in (1.0, 0.5, 2.2):
            for p in (perms if wr == 1.0 else perms[1:3]):
                J.append((f"{w}2:{wr}:{p}", table, dict(dim=2, which=w, counts=inter, wr=wr, layouts=lays if w == "proton" or th else lays[:1], perms=[p])))
        J.append((f"{w}3", table, dict(dim=3, which=w, counts=inter[::3], wr=1.0, layouts=lays[1:2], perms=perms[:1])))
    for dim in (2, 3):
        for w in ("same", "proton"):
            J.append((f"scaling{dim}:{w}", scaling, dict(dim=dim, which=w)))
            J.append((f"absolute{dim}:{w}", absolute, dict(dim=dim, which=w)))
            J.append((f"run{dim}:{w}", running, dict(dim=dim, which=w)))
    return J


COVERAGE = "see NOTE"
