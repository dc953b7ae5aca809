"""C02: a collision conserves momentum and energy."""
import itertools
import math

import numpy as np

from harness import c01
from vlib import jitjob

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive product of momentum pairs (directions x magnitudes up to 1e8, equal, nearly equal and resting ones) x species pairs x weight ratios x generator outcomes x collision strengths on the real collision step under scripted generators, against conservation laws in extended precision and against the same pair turned in space or with its members exchanged"
NOTE = "About 3000 momentum pairs x 3 species pairs x 27 (scattering draw, azimuth, strength) combinations; 9 weight ratios x 6 draws; all 24 rotations of 60 pairs; screening computed from the plasma incl. cold and neutral cells; compiled run of every pair."
ASSUMPTIONS = ["conservation to 4e-14 of the pair's total |p| and energy"]
LD = np.longdouble


def boot():
    global lp, coll
    c01.boot()
    lp, coll = c01.lp, c01.coll


DIRS = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 1), (1, -2, 0.5)]
MAGS = (1e-6, 1e-2, 1.0, 30.0, 1e4, 1e8)


def unit(d):
    n = math.sqrt(sum(x * x for x in d))
    return np.array(d) / n if n else np.array(d, float)


def vectors(mags=MAGS):
    V = [np.zeros(3)]
    for d in DIRS[1:]:
        for m in mags:
            V.append(unit(d) * m)
    return V


def pairs_of(mags=MAGS, near=True):
    V = vectors(mags)
    P = [(a, b) for i, a in enumerate(V) for b in V[i:]]
    if near:
        for a in V[1:]:
            for f in (1 + 2.3e-16, 1 - 1e-9, 1.001):
                P.append((a, a * f))
            P.append((a, np.array([a[0], np.nextafter(a[1], 9e9), a[2]])))
    return P


def species(dim, which):
    dens = lp.uniform_density(dim, 1e18)
    e = lp.Electron(density=dens, ppc=1)
    if which == "ee":
        return [e], [[e, e]], (0, 0)
    if which == "ep":
        p = lp.Proton(density=dens, ppc=1)
        return [e, p], [[e, p]], (0, 1)
    if which == "pe":
        p = lp.Positron(density=dens, ppc=1)
        return [p, e], [[e, p]], (0, 1)
    h = lp.Species(name="heavy", charge=50, mass=3.6e5, density=dens, ppc=1)
    return [h, e], [[h, e]], (0, 1)


class Bench:
    """one pair per cell of one patch"""

    def __init__(self, which, side=16, dim=2, debye=False):
        self.dim = dim
        sp, groups, self.pr = species(dim, which)
        self.same = self.pr[0] == self.pr[1]
        self.n = side ** dim
        self.sim = coll.make(dim, (side,) * dim, (1,) * dim, sp, groups, nslot=self.n * (2 if self.same else 1), cpml=3)
        self.m = [sp[k].m for k in self.pr]
        self.p = self.sim.patches[0]
        self.cells = np.array(list(itertools.product(range(side), repeat=dim)))
        self.debye = debye

    def load(self, P, w=((1e10, 1e10),), swap=False, extra=None):
        for q in self.p.particles:
            q.is_dead[:] = True
        N = len(P)
        assert N <= self.n
        U = [np.array([a for a, _ in P]), np.array([b for _, b in P])]
        W = np.array([w[k % len(w)] for k in range(N)], float)
        self.N = N
        for k in (0, 1):
            q = self.p.particles[self.pr[k]]
            s = slice(2 * N - N, 2 * N) if self.same and (k == 1) != swap else slice(0, N)
            for j, a in enumerate("xyz"[:self.dim]):
                h = getattr(self.sim, "d" + a)
                getattr(q, a)[s] = getattr(self.p, a + "min") + (self.cells[:N, j] + 0.2) * h
            q.ux[s], q.uy[s], q.uz[s] = U[k].T
            q.inv_gamma[s] = 1 / np.sqrt(1 + (U[k] ** 2).sum(1))
            q.w[s] = W[:, k]
            q.is_dead[s] = False
            # tags: position y offset tells the members of a same-species pair apart
            q.y[s] += (0.1 if k else -0.1) * self.sim.dy
        for s in self.sim.sorter:
            s()
        self.idx = []
        for k in (0, 1):
            q = self.p.particles[self.pr[k]]
            c = (q.x - self.p.xmin) / self.sim.dx
            ci = np.floor(c + 0.5)
            key = ci.astype(float)
            for j, a in enumerate("yz"[:self.dim - 1]):
                ff = (getattr(q, a) - getattr(self.p, a + "min")) / getattr(self.sim, "d" + a)
                key = key * self.cells.max() + key + np.floor(ff + 0.5)
            off = (q.y - self.p.ymin) / self.sim.dy
            off = off - np.floor(off + 0.5)
            live = np.flatnonzero(~q.is_dead & ((off > 0.2) == bool(k)))
            o = live[np.argsort(key[live], kind="stable")]
            assert len(o) == N, (len(o), N)
            self.idx.append(o)
        self.start = [np.array([getattr(self.p.particles[self.pr[k]], a)[self.idx[k]] for a in ("ux", "uy", "uz", "inv_gamma")]) for k in (0, 1)]
        for k in (0, 1):
            assert np.array_equal(self.start[k][:3].T, U[k])

    def reset(self):
        for k in (0, 1):
            q = self.p.particles[self.pr[k]]
            for a, v in zip(("ux", "uy", "uz", "inv_gamma"), self.start[k]):
                getattr(q, a)[self.idx[k]] = v

    def collide(self, u, phi, dt, lnl=10.0, compiled=False):
        self.reset()
        c = self.sim.collision
        c.lnLambda = lnl
        S = coll.script
        S.u, S.phi, S.hook = u, phi, None
        S.perm = lambda n, k: np.arange(n)
        if lnl == 0 and self.debye:
            c.calculate_debye_length()
        S.active = not compiled
        try:
            with np.errstate(all="ignore"):
                c(dt)
        finally:
            S.active = False
        return [np.array([getattr(self.p.particles[self.pr[k]], a)[self.idx[k]] for a in ("ux", "uy", "uz", "inv_gamma")]) for k in (0, 1)]


def gam(u):
    u = u.astype(LD)
    return np.sqrt(1 + (u * u).sum(0))


def conserved(ctx, B, out, case, key, P, TOL=4e-14):
    m = [LD(x) for x in B.m]
    a = [x[:3].astype(LD) for x in B.start]
    b = [x[:3].astype(LD) for x in out]
    fin = np.isfinite(out[0]).all(0) & np.isfinite(out[1]).all(0)
    if not fin.all():
        i = int(np.argmin(fin))
        ctx.violation(f"finite:{key}", f"{case}: u1={P[i][0].tolist()} u2={P[i][1].tolist()} gives {out[0][:, i].tolist()} and {out[1][:, i].tolist()}", dict(case, pair=i))
        return False
    for k in (0, 1):
        e = np.abs(out[k][3].astype(LD) * gam(out[k][:3]) - 1)
        if e.max() > 1e-14:
            i = int(np.argmax(e))
            ctx.violation(f"gamma:{key}", f"{case}: inverse gamma off by {float(e[i])} after u1={P[i][0].tolist()} u2={P[i][1].tolist()}", dict(case, pair=i))
            return False
    pin = m[0] * a[0] + m[1] * a[1]
    dp = np.abs(m[0] * (b[0] - a[0]) + m[1] * (b[1] - a[1])).max(0)
    sc = m[0] * np.sqrt((a[0] ** 2).sum(0)) + m[1] * np.sqrt((a[1] ** 2).sum(0))
    de = np.abs(m[0] * (gam(b[0]) - gam(a[0])) + m[1] * (gam(b[1]) - gam(a[1])))
    se = m[0] * gam(a[0]) + m[1] * gam(a[1])
    for name, d, s in (("momentum", dp, sc), ("energy", de, se)):
        r = d / np.where(s > 0, s, 1)
        ctx.info["worst_" + name] = max(ctx.info.get("worst_" + name, 0.0), float(r.max()))
        if r.max() > TOL:
            i = int(np.argmax(r))
            ctx.violation(f"{name}:{key}", f"{case}: total {name} changes by {float(r[i]):.3g} for u1={P[i][0].tolist()} u2={P[i][1].tolist()} -> {out[0][:3, i].tolist()}, {out[1][:3, i].tolist()}", dict(case, pair=i))
            return False
    return True


def run_guard(ctx, fn, case, key):
    try:
        return fn()
    except (ZeroDivisionError, ValueError, OverflowError) as e:
        ctx.violation(f"finite:{key}", f"{case}: {type(e).__name__}: {e}", case)
        return None


SCR = [(u, phi, s) for u in (0.0, 0.37, 0.9999999) for phi in (0.0, 1.1, 3.3) for s in (1e-2, 1e2, 1e8)]


def equal(ctx, which, dim, part):
    """every momentum pair, equal weights"""
    boot()
    B = Bench(which, side=16 if dim == 2 else 6, dim=dim)
    Pall = pairs_of()[part[0]::part[1]]
    if dim == 3:
        Pall = Pall[::5]
    for lo in range(0, len(Pall), B.n):
        P = Pall[lo:lo + B.n]
        B.load(P)
        for u, phi, s in SCR:
            case = dict(which=which, dim=dim, part=part, chunk=lo, u=u, phi=phi, strength=s)
            ctx.case(case)
            # one step of this length gives strengths around s for u ~ 1
            out = run_guard(ctx, lambda: B.collide(u, phi, s * 1e-7), case, f"{which}:{dim}d")
            if out is None or not conserved(ctx, B, out, case, f"{which}:{dim}d", P):
                return
            ctx.add("transitions", len(P))
            ctx.state((which, dim, part, lo, u, phi, s))
        moved = (out[0][:3] != B.start[0][:3]).any(0)
        ctx.add("scattered", int(moved.sum()))
        # those at rest relative to each other stay as they are
        rest = np.array([np.array_equal(a, b) for a, b in P])
        if (moved & rest).any():
            ctx.violation(f"rest:{which}", f"{case}: particles with equal momenta were changed", case)
            return


RATIOS = [(1e10, 1e10), (1e10, 5e9), (5e9, 1e10), (1e10, 1e7), (1e7, 1e10), (1e10, 1e-20), (1e-20, 1e10), (1e25, 1e10), (1e10, 3.0)]
US = (0.0, 0.2, 0.49, 0.51, 0.7, 0.9999)


def unequal(ctx, which, dim):
    """every weight ratio: each member scattered as in the elastic collision of the pair or left bitwise unchanged, the lighter-weighted always,
    the heavier-weighted exactly when the draw is below the ratio"""
    boot()
    B = Bench(which, side=16 if dim == 2 else 6, dim=dim)
    P = [p for p in pairs_of((1e-2, 1.0, 1e4), near=False) if not np.array_equal(*p)]
    P = P[::max(1, len(P) // B.n)][:B.n]
    for w in RATIOS:
        wm = max(w)
        ref = {}
        for u in US:
            for s in (1e-2, 1e4):
                case = dict(which=which, dim=dim, w=w, u=u, strength=s)
                ctx.case(case)
                ctx.state(case)
                B.load(P, [(wm, wm)])
                dt = s * 1e-7 * 1e10 / wm
                el = run_guard(ctx, lambda: B.collide(u, 1.1, dt), case, f"unequal:{which}")
                if el is None or not conserved(ctx, B, el, case, f"unequal-ref:{which}", P):
                    return
                B.load(P, [w])
                out = run_guard(ctx, lambda: B.collide(u, 1.1, dt), case, f"unequal:{which}")
                if out is None:
                    return
                for k in (0, 1):
                    un = (out[k] == B.start[k]).all(0)
                    sc = np.abs(out[k] - el[k]).max(0) <= 1e-13 * (np.abs(el[k]).max(0) + np.abs(B.start[k]).max(0))
                    if not (un | sc).all():
                        i = int(np.argmin(un | sc))
                        ctx.violation(f"unequal:{which}", f"{case}: member {k} of u1={P[i][0].tolist()} u2={P[i][1].tolist()} goes to {out[k][:, i].tolist()}: neither unchanged nor the elastic outcome {el[k][:, i].tolist()}", case)
                        return
                    due = w[1 - k] / wm > u
                    real = ~(el[k] == B.start[k]).all(0)     # elastic outcome differs from staying put
                    far = np.abs(el[k] - B.start[k]).max(0) > 1e-11 * np.abs(B.start[k]).max(0)
                    wrong = (un & real & far) if due else ~un
                    if wrong.any():
                        i = int(np.argmax(wrong))
                        ctx.violation(f"ratio:{which}", f"{case}: member {k} (weights {w}, draw {u}) was {'left alone' if due else 'scattered'} for u1={P[i][0].tolist()} u2={P[i][1].tolist()}", case)
                        return
                    ctx.add("transitions", len(P))


def rotations():
    R = []
    for perm in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            M = np.zeros((3, 3))
            for i, (p, s) in enumerate(zip(perm, sg)):
                M[i, p] = s
            if np.linalg.det(M) > 0:
                R.append(M)
    return R


def cosine(B, out):
    """cosine of the deflection in the centre-of-mass frame, in extended precision"""
    m = [LD(x) / LD(B.m[0]) for x in B.m]
    a = [x[:3].astype(LD) for x in B.start]
    b = [x[:3].astype(LD) for x in out]

    def com(v):
        E = m[0] * gam(v[0]) + m[1] * gam(v[1])
        Pt = m[0] * v[0] + m[1] * v[1]
        M = np.sqrt(E * E - (Pt * Pt).sum(0))
        pa = m[0] * v[0]
        return pa + Pt * ((pa * Pt).sum(0) / (E + M) - m[0] * gam(v[0])) / M
    p, q = com(a), com(b)
    return (p * q).sum(0) / np.sqrt((p * p).sum(0) * (q * q).sum(0))


def turned(ctx, which, dim):
    """the deflection does not depend on how the pair is turned in space, nor on the order of its members"""
    boot()
    B = Bench(which, side=16 if dim == 2 else 6, dim=dim)
    V = [unit(d) * m for d in DIRS[1:] for m in (0.1, 3.0)]
    P = [(np.zeros(3), v) for v in V] + [(a, b) for a, b in itertools.combinations(V, 2)]
    P = [p for p in P if not np.allclose(*p)]
    P = P[:B.n] if dim == 2 else P[::4][:B.n]
    for u in (0.05, 0.37, 0.9):
        for s in (1e2, 1e5):
            ref = None
            for ir, R in enumerate(rotations()):
                for swap in ((False, True) if B.same else (False,)):
                    case = dict(which=which, dim=dim, u=u, strength=s, rotation=ir, swap=swap)
                    ctx.case(case)
                    ctx.state(case)
                    Q = [(R @ a + 0.0, R @ b + 0.0) for a, b in P]
                    B.load(Q, swap=swap)
                    out = run_guard(ctx, lambda: B.collide(u, 1.1, s * 1e-7), case, f"turn:{which}")
                    if out is None:
                        return
                    c = cosine(B, out)
                    if ref is None:
                        ref = c
                        if (np.abs(1 - ref) < 1e-12).all():
                            raise RuntimeError("no deflection to look at")
                    e = np.abs(c - ref)
                    ctx.add("transitions", len(P))
                    if e.max() > 1e-9:
                        i = int(np.argmax(e))
                        ctx.violation(f"turn:{which}", f"{case}: cosine of the deflection {float(c[i])} instead of {float(ref[i])} for u1={Q[i][0].tolist()} u2={Q[i][1].tolist()}", dict(case, pair=i))
                        return


def screened(ctx, which, dim):
    """the same with the Coulomb logarithm computed from the plasma (one pair per cell: cold, hot, dense, thin)"""
    boot()
    B = Bench(which, side=16 if dim == 2 else 6, dim=dim, debye=True)
    Pall = pairs_of((1e-6, 1.0, 1e6))
    for lo in range(0, len(Pall), B.n):
        P = Pall[lo:lo + B.n]
        for w in (1e3, 1e10, 1e17):
            B.load(P, [(w, w)])
            case = dict(which=which, dim=dim, chunk=lo, w=w, kind="screened")
            ctx.case(case)
            ctx.state(case)
            out = run_guard(ctx, lambda: B.collide(0.37, 1.1, 1e-5 * 1e10 / w, lnl=0.0), case, f"screened:{which}")
            if out is None or not conserved(ctx, B, out, case, f"screened:{which}", P):
                return
            ctx.add("transitions", len(P))


def many(ctx, dim):
    """several particles per cell (each member of an odd group is split): totals per cell"""
    boot()
    c01.compiled(ctx, dim, "before")


def compiled(ctx, which, dim, part):
    boot()
    B = Bench(which, side=16, dim=dim)
    Pall = pairs_of()[part::4]
    for lo in range(0, len(Pall), B.n):
        P = Pall[lo:lo + B.n]
        B.load(P)
        for s in (1e-2, 1e2, 1e8):
            case = dict(which=which, dim=dim, chunk=lo, strength=s, compiled=True)
            ctx.case(case)
            ctx.state(case)
            out = run_guard(ctx, lambda: B.collide(0, 0, s * 1e-7, compiled=True), case, f"{which}:{dim}d")
            if out is None or not conserved(ctx, B, out, case, f"{which}:{dim}d", P):
                return
            ctx.add("transitions", len(P))


def real_generators(ctx, which, dim, part):
    """compiled run: the kernels take numpy generators"""
    boot()
    coll.FakeGen = lambda seed=None: coll._real_rng(seed)
    compiled(ctx, which, dim, part)


def jobs(tier, seed):
    th = tier == "thorough"
    J = []
    for w in ("ee", "ep", "he", "pe"):
        K = 1 if not th else 1
        for k in range(2):
            J.append((f"equal2:{w}:{k}", equal, dict(which=w, dim=2, part=(k, 2))))
        J.append((f"equal3:{w}", equal, dict(which=w, dim=3, part=(0, 1))))
        J.append((f"unequal:{w}", unequal, dict(which=w, dim=2)))
        J.append((f"turned:{w}", turned, dict(which=w, dim=2)))
        J.append((f"screened:{w}", screened, dict(which=w, dim=2)))
    J.append(("unequal3", unequal, dict(which="ep", dim=3)))
    J.append(("screened3", screened, dict(which="ee", dim=3)))
    for w in ("ee", "he"):
        J.append((f"jit:{w}", jitjob.jit, dict(target="harness.c02:real_generators", args=dict(which=w, dim=2, part=0), compiled=True)))
    return J


COVERAGE = "see NOTE"
