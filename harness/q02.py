"""Q02: QED sampling stays inside its tables and is monotone and bounded."""
import itertools
import signal

import numpy as np

NEEDS = {"mode": "shim", "tables": True}
TECHNIQUE = "exhaustive enumeration of the lookup state space: every table node and cell of the quantum parameter x a lattice of random numbers including the exact tabulated ones, through the real event routines, with guarded tables and a termination watchdog"
NOTE = "chi: below, at, one ulp around and between all table nodes, at and above the end; random number: 0, one ulp, a lattice, 1-ulp, and the values that land exactly on each of the 1024 tabulated shares; both samplers (default, sigmoid); optical-depth bookkeeping of every slot kind; the quantum parameter itself over field/momentum direction pairs up to gamma 1e9."
ASSUMPTIONS = ["finite fields and momenta", "the tables are regenerated by the generator in the tree"]


class Watch:
    """an endless lookup becomes an exception"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def _fire(self, *a):
        raise TimeoutError("lookup does not end")

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


class Guard(np.ndarray):
    """a table whose first index has to be a proper row"""

    def __getitem__(self, i):
        k = i[0] if isinstance(i, tuple) else i
        if isinstance(k, (int, np.integer, float, np.floating)) and not (0 <= k < self.shape[0]):
            raise IndexError(f"table row {k} of {self.shape[0]}")
        r = super().__getitem__(i)
        return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r


def boot():
    global lp
    from vlib import lp as L
    lp = L
    import lambdapic.core.qed.optical_depth as od
    for k, v in list(vars(od).items()):
        if isinstance(v, np.ndarray) and v.ndim >= 1 and v.shape[0] > 2:
            g = v.view(Guard)
            setattr(od, k, g)
    return od


def rig(which, nslot):
    e, g, p = lp.Electron(radiation="photons"), lp.Photon(), lp.Positron(radiation="photons")
    e.set_photon(g)
    p.set_photon(g)
    g.set_bw_pair(electron=e, positron=p)
    s = lp.make_sim(2, (4, 4), (1, 1), "pp", ng=2, cpml=2, species=[e, g, p])
    s.initialize()
    k = 0 if which == "e" else 1
    q = s.patches[0].particles[k]
    q.initialize(nslot)
    q.extended = True
    s.update_lists()
    return s, q, (s.radiation[0] if which == "e" else s.pairproduction[1])


class Rand:
    """np.random.rand returning the driver's number"""

    def __init__(self):
        self.v = 0.5
        self.real = np.random.rand
        np.random.rand = self

    def __call__(self, *a):
        return self.v

    def close(self):
        np.random.rand = self.real


def lattice(od, dense=True):
    lo, hi = -3.0, 2.0
    N = 256
    node = 10.0 ** np.linspace(lo, hi, N)
    out = set()
    for c in node:
        out |= {c, np.nextafter(c, 0), np.nextafter(c, np.inf)}
    for t in (0.5, 0.1, 0.9):
        out |= set(10.0 ** (np.linspace(lo, hi, N)[:-1] + t * (hi - lo) / (N - 1)))
    # the sigmoid tables have 128 nodes
    for c in 10.0 ** np.linspace(lo, hi, 128):
        out |= {c, np.nextafter(c, 0), np.nextafter(c, np.inf)}
    out |= {0.0, 5e-324, 1e-30, 1e-6, 9.99e-4, 100.0, 100.0 + 1e-9, 101.0, 150.0, 1e3, 1e6, 1e30, 1e300}
    return np.array(sorted(out))


RS = sorted({0.0, 2.0 ** -53, 1e-12, 1e-6, 1e-3, 1 - 2.0 ** -53, 1 - 1e-12, 1 - 1e-6, 1 - 1e-3} | {k / 32 for k in range(1, 32)})


def sweep(ctx, which):
    """all chi x all random numbers: shares and rates"""
    od = boot()
    chi = lattice(od)
    s, q, mod = rig(which, len(chi))
    R = Rand()
    try:
        # rates: optical depth consumed by one step, no event
        ctx.case(dict(which=which, kind="rates"))
        q.is_dead[:] = False
        q.inv_gamma[:] = 1e-3
        dt = 1e-18
        q.chi[:] = chi
        q.tau[:] = 1e6
        with Watch(60):
            mod.event(dt)
        rate = (1e6 - q.tau) / (dt * 1e-3)
        ctx.add("transitions", len(chi))
        if q.event.any():
            ctx.violation(f"rate:event:{which}", "an event happened although the optical depth was not consumed", None)
            return
        # exact rates through a depth that they use up
        q.chi[:] = chi
        q.tau[:] = 1.0
        dt = 1e-24
        with Watch(60):
            mod.event(dt)
        rate = (1.0 - q.tau) / (dt * 1e-3)
        bad = ~np.isfinite(rate) | (rate < 0)
        if bad.any():
            ctx.violation(f"rate:range:{which}", f"rate at chi={chi[bad][0]!r} is {rate[bad][0]!r}")
            return
        R.v = 0.5
        # at the table nodes: compare with the published rates, computed from Bessel functions
        n1 = min(v.shape[0] for v in vars(od).values() if isinstance(v, np.ndarray) and v.ndim == 1 and v.shape[0] > 2)
        nodes = [c for c in 10.0 ** np.linspace(-3, 2, n1) if c >= 1e-2][::3]
        ref = np.array([published(which, c) for c in nodes])
        got = []
        for c, r in zip(nodes, ref):
            q.chi[:] = c
            q.tau[:] = 1.0
            d = 0.25 / max(r, 1.0) / 1e-3
            with Watch(60):
                mod.event(d)
            got.append((1.0 - q.tau[0]) / (d * 1e-3))
            ctx.state("rate", which, c)
            ctx.case(dict(which=which, chi=c))
        got = np.array(got)
        m = ref > 1e3
        e = np.abs(got - ref) / np.where(ref > 0, ref, 1)
        if (e[m] > 0.02).any():
            i = int(np.flatnonzero(m)[e[m].argmax()])
            ctx.violation(f"rate:value:{which}", f"rate at chi={nodes[i]!r}: {got[i]!r}, published {ref[i]!r}")
            return
        # monotone in chi
        fine = []
        q.chi[:] = chi
        q.tau[:] = 1.0
        d = 0.25 / 2e20 / 1e-3
        with Watch(60):
            mod.event(d)
        fine = (1.0 - q.tau) / (d * 1e-3)
        dn = np.diff(fine) < -1e-6 * np.abs(fine[1:]) - 1e-15 / (d * 1e-3)
        if dn.any():
            i = int(np.flatnonzero(dn)[0])
            ctx.violation(f"rate:monotone:{which}", f"rate falls from {fine[i]!r} at chi={chi[i]!r} to {fine[i + 1]!r} at chi={chi[i + 1]!r}")
            return
        # shares
        last = np.zeros(len(chi))
        for r in RS:
            case = dict(which=which, rand=r)
            ctx.case(case)
            R.v = r
            q.chi[:] = chi
            q.tau[:] = 1e-300
            q.inv_gamma[:] = 1.0
            try:
                with Watch(30):
                    mod.event(1.0)
            except TimeoutError:
                ctx.violation(f"share:endless:{which}", f"random number {r!r}: a lookup does not end")
                return
            ctx.add("transitions", len(chi))
            ctx.state(which, r)
            ev, de = q.event.copy(), q.delta.copy()
            low = chi < 1e-3
            if ev[low].any():
                ctx.violation(f"event:below:{which}", f"event below the threshold at chi={chi[low & ev][0]!r}")
                return
            if which == "e" and not ev[~low].all():
                ctx.violation(f"event:missing:{which}", f"no event at chi={chi[~low & ~ev][0]!r} though the depth is used up")
                return
            if (de[~ev] != 0).any():
                ctx.violation(f"share:noevent:{which}", "a share without an event")
                return
            bad = ev & ~((de > 0) & (de <= 1))
            if bad.any():
                ctx.violation(f"share:range:{which}", f"share {de[bad][0]!r} at chi={chi[bad][0]!r}, random number {r!r}")
                return
            dn = ev & (de < last * (1 - 1e-12))
            if dn.any():
                i = int(np.flatnonzero(dn)[0])
                ctx.violation(f"share:monotone:{which}", f"chi={chi[i]!r}: share {de[i]!r} at random number {r!r} is below {last[i]!r} at a smaller one")
                return
            last = np.where(ev, de, last)
            tau = q.tau[ev]
            if not (np.isfinite(tau).all() and (tau >= 0).all()):
                ctx.violation(f"tau:{which}", f"optical depth after an event {tau[~np.isfinite(tau)][:1]}")
                return
        ctx.sample(case)
    finally:
        R.close()


def published(which, chi):
    """rate per unit (time/gamma): quantum synchrotron emission and Breit-Wheeler, K-Bessel form"""
    from scipy.constants import alpha, c, hbar, m_e
    from scipy.integrate import quad
    from scipy.special import kv
    if which == "e":
        # dN/dt = alpha m c^2/(sqrt3 pi hbar gamma) int_0^1 [ (xi+1/xi... ) K_{2/3}(y) - int_y^inf K_{1/3} ] df
        def f(s):
            d = s ** 3              # removes the d^(-2/3) singularity
            y = 2 * d / (3 * chi * (1 - d))
            if y > 600:
                return 0.0
            k = (1 - d + 1 / (1 - d)) * kv(2 / 3, y) - quad(lambda t: kv(1 / 3, t), y, y + 60, limit=200)[0]
            return k * 3 * s ** 2
        v = quad(f, 0, 1, limit=300, epsrel=1e-6)[0]
        return alpha * m_e * c ** 2 / hbar / (np.sqrt(3) * np.pi) * v

    def g(d):
        y = 2 / (3 * chi * d * (1 - d))
        if y > 600:
            return 0.0
        return ((1 - d) / d + d / (1 - d)) * kv(2 / 3, y) + quad(lambda t: kv(1 / 3, t), y, y + 60, limit=200)[0]
    v = quad(g, 0, 1, limit=300, epsrel=1e-6)[0]
    return alpha * m_e * c ** 2 / hbar / (np.sqrt(3) * np.pi) * v


def exact(ctx, which, part):
    """random numbers that land exactly on a tabulated share"""
    od = boot()
    s, q, mod = rig(which, 1)
    tabs = [v for v in vars(od).values() if isinstance(v, np.ndarray) and v.ndim == 2]
    assert len(tabs) >= 2
    R = Rand()
    try:
        k, K = part
        for T in tabs:
            n, m = T.shape
            node = 10.0 ** np.linspace(-3, 2, n)
            for row in range(k, n, K):
                t = np.asarray(T)[row]
                if not np.isfinite(t).all():
                    t = np.zeros(m)
                span = t[-1] - t[0]
                if span <= 0:
                    cand = {0.0, 0.5}
                else:
                    j = np.unique(np.concatenate([np.arange(0, m, 7), np.arange(m - 3, m), np.arange(3)]))
                    cand = set()
                    for v in t[j]:
                        r = (v - t[0]) / span
                        for x in (r, np.nextafter(r, 0), np.nextafter(r, 1)):
                            if 0 <= x < 1:
                                cand.add(float(x))
                prev = 0.0
                ctx.case(dict(which=which, row=row, table=list(T.shape)))
                for r in sorted(cand):
                    R.v = r
                    q.chi[:] = node[row]
                    q.tau[:] = 1e-300
                    q.inv_gamma[:] = 1.0
                    q.is_dead[:] = False
                    try:
                        with Watch(5):
                            mod.event(1.0)
                    except TimeoutError:
                        ctx.violation(f"share:endless:{which}", f"chi={node[row]!r}, random number {r!r} hits a tabulated value: the lookup does not end", dict(row=row, r=r))
                        return
                    ctx.add("transitions")
                    if q.event[0]:
                        d = q.delta[0]
                        if not 0 < d <= 1 or d < prev * (1 - 1e-12):
                            ctx.violation(f"share:exact:{which}", f"chi={node[row]!r}, random number {r!r}: share {d!r} (previous {prev!r})")
                            return
                        prev = d
                    ctx.state(which, row, r, m)
    finally:
        R.close()


def books(ctx, which):
    """optical-depth bookkeeping per slot: dead / unset / zero / pending / due x chi kinds, every combination in pairs"""
    od = boot()
    kinds = list(itertools.product(("dead", "live"), (np.nan, 0.0, 1e-12, 1e-6, 1e-4, 3e-3, 0.02, 0.1, 0.5, 1.0, 5.0, 40.0), (0.0, 9e-4, 1e-3, 0.3, 50.0, 300.0), (True, False)))
    s, q, mod = rig(which, len(kinds))
    R = Rand()
    try:
        for order in (range(len(kinds)), range(len(kinds) - 1, -1, -1)):
            for r in (0.0, 1e-10, 1e-5, 5e-4, 0.01, 0.3, 0.999):
                ctx.case(dict(which=which, r=r))
                R.v = r
                idx = list(order)
                for slot, k in enumerate(idx):
                    dead, tau, chi, stale = kinds[k]
                    q.is_dead[slot] = dead == "dead"
                    q.tau[slot], q.chi[slot] = tau, chi
                    q.event[slot], q.delta[slot] = stale, 0.7 * stale
                q.inv_gamma[:] = 0.25
                dt = 1e-17
                with Watch(20):
                    mod.event(dt)
                t0 = -np.log(1 - r)
                ctx.add("transitions", len(kinds))
                # rates measured separately
                tau2 = q.tau.copy()
                ev2, de2 = q.event.copy(), q.delta.copy()
                for slot, k in enumerate(idx):
                    dead, tau, chi, _ = kinds[k]
                    what = f"{kinds[k]} (dead, depth, chi, stale event), random number {r}"
                    ctx.state(which, r, k)
                    if dead == "dead" or chi < 1e-3:
                        if ev2[slot] or de2[slot] != 0:
                            ctx.violation(f"books:spurious:{which}", f"{what}: event {ev2[slot]} share {de2[slot]}")
                            return
                        if not (tau2[slot] == tau or (np.isnan(tau) and np.isnan(tau2[slot]))):
                            ctx.violation(f"books:depth:{which}", f"{what}: the optical depth changed to {tau2[slot]}")
                            return
                        continue
                    t = t0 if (np.isnan(tau) or tau == 0) else tau
                    rate = rate_of(mod, q, s, chi, which, R)
                    left = t - rate * 0.25 * dt
                    if abs(left) > 1e-9:
                        if ev2[slot] != (left < 0):
                            ctx.violation(f"books:event:{which}", f"{what}: depth {t} consumed {rate * 0.25 * dt}: event {ev2[slot]}")
                            return
                    if not ev2[slot] and abs(tau2[slot] - left) > 1e-9 * max(1, t):
                        ctx.violation(f"books:left:{which}", f"{what}: depth left {tau2[slot]}, expected {left}")
                        return
                    if ev2[slot] and abs(tau2[slot] - t0) > 1e-12 * max(1, t0):
                        ctx.violation(f"books:reset:{which}", f"{what}: new depth {tau2[slot]}, expected {t0}")
                        return
    finally:
        R.close()


_cache = {}


def rate_of(mod, q, s, chi, which, R):
    if (which, chi) not in _cache:
        keep = {a: getattr(q, a).copy() for a in ("tau", "chi", "delta", "inv_gamma", "is_dead", "event")}
        q.is_dead[:] = False
        q.chi[:] = chi
        q.inv_gamma[:] = 1.0
        d = 1e-22
        q.tau[:] = 0.5
        mod.event(d)
        _cache[which, chi] = (0.5 - q.tau[0]) / d
        for a, v in keep.items():
            getattr(q, a)[:] = v
    return _cache[which, chi]


def chis(ctx, which, mags, amps):
    """the quantum parameter: all pairs of field and momentum directions, up to extreme energies"""
    boot()
    from fractions import Fraction
    from scipy.constants import c, e, hbar, m_e
    dirs = [t for t in itertools.product((-1.0, 0.0, 1.0, 0.31), repeat=3) if any(t)]
    fdirs = [t for t in itertools.product((-1.0, 0.0, 1.0), repeat=6) if any(t)][::(1 if ctx.tier == "thorough" else 7)]
    s, q, mod = rig(which, len(dirs))
    F = e * hbar / (m_e ** 2 * c ** 3)
    U = np.array(dirs)
    q.is_dead[:] = False
    for m in mags:
        u = U * m
        q.ux[:], q.uy[:], q.uz[:] = u.T
        q.inv_gamma[:] = 1 / np.sqrt((which == "e") + (u ** 2).sum(1))
        for amp in amps:
            for fd in fdirs:
                E, B = np.array(fd[:3]) * amp, np.array(fd[3:]) * amp / c
                for k, a in enumerate("xyz"):
                    getattr(q, f"e{a}_part")[:] = E[k]
                    getattr(q, f"b{a}_part")[:] = B[k]
                with np.errstate(all="ignore"):
                    mod.update_chi()
                got = q.chi.copy()
                ctx.add("transitions", len(dirs))
                if not np.isfinite(got).all() or (got < 0).any():
                    i = int(np.flatnonzero(~np.isfinite(got) | (got < 0))[0])
                    ctx.violation(f"chi:finite:{which}", f"u={tuple(u[i])}, E={tuple(E)}, B={tuple(B)}: chi = {got[i]!r}", dict(u=list(u[i]), fields=fd, amp=amp))
                    return
                g = np.sqrt((which == "e") + (u ** 2).sum(1))
                v = g[:, None] * E + np.cross(u, B) * c
                want = F * np.sqrt(np.maximum((v ** 2).sum(1) - (u @ E) ** 2, 0))
                # cancellation: compare against the size of the cancelling terms
                ab = np.abs(u)
                av = g[:, None] * np.abs(E) + c * np.stack([ab[:, 1] * abs(B[2]) + ab[:, 2] * abs(B[1]), ab[:, 2] * abs(B[0]) + ab[:, 0] * abs(B[2]), ab[:, 0] * abs(B[1]) + ab[:, 1] * abs(B[0])], 1)
                sz = F * np.sqrt((av ** 2).sum(1) + (ab @ np.abs(E)) ** 2)
                bad = np.abs(got ** 2 - want ** 2) > 1e-12 * sz ** 2 + 1e-300
                if bad.any():
                    i = int(np.flatnonzero(bad)[0])
                    ctx.violation(f"chi:value:{which}", f"u={tuple(u[i])}, E={tuple(E)}, B={tuple(B)}: chi = {got[i]!r}, expected {want[i]!r}")
                    return
            ctx.case(dict(which=which, m=m, amp=amp))
            ctx.state(which, m, amp)
    ctx.sample(dict(which=which, u=list(u[3]), E=list(E), B=list(B)))


def wild(ctx, which):
    """whole event step from fields and momenta (nothing forced but the random number), extreme cases included"""
    boot()
    dirs = [t for t in itertools.product((-1.0, 0.0, 1.0), repeat=3) if any(t)]
    s, q, mod = rig(which, len(dirs))
    R = Rand()
    q.is_dead[:] = False
    try:
        for m, amp, fd in itertools.product((1e-3, 1.0, 1e3, 1e6, 1e9), (0.0, 1e10, 1e15, 1e18, 1e21), dirs):
            u = np.array(dirs) * m
            q.ux[:], q.uy[:], q.uz[:] = u.T
            q.inv_gamma[:] = 1 / np.sqrt((which == "e") + (u ** 2).sum(1))
            for k, a in enumerate("xyz"):
                getattr(q, f"e{a}_part")[:] = fd[k] * amp
                getattr(q, f"b{a}_part")[:] = fd[(k + 1) % 3] * amp / lp.C
            q.tau[:] = np.nan
            R.v = 0.25
            ctx.case(dict(which=which, m=m, amp=amp, fd=fd))
            ctx.state(which, m, amp, fd)
            ctx.add("transitions", len(dirs))
            try:
                with Watch(20), np.errstate(all="ignore"):
                    mod.update_chi()
                    mod.event(1e-16)
            except TimeoutError:
                ctx.violation(f"wild:endless:{which}", f"u~{m} E~{amp} {fd}: the event step does not end")
                return
            ev = q.event
            if not np.isfinite(q.delta).all() or (q.delta < 0).any() or (q.delta > 1).any() or np.isnan(q.tau[q.chi >= 1e-3]).any():
                ctx.violation(f"wild:value:{which}", f"u~{m} E~{amp} {fd}: shares {q.delta[ev][:4]}, depths {q.tau[:4]}")
                return
    finally:
        R.close()


def sigmoid(ctx, which):
    sweep(ctx, which)
    exact(ctx, which, (0, 5 if ctx.tier == "quick" else 1))
    wild(ctx, which)


def jobs(tier, seed):
    from vlib import jitjob
    th = tier == "thorough"
    J = []
    for w in "eg":
        J.append((f"sweep-{w}", sweep, dict(which=w)))
        for k in range(2):
            J.append((f"exact-{w}-{k}", exact, dict(which=w, part=(k, 2) if th else (k * 9, 18))))
        J.append((f"books-{w}", books, dict(which=w)))
        J.append((f"chi-{w}", chis, dict(which=w, mags=(1e-3, 1.0, 37.0, 1e3, 1e6, 1e9), amps=(1e5, 1e13, 3e17))))
        J.append((f"wild-{w}", wild, dict(which=w)))
        J.append((f"sigmoid-{w}", jitjob.jit, dict(target="harness.q02:sigmoid", args=dict(which=w), env={"LAMBDAPIC_USE_SIGMOID_SAMPLING": "1"}, compiled=False)))
    return J


COVERAGE = "see NOTE"
