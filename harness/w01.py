"""W01: the moving window shifts the frame and nothing else."""
import itertools

import numpy as np

from harness import m08

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of window velocity / start-time / injection / ownership histories on the real callback and main loop, every shift compared bitwise with the state before it and with an absolute-coordinate oracle, every step with exact ballistic motion and charge, and whole runs with a large static box"
NOTE = "All histories over per-step velocities {0, +-fast, slow} to depth 5-6, start times, injection on/off/stopped, with rebalancing between shifts, 1-3 processes, 2D/3D, open and periodic sides."
ASSUMPTIONS = ["random positions of new plasma within its cell are not predicted", "MPI is simulated", "|velocity| below one patch per step"]
EMJ = m08.EMJ


def boot():
    global lp, simmpi, cbk, MW
    m08.boot()
    lp, simmpi = m08.lp, m08.simmpi
    from lambdapic import callback as cb
    from lambdapic.callback.utils import MovingWindow
    cbk, MW = cb, MovingWindow


def density(kind, dim, d):
    """cell-wise density as a function of coordinates; steps in the middle of cells' gaps"""
    tiny = 1e9
    if kind is None:
        return None
    if dim == 2:
        if kind == "flat":
            return lambda x, y: tiny
        dx = d[0]
        return lambda x, y: tiny if x > 5.5 * dx and int(x / dx + 0.25) % 3 else 0.0
    if kind == "flat":
        return lambda x, y, z: tiny
    dx = d[0]
    return lambda x, y, z: tiny if x > 5.5 * dx and int(x / dx + 0.25) % 3 else 0.0


def pstate(sim):
    """everything the patches own, keyed by absolute column and transverse grid place"""
    st = m08.state_of(sim)
    out = {}
    nper = lp.cells(sim)[2]
    for p in sim.patches:
        c = lp.ipatch_of(sim, p)
        col = int(round(p.x0 / (nper[0] * sim.dx)))
        d = {k: v for k, v in st[c].items() if k != "neighbor_index"}
        out[(col,) + c[1:]] = d
    return out


class Run:
    """one simulation with a window on `size` processes"""

    def __init__(self, dim, npatch, nper, per, size, ranks, vel, kw, dens=(None, None, None), chain=None, mode="eager", chooser=None, push=True, fields=0.0):
        self.__dict__.update(locals())
        self.n = tuple(a * b for a, b in zip(npatch, nper))
        self.d = (0.1e-6, 0.07e-6, 0.09e-6)[:dim]
        self.err = [None] * size
        self.shift = 0
        self.steps = len(vel)
        self.start = kw.get('start_time', self.n[0] * self.d[0] / lp.C)

    def expected_shift(self, dt):
        """window position from the integrated velocity: (shifts after each step)"""
        out, acc, s = [], 1.0, 0
        Lp = self.nper[0] * self.d[0]
        for i, v in enumerate(self.vel):
            if i * dt >= self.start - 1e-9 * dt:
                acc += v * dt / Lp
                if acc >= 1 - 1e-12:
                    acc -= 1
                    s += 1
                elif acc <= -1 + 1e-12:
                    acc += 1
                    s -= 1
            out.append(s)
        return out

    def go(self):
        dim, npatch, nper, per, d = self.dim, self.npatch, self.nper, self.per, self.d
        ax = "xyz"[:dim]
        P = lp.partition()
        P.queue = [list(self.ranks)] + [list(c) for c in (self.chain or []) if c is not None]
        holder = [None] * self.size
        self.holder = holder

        def build(r):
            sp = [lp.Electron(density=density(self.dens[0], dim, d), ppc=2), lp.Proton(density=density(self.dens[1], dim, d), ppc=1), lp.Photon(density=density(self.dens[2], dim, d), ppc=1)]
            s = lp.make_sim(dim, self.n, npatch, per, d=d, ng=2, cpml=2, species=sp)
            holder[r] = s
            s.initialize()
            amp = self.fields
            funcs = {a: (lambda *i, k=k: amp * (1 if k < 3 else 1 / lp.C) * ((sum((3 + k + j) * x for j, x in enumerate(i)) % 7) - 3)) for k, a in enumerate(EMJ[:6])}
            if amp:
                lp.set_fields_from(s, funcs)
            for p in s.patches:
                k = int(np.ravel_multi_index(lp.ipatch_of(s, p), npatch))
                for z in p.pml_boundary:
                    for nm, v in vars(z).items():
                        if nm.startswith("psi") and isinstance(v, np.ndarray):
                            v[...] = 0.01 * amp * (k + 1)
                for isp, q in enumerate(p.particles):
                    cnt = 2 + (k + isp) % 2
                    q.initialize(cnt + isp)
                    for i in range(cnt):
                        t = 1 + 7 * k + 3 * i + 29 * isp
                        for j, a in enumerate(ax):
                            lo, hi = 0.0, nper[j] - 1.0
                            if per[j] == "o" and j and lp.ipatch_of(s, p)[j] == 0:
                                lo = 2.6
                            if per[j] == "o" and j and lp.ipatch_of(s, p)[j] == npatch[j] - 1:
                                hi -= 2.6
                            getattr(q, a)[i] = getattr(p, a + "0") + d[j] * (lo + ((0.37 * t + 0.2 * j) % 1) * (hi - lo))
                        q.ux[i], q.uy[i], q.uz[i] = [0.3 * ((t * z) % 11 - 5.1) for z in (3, 5, 2)]
                        if isp == 2 and q.ux[i] == 0:
                            q.ux[i] = 1
                        q.inv_gamma[i] = 1 / np.sqrt((isp != 2) + q.ux[i] ** 2 + q.uy[i] ** 2 + q.uz[i] ** 2)
                        q.w[i] = 1e-3 * (1 + t / 512)
                    q.is_dead[cnt:] = True
                    q.extended = True
            s.update_lists()
            it = [0]
            dt = s.dt
            exp = self.expected_shift(dt)
            self.exp = exp
            kw = dict(self.kw)
            if "start_time" in kw:
                kw["start_time"] = kw["start_time"] - 1e-9 * dt if kw["start_time"] else 0.0
            if "stop_inject_time" in kw:
                kw["stop_inject_time"] = kw["stop_inject_time"] - 1e-9 * dt
            mw = MW(velocity=lambda t: self.vel[min(it[0], self.steps - 1)], **kw)
            before = {}
            moved = {}

            def pre(sim):
                before["state"] = pstate(sim)

            def post(sim):
                i = it[0]
                e = self.check_shift(sim, before["state"], exp[i], exp[i] - (exp[i - 1] if i else 0), i * dt)
                sim.mpi.comm.Barrier()
                if r == 0 and not e:
                    t = lp.topology_errors(holder, per, npatch) + lp.geometry_errors(holder, npatch, shift=exp[i])
                    if t:
                        e = ("topology", t[0])
                sim.mpi.comm.Barrier()
                if e and not self.err[r]:
                    self.err[r] = (e[0], f"step {i}: {e[1]}")
                if self.push:
                    # give everything that is alive a momentum, so that whatever the step forgets shows
                    for p in sim.patches:
                        for isp, q in enumerate(p.particles):
                            al = np.flatnonzero(~q.is_dead)
                            q.ux[al] += 0.1
                            q.inv_gamma[al] = 1 / np.sqrt((isp != 2) + q.ux[al] ** 2 + q.uy[al] ** 2 + q.uz[al] ** 2)
                    moved["rows"] = self.rows(sim)
                    moved["charge"] = self.charge(sim)

            def depo(sim):
                pass

            def end(sim):
                if self.push:
                    e = self.check_motion(sim, moved["rows"], dt)
                    if e and not self.err[r]:
                        self.err[r] = (e[0], f"step {it[0]}: {e[1]}")
            for i in range(self.steps):
                it[0] = i
                s.load_balancer.threshold = -1.0 if self.chain and self.chain[i] is not None else np.inf
                s.run(nsteps=1, callbacks=[cbk("start")(pre), mw, cbk("start")(post), cbk("end")(end)])
                if self.push and not self.err[r]:
                    self.final[r].append((moved["rows"], self.rows(s), self.rho(s)))
            return s
        self.final = [[] for _ in range(self.size)]
        w = simmpi.World(self.size, simmpi.MODES[self.mode], self.chooser)
        w.run(build)
        return w

    def rows(self, sim):
        ax = "xyz"[:self.dim]
        out = {}
        for s in range(3):
            out[s] = {}
            for p in sim.patches:
                q = p.particles[s]
                for i in np.flatnonzero(~q.is_dead):
                    out[s][int(q.id[i])] = [getattr(q, a)[i] for a in ax] + [q.ux[i], q.uy[i], q.uz[i], q.inv_gamma[i], q.w[i]]
        return out

    def charge(self, sim):
        return None

    def rho(self, sim):
        """interior charge of this rank's patches"""
        return float(sum(lp.interior(sim, p, p.fields.rho).sum() for p in sim.patches)) * float(np.prod(self.d))

    def check_shift(self, sim, old, shift, moved, t):
        """state right after the window callback against the state before (this rank's patches)"""
        new = pstate(sim)
        ncol = self.npatch[0]
        for c, st in new.items():
            if not shift <= c[0] < shift + ncol:
                return "place", f"patch column {c[0]}, the window covers {shift}..{shift + ncol - 1}"
            if c in old:
                o = old[c]
                for k in o:
                    if k in ("x0", "y0", "z0", "xmin", "xmax", "ymin", "ymax", "zmin", "zmax", "fields.x0", "fields.y0", "fields.z0"):
                        if k != "xmin" and k != "xmax" and abs(float(o[k]) - float(st[k])) > 1e-9 * self.d[0]:
                            return "survivor", f"patch {c}: {k} changed"
                        continue
                    if k.split(".")[0].startswith("PMLX"):
                        continue
                    if k not in st or not np.array_equal(o[k], st[k], equal_nan=o[k].dtype == float):
                        return "survivor", f"patch {c}: {k} changed although the patch stays in the window"
                extra = [k for k in st if k not in o]
                if extra:
                    return "survivor", f"patch {c}: {extra[0]} appeared"
            else:
                e = self.check_new(c, st, t)
                if e:
                    return e
        if moved == 0 and set(new) != set(old):
            return "place", "the window moved without reason"
        if any(k.split(".")[0].startswith("PMLX") for st in new.values() for k in st) and t >= self.start - 1e-9 * sim.dt:
            return "pml", "an absorbing layer in x is left after the window started"
        return None

    def check_new(self, c, st, t):
        for k, v in st.items():
            if (k.split(".")[-1].startswith("psi") or k in ["fields." + a for a in EMJ]) and np.any(v != 0):
                return "newfield", f"new patch {c}: {k} is not zero"
        inj = self.kw.get("inject_particles", True) and not (self.kw.get("stop_inject_time") is not None and t >= self.kw["stop_inject_time"] * (1 - 1e-9))
        d, nper = self.d, self.nper
        ax = "xyz"[:self.dim]
        for s, ppc in ((0, 2), (1, 1), (2, 1)):
            f = density(self.dens[s], self.dim, d) if inj else None
            want = {}
            if f is not None:
                for off in itertools.product(*[range(k) for k in nper]):
                    g = tuple(o + k * m for o, k, m in zip(off, c, nper))
                    den = f(*[x * h for x, h in zip(g, d)])
                    if den > 0:
                        want[g] = (ppc, den * float(np.prod(d)))
            al = slice(None)
            X = np.column_stack([st[f"particles{s}.{a}"] for a in ax])
            w = st[f"particles{s}.w"]
            if not len(X) and not want:
                continue
            g = np.floor(X / np.array(d) + 0.5).astype(int)
            got = {}
            for row, ww in zip(g, w):
                a, b = got.get(tuple(int(x) for x in row), (0, 0.0))
                got[tuple(int(x) for x in row)] = (a + 1, b + ww)
            if set(got) != set(want) or any(got[k][0] != want[k][0] or abs(got[k][1] - want[k][1]) > 1e-9 * want[k][1] for k in want):
                bad = [k for k in set(got) | set(want) if got.get(k) is None or want.get(k) is None or got[k][0] != want[k][0] or abs(got[k][1] - want[k][1]) > 1e-9 * want[k][1]]
                return "plasma", f"new patch {c}: cell {bad[0]} holds (number, weight) = {got.get(bad[0])}, expected {want.get(bad[0])} of species {s}"
            for k in ("ux", "uy", "uz"):
                if np.any(st[f"particles{s}.{k}"] != 0):
                    return "plasma", f"new patch {c}: new particles of species {s} move"
            if np.any(st[f"particles{s}.inv_gamma"] != 1):
                return "plasma", f"new patch {c}: new particles of species {s} have inv_gamma != 1"
        return None

    def check_motion(self, sim, rows, dt):
        return None

    def judge(self):
        """motion over all ranks, charge"""
        for r in range(self.size):
            if self.err[r]:
                return self.err[r]
        dim = self.dim
        q = {0: -1.602176634e-19, 1: 1.602176634e-19, 2: 0.0}
        if not self.push:
            return None
        for i in range(self.steps):
            dt = self.holder[0].dt
            lo = [-0.5 * h for h in self.d]
            hi = [(m - 0.5) * h for m, h in zip(self.n, self.d)]
            sh = self.exp[i] * self.nper[0] * self.d[0]
            lo[0] += sh
            hi[0] += sh
            a = [{}, {}, {}]
            b = [{}, {}, {}]
            for r in range(self.size):
                for s in range(3):
                    a[s].update(self.final[r][i][0][s])
                    b[s].update(self.final[r][i][1][s])
            Q = 0.0
            edge = 0.0
            for s in range(3):
                for k, row in a[s].items():
                    ig = row[dim + 3]
                    x1 = [row[j] + lp.C * row[dim + j] * ig * dt for j in range(dim)]
                    margin = 1e-6
                    inside, outside = True, False
                    for j in range(dim):
                        L = hi[j] - lo[j]
                        started = i * dt >= self.start - 1e-9 * dt
                        m = 2 * self.d[j] if self.per[j] == "o" and (j or not started) else 0.0
                        if self.per[j] == "p":
                            continue
                        if x1[j] < lo[j] + m + margin * self.d[j] or x1[j] > hi[j] - m - margin * self.d[j]:
                            inside = False
                        if x1[j] < lo[j] + m - margin * self.d[j] or x1[j] > hi[j] - m + margin * self.d[j]:
                            outside = True
                    if inside and k not in b[s]:
                        return "lost", f"step {i}: particle of species {s} at {row[:dim]} -> {x1} vanished"
                    if outside and k in b[s]:
                        return "stray", f"step {i}: particle of species {s} at {row[:dim]} -> {x1} left the window and is still alive"
                    far = all(self.per[j] == "p" or lo[j] + 3.5 * self.d[j] < min(row[j], x1[j]) and max(row[j], x1[j]) < hi[j] - 3.5 * self.d[j] for j in range(dim))
                    if far:
                        Q += q[s] * row[-1]
                    else:
                        edge += abs(q[s]) * row[-1]
                    if k not in b[s]:
                        continue
                    y = b[s][k]
                    for j in range(dim):
                        e = y[j] - x1[j]
                        if self.per[j] == "p":
                            L = hi[j] - lo[j]
                            e -= round(e / L) * L
                        if abs(e) > 1e-6 * self.d[j]:
                            return "motion", f"step {i}: particle of species {s} at {row[:dim]} should be at {x1}, is at {y[:dim]}"
                for k in b[s]:
                    if k not in a[s]:
                        return "ghost", f"step {i}: a particle of species {s} appeared during the step at {b[s][k][:dim]}"
            rho = sum(self.final[r][i][2] for r in range(self.size))
            if not abs(rho - Q) <= edge + 1e-9 * (abs(Q) + edge):
                return "charge", f"step {i}: deposited charge {rho!r}, particles away from the edges carry {Q!r} (those near the edges {edge!r})"
        return None


def histories(ctx, dim, npatch, nper, per, size, ranks, speeds, depth, kws, dens, chains=(None,), modes=("eager",), perms=(None,), part=(0, 1), stride=1, fields=0.0):
    boot()
    k, K = part
    i = -1
    for vs in itertools.product(speeds, repeat=depth):
        for kw in kws:
            for dn in dens:
                for chain in chains:
                    i += 1
                    if i % K != k or (i // K) % stride:
                        continue
                    for mode in modes:
                        for perm in perms:
                            dt1 = None
                            d = (0.1e-6, 0.07e-6, 0.09e-6)[:dim]
                            dt = 0.95 / (lp.C * np.sqrt(sum(1 / h ** 2 for h in d)))
                            vel = [v * nper[0] * d[0] / dt for v in vs]
                            k2 = {a: (b * dt if a.endswith("time") else b) for a, b in kw.items()}
                            case = dict(dim=dim, npatch=npatch, per=per, size=size, ranks=ranks, speeds=vs, kw=kw, density=dn, chain=chain, mode=mode, perm=perm)
                            ctx.case(case)
                            ctx.state(case)
                            ctx.add("traces")
                            ctx.add("transitions", depth)
                            R = Run(dim, npatch, nper, per, size, ranks, vel, k2, dn, chain, mode, simmpi.Chooser(order=perm, rr=perm is None) if size > 1 else None, push=not fields, fields=fields)
                            w = R.go()
                            if not w.ok():
                                ctx.violation(f"run:{dim}d:{size}", f"{case}: {w.report()}", case)
                                return
                            e = R.judge()
                            if e:
                                ctx.violation(f"{e[0]}:{dim}d", f"{case}: {e[1]}", case)
                                return
    ctx.sample(case)


def static_box(ctx, dim, npatch, nper, per, size, ranks, steps, ext, v=1.0, mode="eager"):
    """a pulse and particles in the leading half: windowed run against a large static box (compared where the trailing
    edge cannot have any influence)"""
    boot()
    d = (0.1e-6, 0.07e-6, 0.09e-6)[:dim]
    n = tuple(a * b for a, b in zip(npatch, nper))
    ax = "xyz"[:dim]
    cx = n[0] * 0.62

    def build(win, r, store):
        np2 = npatch if win else (npatch[0] + ext,) + tuple(npatch[1:])
        nn = tuple(a * b for a, b in zip(np2, nper))
        s = lp.make_sim(dim, nn, np2, per, d=d, ng=3, cpml=3, species=[lp.Electron(), lp.Proton()])
        s.initialize()
        pulse = lambda k: (lambda *i: 1e12 * (1 if k < 3 else 1 / lp.C) * np.exp(-((i[0] - cx) / 1.5) ** 2) * np.cos(0.9 * i[0] + k) * (1 + 0.3 * np.sin(2 * np.pi * i[1] / n[1] + k) if per[1] == "p" else np.exp(-((i[1] - n[1] / 2) / 2.5) ** 2)))
        lp.set_fields_from(s, {a: pulse(k) for k, a in enumerate(EMJ[:6])})
        parts = [{a: (cx + 3 * np.sin(3.0 * k) if j == 0 else n[j] / 2 + (n[j] / 2 - 4.5 if per[j] == "o" else n[j] / 2 - 0.6) * np.sin(1.7 * k + j)) * d[j] for j, a in enumerate(ax)} | dict(ux=2 + np.sin(k), uy=np.cos(k), uz=0.3, w=(1e9 if dim == 2 else 50) * (1 + k / 64)) for k in range(12)]
        for isp in range(2):
            for p in s.patches:
                mine = [q for q in parts[isp::2] if lp.home_patch(s, [q[a] for a in ax]) == lp.ipatch_of(s, p)]
                q = p.particles[isp]
                q.initialize(len(mine))
                for a in tuple(ax) + ("ux", "uy", "uz", "w"):
                    getattr(q, a)[:] = [m[a] for m in mine]
                q.inv_gamma[:] = 1 / np.sqrt(1 + q.ux ** 2 + q.uy ** 2 + q.uz ** 2)
                q.extended = True
        s.update_lists()
        mw = [MW(velocity=v * lp.C, start_time=0.0)] if win else []

        def end(sim):
            st = {}
            for p in sim.patches:
                col = int(round(p.x0 / (nper[0] * d[0])))
                for a in EMJ:
                    st[(col,) + lp.ipatch_of(sim, p)[1:], a] = lp.interior(sim, p, getattr(p.fields, a)).copy()
            rows = [np.concatenate([np.column_stack([getattr(p.particles[k], a)[~p.particles[k].is_dead] for a in ("w",) + tuple(ax) + ("ux", "uy", "uz")]) for p in sim.patches]) for k in range(2)]
            store.append((st, rows))
        for i in range(steps):
            s.run(nsteps=1, callbacks=mw + [cbk("end")(end)])
        return s
    case = dict(dim=dim, npatch=npatch, per=per, size=size, ranks=ranks, steps=steps, v=v, mode=mode)
    ctx.case(case)
    ref = []
    lp.partition().queue = []
    w = simmpi.World(1, simmpi.MODES["eager"], None)
    w.run(lambda r: build(False, r, ref))
    if not w.ok():
        raise RuntimeError(w.report())
    got = [[] for _ in range(size)]
    lp.partition().queue = [list(ranks)]
    w = simmpi.World(size, simmpi.MODES[mode], simmpi.Chooser(rr=True) if size > 1 else None)
    w.run(lambda r: build(True, r, got[r]))
    ctx.add("transitions", steps)
    ctx.add("traces")
    ctx.state(case)
    if not w.ok():
        ctx.violation(f"run:{dim}d:{size}", f"{case}: {w.report()}", case)
        return
    cols = 0
    for i in range(steps):
        R, PR = ref[i]
        G = {}
        for r in range(size):
            G.update(got[r][i][0])
        left = min(c[0] for c, a in G) * nper[0]
        for grp in (EMJ[:3], EMJ[3:6], EMJ[6:9], EMJ[9:]):
            sc = max(np.abs(R[k]).max() for k in R if k[1] in grp)
            for (c, a), vv in G.items():
                if a not in grp:
                    continue
                if (c, a) not in R:
                    # beyond the static box
                    raise RuntimeError("static box too small")
                gx = c[0] * nper[0] + np.arange(nper[0])
                ok = gx > left + 4 + 1.3 * i
                e = np.abs(vv - R[c, a])[ok]
                cols += int(ok.sum())
                if e.size and e.max() > 1e-6 * sc:
                    ctx.violation(f"static:{a}:{dim}d", f"{case}: step {i}: {a} in patch column {c} differs from the static box by {e.max():.3e} (scale {sc:.3e})", case)
                    return
        for k in range(2):
            t = np.concatenate([got[r][i][1][k] for r in range(size)])
            t = t[np.argsort(t[:, 0])]
            u = PR[k][np.argsort(PR[k][:, 0])]
            if t.shape != u.shape or np.abs(t - u)[:, 1:1 + dim].max() > 1e-6 * d[0] or np.abs(t - u)[:, 1 + dim:].max() > 1e-6:
                ctx.violation(f"static:particles:{dim}d", f"{case}: step {i}: particles differ from the static box", case)
                return
    if cols < 100:
        raise RuntimeError("nothing compared")
    ctx.sample(case)


def compiled(ctx, dim):
    np_, nper = ((4, 2), (5, 5)) if dim == 2 else ((3, 1, 1), (4, 4, 4))
    per = "o" + "p" * (dim - 1)
    for sp in ((0.7, 0.7, 0.7), (-0.9, -0.9, -0.93)):
        histories(ctx, dim, np_, nper, per, 1, (0,) * int(np.prod(np_)), sp[:1], 3 if sp[0] > 0 else 5, ({'start_time': 0.0},), (("flat", "step", None), (None, None, "flat")))
        histories(ctx, dim, np_, nper, per, 2, tuple(k % 2 for k in range(int(np.prod(np_)))), sp[:1], 3 if sp[0] > 0 else 5, ({'start_time': 0.0},), (("flat", None, None),))


def jobs(tier, seed):
    from vlib import jitjob
    th = tier == "thorough"
    J = []
    S0 = {"start_time": 0.0}
    KW = (S0, {"start_time": 1.0}, dict(S0, inject_particles=False), dict(S0, stop_inject_time=2.0), {"start_time": 2.0, "stop_inject_time": 3.0})
    DN = (("flat", "step", None), (None, "flat", "step"))
    for dim in (2, 3):
        np_, nper = ((4, 2), (5, 5)) if dim == 2 else ((3, 1, 1), (4, 5, 5))
        N = int(np.prod(np_))
        J.append((f"compiled-{dim}d", jitjob.jit, dict(target="harness.w01:compiled", args=dict(dim=dim), threads=2)))
        for per in ("o" + "p" * (dim - 1), "oo" + "p" * (dim - 2)) if dim == 2 else ("opp",):
            K = 6 if th else 2
            for k in range(K):
                J.append((f"solo-{dim}d-{per}-{k}", histories, dict(dim=dim, npatch=np_, nper=nper, per=per, size=1, ranks=(0,) * N, speeds=(0.0, 0.7, -0.93), depth=4 if th else 3, kws=KW, dens=DN, part=(k, K), stride=1 if th else (3 if dim == 2 else 13))))
            J.append((f"fields-{dim}d-{per}", histories, dict(dim=dim, npatch=np_, nper=nper, per=per, size=1, ranks=(0,) * N, speeds=(0.0, 0.7, -0.93), depth=4, kws=(S0, {"start_time": 1.0}), dens=(("flat", None, None),), stride=1 if th else (5 if dim == 2 else 17), fields=1e5)))
            two = tuple(k % 2 for k in range(N))
            chains = (None, (None, tuple(1 - t for t in two), None, two), ((1,) * (N - 1) + (0,), two, None, (0,) + (1,) * (N - 1)))
            J.append((f"two-{dim}d-{per}", histories, dict(dim=dim, npatch=np_, nper=nper, per=per, size=2, ranks=two, speeds=(0.0, 0.7, -0.93), depth=4, kws=(S0, {"start_time": 1.0}), dens=(("flat", None, None),), chains=chains, stride=1 if th else (23 if dim == 2 else 53))))
            J.append((f"twof-{dim}d-{per}", histories, dict(dim=dim, npatch=np_, nper=nper, per=per, size=2, ranks=(0,) * (N // 2) + (1,) * (N - N // 2), speeds=(0.7, -0.93), depth=4, kws=(S0,), dens=(("flat", None, None),), chains=chains, stride=1 if th else (5 if dim == 2 else 11), fields=1e5, modes=("eager", "late"))))
            J.append((f"three-{dim}d-{per}", histories, dict(dim=dim, npatch=np_, nper=nper, per=per, size=3, ranks=tuple(k % 3 for k in range(N)), speeds=(0.7, -0.93), depth=4, kws=(S0,), dens=(("flat", None, None),), stride=1 if th else 6, perms=(None, (2, 0, 1)))))
        J.append((f"default-{dim}d", histories, dict(dim=dim, npatch=np_, nper=nper, per="o" + "p" * (dim - 1), size=1, ranks=(0,) * N, speeds=(0.51,), depth=36, kws=({}, {"inject_particles": False}), dens=(("flat", None, None),))))
        J.append((f"depth6-{dim}d", histories, dict(dim=dim, npatch=np_, nper=nper, per="o" + "p" * (dim - 1), size=1, ranks=(0,) * N, speeds=(0.31, 0.87, -0.93), depth=6, kws=(S0,), dens=((None, "flat", None),), stride=5 if th else (41 if dim == 2 else 97))))
        for per in (("op", "oo") if dim == 2 else ("opp", "oop")):
            nb = (6, 2) if dim == 2 else (5, 1, 1)
            for size in ((1, 2, 3) if th else (1, 2)):
                rk = tuple((k * size) // int(np.prod(nb)) for k in range(int(np.prod(nb))))
                for v in ((1.0, 0.6) if th else (1.0,)):
                    J.append((f"static-{dim}d-{per}-{size}-{v}", static_box, dict(dim=dim, npatch=nb, nper=(6, 7) if dim == 2 else (6, 9, 6), per=per, size=size, ranks=rk, steps=14 if dim == 2 else 9, ext=6, v=v)))
    return J


COVERAGE = "see NOTE"
