"""S02: every live particle has an identity of its own."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of histories of pair/photon creation, migration, rebalancing, pruning and window shifts on 1-3 simulated processes; a ledger of identifiers is checked after every step"
NOTE = "All histories of depth 2-3 over event patterns x ownership changes x pruning on 4 patches, 1-3 processes, 2D/3D, with and without a moving window; every identifier is tied to one particle through its exactly predicted momentum, weight and position."
ASSUMPTIONS = ["which particle has a QED event is forced at the event stage", "the partitioner is replaced by the driver's choice of ownership", "MPI is simulated"]
SH = np.array([0.5, 0.25, 0.75, 0.125, 0.625, 0.3])
NAMES = {"e": "electron", "g": "photon", "p": "positron", "i": "proton"}


def boot():
    global lp, simmpi, cbk
    from vlib import lp as lp_, simmpi as sm
    from lambdapic import callback as cb
    lp, simmpi, cbk = lp_, sm, cb


def species(density=None, dim=2):
    f = lp.uniform_density(dim, 1e9) if density else None
    kw = dict(density=f, ppc=1) if density else {}
    e = lp.Electron(radiation="photons", **kw)
    ph = lp.Photon()
    po = lp.Positron(radiation="photons")
    e.set_photon(ph)
    po.set_photon(ph)
    ph.set_bw_pair(electron=e, positron=po)
    return [e, ph, po, lp.Proton(**kw)]


def live(sim):
    """{species: [(id, row)]}: row = u, w, pos"""
    ax = "xyz"[:sim.dimension]
    out = {}
    for s in range(4):
        t = []
        for p in sim.patches:
            q = p.particles[s]
            for i in np.flatnonzero(~q.is_dead):
                t.append((int(q.id[i]), (q.ux[i], q.uy[i], q.uz[i], q.w[i]) + tuple(getattr(q, a)[i] for a in ax)))
        out[s] = t
    return out


def play(dim, npatch, per, size, ranks, hist, window=False, mode="eager", chooser=None, prune=None, wmode=None):
    """hist: per step (event mask for e/p, event mask for g, owner table or None, prune?)
    Returns world, per step per rank records: before the events, expected rows with event, at the end"""
    n = tuple(4 * k for k in npatch)
    d = (0.1e-6, 0.07e-6, 0.09e-6)[:dim]
    rec = [[None] * len(hist) for _ in range(size)]
    first = [None] * size
    P = lp.partition()
    P.queue = [list(ranks)] + [list(h[2]) for h in hist if h[2] is not None]
    ax = "xyz"[:dim]

    def build(r):
        sp = species(density=window, dim=dim)
        s = lp.make_sim(dim, n, npatch, per, d=d, ng=2, cpml=2, species=sp)
        s.initialize()
        for p in s.patches:
            k = int(np.ravel_multi_index(lp.ipatch_of(s, p), npatch))
            for isp, q in enumerate(p.particles):
                cnt = (2, 1, 1, 1)[isp]
                q.initialize(cnt + k % 2)
                for i in range(cnt):
                    t = 1 + 7 * k + 3 * i + 29 * isp
                    for j, a in enumerate(ax):
                        getattr(q, a)[i] = getattr(p, a + "0") + d[j] * ((0.37 * t + 0.2 * j) % 3.5 - 0.3)
                    q.ux[i], q.uy[i], q.uz[i] = [((t * z) % 11 - 5.1) for z in (3, 5, 2)]
                    q.inv_gamma[i] = 1 / np.sqrt((isp != 1) + q.ux[i] ** 2 + q.uy[i] ** 2 + q.uz[i] ** 2)
                    q.w[i] = 1e-3 * (1 + t / 512)
                q.is_dead[cnt:] = True
                q.extended = True
                if hasattr(q, "tau"):
                    q.tau[:] = 50.0
        s.update_lists()
        first[r] = live(s)
        cbs = []
        if window:
            from lambdapic.callback.utils import MovingWindow
            cbs.append(MovingWindow(velocity=window * lp.C * 2, start_time=0.0))
        for i, h in enumerate(hist):
            ev = {}
            born = {}

            def at_qed(sim, h=h, i=i):
                isp = sim.ispec
                for p in sim.patches:
                    q = p.particles[isp]
                    if not hasattr(q, "event"):
                        return
                    m = h[1] if isp == 1 else h[0]
                    al = np.flatnonzero(~q.is_dead & (np.abs(q.ux) + np.abs(q.uy) > 1e-2))     # particles at rest have no events
                    q.event[:] = False
                    if m == 1:
                        q.event[al] = True
                    elif m == 2:
                        q.event[al[::2]] = True
                    q.delta[:] = np.where(q.event, SH[(np.arange(q.npart) + i) % len(SH)], 0.0)

            def at_push(sim):
                isp = sim.ispec
                for p in sim.patches:
                    q = p.particles[isp]
                    for k in np.flatnonzero(~q.is_dead):
                        ev.setdefault(isp, []).append((int(q.id[k]), (q.ux[k], q.uy[k], q.uz[k], q.w[k]) + tuple(getattr(q, a)[k] for a in ax),
                                                       bool(q.event[k]) if hasattr(q, "event") else False, float(q.delta[k]) if hasattr(q, "delta") else 0.0))

            def at_end(sim, h=h):
                born["end"] = live(sim)
            s.load_balancer.threshold = np.inf if h[2] is None else -1.0
            s.run(nsteps=1, callbacks=cbs + [cbk("_qed")(at_qed), cbk("_push_position_2")(at_push), cbk("end")(at_end)])
            if h[3]:
                for p in s.patches:
                    for q in p.particles:
                        q.prune(0.0)
                s.update_lists()
            born["pruned"] = live(s)
            rec[r][i] = (ev, born)
        return s
    w = simmpi.World(size, simmpi.MODES[mode], chooser)
    w.run(build)
    return w, first, rec


def judge(size, first, rec, nsteps, dim, window):
    """walk through the history with a ledger id -> particle"""
    owner = {}
    for s in range(4):
        t = [x for r in range(size) for x in first[r][s]]
        if len({i for i, _ in t}) != len(t):
            return "duplicate", f"{NAMES['egpi'[s]]}s share an id after loading"
        owner[s] = {i: row for i, row in t}
    ever = {s: set(owner[s]) for s in range(4)}
    for step in range(nsteps):
        for s in range(4):
            nm = NAMES["egpi"[s]]
            pu = [x for r in range(size) for x in rec[r][step][0].get(s, [])]
            ids = [x[0] for x in pu]
            if len(set(ids)) != len(ids):
                return "duplicate", f"step {step}: {nm}s share an id during the push"
            expect = {}
            for i, row, e, de in pu:
                if i not in owner[s]:
                    if not window:
                        return "new", f"step {step}: {nm} {i:#x} appeared from nowhere before the push"
                    if i in ever[s]:
                        return "reused", f"step {step}: an injected {nm} got the id {i:#x} of an earlier particle"
                else:
                    o = owner[s][i]
                    if max(abs(a - b) for a, b in zip(o[:3], row[:3])) > 1e-3 or o[3] != row[3]:
                        return "swapped", f"step {step}: id {i:#x} ({nm}) had u={o[:3]}, w={o[3]!r}; now u={row[:3]}, w={row[3]!r}"
                if e and s == 1:
                    continue
                expect[i] = tuple(u * (1 - de) if e else u for u in row[:3]) + row[3:]
            for key in ("end", "pruned"):
                t = [x for r in range(size) for x in rec[r][step][1][key][s]]
                ids = [x[0] for x in t]
                if len(set(ids)) != len(ids):
                    dup = [i for i in set(ids) if ids.count(i) > 1][0]
                    return "duplicate", f"step {step}: two live {nm}s carry the id {dup:#x}: {[row for i, row in t if i == dup]}"
                for i, row in t:
                    if i in expect:
                        o = expect[i]
                        if max(abs(a - b) for a, b in zip(o[:3], row[:3])) > 1e-3 or o[3] != row[3]:
                            return "swapped", f"step {step} ({key}): id {i:#x} ({nm}) should have u={o[:3]}, w={o[3]!r}; it has u={row[:3]}, w={row[3]!r}"
                    elif i in ever[s]:
                        return "reused", f"step {step}: a new {nm} got the id {i:#x} of an earlier particle"
                if not window:
                    lost = set(expect) - set(ids)
                    if lost:
                        return "lost", f"step {step} ({key}): {nm} id(s) {[hex(i) for i in lost][:3]} vanished"
            owner[s] = dict(t)
            ever[s] |= set(ids) | {x[0] for x in pu}
    return None


def histories(ctx, dim, npatch, per, size, ranks, depth, tables, part=(0, 1), stride=1, window=False, masks=(0, 1, 2), prunes=(False, True), modes=("eager",), perm=None):
    boot()
    opts = list(itertools.product(masks, (0, 1), tables, prunes))
    k, K = part
    for i, h in enumerate(itertools.product(opts, repeat=depth)):
        if i % K != k or (i // K) % stride:
            continue
        for mode in modes:
            case = dict(dim=dim, npatch=npatch, per=per, size=size, ranks=ranks, hist=h, window=window, mode=mode, perm=perm)
            ctx.case(case)
            ctx.add("traces")
            ctx.add("transitions", depth)
            ctx.state(case)
            w, first, rec = play(dim, npatch, per, size, ranks, h, window, mode, simmpi.Chooser(order=perm, rr=perm is None) if size > 1 else None)
            if not w.ok():
                ctx.violation(f"run:{dim}d:{size}", w.report(), case)
                return
            e = judge(size, first, rec, depth, dim, window)
            if e:
                ctx.violation(f"{e[0]}:{dim}d:{'window' if window else 'box'}", f"{case}: {e[1]}", case)
                return
    ctx.sample(case)


def compiled(ctx, dim):
    np_ = (2, 2, 1)[:dim]
    histories(ctx, dim, np_, "p" * dim, 1, (0,) * 4, 2, (None,), stride=7)
    histories(ctx, dim, np_, "p" * dim, 2, (0, 0, 1, 1), 3, (None, (0, 1, 0, 1)), part=(5, 397))


def jobs(tier, seed):
    from vlib import jitjob
    th = tier == "thorough"
    J = []
    for dim in (2, 3):
        np_ = (2, 2, 1)[:dim]
        J.append((f"compiled-{dim}d", jitjob.jit, dict(target="harness.s02:compiled", args=dict(dim=dim), threads=2)))
        J.append((f"solo-{dim}d", histories, dict(dim=dim, npatch=np_, per="p" * dim, size=1, ranks=(0,) * 4, depth=2, tables=(None,), stride=1 if th else dim - 1)))
        for k in range(8 if th else 2):
            J.append((f"solo3-{dim}d-{k}", histories, dict(dim=dim, npatch=np_, per="p" * dim, size=1, ranks=(0,) * 4, depth=3, tables=(None,), part=(k, 8 if th else 37 * dim))))
        J.append((f"two-{dim}d", histories, dict(dim=dim, npatch=np_, per="p" * dim, size=2, ranks=(0, 0, 1, 1), depth=2, tables=(None, (0, 1, 0, 1), (1, 1, 0, 0)), stride=1 if th else (7 if dim == 2 else 19))))
        for k in range(8 if th else 2):
            J.append((f"two3-{dim}d-{k}", histories, dict(dim=dim, npatch=np_, per="p" * dim, size=2, ranks=(0, 1, 1, 0), depth=3, tables=(None, (0, 1, 0, 1)), part=(k, 23 if th else 331 * dim))))
        J.append((f"three-{dim}d", histories, dict(dim=dim, npatch=np_, per="p" * dim, size=3, ranks=(0, 1, 2, 1), depth=2, tables=(None, (2, 1, 0, 0)), stride=1 if th else 29, masks=(0, 1))))
        for win in (1, -1):
            for size, ranks in ((1, (0,) * 4), (2, (0, 1, 1, 0))):
                t = (None,) if size == 1 else (None, (1, 1, 0, 0))
                J.append((f"window-{dim}d-{win}-{size}", histories, dict(dim=dim, npatch=(4, 1, 1)[:dim], per="o" + "p" * (dim - 1), size=size, ranks=ranks, depth=3, tables=t, window=win, masks=(0, 1), prunes=(False,), stride=1 if th else (7 if size == 1 else 61))))
    return J


COVERAGE = "see NOTE"
