"""M03: local particle migration."""
import itertools

import numpy as np

NEEDS = {"mode": "shim"}
TECHNIQUE = "exhaustive enumeration of crossing patterns, slot patterns, boundary positions and exchange histories on the real code"
NOTE = "All grids and boundary kinds to 3x3 / 2x2x2+, all positions of a boundary alphabet (incl. one ulp around faces), all slot/mover patterns of a small patch, repeated exchanges; single process."
ASSUMPTIONS = ["a particle moves less than one patch between exchanges", "within 1e-6 cells of a face either side may own a particle"]


def boot():
    global lp
    from vlib import lp as lp_
    lp = lp_


def species(dim, kind):
    if kind == "electron":
        return lp.Electron()
    if kind == "photonic":
        ph = lp.Photon()
        return lp.Electron(radiation="photons", photon=ph), ph
    raise ValueError(kind)


def attr_names(q):
    return [a for a in q.attrs if a not in ("x", "y", "z", "_id")]


def put(sim, ispec, layout):
    """layout: patch k -> list of (alive, pos or None, tag).  Returns expected table."""
    ax = "xyz"[:sim.dimension]
    for p, slots in zip(sim.patches, layout):
        q = p.particles[ispec]
        q.initialize(len(slots))
        for i, (alive, pos, tag) in enumerate(slots):
            if alive:
                for a, v in zip(ax, pos):
                    getattr(q, a)[i] = v
                for j, a in enumerate(attr_names(q)):
                    getattr(q, a)[i] = tag + j * 1e-3
                q.w[i] = tag
            else:
                q.is_dead[i] = True
                q.x[i] = np.nan
        q.extended = True


def put_bulk(sim, ispec, k, pos, tags, dead=0):
    q = sim.patches[k].particles[ispec]
    q.initialize(len(tags) + dead)
    for a, v in zip("xyz", pos.T):
        getattr(q, a)[:len(tags)] = v
    for j, a in enumerate(attr_names(q)):
        getattr(q, a)[:len(tags)] = tags + j * 1e-3
    q.w[:len(tags)] = tags
    q.is_dead[len(tags):] = True
    q.extended = True


def snapshot(sims, ispec):
    """alive particles of all ranks: columns tag, patch grid position (flat), x,y[,z], id, other attributes"""
    out = []
    sims = sims if isinstance(sims, list) else [sims]
    sim = sims[0]
    for s, p in [(s, p) for s in sims for p in s.patches]:
        q = p.particles[ispec]
        k = np.ravel_multi_index(lp.ipatch_of(s, p), lp.cells(s)[1])
        n = q.npart
        lens = {len(getattr(q, a)) for a in q.attrs} | {len(q.is_dead)}
        if lens != {n}:
            raise AssertionError(f"array lengths {lens} != npart {n}")
        al = np.flatnonzero(~q.is_dead)
        cols = [q.w[al], np.full(len(al), float(k))] + [getattr(q, a)[al] for a in "xyz"[:sim.dimension]]
        cols.append(q._id.view(np.int64)[al].astype(float))
        cols += [getattr(q, a)[al] for a in attr_names(q)]
        out.append(np.column_stack(cols) if len(al) else np.zeros((0, len(cols))))
    t = np.concatenate(out)
    return t[np.argsort(t[:, 0], kind="stable")]


def judge(sim, per, thick, before, after):
    """before/after: snapshots.  Returns error text or None."""
    dim = sim.dimension
    n, npatch, nper = lp.cells(sim)
    d = np.array([sim.dx, sim.dy] + ([sim.dz] if dim == 3 else []))
    eps = 1e-6
    N = len(before)
    must, dead = np.ones(N, bool), np.zeros(N, bool)
    opts = []
    for a in range(dim):
        u = before[:, 2 + a] / d[a] + 0.5
        lo, hi = u - eps, u + eps
        c1, c2 = np.floor(lo / nper[a]).astype(int), np.floor(hi / nper[a]).astype(int)
        if per[a] == "p":
            opts.append((c1 % npatch[a], c2 % npatch[a]))
        else:
            ok1 = (lo >= thick) & (lo <= n[a] - thick)
            ok2 = (hi >= thick) & (hi <= n[a] - thick)
            must &= ok1 & ok2
            dead |= ~ok1 & ~ok2
            opts.append((c1, c2))
    tags, cnt = np.unique(after[:, 0], return_counts=True)
    if (cnt > 1).any():
        t = tags[cnt > 1][0]
        return f"particle tag {t} is stored {cnt.max()} times", "duplicate"
    if not np.isin(tags, before[:, 0]).all():
        return f"particles with unknown tag {tags[~np.isin(tags, before[:, 0])][:3]} appeared", "ghost"
    alive = np.isin(before[:, 0], tags)
    lost = must & ~alive
    if lost.any():
        i = np.flatnonzero(lost)[0]
        return f"particle at {[repr(float(v)) for v in before[i, 2:2 + dim]]} (cells {before[i, 2:2 + dim] / d + 0.5}) in patch {int(before[i, 1])} was lost ({int(lost.sum())} lost)", "lost"
    kept = dead & alive
    if kept.any():
        i = np.flatnonzero(kept)[0]
        return f"particle at cells {before[i, 2:2 + dim] / d + 0.5} left through an open boundary but is still alive", "kept"
    b = before[alive]
    if len(b) != len(after):
        return "count mismatch", "count"
    coords = np.column_stack(np.unravel_index(after[:, 1].astype(int), npatch))
    for a in range(dim):
        o1, o2 = opts[a][0][alive], opts[a][1][alive]
        bad = (coords[:, a] != o1) & (coords[:, a] != o2)
        if bad.any():
            i = np.flatnonzero(bad)[0]
            return f"particle at cells {b[i, 2:2 + dim] / d + 0.5} is stored in patch {tuple(coords[i])}", "place"
        delta = after[:, 2 + a] - b[:, 2 + a]
        if per[a] == "p":
            L = n[a] * d[a]
            k = np.round(delta / L)
            bad = np.abs(delta - k * L) > 8 * np.spacing(L + np.abs(b[:, 2 + a]))
            u = after[:, 2 + a] / d[a] + 0.5
            bad |= (u < -eps) | (u > n[a] + eps)
            bad |= (k == 0) & (delta != 0)
        else:
            bad = delta != 0
        # a particle on a face may be moved by rounding only
        if bad.any():
            i = np.flatnonzero(bad)[0]
            near = abs((b[i, 2 + a] / d[a] + 0.5) / nper[a] - round((b[i, 2 + a] / d[a] + 0.5) / nper[a])) * nper[a] < 1e-9
            if not (near and abs(delta[i]) < 1e-9 * d[a]):
                return f"coordinate {a} changed from {float(b[i, 2 + a])!r} to {float(after[i, 2 + a])!r}", "position"
    if not np.array_equal(b[:, 2 + dim:], after[:, 2 + dim:], equal_nan=True):
        i, j = np.argwhere(~((b[:, 2 + dim:] == after[:, 2 + dim:]) | (np.isnan(b[:, 2 + dim:]) & np.isnan(after[:, 2 + dim:]))))[0]
        return f"attribute column {j} of a particle changed from {b[i, 2 + dim + j]} to {after[i, 2 + dim + j]}", "attribute"
    return None


def step(ctx, sim, per, thick, nspec, key, case):
    before = [snapshot(sim, i) for i in range(nspec)]
    sim.patches.sync_particles()
    ctx.add("transitions")
    for i in range(nspec):
        r = judge(sim, per, thick, before[i], snapshot(sim, i))
        if r:
            ctx.violation(f"{r[1]}:{key}", f"{case}: species {i}: {r[0]}", case)
            return False
    return True


def axis_alphabet(lo, hi, d):
    """positions around a patch's extent [lo, hi] on one axis"""
    out = []
    for b in (lo, hi):
        out += [b, np.nextafter(b, -1), np.nextafter(b, 1), b - 2 * np.spacing(abs(b)), b + 2 * np.spacing(abs(b))]
        out += [b - 1e-3 * d, b + 1e-3 * d]
    out += [lo - 0.9 * d, hi + 0.9 * d, 0.5 * (lo + hi)]
    return out


def positions(ctx, dim, npatches, pers, nper, ds, thick=1, dead=3):
    boot()
    for npatch in npatches:
        for per in pers:
            if not lp.pml_ok(dim, npatch, per):
                continue
            for d in ds:
                n = tuple(a * b for a, b in zip(npatch, nper))
                case = dict(kind="positions", npatch=npatch, per=per, nper=nper, d=d)
                ctx.case(case)
                sim = lp.make_sim(dim, n, npatch, per, d=d, cpml=thick, ng=1, species=[lp.Electron()])
                sim.initialize()
                tag = 1.0
                for k, p in enumerate(sim.patches):
                    c = lp.ipatch_of(sim, p)
                    al = []
                    for a in range(dim):
                        lo, hi = (c[a] * nper[a] - 0.5) * d[a], ((c[a] + 1) * nper[a] - 0.5) * d[a]
                        # the bounds as different pieces of code would round them
                        x0 = getattr(p, "xyz"[a] + "0")
                        v = set(axis_alphabet(lo, hi, d[a])) | {x0 - 0.5 * d[a], x0 + (nper[a] - 1) * d[a] + 0.5 * d[a], x0 + nper[a] * d[a] - 0.5 * d[a]}
                        b2 = x0 + (nper[a] - 1) * d[a] + 0.5 * d[a]
                        v |= {np.nextafter(b2, 1), np.nextafter(b2, -1), np.nextafter(x0 - 0.5 * d[a], -1)}
                        al.append(sorted(v))
                    if dim == 3:        # all triples with at most two axes near faces plus the plain corners
                        keep = [np.array(v) for v in al]
                        plain = [np.array([v[0], 0.5 * (v[0] + v[-1]), v[-1]]) for v in keep]
                        pts = set()
                        for a in range(3):
                            g = [plain[b] if b != a else keep[b] for b in range(3)]
                            pts |= set(itertools.product(*[x.tolist() for x in g]))
                        pos = np.array(sorted(pts))
                    else:
                        pos = np.array(list(itertools.product(*al)))
                    tags = tag + np.arange(len(pos))
                    tag += len(pos)
                    put_bulk(sim, 0, k, pos, tags, dead)
                ctx.add("particles", int(tag) - 1)
                ctx.add("traces")
                ctx.state(case)
                if not step(ctx, sim, per, thick, 1, f"positions{dim}d", case):
                    return
                # a second exchange must change nothing
                ref = snapshot(sim, 0)
                sim.patches.sync_particles()
                if not np.array_equal(ref, snapshot(sim, 0), equal_nan=True):
                    ctx.violation(f"again:positions{dim}d", f"{case}: a second exchange without motion changed particles", case)
                    return
    ctx.sample(case)


def centre(sim, c, off):
    """a position: patch c, off in {-1,0,1} per axis means beyond the low face / inside / beyond the high face"""
    nper = lp.cells(sim)[2]
    d = (sim.dx, sim.dy, getattr(sim, "dz", 0)) if sim.dimension == 3 else (sim.dx, sim.dy)
    return [((ci * m - 0.5) + (-0.3 if o < 0 else m + 0.3 if o > 0 else 0.4 * m)) * dd for ci, o, m, dd in zip(c, off, nper, d)]


def slots(ctx, dim, npatch, per, nper, nslots, other, moves, part, nparts, thick=1):
    """every pattern of (dead / staying / moving in any direction) over the slots of one patch,
    against slot patterns of the other patches"""
    boot()
    n = tuple(a * b for a, b in zip(npatch, nper))
    sim = lp.make_sim(dim, n, npatch, per, cpml=thick, ng=1, species=[lp.Electron()])
    sim.initialize()
    D = [o for o in itertools.product((-1, 0, 1), repeat=dim)]
    if moves is not None:
        D = [o for o in D if o in moves]
    C = [lp.ipatch_of(sim, p) for p in sim.patches]
    alpha = [None] + D
    k = 0
    for oth in other:
        for pat in itertools.product(alpha, repeat=nslots):
            k += 1
            if k % nparts != part:
                continue
            case = dict(kind="slots", npatch=npatch, per=per, first=pat, others=oth)
            if k % 16 == part:
                ctx.case(case)
            layout = [[(m is not None, None if m is None else centre(sim, C[0], m), 1.0 + i) for i, m in enumerate(pat)]]
            for j in range(1, len(C)):
                o = oth[(j - 1) % len(oth)]
                layout.append([(m is not None, None if m is None else centre(sim, C[j], m), 100.0 * j + i) for i, m in enumerate(o)])
            put(sim, 0, layout)
            ctx.add("traces")
            ctx.state(pat, oth)
            if not step(ctx, sim, per, thick, 1, f"slots{dim}d", case):
                return
    ctx.sample(case)


def histories(ctx, dim, npatch, per, nper, depth, moves, thick=1):
    """all sequences of collective moves of a fixed population, exchange after each"""
    boot()
    n = tuple(a * b for a, b in zip(npatch, nper))
    ph = lp.Photon()
    el = lp.Electron(radiation="photons")
    el.set_photon(ph)
    sim = lp.make_sim(dim, n, npatch, per, cpml=thick, ng=1, species=[el, ph])
    sim.initialize()
    C = [lp.ipatch_of(sim, p) for p in sim.patches]
    d = [sim.dx, sim.dy] + ([sim.dz] if dim == 3 else [])
    for seq in itertools.product(range(len(moves)), repeat=depth):
        case = dict(kind="history", npatch=npatch, per=per, moves=[moves[i] for i in seq])
        ctx.case(case)
        for s in range(2):
            put(sim, s, [[((i + k + s) % 3 != 2, centre(sim, c, [0] * dim), 1.0 + 10 * k + i + 1000 * s) for i in range(3 + 2 * s)] for k, c in enumerate(C)])
        ctx.add("traces")
        ctx.state(seq)
        for i in seq:
            for p in sim.patches:
                for s in range(2):
                    q = p.particles[s]
                    # species and parity of the tag choose between the move and its opposite, so streams cross
                    sg = np.where((np.nan_to_num(q.w).astype(int) + s) % 2 == 0, 1.0, -1.0)
                    for a, ax in enumerate("xyz"[:dim]):
                        getattr(q, ax)[...] += sg * moves[i][a] * 0.45 * nper[a] * d[a]
            if not step(ctx, sim, per, thick, 2, f"history{dim}d", case):
                return
            sim.update_lists()
    ctx.sample(case)


def jobs(tier, seed):
    big = tier == "thorough"
    J = []
    A2 = ["pp", "po", "op", "oo"]
    A3 = ["".join(t) for t in itertools.product("po", repeat=3)]
    ds2 = [(1e-7, 1e-7), (1.0 / 3e7, 0.7e-7), (0.8e-6 / 20, 0.8e-6 / 15)]
    ds3 = [tuple(x) + (x[0] * 1.3,) for x in ds2]
    for a in (1, 2, 3):
        for nper in ((4, 5), (7, 3)) + (((10, 13),) if big else ()):
            J.append((f"pos2d-{a}-{nper}", positions, dict(dim=2, npatches=[(a, b) for b in (1, 2, 3)], pers=A2, nper=nper, ds=ds2)))
    for a in (1, 2, 3):
        J.append((f"pos3d-{a}", positions, dict(dim=3, npatches=[(a, b, c) for b in (1, 2, 3) for c in (1, 2, 3)], pers=A3 if big else ["ppp", "ooo", "pop", "opo"],
                                                nper=(4, 3, 5), ds=ds3 if big else ds3[1:2])))
    o2 = [((None, None),), (((0, 0),),), (((0, 0), (1, 0), (-1, 0)),), ((None, (0, 1), (1, -1), (0, 0)),)]
    for npatch, per in (((2, 1), "pp"), ((2, 2), "pp"), ((2, 2), "oo"), ((1, 1), "pp"), ((3, 2), "po")) :
        if not all(k == "p" or m > 1 for k, m in zip(per, npatch)):
            continue
        for part in range(2):
            J.append((f"slots2d-{npatch}-{per}-{part}", slots, dict(dim=2, npatch=npatch, per=per, nper=(4, 4), nslots=4 if big else 3, other=o2, moves=None, part=part, nparts=2)))
    o3 = [((None,),), (((0, 0, 0), (1, 0, 0)),)]
    for npatch, per in (((2, 2, 2), "ppp"), ((2, 1, 2), "ppp"), ((2, 2, 2), "ooo"), ((1, 1, 1), "ppp")):
        J.append((f"slots3d-{npatch}-{per}", slots, dict(dim=3, npatch=npatch, per=per, nper=(4, 4, 4), nslots=3 if big else 2, other=o3, moves=None, part=0, nparts=1)))
    M2 = [(1, 0), (0, 1), (1, 1), (1, -1)]
    M3 = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, -1), (1, 1, 1), (1, -1, 1)]
    for npatch, per in (((2, 2), "pp"), ((3, 2), "po"), ((3, 3), "oo"), ((1, 2), "pp")):
        J.append((f"hist2d-{npatch}-{per}", histories, dict(dim=2, npatch=npatch, per=per, nper=(4, 4), depth=6 if big else 4, moves=M2)))
    for npatch, per in (((2, 2, 2), "ppp"), ((2, 3, 2), "opo"), ((1, 2, 1), "ppp")):
        J.append((f"hist3d-{npatch}-{per}", histories, dict(dim=3, npatch=npatch, per=per, nper=(4, 4, 4), depth=4 if big else 2, moves=M3)))
    return J


COVERAGE = "every position of an alphabet around faces/edges/corners (exact, 1-2 ulp, 1e-3 cells, 0.9 cells) for every patch of all grids to 3x3 / 3x3x3; all dead/stay/move patterns over 3 slots (2 in 3D); all 4-step (2 in 3D) histories of crossing streams"
